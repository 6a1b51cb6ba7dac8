// C26: two threads, each with objects of its own.  One execution = two programs and a schedule of their accesses to
// memory both touch; every result must be the one the program gives when it runs alone.
#include "problems.hpp"
#include "mtrt.hpp"
#include <factorama/kernels.hpp>
#include <factorama/numerical_jacobian.hpp>
#include <factorama/stopwatch.hpp>
#include <sys/wait.h>
using namespace pb;
struct Shm { alignas(64) volatile int done[16]; alignas(64) int len0[16], len1[16]; int& len(int t) { return t ? len1[0] : len0[0]; } long yields[2]; size_t nconf; uintptr_t conf[4096]; char text[2][1 << 17]; };
static Shm* S;
struct Prog { int kind, a, b; std::string name; };
static std::vector<Prog> progs;
struct Out
{
    int t; Out(int t_) : t(t_) {}
    void line(const char* n, double d) { int& l = S->len(t); if (l < (1 << 17) - 80) l += snprintf(S->text[t] + l, 80, "%.40s=%.17g\n", n, d); }
    void num(const char* n, const MX& m) { line(n, m.rows()); for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) line(n, m(i, j)); }
    void num(const char* n, double d) { line(n, d); }
};
static void factor_program(Out& o, int kind, int seed)
{
    mc::scripted = true; mc::script_seed = seed; mc::script_pos = 0;
    Case c = make(kind);
    mc::scripted = false;
    for (int round = 0; round < 2; ++round) {
        VX r = VX::Zero(c.factor->residual_size());
        try { o.num("residual", c.factor->compute_residual()); c.factor->compute_residual(Eigen::Ref<VX>(r)); o.num("residual", r);
            std::vector<MX> J; c.factor->compute_jacobians(J); for (auto& j : J) o.num("block", j);
            std::vector<MX> N; fr::ComputeNumericalJacobians(*c.factor, N, 1e-6); for (auto& j : N) o.num("numeric block", j);
        } catch (const std::exception& e) { o.num("refused", 1); }
        o.num("name", (double)c.factor->name().size());
        for (auto& v : c.vars) { VX d(v->size()); for (int i = 0; i < d.size(); ++i) d[i] = 0.01 * (i + 1); v->apply_increment(d); o.num("value", v->value()); }
    }
    for (auto& v : c.vars) { auto w = v->clone(); o.num("copy", w->value()); v->set_constant(true); }
    std::vector<MX> J; try { c.factor->compute_jacobians(J); } catch (const std::exception&) {} o.num("blocks", (double)J.size());
}
static void graph_program(Out& o, int kind, int how)
{
    Problem p = problem(kind); auto g = graph(p);
    auto look = [&] {
        o.num("residual", MX(g->compute_full_residual_vector())); o.num("Jacobian", MX(g->compute_full_jacobian_matrix())); o.num("sparse", MX(g->compute_sparse_jacobian_matrix()));
        g->compute_full_jacobian_and_residual(); o.num("residual", MX(g->residual())); o.num("Jacobian", MX(g->jacobian()));
        o.num("x", MX(g->get_variable_vector()));
    };
    look(); VX d = VX::Constant(g->num_values(), 1e-3); g->apply_increment(d); look();
    if (how) { p.V[0]->set_constant(true); g->finalize_structure(); look(); }
    else g->set_variable_values_from_vector(VX(g->get_variable_vector() * 1.001));
    look(); o.num("diagnosis", g->detailed_factor_test(1e-4));
}
static void optimizer_program(Out& o, int kind, bool lm)
{
    Problem p = problem(kind); auto g = graph(p);
    fr::OptimizerSettings s; s.method = lm ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton; s.max_num_iterations = 3; s.residual_tolerance = 0; s.step_tolerance = 0;
    fr::SparseOptimizer opt; opt.setup(g, s);
    Outcome r = optimize(opt, p);
    for (auto& x : r.x) o.num("estimate", x);
    o.num("cost", r.chi2); o.num("initial cost", r.chi0); o.num("damping", r.lambda); o.num("step", r.dnorm); o.num("status", (int)r.status); o.num("iterations", r.it); o.num("valid", r.valid); o.num("threw", r.threw);
    for (auto& c : r.cov) o.num("covariance", c);
}
static void tool_program(Out& o, int which)
{
    if (which == 0) for (int i = 0; i < 8; ++i) { V3 w = rotvec(i); M3 R = fr::ExpMapSO3(w); o.num("exp", R); o.num("log", fr::LogMapSO3(R)); o.num("inverse Jacobian", fr::compute_inverse_right_jacobian_so3(w)); o.num("skew", fr::skew_symmetric(w)); o.num("unskew", fr::unskew(R)); }
    if (which == 1) { fr::HuberKernel k(0.5); for (int i = 0; i < 5; ++i) { VX r = vx({0.2 * i, -0.3 * i, 0.1}); o.num("kernel", k.apply_to_residual(r)); std::vector<MX> J(2, MX::Constant(3, 2, i + 1.0)); k.apply_to_jacobians(r, J); o.num("block", J[0]); o.num("block", J[1]); } }
    if (which == 2) { // every variable type, by every operation
        std::vector<VarP> V = {pose(1, 3, 0), pose2(2, v3(1, 2, 3)), lm(3, v3(1, 2, 3)), gen(4, vx({1, 2})), rot(5, v3(.1, .2, .3)), plane(6, v3(1, 2, 3), 0.5), std::make_shared<fr::InverseRangeVariable>(7, v3(0, 0, 0), v3(0, 0, 1), 3.0)};
        for (auto& v : V) { VX d = VX::Constant(v->size(), 0.2); v->apply_increment(d); o.num("value", v->value()); auto c = v->clone(); v->set_value_from_vector(VX(v->value() * 1.1)); o.num("value", v->value()); o.num("copy", c->value()); o.num("name", (double)v->name().size()); }
    }
}
static void run_prog(int t, const Prog& p)
{
    Out o(t);
    try {
        if (p.kind == 0) factor_program(o, p.a, p.b);
        if (p.kind == 1) graph_program(o, p.a, p.b);
        if (p.kind == 2) optimizer_program(o, p.a, p.b);
        if (p.kind == 3) tool_program(o, p.a);
    } catch (const std::exception& e) { o.num((std::string("raised ") + e.what()).c_str(), 0); }
    catch (...) { o.num("raised", 0); }
    S->done[8 * t] = 1;
}
struct Pair { int a, b; };
static void t0(void* v) { run_prog(0, progs[((Pair*)v)->a]); }
static void t1(void* v) { run_prog(1, progs[((Pair*)v)->b]); }
struct Res { std::string text[2]; int wait; long yields[2]; std::vector<uintptr_t> conf; bool done[2]; };
static Res go(int a, int b, bool profile, int pa, int pb, const std::vector<uintptr_t>& conf)
{
    S->done[0] = S->done[8] = 0; S->len(0) = S->len(1) = 0; S->nconf = 0; S->yields[0] = S->yields[1] = 0;
    pid_t c = fork();
    if (c == 0) {
        alarm(30);
        Pair p{a, b}; rt::run(profile, t0, &p, b >= 0 ? t1 : nullptr, &p, pa, pb, conf.data(), conf.size());
        S->yields[0] = rt::shared_accesses(0); S->yields[1] = rt::shared_accesses(1);
        if (profile) S->nconf = rt::conflicts(S->conf, 4096);
        _exit(0);
    }
    Res r; waitpid(c, &r.wait, 0);
    for (int t = 0; t < 2; ++t) { r.text[t].assign(S->text[t], S->len(t)); r.yields[t] = S->yields[t]; r.done[t] = S->done[8 * t]; }
    r.conf.assign(S->conf, S->conf + S->nconf);
    return r;
}
static std::map<int, Res> alone;
static std::map<std::pair<int, int>, std::pair<Res, Res>> profiles;
static void judge(const Res& r, int a, int b, const char* how)
{
    for (int t = 0; t < (b < 0 ? 1 : 2); ++t) {
        int k = t ? b : a;
        if (!alone.count(k)) { alone[k] = go(k, -1, false, -1, -1, {}); if (alone[k].wait) mc::fail("[%s] alone ended with status %d", progs[k].name.c_str(), alone[k].wait); }
        const std::string &x = alone[k].text[0], &y = r.text[t];
        mc::matched();
        if (r.wait || !r.done[t]) mc::fail("[%s] and [%s] in two threads, %s: the process ended with status %d", progs[a].name.c_str(), progs[b].name.c_str(), how, r.wait);
        if (x != y) {
            size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
            size_t s = x.rfind('\n', i ? i - 1 : 0); s = s == std::string::npos ? 0 : s + 1;
            mc::fail("[%s] next to [%s] in the other thread, %s: %s instead of %s", progs[k].name.c_str(), progs[t ? a : b].name.c_str(), how, y.substr(s, y.find('\n', s) - s).c_str(), x.substr(s, x.find('\n', s) - s).c_str());
        }
    }
}
static void body()
{
    int a = mc::choose((int)progs.size(), "first"), b = mc::choose((int)progs.size(), "second");
    mc::log("thread 0: %s; thread 1: %s", progs[a].name.c_str(), progs[b].name.c_str());
    auto key = std::make_pair(a, b);
    if (!profiles.count(key)) {
        profiles.clear();
        Res p = go(a, b, true, -1, -1, {}); judge(p, a, b, "one after the other");
        Res q{}; if (!p.conf.empty()) q = go(a, b, false, -1, -1, p.conf);
        profiles[key] = {p, q}; mc::step(2);
    }
    auto& pr = profiles[key];
    for (auto g : pr.first.conf) mc::log("shared memory at %p", (void*)(g << 3));
    mc::Hash h; h.i(a).i(b);
    if (pr.first.conf.empty()) { mc::count("pairs that share no written memory"); mc::choose(1, "no shared access"); h.i(0); mc::state(h); return; }
    judge(pr.second, a, b, "one after the other");
    const long CA = mc::tier ? 2000 : 300, CB = mc::tier ? 60 : 20;
    long n = pr.second.yields[0]; if (n > CA) { mc::count("schedule bound reached"); n = CA; }
    int k = mc::choose((int)n + 1, "first preemption");
    if (k == 0) { mc::state(h.i(1)); return; }
    long m = std::min(pr.second.yields[1], CB);
    int j = n * m <= (mc::tier ? 20000 : 1000) ? mc::choose((int)m + 1, "second preemption") : 0;
    Res r = go(a, b, false, k - 1, j - 1, pr.first.conf); mc::step(k + j);
    mc::log("thread 0 stops before its shared access %d, thread 1 before its %d", k, j);
    judge(r, a, b, mc::fmt("preempted at shared access %d / %d", k, j).c_str());
    mc::state(h.i(2).i(k).i(j)); mc::count("interleavings");
}
int main(int ac, char** av) // a worker owns whole pairs
{
    S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int k = 0; k < NKINDS; ++k) for (int s : {0, 5, 11}) progs.push_back({0, k, s, mc::fmt("factor %s, state %d", kind_name(k), s)});
    for (int k = 0; k < NPROB; ++k) { for (int h : {0, 1}) progs.push_back({1, k, h, mc::fmt("graph %s%s", prob_name(k), h ? ", changed" : "")}); for (int l : {0, 1}) progs.push_back({2, k, l, mc::fmt("optimizing %s by %s", prob_name(k), l ? "Levenberg-Marquardt" : "Gauss-Newton")}); }
    for (int i = 0; i < 3; ++i) progs.push_back({3, i, 0, i == 0 ? "rotation tools" : i == 1 ? "robust kernel" : "variables"});
    mc::shard_depth = 2;
    return mc::main(ac, av, body);
}
