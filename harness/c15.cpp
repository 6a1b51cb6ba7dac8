// C15: after every history, an optimization gives what a fresh optimizer on a freshly built graph gives.
#include "opthist.hpp"
#include "optenv.hpp"
using namespace oh;

// against every scripted environment (steps that fail, errors, singular systems): a silent and a verbose run
static void scripted()
{
    using oe::Env; Env env;
    env.costs = {oe::LOWER, oe::HIGHER, oe::SAME, oe::NOTANUMBER, oe::THROWS, oe::INFINITE, oe::SLIGHTLY};
    env.jacs = {oe::REGULAR, oe::SINGULAR, oe::ILL, oe::BADJ, oe::STATIONARY, oe::JTHROWS, oe::ZEROJ};
    fr::OptimizerSettings s; s.method = mc::flip("method") ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
    if (mc::flip("settings")) { s.initial_lambda = 100; s.learning_rate = 0.6; s.step_tolerance = 0; }
    s.max_num_iterations = 1 + mc::choose(mc::tier ? 4 : 3, "iterations"); env.exotic = 2;
    bool loud = mc::flip("verbose"), check = mc::flip("check_rank_deficiency"); s.check_rank_deficiency = check;
    struct R { VX x; bool threw = false; fr::OptimizerStats a, b; std::string cov; } r[2];
    for (int run = 0; run < 2; ++run) {
        auto x = gen(5, vx({0.5, -0.25})); auto k = gen(2, vx({7.0, 0.1, 3})); k->set_constant(true);
        auto g = std::make_shared<FactorGraph>(); g->add_variable(x); g->add_variable(k);
        auto f = std::make_shared<oe::Scripted>(&env, x.get(), k.get()); g->add_factor(f); g->finalize_structure();
        s.verbose = run ? !loud : loud; if (run) s.check_rank_deficiency = false;
        size_t known = env.pts.size();
        fr::SparseOptimizer o; o.setup(g, s); try { o.optimize(); } catch (const std::exception&) { r[run].threw = true; }
        if (run && env.pts.size() != known) mc::fail("%s run evaluated other points than the %s one", s.verbose ? "the verbose" : "the silent", loud ? "verbose" : "silent");
        r[run].x = x->value(); r[run].a = o.initial_stats_; r[run].b = o.current_stats_;
        mc::log("%s: ended at %s with status %d%s", s.verbose ? "verbose" : "silent", str(r[run].x).c_str(), (int)o.current_stats_.status, r[run].threw ? ", an error was raised" : "");
    }
    mc::matched(); mc::step(2);
    auto same = [](const fr::OptimizerStats& a, const fr::OptimizerStats& b) { auto eq = [](double p, double q) { return p == q || (p != p && q != q); };
        return a.valid == b.valid && a.status == b.status && eq(a.chi2, b.chi2) && eq(a.delta_norm, b.delta_norm) && eq(a.residual_norm, b.residual_norm) && a.current_iteration == b.current_iteration && eq(a.damping_parameter, b.damping_parameter); };
    if (r[0].threw != r[1].threw) mc::fail("only the %s run raised an error", (r[0].threw ? loud : !loud) ? "verbose" : "silent");
    if (!bits_equal(r[0].x, r[1].x) || !same(r[0].a, r[1].a) || !same(r[0].b, r[1].b)) mc::fail("verbose output (or the rank deficiency setting) changed the outcome: status %d at %s against status %d at %s", (int)r[0].b.status, str(r[0].x).c_str(), (int)r[1].b.status, str(r[1].x).c_str());
    mc::Hash h; hash(h, r[0].x); h.i((int)r[0].b.status).i(r[0].b.current_iteration); mc::outcome(h);
    for (auto& p : env.pts) { mc::Hash q; q.i(p.kind).i(p.jac); hash(q, p.x); mc::state(q); }
}
static void body()
{
    if (mc::choose(2, "family")) { scripted(); return; }
    static const int pairs[][2] = {{0, 2}, {4, 0}, {3, 5}, {6, 2}};
    int pr = mc::choose(mc::tier ? 4 : 3, "problems");
    Hist h(pairs[pr][0], pairs[pr][1]);
    int start = mc::choose(3, "start");
    static const std::vector<int> starts[] = {{}, {SETUPA1, OPT, PREP, MOVE}, {SETUPB3, OPTFAIL, EVAL, SETUPA2, OPT}};
    for (int op : starts[start]) run(h, op);
    mc::log("--");
    int depth = mc::tier && pr < 2 ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(NHOPS, "op");
        if (op == QUERY) { if (h.cur >= 0) for (auto& v : h.s[h.cur].p.V) { bool ok; h.o.estimate_covariance(v.get(), ok); } }
        else run(h, op);
        mc::Hash q; q.i(pr).i(h.cur).i(h.complete).i(h.prepared).i(h.clean); for (auto& s : h.s) { for (auto& x : values(s.p)) hash(q, x); for (bool b : consts(s.p)) q.i(b); for (bool b : s.sig) q.i(b); }
        mc::state(q);
    }
    static const auto S = all_settings();
    int side = mc::choose(2, "final graph"), k = mc::choose((int)S.size(), "final settings");
    Side& s = h.s[side];
    if (!s.current()) { s.g->finalize_structure(); s.sig = consts(s.p); }
    auto st = S[k];
    mc::log("-- finally graph %d, settings %d", side, k);
    auto ic = consts(s.p);
    for (int again = 0; again < 2; ++again) {
        Problem q = twin(s.kind, s.p, [](int i) { return i * 3 + 1; }, [](int i) { return 50 - i; });
        auto g2 = graph(q); fr::SparseOptimizer o2; auto st2 = st; st2.verbose = !st.verbose; o2.setup(g2, st2);
        // the same optimizer again, without and with a set-up
        if (again == 0 || k == 1) h.o.setup(s.g, st);
        Outcome a = optimize(h.o, s.p), b = optimize(o2, q);
        mc::step(2);
        compare(s.p, a, b, 1e-7, again ? "the second run" : "the run");
        if (consts(s.p) != ic) mc::fail("optimizing changed which variables are constant");
        Answer x = stacked(s.p.V, s.p.F), y = stacked(q.V, q.F);
        if (!close(s.g->compute_full_residual_vector(), y.res, 1e-7) || !close(s.g->compute_full_jacobian_matrix(), y.J, 1e-6) || !close(dense(s.g->compute_sparse_jacobian_matrix()), y.J, 1e-6)) mc::fail("after the run the graph evaluates differently from a fresh one");
        mc::Hash o; for (auto& v : a.x) hash(o, v); o.i((int)a.status).i(a.it); mc::outcome(o);
        if (k == 0 || k == 4) break;
    }
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
