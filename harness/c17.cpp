// C17: an error raised at every single evaluation (and bounded pairs of them) of an optimization.
#include "problems.hpp"
using namespace pb;

// delegates to a library factor; counts evaluations and raises errors at the chosen ones
struct Plan { long n = 0; std::set<long> at; int kind = 0; bool armed = false; std::vector<std::vector<VX>> accepted; std::vector<std::vector<VX>> swept; std::vector<VX> want; size_t nf = 0, sweep = 0; std::function<std::vector<VX>()> snap; long fired = 0;
    static bool same(const std::vector<VX>& a, const std::vector<VX>& b) { for (size_t i = 0; i < a.size(); ++i) if (!bits_equal(a[i], b[i])) return false; return true; }
    // the estimate the interrupted run must end at: here, if here was completely evaluated, else where the Jacobian was last evaluated
    void interrupted() { auto y = snap(); bool done = false; for (auto& q : swept) done = done || same(q, y); want = done || accepted.empty() ? y : accepted.back(); other = want;
        if (done && lm && !accepted.empty()) { double cy = cost(y), ca = cost(accepted.back()); if (cy >= ca) want = accepted.back(); if (std::fabs(cy - ca) > 1e-11 * ca) other = want; } }
    // (a trial that was evaluated and rejected is not an estimate; at a rounding's distance it cannot be told)
    std::vector<VX> other; bool lm = false; std::function<double(const std::vector<VX>&)> cost;
    void evaluated() { if (!armed || !snap) return; if (++sweep >= nf) { sweep = 0; swept.push_back(snap()); } }
};
class Faulty : public fr::Factor
{
public:
    FacP f; Plan* p;
    Faulty(FacP q, Plan* pl) : f(q), p(pl) { id_ = q->id(); }
    void tick() const
    {
        if (!p->armed) return;
        mc::step();
        if (p->at.count(p->n++)) { p->fired++; p->sweep = 0; if (p->snap) p->interrupted(); if (p->kind == 1) throw 42; if (p->kind == 2) throw std::bad_alloc(); throw std::runtime_error("injected fault"); }
    }
    int residual_size() const override { return f->residual_size(); }
    VX compute_residual() const override { tick(); VX r = f->compute_residual(); p->evaluated(); return r; }
    void compute_residual(Eigen::Ref<VX> o) const override { if (p->armed && p->kind == 3 && p->at.count(p->n)) o.setConstant(1e6); tick(); f->compute_residual(o); p->evaluated(); }
    void compute_jacobians(std::vector<MX>& J) const override
    {
        if (p->armed && p->snap && f == first) p->accepted.push_back(p->snap());
        if (p->armed && p->kind == 3 && p->at.count(p->n)) { J.clear(); J.resize(1); }
        tick(); f->compute_jacobians(J);
    }
    std::vector<fr::Variable*> variables() override { return f->variables(); }
    fr::FactorType::FactorTypeEnum type() const override { return f->type(); }
    std::string name() const override { return "faulty " + f->name(); }
    static FacP first;
};
FacP Faulty::first;

static const int probs[] = {0, 2, 4, 1, 5, 6, 3};
struct Base { long evals; std::vector<std::vector<VX>> accepted; std::vector<VX> end; };
static Problem wrapped(int k, Plan& plan, int start)
{
    Problem p = problem(k);
    if (start) for (auto& v : p.V) if (!v->is_constant()) { VX d(v->size()); for (int i = 0; i < d.size(); ++i) d[i] = (i % 2 ? -0.6 : 0.5) + 0.1 * i; v->apply_increment(d); }
    Faulty::first = p.F[0];
    for (auto& f : p.F) f = std::make_shared<Faulty>(f, &plan);
    return p;
}
static fr::OptimizerSettings settings(int method, int s)
{
    fr::OptimizerSettings o; o.method = method ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
    o.max_num_iterations = 3; if (s == 1) { o.initial_lambda = 1e-9; o.verbose = true; }
    if (s == 2) { o.learning_rate = 0.4; o.max_num_iterations = 7; o.step_tolerance = 0; o.residual_tolerance = 0; } // a longer run
    return o;
}
static const Base& baseline(int k, int method, int s, int start)
{
    static std::map<int, Base> memo; int key = ((k * 2 + method) * 3 + s) * 2 + start;
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    Plan plan; Problem p = wrapped(k, plan, start); plan.snap = [&] { return values(p); }; plan.armed = true;
    auto g = graph(p); fr::SparseOptimizer o; o.setup(g, settings(method, s)); o.optimize();
    Base b{plan.n, plan.accepted, values(p)};
    return memo[key] = b;
}
static double cost(const Problem& p) { return stacked(p.V, p.F).res.squaredNorm(); }

static void body()
{
    int k = probs[mc::choose(7, "problem")], method = mc::choose(2, "method"), s = mc::choose(3, "settings"), start = mc::choose(2, "start");
    if (k == 3 && method == 0) return; // Gauss-Newton cannot solve plane problems
    const Base& base = baseline(k, method, s, start);
    Plan plan; Problem p = wrapped(k, plan, start);
    auto g = graph(p);
    plan.kind = mc::choose(4, "error"); // std::runtime_error, an int, bad_alloc, runtime_error after partial output
    long n1 = mc::choose((int)base.evals, "first fault"); plan.at = {n1};
    // a second one in the run after: at its first evaluations, or at sampled later ones
    bool pair = s < 2 && mc::flip("pair");
    if (pair && !mc::tier && plan.kind != 0) return;
    long n2 = pair ? mc::choose((int)std::min<long>(base.evals, mc::tier ? 60 : 14), "second fault") : -1;
    auto x0 = values(p);
    fr::SparseOptimizer o; o.setup(g, settings(method, s));
    auto S = settings(method, s);
    plan.snap = [&] { return values(p); }; plan.lm = method;
    plan.cost = [&](const std::vector<VX>& x) { Problem q = fresh(k, x, consts(p)); return stacked(q.V, q.F).res.squaredNorm(); };
    for (int run = 0; run < (pair ? 2 : 1); ++run) {
        auto xs = values(p);
        double c0 = cost(p);
        plan.n = 0; plan.nf = p.F.size(); plan.sweep = 0; plan.swept.clear(); plan.accepted.clear(); plan.fired = 0; plan.at = {run == 0 ? n1 : n2};
        plan.armed = true;
        bool threw = false; try { o.optimize(); } catch (const mc::Violation&) { throw; } catch (...) { threw = true; }
        plan.armed = false;
        if (!mc::eigen_asserts.empty()) mc::fail("out-of-range access: %s", mc::eigen_asserts[0].c_str());
        auto& cs = o.current_stats_;
        auto x1 = values(p);
        mc::matched();
        mc::log("run %d: fault at evaluation %ld, %ld raised, %s, status %s, iteration %d", run, run ? n2 : n1, plan.fired, threw ? "error reached the caller" : "returned", status_name(cs.status), cs.current_iteration);
        if (!plan.fired) { if (run == 0) mc::fail("evaluation %ld of the undisturbed run did not happen before anything was disturbed", n1); if (threw) mc::fail("an undisturbed run raised an error"); break; }
        for (size_t i = 0; i < x1.size(); ++i) if (p.V[i]->is_constant() && !bits_equal(xs[i], x1[i])) mc::fail("constant variable %zu changed", i);
        if (threw) {
            for (size_t i = 0; i < x1.size(); ++i) if (!bits_equal(xs[i], x1[i])) mc::fail("the error reached the caller, but variable %zu changed", i);
            if (cs.valid || cs.status == fr::OptimizerStatus::SUCCESS) mc::fail("statistics claim success after an error");
        } else {
            if (cs.status == fr::OptimizerStatus::SUCCESS || cs.status == fr::OptimizerStatus::RUNNING || cs.valid) mc::fail("status %s, valid %d after an error was raised", status_name(cs.status), cs.valid);
            // the estimate: where the interrupted iteration began
            auto& want = plan.want;
            mc::log("interrupted in iteration %zu", plan.accepted.size());
            for (size_t i = 0; i < x1.size(); ++i) if (!same_state(*p.V[i], x1[i], want[i], 1e-9) && !same_state(*p.V[i], x1[i], plan.other[i], 1e-9)) mc::fail("variable %zu is %s, the last completely evaluated estimate has %s", i, str(x1[i]).c_str(), str(want[i]).c_str());
            double c = cost(p);
            if (!(std::fabs(cs.chi2 - c) <= 1e-9 * (1 + c)) || !(std::fabs(cs.residual_norm - std::sqrt(c)) <= 1e-9 * (1 + c))) mc::fail("reported cost %.12g, the estimate's is %.12g", cs.chi2, c);
            if (!(std::fabs(o.initial_stats_.chi2 - c0) <= 1e-9 * (1 + c0))) mc::fail("reported initial cost %.12g, it was %.12g", o.initial_stats_.chi2, c0);
            if (cs.current_iteration > (int)plan.accepted.size() + 1 || cs.current_iteration < (int)plan.accepted.size() - 1) mc::fail("%d iterations counted, %zu begun", cs.current_iteration, plan.accepted.size());
            if (run == 0 && plan.accepted.size() <= base.accepted.size()) for (size_t a = 0; a < plan.accepted.size(); ++a) for (size_t i = 0; i < x1.size(); ++i) if (!same_state(*p.V[i], plan.accepted[a][i], base.accepted[a][i], 1e-9)) mc::fail("iteration %zu of the disturbed run started elsewhere than that of the undisturbed one", a);
        }
        // no covariance from a failed run that does not describe the estimate
        o.prepare_to_estimate_covariances();
        Answer a = stacked(p.V, p.F); MX info = a.J.transpose() * a.J, inv = info.inverse();
        for (size_t i = 0; i < p.V.size(); ++i) { bool ok = false; MX P = o.estimate_covariance(p.V[i].get(), ok); if (!ok) { if (P.size()) mc::fail("invalid covariance is not empty"); continue; } if (!a.dim[i]) mc::fail("covariance for a constant"); if (!close(P, MX(inv.block(a.col[i], a.col[i], a.dim[i], a.dim[i])), 1e-6)) mc::fail("covariance of variable %zu is %s, the estimate's is %s", i, str(P).c_str(), str(MX(inv.block(a.col[i], a.col[i], a.dim[i], a.dim[i]))).c_str()); }
        if (!pair || run == 1) break;
    }
    // the fault is gone: same as fresh
    plan.at.clear();
    Answer a = stacked(p.V, p.F);
    int order = (int)(n1 % 3);
    for (int i = 0; i < 3; ++i) {
        int q = (i + order) % 3;
        if (q == 0 && !close(g->compute_full_residual_vector(), a.res, 1e-10)) mc::fail("residual after the fault differs from a fresh evaluation");
        if (q == 1 && !close(g->compute_full_jacobian_matrix(), a.J, 1e-10)) mc::fail("dense Jacobian after the fault differs from a fresh evaluation");
        if (q == 2 && !close(dense(g->compute_sparse_jacobian_matrix()), a.J, 1e-10)) mc::fail("sparse Jacobian after the fault differs from a fresh evaluation");
    }
    check_layout(*g, p.V, p.F, a, "after the fault"); check_contents(*g, p.V, p.F, "after the fault");
    Problem q = fresh(k, values(p), consts(p));
    auto g2 = graph(q); fr::SparseOptimizer o2; o2.setup(g2, S);
    auto xb = values(p);
    Outcome r1 = optimize(o, p), r2 = optimize(o2, q);
    if (r1.threw) mc::fail("optimizing again after the fault raised an error");
    // the rotation vectors the two start from may differ by a rounding
    if (k != 3) compare(p, r1, r2, 1e-7, "optimizing after the fault against fresh"); else for (size_t i = 0; i < p.V.size(); ++i) if (!same_state(*p.V[i], r1.x[i], r2.x[i], 1e-6)) mc::fail("optimizing after the fault ends elsewhere than a fresh one");
    mc::Hash h; h.i(k).i(method).i(s).i(start).i(plan.kind); for (auto& x : xb) hash(h, x); h.i((int)r1.status).i(r1.it); mc::outcome(h); h.i(n1).i(n2); mc::state(h);
}
int main(int a, char** v) { mc::shard_depth = 6; return mc::main(a, v, body); }
