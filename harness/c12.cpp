// C12: status and statistics against every environment up to the bound, both methods.
#include "optenv.hpp"
using namespace oe;

static void body()
{
    Env env;
    env.costs = {LOWER, HIGHER, SAME, NOTANUMBER, SLIGHTLY, THROWS, INFINITE};
    env.jacs = {REGULAR, SINGULAR, ILL, BADJ, STATIONARY, JTHROWS, ZEROJ, TINY};
    fr::OptimizerSettings s; s.method = mc::flip("method") ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
    bool lm = s.method == fr::OptimizerMethod::LevenbergMarquardt;
    int set = mc::choose(8, "settings");
    if (set == 1) { s.step_tolerance = 0; s.residual_tolerance = 0; }
    if (set == 2) { s.step_tolerance = 1e3; }
    if (set == 3) { s.residual_tolerance = 0.4; s.step_tolerance = 1e-3; }
    if (set == 4) { s.learning_rate = 0.5; s.initial_lambda = 1e5; }
    if (set == 5) { s.learning_rate = 1e-5; s.step_tolerance = 1e-4; }
    if (set == 6) { s.verbose = true; s.initial_lambda = 1e-16; s.check_rank_deficiency = true; }
    if (set == 7) { s.step_tolerance = 0.02; env.far = v2(131072, -65536); } // steps do not depend on where the origin lies
    s.max_num_iterations = mc::choose(lm ? 3 + mc::tier : 4 + mc::tier, "iterations");
    env.exotic = mc::tier ? (lm && s.max_num_iterations >= 3 ? 3 : 4) : 3;
    auto x = gen(5, VX(env.far + v2(0.5, -0.25))); auto k = gen(2, vx({7.0, 0.1, 3})); k->set_constant(true);
    auto g = std::make_shared<FactorGraph>(); g->add_variable(x); g->add_variable(k);
    auto f = std::make_shared<Scripted>(&env, x.get(), k.get()); g->add_factor(f); g->finalize_structure();
    fr::SparseOptimizer o; o.setup(g, s);
    V2 x0 = x->value();
    bool threw = false;
    try { o.optimize(); } catch (const std::exception&) { threw = true; }
    env.frozen = true;
    auto& cs = o.current_stats_; auto& is = o.initial_stats_;
    V2 x1 = x->value();
    mc::log("ended at [%.9g %.9g], chi2 %.9g, norm %.9g, iteration %d, valid %d, %s%s", x1[0], x1[1], cs.chi2, cs.residual_norm, cs.current_iteration, cs.valid, st(cs.status), threw ? ", error" : "");
    mc::matched();
    int e0 = env.find(x0), e1 = env.find(x1);
    if (e1 < 0) mc::fail("the final estimate %s was never evaluated", str(x1).c_str());
    Point &p0 = env.pts[e0], &p1 = env.pts[e1];
    if (threw != (p0.kind == THROWS)) mc::fail("optimize() %s", threw ? "raised an error although the start could be evaluated" : "swallowed an error at the starting estimate");
    if (threw) {
        if (!bits_equal(x0, x1)) mc::fail("variables changed though the start could not be evaluated");
        if (cs.valid || cs.status == OptimizerStatus::SUCCESS) mc::fail("statistics claim success though the start could not be evaluated");
        return;
    }
    if (!finite(x1)) mc::fail("the final estimate is not finite");
    if (p1.kind == THROWS) mc::fail("the final estimate is a point that could not be evaluated");
    auto agree = [&](const char* who, const fr::OptimizerStats& q, const Point& p) {
        double c = p.r.squaredNorm();
        if (!finite(p.r)) { if (std::isfinite(q.chi2) || std::isfinite(q.residual_norm)) mc::fail("%s statistics report cost %.9g where the residual is not finite", who, q.chi2); return; }
        if (!(std::fabs(q.chi2 - c) <= 1e-12 * (1 + c)) || !(std::fabs(q.residual_norm - std::sqrt(c)) <= 1e-12 * (1 + c))) mc::fail("%s statistics report cost %.12g and norm %.12g, the estimate's are %.12g and %.12g", who, q.chi2, q.residual_norm, c, std::sqrt(c));
    };
    agree("initial", is, p0); agree("final", cs, p1);
    double n0 = p0.r.norm(), n1 = p1.r.norm();
    bool ok = cs.status == OptimizerStatus::SUCCESS;
    if (cs.status == OptimizerStatus::RUNNING) mc::fail("ended with status RUNNING");
    if (ok != cs.valid) mc::fail("status %s with valid = %d", st(cs.status), cs.valid);
    if (ok && !finite(p1.r)) mc::fail("success reported for an estimate with a residual that is not finite");
    if (ok && n1 > n0 + s.residual_tolerance) mc::fail("success reported though the residual norm grew from %.9g to %.9g", n0, n1);
    if (cs.current_iteration < 0 || cs.current_iteration > (int)s.max_num_iterations) mc::fail("%d iterations counted, %zu configured", cs.current_iteration, s.max_num_iterations);
    Verdict v = reference(env, x0, s);
    if (v.lost) mc::fail("%s should be at [%.9g %.9g], which was never evaluated (ended too early or took another step)", v.lost_why.c_str(), v.lost_x[0], v.lost_x[1]);
    if (!close(V2(x1 - env.far), V2(v.x - env.far), 1e-7)) mc::fail("ended at %s, expected %s", str(x1).c_str(), str(v.x).c_str());
    if (!v.status.count(cs.status)) mc::fail("ended with status %s, expected %s", st(cs.status), st(*v.status.begin()));
    if (cs.current_iteration < v.it_lo || cs.current_iteration > v.it_hi) mc::fail("%d iterations counted, %d were completed and %d begun", cs.current_iteration, v.it_lo, v.it_hi);
    if (v.have_dnorm && ok && !(std::fabs(cs.delta_norm - v.dnorm) <= 1e-9 + 1e-6 * v.dnorm)) mc::fail("step norm reported %.9g, the last step had %.9g", cs.delta_norm, v.dnorm);
    for (auto& p : env.pts) if (!p.seen && finite(p.x)) mc::fail("the run went on to [%.9g %.9g] although it should have stopped", p.x[0], p.x[1]);
    mc::Hash h; h.i(set).i(lm).i(s.max_num_iterations); h.d(x1[0]).d(x1[1]).d(cs.chi2).i((int)cs.status).i(cs.current_iteration); mc::outcome(h);
    for (auto& p : env.pts) { mc::Hash q = h; q.i(p.kind).i(p.jac); hash(q, p.x); mc::state(q); }
    mc::count(std::string("status ") + st(cs.status));
}
int main(int a, char** v) { mc::shard_depth = 6; return mc::main(a, v, body); }
