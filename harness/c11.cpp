// C11: Levenberg-Marquardt against every environment up to the bound.
#include "optenv.hpp"
using namespace oe;

static void body()
{
    Env env;
    env.costs = mc::tier ? std::vector<int>{LOWER, HIGHER, SAME, NOTANUMBER, SLIGHTLY, THROWS, INFINITE} : std::vector<int>{LOWER, HIGHER, SAME, NOTANUMBER, THROWS};
    env.jacs = {REGULAR, SINGULAR, ILL, BADJ, STATIONARY, JTHROWS};
    fr::OptimizerSettings s; s.method = fr::OptimizerMethod::LevenbergMarquardt;
    int set = mc::choose(11, "settings");
    if (set == 1) { s.initial_lambda = 1.0; s.lambda_up_factor = 3; s.lambda_down_factor = 0.5; }
    if (set == 2) { s.initial_lambda = 100; s.max_lambda = 2500; s.lambda_up_factor = 4; s.lambda_down_factor = 0.25; }
    if (set == 3) { s.initial_lambda = 1e-16; }
    if (set == 4) { s.initial_lambda = 1e5; s.learning_rate = 0.5; }
    if (set == 5) { s.step_tolerance = 0; s.residual_tolerance = 0; }
    if (set == 6) { s.initial_lambda = 1e-12; s.max_lambda = 1e-2; s.lambda_up_factor = 100; s.step_tolerance = 1e-12; }
    if (set == 7) { s.initial_lambda = 1e7; } // configured above the maximum
    if (set == 8) { s.initial_lambda = 1; env.colscale = 3e4; } // a well-known and an unknown direction
    if (set == 9) { s.initial_lambda = 2; env.start = 6e9; } // far off
    if (set == 10) { s.initial_lambda = 0.03; env.colscale = 40; env.start = 900; s.learning_rate = 1.75; }
    int runs = 1 + mc::choose(2, "runs");
    s.max_num_iterations = runs == 2 ? 1 + mc::tier : 2 + mc::tier;
    env.exotic = mc::tier || runs == 2 ? 2 : 3;
    auto x = gen(5, vx({0.5, -0.25})); auto k = gen(2, vx({7.0, 0.1, 3})); k->set_constant(true);
    auto g = std::make_shared<FactorGraph>(); g->add_variable(k); g->add_variable(x);
    auto f = std::make_shared<Scripted>(&env, x.get(), k.get()); g->add_factor(f); g->finalize_structure();
    fr::SparseOptimizer o; o.setup(g, s);
    for (int run = 0; run < runs; ++run) {
        if (run == 1 && mc::flip("move")) { x->set_value_from_vector(vx({-3.0, 2.0})); mc::log("moved"); }
        V2 x0 = x->value(); env.frozen = false; VX kv = k->value();
        { int i = env.find(x0); env.base = i >= 0 && finite(env.pts[i].r) ? env.pts[i].r.squaredNorm() : env.start; }
        for (auto& p : env.pts) p.seen = false;
        size_t before = env.pts.size();
        bool threw = false;
        mc::log("optimize");
        try { o.optimize(); } catch (const std::exception&) { threw = true; }
        env.frozen = true;
        Verdict v = reference(env, x0, s);
        auto& cs = o.current_stats_;
        mc::log("ended at [%.9g %.9g], chi2 %.9g, lambda %.6g, %s", x->value()[0], x->value()[1], cs.chi2, cs.damping_parameter, st(cs.status));
        mc::matched();
        if (!bits_equal(kv, k->value())) mc::fail("the constant variable changed");
        if (v.lost) mc::fail("%s should be at [%.9g %.9g], which was never evaluated (damping rule not followed, or ended too early)", v.lost_why.c_str(), v.lost_x[0], v.lost_x[1]);
        for (size_t i = before; i < env.pts.size(); ++i) if (!env.pts[i].seen && finite(env.pts[i].x)) mc::fail("a trial was made at [%.9g %.9g], which the damping rule does not lead to", env.pts[i].x[0], env.pts[i].x[1]);
        if (v.threw != threw) mc::fail("optimize() %s", threw ? "raised an error" : "swallowed an error at the starting estimate");
        if (!close(x->value(), v.x, 1e-7)) mc::fail("ended at %s, expected %s", str(x->value()).c_str(), str(v.x).c_str());
        if (threw) { if (!bits_equal(x->value(), x0)) mc::fail("start changed though it could not be evaluated"); return; }
        int e = env.find(V2(x->value()));
        int e0 = env.find(x0);
        double c1 = env.pts[e].r.squaredNorm(), c0 = env.pts[e0].r.squaredNorm();
        if (finite(env.pts[e0].r) && !(c1 <= c0)) mc::fail("cost went from %.12g to %.12g", c0, c1);
        if (std::isfinite(c1) && !(std::fabs(cs.chi2 - c1) <= 1e-12 * (1 + c1))) mc::fail("reported cost %.12g, cost of the estimate %.12g", cs.chi2, c1);
        if (v.have_lambda && s.initial_lambda <= s.max_lambda && cs.damping_parameter > s.max_lambda * (1 + 1e-12)) mc::fail("damping %.9g was raised beyond the maximum %.9g", cs.damping_parameter, s.max_lambda);
        if (v.have_lambda && !(std::fabs(cs.damping_parameter - v.lambda) <= 1e-9 * v.lambda)) mc::fail("damping ended at %.12g, expected %.12g", cs.damping_parameter, v.lambda);
        if (!v.status.count(cs.status)) mc::fail("ended with status %s, expected %s", st(cs.status), st(*v.status.begin()));
        mc::Hash h; h.i(set).i(run); h.d(x->value()[0]).d(x->value()[1]).d(cs.damping_parameter).i((int)cs.status).i(cs.current_iteration); mc::outcome(h);
        for (auto& p : env.pts) { mc::Hash q = h; q.i(p.kind).i(p.jac); hash(q, p.x); mc::state(q); }
    }
}
int main(int a, char** v) { mc::shard_depth = 6; return mc::main(a, v, body); }
