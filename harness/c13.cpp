// C13: every linear problem up to the bound against its normal-equation solution (built from the documented
// measurement equations, not from the library's Jacobians).
#include "graphkit.hpp"
#include "sizes.hpp"
using namespace gk;

struct Row { std::vector<std::pair<int, double>> terms; double rhs; double w; }; // sum coeff * x[col] = rhs, weight w
// the optimum of problems of every size
static void sized()
{
    int shape = mc::choose(sz::NSHAPES, "shape"), d = 1 + mc::choose(mc::tier ? 3 : 2, "dimension"); if (shape == sz::WIDE && d > 1) return;
    auto ns = sz::sizes(mc::tier ? 100 : 20, shape == sz::PRIORS && d == 1 ? 4096 : mc::tier ? 256 : 128);
    int n = ns[mc::choose((int)ns.size(), "size")], fixed = shape == sz::CHAIN ? 5 * mc::choose(2, "constants") : 0, how = mc::choose(3, "method"), lmq = how == 1, far = mc::choose(how == 2 ? 4 : 3, "start");
    sz::Big B = sz::build(shape, n, d, fixed); if (B.A.rows() < B.free) return;
    B.g->finalize_structure(); VX opt = B.optimum(), x0 = sz::state(B);
    if (far) { static const double fs[] = {0, 1e3, 1e6, 1e9}; for (int i = 0; i < x0.size(); ++i) x0[i] += fs[far] * ((i % 3) - 1.2); sz::set_state(B, x0); }
    fr::OptimizerSettings s; s.method = lmq ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton; if (how < 2) { s.step_tolerance = 1e-10; s.residual_tolerance = 0; if (!lmq) s.max_num_iterations = 1; } else { s.learning_rate = 0.5; s.max_num_iterations = 300; } // half steps, default tolerances
    fr::SparseOptimizer o; o.setup(B.g, s); o.optimize(); mc::step();
    VX x1 = sz::state(B); double copt = (B.A * opt - B.b).squaredNorm(), c1 = (B.A * x1 - B.b).squaredNorm(), slack = 0, cslack = 0, scale = how == 2 ? 1 : 1 + (far == 2 ? 1e6 : far ? 1e3 : 0) * (lmq ? 1e-3 : 1);
    auto& cs = o.current_stats_; mc::matched();
    mc::log("%s of size %d, dimension %d, %s: cost %.12g, optimum %.12g, %d iterations, status %d", sz::shape_name(shape), n, d, lmq ? "Levenberg-Marquardt" : "Gauss-Newton", c1, copt, cs.current_iteration, (int)cs.status);
    if (cs.status != fr::OptimizerStatus::SUCCESS || !cs.valid) mc::fail("a determined linear problem (%s of size %d) ended with status %d, valid %d", sz::shape_name(shape), n, (int)cs.status, cs.valid);
    if (how == 2 && B.free) { // the norm improves by less than the tolerance once this much of the way is left
        double left = std::sqrt(2e-6 * (std::sqrt(copt) + 1e-6)) + 4e-6; slack = left / std::sqrt(std::max(1e-12, Eigen::SelfAdjointEigenSolver<MX>(B.A.transpose() * B.A, Eigen::EigenvaluesOnly).eigenvalues()[0])); cslack = left * left; }
    if (maxabs(VX(x1 - opt)) > 1e-6 * scale + slack) mc::fail("%s of size %d ended %g from the optimum", sz::shape_name(shape), n, maxabs(VX(x1 - opt)));
    if (!(std::fabs(cs.chi2 - c1) <= 1e-8 * (1 + c1)) || std::fabs(c1 - copt) > 1e-8 * (1 + copt) * scale + cslack) mc::fail("%s of size %d: reported cost %.12g, cost of the estimate %.12g, optimum %.12g", sz::shape_name(shape), n, cs.chi2, c1, copt);
    mc::Hash h; h.i(55).i(shape).i(n).i(d).i(fixed).i(far); mc::state(h);
}
static void body()
{
    if (mc::choose(2, "family")) { sized(); return; }
    static const int dims[] = {1, 2, 3};
    int d = dims[mc::choose(mc::tier ? 3 : 2, "dimension")];
    int mask = mc::choose(128, "factors"), cm = mc::choose(16, "constants"), sg = mc::choose(mc::tier ? 6 : 4, "sigmas"), st = mc::choose(mc::tier ? 3 : 2, "start"), cfg = mc::choose(5, "settings");
    int ord = mc::tier ? mc::choose(2, "order") : (mask + cm) % 2;
    static const double sig[6][7] = {{1, 1, 1, 1, 1, 1, 1}, {0.5, 2, 1, 0.25, 3, 0.7, 1.5}, {5e3, 2e3, 4e3, 7e3, 5e3, 3e3, 6e3}, {1e-3, 2e-3, 5e-4, 1e-3, 3e-3, 2e-3, 1e-3}, {0.01, 1, 10, 0.1, 0.03, 5, 1}, {50, 2e2, 1, 30, 10, 2, 40}};
    if (cfg >= 3 && (sg == 2 || sg == 5)) return; // damping outweighs weak information by far: nothing is promised within the iteration limit
    // x0 x1 x2 and u: a velocity and a between measurement at once
    std::vector<VarP> v;
    for (int i = 0; i < 4; ++i) { VX x(d); for (int k = 0; k < d; ++k) x[k] = st == 0 ? 0.0 : st == 1 ? 3.0 * i - 4 * k + 1 : 1000.0 * (i % 2 ? 1 : -1) + k; v.push_back(d == 3 && i == 1 ? VarP(lm(7 - i, V3(x))) : VarP(gen(7 - i, x))); }
    for (int i = 0; i < 4; ++i) v[i]->set_constant(cm >> i & 1);
    std::vector<FacP> f; std::vector<Row> rows;
    auto col = [&](int i, int k) { return i * d + k; };
    for (int j = 0; j < 7; ++j) {
        if (!(mask >> j & 1)) continue;
        double s = sig[sg][j]; int id = 20 - j;
        if (j == 0 || j == 1 || j == 6) { // priors on x0, x2 and u
            int t = j == 0 ? 0 : j == 1 ? 2 : 3; VX p(d); for (int k = 0; k < d; ++k) p[k] = 2 * t - k + j;
            f.push_back(std::make_shared<fr::GenericPriorFactor>(id, v[t].get(), p, s));
            for (int k = 0; k < d; ++k) rows.push_back({{{col(t, k), 1.0}}, p[k], 1 / s});
        } else if (j == 5) {
            double dt = 0.5; f.push_back(std::make_shared<fr::LinearVelocityFactor>(id, v[0].get(), v[2].get(), v[3].get(), dt, s));
            for (int k = 0; k < d; ++k) rows.push_back({{{col(2, k), 1.0}, {col(0, k), -1.0}, {col(3, k), -dt}}, 0.0, 1 / s});
        } else {
            static const int ab[3][2] = {{0, 1}, {1, 2}, {2, 0}}; int a = ab[j - 2][0], b = ab[j - 2][1];
            f.push_back(std::make_shared<fr::GenericBetweenFactor>(id, v[a].get(), v[b].get(), v[3].get(), s));
            for (int k = 0; k < d; ++k) rows.push_back({{{col(b, k), 1.0}, {col(a, k), -1.0}, {col(3, k), -1.0}}, 0.0, 1 / s});
        }
    }
    auto g = std::make_shared<FactorGraph>();
    if (ord) { for (int i = 3; i >= 0; --i) g->add_variable(v[i]); for (int i = (int)f.size() - 1; i >= 0; --i) g->add_factor(f[i]); }
    else { for (auto& q : v) g->add_variable(q); for (auto& q : f) g->add_factor(q); }
    int nfree = 0; std::vector<int> map(4 * d, -1);
    for (int i = 0; i < 4; ++i) if (!v[i]->is_constant()) for (int k = 0; k < d; ++k) map[col(i, k)] = nfree++;
    bool refused = false; try { g->finalize_structure(); } catch (const std::exception&) { refused = true; }
    if (refused != ((int)rows.size() < nfree)) mc::fail("finalize_structure() %s %zu residuals for %d values", refused ? "refused" : "accepted", rows.size(), nfree);
    if (refused) { mc::count("refused"); return; }
    // own solution
    MX A = MX::Zero(rows.size(), nfree); VX b(rows.size());
    auto solve_cost = [&](const std::vector<VX>& x) { double c = 0; for (auto& r : rows) { double e = -r.rhs; for (auto& t : r.terms) e += t.second * x[t.first / d][t.first % d]; c += e * e * r.w * r.w; } return c; };
    std::vector<VX> x0; for (auto& q : v) x0.push_back(q->value());
    for (size_t i = 0; i < rows.size(); ++i) { b[i] = rows[i].rhs * rows[i].w; for (auto& t : rows[i].terms) { int c = map[t.first]; if (c < 0) b[i] -= t.second * rows[i].w * x0[t.first / d][t.first % d]; else A(i, c) += t.second * rows[i].w; } }
    double smin = 1, smax = 1;
    if (nfree) { Eigen::JacobiSVD<MX> s(A); smin = s.singularValues().tail(1)[0]; smax = s.singularValues()[0]; }
    bool determined = nfree == 0 || smin > 1e-9 * smax;
    std::vector<VX> opt = x0;
    if (nfree && determined) { VX s = A.colPivHouseholderQr().solve(b); for (int i = 0; i < 4 * d; ++i) if (map[i] >= 0) opt[i / d][i % d] = s[map[i]]; }
    double c0 = solve_cost(x0), copt = solve_cost(opt);
    fr::OptimizerSettings s; double xt = 1e-6, ct = 1e-9; // tolerances on the estimate (absolute, relative to scale) and on the cost
    double scale = 1; for (auto& q : x0) scale = std::max(scale, maxabs(q)); for (auto& q : opt) scale = std::max(scale, maxabs(q));
    bool lmq = cfg >= 3;
    s.method = lmq ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
    if (cfg == 1) s.max_num_iterations = 1;
    if (cfg == 2) { s.learning_rate = 0.5; s.step_tolerance = 1e-10; s.residual_tolerance = 0; s.verbose = true; }
    if (cfg == 4) { s.initial_lambda = 10; s.step_tolerance = 1e-11; s.residual_tolerance = 0; }
    if (cfg == 3) { xt = 2e-2; ct = 1e-4; } // default tolerances: stops when the norm improves by less than 1e-6
    fr::SparseOptimizer o; o.setup(g, s); o.optimize(); mc::step();
    auto& cs = o.current_stats_;
    std::vector<VX> x1; for (auto& q : v) x1.push_back(q->value());
    double c1 = solve_cost(x1);
    mc::log("dimension %d, %zu rows, %d values, smallest singular value %g, cost %g -> %g (optimum %g), status %d, %d iterations", d, rows.size(), nfree, smin, c0, c1, copt, (int)cs.status, cs.current_iteration);
    mc::matched();
    for (int i = 0; i < 4; ++i) if (v[i]->is_constant() && !bits_equal(x0[i], x1[i])) mc::fail("constant variable %d changed", i);
    if (!(std::fabs(cs.chi2 - c1) <= 1e-9 * (1 + c1 + 1e-3 * scale))) mc::fail("reported cost %.12g, the estimate's is %.12g", cs.chi2, c1);
    if (determined) {
        if (cs.status != fr::OptimizerStatus::SUCCESS || !cs.valid) mc::fail("a determined linear problem ended with status %d, valid %d", (int)cs.status, cs.valid);
        double cslack = ct * (1 + copt) + (cfg == 3 ? 1e-4 : 1e-9 * scale);
        // a norm that improves by less than the residual tolerance leaves this much of the way
        double xres = cfg == 3 && nfree ? std::sqrt(4e-6 * std::sqrt(copt)) / smin : 0;
        if (cfg >= 2 && nfree) xres += std::sqrt(1e-14 * copt) / smin; // no smaller improvement of the cost can be represented
        if (c1 > copt + cslack || c1 < copt - cslack) mc::fail("ended with cost %.12g, the optimum is %.12g", c1, copt);
        for (int i = 0; i < 4; ++i) if (maxabs(VX(x1[i] - opt[i])) > xt * scale + xres) mc::fail("variable %d ended at %s, the optimum is %s", i, str(x1[i]).c_str(), str(opt[i]).c_str());
        if (cfg == 1 && nfree && cs.current_iteration != 1) mc::fail("%d iterations", cs.current_iteration);
        mc::count("determined");
    } else {
        mc::count("undetermined");
        if (!lmq && (cs.status == fr::OptimizerStatus::SUCCESS || cs.valid)) mc::fail("Gauss-Newton reports an undetermined problem as solved");
        if (lmq && c1 > c0 * (1 + 1e-12) + 1e-12) mc::fail("Levenberg-Marquardt raised the cost from %.12g to %.12g", c0, c1);
    }
    mc::Hash h; h.i(mask).i(cm).i(sg).i(st).i(d); mc::state(h); h.i(cfg); for (auto& q : x1) hash(h, q); mc::outcome(h);
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
