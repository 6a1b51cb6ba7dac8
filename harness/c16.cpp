// C16: every insertion order (all permutations of a bounded number of objects, structured ones beyond) and identifier
// assignment of every problem, against the unpermuted problem.
#include "problems.hpp"
using namespace pb;

static std::vector<int> permutation(int n, const char* what, int full) // all orders of up to `full` objects, otherwise rotations, reversals and adjacent exchanges of them
{
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    if (n <= full) { std::vector<int> q; while (!p.empty()) { int k = mc::choose((int)p.size(), what); q.push_back(p[k]); p.erase(p.begin() + k); } return q; }
    int k = mc::choose(2 * n + 3 + (mc::tier ? n * (n - 1) / 2 : 0), what);
    if (k < n) { std::rotate(p.begin(), p.begin() + k, p.end()); return p; }
    k -= n;
    if (k < n) { std::rotate(p.begin(), p.begin() + k, p.end()); std::reverse(p.begin(), p.end()); return p; }
    k -= n;
    if (k < 3) { // interleavings
        std::vector<int> q; for (int i = 0; i < n; ++i) q.push_back(i % (k + 2)); std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return q[a] < q[b]; });
        return p;
    }
    k -= 3;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (k-- == 0) { std::swap(p[i], p[j]); return p; }
    return p;
}
static Id ids(int how)
{
    switch (how) {
    case 0: return [](int i) { return i; };
    case 1: return [](int i) { return 100 - i; };
    case 2: return [](int i) { static const int t[] = {7, -3, 1000000, 0, -2147483647 - 1, 2147483647, 5, -1, 12, 44, -44, 99, 3, 2, 1, -70, 31, 64, 128, 4096}; return t[i % 20]; };
    default: return [](int i) { return (i * 7919) % 10007 - 5000; };
    }
}
// Separate unknowns of very unequal information: which of them comes first must not matter to what is refused, damped or
// reported.  (The information values keep well away from the thresholds of the checks on the matrix.)
static void unequal()
{
    const int n = mc::tier ? 4 : 3; static const double info[] = {1.0, 3e15, 400.0, 1e-17, 0.02};
    std::vector<int> w(n); for (int& q : w) q = mc::choose(mc::tier ? 5 : 4, "information");
    int wide = mc::choose(2, "dimensions"), vh = mc::choose(mc::tier ? 4 : 2, "identifiers"), m = mc::choose(2, "method"), cfg = mc::choose(3, "settings");
    auto pv = permutation(n, "variable", 4); bool rev = mc::choose(2, "factors reversed");
    auto make = [&](Id vid, Id fid) { Problem p; for (int i = 0; i < n; ++i) { int d = wide ? 1 + (i + 1) % 3 : 1; VX x(d), y(d); for (int k = 0; k < d; ++k) { x[k] = 1.0 + 0.5 * i - k; y[k] = 0.25 * k; } p.V.push_back(gen(vid(i), x)); p.F.push_back(std::make_shared<fr::GenericPriorFactor>(fid(i), p.V[i].get(), y, 1 / std::sqrt(info[w[i]]))); } return p; };
    Problem A = make(ids(0), ids(0)), B = make(ids(vh), ids((vh + 1) % 4));
    auto ga = graph(A); auto gb = std::make_shared<FactorGraph>(); for (int i : pv) gb->add_variable(B.V[i]); for (int i = 0; i < n; ++i) gb->add_factor(B.F[rev ? n - 1 - i : i]); gb->finalize_structure();
    fr::OptimizerSettings s; s.method = m ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton; s.max_num_iterations = 4;
    if (cfg == 1) { s.initial_lambda = 1e-9; s.max_lambda = 1e-8; s.check_rank_deficiency = true; }
    if (cfg == 2) { s.initial_lambda = 2e-6; s.lambda_up_factor = 100; s.lambda_down_factor = 0.01; s.learning_rate = 0.5; s.step_tolerance = 1e-9; s.residual_tolerance = 1e-12; }
    fr::SparseOptimizer oa, ob; oa.setup(ga, s); ob.setup(gb, s); Outcome a = optimize(oa, A), b = optimize(ob, B); mc::step(2);
    mc::log("information %g %g %g, method %d, settings %d: status %s, cost %.12g, %d iterations, damping %g", info[w[0]], info[w[1]], info[w[2]], m, cfg, status_name(a.status), a.chi2, a.it, a.lambda);
    if (a.status == fr::OptimizerStatus::SUCCESS && std::abs(a.it - b.it) <= 2) { b.it = a.it; b.lambda = a.lambda; b.dnorm = a.dnorm; } // the last steps are decided by rounding
    compare(A, a, b, 1e-6, m ? "Levenberg-Marquardt" : "Gauss-Newton");
    mc::count(status_name(a.status));
    mc::Hash h; h.i(77).i(vh).i(rev).i(wide).i(cfg).i(m); for (int i : w) h.i(i); for (int i : pv) h.i(i); mc::state(h);
}
static void body()
{
    int kind = mc::choose(NPROB + 1, "problem"); if (kind == NPROB) { unequal(); return; }
    int vh = mc::choose(4, "variable identifiers"), fh = mc::tier ? mc::choose(4, "factor identifiers") : (vh + 2) % 4;
    Problem A = problem(kind), B = problem(kind, ids(vh), ids(fh));
    int nv = (int)A.V.size(), nf = (int)A.F.size();
    int cm = mc::choose(nv + 1, "constant"); // one more variable constant
    if (cm) { if (A.V[cm - 1]->is_constant()) return; A.V[cm - 1]->set_constant(true); B.V[cm - 1]->set_constant(true); }
    if (!acceptable(A.V, A.F)) return;
    auto pv = permutation(nv, "variable", mc::tier ? 6 : 4), pf = permutation(nf, "factor", 4);
    Problem P; for (int i : pv) P.V.push_back(B.V[i]); for (int k : pf) P.F.push_back(B.F[k]);
    auto ga = graph(A); auto gb = std::make_shared<FactorGraph>();
    for (size_t i = 0, k = 0; i < P.V.size() || k < P.F.size();) { if (i < P.V.size()) gb->add_variable(P.V[i++]); if (k < P.F.size() && (k + i) % 3) gb->add_factor(P.F[k++]); else if (i >= P.V.size() && k < P.F.size()) gb->add_factor(P.F[k++]); }
    gb->finalize_structure();
    mc::step();
    auto evaluate = [&](const char* when) {
        VX ra = ga->compute_full_residual_vector(), rb = gb->compute_full_residual_vector();
        MX Ja = ga->compute_full_jacobian_matrix(), Jb = gb->compute_full_jacobian_matrix(), Sb = dense(gb->compute_sparse_jacobian_matrix());
        if (ra.size() != rb.size() || Ja.cols() != Jb.cols()) mc::fail("%s: %dx%d against %dx%d", when, (int)Ja.rows(), (int)Ja.cols(), (int)Jb.rows(), (int)Jb.cols());
        mc::matched(3);
        for (int k = 0; k < nf; ++k) {
            bool o1, o2; auto x = ga->factor_placement(A.F[k]->id(), o1), y = gb->factor_placement(B.F[k]->id(), o2);
            if (!o1 || !o2 || x.factor != A.F[k].get() || y.factor != B.F[k].get()) mc::fail("%s: factor %d has no placement", when, k);
            if (!close(VX(ra.segment(x.residual_index, x.residual_dim)), VX(rb.segment(y.residual_index, y.residual_dim)), 1e-6)) mc::fail("%s: rows of factor %d differ", when, k);
            for (int i = 0; i < nv; ++i) {
                bool o3, o4; auto u = ga->variable_placement(A.V[i]->id(), o3), w = gb->variable_placement(B.V[i]->id(), o4);
                if (!o3 || !o4 || u.dim != w.dim) mc::fail("%s: variable %d has %d columns against %d", when, i, u.dim, w.dim);
                if (!u.dim) continue;
                MX a = Ja.block(x.residual_index, u.index, x.residual_dim, u.dim);
                if (!close(a, MX(Jb.block(y.residual_index, w.index, y.residual_dim, w.dim)), 1e-5) || !close(a, MX(Sb.block(y.residual_index, w.index, y.residual_dim, w.dim)), 1e-5)) mc::fail("%s: block of factor %d and variable %d differs", when, k, i);
            }
        }
    };
    evaluate("at the start");
    for (int m = 0; m < 2; ++m) {
        fr::OptimizerSettings s; s.method = m ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
        if (kind == 3 && !m) continue; // a plane's information matrix is singular along its normal: Gauss-Newton gives up, at a rounding-dependent pivot
        s.step_tolerance = 1e-9; s.residual_tolerance = 1e-12; s.max_num_iterations = 12;
        auto va = values(A), vb = values(B); (void)vb;
        fr::SparseOptimizer oa, ob; oa.setup(ga, s); ob.setup(gb, s);
        Outcome a = optimize(oa, A), b = optimize(ob, B);
        mc::step(2);
        // the last iterations are decided by rounding; the outcome is not
        if (std::abs(a.it - b.it) <= 2) b.it = a.it;
        b.dnorm = a.dnorm; if (m) b.lambda = a.lambda;
        if (kind == 3) for (size_t i = 0; i < a.cov.size(); ++i) { a.cov[i] = b.cov[i] = MX(); a.covok[i] = b.covok[i] = 0; }
        mc::log("%s: status %s, cost %.12g, %d iterations", m ? "Levenberg-Marquardt" : "Gauss-Newton", status_name(a.status), a.chi2, a.it);
        compare(A, a, b, 1e-6, m ? "Levenberg-Marquardt" : "Gauss-Newton");
        evaluate("after optimizing");
        if (kind == 3) { auto c = consts(A); (void)c; }
        for (int i = 0; i < nv; ++i) for (auto* Q : {&A, &B}) if (!Q->V[i]->is_constant()) Q->V[i]->set_value_from_vector(va[i]);
    }
    mc::Hash h; h.i(kind).i(cm).i(vh).i(fh); for (int i : pv) h.i(i); for (int k : pf) h.i(k); mc::state(h);
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
