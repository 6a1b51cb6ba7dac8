// C03: dense Jacobian, sparse Jacobian and residual against the stacked factor blocks, for every subset of factors,
// every constness pattern, several states and every order of evaluation requests.
#include "problems.hpp"
#include "sizes.hpp"
using namespace pb;

struct World { std::vector<VarP> V; std::vector<FacP> F; std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>(); };
static void check(World& w, int how)
{
    Answer a = stacked(w.V, w.F);
    auto cmp = [&](const char* n, const MX& got, const MX& want) { mc::matched(); if (got.rows() != want.rows() || got.cols() != want.cols()) mc::fail("%s is %dx%d, expected %dx%d", n, (int)got.rows(), (int)got.cols(), (int)want.rows(), (int)want.cols()); if (!close(got, want, 1e-10)) mc::fail("%s is %s, the stacked blocks are %s", n, str(got).c_str(), str(want).c_str()); };
    auto& g = *w.g; mc::step();
    switch (how) {
    case 0: cmp("dense Jacobian", g.compute_full_jacobian_matrix(), a.J); break;
    case 1: { auto& S = g.compute_sparse_jacobian_matrix(); cmp("sparse Jacobian", dense(S), a.J); if (S.rows() != g.num_residuals() || S.cols() != g.num_values()) mc::fail("sparse Jacobian is %dx%d", (int)S.rows(), (int)S.cols());
        // usable as a matrix: products and the iteration agree
        VX x(S.cols()); for (int i = 0; i < x.size(); ++i) x[i] = 0.3 + i; cmp("sparse product", S * x, a.J * x); cmp("transposed sparse product", S.transpose() * (S * x), a.J.transpose() * (a.J * x)); cmp("normal equations", MX(Eigen::SparseMatrix<double>(S.transpose() * S)), a.J.transpose() * a.J); break; }
    case 2: cmp("residual", g.compute_full_residual_vector(), a.res); break;
    case 3: { VX r = VX::Constant(2, 9.0); g.compute_full_residual_vector(r); cmp("residual written to a buffer", r, a.res); VX r2 = VX::Constant(a.residuals, -1.0); g.compute_full_residual_vector(r2); cmp("residual written to a buffer", r2, a.res); break; }
    case 4: g.compute_full_jacobian_and_residual(); cmp("dense Jacobian", g.jacobian(), a.J); cmp("residual", g.residual(), a.res); break;
    }
}
static void finalize(World& w) { mc::step(); w.g->finalize_structure(); }

// states that make entries of ZF vanish, sign changes, large values
static void set_state(World& w, const std::vector<VX>& base, int s)
{
    for (size_t i = 0; i < w.V.size(); ++i) {
        VX x = base[i];
        if (s == 1) x.setZero(); // structural zeros appear ...
        if (s == 2) for (int k = 0; k < x.size(); ++k) x[k] = 0.5 * x[k] - 0.2 * (k + 1); // ... and vanish
        if (s == 3) x *= 300.0;
        if (s == 1 || s == 3) { auto t = w.V[i]->type(); if (t == fr::VariableType::plane || t == fr::VariableType::pose || t == fr::VariableType::extrinsic_rotation || t == fr::VariableType::inverse_range_landmark) x = base[i]; }
        if (s && w.V[i]->type() == fr::VariableType::inverse_range_landmark) x[0] = base[i][0] * (1 + 0.1 * s);
        if (s == 2 && w.V[i]->type() == fr::VariableType::plane) { x = base[i]; x[3] += 0.4; }
        w.V[i]->set_value_from_vector(x);
    }
}
static void small()
{
    World w;
    w.V = {gen(5, vx({0.4})), gen(-3, vx({1.0, -0.5})), pose2(1000, v3(0.2, 0.3, -0.4)), rot(2, v3(0.1, 0.5, -0.2))};
    auto P = [&](std::vector<int> i) { std::vector<fr::Variable*> r; for (int k : i) r.push_back(w.V[k].get()); return r; };
    std::vector<FacP> pool = {std::make_shared<TF>(9, P({0}), 1, 1.0), std::make_shared<ZF>(8, w.V[0].get(), w.V[1].get()), std::make_shared<TF>(-7, P({2, 1}), 5, 2.0), std::make_shared<TF>(6, P({1, 0, 1}), 2, 3.0),
        std::make_shared<TF>(5, P({3, 2, 0}), 4, 4.0), std::make_shared<fr::Pose2DPriorFactor>(4, dynamic_cast<fr::Pose2DVariable*>(w.V[2].get()), v3(0.1, 0.1, 0.1), 0.5, 0.2), std::make_shared<ZF>(3, w.V[1].get(), w.V[0].get()), std::make_shared<TF>(2, P({}), 2, 5.0)};
    int mask = mc::choose(256, "factors"), cm = mc::choose(16, "constants"), so = mc::choose(mc::tier ? 2 : 1, "order");
    for (int i = 0; i < 8; ++i) { int k = so ? 7 - i : i; if (mask >> k & 1) w.F.push_back(pool[k]); }
    for (int i = 0; i < 4; ++i) w.V[i]->set_constant(cm >> i & 1);
    if (!acceptable(w.V, w.F)) return;
    for (auto& v : w.V) w.g->add_variable(v);
    for (auto& f : w.F) w.g->add_factor(f);
    std::vector<VX> base; for (auto& v : w.V) base.push_back(v->value());
    set_state(w, base, mc::choose(2, "state at finalization"));
    finalize(w);
    int depth = 3;
    int first = mc::choose(5, "first request"); check(w, first);
    for (int d = 1; d < depth; ++d) {
        int st = mc::choose(mc::tier && d > 1 ? 3 : 2, "next state"), how = d + 1 < depth || mc::tier ? mc::choose(5, "request") : 1;
        mc::log("state %d, request %d", st, how);
        set_state(w, base, d == 1 ? (st ? 1 : 2) : (st == 2 ? 3 : 2 * st)); check(w, how);
        mc::Hash h; h.i(mask).i(cm); for (auto& v : w.V) hash(h, v->value()); mc::state(h);
    }
    // everything once more, and again after finalizing a smaller structure
    check(w, 0); check(w, 1);
    for (auto& v : w.V) if (!v->is_constant()) { v->set_constant(true); break; }
    finalize(w); set_state(w, base, 2); check(w, first); check(w, 1); set_state(w, base, 0); check(w, 1); check(w, 0);
}
static void real()
{
    int kind = mc::choose(NPROB, "problem");
    Problem p = problem(kind, [](int i) { return 40 - 7 * i; }, [](int i) { return i % 2 ? -i : 3 * i + 1; });
    int n = (int)p.V.size(), cm = mc::choose(1 << std::min(n, 9), "constants");
    World w; w.V = p.V; w.F = p.F;
    for (int i = 0; i < n; ++i) w.V[i]->set_constant(cm >> i & 1);
    if (!acceptable(w.V, w.F)) return;
    for (auto& f : w.F) w.g->add_factor(f);
    for (auto& v : w.V) w.g->add_variable(v);
    std::vector<VX> base; for (auto& v : w.V) base.push_back(v->value());
    finalize(w);
    for (int d = 0; d < (mc::tier ? 4 : 3); ++d) {
        check(w, mc::choose(5, "request"));
        set_state(w, base, d % 2 ? 0 : 2);
    }
    check(w, 1); check(w, 0); check(w, 2);
    int t = mc::choose(n, "toggle"); w.V[t]->set_constant(!w.V[t]->is_constant());
    if (!acceptable(w.V, w.F)) return;
    finalize(w); check(w, 1); set_state(w, base, 0); check(w, 1); check(w, 4);
    mc::Hash h; h.i(kind).i(cm).i(t); mc::state(h);
}
// the stacked blocks' factors themselves: one graph per factor of the catalogue
static void single()
{
    Case c = make(mc::choose(NKINDS, "factor"));
    if (c.degenerate) return;
    World w; w.F = {c.factor};
    for (auto& v : c.vars) if (std::find(w.V.begin(), w.V.end(), v) == w.V.end()) w.V.push_back(v);
    int k = 900; for (auto& v : c.vars) { auto f = std::make_shared<TF>(k++, std::vector<fr::Variable*>{v.get()}, v->size(), 1.0); w.F.push_back(f); }
    for (size_t i = 0; i < w.V.size(); ++i) w.V[i]->set_constant(mc::flip("constant"));
    for (auto& v : w.V) w.g->add_variable(v);
    for (auto& f : w.F) w.g->add_factor(f);
    finalize(w); check(w, 1); check(w, 4); check(w, 1);
    mc::Hash h; h.i(c.kind); for (auto& v : w.V) hash(h, v->value()); mc::state(h);
}
// one graph per size: counters, buffers and indices of every width
static void sized()
{
    int shape = mc::choose(sz::NSHAPES, "shape"), d = 1 + mc::choose(3, "dimension"); if (shape == sz::WIDE && d > 1) return;
    auto ns = sz::sizes(mc::tier ? 140 : 24, shape == sz::PRIORS && d == 1 ? (mc::tier ? 131072 : 65536) : shape == sz::PRIORS ? 1024 : mc::tier ? 512 : 256);
    int n = ns[mc::choose((int)ns.size(), "size")], fixed = n > 1024 ? 0 : shape == sz::CHAIN ? 4 * mc::choose(2, "constants") : 0;
    sz::Big B = sz::build(shape, n, d, fixed, false); World w; w.V = B.V; w.F = B.F; w.g = B.g;
    if (!acceptable(w.V, w.F)) return;
    finalize(w); mc::log("%s of size %d, dimension %d", sz::shape_name(shape), n, d);
    std::vector<VX> base; for (auto& v : w.V) base.push_back(v->value());
    int order = mc::choose(2, "order");
    check(w, order ? 0 : 1); set_state(w, base, 2); check(w, 1); check(w, 2); check(w, order ? 1 : 4); check(w, 3);
    mc::Hash h; h.i(55).i(shape).i(n).i(d).i(fixed); mc::state(h);
}
static void body()
{
    switch (mc::choose(4, "family")) { case 0: small(); break; case 1: real(); break; case 2: single(); break; default: sized(); }
}
int main(int a, char** v) { mc::shard_depth = 5; return mc::main(a, v, body); }
