// C18: the self-test on every factor of the catalogue, healthy and with every kind of fault in every entry of every
// block; diagnostics leave no trace.
#include "graphkit.hpp"
#include <factorama/numerical_jacobian.hpp>
#include <iostream>
using namespace gk;

enum Fault { HEALTHY, WRONGP, WRONGM, NANV, INFV, EXTRAROW, LESSROWS, EXTRACOL, EMPTY, TRANSPOSED, MISSING, EXTRA, FILLED, RAISE, NFAULTS };
static const char* fname[] = {"healthy", "entry too large", "entry too small", "NaN entry", "infinite entry", "a row too many", "a row too few", "a column too many", "empty block", "rows and columns exchanged", "a block missing", "a block too many", "a block for a constant", "raises an error"};
class Wrong : public fr::Factor
{
public:
    FacP f; int fault = HEALTHY, block = 0, r = 0, c = 0; mutable int calls = 0; int raise_at = -1;
    Wrong(int id, FacP q) : f(q) { id_ = id; }
    int residual_size() const override { return f->residual_size(); }
    void tick() const { if (calls++ == raise_at) throw std::runtime_error("raised"); }
    VX compute_residual() const override { tick(); return f->compute_residual(); }
    void compute_residual(Eigen::Ref<VX> o) const override { tick(); f->compute_residual(o); }
    void compute_jacobians(std::vector<MX>& J) const override
    {
        tick(); f->compute_jacobians(J);
        if (fault == HEALTHY || fault == RAISE) return;
        MX& B = J[block];
        switch (fault) {
        case WRONGP: B(r, c) += amount(B); break;
        case WRONGM: B(r, c) -= amount(B); break;
        case NANV: B(r, c) = std::nan(""); break;
        case INFV: B(r, c) = INFINITY; break;
        case EXTRAROW: { MX X = MX::Zero(B.rows() + 1, B.cols()); X.topRows(B.rows()) = B; B = X; break; }
        case LESSROWS: { MX X = B.topRows(B.rows() - 1); B = X; break; }
        case EXTRACOL: { MX X = MX::Zero(B.rows(), B.cols() + 1); X.leftCols(B.cols()) = B; B = X; break; }
        case EMPTY: B = MX(); break;
        case TRANSPOSED: { MX X = B.transpose(); B = X; break; }
        case MISSING: J.erase(J.begin() + block); break;
        case EXTRA: J.insert(J.begin() + block, MX(B)); break;
        case FILLED: B = MX::Zero(residual_size(), f->variables()[block]->size()); break;
        }
    }
    static double amount(const MX& B) { return 0.1 + 0.02 * maxabs(B); } // at a tolerance of 1e-3: far outside
    std::vector<fr::Variable*> variables() override { return f->variables(); }
    fr::FactorType::FactorTypeEnum type() const override { return f->type(); }
    std::string name() const override { return f->name(); }
};
class Flat : public fr::Factor // healthy whatever the variable: does not depend on it
{
public:
    fr::Variable* v; int m; Flat(int id, fr::Variable* q) : v(q), m(q->size()) { id_ = id; }
    int residual_size() const override { return m; }
    VX compute_residual() const override { return VX::Constant(m, 0.25); }
    void compute_residual(Eigen::Ref<VX> o) const override { o.setConstant(0.25); }
    void compute_jacobians(std::vector<MX>& J) const override { J.assign(1, MX()); if (!v->is_constant()) J[0] = MX::Zero(m, v->size()); }
    std::vector<fr::Variable*> variables() override { return {v}; }
    fr::FactorType::FactorTypeEnum type() const override { return fr::FactorType::custom; }
};
static void body()
{
    Case c = make(mc::choose(NKINDS, "factor"));
    if (c.degenerate) return;
    std::vector<VarP> V; for (auto& v : c.vars) { if (std::find(V.begin(), V.end(), v) != V.end()) return; V.push_back(v); }
    int n = (int)V.size();
    int cm = mc::choose(1 << n, "constants"); for (int i = 0; i < n; ++i) V[i]->set_constant(cm >> i & 1);
    auto w = std::make_shared<Wrong>(77, c.factor);
    int fault = mc::choose(NFAULTS, "fault");
    std::vector<int> usable; // blocks this fault can be planted in
    for (int i = 0; i < n; ++i) { bool k = V[i]->is_constant(); if (fault == FILLED ? k : fault == MISSING || fault == EXTRA ? true : !k) usable.push_back(i); }
    if (fault == TRANSPOSED) { std::vector<int> u; for (int i : usable) if (V[i]->size() != w->residual_size()) u.push_back(i); usable = u; }
    w->fault = fault;
    bool raised_expected = false;
    if (fault != HEALTHY && fault != RAISE) {
        if (usable.empty()) return;
        w->block = usable[mc::choose((int)usable.size(), "block")];
        if (fault <= INFV) {
            // every entry; the quick tier takes each row and each column at least once
            int R = w->residual_size(), C = V[w->block]->size();
            if (mc::tier) { w->r = mc::choose(R, "row"); w->c = mc::choose(C, "column"); }
            else { int k = mc::choose(std::max(R, C), "entry"); w->r = k % R; w->c = (k + (fault == WRONGM)) % C; }
        }
    }
    // the graph: healthy neighbours around it
    FactorGraph g; std::vector<FacP> F;
    int pos = mc::tier ? mc::choose(3, "position") : (fault + cm) % 3, k = 900;
    for (auto& v : V) F.push_back(std::make_shared<Flat>(k++, v.get()));
    auto e = gen(5000, vx({0.3, -0.2})); V.push_back(e); n++; F.push_back(std::make_shared<TF>(k++, std::vector<fr::Variable*>{e.get()}, 2, 1.0));
    F.insert(pos == 0 ? F.begin() : pos == 1 ? F.begin() + F.size() / 2 : F.end(), w);
    for (auto& v : V) g.add_variable(v);
    for (auto& f : F) g.add_factor(f);
    g.finalize_structure();
    std::vector<VX> x; std::vector<bool> cs; for (auto& v : V) { x.push_back(v->value()); cs.push_back(v->is_constant()); }
    std::vector<FacP> H = F; for (auto& f : H) if (f == w) f = c.factor; // what is measured, without the fault
    Answer a = stacked(V, H);
    auto trace = [&](const char* what) {
        mc::matched();
        for (int i = 0; i < n; ++i) {
            if (V[i]->is_constant() != cs[i]) mc::fail("%s changed the constness of variable %d", what, i);
            if (cs[i] ? !bits_equal(x[i], V[i]->value()) : !close(x[i], V[i]->value(), 1e-13)) mc::fail("%s changed variable %d from %s to %s", what, i, str(x[i]).c_str(), str(V[i]->value()).c_str());
        }
        check_layout(g, V, F, a, what); check_contents(g, V, F, what);
        if (!close(g.compute_full_residual_vector(), a.res, 1e-10)) mc::fail("after %s the residual differs", what);
        if (fault == HEALTHY || fault == RAISE) { if (!close(g.compute_full_jacobian_matrix(), a.J, 1e-8) || !close(dense(g.compute_sparse_jacobian_matrix()), a.J, 1e-8)) mc::fail("after %s the Jacobian differs", what); }
    };
    if (fault == RAISE) { w->raise_at = mc::choose(mc::tier ? 12 : 5, "call"); raised_expected = true; }
    bool verbose = (cm + fault) % 2, pass = false, threw = false;
    mc::log("%s, constants %d: %s", kind_name(c.kind), cm, fname[fault]); mc::step();
    try { pass = g.detailed_factor_test(1e-3, verbose); } catch (const std::exception& e) { threw = true; mc::log("  raised %s", e.what()); }
    bool reached = w->raise_at >= 0 && w->calls > w->raise_at;
    w->raise_at = -1;
    if (threw && !raised_expected) mc::fail("the self-test raised an error for a factor that is %s", fname[fault]);
    if (!threw && reached && pass) mc::fail("the self-test passed though a factor raised an error");
    if (!raised_expected && pass != (fault == HEALTHY)) mc::fail("the self-test %s a factor with fault: %s (block %d, entry %d %d)", pass ? "passed" : "failed", fname[fault], w->block, w->r, w->c);
    mc::count(threw ? "raised" : pass ? "passed" : "failed");
    trace("the self-test");
    if (fault == HEALTHY) {
        w->fault = HEALTHY;
        for (auto& v : V) v->print();
        g.print_variables(); trace("printing variables");
        g.print_structure(); trace("printing the structure");
        g.print_jacobian_and_residual(cm % 2); trace("printing the Jacobian");
        std::vector<MX> J(cm % 3, MX::Constant(2, 2, 5.0)); fr::ComputeNumericalJacobians(*c.factor, J, cm % 2 ? 1e-5 : 1e-6); trace("numerical differentiation");
        if (J.size() != c.vars.size()) mc::fail("numerical differentiation returned %zu blocks", J.size());
        std::vector<MX> K; c.factor->compute_jacobians(K);
        for (size_t i = 0; i < c.vars.size(); ++i) { if (V[i]->is_constant()) { if (J[i].size()) mc::fail("numerical differentiation returned a block for a constant"); } else if (maxabs(MX(J[i] - K[i])) > 1e-2 + 1e-3 * maxabs(K[i])) mc::fail("numerical derivative is %s, the factor's %s", str(J[i]).c_str(), str(K[i]).c_str()); }
        if (!g.detailed_factor_test(1e-3, !verbose)) mc::fail("the self-test fails the second time");
    }
    mc::Hash h; h.i(c.kind).i(cm).i(fault); for (auto& q : x) hash(h, q); mc::state(h); h.i(pass); mc::outcome(h);
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
