// C14: covariances after every sequence of optimizer operations.
#include "opthist.hpp"
#include "sizes.hpp"
using namespace oh;

struct Info { bool ok = false; MX inv; Answer a; };
static Info information(const Side& s, const std::vector<VX>& x)
{
    Problem q = fresh(s.kind, x, consts(s.p));
    Info r; r.a = stacked(q.V, q.F);
    if (r.a.values == 0) return r;
    MX H = r.a.J.transpose() * r.a.J;
    Eigen::SelfAdjointEigenSolver<MX> e(H); double lo = e.eigenvalues()[0], hi = e.eigenvalues().tail(1)[0];
    r.ok = lo > 1e-9 * hi; if (r.ok) r.inv = e.eigenvectors() * e.eigenvalues().cwiseInverse().asDiagonal() * e.eigenvectors().transpose();
    return r;
}
static bool singular(const Side& s, const std::vector<VX>& x) { Problem q = fresh(s.kind, x, consts(s.p)); Answer a = stacked(q.V, q.F); if (!a.values) return true; Eigen::JacobiSVD<MX> v(a.J); return v.singularValues().tail(1)[0] < 1e-12 * v.singularValues()[0]; }

static void query(Hist& h)
{
    int order = (h.asked++) % 2;
    if (h.cur < 0) { bool ok = true; MX P = h.o.estimate_covariance(h.s[0].p.V[0].get(), ok); if (ok || P.size()) mc::fail("covariance reported before anything was set up"); return; }
    Side& s = h.s[h.cur];
    auto before = values(s.p);
    bool moved = false;
    if (h.complete) for (size_t i = 0; i < before.size(); ++i) if (!same_state(*s.p.V[i], before[i], h.end[i], 1e-12)) moved = true;
    Info fin, prep; if (h.complete) fin = information(s, h.end); if (h.prepared) prep = information(s, h.at_prepare);
    bool structure_same = h.complete && s.current() && s.sig == h.end_sig;
    bool must = h.complete && h.prepared && structure_same && fin.ok && prep.ok && !moved && !h.refinalized;
    for (size_t n = 0; n < s.p.V.size(); ++n) {
        size_t i = order ? s.p.V.size() - 1 - n : n; auto& v = s.p.V[i];
        bool ok = false; MX P = h.o.estimate_covariance(v.get(), ok);
        mc::matched();
        if (!ok) {
            if (P.size()) mc::fail("invalid covariance of variable %zu is not an empty matrix", i);
            if (must && !v->is_constant()) mc::fail("covariance of variable %zu is not available after optimize() and prepare", i);
            continue;
        }
        if (v->is_constant()) mc::fail("covariance reported for constant variable %zu", i);
        if (!h.complete) mc::fail("covariance of variable %zu reported although nothing was optimized since the last set-up", i);
        if (!h.prepared) mc::fail("covariance of variable %zu reported before preparation", i);
        if (!s.current()) mc::fail("covariance of variable %zu reported although the structure changed since", i);
        if (s.kind == 3 && singular(s, h.end)) mc::fail("covariance of variable %zu reported for a singular information matrix", i);
        bool right = false; int c, d; MX want;
        auto match = [&](const Info& f) { if (!f.ok) return; c = f.a.col[i]; d = f.a.dim[i]; want = f.inv.block(c, c, d, d); if (close(P, want, 1e-6)) right = true; };
        match(prep); if (!right) match(fin); for (auto& x : h.earlier) if (!right) match(information(s, x));
        if (!right) mc::fail("covariance of variable %zu is %s, the inverse information has %s", i, str(P).c_str(), str(want).c_str());
        if (!close(P, MX(P.transpose()), 1e-14)) mc::fail("covariance of variable %zu is not symmetric", i);
        bool ok2 = false; MX P2 = h.o.estimate_covariance(v.get(), ok2); if (!ok2 || !close(P, P2, 1e-12)) mc::fail("asking again for the covariance of variable %zu gives another answer", i);
        auto stranger = v->clone(); bool ok3 = false; MX P3 = h.o.estimate_covariance(stranger.get(), ok3); if (ok3 || P3.size()) mc::fail("covariance reported for a variable that is not in the graph");
        mc::count("covariances compared");
    }
    bool ok = true; if (h.o.estimate_covariance(nullptr, ok).size() || ok) mc::fail("covariance reported for a null variable");
    for (auto& v : h.s[1 - h.cur].p.V) { ok = true; MX P = h.o.estimate_covariance(v.get(), ok); if (ok || P.size()) mc::fail("covariance reported for a variable of another graph"); }
    auto after = values(s.p); for (size_t i = 0; i < after.size(); ++i) if (!bits_equal(before[i], after[i])) mc::fail("querying covariances changed variable %zu", i);
}
// one measurement in other units: residual and derivatives times k
class Rescaled : public fr::Factor
{
public:
    FacP f; double k;
    Rescaled(FacP q, double s) : f(q), k(s) { id_ = q->id(); }
    int residual_size() const override { return f->residual_size(); }
    VX compute_residual() const override { return k * f->compute_residual(); }
    void compute_residual(Eigen::Ref<VX> o) const override { o = k * f->compute_residual(); }
    void compute_jacobians(std::vector<MX>& J) const override { f->compute_jacobians(J); for (auto& b : J) b *= k; }
    std::vector<fr::Variable*> variables() override { return f->variables(); }
    fr::FactorType::FactorTypeEnum type() const override { return f->type(); }
};
// every problem, strong and weak measurements, every constant mask: the covariance itself
static void scales()
{
    int kind = mc::choose(NPROB, "problem"), sc = mc::choose(mc::tier ? 6 : 4, "scale"), lmq = mc::choose(2, "method");
    static const double ks[] = {1, 1e-4, 300, 1e-3, 2e-2, 3e3};
    Problem p = problem(kind); int n = (int)p.V.size();
    for (auto& f : p.F) f = std::make_shared<Rescaled>(f, ks[sc]);
    int cm = mc::choose(n <= (mc::tier ? 9 : 6) ? 1 << n : n + 1, "constants");
    for (int i = 0; i < n; ++i) if (n <= (mc::tier ? 9 : 6) ? cm >> i & 1 : cm == i + 1) p.V[i]->set_constant(!p.V[i]->is_constant());
    if (!acceptable(p.V, p.F)) return;
    auto g = graph(p); if (!g->num_values()) return;
    fr::OptimizerSettings s; s.method = lmq ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton; s.max_num_iterations = 25;
    fr::SparseOptimizer o; o.setup(g, s); o.optimize(); o.prepare_to_estimate_covariances(); mc::step(3);
    Answer a = stacked(p.V, p.F); MX H = a.J.transpose() * a.J; Eigen::SelfAdjointEigenSolver<MX> e(H); double lo = e.eigenvalues()[0], hi = e.eigenvalues().tail(1)[0];
    bool clear = lo > 1e-9 * hi, sing = lo < 1e-15 * hi;
    MX inv = clear ? MX(e.eigenvectors() * e.eigenvalues().cwiseInverse().asDiagonal() * e.eigenvectors().transpose()) : MX();
    mc::log("%s, measurements times %g, constants %d, %s: eigenvalues %g to %g, status %s", prob_name(kind), ks[sc], cm, lmq ? "Levenberg-Marquardt" : "Gauss-Newton", lo, hi, status_name(o.current_stats_.status));
    bool useful = o.current_stats_.status == fr::OptimizerStatus::SUCCESS && o.current_stats_.valid;
    for (int i = 0; i < n; ++i) {
        bool ok = false; MX P = o.estimate_covariance(p.V[i].get(), ok); mc::matched(); bool k = p.V[i]->is_constant();
        if (!ok && P.size()) mc::fail("invalid covariance of variable %d is not an empty matrix", i);
        if (ok && k) mc::fail("covariance reported for constant variable %d", i);
        if (!clear || k) continue;
        int c = a.col[i], d = a.dim[i]; MX want = inv.block(c, c, d, d);
        if (!ok && useful && maxabs(want) < 1e11) mc::fail("%s, measurements times %g: the covariance of variable %d is not available, it is %s", prob_name(kind), ks[sc], i, str(want).c_str());
        double cond = hi / lo;
        if (ok && maxabs(MX(P - want)) > (1e-9 + 1e-14 * cond) * 100 * maxabs(want)) mc::fail("%s, measurements times %g: covariance of variable %d is %s, the inverse information has %s", prob_name(kind), ks[sc], i, str(P).c_str(), str(want).c_str());
        mc::count(ok ? "covariances compared" : "unavailable");
    }
    (void)sing; mc::Hash h; h.i(77).i(kind).i(sc).i(cm); mc::state(h); h.i(lmq); mc::outcome(h);
}
// the covariance of every variable of problems of every size
static void sized()
{
    int shape = mc::choose(sz::NSHAPES, "shape"), d = 1 + mc::choose(3, "dimension"); if (shape == sz::WIDE && d > 1) return;
    auto ns = sz::sizes(mc::tier ? 60 : 18, mc::tier ? 128 : shape == sz::PRIORS ? 256 : 64); int n = ns[mc::choose((int)ns.size(), "size")], fixed = shape == sz::CHAIN ? 5 * mc::choose(2, "constants") : 0, lmq = mc::choose(2, "method");
    sz::Big B = sz::build(shape, n, d, fixed); if (B.A.rows() < B.free) return;
    B.g->finalize_structure(); MX inv = (B.A.transpose() * B.A).inverse();
    fr::OptimizerSettings s; s.method = lmq ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
    fr::SparseOptimizer o; o.setup(B.g, s); o.optimize(); o.prepare_to_estimate_covariances(); mc::step();
    mc::log("%s of size %d, dimension %d", sz::shape_name(shape), n, d);
    for (size_t i = 0; i < B.V.size(); ++i) {
        bool ok = false; MX P = o.estimate_covariance(B.V[i].get(), ok); mc::matched(); int c = B.col[i], m = B.dim[i];
        if (!m) { if (ok || P.size()) mc::fail("covariance reported for constant variable %zu", i); continue; }
        if (!ok || !close(P, MX(inv.block(c, c, m, m)), 1e-7)) mc::fail("%s of size %d, dimension %d: covariance of variable %zu is %s, the inverse information has %s", sz::shape_name(shape), n, d, i, ok ? str(P).c_str() : "missing", str(MX(inv.block(c, c, m, m))).c_str());
    }
    mc::Hash h; h.i(55).i(shape).i(n).i(d).i(fixed).i(lmq); mc::state(h);
}
static void body()
{
    if (int f = mc::choose(3, "family")) { if (f == 1) scales(); else sized(); return; }
    static const int pairs[][2] = {{0, 2}, {2, 3}, {5, 0}, {4, 6}};
    int pr = mc::choose(mc::tier ? 4 : 2, "problems");
    Hist h(pairs[pr][0], pairs[pr][1]);
    int start = mc::choose(4, "start");
    static const std::vector<int> starts[] = {{}, {SETUPA1, OPT}, {SETUPA2, OPT, PREP}, {SETUPB1, OPT, PREP}};
    for (int op : starts[start]) run(h, op);
    mc::log("--");
    int depth = mc::tier && pr < 2 ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(NHOPS, "op");
        if (op == QUERY) query(h);
        else run(h, op);
        mc::Hash q; q.i(pr).i(h.cur).i(h.complete).i(h.prepared).i(h.clean); for (auto& s : h.s) { for (auto& x : values(s.p)) hash(q, x); for (bool b : consts(s.p)) q.i(b); for (bool b : s.sig) q.i(b); }
        mc::state(q);
    }
    mc::log("-- finally"); query(h);
    if (h.cur >= 0) { run(h, FIN); query(h); run(h, OPT); query(h); run(h, PREP); query(h); }
}
int main(int a, char** v) { mc::shard_depth = 5; return mc::main(a, v, body); }
