// C05: constants through every sequence of operations, including optimizations that reject, fail and fault.
#include "opthist.hpp"
using namespace pb;

// every number a variable reports, not only its value
static std::vector<MX> everything(const VarP& v)
{
    std::vector<MX> r = {v->value()};
    if (auto* p = dynamic_cast<fr::PoseVariable*>(v.get())) { r.push_back(p->pos_W()); r.push_back(p->rot_CW()); r.push_back(p->dcm_CW()); }
    if (auto* p = dynamic_cast<fr::Pose2DVariable*>(v.get())) { r.push_back(p->pos_2d()); r.push_back(p->dcm_2d()); r.push_back(MX::Constant(1, 1, p->theta())); }
    if (auto* p = dynamic_cast<fr::RotationVariable*>(v.get())) { r.push_back(MX(p->dcm_AB())); r.push_back(p->rotation()); }
    if (auto* p = dynamic_cast<fr::InverseRangeVariable*>(v.get())) { r.push_back(p->pos_W()); r.push_back(p->origin_pos_W()); r.push_back(p->bearing_W()); }
    if (auto* p = dynamic_cast<fr::PlaneVariable*>(v.get())) { r.push_back(p->unit_vector()); r.push_back(MX::Constant(1, 1, p->distance_from_origin())); }
    if (auto* p = dynamic_cast<fr::LandmarkVariable*>(v.get())) r.push_back(p->pos_W());
    return r;
}
struct Frozen { VarP v; std::vector<MX> all; };
static void body()
{
    int kind = mc::choose(NPROB, "problem");
    oh::Switch sw;
    Problem p = problem(kind, [](int i) { return 11 - 2 * i; }, [](int i) { return i; });
    std::vector<FacP> raw = p.F;
    for (auto& f : p.F) f = std::make_shared<oh::Failing>(f, &sw);
    int n = (int)p.V.size();
    // which are constant: every single one, every pair with the first, all, all but one
    int pat = mc::choose(2 * n + 2, "constants");
    auto is = [&](int i) { return pat < n ? i == pat : pat < 2 * n ? i != pat - n : pat == 2 * n ? true : i % 2 == 0; };
    // values that no setter would produce, as repeated increments leave them
    for (int i = 0; i < n; ++i) { p.V[i]->set_constant(false); VX d(p.V[i]->size()); for (int k = 0; k < d.size(); ++k) d[k] = 0.013 * (k + 1) - 0.004 * i; p.V[i]->apply_increment(d); p.V[i]->apply_increment(VX(-0.7 * d)); }
    for (int i = 0; i < n; ++i) p.V[i]->set_constant(is(i));
    auto g = std::make_shared<FactorGraph>();
    for (auto& v : p.V) g->add_variable(v);
    for (auto& f : p.F) g->add_factor(f);
    bool fin = false; try { g->finalize_structure(); fin = true; } catch (const std::exception&) {}
    if (!fin) return;
    std::vector<Frozen> fz;
    for (auto& v : p.V) if (v->is_constant()) fz.push_back({v, everything(v)});
    auto check = [&](const char* what) {
        for (auto& f : fz) { mc::matched(); auto now = everything(f.v); for (size_t q = 0; q < now.size(); ++q) if (!bits_equal(now[q], f.all[q])) mc::fail("%s changed constant variable %s: quantity %zu from %s to %s", what, f.v->name().c_str(), q, str(f.all[q]).c_str(), str(now[q]).c_str()); if (!f.v->is_constant()) mc::fail("%s made %s free", what, f.v->name().c_str()); }
    };
    auto columns = [&](const char* what) {
        std::vector<MX> J; int want = 0; for (auto& v : p.V) want += v->is_constant() ? 0 : v->size();
        if (g->num_values() != want) mc::fail("%s: %d columns, expected %d", what, g->num_values(), want);
        for (auto& f : raw) { for (auto& q : J) q = MX::Constant(3, 3, 1.0); f->compute_jacobians(J); auto vs = f->variables(); for (size_t i = 0; i < vs.size(); ++i) if (vs[i]->is_constant() ? J[i].size() != 0 : J[i].cols() != vs[i]->size()) mc::fail("%s: block %zu of %s is %dx%d", what, i, f->name().c_str(), (int)J[i].rows(), (int)J[i].cols()); }
    };
    fr::SparseOptimizer o;
    enum { STOP, GN, LM, LMREJECT, FAULT, FAULTR, NANS, SETVEC, INC, EVAL, COV, DIAG, PRINT, WRONG, NUMOPS };
    static const char* nm[] = {"stop", "Gauss-Newton", "Levenberg-Marquardt", "Levenberg-Marquardt with rejected steps", "an error in a Jacobian", "an error in a trial residual", "huge steps", "set vector", "increment", "evaluate", "covariances", "self-test", "print", "wrong lengths"};
    int depth = mc::tier ? 4 : 3;
    auto opt = [&](fr::OptimizerSettings s, int fault) {
        sw.on = fault > 0; sw.n = 0; sw.at = fault;
        try { o.setup(g, s); o.optimize(); } catch (const std::exception&) {}
        sw.on = false;
    };
    int nf = (int)p.F.size();
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(NUMOPS, "op");
        if (op == STOP) break;
        mc::log("%s", nm[op]); mc::step();
        fr::OptimizerSettings s; s.max_num_iterations = 4;
        s.method = op == GN || op == FAULT || op == NANS ? fr::OptimizerMethod::GaussNewton : fr::OptimizerMethod::LevenbergMarquardt;
        switch (op) {
        case GN: case LM: opt(s, 0); break;
        case LMREJECT: s.initial_lambda = 1e-12; for (auto& v : p.V) if (!v->is_constant()) { VX x(v->size()); for (int k = 0; k < x.size(); ++k) x[k] = 2.0 - 1.3 * k; v->apply_increment(x); } opt(s, 0); break;
        case FAULT: opt(s, 2 * nf + 1 + mc::choose(3, "at") * nf); break;
        case FAULTR: opt(s, 3 * nf + 1 + mc::choose(2, "at")); break;
        case NANS: s.learning_rate = 1e200; opt(s, 0); for (size_t i = 0; i < p.V.size(); ++i) if (!p.V[i]->is_constant() && !finite(p.V[i]->value())) mc::fail("the estimate is not finite"); break;
        case SETVEC: { VX x; try { x = g->get_variable_vector(); for (int i = 0; i < x.size(); ++i) x[i] += 0.02 * (i % 5) - 0.03; g->set_variable_values_from_vector(x); } catch (const std::exception& e) { mc::fail("refused: %s", e.what()); } break; }
        case INC: { VX x = VX::LinSpaced(g->num_values(), -0.05, 0.04); g->apply_increment(x); break; }
        case EVAL: g->compute_sparse_jacobian_matrix(); g->compute_full_jacobian_and_residual(); { VX r; g->compute_full_residual_vector(r); } columns("evaluation"); break;
        case COV: { s.max_num_iterations = 2; opt(s, 0); o.prepare_to_estimate_covariances(); for (auto& v : p.V) { bool ok = false; MX P = o.estimate_covariance(v.get(), ok); if (v->is_constant() && (ok || P.size())) mc::fail("a covariance is reported for a constant"); } o.print_all_covariances(); break; }
        case DIAG: g->detailed_factor_test(1e-3, true); break;
        case PRINT: g->print_variables(); g->print_structure(); g->print_jacobian_and_residual(true); for (auto& v : p.V) v->clone(); break;
        case WRONG: for (int k : {0, 1, 100}) if (k != g->num_values()) { try { g->set_variable_values_from_vector(VX::Constant(k, 0.1)); } catch (const std::exception&) {} try { g->apply_increment(VX::Constant(k, 0.1)); } catch (const std::exception&) {} } break;
        }
        check(nm[op]); columns(nm[op]);
        mc::Hash h; h.i(kind).i(pat); for (auto& x : values(p)) hash(h, x); mc::state(h);
    }
    // freed again, it participates from that unchanged value
    if (fz.empty()) return;
    int w = mc::choose(mc::tier ? (int)fz.size() : std::min<int>(2, fz.size()), "free");
    VarP v = fz[w].v; v->set_constant(false);
    std::vector<FacP> F = p.F; if (!acceptable(p.V, F)) return;
    g->finalize_structure();
    mc::matched();
    { auto now = everything(v); for (size_t q = 0; q < now.size(); ++q) if (!bits_equal(now[q], fz[w].all[q])) mc::fail("freeing changed %s", v->name().c_str()); }
    Answer a = stacked(p.V, F); check_layout(*g, p.V, F, a, "after freeing");
    if (!close(g->compute_full_residual_vector(), a.res, 1e-10) || !close(g->compute_full_jacobian_matrix(), a.J, 1e-10) || !close(dense(g->compute_sparse_jacobian_matrix()), a.J, 1e-10)) mc::fail("after freeing %s the graph evaluates differently from a fresh one", v->name().c_str());
    VX dx = VX::Constant(a.values, 0.01); auto c = v->clone(); c->apply_increment(VX::Constant(v->size(), 0.01)); g->apply_increment(dx);
    if (!close(v->value(), c->value(), 1e-12)) mc::fail("%s does not take part after being freed", v->name().c_str());
    for (size_t q = 0; q < fz.size(); ++q) if ((int)q != w) { auto now = everything(fz[q].v); for (size_t k = 0; k < now.size(); ++k) if (!bits_equal(now[k], fz[q].all[k])) mc::fail("freeing another variable changed %s", fz[q].v->name().c_str()); }
    columns("after freeing");
}
int main(int a, char** v) { mc::shard_depth = 3; return mc::main(a, v, body); }
