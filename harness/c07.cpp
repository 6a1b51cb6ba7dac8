// C07: every factor type x state x constant mask x container content: Jacobian blocks are the derivatives.
#include "catalog.hpp"
using namespace cat;
static void preload(std::vector<MX>& J, int how, const Case& c)
{
    int m = c.factor->residual_size();
    if (how == 1) for (auto& v : c.vars) J.push_back(MX::Constant(m, v->size(), 777.0));                       // right shapes, stale numbers
    if (how == 2) { for (auto& v : c.vars) J.push_back(MX::Constant(m + 2, v->size() + 1, -5.0)); J.push_back(MX::Constant(1, 1, 3.0)); } // wrong shapes, too many
    if (how == 3) J.push_back(MX::Constant(2, 2, 9.0));                                                             // too few
}
#ifndef TOL
#define TOL 1e-7
#endif
static void body()
{
    Case c = make(mc::choose(NKINDS, "kind"));
    int nv = (int)c.vars.size();
    int mask = mc::choose(1 << nv, "const");
    int how = mc::choose(4, "container");
    int prior_calls = mc::choose(mc::tier ? 3 : 2, "earlier calls");
    for (int i = 0; i < nv; ++i) c.vars[i]->set_constant(mask >> i & 1);
    mc::log("%s %s const=%d container=%d earlier=%d", kind_name(c.kind), c.desc.c_str(), mask, how, prior_calls);
    if (mc::replaying) for (auto& v : c.vars) mc::log("  %s = %s", v->name().c_str(), str(v->value()).c_str());
    auto vs = c.factor->variables();
    if ((int)vs.size() != nv) mc::fail("%s: %zu variables, expected %d", kind_name(c.kind), vs.size(), nv);
    for (int i = 0; i < nv; ++i) if (vs[i] != c.vars[i].get()) mc::fail("%s: variable %d is not the one given", kind_name(c.kind), i);
    std::vector<MX> J;
    preload(J, how, c);
    if (prior_calls == 1) { // an earlier evaluation with everything free, into the same container
        for (auto& v : c.vars) v->set_constant(false);
        try { c.factor->compute_jacobians(J); } catch (const std::exception&) {}
        for (int i = 0; i < nv; ++i) c.vars[i]->set_constant(mask >> i & 1);
    }
    if (prior_calls == 2) { // ... at another state and with everything constant
        std::vector<VX> keep; for (auto& v : c.vars) { keep.push_back(v->value()); VX d = VX::Constant(v->size(), 0.11); v->apply_increment(d); v->set_constant(true); }
        try { c.factor->compute_jacobians(J); } catch (const std::exception&) {}
        for (int i = 0; i < nv; ++i) { c.vars[i]->set_value_from_vector(keep[i]); c.vars[i]->set_constant(mask >> i & 1); }
    }
    std::vector<VX> before; for (auto& v : c.vars) before.push_back(v->value());
    mc::step();
    bool threw = false;
    try { c.factor->compute_jacobians(J); } catch (const std::exception& e) { threw = true; mc::log("threw: %s", e.what()); }
    if (threw && !mc::eigen_asserts.empty()) mc::fail("%s: out-of-range access %s", kind_name(c.kind), mc::eigen_asserts[0].c_str());
    for (int i = 0; i < nv; ++i) if (!bits_equal(before[i], c.vars[i]->value())) mc::fail("%s: computing Jacobians changed variable %d", kind_name(c.kind), i);
    mc::Hash h; h.i(c.kind).i(mask).i(threw);
    for (auto& v : c.vars) hash(h, v->value());
    mc::state(h);
    if (threw) { if (!c.degenerate) mc::fail("%s %s: compute_jacobians refused a regular state", kind_name(c.kind), c.desc.c_str()); mc::count("refused degenerate"); return; }
    int m = c.factor->residual_size();
    if ((int)J.size() != nv) mc::fail("%s: %zu blocks for %d variables (container held %d)", kind_name(c.kind), J.size(), nv, how);
    for (int i = 0; i < nv; ++i) {
        if (mask >> i & 1) { if (J[i].size() != 0) mc::fail("%s: block %d of a constant variable is not empty", kind_name(c.kind), i); continue; }
        if (J[i].rows() != m || J[i].cols() != c.vars[i]->size()) mc::fail("%s: block %d is %ldx%ld, expected %dx%d", kind_name(c.kind), i, (long)J[i].rows(), (long)J[i].cols(), m, c.vars[i]->size());
        if (!finite(J[i])) mc::fail("%s %s: block %d is not finite: %s", kind_name(c.kind), c.desc.c_str(), i, str(J[i]).c_str());
        if (c.degenerate) continue;
        MX N;
        N = numeric(*c.factor, *c.vars[i], c.h);
        double scale = std::max(1.0, maxabs(N));
        double err = maxabs(J[i] - N);
        mc::matched();
        if (!(err <= TOL * scale)) mc::fail("%s %s: block %d (mask %d) %s differs from the derivative %s", kind_name(c.kind), c.desc.c_str(), i, mask, str(J[i]).c_str(), str(N).c_str());
    }
}
int main(int a, char** v) { return mc::main(a, v, body); }
