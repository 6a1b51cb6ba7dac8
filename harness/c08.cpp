// C08: every factor type x option x state: the residual is the documented measurement error in sigmas.
#include "catalog.hpp"
using namespace cat;
static bool same(const Case& c, const VX& got, const VX& want, double tol)
{
    if (got.size() != want.size()) return false;
    if (c.cmp == NORM_ONLY) return std::fabs(got.norm() - want.norm()) <= tol * (1 + want.norm());
    VX d = got - want;
    for (auto& a : c.angular) { // +-pi are the same angle
        if (std::fabs(got[a.first]) > a.second / 2 * (1 + 1e-9)) return false;
        d[a.first] = std::remainder(d[a.first], a.second);
    }
    if (maxabs(d) <= tol * (1 + maxabs(want))) return true;
    if (c.cmp == ROTVEC) { // rotation by pi has two vectors
        double n = want.norm(); return maxabs(got + want) <= tol * (1 + n);
    }
    return false;
}
static void body()
{
    Case c = make(mc::choose(NKINDS, "kind"));
    int nv = (int)c.vars.size();
    int move = mc::choose(3, "move after construction"); // 0: as built, 1: increment every variable, 2: set values
    int how = mc::choose(3, "request");
    int mask = mc::choose(2, "constant") ? (1 << nv) - 1 : 0;
    for (int i = 0; i < nv; ++i) c.vars[i]->set_constant(mask >> i & 1);
    mc::log("%s %s move=%d request=%d", kind_name(c.kind), c.desc.c_str(), move, how);
    if (move) for (int i = 0; i < nv; ++i) {
        VX d(c.vars[i]->size()); for (int k = 0; k < d.size(); ++k) d[k] = 0.05 * (1 + ((i + k) % 3)) * ((i + k) % 2 ? -1 : 1);
        if (c.vars[i]->type() == fr::VariableType::inverse_range_landmark) d *= 0.2;
        if (move == 1) c.vars[i]->apply_increment(d); else c.vars[i]->set_value_from_vector(VX(c.vars[i]->value() + d));
    }
    VX want = c.ref();
    int m = c.factor->residual_size();
    mc::step();
    VX got; bool threw = false;
    try {
        if (how == 0) got = c.factor->compute_residual();
        else if (how == 1) { VX buf = VX::Constant(m + 4, 123.0); c.factor->compute_residual(buf.segment(2, m)); got = buf.segment(2, m);
            for (int i : {0, 1, m + 2, m + 3}) if (buf[i] != 123.0) mc::fail("%s: wrote outside the given segment", kind_name(c.kind)); }
        else {
            fr::FactorGraph g; for (auto& v : c.vars) { v->set_constant(true); g.add_variable(v); } g.add_factor(c.factor); g.finalize_structure(); got = g.compute_full_residual_vector();
        }
    } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { threw = true; }
    mc::Hash h; h.i(c.kind).i(c.desc.size()).i(move).i(threw); for (auto& v : c.vars) hash(h, v->value()); hash(h, got); mc::state(h);
    if (threw) { if (want.size() != 0) mc::fail("%s %s: residual refused at a regular state", kind_name(c.kind), c.desc.c_str()); return; }
    if (got.size() != m) mc::fail("%s: residual has %ld rows, residual_size() is %d", kind_name(c.kind), (long)got.size(), m);
    if (want.size() == 0) return; // no direction is defined here
    mc::matched();
    mc::outcome(h);
    if (!same(c, got, want, 2e-7)) {
        if (c.alt && same(c, got, c.alt(), 2e-7)) { mc::known(c.alt_key, mc::fmt("Pose2DBetweenFactor(local_frame=true) residual %s, documented %s", str(got).c_str(), str(want).c_str())); return; }
        mc::fail("%s %s: residual %s, documented measurement error %s", kind_name(c.kind), c.desc.c_str(), str(got).c_str(), str(want).c_str());
    }
    if (c.zero && move == 0 && maxabs(got) > 1e-7) mc::fail("%s: state agrees with the measurement but the residual is %s", kind_name(c.kind), str(got).c_str());
    for (auto& a : c.acc)
        if (!(std::fabs(std::get<1>(a) - std::get<2>(a)) <= 1e-9 * (1 + std::fabs(std::get<2>(a))))) mc::fail("%s: %s is %.12g, expected %.12g", kind_name(c.kind), std::get<0>(a), std::get<1>(a), std::get<2>(a));
    auto vs = c.factor->variables();
    if ((int)vs.size() != nv) mc::fail("%s: %zu variables, expected %d", kind_name(c.kind), vs.size(), nv);
    for (int i = 0; i < nv; ++i) if (vs[i] != c.vars[i].get()) mc::fail("%s: variable %d is not the one given", kind_name(c.kind), i);
    if (c.factor->id() != 10) mc::fail("%s: id is %d", kind_name(c.kind), c.factor->id());
}
int main(int a, char** v) { return mc::main(a, v, body); }
