// C04: value vectors and increments of graphs over every combination of variable types, constness and operations.
#include "graphkit.hpp"
using namespace gk;

// A variable of the user's: refuses values above a limit, like any set_value_from_vector may
class Picky : public fr::Variable
{
public:
    VX x; int calls = 0;
    Picky(int id, const VX& v) : x(v) { id_ = id; }
    int size() const override { return (int)x.size(); }
    const VX& value() const override { return x; }
    void set_value_from_vector(const VX& v) override { calls++; if (v.size() != x.size()) throw std::runtime_error("size"); if (maxabs(v) > 5) throw std::runtime_error("out of range"); x = v; }
    void apply_increment(const VX& d) override { calls++; if (d.size() != x.size()) throw std::runtime_error("size"); if (maxabs(VX(x + d)) > 5) throw std::runtime_error("out of range"); x += d; }
    fr::VariableType::VariableTypeEnum type() const override { return fr::VariableType::custom; }
    std::shared_ptr<fr::Variable> clone() const override { auto c = std::make_shared<Picky>(*this); return c; }
};
const int NT = 8;
static VarP make_var(int type, int id)
{
    switch (type) {
    case 0: return gen(id, vx({0.4, -0.3}));
    case 1: return lm(id, v3(1, 2, 3));
    case 2: return pose(id, 0, 0);
    case 3: return pose2(id, v3(0.5, -1, 3.0));
    case 4: return rot(id, v3(0.3, 1.0, -0.6));
    case 5: { auto v = std::make_shared<fr::InverseRangeVariable>(id, v3(0, 0, 1), v3(0, 1, 1), 2.0); v->minimum_inverse_range_ = 0.02; v->maximum_inverse_range_ = 4.0; return v; }
    case 6: return plane(id, v3(0.2, 0.1, 1), 1.5);
    default: return std::make_shared<Picky>(id, vx({0.1, 0.2}));
    }
}
// are a and b the same state of this type of variable?
static bool same_value(const VarP& v, const VX& a, const VX& b, double tol)
{
    if (a.size() != b.size()) return false;
    switch (v->type()) {
    case fr::VariableType::pose: return close(VX(a.head(3)), VX(b.head(3)), tol) && close(Exp(V3(a.segment(3, 3))), Exp(V3(b.segment(3, 3))), tol);
    case fr::VariableType::extrinsic_rotation: return close(Exp(V3(a)), Exp(V3(b)), tol);
    case fr::VariableType::pose_2d: return close(VX(a.head(2)), VX(b.head(2)), tol) && std::fabs(wrap(a[2] - b[2])) <= tol;
    default: return close(a, b, tol);
    }
}
// the state a variable is documented to take when x is written
static VX canonical(const VarP& v, VX x)
{
    if (v->type() == fr::VariableType::inverse_range_landmark) x[0] = std::min(4.0, std::max(0.02, x[0]));
    if (v->type() == fr::VariableType::plane) { V3 n = x.head(3); x.head(3) = n.normalized(); }
    return x;
}
// the components that are stored as they are given
static bool stored(const VarP& v, const VX& got, const VX& want)
{
    auto t = v->type(); int n = (int)want.size(), from = t == fr::VariableType::plane ? 3 : 0, to = t == fr::VariableType::pose ? 3 : t == fr::VariableType::pose_2d ? 2 : t == fr::VariableType::extrinsic_rotation ? 0 : n;
    for (int i = from; i < to; ++i) if (!(std::fabs(got[i] - want[i]) <= 4e-16 * std::fabs(want[i]))) return false;
    return true;
}
// many variables: every read, write and increment lands on its own variable
static void sized()
{
    std::vector<int> ns; for (int i = 1; i <= 20; ++i) ns.push_back(i); for (int q : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}) ns.push_back(q); if (mc::tier) for (int q : {511, 513, 1023, 1025, 4000}) ns.push_back(q);
    int n = ns[mc::choose((int)ns.size(), "size")], mix = mc::choose(NT, "types"), cons = mc::choose(4, "constants"), wide = mc::choose(2, "long vectors");
    FactorGraph g; std::vector<VarP> V; std::vector<FacP> F; std::vector<int> col; int at = 0;
    for (int i = 0; i < n; ++i) {
        int t = mix == 7 ? (i * 5 + i / 7) % NT : mix; VX big(1 + i % 90); for (int k = 0; k < big.size(); ++k) big[k] = 0.01 * ((k * 7 + i) % 50);
        V.push_back(wide && t == 0 ? VarP(gen(1000 - 3 * i, big)) : make_var(t, 1000 - 3 * i));
        bool c = cons == 1 ? i % 3 == 1 : cons == 2 ? i < n / 2 : cons == 3 ? i != n - 1 : false; V.back()->set_constant(c);
        F.push_back(std::make_shared<TF>(i, std::vector<fr::Variable*>{V[i].get()}, V[i]->size(), 1.0)); col.push_back(at); if (!c) at += V.back()->size();
    }
    if (wide && mix && mix != 7) return;
    for (auto& v : V) g.add_variable(v);
    for (auto& f : F) g.add_factor(f);
    g.finalize_structure(); mc::log("%d variables, types %d, constants %d", n, mix, cons);
    auto values = [&] { std::vector<VX> r; for (auto& v : V) r.push_back(v->value()); return r; };
    VX x = g.get_variable_vector(); if (x.size() != at || g.num_values() != at) mc::fail("the value vector has %d entries, expected %d", (int)x.size(), at);
    for (int round = 0; round < 3; ++round) {
        auto b = values(); mc::step();
        for (int i = 0; i < n; ++i) if (!V[i]->is_constant() && !bits_equal(VX(x.segment(col[i], V[i]->size())), b[i])) mc::fail("value vector of %d variables: entry of variable %d is wrong", n, i);
        VX y = x; for (int k = 0; k < y.size(); ++k) y[k] = round == 1 ? y[k] + 0.001 * (k % 37) : 0.001 * (1 + k % 41);
        std::vector<VX> want = b; for (int i = 0; i < n; ++i) if (!V[i]->is_constant()) { VX q = y.segment(col[i], V[i]->size()); if (round == 1) want[i] = canonical(V[i], q); else { auto c = V[i]->clone(); c->apply_increment(q); want[i] = c->value(); } }
        if (round == 1) g.set_variable_values_from_vector(y); else g.apply_increment(y);
        for (int i = 0; i < n; ++i) { if (V[i]->is_constant() ? !bits_equal(V[i]->value(), b[i]) : round == 1 ? !same_value(V[i], V[i]->value(), want[i], 1e-12) || !stored(V[i], V[i]->value(), want[i]) : !close(V[i]->value(), want[i], 1e-13)) mc::fail("%s: variable %d of %d is %s, expected %s", round == 1 ? "written" : "incremented", i, n, str(V[i]->value()).c_str(), str(want[i]).c_str()); mc::matched(); }
        // a refused write leaves all of them
        auto c = values(); for (int len : {0, at - 1, at + 1}) if (len >= 0 && len != at) for (int w = 0; w < 2; ++w) { bool threw = false; try { w ? g.apply_increment(VX::Constant(len, 0.1)) : g.set_variable_values_from_vector(VX::Constant(len, 0.1)); } catch (const std::exception&) { threw = true; } if (!threw) mc::fail("a vector of %d entries was accepted, %d are needed", len, at); }
        for (int i = 0; i < n; ++i) if (!bits_equal(c[i], V[i]->value())) mc::fail("a refused vector changed variable %d", i);
        x = g.get_variable_vector();
        mc::Hash h; h.i(55).i(n).i(mix).i(cons).i(wide).i(round); mc::state(h);
    }
}
static void body()
{
    if (mc::choose(2, "family")) { sized(); return; }
    FactorGraph g; std::vector<VarP> V; std::vector<FacP> F;
    int n = 3;
    for (int i = 0; i < n; ++i) { V.push_back(make_var(mc::choose(NT, "type"), 7 - 4 * i)); }
    bool sorted = true; for (int i = 1; i < n; ++i) sorted = sorted && V[i]->type() >= V[i - 1]->type();
    int cm = mc::choose(8, "constants");
    for (int i = 0; i < n; ++i) V[i]->set_constant(cm >> i & 1);
    for (int i = 0; i < n; ++i) { F.push_back(std::make_shared<TF>(i, std::vector<fr::Variable*>{V[i].get()}, V[i]->size(), 1.0)); }
    for (auto& v : V) g.add_variable(v);
    for (auto& f : F) g.add_factor(f);
    bool fin = true; g.finalize_structure();
    auto values = [&] { std::vector<VX> r; for (auto& v : V) r.push_back(v->value()); return r; };
    auto unchanged = [&](const std::vector<VX>& b, const char* what) { for (int i = 0; i < n; ++i) if (!bits_equal(b[i], V[i]->value())) { if (V[i]->type() == fr::VariableType::custom || close(b[i], V[i]->value(), 0)) mc::fail("%s changed variable %d", what, i); if (!same_value(V[i], b[i], V[i]->value(), 1e-14)) mc::fail("%s changed variable %d from %s to %s", what, i, str(b[i]).c_str(), str(V[i]->value()).c_str()); } };
    auto constants = [&](const std::vector<VX>& b, const char* what) { for (int i = 0; i < n; ++i) if (V[i]->is_constant() && !bits_equal(b[i], V[i]->value())) mc::fail("%s changed constant variable %d", what, i); };
    enum { GET, SET, SETSAME, SETWILD, SETBAD, SETNEAR, INC, INCSMALL, INCZERO, INCWILD, INCBAD, WRONG, TOGGLE, ADD, FIN, NOPS };
    static const char* nm[] = {"get", "set", "set what was read", "set unusual values", "set a refused value", "set nearly what was read", "increment", "tiny increment", "zero increment", "large increment", "refused increment", "wrong lengths", "toggle", "add a variable", "finalize"};
    int depth = mc::tier && sorted ? 4 : 3; std::vector<bool> sig(n); for (int i = 0; i < n; ++i) sig[i] = V[i]->is_constant();
    bool added = false;
    for (int d = 0; d <= depth; ++d) {
        int op = d == depth ? GET : mc::choose(NOPS, "op");
        mc::log("%s", nm[op]); mc::step();
        Answer a = stacked(V, F);
        bool current = fin; for (int i = 0; i < n; ++i) current = current && sig[i] == V[i]->is_constant();
        auto b = values();
        // run a request: true if answered; refused requests must not change anything
        auto attempt = [&](const char* what, bool may, bool must, const std::function<void()>& f) {
            bool threw = false; try { f(); } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { threw = true; mc::log("  refused: %s", e.what()); }
            if (!mc::eigen_asserts.empty()) mc::fail("%s: %s", what, mc::eigen_asserts[0].c_str());
            if (threw && must) mc::fail("%s was refused on a finalized graph", what);
            if (!threw && !may) mc::fail("%s was accepted", what);
            if (threw) unchanged(b, (std::string("a refused ") + what).c_str());
            constants(b, what);
            mc::matched();
            return !threw;
        };
        auto increments = [&](const VX& dx) { // what each variable's own rule does with its own segment; refused if one refuses
            std::vector<VX> w = b; bool refuses = false;
            for (int i = 0; i < n; ++i) if (a.dim[i]) { auto c = V[i]->clone(); c->set_constant(false); try { c->apply_increment(VX(dx.segment(a.col[i], a.dim[i]))); } catch (const std::exception&) { refuses = true; } w[i] = c->value(); }
            if (refuses) w.clear();
            return w;
        };
        switch (op) {
        case GET: attempt("get_variable_vector()", true, current, [&] { VX x = g.get_variable_vector(); if (!bits_equal(x, a.vec)) mc::fail("value vector is %s, expected %s", str(x).c_str(), str(a.vec).c_str()); }); break;
        case SET: case SETWILD: case SETSAME: case SETBAD: case SETNEAR: {
            VX x = a.vec;
            for (int i = 0; i < n; ++i) for (int k = 0; k < a.dim[i]; ++k) {
                double& q = x[a.col[i] + k]; bool picky = V[i]->type() == fr::VariableType::custom;
                if (op == SETNEAR) q += 3e-15 * q;
                if (op == SET) q += 0.1 * (k + 1) + 0.03 * i;
                if (op == SETWILD && !picky) q = (k % 2 ? -1 : 1) * (V[i]->type() == fr::VariableType::pose || V[i]->type() == fr::VariableType::extrinsic_rotation ? 2.4 + 0.1 * k : 7.0 + k);
                if (op == SETBAD && picky) q = 60;
                if (op == SETBAD && !picky) q += 0.2;
            }
            bool bad = false; if (op == SETBAD) for (int i = 0; i < n; ++i) bad = bad || (a.dim[i] && V[i]->type() == fr::VariableType::custom);
            if (!attempt(nm[op], !bad, current && !bad, [&] { g.set_variable_values_from_vector(x); })) break;
            for (int i = 0; i < n; ++i) if (a.dim[i]) { VX want = canonical(V[i], VX(x.segment(a.col[i], a.dim[i]))); if (!same_value(V[i], V[i]->value(), want, 1e-12) || !stored(V[i], V[i]->value(), want)) mc::fail("%s: variable %d is %s, expected %s", nm[op], i, str(V[i]->value()).c_str(), str(want).c_str()); }
            VX y = g.get_variable_vector(); Answer now = stacked(V, F); if (!bits_equal(y, now.vec)) mc::fail("reading back gives %s, the variables hold %s", str(y).c_str(), str(now.vec).c_str());
            // canonical form: writing what was read changes nothing any more
            auto c = values(); g.set_variable_values_from_vector(y); for (int i = 0; i < n; ++i) if (!same_value(V[i], c[i], V[i]->value(), 1e-14)) mc::fail("writing what was read changed variable %d", i);
            break; }
        case INC: case INCSMALL: case INCZERO: case INCWILD: case INCBAD: {
            VX dx(a.values);
            for (int i = 0; i < n; ++i) for (int k = 0; k < a.dim[i]; ++k) {
                bool picky = V[i]->type() == fr::VariableType::custom;
                dx[a.col[i] + k] = op == INC ? 0.05 * (k + 1) - 0.02 * i : op == INCSMALL ? 1e-9 * (k + 1) : op == INCZERO ? 0.0 : op == INCWILD ? (picky ? 0.2 : (k % 2 ? -2.9 : 1.7) + 0.1 * i) : (picky ? 90.0 : 0.3);
            }
            auto want = increments(dx); bool bad = want.empty();
            if (!attempt(nm[op], !bad, current && !bad, [&] { g.apply_increment(dx); })) break;
            for (int i = 0; i < n; ++i) if (!close(V[i]->value(), want[i], 1e-13)) mc::fail("%s: variable %d is %s, its own rule gives %s", nm[op], i, str(V[i]->value()).c_str(), str(want[i]).c_str());
            break; }
        case WRONG: for (int len : {0, a.values - 1, a.values + 1, 2 * a.values, a.values + 6}) if (len >= 0 && len != a.values) {
            attempt("set_variable_values_from_vector() of the wrong length", false, false, [&] { g.set_variable_values_from_vector(VX::Constant(len, 0.25)); });
            attempt("apply_increment() of the wrong length", false, false, [&] { g.apply_increment(VX::Constant(len, 0.25)); }); } break;
        case TOGGLE: V[1]->set_constant(!V[1]->is_constant()); break;
        case ADD: if (!added) { auto v = make_var(d ? 0 : 4, 500); g.add_variable(v); V.push_back(v); auto f = std::make_shared<TF>(50, std::vector<fr::Variable*>{v.get()}, v->size(), 1.0); g.add_factor(f); F.push_back(f); n++; sig.push_back(false); fin = false; added = true; } break;
        case FIN: g.finalize_structure(); fin = true; for (int i = 0; i < n; ++i) sig[i] = V[i]->is_constant(); break;
        }
        mc::Hash h; h.i(current); for (auto& v : V) { h.i(v->type()).i(v->is_constant()); hash(h, v->value()); } mc::state(h);
    }
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
