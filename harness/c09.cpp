// C09: every sequence of operations on every variable type up to a depth, against a reference state.
#include "catalog.hpp"
using namespace cat;

// reference state
struct Model
{
    int type = 0;           // 0 pose 1 pose2d 2 landmark 3 generic 4 rotation 5 plane 6 inverse range
    V3 p; M3 R;             // pose / rotation; p also landmark
    double a = 0, b = 0;    // heading, plane distance, inverse range
    V3 n, o, dir;           // plane normal; inverse range anchor and direction
    double lo = 1e-6, hi = 1e3;
    VX g;
    bool constant = false;
};
static const int NT = 7;
static double clampd(double v, double lo, double hi) { return std::min(std::max(v, lo), hi); }

static const V3& rv(int i)
{
    static const V3 r[] = {v3(0, 0, 0), v3(0.3, -0.5, 0.7), v3(0, pi, 0), v3(-1.2, 2.0, 1.1), v3(1e-7, -2e-7, 0), v3(0, 0, 3 * pi / 2), v3(2, -2, 1.41), v3(5, 4, -3), v3(0, -9, 11.5)}; // the last two: more than one and two turns
    return r[i];
}
static void verify(const fr::Variable& v, const Model& m, const char* who)
{
    mc::matched();
    VX x = v.value();
    const double T = 5e-7;
    auto bad = [&](const char* what, const MX& got, const MX& want) { mc::fail("%s %s: %s is %s, expected %s", who, v.name().c_str(), what, str(got).c_str(), str(want).c_str()); };
    static const int sizes[] = {6, 3, 3, 0, 3, 4, 1};
    int want_size = m.type == 3 ? (int)m.g.size() : sizes[m.type];
    if (v.size() != want_size || x.size() != want_size) mc::fail("%s: size %d, value has %ld rows, expected %d", who, v.size(), (long)x.size(), want_size);
    if (!finite(x)) mc::fail("%s %s: value %s is not finite", who, v.name().c_str(), str(x).c_str());
    if (v.is_constant() != m.constant) mc::fail("%s: constness is %d", who, v.is_constant());
    if (v.id() != 7) mc::fail("%s: id is %d", who, v.id());
    auto rotation = [&](const M3& D, const V3& rotvec) {
        if (maxabs(D.transpose() * D - M3::Identity()) > 1e-9 || std::fabs(D.determinant() - 1) > 1e-9) mc::fail("%s %s: matrix is not a proper rotation: %s", who, v.name().c_str(), str(D).c_str());
        if (!close(D, m.R, T)) bad("rotation matrix", D, m.R);
        if (!close(Exp(rotvec), m.R, T)) bad("rotation of the reported vector", Exp(rotvec), m.R);
    };
    switch (m.type) {
    case 0: {
        auto& q = dynamic_cast<const fr::PoseVariable&>(v);
        if (!close(q.pos_W(), m.p, 1e-12)) bad("pos_W", q.pos_W(), m.p);
        if (!close(V3(x.head(3)), m.p, 1e-12)) bad("value position", V3(x.head(3)), m.p);
        if (!bits_equal(V3(x.tail(3)), q.rot_CW())) bad("rot_CW", q.rot_CW(), V3(x.tail(3)));
        rotation(q.dcm_CW(), q.rot_CW());
        if (v.type() != fr::VariableType::pose) mc::fail("type");
        break;
    }
    case 1: {
        auto& q = dynamic_cast<const fr::Pose2DVariable&>(v);
        if (!close(V2(q.pos_2d()), V2(m.p.head(2)), 1e-12) || !close(V2(x.head(2)), V2(m.p.head(2)), 1e-12)) bad("position", q.pos_2d(), V2(m.p.head(2)));
        if (!(std::fabs(x[2]) <= pi + 1e-12)) mc::fail("%s: heading %.17g outside [-pi, pi]", who, x[2]);
        if (std::fabs(wrap(x[2] - m.a)) > 1e-9 || q.theta() != x[2]) mc::fail("%s: heading %.12g / %.12g, expected %.12g", who, x[2], q.theta(), m.a);
        M2 D = q.dcm_2d(), W; W << std::cos(m.a), -std::sin(m.a), std::sin(m.a), std::cos(m.a);
        if (!close(D, W, 1e-9)) bad("dcm_2d", D, W);
        if (v.type() != fr::VariableType::pose_2d) mc::fail("type");
        break;
    }
    case 2: {
        auto& q = dynamic_cast<const fr::LandmarkVariable&>(v);
        if (!close(V3(x), m.p, 1e-12) || !close(V3(q.pos_W()), m.p, 1e-12)) bad("position", x, m.p);
        if (v.type() != fr::VariableType::landmark) mc::fail("type");
        break;
    }
    case 3: if (!close(x, m.g, 1e-12)) bad("value", x, m.g); if (v.type() != fr::VariableType::generic) mc::fail("type"); break;
    case 4: {
        auto& q = dynamic_cast<const fr::RotationVariable&>(v);
        rotation(q.rotation(), V3(x));
        if (v.type() != fr::VariableType::extrinsic_rotation) mc::fail("type");
        break;
    }
    case 5: {
        auto& q = dynamic_cast<const fr::PlaneVariable&>(v);
        V3 u = q.unit_vector();
        if (std::fabs(u.norm() - 1) > 1e-12) mc::fail("%s: plane normal has length %.17g", who, u.norm());
        if (!close(u, m.n, 1e-9) || !bits_equal(V3(x.head(3)), u)) bad("normal", u, m.n);
        if (std::fabs(q.distance_from_origin() - m.b) > 1e-9 * (1 + std::fabs(m.b)) || x[3] != q.distance_from_origin()) mc::fail("%s: plane distance %.12g / %.12g, expected %.12g", who, x[3], q.distance_from_origin(), m.b);
        V3 pt = v3(1, -2, 4);
        if (std::fabs(q.distance_from_point(pt) - (m.n.dot(pt) + m.b)) > 1e-8 * (1 + std::fabs(m.b))) mc::fail("%s: distance from point %.12g", who, q.distance_from_point(pt));
        if (v.type() != fr::VariableType::plane) mc::fail("type");
        break;
    }
    case 6: {
        auto& q = dynamic_cast<const fr::InverseRangeVariable&>(v);
        if (q.minimum_inverse_range_ != m.lo || q.maximum_inverse_range_ != m.hi) mc::fail("%s: limits changed", who);
        if (!(x[0] >= m.lo && x[0] <= m.hi)) mc::fail("%s: inverse range %.17g outside its limits", who, x[0]);
        if (std::fabs(x[0] - m.a) > 1e-12 * (1 + m.a) || q.inverse_range() != x[0]) mc::fail("%s: inverse range %.12g / %.12g, expected %.12g", who, x[0], q.inverse_range(), m.a);
        if (!close(q.origin_pos_W(), m.o, 1e-12)) bad("origin", q.origin_pos_W(), m.o);
        if (!close(q.bearing_W(), m.dir, 1e-12)) bad("bearing", q.bearing_W(), m.dir);
        V3 w = m.o + m.dir / m.a;
        if (!close(V3(q.pos_W()), w, 1e-9)) bad("pos_W", q.pos_W(), w);
        if (v.type() != fr::VariableType::inverse_range_landmark) mc::fail("type");
        break;
    }
    }
}
static VarP construct(int type, Model& m)
{
    m = Model(); m.type = type; m.p.setZero(); m.R.setIdentity(); m.n.setZero(); m.o.setZero(); m.dir.setZero();
    switch (type) {
    case 0: {
        int r = mc::choose(9, "rotation"); m.p = r < 7 && mc::choose(2, "position") ? v3(1, -2, 3e5) : v3(0, 0, 0); m.R = Exp(rv(r));
        Eigen::Matrix<double, 6, 1> x; x << m.p, rv(r);
        if (r < 7 && mc::flip("from matrix")) return std::make_shared<fr::PoseVariable>(7, m.p, m.R);
        return std::make_shared<fr::PoseVariable>(7, x);
    }
    case 1: { static const double th[] = {0, 1.0, pi, -pi, 3.5, -7.0, 100.0, 2 * pi, -3 * pi}; m.p = mc::choose(2, "position") ? v3(4, -5, 0) : v3(0, 0, 0); m.a = th[mc::choose(9, "heading")]; return pose2(7, v3(m.p[0], m.p[1], m.a)); }
    case 2: m.p = mc::choose(2, "position") ? v3(1, -2, 3e7) : v3(0, 0, 0); return lm(7, m.p);
    case 3: { int n = mc::choose(3, "size"); m.g = n == 0 ? vx({2.5}) : n == 1 ? vx({1, -1, 0}) : vx({0, 1e8, 3, 4, -5, 6, 7}); return gen(7, m.g); }
    case 4: { int r = mc::choose(9, "rotation"); m.R = Exp(rv(r)); return rot(7, rv(r)); }
    case 5: { static const V3 n[] = {v3(0, 0, 1), v3(0, 0, -20), v3(1, 2, -2), v3(1e-5, 0, 1e-5)}; V3 q = n[mc::choose(4, "normal")]; m.n = q.normalized(); m.b = mc::choose(2, "distance") ? -4.5 : 0.0; return plane(7, q, m.b); }
    case 6: {
        static const double r[] = {2.0, 0.5, 1e7, 1e-4, 1e6}; static const V3 d[] = {v3(0, 0, 1), v3(3, -4, 12)};
        double q = r[mc::choose(5, "range")]; V3 u = d[mc::choose(2, "bearing")]; m.o = mc::choose(2, "origin") ? v3(1, 2, 3) : v3(0, 0, 0); m.dir = u.normalized(); m.a = clampd(1 / q, m.lo, m.hi);
        return std::make_shared<fr::InverseRangeVariable>(7, m.o, u, q);
    }
    }
    return nullptr;
}
static VX value_of(const Model& m)
{
    switch (m.type) { case 0: return vcat(m.p, Log(m.R)); case 1: return v3(m.p[0], m.p[1], wrap(m.a)); case 2: return m.p; case 3: return m.g; case 4: return Log(m.R); case 5: return vcat(m.n, vx({m.b})); default: return vx({m.a}); }
}
static void apply(Model& m, const VX& d)
{
    switch (m.type) {
    case 0: m.p += d.head(3); m.R = Exp(V3(d.tail(3))) * m.R; break;
    case 1: m.p += v3(d[0], d[1], 0); m.a += d[2]; break;
    case 2: m.p += d; break;
    case 3: m.g += d; break;
    case 4: m.R = Exp(V3(d)) * m.R; break;
    case 5: m.n = (m.n + V3(d.head(3))).normalized(); m.b += d[3]; break;
    case 6: m.a = clampd(m.a + d[0], m.lo, m.hi); break;
    }
}
static void set(Model& m, const VX& x)
{
    switch (m.type) {
    case 0: m.p = x.head(3); m.R = Exp(V3(x.tail(3))); break;
    case 1: m.p = v3(x[0], x[1], 0); m.a = x[2]; break;
    case 2: m.p = x; break;
    case 3: m.g = x; break;
    case 4: m.R = Exp(V3(x)); break;
    case 5: m.n = V3(x.head(3)).normalized(); m.b = x[3]; break;
    case 6: m.a = clampd(x[0], m.lo, m.hi); break;
    }
}
static std::vector<VX> increments(const Model& m)
{
    switch (m.type) {
    case 0: return {vcat(v3(0.1, 0, -5), v3(0.2, -0.1, 0.4)), vcat(v3(0, 0, 0), v3(0, 0, pi)), vcat(v3(1, 1, 1), v3(0, 0, 0)), vcat(v3(0, 0, 0), v3(-3.0, 2, 1)), vcat(v3(0, 1e-9, 0), v3(1e-6, 0, 2e-6)), vcat(v3(0, 0, 0), v3(0, 6.0, 0)), vcat(v3(-1e-13, 0, 0), v3(7, 2, -3))};
    case 1: return {v3(0.5, -1, 0.3), v3(0, 0, pi), v3(0, 0, -20), v3(1e-9, 0, 1e-7), v3(0, 0, 4.0)};
    case 2: return {v3(0.5, -1, 0.3), v3(0, 0, 0), v3(1e-9, 1e6, -3)};
    case 3: { VX a(m.g.size()), b(m.g.size()); for (int i = 0; i < a.size(); ++i) { a[i] = 0.5 - i; b[i] = i == 0 ? -1e6 : 1e-9; } return {a, b}; }
    case 4: return {v3(0.2, -0.1, 0.4), v3(0, 0, pi), v3(0, 0, 0), v3(-3.0, 2, 1), v3(1e-6, 0, 2e-6), v3(0, 6.0, 0), v3(7, 2, -3)};
    case 5: return {vcat(v3(0.2, 0.1, -0.3), vx({1.0})), vcat(v3(0, 0, 0), vx({-0.25})), vcat(v3(5, 0, 0), vx({0})), vcat(v3(1e-7, 0, 0), vx({1e-7}))};
    default: return {vx({0.25}), vx({-0.4}), vx({-1e9}), vx({5e4}), vx({1e-7})};
    }
}
static std::vector<VX> some_values(const Model& m)
{
    switch (m.type) {
    case 0: return {vcat(v3(7, 8, 9), v3(0.1, 0.2, -0.3)), vcat(v3(0, 0, 0), v3(0, 0, 0)), vcat(v3(-1, 0, 2), v3(3, -3, 0.5)), vcat(v3(0, 1, 0), v3(0, -pi, 0)), vcat(v3(0, 1, 0), v3(0, 3e-9, 0)), vcat(v3(0, 1, 0), v3(6, -4, 3))};
    case 1: return {v3(7, 8, 0.1), v3(-1, 0, 9.0), v3(0, 0, -pi), v3(1, 1, -4.0)};
    case 2: return {v3(7, 8, 9), v3(0, 0, 0)};
    case 3: { VX a(m.g.size()); for (int i = 0; i < a.size(); ++i) a[i] = 10 * i - 3; return {a, VX::Zero(m.g.size())}; }
    case 4: return {v3(0.1, 0.2, -0.3), v3(0, 0, 0), v3(3, -3, 0.5), v3(0, -pi, 0), v3(0, 3e-9, 0), v3(6, -4, 3)};
    case 5: return {vcat(v3(0, 3, 4), vx({2})), vcat(v3(-1e-3, 0, 0), vx({0})), vcat(v3(1, 1, 1), vx({-1e6}))};
    default: return {vx({0.7}), vx({0}), vx({-3}), vx({1e5}), vx({2e-6})};
    }
}
// the last one is the current value up to a few units in the last place
static std::vector<VX> values(const Model& m)
{
    auto r = some_values(m); VX x = value_of(m); for (int i = 0; i < x.size(); ++i) x[i] += 3e-15 * x[i] + 1e-200; r.push_back(x);
    return r;
}
// the components that are stored as they are given
static void stored(const fr::Variable& v, const Model& m, const VX& x)
{
    VX y = v.value(); int from = m.type == 5 ? 3 : 0, to = m.type == 0 ? 3 : m.type == 1 ? 2 : m.type == 4 ? 0 : (int)x.size();
    if (m.type == 6 && !(x[0] > m.lo && x[0] < m.hi)) return;
    for (int i = from; i < to; ++i) if (!(std::fabs(y[i] - x[i]) <= 4e-16 * std::fabs(x[i]))) mc::fail("component %d set to %.17g, read back %.17g", i, x[i], y[i]);
}
static void body()
{
    int type = mc::choose(NT, "type");
    Model m, other_m; VarP v = construct(type, m), other; // other: the original after continuing with a clone, or vice versa
    verify(*v, m, "constructed");
    int depth = mc::tier ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        auto inc = increments(m), val = values(m);
        int ni = (int)inc.size(), nv = (int)val.size();
        int op = mc::choose(1 + ni + nv + 8 + 6, "op"); mc::step();
        if (op == 0) break;
        op--;
        VX before = v->value();
        auto refused = [&](const std::function<void()>& f, const char* what) {
            bool threw = false;
            try { f(); } catch (const std::exception&) { threw = true; }
            if (!mc::eigen_asserts.empty()) mc::fail("%s %s: out-of-range access: %s", v->name().c_str(), what, mc::eigen_asserts[0].c_str());
            if (!threw) mc::fail("%s: %s was not refused", v->name().c_str(), what);
            if (!bits_equal(before, v->value())) mc::fail("%s: refused %s changed the value", v->name().c_str(), what);
        };
        if (op < ni) { mc::log("increment %s", str(inc[op]).c_str()); v->apply_increment(inc[op]); apply(m, inc[op]); }
        else if ((op -= ni) < nv) {
            mc::log("set %s", str(val[op]).c_str()); v->set_value_from_vector(val[op]); set(m, val[op]); stored(*v, m, val[op]);
            // reading back: the given vector, or its canonical form
            VX got = v->value(), canon = value_of(m);
            if (!close(got, val[op], 1e-12) && !close(got, canon, 1e-9) && !(type == 1 && std::fabs(std::fabs(got[2]) - pi) < 1e-9) && !((type == 0 || type == 4))) mc::fail("set %s, read back %s", str(val[op]).c_str(), str(got).c_str());
        }
        else if ((op -= nv) < 8) {
            int n = v->size();
            switch (op) {
            case 0: mc::log("set wrong size"); refused([&] { v->set_value_from_vector(VX::Constant(n + 1, 0.5)); }, "value of the wrong size"); break;
            case 1: if (n > 1) refused([&] { v->set_value_from_vector(VX::Constant(n - 1, 0.5)); }, "value of the wrong size"); else refused([&] { v->set_value_from_vector(VX()); }, "empty value"); break;
            case 2: refused([&] { v->apply_increment(VX::Constant(n + 1, 0.5)); }, "increment of the wrong size"); break;
            case 3: if (n > 1) refused([&] { v->apply_increment(VX::Constant(n - 1, 0.5)); }, "increment of the wrong size"); else refused([&] { v->apply_increment(VX()); }, "empty increment"); break;
            case 4: mc::log("toggle constness"); v->set_constant(!m.constant); m.constant = !m.constant; break;
            case 5: mc::log("continue with a clone"); other = v; other_m = m; v = v->clone(); if (v == other || !v) mc::fail("clone() returned the original"); break;
            case 6: mc::log("keep a clone"); other = v->clone(); other_m = m; break;
            case 7: mc::log("print"); v->print(); break;
            }
        } else {
            op -= 8;
            switch (type) {
            case 0: { auto& q = dynamic_cast<fr::PoseVariable&>(*v);
                if (op == 0) { q.set_pos_W(v3(5, 6, -7)); m.p = v3(5, 6, -7); }
                if (op == 1) { m.R = Exp(rv(2)); q.set_dcm_CW(m.R); }
                if (op == 2) { m.R = Exp(rv(3)); q.set_dcm_CW(m.R); }
                if (op == 3) { Eigen::Matrix<double, 6, 1> x; x << 1, 1, 2, rv(1); q.set_pose_vector(x); m.p = v3(1, 1, 2); m.R = Exp(rv(1)); }
                if (op == 4) { m.R.setIdentity(); q.set_dcm_CW(m.R); }
                if (op == 5) { m.R = Exp(v3(pi - 2e-5, 0, 0)); q.set_dcm_CW(m.R); }
                break; }
            case 1: { auto& q = dynamic_cast<fr::Pose2DVariable&>(*v); static const double th[] = {0.2, -9.0, pi, 50.0};
                if (op < 4) { q.set_theta(th[op]); m.a = th[op]; }
                if (op == 4) { q.set_pos_2d(v2(-8, 8)); m.p = v3(-8, 8, 0); }
                if (op == 5) throw mc::Stop{};
                break; }
            case 2: { auto& q = dynamic_cast<fr::LandmarkVariable&>(*v); if (op) throw mc::Stop{}; q.set_pos_W(v3(5, 6, -7)); m.p = v3(5, 6, -7); break; }
            case 5: { // a zero normal is refused
                if (op == 0) refused([&] { v->set_value_from_vector(vx({0, 0, 0, 3})); }, "zero normal");
                else if (op == 1) refused([&] { VX x = VX::Zero(4); x.head(3) = -V3(dynamic_cast<fr::PlaneVariable&>(*v).unit_vector()); x[3] = 1; v->apply_increment(x); }, "increment to a zero normal");
                else throw mc::Stop{};
                break; }
            case 6: { auto& q = dynamic_cast<fr::InverseRangeVariable&>(*v);
                if (op == 0) { q.clip_inverse_range(); }
                else if (op == 1) { q.minimum_inverse_range_ = m.lo = 0.1; q.clip_inverse_range(); m.a = clampd(m.a, m.lo, m.hi); }
                else if (op == 2) { q.maximum_inverse_range_ = m.hi = 0.6; q.clip_inverse_range(); m.a = clampd(m.a, m.lo, m.hi); }
                else throw mc::Stop{};
                break; }
            default: throw mc::Stop{};
            }
        }
        verify(*v, m, "after the operation");
        if (other) verify(*other, other_m, "other copy");
        if (mc::replaying) mc::log("value %s", str(v->value()).c_str());
        mc::Hash h; h.i(type).i(m.constant).i(bool(other)); hash(h, v->value()); mc::state(h);
    }
    mc::Hash h; h.i(type); hash(h, v->value()); mc::outcome(h);
}
int main(int a, char** v) { return mc::main(a, v, body); }
