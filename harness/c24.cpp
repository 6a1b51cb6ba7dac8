// C24: worlds with exact measurements of a known truth.  Every factor type of the library occurs; from every start in a
// lattice around the truth, for every set of held variables and several settings, the optimizer must find the truth.
#include "problems.hpp"
using namespace pb;

struct World { Problem p; std::vector<VX> truth; bool lm_only = false; double reach = 1.0; std::string name; };
static const int NW = 10;
static World world(int kind, int variant, double sg)
{
    World w; Problem& p = w.p; int nv = 0, nf = 0;
    auto V = [&](auto v) { p.V.push_back(v); return v; };
    auto F = [&](auto f) { p.F.push_back(f); };
    auto vi = [&] { return nv++; }; auto fi = [&] { return 100 + nf++; };
    auto pz = [&](const V3& t, const V3& r) { return V(std::make_shared<fr::PoseVariable>(vi(), t, Exp(r))); };
    // the variant moves the whole world and turns it, so that angles lie near their branch points
    static const double turn[] = {0.0, 2.9, -1.6, 0.7}; static const double far[] = {0.0, -3.0, 40.0, 2e5};
    double th = turn[variant], off = far[variant];
    auto w2 = [&](double x, double y) { return v2(std::cos(th) * x - std::sin(th) * y + off, std::sin(th) * x + std::cos(th) * y - 0.5 * off); };
    auto p2 = [&](double x, double y, double a) { V2 q = w2(x, y); return v3(q[0], q[1], wrap(a + th)); };
    M3 T = Exp(v3(0.2, -0.1, 1).normalized() * th); V3 o3 = v3(off, 0.3 * off, -0.5 * off);
    auto w3 = [&](double x, double y, double z) { return V3(T * v3(x, y, z) + o3); };
    auto cam = [&](const V3& r) { return Log(Exp(r) * T.transpose()); }; // rotation vector of dcm_CW for a camera turned by r in the unturned world
    auto bearing2 = [&](const VarP& a, const VarP& l) { V2 d = V2(l->value().head(2)) - V2(a->value().head(2)); return wrap(std::atan2(d[1], d[0]) - a->value()[2]); };
    auto range2 = [&](const VarP& a, const VarP& l) { return (V2(l->value().head(2)) - V2(a->value().head(2))).norm(); };
    auto bearing3 = [&](const fr::Variable& a, const V3& x) { return V3((pdcm(a) * (x - ppos(a))).normalized()); };
    auto held = [&](VX x) { auto m = gen(vi(), x); m->set_constant(true); p.V.push_back(m); return m; };
    switch (kind) {
    case 0: { // 2D poses and landmarks
        w.name = "2D mapping";
        auto a = V(pose2(vi(), p2(0, 0, 0.1))), b = V(pose2(vi(), p2(2, 0.5, 0.4))), c = V(pose2(vi(), p2(3, 3, 1.6)));
        auto l = V(gen(vi(), w2(5, 3))), k = V(gen(vi(), w2(1, 4)));
        F(std::make_shared<fr::Pose2DPriorFactor>(fi(), a.get(), V3(a->value()), 0.5 * sg, 0.1 * sg));
        for (auto ab : {std::make_pair(a, b), std::make_pair(b, c)}) { V3 d = ab.second->value() - ab.first->value(); d[2] = wrap(d[2]); auto m = held(d); F(std::make_shared<fr::Pose2DBetweenFactor>(fi(), ab.first.get(), ab.second.get(), m.get(), 0.3, 0.2 * sg, false)); }
        for (auto& q : {a, b, c}) { F(std::make_shared<fr::RangeBearingFactor2D>(fi(), q.get(), l.get(), range2(q, l), bearing2(q, l), 0.5 * sg, 0.1)); F(std::make_shared<fr::BearingObservationFactor2D>(fi(), q.get(), k.get(), bearing2(q, k), 0.2)); }
        break; }
    case 1: { // bundle of bearings
        w.name = "3D mapping from bearings";
        auto P = pz(w3(0, 0, 0), cam(v3(0.1, -0.05, 0.02))), Q = pz(w3(1.5, 0.2, -0.4), cam(v3(0.05, -0.2, 0.1)));
        std::vector<std::shared_ptr<fr::LandmarkVariable>> L = {V(lm(vi(), w3(1, 0.5, 5))), V(lm(vi(), w3(-1, 1, 6))), V(lm(vi(), w3(0.3, -1.2, 4)))};
        for (auto& q : {P, Q}) { F(std::make_shared<fr::PosePositionPriorFactor>(fi(), q.get(), ppos(*q), 0.2 * sg)); F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), q.get(), pdcm(*q), 0.1)); }
        int i = 0; for (auto& q : {P, Q}) for (auto& l : L) { V3 b = bearing3(*q, l->value()); if (i++ % 2) F(std::make_shared<fr::BearingProjectionFactor2D>(fi(), q.get(), l.get(), V3(3 * b), 0.05)); else F(std::make_shared<fr::BearingObservationFactor>(fi(), q.get(), l.get(), V3(0.5 * b), 0.04 * sg)); }
        break; }
    case 2: { // pose pair with position offset in the local frame and a rotation offset, both estimated
        w.name = "relative poses with calibration";
        auto A = pz(w3(0, 0, 0), cam(v3(0.1, -0.1, 0.2))), B = pz(w3(1, 0.5, 0.2), cam(v3(0.4, 0.3, 0.1))), D = pz(w3(-1, 2, 1), cam(v3(0.2, 0.9, -0.3)));
        auto C = V(rot(vi(), Log(pdcm(*A) * pdcm(*B).transpose()))); auto m = V(gen(vi(), pdcm(*A) * (ppos(*B) - ppos(*A))));
        auto E = V(rot(vi(), Log(pdcm(*B) * pdcm(*D).transpose()))); E->set_constant(true); auto n = held(ppos(*D) - ppos(*B));
        F(std::make_shared<fr::PosePositionPriorFactor>(fi(), A.get(), ppos(*A), 0.1)); F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), A.get(), pdcm(*A), 0.1 * sg));
        F(std::make_shared<fr::PosePositionBetweenFactor>(fi(), A.get(), B.get(), m.get(), 0.2, true)); F(std::make_shared<fr::PoseOrientationBetweenFactor>(fi(), A.get(), B.get(), C.get(), 0.15 * sg));
        F(std::make_shared<fr::PosePositionBetweenFactor>(fi(), B.get(), D.get(), n.get(), 0.3 * sg, false)); F(std::make_shared<fr::PoseOrientationBetweenFactor>(fi(), B.get(), D.get(), E.get(), 0.3));
        F(std::make_shared<fr::PosePositionPriorFactor>(fi(), B.get(), ppos(*B), 0.4)); F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), B.get(), pdcm(*B), 0.3));
        break; }
    case 3: { // inverse range point from three poses
        w.name = "inverse range point"; w.reach = 0.4;
        auto P = pz(w3(0, 0, 0), cam(v3(0.05, 0.02, -0.04))), Q = pz(w3(1, 0, 0), cam(v3(0, 0.1, 0))), S = pz(w3(0, -1.5, 0.2), cam(v3(-0.1, 0, 0)));
        V3 x = w3(0.5, 0.3, 4);
        auto ir = V(std::make_shared<fr::InverseRangeVariable>(vi(), ppos(*P), V3(2 * (x - ppos(*P))), (x - ppos(*P)).norm()));
        P->set_constant(true);
        for (auto& q : {Q, S}) { F(std::make_shared<fr::PosePositionPriorFactor>(fi(), q.get(), ppos(*q), 0.1 * sg)); F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), q.get(), pdcm(*q), 0.1)); }
        for (auto& q : {P, Q, S}) F(std::make_shared<fr::InverseRangeBearingFactor>(fi(), q.get(), ir.get(), bearing3(*q, x), 0.05));
        break; }
    case 4: { // coordinate transform with scale from point pairs
        w.name = "coordinate transform";
        auto R = V(rot(vi(), Log(Exp(v3(0.1, -0.2, 0.5)) * T))); auto O = V(gen(vi(), v3(1.0, 0.2, -0.3) + 0.1 * o3)), S = V(gen(vi(), vx({0.8})));
        for (auto& q : {v3(1, 0, 0.5), v3(-1, 2, 0), v3(0.3, 1, 2), v3(2, -1, -1)}) {
            auto A = V(lm(vi(), V3(0.8 * (Exp(V3(R->value())) * q) - V3(O->value())))); auto B = V(lm(vi(), q));
            F(std::make_shared<fr::CoordinateTransformFactor>(fi(), R.get(), O.get(), S.get(), A.get(), B.get(), 0.1 * sg));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), B.get(), B->value(), 0.1)); F(std::make_shared<fr::GenericPriorFactor>(fi(), A.get(), A->value(), 0.2));
        }
        break; }
    case 5: { // plane through points
        w.name = "plane through points"; w.lm_only = true;
        V3 n = (T * v3(0.2, 0.1, 1)).normalized(); double d = 1.5 - n.dot(o3);
        auto Pl = V(plane(vi(), n, d)); V3 u = n.unitOrthogonal(), v = n.cross(u), c = V3(o3 - n * (n.dot(o3) + d));
        int i = 0; for (auto& q : {v2(2, 0), v2(-1, 2), v2(-1.5, -2), v2(0.5, 0.4)}) { V3 x = c + q[0] * u + q[1] * v; auto X = V(lm(vi(), x)); F(std::make_shared<fr::GenericPriorFactor>(fi(), X.get(), x, 0.2 * sg)); F(std::make_shared<fr::PlaneFactor>(fi(), X.get(), Pl.get(), 0.1, i++ == 1, 3.0, V3(x + v3(0.1, 2, 0.3)))); }
        F(std::make_shared<fr::PlanePriorFactor>(fi(), Pl.get(), V3(3 * n), d, 0.4, 0.5 * sg));
        break; }
    case 6: { // rotations
        w.name = "rotation from priors";
        auto R = V(rot(vi(), Log(T * Exp(v3(0.3, 0.2, -0.4))))); auto S = V(rot(vi(), Log(T)));
        F(std::make_shared<fr::RotationPriorFactor>(fi(), R.get(), Exp(V3(R->value())), 0.3)); F(std::make_shared<fr::RotationPriorFactor>(fi(), R.get(), Exp(V3(R->value())), 0.7 * sg)); F(std::make_shared<fr::RotationPriorFactor>(fi(), S.get(), Exp(V3(S->value())), 2.0));
        break; }
    case 7: { // constant velocity
        w.name = "constant velocity";
        V3 u = T * v3(0.5, -0.2, 0.1); std::vector<std::shared_ptr<fr::GenericVariable>> x; for (int i = 0; i < 4; ++i) x.push_back(V(gen(vi(), V3(o3 + 0.5 * i * u))));
        auto vel = V(gen(vi(), u));
        F(std::make_shared<fr::GenericPriorFactor>(fi(), x[0].get(), x[0]->value(), 0.1 * sg)); F(std::make_shared<fr::GenericPriorFactor>(fi(), x[3].get(), x[3]->value(), 0.3));
        for (int i = 0; i < 3; ++i) F(std::make_shared<fr::LinearVelocityFactor>(fi(), x[i].get(), x[i + 1].get(), vel.get(), 0.5, 0.2 * sg));
        break; }
    case 8: { // flying pose with velocity, seen landmark
        w.name = "moving camera";
        V3 u = T * v3(0.8, 0.1, -0.2); std::vector<std::shared_ptr<fr::PoseVariable>> P; for (int i = 0; i < 3; ++i) P.push_back(pz(V3(o3 + i * u), cam(v3(0.05 * i, -0.1, 0.1 * i))));
        auto vel = V(gen(vi(), u)); auto l = V(lm(vi(), w3(0.5, 0.5, 4)));
        F(std::make_shared<fr::PosePositionPriorFactor>(fi(), P[0].get(), ppos(*P[0]), 0.1 * sg)); F(std::make_shared<fr::GenericPriorFactor>(fi(), vel.get(), u, 0.2));
        for (int i = 0; i < 2; ++i) F(std::make_shared<fr::LinearVelocityFactor>(fi(), P[i].get(), P[i + 1].get(), vel.get(), 1.0, 0.2));
        for (auto& q : P) { F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), q.get(), pdcm(*q), 0.1 * sg)); F(std::make_shared<fr::BearingObservationFactor>(fi(), q.get(), l.get(), bearing3(*q, l->value()), 0.05)); }
        break; }
    default: { // generic between loop over a shared measured offset
        w.name = "loop of differences";
        V3 e = T * v3(1, 2, 0.5); auto a = V(lm(vi(), o3)), b = V(lm(vi(), V3(o3 + e))), c = V(lm(vi(), V3(o3 + 2 * e))); auto m = V(gen(vi(), e)); auto back = held(-2 * e);
        F(std::make_shared<fr::GenericPriorFactor>(fi(), a.get(), o3, 0.2 * sg)); F(std::make_shared<fr::GenericBetweenFactor>(fi(), a.get(), b.get(), m.get(), 0.1)); F(std::make_shared<fr::GenericBetweenFactor>(fi(), b.get(), c.get(), m.get(), 0.3 * sg)); F(std::make_shared<fr::GenericBetweenFactor>(fi(), c.get(), a.get(), back.get(), 0.5));
        break; }
    }
    w.truth = values(p);
    return w;
}
static void body()
{
    const bool T = mc::tier;
    int kind = mc::choose(NW, "world"), variant = mc::choose(4, "placement");
    double sg = mc::choose(2, "sigmas") ? 3.0 : 1.0;
    if (kind == 5 && variant == 3) return; // a plane 200 km away: its offset and normal are hardly told apart
    World w = world(kind, variant, sg); Problem& p = w.p;
    std::vector<int> fr_; for (size_t i = 0; i < p.V.size(); ++i) if (!p.V[i]->is_constant()) fr_.push_back((int)i);
    int n = (int)fr_.size();
    // which variables are held at the truth: every subset of few, else none, each one, each neighbouring pair, all but each one
    bool every = n <= (T ? 9 : 5); if (variant == 3 && !T) every = false; int hold = mc::choose(every ? 1 << n : 1 + (variant == 3 && !T ? 1 : 3) * n, "held");
    for (int k = 0; k < n; ++k) { bool c = every ? hold >> k & 1 : hold == 0 ? false : hold <= n ? k == hold - 1 : hold <= 2 * n ? k != hold - n - 1 : k == hold - 2 * n - 1 || k == (hold - 2 * n) % n; if (c) p.V[fr_[k]]->set_constant(true); }
    // the start: one variable, or all, off the truth in one direction of a lattice
    std::vector<int> fv; for (int k : fr_) if (!p.V[k]->is_constant()) fv.push_back(k);
    int who = mc::choose((int)fv.size() + 1, "displaced"), dir = mc::choose(variant == 3 && !T ? 4 : 10, "direction"), mag = mc::choose(T ? 5 : 4, "size");
    static const double mags[] = {0.25, 0.02, 0.0, 0.1, 0.18}; static const double pat[10][6] = {{1, 0.3, -0.5, 0.6, -0.4, 0.2}, {-1, -0.3, 0.5, -0.6, 0.4, -0.2}, {0, 1, 0, 0, 0.5, 0}, {0, 0, 1, -0.5, 0, 0}, {1, -1, 1, 0, 0, -0.7}, {-0.4, 0.9, -1, 0.7, 0.2, 0.1}, {0, -1, 0, 0, -0.5, 0}, {0, 0, -1, 0.5, 0, 0}, {1, 1, 1, 1, 1, 1}, {-1, 0, 0, 0, 0, -1}};
    if (mags[mag] == 0 && dir) return;
    for (size_t k = 0; k < fv.size(); ++k) {
        if (who < (int)fv.size() && (int)k != who) continue;
        auto& v = p.V[fv[k]]; VX dx(v->size()); double sgn = who == (int)fv.size() && k % 2 ? -1 : 1;
        for (int c = 0; c < dx.size(); ++c) dx[c] = sgn * pat[dir][(c + (who == (int)fv.size() ? (int)k : 0)) % 6] * mags[mag] * w.reach;
        if (v->type() == fr::VariableType::inverse_range_landmark) dx *= 0.2;
        v->apply_increment(dx);
    }
    int cfg = mc::choose(w.lm_only ? 2 : 6, "settings"); if (w.lm_only) cfg += 3;
    fr::OptimizerSettings s; s.method = cfg >= 3 ? fr::OptimizerMethod::LevenbergMarquardt : fr::OptimizerMethod::GaussNewton;
    if (cfg == 1) { s.learning_rate = 0.5; s.step_tolerance = 1e-9; s.residual_tolerance = 1e-12; }
    if (cfg == 2) { s.step_tolerance = 1e-10; s.residual_tolerance = 1e-12; s.check_rank_deficiency = true; }
    if (cfg == 4) { s.initial_lambda = 5; s.step_tolerance = 1e-10; s.residual_tolerance = 1e-12; s.max_num_iterations = 300; }
    if (cfg == 5 && !T && (who < (int)fv.size() || mag)) return;
    if (variant == 3) s.residual_tolerance = std::max(s.residual_tolerance, 1e-8); // rounding at this distance
    if (cfg == 5) { s.method = fr::OptimizerMethod::GaussNewton; s.learning_rate = 0.1; s.step_tolerance = 1e-5; s.residual_tolerance = 1e-8; s.max_num_iterations = 400; } // slow: ends by its step tolerance
    auto g = graph(p); fr::SparseOptimizer o; o.setup(g, s);
    double r0 = g->compute_full_residual_vector().norm();
    o.optimize(); mc::step(); mc::matched();
    auto& cs = o.current_stats_; double r1 = stacked(p.V, p.F).res.norm();
    mc::log("%s, placement %d, held %d, displaced %d along %d by %g, settings %d: residual norm %g -> %g, status %s, %d iterations", w.name.c_str(), variant, hold, who, dir, mags[mag], cfg, r0, r1, status_name(cs.status), cs.current_iteration);
    if (cs.status != fr::OptimizerStatus::SUCCESS || !cs.valid) mc::fail("%s: exact measurements, yet the run ended with status %s, valid %d", w.name.c_str(), status_name(cs.status), cs.valid);
    bool tight = cfg == 1 || cfg == 2 || cfg == 4;
    double rt = tight ? 1e-5 : 1e-3, xt = tight ? 1e-4 : 1e-2; rt += 1e-7 * 40 * (variant == 2); if (cfg == 5) { rt = 4e-3; xt = 2e-3; }
    if (!(r1 <= rt)) mc::fail("%s: exact measurements, yet the residual norm ended at %g", w.name.c_str(), r1);
    for (size_t i = 0; i < p.V.size(); ++i) if (!same_state(*p.V[i], p.V[i]->value(), w.truth[i], xt)) mc::fail("%s: variable %zu ended at %s, the truth is %s", w.name.c_str(), i, str(p.V[i]->value()).c_str(), str(w.truth[i]).c_str());
    mc::count(mc::fmt("%d iterations", std::min(20, cs.current_iteration / 5 * 5)).c_str());
    mc::Hash h; h.i(kind).i(variant).i(hold).i(who).i(dir).i(mag); mc::state(h); h.i(cfg).i(cs.current_iteration); mc::outcome(h);
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
