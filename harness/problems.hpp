// Small real estimation problems made of the library's factors, each well determined.
#pragma once
#include "graphkit.hpp"

namespace pb
{
    using namespace gk;
    struct Problem
    {
        std::vector<VarP> V; std::vector<FacP> F; std::vector<VarP> extra; // extra: constants that are not registered
        std::string name;
    };
    using Id = std::function<int(int)>;
    const int NPROB = 7;
    inline const char* prob_name(int k) { static const char* n[] = {"2D pose chain", "3D bundle", "linear chain", "rotation and plane", "pose pair with calibration", "inverse range", "coordinate transform"}; return n[k]; }

    inline Problem problem(int kind, Id vid = [](int i) { return i; }, Id fid = [](int i) { return 100 + i; })
    {
        Problem p; p.name = prob_name(kind);
        int nv = 0, nf = 0;
        auto V = [&](auto v) { p.V.push_back(v); return v; };
        auto F = [&](auto f) { p.F.push_back(f); };
        auto vi = [&] { return vid(nv++); }; auto fi = [&] { return fid(nf++); };
        switch (kind) {
        case 0: {
            auto a = V(pose2(vi(), v3(0.3, -0.2, 0.1))), b = V(pose2(vi(), v3(1.9, 0.4, 0.9))), c = V(pose2(vi(), v3(2.2, 2.6, 3.0)));
            auto l = V(gen(vi(), vx({4.2, 3.4})));
            auto m = V(gen(vi(), vx({2.0, 0.3, 0.7}))); m->set_constant(true);
            auto m2 = V(gen(vi(), vx({0.5, 2.0, 2.3}))); m2->set_constant(true);
            F(std::make_shared<fr::Pose2DPriorFactor>(fi(), a.get(), v3(0, 0, 0), 0.5, 0.1));
            F(std::make_shared<fr::Pose2DBetweenFactor>(fi(), a.get(), b.get(), m.get(), 0.3, 0.2, false));
            F(std::make_shared<fr::Pose2DBetweenFactor>(fi(), b.get(), c.get(), m2.get(), 0.4, 0.3, false));
            F(std::make_shared<fr::RangeBearingFactor2D>(fi(), a.get(), l.get(), 5.0, 0.7, 0.5, 0.1));
            F(std::make_shared<fr::RangeBearingFactor2D>(fi(), b.get(), l.get(), 3.6, 0.2, 0.5, 0.2));
            F(std::make_shared<fr::BearingObservationFactor2D>(fi(), c.get(), l.get(), -2.8, 0.3));
            break; }
        case 1: {
            auto P = V(pose(vi(), 0, 0));
            auto Q = V(std::make_shared<fr::PoseVariable>(vi(), v3(1.0, 0.2, -0.4), Exp(v3(0.35, -0.3, 0.6))));
            auto a = V(lm(vi(), v3(2, 1, 5))), b = V(lm(vi(), v3(-1, 2, 6)));
            auto k = V(lm(vi(), v3(0.5, -2, 4))); k->set_constant(true);
            F(std::make_shared<fr::PosePositionPriorFactor>(fi(), P.get(), v3(0.3, -0.6, 1.0), 0.2));
            F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), P.get(), Exp(v3(0.28, -0.45, 0.72)), 0.1));
            F(std::make_shared<fr::PosePositionPriorFactor>(fi(), Q.get(), v3(1.1, 0.3, -0.3), 0.3));
            F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), Q.get(), Exp(v3(0.3, -0.35, 0.7)), 0.2));
            int i = 0;
            for (auto& pose_ : {P, Q}) for (auto& l : {a, b, k}) { V3 d = (pdcm(*pose_) * (V3(l->value()) - ppos(*pose_))).normalized(); V3 e = d + v3(0.02 * (i % 3), -0.03, 0.01 * i); F(std::make_shared<fr::BearingObservationFactor>(fi(), pose_.get(), l.get(), e, 0.05 + 0.01 * i)); ++i; }
            F(std::make_shared<fr::GenericPriorFactor>(fi(), a.get(), v3(2.2, 0.9, 5.3), 0.5));
            break; }
        case 2: {
            auto a = V(gen(vi(), vx({1.0, -2.0}))), b = V(gen(vi(), vx({0.0, 0.5}))), c = V(gen(vi(), vx({3.0, 3.0})));
            auto u = V(gen(vi(), vx({0.2, -0.1})));
            auto k = V(gen(vi(), vx({1.0, 0.5}))); k->set_constant(true);
            F(std::make_shared<fr::GenericPriorFactor>(fi(), a.get(), vx({0.5, 1.0}), 0.5));
            F(std::make_shared<fr::GenericBetweenFactor>(fi(), a.get(), b.get(), k.get(), 0.25));
            F(std::make_shared<fr::LinearVelocityFactor>(fi(), b.get(), c.get(), u.get(), 0.5, 0.2));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), c.get(), vx({2.0, 0.0}), 1.0));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), u.get(), vx({0.0, 0.3}), 2.0));
            F(std::make_shared<fr::GenericBetweenFactor>(fi(), b.get(), c.get(), u.get(), 0.7));
            break; }
        case 3: {
            auto R = V(rot(vi(), v3(0.2, 0.4, -0.9)));
            auto x = V(lm(vi(), v3(1, 2, 0.3))), z = V(lm(vi(), v3(1, -3, 0.2))); auto y = V(gen(vi(), vx({-2, 1, 0.5})));
            auto Pl = V(plane(vi(), v3(0.1, 0.05, 1.0), 0.2));
            auto S = V(lm(vi(), v3(0, 0, 1))); S->set_constant(true);
            F(std::make_shared<fr::RotationPriorFactor>(fi(), R.get(), Exp(v3(0.3, 0.2, -1.0)), 0.3));
            F(std::make_shared<fr::PlaneFactor>(fi(), x.get(), Pl.get(), 0.1));
            F(std::make_shared<fr::PlaneFactor>(fi(), y.get(), Pl.get(), 0.1));
            F(std::make_shared<fr::PlaneFactor>(fi(), z.get(), Pl.get(), 0.2, true, 3.0, v3(0, 0, 0)));
            F(std::make_shared<fr::PlaneFactor>(fi(), S.get(), Pl.get(), 0.5));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), x.get(), v3(1.1, 2.2, 0.1), 0.2));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), y.get(), v3(-2.0, 1.0, 0.2), 0.2));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), z.get(), v3(1, -3.1, 0.4), 0.2));
            F(std::make_shared<fr::PlanePriorFactor>(fi(), Pl.get(), v3(0, 0.1, 1), 0.0, 0.4, 0.3));
            break; }
        case 4: {
            auto A = V(std::make_shared<fr::PoseVariable>(vi(), v3(0.1, 0.1, -0.1), Exp(v3(0.1, -0.1, 0.2))));
            auto B = V(std::make_shared<fr::PoseVariable>(vi(), v3(1.2, 0.7, 0.2), Exp(v3(0.4, 0.3, 0.1))));
            auto C = V(rot(vi(), v3(-0.3, -0.3, 0.2)));
            auto m = V(gen(vi(), vx({1.0, 0.5, 0.4})));
            F(std::make_shared<fr::PosePositionPriorFactor>(fi(), A.get(), v3(0, 0, 0), 0.1));
            F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), A.get(), Exp(v3(0.15, -0.05, 0.2)), 0.1));
            F(std::make_shared<fr::PosePositionBetweenFactor>(fi(), A.get(), B.get(), m.get(), 0.2, true));
            F(std::make_shared<fr::PoseOrientationBetweenFactor>(fi(), A.get(), B.get(), C.get(), 0.15));
            F(std::make_shared<fr::RotationPriorFactor>(fi(), C.get(), Exp(v3(-0.2, -0.3, 0.1)), 0.4));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), m.get(), vx({1.1, 0.4, 0.3}), 0.3));
            F(std::make_shared<fr::PosePositionPriorFactor>(fi(), B.get(), v3(1.0, 0.6, 0.3), 1.0));
            F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), B.get(), Exp(v3(0.45, 0.2, 0.1)), 0.8));
            break; }
        case 5: {
            auto P = V(std::make_shared<fr::PoseVariable>(vi(), v3(0, 0, 0), Exp(v3(0.05, 0.02, -0.04))));
            auto Q = V(std::make_shared<fr::PoseVariable>(vi(), v3(1.1, 0.1, 0), Exp(v3(0, 0.1, 0))));
            auto ir = V(std::make_shared<fr::InverseRangeVariable>(vi(), v3(0, 0, 0), v3(0.1, 0.2, 1.0), 4.0));
            F(std::make_shared<fr::PosePositionPriorFactor>(fi(), P.get(), v3(0, 0, 0), 0.1));
            F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), P.get(), M3(M3::Identity()), 0.1));
            F(std::make_shared<fr::PosePositionPriorFactor>(fi(), Q.get(), v3(1, 0, 0), 0.1));
            F(std::make_shared<fr::PoseOrientationPriorFactor>(fi(), Q.get(), Exp(v3(0, 0.12, 0.02)), 0.1));
            F(std::make_shared<fr::InverseRangeBearingFactor>(fi(), P.get(), ir.get(), v3(0.12, 0.18, 1.0), 0.05));
            F(std::make_shared<fr::InverseRangeBearingFactor>(fi(), Q.get(), ir.get(), v3(-0.25, 0.2, 1.0), 0.05));
            F(std::make_shared<fr::GenericPriorFactor>(fi(), ir.get(), vx({0.3}), 0.5));
            break; }
        default: {
            auto R = V(rot(vi(), v3(0.1, -0.2, 0.5))); auto O = V(gen(vi(), vx({1.0, 0.2, -0.3}))); auto S = V(gen(vi(), vx({0.8}))); S->set_constant(true);
            std::vector<V3> b = {v3(1, 0, 0.5), v3(-1, 2, 0), v3(0.3, 1, 2)};
            M3 Rt = Exp(v3(0.15, -0.1, 0.55)); V3 Ot = v3(1.1, 0.1, -0.2);
            F(std::make_shared<fr::RotationPriorFactor>(fi(), R.get(), Rt, 0.9));
            for (auto& q : b) {
                auto B = V(lm(vi(), q + v3(0.02, -0.01, 0.03))); auto A = V(lm(vi(), 0.8 * (Rt * q) - Ot + v3(0.05, 0.02, 0)));
                F(std::make_shared<fr::CoordinateTransformFactor>(fi(), R.get(), O.get(), S.get(), A.get(), B.get(), 0.1));
                F(std::make_shared<fr::GenericPriorFactor>(fi(), B.get(), q, 0.1)); F(std::make_shared<fr::GenericPriorFactor>(fi(), A.get(), V3(0.8 * (Rt * q) - Ot), 0.2));
            }
            break; }
        }
        return p;
    }
    inline std::shared_ptr<FactorGraph> graph(const Problem& p)
    {
        auto g = std::make_shared<FactorGraph>();
        for (auto& v : p.V) g->add_variable(v);
        for (auto& f : p.F) g->add_factor(f);
        g->finalize_structure();
        return g;
    }
    // the same problem, freshly built, at given values
    inline Problem fresh(int kind, const std::vector<VX>& values, const std::vector<bool>& consts)
    {
        Problem p = problem(kind);
        for (size_t i = 0; i < p.V.size(); ++i) { p.V[i]->set_constant(false); p.V[i]->set_value_from_vector(values[i]); p.V[i]->set_constant(consts[i]); }
        return p;
    }
    // bit for bit the state of src (its identifier stays)
    inline void copy_state(fr::Variable& dst, const fr::Variable& src)
    {
        auto as = [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; auto* s = dynamic_cast<const T*>(&src); auto* d = dynamic_cast<T*>(&dst); if (!s || !d) return false; int id = d->id(); (void)id; *d = *s; return true; };
        (void)(as((fr::PoseVariable*)0) || as((fr::Pose2DVariable*)0) || as((fr::LandmarkVariable*)0) || as((fr::GenericVariable*)0) || as((fr::RotationVariable*)0) || as((fr::InverseRangeVariable*)0) || as((fr::PlaneVariable*)0));
    }
    inline Problem twin(int kind, const Problem& src, Id vid = [](int i) { return i; }, Id fid = [](int i) { return 100 + i; })
    {
        Problem p = problem(kind, vid, fid);
        for (size_t i = 0; i < p.V.size(); ++i) copy_state(*p.V[i], *src.V[i]);
        return p;
    }
    inline std::vector<VX> values(const Problem& p) { std::vector<VX> r; for (auto& v : p.V) r.push_back(v->value()); return r; }
    inline std::vector<bool> consts(const Problem& p) { std::vector<bool> r; for (auto& v : p.V) r.push_back(v->is_constant()); return r; }
    inline void set_values(Problem& p, const std::vector<VX>& x) { for (size_t i = 0; i < p.V.size(); ++i) p.V[i]->set_value_from_vector(x[i]); }
    // are two values of this variable the same state?  (headings modulo a turn, rotation vectors through their rotation)
    inline bool same_state(const fr::Variable& v, const VX& a, const VX& b, double tol)
    {
        if (a.size() != b.size()) return false;
        switch (v.type()) {
        case fr::VariableType::pose: return close(VX(a.head(3)), VX(b.head(3)), tol) && close(Exp(V3(a.segment(3, 3))), Exp(V3(b.segment(3, 3))), tol);
        case fr::VariableType::extrinsic_rotation: return close(Exp(V3(a)), Exp(V3(b)), tol);
        case fr::VariableType::pose_2d: return close(VX(a.head(2)), VX(b.head(2)), tol) && std::fabs(wrap(a[2] - b[2])) <= tol;
        default: return close(a, b, tol);
        }
    }
    struct Outcome { std::vector<VX> x; double chi2, norm, chi0, lambda, dnorm; int it; fr::OptimizerStatus status; bool valid; std::vector<MX> cov; std::vector<int> covok; bool threw = false; };
    inline Outcome optimize(fr::SparseOptimizer& o, Problem& p, bool cov = true)
    {
        Outcome r{};
        try { o.optimize(); } catch (const std::exception&) { r.threw = true; }
        r.x = values(p); r.chi2 = o.current_stats_.chi2; r.norm = o.current_stats_.residual_norm; r.chi0 = o.initial_stats_.chi2; r.lambda = o.current_stats_.damping_parameter; r.dnorm = o.current_stats_.delta_norm;
        r.it = o.current_stats_.current_iteration; r.status = o.current_stats_.status; r.valid = o.current_stats_.valid;
        if (cov && !r.threw) { o.prepare_to_estimate_covariances(); for (auto& v : p.V) { bool ok = false; r.cov.push_back(o.estimate_covariance(v.get(), ok)); r.covok.push_back(ok); } }
        return r;
    }
    inline const char* status_name(fr::OptimizerStatus s) { static const char* n[] = {"SUCCESS", "RUNNING", "SINGULAR_HESSIAN", "ILL_CONDITIONED", "DIVERGED", "FAILED"}; return n[(int)s]; }
    inline void compare(const Problem& p, const Outcome& a, const Outcome& b, double tol, const char* who)
    {
        mc::matched();
        if (a.threw != b.threw) mc::fail("%s: one run raised an error, the other did not", who);
        if (a.status != b.status || a.valid != b.valid) mc::fail("%s: status %s (valid %d) against %s (valid %d)", who, status_name(a.status), a.valid, status_name(b.status), b.valid);
        if (a.it != b.it) mc::fail("%s: %d iterations against %d", who, a.it, b.it);
        auto num = [&](const char* n, double x, double y) { if (!(std::fabs(x - y) <= tol * (1 + std::fabs(x) + std::fabs(y))) && !(x != x && y != y)) mc::fail("%s: %s %.15g against %.15g", who, n, x, y); };
        num("cost", a.chi2, b.chi2); num("residual norm", a.norm, b.norm); num("initial cost", a.chi0, b.chi0); num("damping", a.lambda, b.lambda); num("step norm", a.dnorm, b.dnorm);
        for (size_t i = 0; i < p.V.size(); ++i) if (!same_state(*p.V[i], a.x[i], b.x[i], tol)) mc::fail("%s: variable %zu ended at %s against %s", who, i, str(a.x[i]).c_str(), str(b.x[i]).c_str());
        if (a.cov.size() == b.cov.size()) for (size_t i = 0; i < a.cov.size(); ++i) if (a.covok[i] != b.covok[i] || !close(a.cov[i], b.cov[i], 100 * tol)) mc::fail("%s: covariance of variable %zu is (%d) %s against (%d) %s", who, i, a.covok[i], str(a.cov[i]).c_str(), b.covok[i], str(b.cov[i]).c_str());
    }
} // namespace pb
