// One case = one factor of the library, its variables in some state, and the documented measurement error
// written down independently.  All choices go through mc::choose, so bodies enumerate the catalogue.
#pragma once
#include "ref.hpp"
#include <factorama/base_types.hpp>
#include <factorama/factor_graph.hpp>
#include <factorama/sparse_optimizer.hpp>
#include <factorama/pose_variable.hpp>
#include <factorama/pose_2d_variable.hpp>
#include <factorama/landmark_variable.hpp>
#include <factorama/generic_variable.hpp>
#include <factorama/rotation_variable.hpp>
#include <factorama/inverse_range_variable.hpp>
#include <factorama/plane_variable.hpp>
#include <factorama/bearing_observation_factor.hpp>
#include <factorama/bearing_observation_factor_2d.hpp>
#include <factorama/range_bearing_factor_2d.hpp>
#include <factorama/generic_prior_factor.hpp>
#include <factorama/inverse_range_bearing_factor.hpp>
#include <factorama/generic_between_factor.hpp>
#include <factorama/linear_velocity_factor.hpp>
#include <factorama/pose_prior_factors.hpp>
#include <factorama/pose_2d_prior_factor.hpp>
#include <factorama/pose_2d_between_factor.hpp>
#include <factorama/pose_between_factors.hpp>
#include <factorama/rotation_prior_factor.hpp>
#include <factorama/bearing_projection_factor_2d.hpp>
#include <factorama/plane_factor.hpp>
#include <factorama/plane_prior_factor.hpp>
#include <factorama/coordinate_transform_factor.hpp>
#include <factorama/random_utils.hpp>

namespace cat
{
    using namespace ref;
    namespace fr = factorama;
    using VarP = std::shared_ptr<fr::Variable>;
    using FacP = std::shared_ptr<fr::Factor>;

    enum Kind { BEARING, INVRANGE, PROJ, GPRIOR, GBETWEEN, VELOCITY, POSPRIOR, ORIPRIOR, ROTPRIOR, POSBETWEEN, ORIBETWEEN,
                PLANE, PLANESCALED, PLANEPRIOR, BEARING2D, RANGEBEARING2D, POSE2DPRIOR, POSE2DBETWEEN, COORD, NKINDS };
    inline const char* kind_name(int k)
    {
        static const char* n[] = {"BearingObservation", "InverseRangeBearing", "BearingProjection2D", "GenericPrior", "GenericBetween",
            "LinearVelocity", "PosePositionPrior", "PoseOrientationPrior", "RotationPrior", "PosePositionBetween", "PoseOrientationBetween",
            "Plane", "PlaneScaled", "PlanePrior", "BearingObservation2D", "RangeBearing2D", "Pose2DPrior", "Pose2DBetween", "CoordinateTransform"};
        return n[k];
    }

    enum Cmp { EXACT, NORM_ONLY, ROTVEC };    // how the documented residual determines the numbers

    struct Case
    {
        int kind = 0;
        std::vector<VarP> vars;               // in the order of factor->variables()
        FacP factor;
        std::function<VX()> ref;              // documented residual at the current state
        std::function<VX()> alt;              // residual of the listed known finding, if any
        std::string alt_key;
        Cmp cmp = EXACT;
        std::vector<std::pair<int, double>> angular; // rows that are angles, with their period
        bool degenerate = false;              // measurement model undefined / not differentiable here
        bool zero = false;                    // state agrees with the measurement: residual must vanish
        double h = 1e-3;                      // differentiation step
        std::string desc;
        std::vector<std::tuple<const char*, double, double>> acc; // reported weights and measurements: name, reported, expected
    };

    inline V3 rotvec(int i)
    {
        switch (i) {
            case 0: return v3(0.3, -0.5, 0.7);
            case 1: return v3(0, 0, 0);
            case 2: return v3(pi / 2, 0, 0);
            case 3: return v3(-1.2, 2.0, 1.1);
            case 4: return v3(1e-6, -2e-6, 1.5e-6);
            case 5: return v3(0, -3.0, 0.2);
            case 6: return v3(2e-9, 1e-9, 0);
            default: return v3(0.02, 0.01, -0.03);
        }
    }
    inline int nrot() { return mc::tier ? 8 : 6; }
    // rotation errors of every size between zero and half a turn, a third of a decade apart (from the smallest that matters)
    inline int nladder() { return mc::tier ? 28 : 14; }
    inline V3 ladder(int k) { V3 u = v3(0.86, 0.27, -0.33).normalized() * (k % 2 ? -1 : 1); double a = 2.6 * std::pow(10.0, -k / (mc::tier ? 6.0 : 3.0)); return a * u; }
    inline V3 pos(int i)
    {
        static const V3 p[] = {v3(0.4, -0.7, 1.1), v3(0, 0, 0), v3(-30, 20, 5)};
        return p[i];
    }
    inline double sigma(const char* w = "sigma") { static const double s[] = {0.5, 1.0, 4.0}; return s[mc::choose(mc::tier ? 3 : 2, w)]; }

    inline std::shared_ptr<fr::PoseVariable> pose(int id, int r, int p)
    {
        Eigen::Matrix<double, 6, 1> v; v << pos(p), rotvec(r);
        return std::make_shared<fr::PoseVariable>(id, v);
    }
    inline std::shared_ptr<fr::LandmarkVariable> lm(int id, const V3& p) { return std::make_shared<fr::LandmarkVariable>(id, p); }
    inline std::shared_ptr<fr::GenericVariable> gen(int id, const VX& v) { return std::make_shared<fr::GenericVariable>(id, v); }
    inline std::shared_ptr<fr::RotationVariable> rot(int id, const V3& w) { return std::make_shared<fr::RotationVariable>(id, Exp(w)); }
    inline std::shared_ptr<fr::Pose2DVariable> pose2(int id, const V3& v) { return std::make_shared<fr::Pose2DVariable>(id, v); }
    inline std::shared_ptr<fr::PlaneVariable> plane(int id, const V3& n, double d) { return std::make_shared<fr::PlaneVariable>(id, n, d); }

    // state read through values only
    inline V3 ppos(const fr::Variable& v) { return v.value().head(3); }
    inline M3 pdcm(const fr::Variable& v) { return Exp(V3(v.value().segment(3, 3))); }

    inline const std::vector<V3>& directions()
    {
        static const std::vector<V3> d = {v3(0, 0, 1), v3(1, 0, 0), v3(0, 2, 0), v3(0.3, -0.4, 2.0), v3(-1, 0.5, 0.2), v3(0.1, 0.1, -0.8)};
        return d;
    }

    inline Case make(int kind)
    {
        Case c; c.kind = kind;
        const bool T = mc::tier;
        int id = 10;
        switch (kind) {
        case BEARING: case INVRANGE: case PROJ: {
            auto P = pose(1, mc::choose(nrot(), "rot"), mc::choose(T ? 3 : 2, "pos"));
            V3 b = directions()[mc::choose(T ? 6 : 4, "bearing")];
            V3 k = b.normalized();
            M3 R = pdcm(*P); V3 t = ppos(*P);
            double s = sigma();
            // landmark in the camera frame: exactly on the ray, near it, far off, behind, very near, far away, straight behind,
            // grazing the image plane, in between, (coincident)
            static const int wheres[] = {0, 1, 2, 3, 4, 6, 7, 8, 9, 5};
            int where = wheres[mc::choose(kind == INVRANGE ? 9 : 10, "where")];
            V3 side = std::fabs(k[0]) < 0.9 ? V3(k.cross(v3(1, 0, 0)).normalized()) : V3(k.cross(v3(0, 1, 0)).normalized());
            V3 pc = where == 0 ? V3(3.0 * k) : where == 1 ? V3(2.5 * k + 0.2 * side) : where == 2 ? V3(0.7 * k + 4.0 * side - 0.3 * k.cross(side))
                    : where == 3 ? V3(-2.0 * k + 0.5 * side) : where == 4 ? V3(0.01 * k + 0.02 * k.cross(side)) : where == 6 ? V3(400 * k + 25 * side - 9 * k.cross(side)) : where == 7 ? V3(-3.0 * k)
                    : where == 8 ? V3(0.02 * k + 0.9 * side) : where == 9 ? V3(0.25 * k - 0.15 * side) : V3(0, 0, 0);
            V3 pw = t + R.transpose() * pc;
            if (where == 4) c.h = 1e-5;
            c.zero = where == 0;
            c.degenerate = where == 5;
            if (kind == PROJ && where == 8) c.h = 1e-4;
            std::shared_ptr<fr::Variable> L;
            if (kind == INVRANGE) {
                V3 o = mc::choose(2, "origin") ? V3(t) : V3(t + v3(0.5, 0.2, -0.9)); // anchored at the pose, or elsewhere
                V3 d = pw - o; double scale = mc::choose(2, "scale") ? 1.0 : 3.0;
                auto ir = std::make_shared<fr::InverseRangeVariable>(2, o, V3(d * scale), d.norm());
                L = ir;
                c.h = std::min(c.h, 1e-4);
                if (where == 4) c.h = 1e-5;
                { auto F = std::make_shared<fr::InverseRangeBearingFactor>(id, P.get(), ir.get(), b, s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); for (int q = 0; q < 3; ++q) c.acc.push_back({"bearing_C_obs", F->bearing_C_obs()[q], k[q]}); }
                auto I = ir; V3 dir = d.normalized();
                c.ref = [=] { V3 x = o + dir / I->value()[0]; V3 q = pdcm(*P) * (x - ppos(*P)); return VX((q.normalized() - k) / s); };
            } else {
                auto l = lm(2, pw); L = l;
                if (kind == BEARING) {
                    { auto F = std::make_shared<fr::BearingObservationFactor>(id, P.get(), l.get(), b, s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); for (int q = 0; q < 3; ++q) c.acc.push_back({"bearing_C_obs", F->bearing_C_obs()[q], k[q]}); }
                    c.ref = [=] { V3 q = pdcm(*P) * (V3(l->value()) - ppos(*P)); if (q.norm() < 1e-12) return VX(); return VX((q.normalized() - k) / s); };
                } else {
                    double tol = mc::choose(2, "tolerance") ? 0.1 : 1e-6; // factor default, and one that cuts off a grazing view
                    { auto F = std::make_shared<fr::BearingProjectionFactor2D>(id, P.get(), l.get(), b, s, tol); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); for (int q = 0; q < 3; ++q) c.acc.push_back({"bearing_C_obs", F->bearing_C_obs()[q], k[q]}); }
                    c.cmp = NORM_ONLY;
                    // tangent-plane components of the unit direction; behind the image plane a constant [1 1]/sigma
                    c.ref = [=] {
                        V3 q = pdcm(*P) * (V3(l->value()) - ppos(*P));
                        if (q.norm() < 1e-12) return VX(VX::Constant(2, 1 / s));
                        V3 u = q.normalized();
                        if (k.dot(u) <= tol) return VX(VX::Constant(2, 1 / s));
                        V3 tan = u - k.dot(u) * k; return VX(v2(tan.norm() / s, 0));
                    };
                }
            }
            c.vars = {P, L};
            c.desc = mc::fmt("where=%d", where);
            break;
        }
        case GPRIOR: {
            int n = mc::choose(4, "var");
            VarP v = n == 0 ? VarP(gen(1, vx({1.5}))) : n == 1 ? VarP(gen(1, vx({-0.5, 2.0, 7.0, 0.1}))) : n == 2 ? VarP(lm(1, v3(3, -2, 1)))
                     : VarP(std::make_shared<fr::InverseRangeVariable>(1, v3(1, 2, 3), v3(0, 0, 1), 2.0));
            double s = sigma();
            int off = mc::choose(2, "offset");
            VX prior = v->value(); if (off) for (int i = 0; i < prior.size(); ++i) prior[i] += 0.3 * (i + 1);
            c.zero = !off; if (n == 3) c.h = 1e-4;
            { auto F = std::make_shared<fr::GenericPriorFactor>(id, v.get(), prior, s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { return VX((v->value() - prior) / s); };
            c.vars = {v};
            break;
        }
        case GBETWEEN: {
            int n = mc::choose(3, "vars");
            VarP a, b, m;
            if (n == 0) { a = gen(1, vx({1, 2})); b = gen(2, vx({4, -3})); m = gen(3, vx({0.5, 0.25})); }
            else if (n == 1) { a = lm(1, v3(1, 2, 3)); b = lm(2, v3(-4, 0, 2)); m = gen(3, vx({1, 1, 2})); }
            else { a = gen(1, vx({1, 2, 5, 9, -1})); b = gen(2, vx({4, -3, 1, 0, 0})); m = gen(3, vx({3, -5, -4, -9, 1})); c.zero = true; }
            double s = sigma();
            { auto F = std::make_shared<fr::GenericBetweenFactor>(id, a.get(), b.get(), m.get(), s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { return VX((b->value() - a->value() - m->value()) / s); };
            c.vars = {a, b, m};
            break;
        }
        case VELOCITY: {
            int n = mc::choose(4, "vars");
            VarP a, b, v; int idx = 0;
            if (n == 0) { a = pose(1, 0, 0); b = pose(2, 3, 1); v = gen(3, vx({1, -2, 0.5})); if (mc::choose(2, "part")) { v = gen(3, vx({0.7})); idx = mc::choose(3, "index"); } }
            else if (n == 1) { a = gen(1, vx({1, 2, 3, 4})); b = gen(2, vx({3, 3, 3, 3})); v = gen(3, vx({0.5, 1})); idx = mc::choose(3, "index"); }
            else if (n == 2) { a = lm(1, v3(1, 2, 3)); b = lm(2, v3(3, 1, 0)); v = gen(3, vx({0.1, 0.2, 0.3})); if (mc::choose(2, "part")) { v = gen(3, vx({0.1, 0.2})); idx = mc::choose(2, "index"); } }
            else { a = pose2(1, v3(1, 2, 0.5)); b = pose2(2, v3(2, 0, 1)); v = gen(3, vx({1, -1})); if (mc::choose(2, "part")) { v = gen(3, vx({-0.4})); idx = mc::choose(2, "index"); } }
            static const double dts[] = {0.5, 2.0, 0.0};
            double dt = dts[mc::choose(3, "dt")], s = sigma();
            { auto F = std::make_shared<fr::LinearVelocityFactor>(id, a.get(), b.get(), v.get(), dt, s, idx); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { int k = v->size(); return VX((b->value().segment(idx, k) - a->value().segment(idx, k) - v->value() * dt) / s); };
            c.vars = {a, b, v};
            break;
        }
        case POSPRIOR: {
            auto P = pose(1, mc::choose(nrot(), "rot"), mc::choose(T ? 3 : 2, "pos"));
            int off = mc::choose(3, "offset"); V3 prior = ppos(*P) + (off == 0 ? v3(0, 0, 0) : off == 1 ? v3(0.3, -0.2, 0.9) : v3(0, 0, 5));
            double s = sigma(); c.zero = off == 0;
            { auto F = std::make_shared<fr::PosePositionPriorFactor>(id, P.get(), prior, s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { return VX((ppos(*P) - prior) / s); };
            c.vars = {P};
            break;
        }
        case ORIPRIOR: case ROTPRIOR: {
            bool lad = mc::flip("ladder"); int r = mc::choose(lad ? 2 : nrot(), "rot");
            // rotation error between state and prior
            static const V3 err[] = {v3(0, 0, 0), v3(0.4, -0.3, 0.2), v3(1e-7, 2e-7, -1e-7), v3(0, 2.6, -1.0), v3(3e-5, 0, -2e-5), v3(0.9, 0.8, -2.8), v3(0, 0, pi), v3(0, 4e-9, 3e-9), v3(-0.05, 0.01, 0.02), v3(0, 0, pi - 5e-4), v3(-2e-3, 1e-3, 0)};
            static const int es[] = {0, 1, 2, 3, 4, 5, 6, 9, 10, 7, 8};
            int e = lad ? 100 + mc::choose(nladder(), "err") : es[mc::choose(T ? 11 : 9, "err")]; if (e == 9) c.h = 1e-5;
            V3 er = lad ? ladder(e - 100) : err[e];
            double s = sigma();
            c.zero = e == 0; c.degenerate = e == 6; c.cmp = ROTVEC;
            if (kind == ORIPRIOR) {
                auto P = pose(1, r, mc::choose(2, "pos"));
                M3 R0 = Exp(V3(-er)) * pdcm(*P);
                { auto F = std::make_shared<fr::PoseOrientationPriorFactor>(id, P.get(), R0, s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
                c.ref = [=] { return VX(Log(pdcm(*P) * R0.transpose()) / s); };
                c.vars = {P};
            } else {
                auto Q = rot(1, rotvec(r));
                M3 R0 = Exp(V3(-er)) * Exp(V3(Q->value()));
                { auto F = std::make_shared<fr::RotationPriorFactor>(id, Q.get(), R0, s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
                c.ref = [=] { return VX(Log(Exp(V3(Q->value())) * R0.transpose()) / s); };
                c.vars = {Q};
            }
            c.desc = mc::fmt("err=%d", e);
            break;
        }
        case POSBETWEEN: {
            auto A = pose(1, mc::choose(nrot(), "rotA"), mc::choose(2, "posA"));
            auto B = pose(2, mc::choose(T ? 4 : 2, "rotB"), 1 - mc::choose(2, "posB"));
            bool local = mc::flip("local");
            V3 d = ppos(*B) - ppos(*A); if (local) d = pdcm(*A) * d;
            int off = mc::choose(2, "offset"); if (off) d += v3(0.5, -0.4, 0.8);
            auto m = gen(3, d);
            double s = sigma(); c.zero = !off;
            { auto F = std::make_shared<fr::PosePositionBetweenFactor>(id, A.get(), B.get(), m.get(), s, local); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { V3 x = ppos(*B) - ppos(*A); if (local) x = pdcm(*A) * x; return VX((x - V3(m->value())) / s); };
            c.vars = {A, B, m};
            c.desc = local ? "local" : "world";
            break;
        }
        case ORIBETWEEN: {
            bool lad = mc::flip("ladder");
            auto A = pose(1, mc::choose(lad ? 2 : nrot(), "rotA"), 0);
            auto C = rot(3, rotvec(mc::choose(lad ? 2 : T ? 6 : 4, "calib")));
            static const V3 err[] = {v3(0, 0, 0), v3(0.4, -0.3, 0.2), v3(1e-7, 2e-7, -1e-7), v3(0, 2.6, -1.0), v3(0.9, 0.8, -2.8), v3(0, pi, 0), v3(0, 0, pi - 5e-4), v3(-2e-3, 1e-3, 0)};
            int e = lad ? 100 + mc::choose(nladder(), "err") : mc::choose(8, "err"); if (e == 6) c.h = 1e-5;
            // R2 R1^T C = Exp(err)
            M3 R2 = Exp(lad ? ladder(e - 100) : err[e]) * Exp(V3(C->value())).transpose() * pdcm(*A);
            auto B = std::make_shared<fr::PoseVariable>(2, v3(1, 2, 3), R2);
            double s = sigma(); c.zero = e == 0; c.degenerate = e == 5; c.cmp = ROTVEC;
            { auto F = std::make_shared<fr::PoseOrientationBetweenFactor>(id, A.get(), B.get(), C.get(), s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { return VX(Log(pdcm(*B) * pdcm(*A).transpose() * Exp(V3(C->value()))) / s); };
            c.vars = {A, B, C};
            c.desc = mc::fmt("err=%d", e);
            break;
        }
        case PLANE: case PLANESCALED: {
            static const V3 ns[] = {v3(0, 0, 2), v3(0.6, -0.3, 0.4), v3(-1, -1, 0.5)};
            auto Pl = plane(2, ns[mc::choose(T ? 3 : 2, "normal")], mc::choose(2, "d") ? -3.0 : 0.8);
            V3 p0 = kind == PLANESCALED && mc::choose(2, "p0") ? v3(2, 2, -1) : V3(0, 0, 0);
            // point: on the plane, off it, beyond, close to the scaling origin, very close, far away, (exactly at it)
            int w = mc::choose(kind == PLANESCALED ? 7 : 6, "point"); V3 n = Pl->unit_vector(); double d0 = Pl->distance_from_origin();
            V3 p = w == 0 ? V3(-d0 * n + n.unitOrthogonal() * 2) : w == 1 ? v3(3, -2, 1) : w == 2 ? v3(-1, 0.5, -6) : w == 3 ? V3(p0 + v3(0.3, -0.2, 0.4))
                   : w == 4 ? V3(p0 + v3(0.02, 0.01, -0.03)) : w == 5 ? v3(-150, 80, 60) : p0;
            if (w == 4) c.h = 1e-4;
            c.degenerate = w == 6;
            VarP X = mc::choose(2, "pointvar") ? VarP(lm(1, p)) : VarP(gen(1, p));
            double s = sigma(); c.zero = w == 0;
            if (kind == PLANE) {
                { auto F = std::make_shared<fr::PlaneFactor>(id, X.get(), Pl.get(), s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
                c.ref = [=] { VX q = Pl->value(); return VX(vx({(q.head(3).normalized().dot(X->value()) + q[3]) / s})); };
            } else {
                double r0 = mc::choose(2, "r0") ? 2.0 : 25.0;
                { auto F = std::make_shared<fr::PlaneFactor>(id, X.get(), Pl.get(), s, true, r0, p0); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
                c.ref = [=] { VX q = Pl->value(); V3 x = X->value(); return VX(vx({(q.head(3).normalized().dot(x) + q[3]) / s / (1 + (x - p0).norm() / r0)})); };
            }
            c.vars = {X, Pl};
            break;
        }
        case PLANEPRIOR: {
            static const V3 ns[] = {v3(0, 0, 2), v3(0.6, -0.3, 0.4), v3(-1, -1, 0.5)};
            auto Pl = plane(1, ns[mc::choose(3, "normal")], mc::choose(2, "d") ? -3.0 : 0.8);
            V3 n = Pl->unit_vector(); V3 o = n.unitOrthogonal();
            int e = mc::choose(5 + 6, "tilt"); V3 n0 = e > 4 ? V3(n + std::pow(10.0, (3 - e) / 2.0) * o) : e == 4 ? V3(n - 3e-4 * o) : e == 0 ? V3(2.5 * n) : e == 1 ? V3(n + 0.3 * o) : e == 2 ? V3(0.5 * n.cross(o)) : V3(-0.4 * n + o);
            int off = mc::choose(2, "offset"); double dp = Pl->distance_from_origin() + (off ? 0.7 : 0.0);
            double sn = sigma("nsigma"), sd = sigma("dsigma"); c.zero = e == 0 && !off;
            { auto F = std::make_shared<fr::PlanePriorFactor>(id, Pl.get(), n0, dp, sn, sd); c.factor = F; }
            V3 u0 = n0.normalized();
            c.ref = [=] { VX q = Pl->value(); V3 m = q.head(3).normalized(); V3 t = (M3::Identity() - m * m.transpose()) * (m - u0); return vcat(VX(t / sn), vx({(q[3] - dp) / sd})); };
            c.vars = {Pl};
            break;
        }
        case BEARING2D: case RANGEBEARING2D: {
            static const double th[] = {0.4, 0.0, -2.5, 3.1, pi, 1.5707963267948966};
            auto P = pose2(1, v3(0.7, -1.2, th[mc::choose(T ? 6 : 4, "theta")]));
            static const int wheres[] = {0, 1, 2, 3, 4, 6, 7, 5};
            int where = wheres[mc::choose(8, "where")];
            static const V2 off[] = {v2(2, 1), v2(-3, 0.0), v2(0.1, -4), v2(-1, -1e-3), v2(0.02, 0.01), v2(0, 0), v2(-250, 90), v2(0.3, -0.4)};
            if (where == 4) c.h = 1e-5;
            V2 l = V2(P->value().head(2)) + off[where];
            VarP L = gen(2, l);
            double truth = where == 5 ? 0.3 : wrap(std::atan2(off[where][1], off[where][0]) - P->value()[2]);
            // measurement: exact, close, a full turn away, most of a half turn away
            int e = mc::choose(T ? 6 : 5, "err"); static const double errs[] = {0, 0.2, 2 * pi, -3.0, 3.0, -4 * pi + 0.1};
            double obs = truth + errs[e]; double sb = sigma("bsigma");
            c.degenerate = where == 5; c.zero = (e == 0 || e == 2) && where != 5;
            if (kind == BEARING2D) {
                { auto F = std::make_shared<fr::BearingObservationFactor2D>(id, P.get(), L.get(), obs, sb); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / sb}); c.acc.push_back({"bearing_angle_obs (mod 2pi)", std::cos(F->bearing_angle_obs() - obs), 1.0}); }
                c.ref = [=] { V2 d = V2(L->value()) - V2(P->value().head(2)); if (d.norm() < 1e-12) return VX(); return vx({wrap(std::atan2(d[1], d[0]) - P->value()[2] - obs) / sb}); };
                c.angular = {{0, 2 * pi / sb}};
            } else {
                double dist = off[where].norm(); int re = mc::choose(3, "rerr"); double r = re == 2 ? 0.0 : dist + (re ? 0.6 : 0.0); double sr = sigma("rsigma");
                c.zero = c.zero && !re;
                { auto F = std::make_shared<fr::RangeBearingFactor2D>(id, P.get(), L.get(), r, obs, sr, sb); c.factor = F; c.acc.push_back({"range_weight", F->range_weight(), 1 / sr}); c.acc.push_back({"bearing_weight", F->bearing_weight(), 1 / sb}); c.acc.push_back({"range_obs", F->range_obs(), r}); c.acc.push_back({"bearing_angle_obs (mod 2pi)", std::cos(F->bearing_angle_obs() - obs), 1.0}); }
                c.ref = [=] { V2 d = V2(L->value()) - V2(P->value().head(2)); if (d.norm() < 1e-12) return VX(); return vx({(d.norm() - r) / sr, wrap(std::atan2(d[1], d[0]) - P->value()[2] - obs) / sb}); };
                c.angular = {{1, 2 * pi / sb}};
            }
            c.vars = {P, L};
            break;
        }
        case POSE2DPRIOR: {
            static const double th[] = {0.4, 0.0, -2.5, 3.1};
            auto P = pose2(1, v3(0.7, -1.2, th[mc::choose(4, "theta")]));
            static const V3 offs[] = {v3(0, 0, 0), v3(0.5, -0.3, 0.2), v3(0, 2, 2 * pi), v3(-1, 0, 3.0), v3(4, 0, -3.0), v3(3e-3, 0, 0.02), v3(0, -2e-5, -1e-4), v3(0.1, 0, 1.3)};
            int e = mc::choose(8, "offset"); V3 prior = V3(P->value()) - offs[e];
            double sp = sigma("psigma"), sa = sigma("asigma"); c.zero = e == 0;
            { auto F = std::make_shared<fr::Pose2DPriorFactor>(id, P.get(), prior, sp, sa); c.factor = F; c.acc.push_back({"position_weight", F->position_weight(), 1 / sp}); c.acc.push_back({"angle_weight", F->angle_weight(), 1 / sa}); }
            c.ref = [=] { VX x = P->value(); return vx({(x[0] - prior[0]) / sp, (x[1] - prior[1]) / sp, wrap(x[2] - prior[2]) / sa}); };
            c.angular = {{2, 2 * pi / sa}};
            c.vars = {P};
            break;
        }
        case POSE2DBETWEEN: {
            static const double th[] = {0.4, 0.0, -2.5, 3.0};
            auto A = pose2(1, v3(0.7, -1.2, th[mc::choose(4, "thetaA")]));
            auto B = pose2(2, v3(-2.0, 0.4, th[mc::choose(4, "thetaB")]));
            bool local = mc::flip("local");
            static const V3 offs[] = {v3(0, 0, 0), v3(0.5, -0.3, 0.2), v3(0, 2, 2 * pi), v3(-1, 0, 3.0), v3(3e-3, 0, 0.02), v3(0, -2e-5, -1e-4), v3(0.1, 0, 1.3)};
            int e = mc::choose(7, "offset");
            auto docs = [=](double sgn) { VX a = A->value(), b = B->value(); V2 d = v2(b[0] - a[0], b[1] - a[1]);
                if (local) { double cs = std::cos(a[2]), sn = std::sin(a[2]) * sgn; d = v2(cs * d[0] + sn * d[1], -sn * d[0] + cs * d[1]); } return v3(d[0], d[1], wrap(b[2] - a[2])); };
            V3 meas = docs(1) - offs[e]; auto m = gen(3, meas);
            double sp = sigma("psigma"), sa = sigma("asigma"); c.zero = e == 0 || (e == 2 && false);
            { auto F = std::make_shared<fr::Pose2DBetweenFactor>(id, A.get(), B.get(), m.get(), sp, sa, local); c.factor = F; c.acc.push_back({"position_weight", F->position_weight(), 1 / sp}); c.acc.push_back({"angle_weight", F->angle_weight(), 1 / sa}); }
            auto res = [=](double sgn) { V3 d = docs(sgn); VX q = m->value(); return vx({(d[0] - q[0]) / sp, (d[1] - q[1]) / sp, wrap(d[2] - q[2]) / sa}); };
            c.ref = [=] { return res(1); };
            if (local) { c.alt = [=] { return res(-1); }; c.alt_key = "Pose2DBetweenFactor-local-frame"; }
            c.angular = {{2, 2 * pi / sa}};
            c.vars = {A, B, m};
            c.desc = local ? "local" : "world";
            break;
        }
        case COORD: {
            auto R = rot(1, rotvec(mc::choose(nrot(), "rot")));
            auto O = gen(2, mc::choose(2, "origin") ? v3(0, 0, 0) : v3(1.5, -2, 0.3));
            static const double scs[] = {1.0, 0.4, 25.0, -2.0}; double sc = scs[mc::choose(T ? 4 : 3, "scale")]; auto S = gen(3, vx({sc}));
            static const V3 lbs[] = {v3(2, -1, 4), v3(-0.5, 7, 1), v3(0, 0, 0)}; V3 lb = lbs[mc::choose(3, "lmB")];
            auto B = lm(5, lb);
            int off = mc::choose(2, "offset");
            V3 la = sc * (Exp(V3(R->value())) * lb) - V3(O->value()) + (off ? v3(0.3, 0.1, -0.8) : v3(0, 0, 0));
            auto A = lm(4, la);
            double s = sigma(); c.zero = !off;
            { auto F = std::make_shared<fr::CoordinateTransformFactor>(id, R.get(), O.get(), S.get(), A.get(), B.get(), s); c.factor = F; c.acc.push_back({"weight", F->weight(), 1 / s}); }
            c.ref = [=] { return VX((V3(A->value()) - (S->value()[0] * (Exp(V3(R->value())) * V3(B->value())) - V3(O->value()))) / s); };
            c.vars = {R, O, S, A, B};
            break;
        }
        }
        return c;
    }

    // derivative of the factor's residual with respect to v's own increment rule (4th order central differences)
    inline MX numeric(fr::Factor& f, fr::Variable& v, double h)
    {
        VX x0 = v.value(); int n = v.size(); VX r0 = f.compute_residual();
        MX J(r0.size(), n);
        auto at = [&](int k, double d) { VX dx = VX::Zero(n); dx[k] = d; v.apply_increment(dx); VX r = f.compute_residual(); v.set_value_from_vector(x0); return r; };
        for (int k = 0; k < n; ++k)
            J.col(k) = (8.0 * (at(k, h) - at(k, -h)) - (at(k, 2 * h) - at(k, -2 * h))) / (12.0 * h);
        return J;
    }
} // namespace cat
