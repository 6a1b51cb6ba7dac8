// The optimizer against a scripted environment: at every point the optimizer evaluates for the first time, the
// environment chooses how the residual and the Jacobian there come out.  Afterwards a reference automaton for
// Levenberg-Marquardt / Gauss-Newton is run over the same (now fixed) function and both must agree.
#pragma once
#include "graphkit.hpp"

namespace oe
{
    using namespace gk;
    enum CostKind { LOWER, SAME, HIGHER, NOTANUMBER, SLIGHTLY, THROWS, INFINITE };
    enum JacKind { REGULAR, SINGULAR, ILL, BADJ, STATIONARY, JTHROWS, ZEROJ, TINY };
    inline const char* ck(int k) { static const char* n[] = {"lower", "same", "higher", "NaN", "slightly lower", "throws", "infinite"}; return n[k]; }
    inline const char* jk(int k) { static const char* n[] = {"regular", "singular", "ill-conditioned", "NaN", "stationary", "throws", "zero", "tiny column"}; return n[k]; }

    struct Point { V2 x; int kind = 0, jac = -1; VX r; MX J; bool seen = false; int by = 0; };

    struct Env
    {
        std::vector<Point> pts;
        double start = 4.0, colscale = 1; // squared norm at the first estimate, scale of the first column of every Jacobian
        V2 far = v2(0, 0);            // where the problem lies
        double base = 4.0;            // squared norm at the current estimate (where the Jacobian was last evaluated)
        bool frozen = false;
        std::vector<int> costs, jacs; // COMMON answers first; at most `exotic` of the others in an execution
        int common = 2, jcommon = 1, exotic = 2;
        int find(const V2& x) const
        {
            for (size_t i = 0; i < pts.size(); ++i) {
                if (!finite(x) && !finite(pts[i].x)) return (int)i;
                if (finite(x) && finite(pts[i].x) && (x - pts[i].x).norm() <= 1e-7 * (1 + (x - far).norm())) return (int)i;
            }
            return -1;
        }
        static MX base_jac(int k) { MX J(3, 2); J << 1.2 + 0.1 * (k % 4), 0.3, -0.4, 0.9 - 0.05 * (k % 5), 0.5, -0.7; return J; }
        int ask(const V2& x)
        {
            int i = find(x);
            if (i >= 0) return i;
            if (frozen) return -1;
            Point p; p.x = x;
            if (!finite(x)) p.kind = NOTANUMBER;
            else { p.kind = costs[mc::choose(exotic > 0 ? (int)costs.size() : common, "cost")]; if (p.kind != LOWER && p.kind != HIGHER) exotic--; }
            double c = base;
            if (p.kind == LOWER) c = 0.3 * base;
            if (p.kind == HIGHER) c = 3.1 * base;
            if (p.kind == SLIGHTLY) c = base * (1 - 2e-8);
            VX u = vx({0.36, -0.48, 0.8}); // unit
            p.r = std::sqrt(c) * u;
            if (p.kind == SAME) { for (auto& q : pts) if (q.r.size() && finite(q.r) && q.r.squaredNorm() == base) p.r = q.r; }
            if (p.kind == NOTANUMBER) p.r[1] = std::nan("");
            if (p.kind == INFINITE) p.r[2] = INFINITY;
            mc::log("at [%.9g %.9g]: residual %s (squared norm %.9g)", x[0], x[1], ck(p.kind), c);
            pts.push_back(p); return (int)pts.size() - 1;
        }
        void jac(int i)
        {
            Point& p = pts[i];
            if (p.jac >= 0 || frozen) return;
            p.jac = jacs[mc::choose(exotic > 0 ? (int)jacs.size() : jcommon, "jacobian")]; if (p.jac != REGULAR) exotic--;
            MX J = base_jac(i); J.col(0) *= colscale;
            if (p.jac == SINGULAR) J.col(1) = J.col(0) * 0.0;
            if (p.jac == ILL) { J.col(0) *= 8; J.col(1) *= 2e-7; }
            if (p.jac == TINY) J.col(0) *= 1e-8;
            if (p.jac == BADJ) J(2, 1) = std::nan("");
            if (p.jac == STATIONARY && finite(p.r)) { VX u = p.r.normalized(); for (int c = 0; c < 2; ++c) J.col(c) -= u * u.dot(J.col(c)); }
            if (p.jac == ZEROJ) J.setZero();
            p.J = J;
            mc::log("at [%.9g %.9g]: Jacobian %s", p.x[0], p.x[1], jk(p.jac));
        }
    };
    class Scripted : public fr::Factor
    {
    public:
        Env* env; fr::Variable* v; fr::Variable* c;
        Scripted(Env* e, fr::Variable* x, fr::Variable* k) : env(e), v(x), c(k) { id_ = 3; }
        int residual_size() const override { return 3; }
        VX compute_residual() const override
        {
            int i = env->ask(V2(v->value())); mc::step();
            if (env->pts[i].kind == THROWS) throw std::runtime_error("scripted fault");
            return env->pts[i].r;
        }
        void compute_residual(Eigen::Ref<VX> o) const override { o = compute_residual(); }
        void compute_jacobians(std::vector<MX>& J) const override
        {
            int i = env->ask(V2(v->value())); mc::step();
            env->jac(i);
            if (env->pts[i].jac == JTHROWS) throw std::runtime_error("scripted fault");
            if (finite(env->pts[i].r)) env->base = env->pts[i].r.squaredNorm();
            J.resize(2); J[0] = env->pts[i].J; J[1] = MX();
        }
        std::vector<fr::Variable*> variables() override { return {v, c}; }
        fr::FactorType::FactorTypeEnum type() const override { return fr::FactorType::custom; }
        std::string name() const override { return "scripted"; }
    };

    using fr::OptimizerStatus;
    inline const char* st(OptimizerStatus s) { static const char* n[] = {"SUCCESS", "RUNNING", "SINGULAR_HESSIAN", "ILL_CONDITIONED", "DIVERGED", "FAILED"}; return n[(int)s]; }

    struct Verdict
    {
        bool lost = false;           // the automaton needs a point the implementation never evaluated
        V2 lost_x; std::string lost_why;
        V2 x; double chi2 = 0, lambda = 0; bool have_lambda = false;
        int it_lo = 0, it_hi = 0;    // completed / attempted iterations
        std::set<OptimizerStatus> status;
        bool threw = false;          // error at the starting estimate: reaches the caller
        double dnorm = -1; bool have_dnorm = false;
        std::vector<double> costs;   // squared norm after every iteration
    };
    inline V2 solve(const MX& J, const VX& r, double lambda)
    {
        long double a = lambda, b = 0, d = lambda, g0 = 0, g1 = 0;
        for (int i = 0; i < 3; ++i) { a += (long double)J(i, 0) * J(i, 0); b += (long double)J(i, 0) * J(i, 1); d += (long double)J(i, 1) * J(i, 1); g0 -= (long double)J(i, 0) * r[i]; g1 -= (long double)J(i, 1) * r[i]; }
        long double det = a * d - b * b;
        return v2(double((d * g0 - b * g1) / det), double((a * g1 - b * g0) / det));
    }
    // condition of the damped matrix: 0 fine, 1 rejected as singular / ill-conditioned
    inline int bad(const MX& J, double lambda)
    {
        long double a = lambda, b = 0, d = lambda;
        for (int i = 0; i < 3; ++i) { a += (long double)J(i, 0) * J(i, 0); b += (long double)J(i, 0) * J(i, 1); d += (long double)J(i, 1) * J(i, 1); }
        if (a != a || b != b || d != d) return 1;
        long double p1 = std::max(a, d), p2 = p1 > 0 ? std::min(a, d) - b * b / p1 : 0; // pivots
        p2 = std::fabs((double)p2);
        if (p2 < 1e-14L || p1 / p2 > 1e12L) return 1;
        return 0;
    }

    inline Verdict reference(Env& env, const V2& x0, const fr::OptimizerSettings& s)
    {
        Verdict v; v.x = x0;
        auto at = [&](const V2& x, const char* why) -> Point* {
            int i = env.find(x); if (i < 0) { v.lost = true; v.lost_x = x; v.lost_why = why; return nullptr; }
            env.pts[i].seen = true; return &env.pts[i];
        };
        Point* p = at(x0, "the start"); if (!p) return v;
        if (p->kind == THROWS) { v.threw = true; return v; }
        double initial = p->r.norm(), initial2 = p->r.squaredNorm(), prev = initial;
        v.chi2 = initial2; v.lambda = s.initial_lambda;
        OptimizerStatus fin = OptimizerStatus::RUNNING;
        auto fail_any = [&] { v.status = {OptimizerStatus::SINGULAR_HESSIAN, OptimizerStatus::ILL_CONDITIONED, OptimizerStatus::FAILED}; };
        for (size_t it = 0; it < s.max_num_iterations; ++it) {
            Point* c = at(v.x, "the current estimate"); if (!c) return v;
            if (c->jac < 0) { v.lost = true; v.lost_x = v.x; v.lost_why = "Jacobian at the current estimate"; return v; }
            v.it_hi++;
            if (c->jac == JTHROWS) { v.status = {OptimizerStatus::FAILED}; return v; }
            double cc = c->r.squaredNorm();
            if (s.method == fr::OptimizerMethod::GaussNewton) {
                if (!finite(c->J) || !finite(c->r)) { fail_any(); return v; }
                if (bad(c->J, 0)) { fail_any(); if (c->jac == ILL || c->jac == TINY) v.status.erase(OptimizerStatus::FAILED); return v; }
                V2 dx = s.learning_rate * solve(c->J, c->r, 0);
                Point* n = at(v.x + dx, "the Gauss-Newton step"); if (!n) return v;
                if (n->kind == THROWS || !finite(n->r)) { v.status = {OptimizerStatus::FAILED}; return v; }
                v.x = v.x + dx; v.chi2 = n->r.squaredNorm(); v.it_lo++; v.dnorm = dx.norm(); v.have_dnorm = true;
            } else {
                if (it == 0) v.lambda = s.initial_lambda;
                v.have_lambda = true;
                bool accepted = false; double first = -1, step = 0;
                for (int k = 0; k < 5 && !accepted; ++k) {
                    auto up = [&] { v.lambda = std::min(v.lambda * s.lambda_up_factor, s.max_lambda); };
                    if (bad(c->J, v.lambda)) { up(); continue; }
                    V2 dx = s.learning_rate * solve(c->J, c->r, v.lambda);
                    if (first < 0) first = dx.norm();
                    Point* n = at(v.x + dx, "the Levenberg-Marquardt trial"); if (!n) return v;
                    if (n->kind == THROWS) { v.status = {OptimizerStatus::FAILED}; return v; }
                    if (0.5 * n->r.squaredNorm() < 0.5 * cc) { accepted = true; v.x = v.x + dx; v.chi2 = n->r.squaredNorm(); step = dx.norm(); v.lambda = std::max(v.lambda * s.lambda_down_factor, 1e-12); }
                    else { up(); if (v.lambda >= s.max_lambda) break; }
                }
                v.it_lo++; v.dnorm = accepted ? step : 0; v.have_dnorm = true;
                if (!accepted) {
                    if (cc < initial2 || (first >= 0 && first < s.step_tolerance)) v.status = {OptimizerStatus::SUCCESS};
                    else v.status = {OptimizerStatus::ILL_CONDITIONED, OptimizerStatus::FAILED, OptimizerStatus::SINGULAR_HESSIAN};
                    return v;
                }
            }
            v.costs.push_back(v.chi2);
            double now = std::sqrt(v.chi2), improvement = prev - now;
            if (v.dnorm < s.step_tolerance) { fin = now > initial + s.residual_tolerance ? OptimizerStatus::DIVERGED : OptimizerStatus::SUCCESS; break; }
            if (improvement < 0) { fin = now >= initial ? OptimizerStatus::DIVERGED : OptimizerStatus::SUCCESS; break; }
            if (improvement < s.residual_tolerance) { fin = OptimizerStatus::SUCCESS; break; }
            prev = now;
        }
        if (fin == OptimizerStatus::RUNNING) fin = std::isfinite(v.chi2) ? OptimizerStatus::SUCCESS : OptimizerStatus::FAILED;
        v.status = {fin};
        return v;
    }
} // namespace oe
