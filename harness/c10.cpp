// C10: exp, log and the inverse Jacobian over a lattice of axes x angles that straddles every branch boundary.
#include "ref.hpp"
#include <factorama/random_utils.hpp>
using namespace ref;
namespace fr = factorama;
static std::vector<double> angles()
{
    std::vector<double> a = {0, 1e-300, 1e-160, 1e-20, 1e-12, 9.9e-11, 1e-10, 1.01e-10, 9.9e-9, 1e-8, 1.01e-8, 1e-7, 1e-6, 9.9e-6, 1e-5, 1.01e-5, 1e-4, 1e-3, 3e-3, 0.0099, 0.01, 0.03, 0.05, 0.099, 0.1, 0.3, 0.5, 1, 1.4, pi / 2, 1.6, 2, 2.5, 3};
    for (double e : {1e-2, 2e-3, 1.01e-3, 1e-3, 0.99e-3, 5e-4, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-12, 4.5e-16, 0.0}) { a.push_back(pi - e); if (e > 0) a.push_back(pi + e); }
    for (double x : {3.5, 4.0, 5.0, 6.0, 2 * pi - 1e-3, 2 * pi - 1e-6, 2 * pi - 1e-9, 2 * pi, 2 * pi + 1e-6, 7.0, 3 * pi, 20.0, 1000.0, 1e6}) a.push_back(x);
    if (mc::tier) for (int k = 0; k < 1200; ++k) { // log-spaced from both ends
        double e = std::pow(10.0, -13 + 13.0 * k / 1199); a.push_back(e); if (e < 1) a.push_back(pi - e);
    }
    return a;
}
static std::vector<V3> axes()
{
    std::vector<V3> d;
    for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) d.push_back(v3(x, y, z).normalized());
    for (V3 v : {v3(0.3, -0.5, 0.8), v3(-1, 1e-9, 1e-4), v3(1e-4, -1, 0.01), v3(1e-8, 2e-8, -1), v3(-0.2, 0.97, 0.1), v3(3, 2, -7)}) d.push_back(v.normalized());
    if (mc::tier) for (int x = -3; x <= 3; x += 2) for (int y = -3; y <= 3; y += 2) for (int z = 1; z <= 4; z += 3) d.push_back(v3(x, y, z).normalized());
    return d;
}
static bool is_rotation(const M3& R, double tol) { return maxabs(R.transpose() * R - M3::Identity()) <= tol && std::fabs(R.determinant() - 1) <= tol; }
// closed form of the derivative of log(exp(d) R) at d = 0
static M3 inv_left(const V3& w)
{
    long double t2 = (long double)w[0] * w[0] + (long double)w[1] * w[1] + (long double)w[2] * w[2], t = sqrtl(t2);
    long double g = t < 1e-3L ? 1.0L / 12 + t2 / 720 + t2 * t2 / 30240 : (1 - t / 2 * cosl(t / 2) / sinl(t / 2)) / t2;
    M3 K = skew(w);
    return M3::Identity() - 0.5 * K + double(g) * K * K;
}
static void body()
{
    static std::vector<double> A = angles(); static std::vector<V3> X = axes();
    int ia = mc::choose((int)A.size(), "angle"), ix = mc::choose((int)X.size(), "axis"), what = mc::choose(4, "request");
    double th = A[ia]; V3 ax = X[ix]; V3 w = th * ax;
    mc::log("angle %.17g axis %s request %d", th, str(ax).c_str(), what);
    mc::state(mc::Hash().i(ia).i(ix).i(what)); mc::step(); mc::matched();
    M3 R = Exp(w);
    if (what == 0) { // exp
        M3 E = fr::ExpMapSO3(w); double tol = 1e-11 * (1 + th);
        if (!is_rotation(E, tol)) mc::fail("ExpMapSO3(%s) is not a rotation: %s", str(w).c_str(), str(E).c_str());
        if (!close(E, R, tol)) mc::fail("ExpMapSO3(%s) = %s, expected %s", str(w).c_str(), str(E).c_str(), str(R).c_str());
        if (th < 1e-3) { // relative accuracy of the first-order part
            V3 u = fr::unskew(E); if (!(std::fabs((u - w).norm()) <= 1e-9 * th + th * th * th)) mc::fail("ExpMapSO3(%s) loses the small rotation: %s", str(w).c_str(), str(V3(u)).c_str());
        }
    } else if (what == 1) { // log
        V3 l = fr::LogMapSO3(R);
        if (!finite(l)) mc::fail("LogMapSO3 of the rotation by %.17g about %s is %s", th, str(ax).c_str(), str(l).c_str());
        if (l.norm() > pi * (1 + 1e-12) + 1e-9) mc::fail("LogMapSO3 returned a vector of length %.17g", l.norm());
        double tol = std::fabs(std::remainder(th, 2 * pi)) < 3 ? 1e-9 : 1e-7; // acos loses digits towards pi
        if (!close(Exp(l), R, tol)) mc::fail("exp(LogMapSO3(R)) differs from R (angle %.17g axis %s): log %s", th, str(ax).c_str(), str(l).c_str());
        if (th < pi - 1e-12 && maxabs(V3(l - w)) > tol) mc::fail("LogMapSO3(exp(w)) = %s, expected %s", str(l).c_str(), str(w).c_str());
        if (th < 1e-3 && th > 1e-150 && std::fabs((l - w).norm()) > 1e-6 * th + 1e-15) mc::fail("LogMapSO3 loses the small rotation %s: %s", str(w).c_str(), str(l).c_str());
        mc::outcome(mc::Hash().d(l[0]).d(l[1]).d(l[2]));
    } else if (what == 2) { // round trip through the library only
        if (th > 100) return;
        M3 E = fr::ExpMapSO3(w); M3 E2 = fr::ExpMapSO3(fr::LogMapSO3(E));
        if (!close(E2, E, std::fabs(std::remainder(th, 2 * pi)) < 3 ? 1e-9 : 1e-7)) mc::fail("exp(log(exp(w))) differs from exp(w), w = %s", str(w).c_str());
        V3 l = fr::LogMapSO3(E); V3 l2 = fr::LogMapSO3(E.transpose());
        bool at_pi = l.norm() > pi - 1e-6;
        if (maxabs(V3(l + l2)) > 1e-8 && !(at_pi && maxabs(V3(l - l2)) < 1e-5)) mc::fail("log of the transpose is not the opposite: %s %s", str(l).c_str(), str(l2).c_str());
    } else { // derivative of log(exp(d) R) at d = 0
        if (th > pi) return;
        M3 J = fr::compute_inverse_right_jacobian_so3(w), C = inv_left(w);
        if (!finite(J)) mc::fail("inverse Jacobian of %s is not finite", str(w).c_str());
        if (!close(J, C, 1e-8)) mc::fail("inverse Jacobian of %s is %s, expected %s", str(w).c_str(), str(J).c_str(), str(C).c_str());
        // independently: numerical derivative of the logarithm itself
        if (th < pi - 0.05) {
            M3 N; double h = 1e-3;
            for (int k = 0; k < 3; ++k) { auto at = [&](double d) { V3 e = v3(0, 0, 0); e[k] = d; return V3(Log(Exp(e) * R)); };
                N.col(k) = (8.0 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }
            if (!close(J, N, 1e-6)) mc::fail("inverse Jacobian of %s is %s, derivative of the logarithm is %s", str(w).c_str(), str(J).c_str(), str(N).c_str());
        }
    }
}
int main(int a, char** v) { mc::shard_depth = 2; return mc::main(a, v, body); }
