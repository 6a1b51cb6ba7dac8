// Independent reference mathematics (written from the documentation, not from the implementation).
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <memory>
#include <vector>
#include "mc.hpp"

namespace ref
{
    using V2 = Eigen::Vector2d; using V3 = Eigen::Vector3d; using VX = Eigen::VectorXd;
    using M2 = Eigen::Matrix2d; using M3 = Eigen::Matrix3d; using MX = Eigen::MatrixXd;
    const double pi = 3.14159265358979323846;

    inline V3 v3(double a, double b, double c) { V3 v; v << a, b, c; return v; }
    inline V2 v2(double a, double b) { V2 v; v << a, b; return v; }
    inline VX vx(std::initializer_list<double> l) { VX v((Eigen::Index)l.size()); int i = 0; for (double x : l) v[i++] = x; return v; }
    inline VX vcat(const VX& a, const VX& b) { VX r(a.size() + b.size()); for (int i = 0; i < a.size(); ++i) r[i] = a[i]; for (int i = 0; i < b.size(); ++i) r[a.size() + i] = b[i]; return r; }

    inline M3 skew(const V3& w) { M3 m; m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0; return m; }

    // exp through the unit quaternion (half-angle), accurate at every angle including 0
    inline M3 Exp(const V3& w)
    {
        long double t2 = (long double)w[0] * w[0] + (long double)w[1] * w[1] + (long double)w[2] * w[2];
        long double t = sqrtl(t2), k; // k = sin(t/2)/t
        if (t < 1e-4L) k = 0.5L - t2 / 48.0L + t2 * t2 / 3840.0L; else k = sinl(t / 2) / t;
        long double q0 = cosl(t / 2), q1 = k * w[0], q2 = k * w[1], q3 = k * w[2];
        M3 R;
        R << double(1 - 2 * (q2 * q2 + q3 * q3)), double(2 * (q1 * q2 - q0 * q3)), double(2 * (q1 * q3 + q0 * q2)),
            double(2 * (q1 * q2 + q0 * q3)), double(1 - 2 * (q1 * q1 + q3 * q3)), double(2 * (q2 * q3 - q0 * q1)),
            double(2 * (q1 * q3 - q0 * q2)), double(2 * (q2 * q3 + q0 * q1)), double(1 - 2 * (q1 * q1 + q2 * q2));
        return R;
    }
    // log through the largest quaternion component; angle in [0, pi]
    inline V3 Log(const M3& R)
    {
        long double q[4]; // 4*q_i^2
        long double c[4] = {1.0L + R(0, 0) + R(1, 1) + R(2, 2), 1.0L + R(0, 0) - R(1, 1) - R(2, 2), 1.0L - R(0, 0) + R(1, 1) - R(2, 2), 1.0L - R(0, 0) - R(1, 1) + R(2, 2)};
        int b = 0; for (int i = 1; i < 4; ++i) if (c[i] > c[b]) b = i;
        long double s = sqrtl(c[b]) / 2; q[b] = s;
        long double m = 1 / (4 * s);
        long double a1 = R(2, 1) - (long double)R(1, 2), a2 = R(0, 2) - (long double)R(2, 0), a3 = R(1, 0) - (long double)R(0, 1);
        long double s12 = R(0, 1) + (long double)R(1, 0), s13 = R(0, 2) + (long double)R(2, 0), s23 = R(1, 2) + (long double)R(2, 1);
        if (b == 0) { q[1] = a1 * m; q[2] = a2 * m; q[3] = a3 * m; }
        if (b == 1) { q[0] = a1 * m; q[2] = s12 * m; q[3] = s13 * m; }
        if (b == 2) { q[0] = a2 * m; q[1] = s12 * m; q[3] = s23 * m; }
        if (b == 3) { q[0] = a3 * m; q[1] = s13 * m; q[2] = s23 * m; }
        if (q[0] < 0) for (auto& x : q) x = -x;
        long double n = sqrtl(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
        long double t = 2 * atan2l(n, q[0]);
        long double k = n < 1e-12L ? 2.0L : t / n;
        return v3(double(q[1] * k), double(q[2] * k), double(q[3] * k));
    }
    inline double wrap(double a) { double r = std::remainder(a, 2 * pi); return r; }

    inline double maxabs(const MX& m) { double r = 0; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) { double v = std::fabs(m(i, j)); if (!(v <= r)) r = (v != v) ? 1e300 : v; } return r; }
    inline bool finite(const MX& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) if (!std::isfinite(m(i, j))) return false; return true; }
    // same shape and elementwise within tol (scaled by magnitude)
    inline bool close(const MX& a, const MX& b, double tol)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
        if (a.size() == 0) return true;
        for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
            double x = a(i, j), y = b(i, j);
            if (x == y || (x != x && y != y)) continue;
            if (!(std::fabs(x - y) <= tol * (1 + std::max(std::fabs(x), std::fabs(y))))) return false;
        }
        return true;
    }
    inline bool bits_equal(const MX& a, const MX& b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
        for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { double x = a(i, j), y = b(i, j); if (memcmp(&x, &y, 8)) return false; }
        return true;
    }
    inline std::string str(const MX& m)
    {
        std::string s = "[";
        for (int i = 0; i < m.rows(); ++i) { if (i) s += "; "; for (int j = 0; j < m.cols(); ++j) s += mc::fmt(j ? " %.9g" : "%.9g", m(i, j)); }
        return s + "]";
    }
    inline void hash(mc::Hash& h, const MX& m) { h.i(m.rows()).i(m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) h.d(m(i, j)); }
} // namespace ref
