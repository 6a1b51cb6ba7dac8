// C19: Huber kernel over residual sizes x values around the threshold x block lists x earlier calls.
#include "ref.hpp"
#include <factorama/kernels.hpp>
using namespace ref;
static VX expected(const VX& r, double d) { double n = r.norm(); return n <= d ? r : VX(r * std::sqrt(d / n)); }
static void body()
{
    static const double ds[] = {1.0, 0.5, 3.0, 1e-6, 1e5};
    double delta = ds[mc::choose(5, "delta")];
    int n = 1 + mc::choose(mc::tier ? 4 : 3, "size");
    static const double comp[] = {0, 1, -2, 0.3, -0.7};
    VX dir(n); for (int i = 0; i < n; ++i) dir[i] = comp[mc::choose(mc::tier ? 5 : 4, "component")];
    static const double norms[] = {0.5, 0.999999, 1.0, 1.000001, 1.5, 4.0, 1e3, 1e6};
    int in = mc::choose(8, "norm"); double norm = norms[in] * delta;
    VX r = dir.norm() > 0 ? VX(dir / dir.norm() * norm) : dir;
    if (dir.norm() == 0 && in) throw mc::Stop{};
    int blocks = mc::choose(7, "blocks"), before = mc::choose(3, "earlier call");
    factorama::HuberKernel k(delta); factorama::ResidualKernel& K = k;
    if (k.delta() != delta) mc::fail("delta() is %g", k.delta());
    if (before == 1) { VX q = VX::Constant(n, 2 * delta); std::vector<MX> j(1, MX::Ones(n, 2)); K.apply_to_residual(q); K.apply_to_jacobians(q, j); }
    if (before == 2) { VX q = VX::Constant(n, 0.1 * delta / n); std::vector<MX> j(2, MX::Ones(n, 1)); K.apply_to_jacobians(q, j); K.apply_to_residual(q); }
    mc::log("delta %g residual %s blocks %d before %d", delta, str(r).c_str(), blocks, before);
    VX in_r = r; VX w = K.apply_to_residual(r); mc::step();
    if (!bits_equal(r, in_r)) mc::fail("apply_to_residual changed its argument");
    if (!finite(w) || !close(w, expected(r, delta), 1e-12)) mc::fail("kernel(%g) of %s is %s, expected %s", delta, str(r).c_str(), str(w).c_str(), str(expected(r, delta)).c_str());
    if (r.norm() < delta * 0.9999999 && !bits_equal(w, r)) mc::fail("residual below the threshold was changed");
    // blocks: own shapes, empty ones for constants
    std::vector<std::pair<int, int>> shapes;
    switch (blocks) { case 0: break; case 1: shapes = {{n, 1}}; break; case 2: shapes = {{n, 3}, {n, 2}}; break; case 3: shapes = {{0, 0}, {n, 2}}; break;
        case 4: shapes = {{n, 2}, {0, 0}, {n, 1}}; break; case 5: shapes = {{0, 0}}; break; case 6: shapes = {{n, 6}, {n, 3}, {0, 0}, {0, 0}}; break; }
    std::vector<MX> J, J0; int c = 0;
    for (auto s : shapes) { MX m(s.first, s.second); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = ((++c * 7) % 11) - 4.5; J.push_back(m); }
    J0 = J;
    K.apply_to_jacobians(r, J); mc::step();
    if (!bits_equal(r, in_r)) mc::fail("apply_to_jacobians changed the residual");
    if (J.size() != J0.size()) mc::fail("number of blocks changed");
    double nn = r.norm();
    MX D = MX::Identity(n, n); // derivative of the residual map
    if (nn > delta) D = std::sqrt(delta / nn) * (MX::Identity(n, n) - 0.5 * r * r.transpose() / (nn * nn));
    for (size_t i = 0; i < J.size(); ++i) {
        if (J[i].rows() != J0[i].rows() || J[i].cols() != J0[i].cols()) mc::fail("block %zu changed its shape to %ldx%ld", i, (long)J[i].rows(), (long)J[i].cols());
        if (J0[i].size() == 0) continue;
        mc::matched();
        MX want = D * J0[i];
        bool ok = close(J[i], want, 1e-10);
        if (!ok && std::fabs(nn - delta) < 1e-12 * delta) ok = close(J[i], J0[i], 1e-10) || close(J[i], MX((MX::Identity(n, n) - 0.5 * r * r.transpose() / (nn * nn)) * J0[i]), 1e-10); // at the kink
        if (!ok) mc::fail("kernel(%g), residual %s: block %zu is %s, derivative of the transformed residual is %s", delta, str(r).c_str(), i, str(J[i]).c_str(), str(want).c_str());
    }
    // D itself against differences of the real residual map
    if (nn > 0 && std::fabs(nn - delta) > 1e-3 * delta && blocks == 1) for (int q = 0; q < n; ++q) {
        double h = 1e-4 * std::max(nn, delta) * (std::fabs(nn - delta) < 0.1 * delta ? 0.01 : 1); VX p = r, m = r; p[q] += h; m[q] -= h;
        VX num = (K.apply_to_residual(p) - K.apply_to_residual(m)) / (2 * h);
        if (!close(num, VX(D.col(q)), 1e-5)) mc::fail("derivative of the residual map in component %d is %s, expected %s", q, str(num).c_str(), str(VX(D.col(q))).c_str());
    }
    mc::Hash h; h.d(delta); hash(h, r); hash(h, w); h.i(blocks).i(before); mc::state(h); mc::outcome(h);
}
int main(int a, char** v) { return mc::main(a, v, body); }
