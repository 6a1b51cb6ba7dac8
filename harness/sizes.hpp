// Linear problems of every size up to a bound, and around the sizes where counters and buffers turn over.
#pragma once
#include "graphkit.hpp"

namespace sz
{
    using namespace gk;
    enum { PRIORS, CHAIN, STAR, WIDE, NSHAPES };
    inline const char* shape_name(int s) { static const char* n[] = {"priors on one variable", "chain", "star", "long vectors"}; return n[s]; }
    // 1..dense_to, then the neighbourhoods of powers of two up to `top`
    inline std::vector<int> sizes(int dense_to, int top)
    {
        std::vector<int> r; for (int i = 1; i <= dense_to; ++i) r.push_back(i);
        for (int p = 32; p <= top; p *= 2) for (int q = p - 1; q <= p + 1; ++q) if (q > dense_to && q <= top + 1) r.push_back(q);
        return r;
    }
    struct Big
    {
        std::vector<VarP> V; std::vector<FacP> F; std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
        MX A; VX b; // weighted measurement equations A x = b of the free variables, from the documentation
        std::vector<int> col, dim; int free = 0;
        VX optimum() const { return A.colPivHouseholderQr().solve(b); }
    };
    // every `fixed`-th variable constant (0: none); want_equations: dense equations (size rows x values)
    inline Big build(int shape, int n, int d, int fixed, bool want_equations = true)
    {
        Big B; int id = 0;
        auto vid = [&] { int i = id++; return i % 2 ? -3 * i - 1 : 7 * i; };
        auto val = [](int i, int k) { return 0.25 * ((i * 13 + k * 5) % 17) - 2 + 0.5 * k; };
        struct Eq { std::vector<std::pair<int, double>> t; VX rhs; double s; }; // variables, coefficients
        std::vector<Eq> eqs;
        auto V = [&](int i, int dd) { VX x(dd); for (int k = 0; k < dd; ++k) x[k] = val(i, k); B.V.push_back(dd == 3 && i % 2 ? VarP(lm(vid(), V3(x))) : VarP(gen(vid(), x))); return (int)B.V.size() - 1; };
        auto sig = [](int i) { return 0.5 + 0.25 * (i % 5); };
        int fid = 0; auto fi = [&] { int i = fid++; return i % 3 ? 1000000 - i : -i; };
        auto prior = [&](int v, int i) { VX z(B.V[v]->size()); for (int k = 0; k < z.size(); ++k) z[k] = 0.1 * ((i * 7 + k) % 9); B.F.push_back(std::make_shared<fr::GenericPriorFactor>(fi(), B.V[v].get(), z, sig(i))); eqs.push_back({{{v, 1.0}}, z, sig(i)}); };
        VarP off; // a constant offset for the between measurements
        auto between = [&](int a, int c, int i) { B.F.push_back(std::make_shared<fr::GenericBetweenFactor>(fi(), B.V[a].get(), B.V[c].get(), off.get(), sig(i))); eqs.push_back({{{c, 1.0}, {a, -1.0}}, off->value(), sig(i)}); };
        auto offset = [&](int dd) { VX x(dd); for (int k = 0; k < dd; ++k) x[k] = 0.3 - 0.1 * (k % 4); off = gen(vid(), x); off->set_constant(true); };
        switch (shape) {
        case PRIORS: V(0, d); for (int i = 0; i < n; ++i) prior(0, i); offset(d); break;
        case CHAIN: offset(d); for (int i = 0; i < n; ++i) V(i, d); prior(0, 1); for (int i = 0; i + 1 < n; ++i) between(i, i + 1, i); prior(n - 1, 2); break;
        case STAR: offset(d); V(0, d); prior(0, 3); for (int i = 0; i < n; ++i) { int v = V(i + 1, d); between(0, v, i); if (i % 3 == 0) prior(v, i); } break;
        case WIDE: offset(n); V(0, n); V(1, n); prior(0, 0); between(0, 1, 1); prior(1, 2); break;
        }
        if (fixed) for (size_t i = 0; i < B.V.size(); ++i) if ((int)i % fixed == fixed - 1) B.V[i]->set_constant(true);
        B.V.push_back(off);
        for (auto& v : B.V) { B.col.push_back(B.free); B.dim.push_back(v->is_constant() ? 0 : v->size()); B.free += B.dim.back(); }
        int rows = 0; for (auto& e : eqs) rows += e.rhs.size();
        if (want_equations) {
            B.A = MX::Zero(rows, B.free); B.b = VX::Zero(rows); int r = 0;
            for (auto& e : eqs) {
                int m = e.rhs.size();
                for (int k = 0; k < m; ++k) { double y = e.rhs[k]; for (auto& t : e.t) { if (B.dim[t.first]) B.A(r + k, B.col[t.first] + k) += t.second / e.s; else y -= t.second * B.V[t.first]->value()[k]; } B.b[r + k] = y / e.s; }
                r += m;
            }
        }
        for (auto& v : B.V) B.g->add_variable(v);
        for (auto& f : B.F) B.g->add_factor(f);
        return B;
    }
    inline VX state(const Big& B) { VX x(B.free); for (size_t i = 0; i < B.V.size(); ++i) if (B.dim[i]) x.segment(B.col[i], B.dim[i]) = B.V[i]->value(); return x; }
    inline void set_state(Big& B, const VX& x) { for (size_t i = 0; i < B.V.size(); ++i) if (B.dim[i]) B.V[i]->set_value_from_vector(x.segment(B.col[i], B.dim[i])); }
} // namespace sz
