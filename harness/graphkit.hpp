// Small nonlinear test factors, and what a freshly built graph with the same content must answer.
#pragma once
#include "catalog.hpp"

namespace gk
{
    using namespace cat;
    using fr::FactorGraph;

    // r = sum_i (A_i x_i + 0.1 B_i sin-like(x_i)) - c ; optionally uses a variable more than once.
    // Entries of the Jacobian depend on the state; some vanish exactly at x = 0.
    class TF : public fr::Factor
    {
    public:
        std::vector<fr::Variable*> vs; int m; double seed;
        mutable int res_calls = 0, jac_calls = 0;
        TF(int id, std::vector<fr::Variable*> v, int rows, double s) : vs(v), m(rows), seed(s) { id_ = id; }
        int residual_size() const override { return m; }
        double a(int i, int r, int c) const { int q = (r * 7 + c * 3 + i * 5 + int(seed * 10)) % 11; return q - 4.6 + 0.13 * seed; }
        VX eval() const
        {
            VX r = VX::Constant(m, -0.4 * seed);
            for (size_t i = 0; i < vs.size(); ++i) { const VX& x = vs[i]->value(); for (int q = 0; q < m; ++q) for (int c = 0; c < x.size(); ++c) r[q] += a((int)i, q, c) * x[c] + ((q + c) % 2 ? 0.3 : 0.05) * x[c] * x[c]; }
            return r;
        }
        VX compute_residual() const override { res_calls++; return eval(); }
        void compute_residual(Eigen::Ref<VX> out) const override { res_calls++; out = eval(); }
        MX block(int i) const
        {
            const VX& x = vs[i]->value(); MX J(m, x.size());
            for (int q = 0; q < m; ++q) for (int c = 0; c < x.size(); ++c) J(q, c) = a(i, q, c) + 2 * ((q + c) % 2 ? 0.3 : 0.05) * x[c];
            return J;
        }
        void compute_jacobians(std::vector<MX>& J) const override
        {
            jac_calls++; J.resize(vs.size());
            for (size_t i = 0; i < vs.size(); ++i) if (vs[i]->is_constant()) J[i] = MX(); else J[i] = block((int)i);
        }
        std::vector<fr::Variable*> variables() override { return vs; }
        fr::FactorType::FactorTypeEnum type() const override { return fr::FactorType::custom; }
        std::string name() const override { return "tf" + std::to_string(id_); }
    };
    // the same factor over fewer degenerate features: state-dependent exact zeros in the Jacobian
    class ZF : public fr::Factor
    {
    public:
        fr::Variable *x, *y;
        ZF(int id, fr::Variable* a, fr::Variable* b) : x(a), y(b) { id_ = id; }
        int residual_size() const override { return 2; }
        VX compute_residual() const override { double p = x->value()[0], q = y->value()[0]; return v2(p * q - 1, p * p - q); }
        void compute_residual(Eigen::Ref<VX> o) const override { o = compute_residual(); }
        void compute_jacobians(std::vector<MX>& J) const override
        {
            double p = x->value()[0], q = y->value()[0]; J.resize(2);
            J[0] = MX(); J[1] = MX();
            if (!x->is_constant()) { J[0] = MX::Zero(2, x->size()); J[0](0, 0) = q; J[0](1, 0) = 2 * p; }
            if (!y->is_constant()) { J[1] = MX::Zero(2, y->size()); J[1](0, 0) = p; J[1](1, 0) = -1; }
        }
        std::vector<fr::Variable*> variables() override { return {x, y}; }
        fr::FactorType::FactorTypeEnum type() const override { return fr::FactorType::other; }
        std::string name() const override { return "zf" + std::to_string(id_); }
    };

    struct Answer { int values = 0, residuals = 0; std::vector<int> col, dim, row, rdim; VX res, vec; MX J; };

    // what the content says, without any graph: stacking in insertion order
    inline Answer stacked(const std::vector<VarP>& V, const std::vector<FacP>& F)
    {
        Answer a;
        for (auto& v : V) { a.col.push_back(a.values); int d = v->is_constant() ? 0 : v->size(); a.dim.push_back(d); a.values += d; }
        for (auto& f : F) { a.row.push_back(a.residuals); a.rdim.push_back(f->residual_size()); a.residuals += f->residual_size(); }
        a.res = VX::Zero(a.residuals); a.J = MX::Zero(a.residuals, a.values); a.vec = VX::Zero(a.values);
        for (size_t i = 0; i < V.size(); ++i) if (a.dim[i]) a.vec.segment(a.col[i], a.dim[i]) = V[i]->value();
        for (size_t k = 0; k < F.size(); ++k) {
            a.res.segment(a.row[k], a.rdim[k]) = F[k]->compute_residual();
            std::vector<MX> J; F[k]->compute_jacobians(J); auto vs = F[k]->variables();
            for (size_t j = 0; j < vs.size(); ++j) {
                if (vs[j]->is_constant()) continue;
                for (size_t i = 0; i < V.size(); ++i) if (V[i].get() == vs[j]) a.J.block(a.row[k], a.col[i], a.rdim[k], a.dim[i]) += J[j];
            }
        }
        return a;
    }
    // may this content be finalized?
    inline bool acceptable(const std::vector<VarP>& V, const std::vector<FacP>& F)
    {
        int nv = 0, nr = 0;
        for (auto& v : V) nv += v->is_constant() ? 0 : v->size();
        for (auto& f : F) {
            nr += f->residual_size();
            for (auto* v : f->variables()) {
                if (!v) return false;
                if (v->is_constant()) continue;
                bool found = false; for (auto& q : V) found = found || q.get() == v;
                if (!found) return false;
            }
        }
        return nr >= nv;
    }
    inline MX dense(const Eigen::SparseMatrix<double>& S) { MX M = MX::Zero(S.rows(), S.cols()); for (int c = 0; c < S.outerSize(); ++c) for (Eigen::SparseMatrix<double>::InnerIterator it(S, c); it; ++it) M(it.row(), it.col()) += it.value(); return M; }

    // layout queries against the content that was finalized
    inline void check_layout(const FactorGraph& g, const std::vector<VarP>& V, const std::vector<FacP>& F, const Answer& a, const char* who)
    {
        if (g.num_values() != a.values || g.num_residuals() != a.residuals) mc::fail("%s: reports %d values and %d residuals, expected %d and %d", who, g.num_values(), g.num_residuals(), a.values, a.residuals);
        for (size_t i = 0; i < V.size(); ++i) {
            bool ok = false; auto p = g.variable_placement(V[i]->id(), ok);
            if (!ok || p.variable != V[i].get() || p.dim != a.dim[i] || (a.dim[i] && p.index != a.col[i])) mc::fail("%s: placement of variable id %d is (valid %d, index %d, dim %d), expected (index %d, dim %d)", who, V[i]->id(), ok, p.index, p.dim, a.col[i], a.dim[i]);
        }
        for (size_t k = 0; k < F.size(); ++k) {
            bool ok = false; auto p = g.factor_placement(F[k]->id(), ok);
            if (!ok || p.factor != F[k].get() || p.residual_index != a.row[k] || p.residual_dim != a.rdim[k]) mc::fail("%s: placement of factor id %d is (valid %d, row %d, dim %d), expected (row %d, dim %d)", who, F[k]->id(), ok, p.residual_index, p.residual_dim, a.row[k], a.rdim[k]);
        }
        if (g.variable_placement_map().size() != V.size() || g.factor_placement_map().size() != F.size()) mc::fail("%s: placement maps hold %zu variables and %zu factors", who, g.variable_placement_map().size(), g.factor_placement_map().size());
    }
    inline void check_contents(const FactorGraph& g, const std::vector<VarP>& V, const std::vector<FacP>& F, const char* who)
    {
        auto& gv = g.get_all_variables(); auto& gf = g.get_all_factors();
        if (gv.size() != V.size() || gf.size() != F.size() || g.num_variables() != (int)V.size()) mc::fail("%s: graph holds %zu variables and %zu factors, expected %zu and %zu", who, gv.size(), gf.size(), V.size(), F.size());
        for (size_t i = 0; i < V.size(); ++i) { if (gv[i] != V[i]) mc::fail("%s: variable %zu is not the one registered", who, i); if (g.get_variable(V[i]->id()) != V[i].get()) mc::fail("%s: lookup of variable id %d finds another object", who, V[i]->id()); }
        for (size_t i = 0; i < F.size(); ++i) if (gf[i] != F[i]) mc::fail("%s: factor %zu is not the one registered", who, i);
    }
} // namespace gk
