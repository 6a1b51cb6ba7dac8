// Histories of one optimizer over two graphs: the operations, and what is known about the state after each.
#pragma once
#include "problems.hpp"

namespace oh
{
    using namespace pb;
    struct Switch { bool on = false; int at = 0, n = 0; };
    class Failing : public fr::Factor // a library factor that can be told to raise an error
    {
    public:
        FacP f; Switch* s;
        Failing(FacP q, Switch* w) : f(q), s(w) { id_ = q->id(); }
        void tick() const { if (s->on && s->n++ >= s->at) throw std::runtime_error("switched on"); }
        int residual_size() const override { return f->residual_size(); }
        VX compute_residual() const override { tick(); return f->compute_residual(); }
        void compute_residual(Eigen::Ref<VX> o) const override { tick(); f->compute_residual(o); }
        void compute_jacobians(std::vector<MX>& J) const override { tick(); f->compute_jacobians(J); }
        std::vector<fr::Variable*> variables() override { return f->variables(); }
        fr::FactorType::FactorTypeEnum type() const override { return f->type(); }
        std::string name() const override { return f->name(); }
    };
    struct Side { int kind; Problem p; std::shared_ptr<FactorGraph> g; std::vector<bool> sig; bool current() const { return consts(p) == sig; } };
    struct Hist
    {
        Side s[2]; Switch sw;
        fr::SparseOptimizer o;
        int asked = 0; int cur = -1;                        // graph the optimizer was set up with
        fr::OptimizerSettings st;
        // since the last set-up / optimization
        bool complete = false, clean = false, prepared = false, refinalized = false; // refinalized: since the preparation
        std::vector<VX> end;                 // estimate at the end of the last optimization
        std::vector<VX> at_prepare;          // values at the last preparation
        std::vector<std::vector<VX>> earlier; // ... and at earlier ones of the same structure, which an unchanged structure may keep
        std::vector<bool> end_sig;
        Hist(int a, int b)
        {
            int k[2] = {a, b};
            for (int i = 0; i < 2; ++i) {
                s[i].kind = k[i]; s[i].p = problem(k[i], [=](int q) { return q * 3 + 1; }, [=](int q) { return 50 - q; });
                for (auto& f : s[i].p.F) f = std::make_shared<Failing>(f, &sw);
                s[i].g = graph(s[i].p); s[i].sig = consts(s[i].p);
            }
        }
    };
    inline std::vector<fr::OptimizerSettings> all_settings()
    {
        std::vector<fr::OptimizerSettings> r(5);
        r[0].method = fr::OptimizerMethod::GaussNewton;
        r[1].method = fr::OptimizerMethod::LevenbergMarquardt;
        r[2].method = fr::OptimizerMethod::LevenbergMarquardt; r[2].initial_lambda = 100; r[2].max_num_iterations = 2; r[2].verbose = true;
        r[3].method = fr::OptimizerMethod::GaussNewton; r[3].max_num_iterations = 1; r[3].learning_rate = 0.5; r[3].verbose = true;
        r[4].method = fr::OptimizerMethod::LevenbergMarquardt; r[4].max_num_iterations = 0;
        return r;
    }
    enum { SETUPA0, SETUPA1, SETUPA2, SETUPB1, SETUPB3, OPT, OPTFAIL, PREP, QUERY, MOVE, TOGGLE, FIN, EVAL, PRINT, NHOPS };
    inline const char* hname(int o) { static const char* n[] = {"set up with A, Gauss-Newton", "set up with A, LM", "set up with A, LM with large damping, 2 iterations, verbose", "set up with B, LM", "set up with B, Gauss-Newton half steps, 1 iteration, verbose", "optimize", "optimize with an error on the way", "prepare covariances", "query covariances", "move a variable", "toggle a constant", "finalize", "evaluate", "print covariances"}; return n[o]; }
    inline void setup(Hist& h, int side, const fr::OptimizerSettings& st)
    {
        h.o.setup(h.s[side].g, st); h.cur = side; h.st = st; h.complete = h.prepared = h.clean = false;
    }
    // true if the operation went through
    inline bool run(Hist& h, int op)
    {
        static const auto S = all_settings();
        mc::log("%s", hname(op)); mc::step();
        Side* c = h.cur >= 0 ? &h.s[h.cur] : &h.s[0];
        auto bits = [&] { std::vector<VX> r = values(h.s[0].p); for (auto& x : values(h.s[1].p)) r.push_back(x); return r; };
        auto before = bits();
        auto keep = [&](const char* what) { auto a = bits(); for (size_t i = 0; i < a.size(); ++i) if (!bits_equal(a[i], before[i])) mc::fail("%s changed a variable from %s to %s", what, str(before[i]).c_str(), str(a[i]).c_str()); };
        switch (op) {
        case SETUPA0: setup(h, 0, S[0]); keep("setup"); return true;
        case SETUPA1: setup(h, 0, S[1]); keep("setup"); return true;
        case SETUPA2: setup(h, 0, S[2]); keep("setup"); return true;
        case SETUPB1: setup(h, 1, S[1]); keep("setup"); return true;
        case SETUPB3: setup(h, 1, S[3]); keep("setup"); return true;
        case OPT: case OPTFAIL: {
            bool ok = h.cur >= 0 && c->current(), threw = false;
            h.sw.on = op == OPTFAIL; h.sw.n = 0; h.sw.at = 3 * (int)c->p.F.size() + 1; // in the first trial residual
            try { h.o.optimize(); } catch (const std::exception& e) { threw = true; mc::log("  raised: %s", e.what()); }
            h.sw.on = false;
            if (threw && ok && op == OPT) mc::fail("optimize() raised an error on a finalized graph");
            if (threw) { keep("a refused optimization"); h.complete = h.prepared = h.clean = false; return false; }
            if (!ok) mc::fail("optimize() ran on a graph that is not finalized");
            auto st = h.o.current_stats_.status;
            h.complete = true; h.prepared = false; h.clean = st == fr::OptimizerStatus::SUCCESS;
            h.end = values(c->p); h.end_sig = c->sig;
            return true; }
        case PREP: case PRINT: {
            bool threw = false; mc::log("prepare");
            try { if (op == PREP) h.o.prepare_to_estimate_covariances(); else h.o.print_all_covariances(); } catch (const std::exception& e) { threw = true; mc::log("  raised: %s", e.what()); }
            if (threw && h.cur >= 0 && c->current()) mc::fail("preparing covariances raised an error on a finalized graph");
            if (!threw && h.complete) { if (!h.prepared || c->sig != h.end_sig) h.earlier.clear(); else if (h.refinalized) h.earlier.push_back(h.at_prepare); if (!h.prepared || h.refinalized || c->sig != h.end_sig) h.at_prepare = values(c->p); h.prepared = true; h.refinalized = false; }
            keep("preparing covariances"); return !threw; }
        case MOVE: for (auto& v : c->p.V) if (!v->is_constant()) { VX d = VX::Constant(v->size(), 0.0); for (int i = 0; i < d.size(); ++i) d[i] = 0.05 * (i + 1); v->apply_increment(d); } return true;
        case TOGGLE: c->p.V[1]->set_constant(!c->p.V[1]->is_constant()); return true;
        case FIN: c->g->finalize_structure(); h.refinalized = true; c->sig = consts(c->p); keep("finalize"); return true;
        case EVAL: { bool threw = false; try { c->g->compute_sparse_jacobian_matrix(); c->g->compute_full_jacobian_and_residual(); } catch (const std::exception&) { threw = true; } if (threw && c->current()) mc::fail("evaluation refused on a finalized graph"); keep("evaluation"); return !threw; }
        }
        return true;
    }
} // namespace oh
