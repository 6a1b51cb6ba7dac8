// C25: nothing outlives its last reference and nothing accumulates.  Every history is run three times in one process with
// every allocation counted: the memory in use afterwards must be what it was before.
#include "problems.hpp"
using namespace pb;

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
static long live_bytes = 0, live_blocks = 0;
static void* took(void* base, size_t n, size_t off) // the 16 bytes before a block hold its size and where it really starts
{
    if (!base) return nullptr;
    char* p = (char*)base + off; ((size_t*)p)[-2] = n; ((size_t*)p)[-1] = off; live_bytes += (long)n; live_blocks++; return p;
}
extern "C" void* malloc(size_t n) { return took(__libc_malloc(n + 16), n, 16); }
extern "C" void free(void* p) { if (!p) return; live_bytes -= (long)((size_t*)p)[-2]; live_blocks--; __libc_free((char*)p - ((size_t*)p)[-1]); }
extern "C" void* calloc(size_t a, size_t b) { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void* realloc(void* p, size_t n) { if (!p) return malloc(n); void* q = malloc(n); if (!q) return nullptr; size_t o = ((size_t*)p)[-2]; memcpy(q, p, o < n ? o : n); free(p); return q; }
extern "C" void* memalign(size_t a, size_t n) { if (a < 16) a = 16; return took(__libc_memalign(a, n + a), n, a); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return 12; *o = p; return 0; }

struct Faulty : fr::Factor // measures a variable; raises or answers NaN when asked to
{
    fr::Variable* v; mutable int mode = 0;
    Faulty(int id, fr::Variable* q) : v(q) { id_ = id; }
    int residual_size() const override { return v->size(); }
    VX compute_residual() const override { if (mode == 1) throw std::runtime_error("fault"); VX r = 0.1 * v->value(); if (mode == 2) r.setConstant(std::nan("")); return r; }
    void compute_residual(Eigen::Ref<VX> o) const override { o = compute_residual(); }
    void compute_jacobians(std::vector<MX>& J) const override { if (mode == 3) throw std::runtime_error("fault"); J.assign(1, MX()); if (!v->is_constant()) J[0] = 0.1 * MX::Identity(v->size(), v->size()); }
    std::vector<fr::Variable*> variables() override { return {v}; }
    fr::FactorType::FactorTypeEnum type() const override { return fr::FactorType::custom; }
};
enum Op { DENSE, SPARSE, RES, GN, LM, COV, FAULT_RES, FAULT_JAC, FAULT_NAN, SELFTEST, OTHER, CLONE, TOGGLE, REFUSED, PRINT, VALUES, REBUILD, UNREADY, NOPS };
static const char* oname[] = {"dense", "sparse", "residual", "Gauss-Newton", "Levenberg-Marquardt", "covariances", "fault in a residual", "fault in a Jacobian", "NaN", "self-test", "set up with another graph", "clone", "toggle constness", "refused registrations", "print", "values", "the same into another graph", "request while unready"};
static std::string wrong; // recorded inside a run (no choices are made there)
static void history(int kind, const std::vector<int>& ops, bool drop_early, bool opt_last, int reps)
{
    auto bad = [&](const std::string& s) { if (wrong.empty()) wrong = s; };
    std::vector<std::weak_ptr<void>> objects, graphs; graphs.reserve(100);
    {
        Problem p = problem(kind);
        auto faulty = std::make_shared<Faulty>(7777, p.V[0].get()); p.F.push_back(faulty);
        std::vector<fr::Variable*> raw; for (auto& v : p.V) { objects.push_back(v); raw.push_back(v.get()); } for (auto& f : p.F) objects.push_back(f);
        std::vector<VX> start = values(p); std::vector<bool> cst = consts(p);
        auto g = graph(p); graphs.push_back(g);
        auto opt = std::make_unique<fr::SparseOptimizer>(); const Faulty* fz = faulty.get();
        if (drop_early) { p.V.clear(); p.F.clear(); faulty.reset(); }
        auto alive = [&](const char* when) { for (auto& w : objects) if (w.expired()) bad(std::string(when) + ": an object the graph holds was released"); };
        bool other = false;
        auto run = [&](int op) {
            fr::OptimizerSettings s; s.max_num_iterations = 4; s.verbose = op == PRINT;
            bool faultop = op >= FAULT_RES && op <= FAULT_NAN;
            if (op == LM || op == PRINT || faultop) s.method = fr::OptimizerMethod::LevenbergMarquardt;
            try {
                switch (op) {
                case DENSE: g->compute_full_jacobian_matrix(); break;
                case SPARSE: g->compute_sparse_jacobian_matrix(); break;
                case RES: g->compute_full_residual_vector(); break;
                case GN: case LM: opt->setup(g, s); opt->optimize(); break;
                case FAULT_RES: case FAULT_JAC: case FAULT_NAN: opt->setup(g, s); fz->mode = op == FAULT_RES ? 1 : op == FAULT_JAC ? 3 : 2; opt->optimize(); break;
                case COV: opt->setup(g, s); opt->optimize(); opt->prepare_to_estimate_covariances(); for (auto* v : raw) { bool ok; opt->estimate_covariance(v, ok); } break;
                case SELFTEST: g->detailed_factor_test(1e-4, true); break;
                case OTHER: { Problem q = problem((kind + 1) % NPROB); auto h = graph(q); std::weak_ptr<FactorGraph> wg = g; std::vector<std::weak_ptr<void>> mine; for (auto& v : q.V) mine.push_back(v); q = Problem(); opt->setup(h, s); std::weak_ptr<FactorGraph> wh = h; h.reset();
                    if (wh.expired()) bad("an optimizer's graph was released"); else opt->optimize();
                    opt->setup(g, s); if (!wh.expired()) bad("set up with another graph, the optimizer still keeps the first"); for (auto& w : mine) if (!w.expired()) bad("a variable outlives its graph"); break; }
                case CLONE: for (auto* v : raw) { auto c = v->clone(); std::weak_ptr<void> w = c; if (c.use_count() != 1) bad("a fresh clone is shared"); c.reset(); if (!w.expired()) bad("a clone outlives its last reference"); } break;
                case TOGGLE: raw[1]->set_constant(true); g->finalize_structure(); g->compute_sparse_jacobian_matrix(); raw[1]->set_constant(cst[1]); g->finalize_structure(); g->compute_sparse_jacobian_matrix(); break;
                case REFUSED: { auto v = gen(raw[0]->id(), vx({1, 2})); auto f = std::make_shared<Faulty>(7777, raw[0]); std::weak_ptr<void> a = v, b = f; int no = 0; try { g->add_variable(v); } catch (const std::exception&) { no++; } try { g->add_factor(f); } catch (const std::exception&) { no++; } if (no != 2) bad("a duplicate was accepted"); v.reset(); f.reset(); if (!a.expired() || !b.expired()) bad("a refused object is kept"); break; }
                case PRINT: g->print_variables(); g->print_structure(); g->print_jacobian_and_residual(true); opt->setup(g, s); opt->optimize(); opt->print_all_covariances(); break;
                case VALUES: g->set_variable_values_from_vector(g->get_variable_vector()); g->apply_increment(VX::Zero(g->num_values())); break;
                case REBUILD: { auto h = std::make_shared<FactorGraph>(); for (auto& v : g->get_all_variables()) h->add_variable(v); for (auto& f : g->get_all_factors()) h->add_factor(f); h->finalize_structure(); h->compute_sparse_jacobian_matrix(); std::weak_ptr<FactorGraph> w = h; h.reset(); if (!w.expired()) bad("a graph outlives its last reference"); break; }
                case UNREADY: { FactorGraph h; try { h.compute_full_jacobian_matrix(); } catch (const std::exception&) {} try { h.finalize_structure(); h.compute_full_residual_vector(); } catch (const std::exception&) {} fr::SparseOptimizer o; try { o.optimize(); } catch (const std::exception&) {} try { o.setup(nullptr, s); } catch (const std::exception&) {} bool ok; try { o.estimate_covariance(raw[0], ok); } catch (const std::exception&) {} break; }
                }
            } catch (const std::exception&) {}
            fz->mode = 0;
            for (size_t i = 0; i < raw.size(); ++i) { raw[i]->set_constant(false); raw[i]->set_value_from_vector(start[i]); raw[i]->set_constant(cst[i]); }
            alive(oname[op]);
            if (op == OTHER) other = true;
        };
        for (int op : ops) run(op);
        // doing the last thing again and again needs no more memory
        if (reps) {
            for (int i = 0; i < 3; ++i) run(ops.back());
            long a = live_bytes; for (int i = 0; i < reps; ++i) run(ops.back());
            long b = live_bytes;
            if (b > a) bad(std::string("repeating '") + oname[ops.back()] + "' adds " + std::to_string(b - a) + " bytes in " + std::to_string(reps) + " repetitions");
        }
        fr::OptimizerSettings s; opt->setup(g, s);
        if (drop_early) { // the graph alone, then the optimizer alone keeps everything
            if (opt_last) { g.reset(); alive("the graph is held by the optimizer only"); opt->optimize(); opt.reset(); }
            else { opt.reset(); alive("the optimizer is gone"); g.reset(); }
            for (auto& w : objects) if (!w.expired()) bad("an object outlives graph and optimizer");
        } else if (opt_last) g.reset(); else opt.reset();
    }
    for (auto& w : objects) if (!w.expired()) bad("a variable or factor outlives its last reference");
    for (auto& w : graphs) if (!w.expired()) bad("a graph outlives its last reference");
}
static void body()
{
    int kind = mc::choose(NPROB, "problem"), len = mc::tier ? 4 : 3;
    std::vector<int> ops; for (int i = 0; i < len; ++i) ops.push_back(mc::choose(NOPS, "operation"));
    bool early = mc::flip("references dropped early"), last = mc::flip("optimizer outlives graph");
    wrong.clear(); std::string who; for (int o : ops) who += std::string(who.empty() ? "" : ", ") + oname[o];
    mc::log("%s: %s; own references dropped %s, %s last", prob_name(kind), who.c_str(), early ? "early" : "late", last ? "optimizer" : "graph");
    history(kind, ops, early, last, 4); // also fills every one-time cache
    std::string first = wrong; first.reserve(4000); wrong.clear(); wrong.reserve(4000);
    long b0 = live_bytes, k0 = live_blocks; history(kind, ops, early, last, 0);
    long b1 = live_bytes, k1 = live_blocks; history(kind, ops, early, last, 0);
    long b2 = live_bytes, k2 = live_blocks;
    mc::matched(3); mc::step((int)ops.size() * 3);
    if (!first.empty()) mc::fail("%s; after %s: %s", prob_name(kind), who.c_str(), first.c_str());
    if (!wrong.empty()) mc::fail("%s; after %s: %s", prob_name(kind), who.c_str(), wrong.c_str());
    if (b2 > b1) mc::fail("%s; after %s: %ld bytes in %ld blocks, then %ld bytes in %ld blocks stay allocated though nothing is referenced", prob_name(kind), who.c_str(), b1 - b0, k1 - k0, b2 - b1, k2 - k1);
    mc::Hash h; h.i(kind); for (int o : ops) h.i(o); mc::state(h); h.i(early).i(last); mc::outcome(h);
}
int main(int a, char** v) { mc::shard_depth = 3; return mc::main(a, v, body); }
