// C01: every sequence of graph operations up to a depth from several starting histories; afterwards the graph must
// answer every request like a freshly built graph with the same content, or refuse while it is not finalized.
#include "graphkit.hpp"
using namespace gk;

struct World
{
    std::vector<VarP> pool; std::vector<FacP> fpool;
    std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
    std::vector<VarP> V; std::vector<FacP> F;     // registered
    // model of the structure
    bool finalized = false, doubtful = false; std::vector<bool> sig; std::vector<int> layout_const;
    std::vector<VarP> FV; std::vector<FacP> FF;  // what was finalized
    Answer layout;
    bool have_res = false, have_J = false, have_S = false; VX last_res; MX last_J, last_S;
    // constness of everything the structure depends on: registered variables and those its factors use
    std::vector<bool> consts() const
    {
        std::vector<bool> s;
        for (auto& v : pool) {
            bool used = std::find(V.begin(), V.end(), v) != V.end();
            for (auto& f : F) for (auto* q : f->variables()) used = used || q == v.get();
            s.push_back(used && v->is_constant());
        }
        return s;
    }
    bool current() const { return finalized && consts() == sig; }
};
// run a request; true if it answered
static bool attempt(World& w, const char* what, const std::function<void()>& f)
{
    bool must = w.current() && !w.doubtful;
    mc::step();
    try { f(); return true; } catch (const mc::Violation&) { throw; } catch (const mc::Stop&) { throw; } catch (const std::exception& e) {
        if (!mc::eigen_asserts.empty()) mc::fail("%s: out-of-range access: %s", what, mc::eigen_asserts[0].c_str());
        if (must) mc::fail("%s was refused on a finalized graph: %s", what, e.what());
        mc::log("  refused: %s", e.what());
        return false;
    }
}
static Answer expect(World& w) { return stacked(w.V, w.F); }
static void same(World& w, const char* what, const MX& got, const MX& want)
{
    mc::matched();
    if (!close(got, want, 1e-9)) mc::fail("%s is %s, a fresh graph with the same content gives %s", what, str(got).c_str(), str(want).c_str());
}
static std::vector<VX> values(World& w) { std::vector<VX> r; for (auto& v : w.pool) r.push_back(v->value()); return r; }
static void unchanged(World& w, const std::vector<VX>& b, const char* what) { auto a = values(w); for (size_t i = 0; i < a.size(); ++i) if (!bits_equal(a[i], b[i])) mc::fail("%s changed variable %zu", what, i); }

enum Op { END, ADDV0, ADDV1, ADDV2, ADDF0, ADDF1, ADDF2, ADDF3, ADDF4, TOG0, TOG1, TOG2, FINALIZE, RES, RESOUT, DENSE, SPARSE, BOTH, SET1, SETVEC, INC, GETVEC, ACC, DIAG, BADVEC, DUPV, DUPF, NULLV, PRINT, NOPS };
static const char* opname[] = {"end", "add v0", "add v1", "add v2", "add f0", "add f1", "add f2", "add f3", "add f4", "toggle v0", "toggle v1", "toggle v2", "finalize", "residual", "residual into buffer", "dense", "sparse", "dense and residual", "set v1", "set vector", "increment", "get vector", "accessors", "self-test", "wrong-size vector", "add a duplicate variable", "add a duplicate factor", "add null", "print"};

static void finalize(World& w)
{
    bool ok = acceptable(w.V, w.F), did = false;
    try { w.g->finalize_structure(); did = true; } catch (const std::exception& e) {
        if (!mc::eigen_asserts.empty()) mc::fail("finalize: out-of-range access: %s", mc::eigen_asserts[0].c_str());
        if (ok) mc::fail("finalize_structure() refused an acceptable structure: %s", e.what());
        w.doubtful = true; mc::log("  refused: %s", e.what());
    }
    if (did && !ok) mc::fail("finalize_structure() accepted a structure it must refuse");
    if (did) { w.finalized = true; w.doubtful = false; w.sig = w.consts(); w.FV = w.V; w.FF = w.F; w.layout = expect(w); w.have_res = w.have_J = w.have_S = false; }
}
static void run(World& w, int op)
{
    mc::log("%s", opname[op]);
    FactorGraph& g = *w.g;
    auto has = [&](const VarP& v) { return std::find(w.V.begin(), w.V.end(), v) != w.V.end(); };
    auto hasf = [&](const FacP& f) { return std::find(w.F.begin(), w.F.end(), f) != w.F.end(); };
    auto before = values(w);
    switch (op) {
    case ADDV0: case ADDV1: case ADDV2: {
        auto v = w.pool[op - ADDV0]; bool dup = has(v), threw = false;
        try { g.add_variable(v); } catch (const std::exception&) { threw = true; }
        if (threw != dup) mc::fail("adding variable %d %s", op - ADDV0, dup ? "twice was accepted" : "was refused");
        if (!dup) { w.V.push_back(v); w.finalized = false; }
        break; }
    case ADDF0: case ADDF1: case ADDF2: case ADDF3: case ADDF4: {
        auto f = w.fpool[op - ADDF0]; bool dup = hasf(f), threw = false;
        try { g.add_factor(f); } catch (const std::exception&) { threw = true; }
        if (threw != dup) mc::fail("adding factor %d %s", op - ADDF0, dup ? "twice was accepted" : "was refused");
        if (!dup) { w.F.push_back(f); w.finalized = false; }
        break; }
    case TOG0: case TOG1: case TOG2: w.pool[op - TOG0]->set_constant(!w.pool[op - TOG0]->is_constant()); break;
    case FINALIZE: finalize(w); break;
    case RES: attempt(w, "compute_full_residual_vector()", [&] { VX r = g.compute_full_residual_vector(); same(w, "residual", r, expect(w).res); w.have_res = true; w.last_res = r; }); break;
    case RESOUT: attempt(w, "compute_full_residual_vector(buffer)", [&] { VX r = VX::Constant(mc::choose(2, "buffer") ? 3 : 0, 7.0); g.compute_full_residual_vector(r); same(w, "residual", r, expect(w).res); }); break;
    case DENSE: attempt(w, "compute_full_jacobian_matrix()", [&] { MX J = g.compute_full_jacobian_matrix(); same(w, "dense Jacobian", J, expect(w).J); w.have_J = true; w.last_J = J; }); break;
    case SPARSE: attempt(w, "compute_sparse_jacobian_matrix()", [&] { MX J = dense(g.compute_sparse_jacobian_matrix()); same(w, "sparse Jacobian", J, expect(w).J); w.have_S = true; w.last_S = J; }); break;
    case BOTH: attempt(w, "compute_full_jacobian_and_residual()", [&] { g.compute_full_jacobian_and_residual(); auto a = expect(w); same(w, "dense Jacobian", g.jacobian(), a.J); same(w, "residual", g.residual(), a.res); w.have_J = w.have_res = true; w.last_J = a.J; w.last_res = a.res; }); break;
    case SET1: w.pool[1]->set_value_from_vector(VX(w.pool[1]->value() * 0.5 + VX::Constant(w.pool[1]->size(), 0.3))); break;
    case SETVEC: {
        VX x = expect(w).vec; for (int i = 0; i < x.size(); ++i) x[i] += 0.25 + 0.1 * i;
        if (!attempt(w, "set_variable_values_from_vector()", [&] { g.set_variable_values_from_vector(x); })) { unchanged(w, before, "refused set"); break; }
        same(w, "values after setting the vector", expect(w).vec, x);
        for (size_t i = 0; i < w.pool.size(); ++i) if ((w.pool[i]->is_constant() || !has(w.pool[i])) && !bits_equal(before[i], w.pool[i]->value())) mc::fail("setting the vector changed variable %zu", i);
        break; }
    case INC: {
        auto a = expect(w); VX dx(a.values); for (int i = 0; i < dx.size(); ++i) dx[i] = 0.07 * (i + 1);
        std::vector<VX> want = before;
        for (size_t i = 0; i < w.V.size(); ++i) if (a.dim[i]) { auto c = w.V[i]->clone(); c->apply_increment(VX(dx.segment(a.col[i], a.dim[i]))); for (size_t k = 0; k < w.pool.size(); ++k) if (w.pool[k] == w.V[i]) want[k] = c->value(); }
        if (!attempt(w, "apply_increment()", [&] { g.apply_increment(dx); })) { unchanged(w, before, "refused increment"); break; }
        auto now = values(w); for (size_t i = 0; i < now.size(); ++i) if (!close(now[i], want[i], 1e-12)) mc::fail("increment moved variable %zu to %s, expected %s", i, str(now[i]).c_str(), str(want[i]).c_str());
        before = now; break; }
    case GETVEC: attempt(w, "get_variable_vector()", [&] { same(w, "value vector", g.get_variable_vector(), expect(w).vec); }); break;
    case ACC: {
        bool cur = w.current() && !w.doubtful;
        if (g.jacobian_valid() && !w.current() && !w.doubtful) mc::fail("jacobian_valid() on a graph that is not finalized");
        if (g.residual_valid() && !w.current() && !w.doubtful) mc::fail("residual_valid() on a graph that is not finalized");
        auto acc = [&](const char* n, bool have, const MX& last, const std::function<MX()>& get) {
            bool threw = false; MX got; try { got = get(); } catch (const std::exception&) { threw = true; }
            if (threw) { if (have && cur) mc::fail("%s refused after it was computed", n); return; }
            mc::matched();
            if (!have) mc::fail("%s answered though nothing was computed for this structure", n);
            if (!close(got, last, 1e-9)) mc::fail("%s is %s, the last computed was %s", n, str(got).c_str(), str(last).c_str());
        };
        if (!w.current() && !w.doubtful) { // must refuse, or be right for the current content: nothing was computed for it
            acc("jacobian()", false, MX(), [&] { return MX(g.jacobian()); }); acc("residual()", false, MX(), [&] { return MX(g.residual()); }); acc("sparse_jacobian()", false, MX(), [&] { return dense(g.sparse_jacobian()); });
        } else {
            acc("jacobian()", w.have_J, w.last_J, [&] { return MX(g.jacobian()); }); acc("residual()", w.have_res, w.last_res, [&] { return MX(g.residual()); }); acc("sparse_jacobian()", w.have_S, w.last_S, [&] { return dense(g.sparse_jacobian()); });
        }
        break; }
    case DIAG: attempt(w, "detailed_factor_test()", [&] { bool twice = hasf(w.fpool[4]) && !w.pool[0]->is_constant(); // the self-test compares slot by slot, so it cannot judge a factor that uses a variable twice
        if (!g.detailed_factor_test(1e-3) && !twice) mc::fail("self-test failed on healthy factors"); }); break;
    case BADVEC: {
        int n = expect(w).values; bool threw = false;
        for (int d : {-1, 1}) { if (n + d < 0) continue; threw = false; try { g.set_variable_values_from_vector(VX::Constant(n + d, 0.1)); } catch (const std::exception&) { threw = true; } if (!threw) mc::fail("vector of length %d accepted, expected %d", n + d, n);
            threw = false; try { g.apply_increment(VX::Constant(n + d, 0.1)); } catch (const std::exception&) { threw = true; } if (!threw) mc::fail("increment of length %d accepted, expected %d", n + d, n); }
        unchanged(w, before, "refused vector"); break; }
    case DUPV: { if (w.V.empty()) break; auto d = gen(w.V[0]->id(), vx({5, 5, 5, 5})); bool threw = false; try { g.add_variable(d); } catch (const std::exception&) { threw = true; } if (!threw) mc::fail("a second variable with id %d was accepted", d->id()); break; }
    case DUPF: { if (w.F.empty()) break; auto d = std::make_shared<TF>(w.F[0]->id(), std::vector<fr::Variable*>{w.pool[0].get()}, 5, 9.0); bool threw = false; try { g.add_factor(d); } catch (const std::exception&) { threw = true; } if (!threw) mc::fail("a second factor with id %d was accepted", d->id()); break; }
    case NULLV: { bool a = false, b = false; try { g.add_variable(nullptr); } catch (const std::exception&) { a = true; } try { g.add_factor(nullptr); } catch (const std::exception&) { b = true; } if (!a || !b) mc::fail("a null %s was accepted", a ? "factor" : "variable"); break; }
    case PRINT: g.print_variables(); attempt(w, "print_structure()", [&] { g.print_structure(); }); if (attempt(w, "print_jacobian_and_residual()", [&] { g.print_jacobian_and_residual(true); })) { auto a = expect(w); w.have_J = w.have_res = true; w.last_J = a.J; w.last_res = a.res; } break;
    }
    if (op == DIAG || op == PRINT) { // restoring a heading may cost a rounding
        for (size_t i = 0; i < before.size(); ++i) if (w.pool[i]->is_constant() ? !bits_equal(before[i], w.pool[i]->value()) : !close(before[i], w.pool[i]->value(), 1e-13)) mc::fail("%s changed variable %zu", opname[op], i);
    } else if (op != SET1 && op != SETVEC && op != INC) unchanged(w, before, opname[op]);
    check_contents(g, w.V, w.F, opname[op]);
    if (w.finalized) check_layout(g, w.FV, w.FF, w.layout, opname[op]);
}
static void body()
{
    World w;
    // pool; ids neither ordered nor small, v0 and v1 of one size so that exchanging them keeps the dimensions
    w.pool = {gen(5, vx({0.4, -0.9})), gen(-3, vx({1.0, -0.5})), pose2(100000, v3(0.2, 0.3, -0.4))};
    auto P = [&](std::vector<int> i) { std::vector<fr::Variable*> r; for (int k : i) r.push_back(w.pool[k].get()); return r; };
    w.fpool = {std::make_shared<TF>(9, P({0}), 1, 1.0), std::make_shared<TF>(-4, P({0, 1}), 2, 2.0), std::make_shared<TF>(70000, P({1, 2}), 3, 3.0), std::make_shared<TF>(2, P({2}), 3, 4.0), std::make_shared<TF>(1, P({0, 2, 0}), 2, 5.0)};
    int start = mc::choose(9, "start");
    auto all = [&](std::vector<int> v, std::vector<int> f) { for (int i : v) { w.g->add_variable(w.pool[i]); w.V.push_back(w.pool[i]); } for (int i : f) { w.g->add_factor(w.fpool[i]); w.F.push_back(w.fpool[i]); } };
    std::vector<int> pre;
    switch (start) {
    case 0: break;                                                                                     // empty
    case 1: all({0, 1, 2}, {0, 1, 2, 3}); break;                                                      // registered only
    case 2: all({0, 1, 2}, {0, 1, 2, 3}); pre = {FINALIZE}; break;
    case 3: all({0, 1, 2}, {0, 1, 2, 3}); pre = {FINALIZE, SPARSE, BOTH}; break;                       // evaluated
    case 4: all({0, 1, 2}, {0, 1, 2, 3}); pre = {TOG1, FINALIZE, SPARSE, BOTH}; break;                 // with a constant
    case 5: all({2, 0}, {0, 3, 4}); pre = {FINALIZE, SPARSE, DENSE, RES}; break;                       // v1 not yet registered
    case 6: all({0, 1, 2}, {0, 1, 2, 3, 4}); pre = {TOG0, TOG1, TOG2, FINALIZE, SPARSE, BOTH}; break;  // everything constant
    case 7: all({0, 1, 2}, {0, 1, 2, 3}); pre = {FINALIZE, BOTH, SPARSE, TOG2}; break;                  // stopped matching
    case 8: all({1, 0}, {1, 0, 4}); pre = {TOG2, FINALIZE, SPARSE, BOTH}; break;                       // factor on an unregistered constant
    }
    for (int op : pre) run(w, op);
    mc::log("-- start %d", start);
    static const int depth = getenv("MC_DEPTH") ? atoi(getenv("MC_DEPTH")) : 3; int mixed = 0;
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(NOPS, "op");
        if (op == END) break;
        run(w, op); mixed = 2 * mixed + op;
        mc::Hash h; h.i(start).i(w.current()).i(w.doubtful).i(w.V.size()).i(w.F.size()).i(w.have_J).i(w.have_S).i(w.have_res);
        for (auto& v : w.V) h.i(v->id()); for (auto& f : w.F) h.i(f->id()); for (bool b : w.consts()) h.i(b); for (auto& v : w.pool) hash(h, v->value());
        mc::state(h);
    }
    // finally: whatever happened, answer like a fresh graph
    // (every order after every sequence in the thorough tier, one of them in the quick tier)
    int order = mc::tier && depth <= 3 ? mc::choose(3, "final order") : mixed % 3;
    static const int orders[3][6] = {{SPARSE, DENSE, RES, GETVEC, ACC, BOTH}, {RES, BOTH, SPARSE, ACC, GETVEC, DENSE}, {ACC, GETVEC, BOTH, RESOUT, SPARSE, SPARSE}};
    mc::log("-- finally");
    for (int i = 0; i < 6; ++i) run(w, orders[order][i]);
    finalize(w);
    if (w.current()) { for (int i = 0; i < 6; ++i) run(w, orders[order][i]); mc::count("finally evaluated"); }
    else mc::count("finally refused");
    mc::Hash h; h.i(w.current()); hash(h, w.last_J); hash(h, w.last_res); mc::outcome(h);
}
int main(int a, char** v) { return mc::main(a, v, body); }
