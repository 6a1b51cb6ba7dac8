// C06: every registration history over a small identifier domain with more objects than identifiers.
#include "graphkit.hpp"
using namespace gk;

// everything a graph answers without computing anything new
struct Snap { std::vector<fr::Variable*> v; std::vector<fr::Factor*> f; std::vector<fr::Variable*> look; int nv, nval, nres; bool jv, rv; MX J, S; VX r; int got; std::vector<int> place; };
static Snap snap(const FactorGraph& g, const std::vector<int>& ids)
{
    Snap s;
    for (auto& v : g.get_all_variables()) s.v.push_back(v.get());
    for (auto& f : g.get_all_factors()) s.f.push_back(f.get());
    for (int id : ids) s.look.push_back(g.get_variable(id));
    s.nv = g.num_variables(); s.nval = g.num_values(); s.nres = g.num_residuals(); s.jv = g.jacobian_valid(); s.rv = g.residual_valid(); s.got = 0;
    try { s.J = g.jacobian(); s.got |= 1; } catch (const std::exception&) {}
    try { s.r = g.residual(); s.got |= 2; } catch (const std::exception&) {}
    try { s.S = dense(g.sparse_jacobian()); s.got |= 4; } catch (const std::exception&) {}
    for (int id : ids) { bool ok = false; auto p = g.variable_placement(id, ok); s.place.push_back(ok); if (ok) { s.place.push_back(p.index); s.place.push_back(p.dim); } ok = false; auto q = g.factor_placement(id, ok); s.place.push_back(ok); if (ok) { s.place.push_back(q.residual_index); s.place.push_back(q.residual_dim); s.place.push_back(std::find(s.f.begin(), s.f.end(), q.factor) - s.f.begin()); } }
    s.place.push_back((int)g.get_variables_of_type<fr::GenericVariable>().size()); s.place.push_back((int)g.get_variables_of_type<fr::Pose2DVariable>().size());
    return s;
}
static void same(const Snap& a, const Snap& b, const char* what)
{
    if (a.v != b.v || a.nv != b.nv) mc::fail("%s changed the variables of the graph", what);
    if (a.f != b.f) mc::fail("%s changed the factors of the graph", what);
    if (a.look != b.look) mc::fail("%s changed a lookup", what);
    if (a.nval != b.nval || a.nres != b.nres || a.place != b.place) mc::fail("%s changed the layout", what);
    if (a.jv != b.jv || a.rv != b.rv || a.got != b.got) mc::fail("%s changed what the graph can answer (%d %d %d -> %d %d %d)", what, a.jv, a.rv, a.got, b.jv, b.rv, b.got);
    if (!bits_equal(a.J, b.J) || !bits_equal(a.S, b.S) || !bits_equal(a.r, b.r)) mc::fail("%s changed computed results", what);
    mc::matched();
}
// many registrations, a duplicate of every one of them, of every kind of variable, before and after finalization
static void sized()
{
    std::vector<int> ns; for (int i = 1; i <= 20; ++i) ns.push_back(i); for (int q : {31, 32, 33, 64, 65, 128, 129}) ns.push_back(q); if (mc::tier) for (int q : {255, 256, 257, 1024, 1025}) ns.push_back(q);
    int n = ns[mc::choose((int)ns.size(), "size")], ids = mc::choose(5, "identifiers"), when = mc::choose(3, "when"), kind = mc::choose(3, "duplicates"), order = mc::choose(2, "order");
    auto id = [&](int i) { switch (ids) { case 0: return i; case 1: return 65536 * i; case 2: return -i * 256 - 1; case 3: return (int)(2147483647u - 16777216u * (unsigned)(i % 128) - i / 128); default: return i % 2 ? i : -i; } };
    auto make = [&](int i, int t) -> VarP { switch (t % 4) { case 0: return gen(id(i), vx({0.5 + i})); case 1: return pose2(id(i), v3(i, 1, 0.5)); case 2: return lm(id(i), v3(i, 2, 3)); default: return gen(id(i), vx({1.0 * i, 2, 3})); } };
    std::vector<VarP> V; std::vector<FacP> F; FactorGraph g;
    for (int j = 0; j < n; ++j) { int i = order ? n - 1 - j : j; auto v = make(i, i); if (i % 5 == 4) v->set_constant(true); auto f = std::make_shared<TF>(id(i), std::vector<fr::Variable*>{v.get()}, v->size() + i % 3, 1.0); g.add_variable(v); g.add_factor(f); V.push_back(v); F.push_back(f); }
    bool fin = when > 0; if (fin) g.finalize_structure();
    if (when == 2) g.compute_full_jacobian_and_residual();
    Snap before = snap(g, {id(0), id(n / 2), id(n - 1), 123456789});
    for (int i = 0; i < n; ++i) {
        mc::step(); int want = kind == 0 ? i : kind == 1 ? i + 1 : i + 2; auto v = make(i, want); v->set_constant(kind == 2 || i % 2);
        bool t1 = false, t2 = false;
        try { g.add_variable(kind == 0 && i % 3 == 0 ? V[order ? n - 1 - i : i] : v); } catch (const std::exception&) { t1 = true; }
        try { g.add_factor(kind == 0 && i % 3 == 1 ? F[order ? n - 1 - i : i] : std::make_shared<TF>(id(i), std::vector<fr::Variable*>{V[0].get()}, 1 + i % 3, 2.0)); } catch (const std::exception&) { t2 = true; }
        if (!t1) mc::fail("a second variable of identifier %d was accepted among %d", id(i), n);
        if (!t2) mc::fail("a second factor of identifier %d was accepted among %d", id(i), n);
        if (g.get_variable(id(i)) != V[order ? n - 1 - i : i].get()) mc::fail("the lookup of identifier %d finds another object", id(i));
    }
    same(before, snap(g, {id(0), id(n / 2), id(n - 1), 123456789}), "refused duplicates");
    check_contents(g, V, F, "refused duplicates");
    if (!fin) g.finalize_structure();
    Answer a = stacked(V, F); check_layout(g, V, F, a, "graph");
    if (!close(g.compute_full_residual_vector(), a.res, 1e-9)) mc::fail("residual differs after refused registrations");
    mc::Hash h; h.i(55).i(n).i(ids).i(when).i(kind).i(order); mc::state(h);
}
static void body()
{
    static const int domains[][2] = {{1, 2}, {0, -1}, {2147483647, -2147483647 - 1}, {5, 5 + 65536}, {-3, -3 + (1 << 24)}};
    if (mc::choose(2, "family")) { sized(); return; }
    int dom = mc::choose(mc::tier ? 5 : 4, "identifiers"); int A = domains[dom][0], B = domains[dom][1];
    // objects: same identifier, different object / type / constness
    std::vector<VarP> pool = {gen(A, vx({0.5, 1.0})), pose2(A, v3(1, 2, 0.5)), gen(B, vx({-0.3})), gen(B, vx({0.7}))};
    pool[3]->set_constant(true);
    std::vector<VX> vals; for (auto& v : pool) vals.push_back(v->value());
    auto P = [&](std::vector<int> i) { std::vector<fr::Variable*> r; for (int k : i) r.push_back(pool[k].get()); return r; };
    std::vector<FacP> fpool = {std::make_shared<TF>(A, P({0}), 2, 1.0), std::make_shared<TF>(A, P({0, 2}), 3, 2.0), std::make_shared<TF>(B, P({2}), 1, 3.0), std::make_shared<TF>(B, P({1}), 3, 4.0)};
    std::vector<int> ids = {A, B, 17};
    FactorGraph g; std::vector<VarP> V; std::vector<FacP> F; bool fin = false;
    enum { STOP, V0, V1, V2, V3_, F0, F1, F2, F3, NULLV, NULLF, FIN, EVAL, NOPS };
    static const char* nm[] = {"stop", "add variable 0", "add variable 1 (same id as 0)", "add variable 2", "add variable 3 (same id as 2)", "add factor 0", "add factor 1 (same id as 0)", "add factor 2", "add factor 3 (same id as 2)", "add a null variable", "add a null factor", "finalize", "evaluate"};
    int start = mc::choose(3, "start");
    auto eval = [&] {
        if (!fin) { g.get_variable(A); return; }
        Answer a = stacked(V, F);
        g.compute_full_jacobian_and_residual();
        mc::matched(3);
        if (!close(g.residual(), a.res, 1e-9)) mc::fail("residual is %s, expected %s", str(g.residual()).c_str(), str(a.res).c_str());
        if (!close(g.jacobian(), a.J, 1e-9)) mc::fail("Jacobian is %s, expected %s", str(g.jacobian()).c_str(), str(a.J).c_str());
        if (!close(dense(g.compute_sparse_jacobian_matrix()), a.J, 1e-9)) mc::fail("sparse Jacobian differs from %s", str(a.J).c_str());
        check_layout(g, V, F, a, "graph");
    };
    auto run = [&](int op) {
        mc::log("%s", nm[op]); mc::step();
        if (op == FIN) { bool ok = acceptable(V, F), did = true; try { g.finalize_structure(); } catch (const std::exception&) { did = false; } if (ok != did) mc::fail("finalize_structure() %s", ok ? "refused an acceptable structure" : "accepted a structure it must refuse"); if (did) fin = true; else if (fin) throw mc::Stop(); return; }
        if (op == EVAL) { eval(); return; }
        bool refuse = op == NULLV || op == NULLF;
        if (op >= V0 && op <= V3_) for (auto& v : V) refuse = refuse || v->id() == pool[op - V0]->id();
        if (op >= F0 && op <= F3) for (auto& f : F) refuse = refuse || f->id() == fpool[op - F0]->id();
        Snap before = snap(g, ids); bool threw = false;
        try {
            if (op == NULLV) g.add_variable(nullptr); else if (op == NULLF) g.add_factor(nullptr);
            else if (op <= V3_) g.add_variable(pool[op - V0]); else g.add_factor(fpool[op - F0]);
        } catch (const std::exception&) { threw = true; }
        if (threw && !refuse) mc::fail("%s was refused", nm[op]);
        if (!threw && refuse) mc::fail("%s was accepted", nm[op]);
        if (refuse) { same(before, snap(g, ids), nm[op]); mc::count("refused registrations"); if (fin) eval(); }
        else { if (op <= V3_) V.push_back(pool[op - V0]); else F.push_back(fpool[op - F0]); fin = false; }
        check_contents(g, V, F, nm[op]);
        for (int id : ids) { fr::Variable* want = nullptr; for (auto& v : V) if (v->id() == id) want = v.get(); if (g.get_variable(id) != want) mc::fail("after %s the lookup of id %d finds another object", nm[op], id); }
        for (size_t i = 0; i < pool.size(); ++i) if (!bits_equal(vals[i], pool[i]->value())) mc::fail("%s changed the value of variable %zu", nm[op], i);
    };
    if (start == 1) for (int op : {V0, F0, V2, F2, FIN}) run(op);
    if (start == 2) for (int op : {V3_, V0, F1, FIN, EVAL}) run(op);
    int depth = mc::tier ? 6 : 4;
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(NOPS, "op");
        if (op == STOP) break;
        run(op);
        mc::Hash h; h.i(dom).i(fin); for (auto& v : V) h.i(std::find(pool.begin(), pool.end(), v) - pool.begin()); for (auto& f : F) h.i(std::find(fpool.begin(), fpool.end(), f) - fpool.begin()); mc::state(h);
    }
    // whatever was refused, the contents finalize and evaluate like a fresh graph's
    if (acceptable(V, F)) { mc::log("-- finally"); run(FIN); run(EVAL); }
}
int main(int a, char** v) { mc::shard_depth = 4; return mc::main(a, v, body); }
