// C02: every structure up to the bound: sizes, constness, identifiers, factor arities, refusals.
#include "graphkit.hpp"
using namespace gk;

static VarP make_var(int type, int id)
{
    switch (type) {
    case 0: return gen(id, vx({0.3}));
    case 1: return pose2(id, v3(0.1, 0.2, 0.3));
    case 2: return gen(id, vx({1, 2}));
    case 3: return std::make_shared<fr::InverseRangeVariable>(id, v3(0, 0, 0), v3(0, 0, 1), 2.0);
    case 4: return plane(id, v3(0, 0, 1), 1.0);
    default: return pose(id, 0, 0);
    }
}
static const std::vector<std::vector<int>>& idsets()
{
    static const std::vector<std::vector<int>> s = {{0, 1, 2, 3}, {3, 2, 1, 0}, {-5, 1000000, 7, -2147483647 - 1}, {2147483647, 0, -1, 12}};
    return s;
}
// many variables and factors of mixed types, identifiers dense, sparse or descending
static void sized()
{
    static const std::vector<int> dense = [] { std::vector<int> r; for (int i = 1; i <= 24; ++i) r.push_back(i); for (int q : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}) r.push_back(q); return r; }();
    std::vector<int> ns = dense; if (mc::tier) for (int q : {511, 512, 513, 1023, 1024, 1025, 2500}) ns.push_back(q);
    int n = ns[mc::choose((int)ns.size(), "size")], ids = mc::choose(4, "identifiers"), cons = mc::choose(4, "constants"), uses = mc::choose(3, "uses");
    auto id = [&](int i, int salt) { switch (ids) { case 0: return i; case 1: return 3 * (n - i) - n; case 2: return (int)(i * 2654435761u + salt); default: return i % 2 ? i * 65536 + salt : -i * 256 - salt; } };
    std::vector<VarP> V; std::vector<FacP> F; std::set<int> vi, fi;
    for (int i = 0; i < n; ++i) { V.push_back(make_var((i * 7 + i / 5) % 6, id(i, 1))); vi.insert(V.back()->id()); bool c = cons == 1 ? i % 3 == 1 : cons == 2 ? i < n / 2 : cons == 3 ? i != n / 2 : false; V.back()->set_constant(c); }
    for (int k = 0; k < n; ++k) {
        std::vector<fr::Variable*> u{V[k].get()};
        if (uses >= 1 && n > 1) u.push_back(V[(k + n / 2 + 1) % n == k ? (k + 1) % n : (k + n / 2 + 1) % n].get());
        if (uses == 2 && k == n - 1) { u.clear(); for (auto& v : V) u.push_back(v.get()); }
        F.push_back(std::make_shared<TF>(id(k, 2), u, V[k]->size() + k % 3, 1.0 + k % 3)); fi.insert(F.back()->id());
    }
    if ((int)vi.size() != n || (int)fi.size() != n) return; // identifiers happen to collide
    FactorGraph g; if (mc::flip("factors first")) { for (auto& f : F) g.add_factor(f); for (auto& v : V) g.add_variable(v); } else { for (auto& v : V) g.add_variable(v); for (auto& f : F) g.add_factor(f); }
    mc::log("%d variables, identifiers %d, constants %d, uses %d", n, ids, cons, uses);
    for (int round = 0; round < 2; ++round) {
        mc::step(); g.finalize_structure();
        Answer a = stacked(V, F); check_layout(g, V, F, a, "graph"); check_contents(g, V, F, "graph");
        if (!close(g.compute_full_residual_vector(), a.res, 1e-9)) mc::fail("evaluation uses another layout");
        if (n < 70) if (!close(g.compute_full_jacobian_matrix(), a.J, 1e-9)) mc::fail("the dense Jacobian uses another layout");
        for (int i = 0; i < n; ++i) { bool ok = true; int x = V[i]->id() + 1; g.variable_placement(x, ok); if (ok != (vi.count(x) > 0)) mc::fail("variable id %d is reported as %s", x, ok ? "known" : "unknown"); x = F[i]->id() - 1; g.factor_placement(x, ok); if (ok != (fi.count(x) > 0)) mc::fail("factor id %d is reported as %s", x, ok ? "known" : "unknown"); }
        mc::Hash h; h.i(55).i(n).i(ids).i(cons).i(uses).i(round); mc::state(h);
        mc::matched(2 * n);
        V[n / 3]->set_constant(!V[n / 3]->is_constant());
    }
}
static void body()
{
    if (mc::choose(2, "family")) { sized(); return; }
    int nv = mc::choose(4, "variables"), nf = mc::choose(4, "factors");
    int types = mc::tier ? 6 : 3;
    const auto& vid = idsets()[mc::choose(mc::tier ? 4 : 3, "variable identifiers")];
    const auto& fid = idsets()[mc::choose(mc::tier ? 4 : 2, "factor identifiers") + (mc::tier ? 0 : 1)];
    std::vector<VarP> V;
    std::vector<FacP> F;
    for (int i = 0; i < nv; ++i) { V.push_back(make_var(mc::choose(types, "type"), vid[i])); if (mc::flip("constant")) V.back()->set_constant(true); }
    // factors: which variables they use and how many rows they have
    VarP stranger = gen(vid[3], vx({0.2, 0.4})), twin = nv ? V[0]->clone() : nullptr;
    int odd = mc::choose(nf ? 6 : 1, "oddity"); // of the first factor: none, unregistered, unregistered constant, null, a clone of a registered one, a variable twice
    if (odd == 2) stranger->set_constant(true);
    if (odd == 4 && twin) twin->set_constant(false);
    for (int k = 0; k < nf; ++k) {
        std::vector<fr::Variable*> u;
        int pattern = nv ? mc::choose(mc::tier ? 4 : 3, "uses") : 0; // all, first only, last and first, none
        if (nv && pattern == 0) for (auto& v : V) u.push_back(v.get());
        if (nv && pattern == 1) u = {V[k % nv].get()};
        if (nv && pattern == 2) { u = {V[nv - 1].get()}; if (nv > 1) u.push_back(V[0].get()); }
        if (k == 0 && odd == 1) u.push_back(stranger.get());
        if (k == 0 && odd == 2) u.insert(u.begin(), stranger.get());
        if (k == 0 && odd == 3) u.push_back(nullptr);
        if (k == 0 && odd == 4 && twin) u.push_back(twin.get());
        if (k == 0 && odd == 5 && !u.empty()) u.push_back(u[0]);
        static const int rows[] = {1, 3, 12};
        F.push_back(std::make_shared<TF>(fid[k], u, rows[(k + pattern + nv) % 3], 1.0 + k));
    }
    FactorGraph g;
    // variables and factors may be registered in any interleaving
    if (mc::flip("factors first")) { for (auto& f : F) g.add_factor(f); for (auto& v : V) g.add_variable(v); }
    else { for (auto& v : V) g.add_variable(v); for (auto& f : F) g.add_factor(f); }
    for (int round = 0; round < 2; ++round) {
        bool ok = acceptable(V, F), did = true;
        mc::step();
        try { g.finalize_structure(); } catch (const std::exception& e) { did = false; if (!mc::eigen_asserts.empty()) mc::fail("finalize: %s", mc::eigen_asserts[0].c_str()); }
        mc::log("%d variables, %d factors, oddity %d: finalize %s", nv, nf, odd, did ? "accepted" : "refused");
        if (did && !ok) mc::fail("finalize_structure() accepted a structure it must refuse");
        if (!did && ok) mc::fail("finalize_structure() refused an acceptable structure");
        mc::matched();
        if (!did) { mc::count("refused"); check_contents(g, V, F, "a refused finalization"); return; }
        Answer a = stacked(V, F);
        check_layout(g, V, F, a, "graph");
        check_contents(g, V, F, "graph");
        // the maps say the same, and together the ranges are an ordered gap-free cover
        auto& vm = g.variable_placement_map(); auto& fm = g.factor_placement_map();
        int at = 0;
        for (size_t i = 0; i < V.size(); ++i) { auto it = vm.find(V[i]->id()); if (it == vm.end() || it->second.variable != V[i].get() || it->second.dim != a.dim[i]) mc::fail("placement map entry of variable id %d is wrong", V[i]->id()); if (a.dim[i] && it->second.index != at) mc::fail("columns of variable id %d start at %d, expected %d", V[i]->id(), it->second.index, at); at += a.dim[i]; }
        if (at != g.num_values()) mc::fail("columns add up to %d of %d", at, g.num_values());
        at = 0;
        for (size_t k = 0; k < F.size(); ++k) {
            auto it = fm.find(F[k]->id()); if (it == fm.end() || it->second.factor != F[k].get() || it->second.residual_index != at || it->second.residual_dim != F[k]->residual_size()) mc::fail("placement map entry of factor id %d is wrong", F[k]->id());
            // its columns are those of its non-constant variables
            std::set<std::pair<int, int>> want, got; for (auto* u : F[k]->variables()) if (!u->is_constant()) for (size_t i = 0; i < V.size(); ++i) if (V[i].get() == u) want.insert({a.col[i], a.dim[i]});
            auto& p = it->second; if (p.variable_column_indices.size() != p.variable_dims.size()) mc::fail("factor id %d has %zu columns and %zu sizes", F[k]->id(), p.variable_column_indices.size(), p.variable_dims.size());
            for (size_t j = 0; j < p.variable_dims.size(); ++j) if (p.variable_dims[j]) got.insert({p.variable_column_indices[j], p.variable_dims[j]});
            if (want != got) mc::fail("factor id %d lists other columns than its non-constant variables have", F[k]->id());
            at += F[k]->residual_size();
        }
        if (at != g.num_residuals()) mc::fail("rows add up to %d of %d", at, g.num_residuals());
        mc::matched((int)(V.size() + F.size()));
        // unknown identifiers, of variables and of factors
        std::set<int> known; for (auto& v : V) known.insert(v->id());
        for (int id : {-7, 0, 1, 2, 3, 5, 99, 1000000, 2147483647, -2147483647 - 1, -5, 7, -1, 12}) {
            bool ok1 = true, ok2 = true; bool isv = known.count(id), isf = false; for (auto& f : F) isf = isf || f->id() == id;
            auto p = g.variable_placement(id, ok1); auto q = g.factor_placement(id, ok2);
            if (ok1 != isv) mc::fail("variable id %d is reported as %s", id, ok1 ? "known" : "unknown");
            if (ok2 != isf) mc::fail("factor id %d is reported as %s", id, ok2 ? "known" : "unknown");
            if (isv && p.variable->id() != id) mc::fail("placement of id %d is another variable's", id);
            if (isf && q.factor->id() != id) mc::fail("placement of id %d is another factor's", id);
            if (!isv && g.get_variable(id)) mc::fail("lookup of unknown id %d finds a variable", id);
        }
        // and the layout is the one that evaluation uses
        if (!close(g.compute_full_residual_vector(), a.res, 1e-9) || !close(g.compute_full_jacobian_matrix(), a.J, 1e-9)) mc::fail("evaluation uses another layout");
        mc::Hash h; h.i(nv).i(nf); for (int d : a.dim) h.i(d); for (int d : a.rdim) h.i(d); for (auto& v : V) h.i(v->id()); mc::state(h);
        if (!nv) break;
        // toggle one variable and finalize again
        V[nv - 1]->set_constant(!V[nv - 1]->is_constant());
    }
}
int main(int a, char** v) { mc::shard_depth = 6; return mc::main(a, v, body); }
