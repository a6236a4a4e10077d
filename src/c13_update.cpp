// C13: changing the values of a filtration and updating the reduction equals recomputing.
#include "big.hpp"
using namespace std;
static bats::SimplicialComplex sc(const Cells& x, int nv) { return build_complex<bats::SimplicialComplex>(x, nv, mdim(x)); }
// R = D U, U upper triangular and invertible, R reduced with pivot table p2c
template <class F> void check_factor(mc::Ctx& c, const RM<F>& D, const CM<F>& R_, const CM<F>& U_, const vector<size_t>& p2c, const string& what) {
    auto R = rdmat<F>(R_, c, "R"), U = rdmat<F>(U_, c, "U"); c.checkf(U.m == D.n && U.n == D.n && U.upper() && U.invertible(), [&] { return what + ": recorded basis is not invertible upper triangular " + U.str(); });
    c.checkf(R == D * U, [&] { return what + ": R = " + R.str() + " is not the current matrix times the basis " + (D * U).str(); }); vector<int> seen(R.m, -1);
    for (int j = 0; j < R.n; j++) { int i = R.m - 1; while (i >= 0 && R(i, j).zero()) i--; if (i < 0) continue; c.checkf(seen[i] < 0, [&] { return what + ": R is not reduced"; }); seen[i] = j; }
    for (int i = 0; i < R.m; i++) c.checkf(i < (int)p2c.size() && (seen[i] < 0 ? p2c[i] == bats::NO_IND : p2c[i] == (size_t)seen[i]), [&] { return what + ": pivot table is wrong"; });
}
template <class F> void check_rfcc(mc::Ctx& c, const vector<RM<F>>& d, const Vals& v, const bats::ReducedFilteredChainComplex<double, CM<F>>& R, const string& what) {
    auto ord = sort_orders(v); auto want = expected_pairs(d, v, ord); c.op(); c.check(R.val == v, "values not stored");
    for (size_t k = 0; k < d.size(); k++) { c.check(R.perm[k] == up(ord[k]), "permutation is not the sort permutation of the new values"); auto got = got_pairs(R.persistence_pairs(k)); c.checkf(got == want[k], [&] { return what + ": dimension " + to_string(k) + " pairs " + str(got) + "expected " + str(want[k]); });
        if (k) check_factor<F>(c, d[k].permrows(ord[k - 1]).permcols(ord[k]), R.RC.R[k], R.RC.U[k], R.RC.p2c[k], what + " dimension " + to_string(k)); int inf = 0; for (auto& p : want[k]) inf += p.d < 0; c.check((int)R.hdim(k) == inf, "homology dimension after update"); }
    auto dd = d; for (size_t k = 1; k < d.size(); k++) dd[k] = d[k].permrows(ord[k - 1]).permcols(ord[k]); check_rcc<F>(c, dd, R.RC, what, false);
}
template <class F> void homology(mc::Ctx& c, const bats::SimplicialComplex& X, const vector<Vals>& vs) {
    using namespace bats; auto d = dense_complex<F>(Chain(X, F()), c); Filtration<double, SimplicialComplex> Fi(X, vs[0]); auto C = Chain(Fi, F());
    each_filtered<F, double>(C, [&](const char* n, const ReducedFilteredChainComplex<double, CM<F>>& R0, bool basis) { if (!basis) return; auto R = R0; for (size_t t = 1; t < vs.size(); t++) { R.update_filtration(vs[t]); check_rfcc<F>(c, d, vs[t], R, FT<F>::name() + " " + n + " update " + to_string(t)); } });
    { auto R = Reduce(C); auto E = R; auto perm = [&](const Vals& a, const Vals& b) { vector<vector<size_t>> p; auto oa = sort_orders(a), ob = sort_orders(b); for (size_t k = 0; k < oa.size(); k++) { vector<size_t> inv(oa[k].size()), q(oa[k].size()); for (size_t i = 0; i < inv.size(); i++) inv[oa[k][i]] = i; for (size_t i = 0; i < q.size(); i++) q[i] = inv[ob[k][i]]; p.push_back(q); } return p; };
      auto p = perm(vs[0], vs[1]); R.RC.permute_basis(p, extra_reduction_flag()); R.val = vs[1]; R.perm = filtration_sortperm(vs[1]); check_rfcc<F>(c, d, vs[1], R, FT<F>::name() + " permute_basis with extra reduction");
      for (size_t k = 0; k < d.size(); k++) E.RC.permute_matrices(k, p[k]); for (size_t k = 0; k < d.size(); k++) E.RC.update_reduction(k); auto ord = sort_orders(vs[1]); for (size_t k = 1; k < d.size(); k++) check_factor<F>(c, d[k].permrows(ord[k - 1]).permcols(ord[k]), E.RC.R[k], E.RC.U[k], E.RC.p2c[k], FT<F>::name() + " update_reduction"); }
    for (size_t t = 1; t < vs.size(); t++) { C.update_filtration(vs[t]); Fi.update_filtration(vs[t]); auto D = Chain(Fi, F()); c.op(); for (size_t k = 0; k < d.size(); k++) { c.check(rdmat<F>(C.C.boundary[k], c, "boundary") == rdmat<F>(D.C.boundary[k], c, "boundary") && C.perm[k] == D.perm[k] && C.val == D.val, "updated filtered chain complex differs from a fresh one"); } }
}
template <class F> void graded(mc::Ctx& c, const bats::SimplicialComplex& X, const vector<Vals>& vs, int deg, bool aug) {
    using namespace bats; auto d = dense_complex<F>(Chain(X, F()), c); Filtration<double, SimplicialComplex> Fi(X, vs[0]); FilteredDGVectorSpace<double, CM<F>> C(Fi, deg, aug); string what = "graded degree " + to_string(deg) + (aug ? " augmented " : " ") + FT<F>::name() + " ";
    each_filtered_dg<F, double>(C, [&](const char* n, const ReducedFilteredDGVectorSpace<double, CM<F>>& R0, bool basis) { if (!basis) return; auto R = R0; for (size_t t = 1; t < vs.size(); t++) { R.update_filtration(vs[t]); c.op(); auto& v = vs[t]; auto ord = sort_orders(v); auto want = expected_pairs(d, v, ord); if (aug && d[0].n) { auto& w = want[0]; int first = ord[0][0]; w.erase(remove_if(w.begin(), w.end(), [&](const PP& p) { return p.b == first; }), w.end()); }
        Filtration<double, SimplicialComplex> Fn(X, v); FilteredDGVectorSpace<double, CM<F>> D(Fn, deg, aug);
        for (size_t k = 0; k < d.size(); k++) { auto got = got_pairs(R.persistence_pairs(k)); c.checkf(got == want[k], [&] { return what + n + " update " + to_string(t) + ": dimension " + to_string(k) + " pairs " + str(got) + "expected " + str(want[k]); }); int inf = 0; for (auto& p : want[k]) inf += p.d < 0; c.check((int)R.hdim(k) == inf, "homology dimension after update"); }
        for (size_t k = deg == -1 ? 0 : 1; k < d.size() + (deg == -1 ? 0 : 1); k++) check_factor<F>(c, rdmat<F>(D.complex().differential[k], c, "differential"), R.RC.R[k], R.RC.U[k], R.RC.p2c[k], what + n + " matrix " + to_string(k)); c.check(R.val == v && R.perm == D.perm, "values or permutation not stored"); } });
    for (size_t t = 1; t < vs.size(); t++) { C.update_filtration(vs[t]); Fi.update_filtration(vs[t]); FilteredDGVectorSpace<double, CM<F>> D(Fi, deg, aug); c.op(); for (size_t k = 0; k < D.complex().differential.size(); k++) c.check(rdmat<F>(C.complex().differential[k], c, "differential") == rdmat<F>(D.complex().differential[k], c, "differential") && C.perm == D.perm && C.val == D.val, "updated filtered graded space differs from a fresh one"); }
}
static void go(mc::Ctx& c, const Cells& x, int nv, const vector<Vals>& vs) { show(c, x); mc::Hash h; h(hcells(x)); for (auto& v : vs) { show(c, v); h(hvals(v)); } c.state(h.h); c.outcome(h.h); if (vs[0] != vs[1]) c.interesting(); auto X = sc(x, nv); homology<F2>(c, X, vs); homology<F3>(c, X, vs); graded<F2>(c, X, vs, 1, false); graded<F3>(c, X, vs, -1, false); graded<F3>(c, X, vs, 1, false); }
PART("complexes on 3 vertices, every pair of value assignments") { auto x = choose_complex(c, 3, 2, true); auto a = choose_values(c, x, {-1.5, 0, 2}); c.shard_here(); if (!c.tier && x.size() == 7) { for (auto& r : a) for (double w : r) if (w == 0) c.prune(); } auto b = choose_values(c, x, !c.tier && x.size() >= 6 ? vector<double>{-2, 1} : vector<double>{-2, 0, 3}); go(c, x, 3, {a, b}); }
PART("few vertices and dimension zero") { auto x = choose_complex(c, 2, 1); if (x.empty()) c.prune(); auto a = choose_values(c, x, {-1, 0, 2}), b = choose_values(c, x, {-1, 0, 2}); c.shard_here(); bool aug = c.flip(); if (!aug) { go(c, x, 2, {a, b, a}); return; } auto X = sc(x, 2); graded<F3>(c, X, {a, b}, -1, true); graded<F3>(c, X, {a, b}, 1, true); graded<F2>(c, X, {a, b, a}, 1, true); }
PART("the triangle, every pair of cell orders") { Cells x{{0},{1},{2},{0,1},{0,2},{1,2},{0,1,2}}; auto a = choose_linear_extension(c, x); c.shard_here(); auto b = choose_linear_extension(c, x); go(c, x, 3, {a, b}); }
PART("hollow triangle, chains of three assignments") { Cells x{{0},{1},{2},{0,1},{0,2},{1,2}}; auto a = choose_values(c, x, {0, 1}), b = choose_values(c, x, {0, 1}); c.shard_here(); auto d = choose_values(c, x, {0, 1}); go(c, x, 3, {a, b, d}); }
PART("augmented graded spaces") { auto x = choose_complex(c, 3, 2, true); auto a = choose_values(c, x, {0, 1}); c.shard_here(); auto b = choose_values(c, x, {0, 1}); show(c, x); show(c, a); show(c, b); c.state(mc::mix(hcells(x), mc::mix(hvals(a), hvals(b)))); auto X = sc(x, 3); graded<F3>(c, X, {a, b}, -1, true); graded<F3>(c, X, {a, b}, 1, true); graded<F2>(c, X, {a, b}, 1, true); graded<F2>(c, X, {a, b}, -1, true); if (a != b) c.interesting(); c.outcome(hcells(x)); }
PART("hollow tetrahedron: edge and triangle orders") { Cells x; for (auto& s : ref::all_simplices(4, 2)) x.push_back(s); auto mk = [&](int full) { Vals v{{0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}, {}}; for (int e = 0; e < 6; e++) v[1][e] = full && !c.tier && e > 2 ? 1 : c.choose(2); auto p = full ? choose_perm(c, 4) : vector<int>{0, 1, 2, 3}; for (int q : p) v[2].push_back(2 + q); return v; }; auto a = mk(0); c.shard_here(); auto b = mk(1); go(c, x, 4, {a, b, a}); }
PART("one vertex added late, graphs on 4 vertices") { Cells x{{0},{1},{2},{3}}; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (c.flip()) x.push_back({i, j}); if (x.size() > (c.tier ? 10 : 7)) c.prune(); c.shard_here(); auto a = choose_values(c, x, {0, 1}); auto p = choose_perm(c, 4); Vals b{{}, {}}; for (int q : p) b[0].push_back(q); if (x.size() == 4) b.pop_back(); else for (auto& s : x) if (s.size() == 2) b[1].push_back(max(b[0][s[0]], b[0][s[1]]) + (s[0] % 2 ? 0.5 : 0)); go(c, x, 4, {a, b}); }
static const vector<ref::Spx> RP2 = {{0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5}};
PART("projective plane: pairs of lower-star filtrations") { vector<double> f(6); for (auto& w : f) w = c.choose(2); c.shard_here(); auto p = choose_perm(c, c.tier ? 6 : 4); vector<double> g(p.begin(), p.end()); while (g.size() < 6) g.push_back(2.5); set<ref::Spx> S; for (int i = 0; i < 6; i++) S.insert({i}); for (auto t : RP2) { S.insert(t); for (auto& q : ref::faces(t)) S.insert(q); } Cells x; for (auto& s : ref::all_simplices(6, 2)) if (S.count(s)) x.push_back(s); auto lower = [&](const vector<double>& f) { Vals v(3); for (auto& s : x) { double m = -9; for (int i : s) m = max(m, f[i]); v[s.size() - 1].push_back(m); } return v; }; go(c, x, 6, {lower(f), lower(g)}); }
// permuting the bases of complexes and graded spaces
PART("permuting and un-permuting bases") { auto x = choose_complex(c, 3, 2, true); vector<vector<size_t>> p; for (auto& r : ref::by_dim(x)) p.push_back(up(choose_perm(c, r.size()))); c.shard_here(); show(c, x); mc::Hash h; h(hcells(x)); for (auto& q : p) h.range(q.begin(), q.end()); c.state(h.h); c.interesting(); c.outcome(h.h); auto X = sc(x, 3); typedef F3 F; auto C = bats::Chain(X, F()); auto d = dense_complex<F>(C, c); auto pi = [](const vector<size_t>& a) { return vector<int>(a.begin(), a.end()); }; auto inv = [](const vector<size_t>& a) { vector<int> r(a.size()); for (size_t i = 0; i < a.size(); i++) r[a[i]] = i; return r; };
    { auto D = C; D.ipermute_basis(p); for (size_t k = 1; k < d.size(); k++) c.check(rdmat<F>(D.boundary[k], c, "b") == d[k].permrows(pi(p[k - 1])).permcols(pi(p[k])), "chain complex ipermute_basis"); D.permute_basis(p); for (size_t k = 1; k < d.size(); k++) c.check(rdmat<F>(D.boundary[k], c, "b") == d[k], "chain complex permute_basis does not undo ipermute_basis"); auto E = C; E.permute_basis(p); for (size_t k = 1; k < d.size(); k++) c.check(rdmat<F>(E.boundary[k], c, "b") == d[k].permrows(inv(p[k - 1])).permcols(inv(p[k])), "chain complex permute_basis"); }
    for (int deg : {-1, 1}) { bats::DGVectorSpace<CM<F>> G(X, deg); auto D = G; D.ipermute_basis(p); for (size_t k = 1; k < d.size(); k++) { auto w = d[k].permrows(pi(p[k - 1])).permcols(pi(p[k])); c.check(rdmat<F>(D.differential[k], c, "b") == (deg == -1 ? w : w.T()), "graded ipermute_basis"); } D.permute_basis(p); for (size_t k = 1; k < d.size(); k++) c.check(rdmat<F>(D.differential[k], c, "b") == (deg == -1 ? d[k] : d[k].T()), "graded permute_basis does not undo ipermute_basis"); } }
PART("larger complexes: pairs of filtrations") { int kind = c.choose(bigc::N), how = c.range(1, 3), a = c.choose(bigc::NV), b = c.choose(bigc::NV); if (!c.tier && (kind + a + b) % 3) c.prune(); c.shard_here(); auto z = bigc::make(kind, how); if (z.x.size() > (c.tier ? 1000 : 90)) c.prune(); go(c, z.x, z.nv, {bigc::values(z.x, a), bigc::values(z.x, b), bigc::values(z.x, a)}); }
