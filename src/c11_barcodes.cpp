// C11: persistence pairs and barcodes.
#include "big.hpp"
using namespace std;
static const double INF = numeric_limits<double>::infinity();
// d: boundaries in original order, v: values; C: the library's filtered complex for them
template <class F, class T> void check(mc::Ctx& c, const bats::FilteredChainComplex<T, CM<F>>& C, const vector<RM<F>>& d, const Vals& v, const string& what, bool reps = true) {
    auto ord = sort_orders(v); auto want = expected_pairs(d, v, ord); int K = d.size();
    for (int k = 0; k < K; k++) { c.check(C.perm[k] == up(ord[k]), "filtered complex: permutation is not the stable sort of the values"); auto B = rdmat<F>(C.C.boundary[k], c, "boundary"); if (k) c.check(B == d[k].permrows(ord[k - 1]).permcols(ord[k]), "filtered complex: boundary is not permuted into filtration order"); }
    each_filtered<F, T>(C, [&](const char* n, const bats::ReducedFilteredChainComplex<T, CM<F>>& R, bool basis) {
        auto nm = [&] { return what + " " + FT<F>::name() + " " + n; }; c.op();
        for (int k = 0; k < K; k++) { auto ps = R.persistence_pairs(k); auto got = got_pairs(ps); c.checkf(got == want[k], [&] { return nm() + ": dimension " + to_string(k) + " pairs " + str(got) + "expected " + str(want[k]); });
            vector<PP> pp = got_pairs(R.persistence_pairs(k, true)); for (auto& p : pp) { p.b = ord[k][p.b]; if (p.d >= 0) p.d = ord[k + 1][p.d]; } sort(pp.begin(), pp.end()); c.checkf(pp == want[k], [&] { return nm() + ": permuted critical indices do not name the same pairs"; });
            for (bool perm : {false, true}) { auto [bd, inds] = R.persistence_pairs_vec(k, perm); auto qs = R.persistence_pairs(k, perm); bool ok = bd.size() == 2 * qs.size() && inds.size() == 2 * qs.size(); for (size_t i = 0; ok && i < qs.size(); i++) ok = bd[2 * i] == qs[i].birth && bd[2 * i + 1] == qs[i].death && inds[2 * i] == qs[i].birth_ind && inds[2 * i + 1] == qs[i].death_ind; c.check(ok, "persistence_pairs_vec differs from persistence_pairs"); }
            int inf = 0; for (auto& p : want[k]) inf += p.d < 0; c.check((int)R.hdim(k) == inf && (int)R.dim(k) == d[k].n, "number of infinite bars differs from the homology dimension");
            if (k + 1 < K) { vector<T> a, b; for (int i : ord[k]) a.push_back((T)v[k][i]); for (int i : ord[k + 1]) b.push_back((T)v[k + 1][i]); auto ex = got_pairs(bats::extract_pairs(R.RC.R[k], R.RC.p2c[k + 1], a, b, k)); for (auto& p : ex) { p.b = ord[k][p.b]; if (p.d >= 0) p.d = ord[k + 1][p.d]; } sort(ex.begin(), ex.end()); c.check(ex == want[k], "extract_pairs differs from persistence_pairs"); }
            if (basis && reps) for (size_t q = 0; q < ps.size(); q++) for (bool perm : {false, true}) { auto P = R.persistence_pairs(k, perm)[q]; auto z = rdvec<F>(R.representative(P, perm), d[k].n, c, "representative"); auto y = z; if (perm) { for (size_t i = 0; i < z.size(); i++) y[ord[k][i]] = z[i]; }
                c.checkf(zerov(matvec(d[k], y)), [&] { return nm() + ": representative of a pair is not a cycle"; }); int last = -1; for (size_t i = 0; i < y.size(); i++) if (!y[ord[k][i]].zero()) last = ord[k][i]; int bi = perm ? ord[k][P.birth_ind] : (int)P.birth_ind; c.checkf(last == bi, [&] { return nm() + ": representative of a pair is not born at its birth cell"; }); } } });
    mc::Hash h; for (auto& w : want) { h(w.size()); for (auto& p : w) h(p.b)(p.d); } c.outcome(h.h); for (auto& w : want) for (auto& p : w) if (p.k > 0) c.interesting();
}
// independent oracle: bars alive on [a,b] = rank of H(X_a) -> H(X_b)
template <class F> void check_ranks(mc::Ctx& c, const vector<RM<F>>& d, const Vals& v, const vector<vector<bats::PersistencePair<double>>>& bars) {
    set<double> t; for (auto& r : v) t.insert(r.begin(), r.end()); int K = d.size();
    for (double a : t) for (double b : t) if (a <= b) for (int k = 0; k < K; k++) {
        auto sel = [&](int kk, double s) { vector<int> q; for (size_t i = 0; i < v[kk].size(); i++) if (v[kk][i] <= s) q.push_back(i); return q; };
        auto Za = sel(k, a); RM<F> da = d[k].permcols(Za); auto Kr = da.kernel(); RM<F> Z(d[k].n, Kr.n); for (size_t i = 0; i < Za.size(); i++) for (int j = 0; j < Kr.n; j++) Z(Za[i], j) = Kr((int)i, j);
        RM<F> B = k + 1 < K ? d[k + 1].permcols(sel(k + 1, b)) : RM<F>(d[k].n, 0); int r = Z.hcat(B).rank() - B.rank(); int n = 0; for (auto& p : bars[k]) n += p.birth <= a && p.death > b;
        c.checkf(n == r, [&] { ostringstream o; o << FT<F>::name() << ": " << n << " bars of dimension " << k << " cover [" << a << "," << b << "], the inclusion has rank " << r; return o.str(); }); }
}
template <class F, class CpxT, class T = double> void simp(mc::Ctx& c, const CpxT& X, const Cells& x, const Vals& v, const char* what, bool ranks = false, bool reps = true) {
    auto b = ref::by_dim(x); auto d = dense_complex<F>(bats::Chain(X, F()), c); vector<vector<T>> tv; for (auto& r : v) tv.push_back(vector<T>(r.begin(), r.end()));
    bats::Filtration<T, CpxT> Fi(X, tv); auto C = bats::Chain(Fi, F()); check<F, T>(c, C, d, v, what, reps);
    if constexpr (is_same_v<T, double>) if (ranks) { auto R = bats::Reduce(Fi, F()); vector<vector<bats::PersistencePair<double>>> bars; for (size_t k = 0; k < b.size(); k++) bars.push_back(R.persistence_pairs(k)); check_ranks<F>(c, d, v, bars); auto w = expected_pairs(d, v, sort_orders(v)), w2 = expected_pairs(d, v, sort_orders(v), true); c.check(w == w2, "oracle mismatch"); c.check(expected_pairs(ref::complex_of<RF<F>>(b), v, sort_orders(v)) == w, "pairs differ from those of the simplicial boundary"); }
}
static bats::SimplicialComplex sc(const Cells& x, int nv) { return build_complex<bats::SimplicialComplex>(x, nv, mdim(x)); }
typedef bats::LightSimplicialComplex<size_t> Light;
static Light lc(const Cells& x, int nv) { Light Y(nv, mdim(x)); for (auto& s : x) Y.add(up(s)); return Y; }
PART("complexes on 3 vertices, every monotone value assignment with ties") {
    auto x = choose_complex(c, 3, 2); if (x.empty()) c.prune(); int how = c.choose(2); x = reorder(x, how); auto v = choose_values(c, x, {-1.5, 0, 2}); c.shard_here(); show(c, x); show(c, v); c.state(mc::mix(hcells(x), hvals(v)));
    auto X = sc(x, 3); simp<F2>(c, X, x, v, "simplicial", true); simp<F3>(c, X, x, v, "simplicial", true); if (x.size() < 7 || c.tier) simp<QQ>(c, X, x, v, "simplicial"); simp<F2>(c, lc(x, 3), x, v, "light simplicial"); simp<F2, bats::SimplicialComplex, float>(c, X, x, v, "float values"); }
PART("the triangle, every order of its cells") { Cells x{{0},{1},{2},{0,1},{0,2},{1,2},{0,1,2}}; x = reorder(x, c.choose(3)); auto v = choose_linear_extension(c, x); c.shard_here(); show(c, v); c.state(mc::mix(hcells(x), hvals(v))); auto X = sc(x, 3); simp<F2>(c, X, x, v, "simplicial", true); simp<F3>(c, X, x, v, "simplicial", true); simp<F3>(c, lc(x, 3), x, v, "light simplicial"); simp<QQ>(c, X, x, v, "simplicial"); }
PART("complexes on 4 vertices, two-valued") { auto x = choose_complex(c, 4, 3, true); x = reorder(x, c.choose(2)); c.shard_here(); if (!c.tier && x.size() > 11 && x.size() < 15 && hcells(x) % 2) c.prune(); auto v = choose_values(c, x, {0, 1}); show(c, x); show(c, v); c.state(mc::mix(hcells(x), hvals(v))); auto X = sc(x, 4); simp<F2>(c, X, x, v, "simplicial", false, false); if (x.size() < 9 || c.tier) simp<F3>(c, X, x, v, "simplicial"); }
PART("graphs on 4 vertices, every order of edges") { Cells x{{0},{1},{2},{3}}; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (c.flip()) x.push_back({i, j}); c.shard_here(); Vals v{{0, 0, 0, 0}}; int ne = x.size() - 4; if (c.flip()) v[0] = {0.25, 0, 0.75, 0.5}; if (ne) { auto p = choose_perm(c, ne); vector<double> w; for (int q : p) w.push_back(1 + q); v.push_back(w); } show(c, x); show(c, v); c.state(mc::mix(hcells(x), hvals(v))); auto X = sc(x, 4); simp<F2>(c, X, x, v, "graph", ne < 6, ne < 6); simp<F3>(c, X, x, v, "graph", false, false); }
PART("hollow tetrahedron: every order of triangles and edges by length") { Cells x; for (auto& s : ref::all_simplices(4, 2)) x.push_back(s); Vals v{{0, 0, 0, 0}, {}, {}}; vector<double> w; for (int e = 0; e < 6; e++) w.push_back(c.choose(c.tier ? 4 : 3)); c.shard_here(); v[1] = w; auto b = ref::by_dim(x); auto p = choose_perm(c, 4); for (int t = 0; t < 4; t++) v[2].push_back(4 + p[t]); show(c, v); c.state(hvals(v)); auto X = sc(x, 4); simp<F2>(c, X, x, v, "tetrahedron", false, false); simp<F3>(c, X, x, v, "tetrahedron", false, true); }
PART_THOROUGH("2-complexes on 4 vertices, every order of their cells") { auto x = choose_complex(c, 4, 2, true); if (x.size() > 11) c.prune(); c.shard_here(); auto v = choose_linear_extension(c, x); c.state(mc::mix(hcells(x), hvals(v))); show(c, x); show(c, v); simp<F2>(c, sc(x, 4), x, v, "simplicial", false, false); }
PART("Rips-like flag filtrations on 4 and 5 points") { int n = c.tier ? 5 : 4; vector<vector<double>> w(n, vector<double>(n, 0)); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) w[i][j] = 1 + c.choose(n == 5 ? 2 : 4); c.shard_here(); Cells x = ref::all_simplices(n, 3); Vals v(4); for (auto& s : x) { double m = 0; for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) m = max(m, w[s[i]][s[j]]); v[s.size() - 1].push_back(m); } show(c, v); c.state(hvals(v)); auto X = sc(x, n); simp<F2>(c, X, x, v, "flag", false, false); simp<F3>(c, lc(x, n), x, v, "flag", false, n == 4); }
// torsion: bars that depend on the field
static const vector<ref::Spx> RP2 = {{0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5}};
PART("projective plane, lower-star filtrations (field dependence)") { vector<double> f(6); for (auto& w : f) w = c.choose(c.tier ? 4 : 3); c.shard_here(); set<ref::Spx> S; for (int i = 0; i < 6; i++) S.insert({i}); for (auto t : RP2) { S.insert(t); for (auto& g : ref::faces(t)) S.insert(g); } Cells x; for (auto& s : ref::all_simplices(6, 2)) if (S.count(s)) x.push_back(s); Vals v(3); for (auto& s : x) { double m = -9; for (int i : s) m = max(m, f[i]); v[s.size() - 1].push_back(m); } show(c, v); c.state(hvals(v)); auto X = sc(x, 6); simp<F2>(c, X, x, v, "RP2", false, false); simp<F3>(c, X, x, v, "RP2", false, false); simp<QQ>(c, X, x, v, "RP2", false, false); }
// cubical and cell complexes
template <class F> vector<RM<F>> orig_boundaries(const bats::ChainComplex<CM<F>>& C, mc::Ctx& c) { return dense_complex<F>(C, c); }
PART("cubical 2x1 grid, lower-star and perturbed filtrations") { bats::CubicalComplex X(2); vector<vector<vector<size_t>>> b(3); for (size_t i = 0; i <= 2; i++) for (size_t j = 0; j <= 1; j++) b[0].push_back({i, i, j, j}); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j <= 1; j++) b[1].push_back({i, i + 1, j, j}); for (size_t i = 0; i <= 2; i++) b[1].push_back({i, i, 0, 1}); for (size_t i = 0; i < 2; i++) b[2].push_back({i, i + 1, 0, 1}); for (auto& r : b) for (auto s : r) X.add(s);
    map<pair<int, int>, double> f; for (int i = 0; i <= 2; i++) for (int j = 0; j <= 1; j++) f[{i, j}] = -1 + c.choose(3); int extra = c.choose(5); c.shard_here(); Vals v(3); for (int k = 0; k < 3; k++) for (auto& s : b[k]) { double m = -9; for (size_t i = s[0]; i <= s[1]; i++) for (size_t j = s[2]; j <= s[3]; j++) m = max(m, f[{(int)i, (int)j}]); v[k].push_back(m + (k == 2 ? extra : k == 1 && (s[0] + extra) % 2 ? 0.5 : 0)); } for (auto& w : v[2]) w += 0.5; show(c, v); c.state(hvals(v));
    auto go = [&](auto z) { typedef decltype(z) F; auto d = dense_complex<F>(bats::Chain(X, F()), c); bats::Filtration<double, bats::CubicalComplex> Fi(X, v); check<F, double>(c, bats::Chain(Fi, F()), d, v, "cubical"); }; go(F2()); go(F3()); }
PART("cell complexes with torsion, every order of cells") { bats::CellComplex X; X.add_vertices(1); int ne = 2, nf = c.range(1, 2); for (int e = 0; e < ne; e++) X.add({}, {}, 1); static const int al[] = {0, 1, 2, 3}; for (int f = 0; f < nf; f++) { vector<size_t> ix; vector<int> co; for (int e = 0; e < ne; e++) { int w = al[c.choose(4)]; if (w) ix.push_back(e), co.push_back(w); } X.add(ix, co, 2); } c.shard_here(); Vals v{{0}, {1, 1}, {}}; v[1][0] = 1 + c.choose(2); for (int f = 0; f < nf; f++) v[2].push_back(2 + c.choose(3)); show(c, v);
    auto go = [&](auto z) { typedef decltype(z) F; auto d = dense_complex<F>(bats::Chain(X, F()), c); bats::Filtration<double, bats::CellComplex> Fi(X, v); check<F, double>(c, bats::Chain(Fi, F()), d, v, "cells"); }; go(F2()); go(F3()); go(QQ()); go(F5()); mc::Hash h; for (int w : c.taken) h(w); c.state(h.h); }
PART("barcode equality is equality of multisets") { int n = c.range(0, 3), m = c.range(0, c.tier ? 3 : 2); typedef bats::PersistencePair<double> P; vector<P> a, b; auto mk = [&] { int k = c.choose(5); return P(k == 4, c.choose(2), 0, k & 1, (k >> 1 & 1) ? INF : 5); }; for (int i = 0; i < n; i++) a.push_back(mk()); for (int i = 0; i < m; i++) b.push_back(mk()); c.shard_here(); auto key = [](const vector<P>& v) { multiset<tuple<size_t, double, double>> s; for (auto& p : v) s.insert({p.dim, p.birth, p.death}); return s; }; c.op(); c.check(bats::barcode_equality(a, b) == (key(a) == key(b)), "barcode_equality differs from multiset equality"); if (n && m) c.interesting(); c.outcome(key(a) == key(b)); mc::Hash h; for (int w : c.taken) h(w); c.state(h.h);
    for (auto& p : a) c.check(p.length() == p.death - p.birth && p.get_birth() == p.birth && p.get_death() == p.death && p.get_dim() == p.dim && p.get_birth_ind() == p.birth_ind && p.get_death_ind() == p.death_ind && (p == p) && !(p != p), "accessors of a pair"); }
PART("larger complexes and filtrations") { int kind = c.choose(bigc::N), how = c.choose(4), vk = c.choose(bigc::NV); c.shard_here(); auto z = bigc::make(kind, how); auto x = reorder(z.x, (kind + how + vk) % 3); auto v = bigc::values(x, vk); c << "kind " << kind << " how " << how << " values " << vk; c.state(mc::mix(hcells(x), hvals(v))); auto X = sc(x, z.nv); bool reps = how == 1; simp<F2>(c, X, x, v, "larger", false, reps); simp<F3>(c, X, x, v, "larger", false, reps); if (c.tier) simp<QQ>(c, X, x, v, "larger", false, false); simp<F3>(c, lc(x, z.nv), x, v, "larger light", false, false); if (vk != 5 && vk != 6) simp<F2, bats::SimplicialComplex, float>(c, X, x, v, "larger, float values", false, false); }
PART("values of integer type") { int kind = c.choose(bigc::N), vk = c.pick(vector<int>{0, 1, 3, 4, 7}); c.shard_here(); auto z = bigc::make(kind, 2); auto v = bigc::values(z.x, vk); c << "kind " << kind << " values " << vk; c.state(mc::mix(hcells(z.x), hvals(v))); auto d = dense_complex<F3>(bats::Chain(sc(z.x, z.nv), F3()), c); vector<vector<int>> iv; for (auto& r : v) iv.push_back(vector<int>(r.begin(), r.end())); auto X = sc(z.x, z.nv); bats::Filtration<int, bats::SimplicialComplex> Fi(X, iv); auto want = expected_pairs(d, v, sort_orders(v)); auto R = bats::Reduce(Fi, F3()); c.op(); c.interesting();
    for (size_t k = 0; k < d.size(); k++) { auto ps = R.persistence_pairs(k); c.check(ps.size() == want[k].size(), "integer values: number of pairs"); set<tuple<int, int, int, int>> g, w; for (auto& p : ps) g.insert({(int)p.birth_ind, p.death_ind == bats::NO_IND ? -1 : (int)p.death_ind, p.birth, p.death_ind == bats::NO_IND ? 0 : p.death}); for (auto& p : want[k]) w.insert({p.b, p.d, (int)p.vb, p.d < 0 ? 0 : (int)p.vd}); c.check(g == w, "integer values: wrong pairs"); } c.outcome(mc::mix(kind, vk)); }
PART("comparing two reductions") {
    auto x = choose_complex(c, 3, 2); if (x.empty()) c.prune(); auto v = choose_values(c, x, {0, 1}); c.shard_here(); auto w = choose_values(c, x, {0, 1, 2}); show(c, x); show(c, v); show(c, w); c.state(mc::mix(hcells(x), mc::mix(hvals(v), hvals(w))));
    auto cnt = [](const auto& m) { size_t q = 0; for (int i = 0; i < m.m; i++) for (int j = 0; j < m.n; j++) q += !m(i, j).zero(); return q; };
    auto go = [&](auto z) { typedef decltype(z) F; auto X = build_complex<bats::SimplicialComplex>(x, 3, mdim(x)); auto d = dense_complex<F>(bats::Chain(X, F()), c); typedef bats::Filtration<double, bats::SimplicialComplex> FT_; auto A = bats::Reduce(FT_(X, v), F(), bats::standard_reduction_flag(), bats::compute_basis_flag()), B = bats::Reduce(FT_(X, w), F(), bats::standard_reduction_flag(), bats::compute_basis_flag());
        auto oa = sort_orders(v), ob = sort_orders(w); bool same = true; int K = d.size(); for (int k = 0; k < K; k++) { auto pa = A.persistence_pairs(k), pb = B.persistence_pairs(k); same = same && bats::barcode_equality(pa, pb); if (k) same = same && d[k].permrows(oa[k - 1]).permcols(oa[k]) == d[k].permrows(ob[k - 1]).permcols(ob[k]); }
        c.op(); c.checkf(bats::test_reduce_result(A, B) == same, [&] { return string("test_reduce_result says ") + (same ? "different" : "the same"); }); c.check(bats::test_reduce_result(A, A), "test_reduce_result: a reduction differs from itself"); auto nu = A.get_nnz_U(), nr = A.get_nnz_R(); bool ok = (int)nu.size() == K && (int)nr.size() == K; for (int k = 0; ok && k < K; k++) ok = nu[k] == cnt(rdmat<F>(A.RC.U[k], c, "U")) && nr[k] == cnt(rdmat<F>(A.RC.R[k], c, "R")); c.check(ok, "numbers of nonzeros"); if (same) c.interesting(); c.outcome(same); };
    go(F2()); go(F3());
}
