// C12: homology / cohomology dualities, graded vector spaces, union-find persistence.
#include "filt.hpp"
#include "big.hpp"
using namespace std;
static const double INF = numeric_limits<double>::infinity();
template <class F, class CpxT> void unfiltered(mc::Ctx& c, const CpxT& X, const vector<RM<F>>& d, int deg, bool aug) {
    using namespace bats; typedef ReducedDGVectorSpace<CM<F>> R; DGVectorSpace<CM<F>> C(X, deg, aug); int K = d.size(); vector<RM<F>> D; for (auto& m : C.differential) D.push_back(rdmat<F>(m, c, "differential")); c.check((int)D.size() == K + 1 && (int)C.maxdim() == K - 1, "graded space: wrong number of differentials");
    for (int k = 1; k < K; k++) c.check(D[k] == (deg == -1 ? d[k] : d[k].T()), "graded space: differential is not the (transposed) boundary");
    RM<F> ones(1, d[0].n); for (auto& x : ones.a) x = RF<F>(1); c.check(D[0] == (deg == -1 ? (aug ? ones : RM<F>(0, d[0].n)) : (aug ? ones.T() : RM<F>(d[0].n, 0))), "graded space: augmentation is wrong"); c.check(D[K] == (deg == -1 ? RM<F>(d[K - 1].n, 0) : RM<F>(0, d[K - 1].n)), "graded space: map beyond the top is wrong");
    for (int k = 1; k <= K; k++) { auto Z = deg == -1 ? D[k - 1] * D[k] : D[k] * D[k - 1]; c.check(Z == RM<F>(Z.m, Z.n), "differential does not square to zero"); c.check(deg == -1 ? C.is_differential(k) : C.is_differential(k - 1), "is_differential is false"); }
    auto w = ref::betti(d); if (aug && d[0].n) w[0]--; 
    auto go = [&](const char* n, const R& r) { c.op(); for (int k = 0; k < K; k++) { c.checkf((int)r.hdim(k) == w[k] && (int)r.betti(k) == w[k], [&] { return string("degree ") + to_string(deg) + (aug ? " augmented " : " ") + FT<F>::name() + " " + n + ": dimension of H in degree " + to_string(k) + " is " + to_string(r.hdim(k)) + ", expected " + to_string(w[k]); }); c.check((int)r.dim(k) == d[k].n, "graded space: chain dimension"); } };
    go("default", R(C)); go("standard", R(C, standard_reduction_flag())); go("extra", R(C, extra_reduction_flag())); go("standard+basis", R(C, standard_reduction_flag(), compute_basis_flag())); go("extra+basis", R(C, extra_reduction_flag(), compute_basis_flag()));
    go("standard+clearing", R(C, standard_reduction_flag(), clearing_flag())); go("extra+clearing", R(C, extra_reduction_flag(), clearing_flag())); go("standard+clearing+basis", R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag())); go("extra+clearing+basis", R(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag())); go("standard+compression", R(C, standard_reduction_flag(), compression_flag())); go("extra+compression", R(C, extra_reduction_flag(), compression_flag()));
}
template <class F, class CpxT> void filtered(mc::Ctx& c, const CpxT& X, const vector<RM<F>>& d, const Vals& v, int deg, bool aug, const string& what) {
    using namespace bats; Filtration<double, CpxT> Fi(X, v); FilteredDGVectorSpace<double, CM<F>> C(Fi, deg, aug); int K = d.size(); auto ord = sort_orders(v); auto want = expected_pairs(d, v, ord);
    auto lo = ord; if (deg == 1) for (auto& o : lo) reverse(o.begin(), o.end());
    for (int k = 0; k < K; k++) { c.check(C.perm[k] == up(lo[k]), "filtered graded space: permutation is not the (reversed) stable sort"); if (k) { auto B = d[k].permrows(lo[k - 1]).permcols(lo[k]); c.check(rdmat<F>(C.complex().differential[k], c, "differential") == (deg == -1 ? B : B.T()), "filtered graded space: differential is not in filtration order"); } }
    if (aug && d[0].n) { auto& w = want[0]; int first = ord[0][0]; w.erase(remove_if(w.begin(), w.end(), [&](const PP& p) { return p.b == first; }), w.end()); }
    each_filtered_dg<F, double>(C, [&](const char* n, const ReducedFilteredDGVectorSpace<double, CM<F>>& R, bool basis) { c.op();
        for (int k = 0; k < K; k++) { auto ps = R.persistence_pairs(k); auto got = got_pairs(ps); c.checkf(got == want[k], [&] { return what + " degree " + to_string(deg) + (aug ? " augmented " : " ") + FT<F>::name() + " " + n + ": dimension " + to_string(k) + " pairs " + str(got) + "expected " + str(want[k]); });
            int inf = 0; for (auto& p : want[k]) inf += p.d < 0; c.check((int)R.hdim(k) == inf, "infinite bars and dimension differ"); auto [bd, inds] = R.persistence_pairs_vec(k); bool ok = bd.size() == 2 * ps.size() && inds.size() == 2 * ps.size(); for (size_t i = 0; ok && i < ps.size(); i++) ok = bd[2 * i] == ps[i].birth && bd[2 * i + 1] == ps[i].death && inds[2 * i] == ps[i].birth_ind && inds[2 * i + 1] == ps[i].death_ind; c.check(ok, "persistence_pairs_vec differs from persistence_pairs");
            auto [bd2, inds2] = R.persistence_pairs_vec(k, true); ok = bd2 == bd && inds2.size() == inds.size(); for (size_t i = 0; ok && i < inds.size(); i++) { bool de = i & 1; ok = inds[i] == bats::NO_IND ? inds2[i] == bats::NO_IND : inds2[i] < C.perm[k + de].size() && C.perm[k + de][inds2[i]] == inds[i]; } c.check(ok, "persistence_pairs_vec: permuted indices do not name the same pairs"); c.check((int)R.maxdim() == K - 1 && (int)C.dim(k) == d[k].n && (int)R.dim(k) == d[k].n, "filtered graded space: dimensions"); } });
    mc::Hash h; for (auto& w : want) { h(w.size()); for (auto& p : w) h(p.b)(p.d); } c.outcome(h.h); for (auto& w : want) for (auto& p : w) if (p.k > 0) c.interesting();
}
template <class F> void unionfind(mc::Ctx& c, const bats::SimplicialComplex& X, const Vals& v) {
    bats::Filtration<double, bats::SimplicialComplex> Fi(X, v); auto C = bats::Chain(Fi, F()); auto a = bats::union_find_pairs(C); auto R = bats::Reduce(C); auto b = R.persistence_pairs(0); c.op();
    auto bars = [](const vector<bats::PersistencePair<double>>& p) { multiset<pair<double, double>> s; for (auto& q : p) s.insert({q.birth, q.death}); return s; }; c.checkf(bars(a) == bars(b), [&] { return "union-find barcode " + str(got_pairs(a)) + "reduction " + str(got_pairs(b)); });
    c.checkf(got_pairs(a) == got_pairs(b), [&] { return "union-find pairs " + str(got_pairs(a)) + "reduction " + str(got_pairs(b)); });
}
static bats::SimplicialComplex sc(const Cells& x, int nv) { return build_complex<bats::SimplicialComplex>(x, nv, mdim(x)); }
template <class F> void all(mc::Ctx& c, const Cells& x, int nv, const Vals& v, int mode) { auto X = sc(x, nv); auto d = dense_complex<F>(bats::Chain(X, F()), c); filtered<F>(c, X, d, v, mode & 1 ? 1 : -1, mode & 2, "simplicial"); }
PART("every complex on 4 vertices, both degrees, plain and augmented") { auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); int how = c.choose(3), mode = c.choose(4); c.shard_here(); x = reorder(x, how); show(c, x); c.state(mc::mix(hcells(x), mode)); auto X = sc(x, 4); auto go = [&](auto z) { typedef decltype(z) F; unfiltered<F>(c, X, dense_complex<F>(bats::Chain(X, F()), c), mode & 1 ? 1 : -1, mode & 2); }; go(F2()); go(F3()); if (!how) go(QQ()); if (mdim(x) > 0) c.interesting(); c.outcome(hcells(x)); }
static const vector<ref::Spx> RP2 = {{0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5}};
PART("sub-surfaces of the projective plane, both degrees") { set<ref::Spx> S; for (int i = 0; i < 6; i++) S.insert({i}); for (auto& t : RP2) if (!c.flip()) { S.insert(t); for (auto& f : ref::faces(t)) S.insert(f); } int mode = c.choose(4); c.shard_here(); Cells x; for (auto& s : ref::all_simplices(6, 2)) if (S.count(s)) x.push_back(s); show(c, x); c.state(mc::mix(hcells(x), mode)); auto X = sc(x, 6); auto go = [&](auto z) { typedef decltype(z) F; unfiltered<F>(c, X, dense_complex<F>(bats::Chain(X, F()), c), mode & 1 ? 1 : -1, mode & 2); }; go(F2()); go(F3()); c.interesting(); c.outcome(hcells(x)); }
PART("5-vertex complexes, both degrees") { auto x = choose_complex(c, 5, 2, true); int tri = 0; for (auto& s : x) tri += s.size() == 3; if (tri > (c.tier ? 10 : 4)) c.prune(); c.shard_here(); int deg = c.flip() ? 1 : -1; c.state(hcells(x)); show(c, x); auto X = sc(x, 5); unfiltered<F2>(c, X, dense_complex<F2>(bats::Chain(X, F2()), c), deg, false); c.interesting(); c.outcome(hcells(x)); }
PART("filtrations on 3 vertices, three values with ties") { auto x = choose_complex(c, 3, 2); if (x.empty()) c.prune(); int how = c.choose(2); x = reorder(x, how); auto v = choose_values(c, x, {-1.5, 0, 2}); c.shard_here(); int mode = c.choose(4); show(c, x); show(c, v); c.state(mc::mix(hcells(x), mc::mix(mode, hvals(v)))); all<F2>(c, x, 3, v, mode); all<F3>(c, x, 3, v, mode); all<QQ>(c, x, 3, v, mode); }
PART("the triangle, every order of its cells") { Cells x{{0},{1},{2},{0,1},{0,2},{1,2},{0,1,2}}; x = reorder(x, c.choose(3)); auto v = choose_linear_extension(c, x); int mode = c.choose(4); c.shard_here(); show(c, v); c.state(mc::mix(mode, mc::mix(hcells(x), hvals(v)))); all<F2>(c, x, 3, v, mode); all<F3>(c, x, 3, v, mode); }
PART("complexes on 4 vertices, two values") { auto x = choose_complex(c, 4, 3, true); x = reorder(x, c.choose(2)); c.shard_here(); if (!c.tier && x.size() > 11 && x.size() < 15 && hcells(x) % 2) c.prune(); auto v = choose_values(c, x, {0, 1}); show(c, x); show(c, v); c.state(mc::mix(hcells(x), hvals(v))); all<F2>(c, x, 4, v, 0); all<F2>(c, x, 4, v, 1); all<F3>(c, x, 4, v, 1); }
PART("hollow tetrahedron, triangles in every order, edge lengths") { Cells x; for (auto& s : ref::all_simplices(4, 2)) x.push_back(s); Vals v{{0, 0, 0, 0}, {}, {}}; for (int e = 0; e < 6; e++) v[1].push_back(c.choose(c.tier ? 4 : 3)); c.shard_here(); auto p = choose_perm(c, 4); for (int t = 0; t < 4; t++) v[2].push_back(4 + p[t]); show(c, v); c.state(hvals(v)); all<F2>(c, x, 4, v, 1); all<F3>(c, x, 4, v, 1); all<F3>(c, x, 4, v, 0); all<F3>(c, x, 4, v, 3); }
PART("projective plane, lower-star filtrations") { vector<double> f(6); for (auto& w : f) w = c.choose(c.tier ? 4 : 3); c.shard_here(); set<ref::Spx> S; for (int i = 0; i < 6; i++) S.insert({i}); for (auto t : RP2) { S.insert(t); for (auto& g : ref::faces(t)) S.insert(g); } Cells x; for (auto& s : ref::all_simplices(6, 2)) if (S.count(s)) x.push_back(s); Vals v(3); for (auto& s : x) { double m = -9; for (int i : s) m = max(m, f[i]); v[s.size() - 1].push_back(m); } show(c, v); c.state(hvals(v)); for (int mode = 0; mode < 4; mode++) { all<F2>(c, x, 6, v, mode); all<F3>(c, x, 6, v, mode); } }
PART_THOROUGH("2-complexes on 4 vertices, every order of their cells") { auto x = choose_complex(c, 4, 2, true); if (x.size() > 11) c.prune(); c.shard_here(); auto v = choose_linear_extension(c, x); c.state(mc::mix(hcells(x), hvals(v))); show(c, x); show(c, v); all<F2>(c, x, 4, v, 1); all<F2>(c, x, 4, v, 0); }
PART("cubical grid, lower-star, both degrees") { bats::CubicalComplex X(2); vector<vector<vector<size_t>>> b(3); for (size_t i = 0; i <= 2; i++) for (size_t j = 0; j <= 1; j++) b[0].push_back({i, i, j, j}); for (size_t i = 0; i < 2; i++) for (size_t j = 0; j <= 1; j++) b[1].push_back({i, i + 1, j, j}); for (size_t i = 0; i <= 2; i++) b[1].push_back({i, i, 0, 1}); for (size_t i = 0; i < 2; i++) b[2].push_back({i, i + 1, 0, 1}); for (auto& r : b) for (auto s : r) X.add(s);
    map<pair<int, int>, double> f; for (int i = 0; i <= 2; i++) for (int j = 0; j <= 1; j++) f[{i, j}] = -1 + c.choose(3); int extra = c.choose(3); c.shard_here(); Vals v(3); for (int k = 0; k < 3; k++) for (auto& s : b[k]) { double m = -9; for (size_t i = s[0]; i <= s[1]; i++) for (size_t j = s[2]; j <= s[3]; j++) m = max(m, f[{(int)i, (int)j}]); v[k].push_back(m + (k == 2 ? extra + 0.5 : 0)); } show(c, v); c.state(hvals(v)); for (int mode = 0; mode < 4; mode++) { filtered<F2>(c, X, dense_complex<F2>(bats::Chain(X, F2()), c), v, mode & 1 ? 1 : -1, mode & 2, "cubical"); filtered<F3>(c, X, dense_complex<F3>(bats::Chain(X, F3()), c), v, mode & 1 ? 1 : -1, mode & 2, "cubical"); } }
PART("union-find persistence equals reduction: graphs on 4 vertices") { Cells x{{0},{1},{2},{3}}; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (c.flip()) x.push_back({i, j}); int how = c.choose(2); c.shard_here(); x = reorder(x, how); auto v = choose_values(c, x, {-1.5, 0, 0.25}); if (v.size() < 2) c.prune(); show(c, x); show(c, v); c.state(mc::mix(hcells(x), hvals(v))); unionfind<F2>(c, sc(x, 4), v); c.interesting(); c.outcome(hvals(v)); }
PART("union-find persistence of complexes without edges") { Cells x{{0},{1},{2}}; Vals v{{(double)c.choose(3), (double)c.choose(3), (double)c.choose(3)}}; c.shard_here(); c.state(hvals(v)); unionfind<F2>(c, sc(x, 3), v); c.outcome(hvals(v)); }
PART("union-find persistence: births differing by less than float resolution") { Cells x{{0},{1},{2},{0,1},{1,2}}; auto p = choose_perm(c, 3); Vals v{{}, {}}; for (int i : p) v[0].push_back(1.0 + i * 1e-12); v[1] = {2.0, 3.0}; if (c.flip()) swap(v[1][0], v[1][1]); c.shard_here(); c.state(mc::mix(c.taken[0], c.taken[1] * 5 + c.taken.back())); show(c, v); unionfind<F3>(c, sc(x, 3), v); c.outcome(p[0]); }
PART("Rips union-find equals reduction of the 1-skeleton") { int n = c.range(2, 4); int m = n * (n - 1) / 2; vector<double> w(m); for (auto& z : w) z = 1 + c.choose(3); c.shard_here(); Cells x; for (int i = 0; i < n; i++) x.push_back({i}); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) x.push_back({i, j}); Vals v{vector<double>(n, 0), w}; show(c, v); c.state(hvals(v)); auto inds = bats::util::stable_sortperm(w); auto a = bats::rips_union_find_pairs(inds, w); auto b = bats::Reduce(bats::Filtration<double, bats::SimplicialComplex>(sc(x, n), v), F2()).persistence_pairs(0); auto bars = [](const vector<bats::PersistencePair<double>>& p) { multiset<pair<double, double>> s; for (auto& q : p) s.insert({q.birth, q.death}); return s; }; c.op(); c.check(bars(a) == bars(b), "Rips union-find barcode differs from reduction"); c.interesting(); c.outcome(hvals(v)); }
PART("edge index arithmetic of Rips union-find") { size_t n = 2 + c.choose(c.tier ? 400 : 120); c.shard_here(); size_t k = 0; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++, k++) { auto [a, b] = bats::binom_to_inds(k, n); c.op(); c.check(a == i && b == j, "binom_to_inds is wrong"); } c.state(n); c.interesting(); c.outcome(n); }
PART("find_parent with path compression") { int n = 5; vector<size_t> par(n); for (int i = 0; i < n; i++) par[i] = c.choose(i + 1); c.shard_here(); auto naive = [&](const vector<size_t>& p, size_t i) { while (p[i] != i) i = p[i]; return i; }; for (int i = 0; i < n; i++) { auto q = par; size_t r = bats::find_parent(q, i); c.op(); c.check(r == naive(par, i), "find_parent returns the wrong root"); for (int j = 0; j < n; j++) c.check(naive(q, j) == naive(par, j), "path compression changed a root"); } mc::Hash h; h.range(par.begin(), par.end()); c.state(h.h); c.interesting(); c.outcome(h.h); }
PART("reduced cochain complex class") { auto x = choose_complex(c, 3, 2); if (x.empty()) c.prune(); c.shard_here(); show(c, x); c.state(hcells(x)); typedef F3 F; auto X = sc(x, 3); auto w = ref::betti(dense_complex<F>(bats::Chain(X, F()), c)); typedef bats::ReducedCochainComplex<CM<F>> RC; c.op(); if (c.survives([&] { RC R{bats::CochainComplex<CM<F>>(X), bats::standard_reduction_flag()}; }) != 0) { c.fail("ReducedCochainComplex crashes", "reduced-cochain-complex"); return; } RC R{bats::CochainComplex<CM<F>>(X), bats::standard_reduction_flag()}; for (size_t k = 0; k < w.size(); k++) c.check((int)R.hdim(k) == w[k], "ReducedCochainComplex reports a wrong cohomology dimension", "reduced-cochain-complex"); c.outcome(hcells(x)); }
// larger complexes and filtrations
PART("larger complexes, both degrees") { int k = c.choose(bigc::N), how = c.choose(4), mode = c.choose(4); int ord = c.choose(2) * 2; c.shard_here(); auto z = bigc::make(k, how); z.x = reorder(z.x, ord); c.state(mc::mix(hcells(z.x), mode)); c << "kind " << k << " part " << how; auto X = sc(z.x, z.nv); unfiltered<F2>(c, X, dense_complex<F2>(bats::Chain(X, F2()), c), mode & 1 ? 1 : -1, mode & 2); unfiltered<F3>(c, X, dense_complex<F3>(bats::Chain(X, F3()), c), mode & 1 ? 1 : -1, mode & 2); c.interesting(); c.outcome(hcells(z.x)); }
PART("larger filtrations, both degrees") { int k = c.choose(bigc::N), how = c.choose(4), vk = c.choose(bigc::NV), mode = c.choose(4); c.shard_here(); auto z = bigc::make(k, how); auto v = bigc::values(z.x, vk); c.state(mc::mix(hcells(z.x), mc::mix(mode, hvals(v)))); c << "kind " << k << " part " << how << " values " << vk; if ((k + vk) % 2) all<F2>(c, z.x, z.nv, v, mode); else all<F3>(c, z.x, z.nv, v, mode); }
PART("union-find persistence of larger complexes") { int k = c.choose(bigc::N), how = c.choose(4), vk = c.choose(bigc::NV); bool graph = c.flip(); c.shard_here(); auto z = bigc::make(k, how); Cells x; for (auto& s : z.x) if (!graph || s.size() < 3) x.push_back(s); auto v = bigc::values(x, vk); c.state(mc::mix(hcells(x), hvals(v))); c << "kind " << k << " part " << how << " values " << vk; unionfind<F2>(c, sc(x, z.nv), v); c.interesting(); c.outcome(hvals(v)); }
PART("union-find persistence of larger graphs") { int n = c.range(8, c.tier ? 60 : 40), p = c.choose((int)patterns().size()), vk = c.choose(bigc::NV); c.shard_here(); Cells x; for (int i = 0; i < n; i++) x.push_back({i}); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (patterns()[p].on(i, j) && (n < 20 || (i + j) % 3)) x.push_back({i, j}); auto v = bigc::values(x, vk); if (v.size() < 2) c.prune(); c.state(mc::mix(hcells(x), hvals(v))); c << n << " vertices, pattern " << p << " values " << vk; unionfind<F2>(c, sc(x, n), v); c.interesting(); c.outcome(hvals(v)); }
