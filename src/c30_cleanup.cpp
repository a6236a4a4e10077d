// C30: sparsifying bases and removing extra cycles keeps reductions valid.
#include "filt.hpp"
#include "big.hpp"
using namespace std;
template <class F> vector<int> pivots(const RM<F>& R) { vector<int> p(R.n, -1); for (int j = 0; j < R.n; j++) { int i = R.m - 1; while (i >= 0 && R(i, j).zero()) i--; p[j] = i; } return p; }
template <class F> int nnz(const RM<F>& A) { int k = 0; for (auto& x : A.a) k += !x.zero(); return k; }
// options that give the same reduction are followed only once (clean-up is a function of it)
template <class RC> bool seen_before(set<string>& seen, const RC& R, mc::Ctx& c) { using F = typename std::decay<decltype(R.R[0][0].nzbegin()->val)>::type; string s; for (size_t k = 0; k < R.R.size(); k++) { s += rdmat<F>(R.R[k], c, "R").str() + '|' + rdmat<F>(R.U[k], c, "U").str() + '|'; for (auto i : R.p2c[k]) s += to_string(i) + ','; s += '|'; for (auto i : R.I[k]) s += to_string(i) + ';'; } return !seen.insert(s).second; }
// compares a reduction after a clean-up step with the one before it; sparse: the step promises not to add non-zeros
template <class F> void step(mc::Ctx& c, const RM<F>& D, const RM<F>& R0, const RM<F>& U0, const CM<F>& R_, const CM<F>& U_, bool identity, bool sparse, const string& what) {
    c.op(); auto R = rdmat<F>(R_, c, "R"), U = rdmat<F>(U_, c, "U"); c.checkf(U.m == U0.m && U.n == U0.n && U.upper() && U.invertible(), [&] { return what + ": basis is no longer invertible upper triangular: " + U.str(); }); c.checkf(pivots<F>(R) == pivots<F>(R0), [&] { return what + ": pivots of the reduced matrix change from " + R0.str() + " to " + R.str() + " with basis " + U0.str() + " to " + U.str(); }); if (identity) c.checkf(D * U == R, [&] { return what + ": the matrix times the basis is " + (D * U).str() + ", not " + R.str(); });
    if (sparse) c.checkf(nnz<F>(R) + nnz<F>(U) <= nnz<F>(R0) + nnz<F>(U0), [&] { return what + ": the basis becomes denser"; }); else c.checkf(R == R0, [&] { return what + ": the reduced matrix changes"; });
}
// every sequence of clean-up steps: bit t of the history chooses between sparsify and remove
template <class F> void on_matrix(mc::Ctx& c, const RM<F>& D, int depth) {
    auto go = [&](const char* n, auto reduce) { auto M = mkmat<F>(D); auto I = CM<F>::identity(D.n); reduce(M, I); for (int hist = 0; hist < 1 << depth; hist++) { auto R = M, U = I; for (int t = 0; t < depth; t++) { auto R0 = rdmat<F>(R, c, "R"), U0 = rdmat<F>(U, c, "U"); bool sp = hist >> t & 1; if (sp) bats::sparsify_basis(R, U); else bats::remove_extra_cycles(R, U); if (t == depth - 1 || hist >> (t + 1) == 0) step<F>(c, D, R0, U0, R, U, true, sp, FT<F>::name() + " " + n + (sp ? " sparsify" : " remove")); } } };
    go("standard", [](auto& M, auto& U) { bats::reduce_matrix(M, U, bats::standard_reduction_flag()); }); go("extra", [](auto& M, auto& U) { bats::reduce_matrix(M, U, bats::extra_reduction_flag()); });
}
template <class F> void matrices(mc::Ctx& c, int m, int n, int k, int depth) { auto D = choose_mat<F>(c, m, n, k); c.shard_here(); mc::Hash h; h(m)(n); string s = D.str(); c.state(hash<string>()(FT<F>::name() + s)); c << FT<F>::name() << s; if (D.rank() < n && D.rank() > 1) c.interesting(); on_matrix<F>(c, D, depth); }
PART("every matrix over F2") { int m = c.range(1, 4), n = c.range(1, 5); if (m * n > (c.tier ? 16 : 12)) c.prune(); matrices<F2>(c, m, n, 2, 3); }
PART("every matrix over F3") { int m = c.range(1, 3), n = c.range(1, 4); if (m * n > (c.tier ? 12 : 9)) c.prune(); matrices<F3>(c, m, n, 3, 2); }
PART("every matrix over Q") { int m = c.range(1, 3), n = c.range(1, 3); if (m * n > (c.tier ? 9 : 6)) c.prune(); matrices<QQ>(c, m, n, c.tier && m * n > 6 ? 3 : 4, 2); }
// wide matrices: sparsification needs long columns
template <class F> void wide(mc::Ctx& c, int m, int n) { RM<F> D(m, n); int a = c.choose(7), b = c.choose(7), e = c.choose(5), q = c.choose(6); c.shard_here(); uint32_t x = 1 + a * 7 + b * 49 + e * 343 + q * 1715 + m * 10290 + n * 97000; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int v = (i * a + j * b + (i * j) * e + i * i * q + (j * j + i) / 3) % (FT<F>::order + 2); D(i, j) = RF<F>(v % FT<F>::order); } c.state(x); c.interesting(); c << D.str(); on_matrix<F>(c, D, 2); }
PART("larger patterned matrices") { int n = c.range(5, c.tier ? 9 : 7), m = c.range(3, c.tier ? 7 : 5); if (c.flip()) wide<F2>(c, m, n); else wide<F3>(c, m, n); }

template <class F> void plain(mc::Ctx& c, const bats::ChainComplex<CM<F>>& C, const string& w) {
    auto d = dense_complex<F>(C, c); set<string> seen; each_reduction<F>(C, [&](const char* n, const bats::ReducedChainComplex<CM<F>>& Q, bool basis) { if (!basis || seen_before(seen, Q, c)) return; for (int hist = 0; hist < 4; hist++) { auto R = Q; string what = w + FT<F>::name() + " " + n; vector<size_t> hd; for (size_t k = 0; k < d.size(); k++) hd.push_back(R.hdim(k)); for (int t = 0; t < 2; t++) { auto R0 = R; bool sp = hist >> t & 1; what += sp ? " sparsify" : " remove"; if (sp) R.sparsify_basis(); else R.remove_extra_cycles(); for (size_t k = 1; k < d.size(); k++) { auto r0 = rdmat<F>(R0.R[k], c, "R"), u0 = rdmat<F>(R0.U[k], c, "U"); step<F>(c, d[k], r0, u0, R.R[k], R.U[k], d[k] * u0 == r0, sp, what + " dimension " + to_string(k)); c.check(R.p2c[k] == Q.p2c[k], what + ": pivot table changes"); } }
        for (size_t k = 0; k < d.size(); k++) c.check(R.hdim(k) == hd[k], what + ": homology dimension changes"); check_rcc<F>(c, d, R, what, true); } });
}
PART("complexes on 4 vertices") { auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); c.shard_here(); x = reorder(x, c.choose(3)); show(c, x); c.state(hcells(x)); auto X = build_complex<bats::SimplicialComplex>(x, 4, mdim(x)); plain<F2>(c, bats::Chain(X, F2()), ""); plain<F3>(c, bats::Chain(X, F3()), ""); if (c.tier) plain<QQ>(c, bats::Chain(X, QQ()), ""); if (mdim(x) > 0) c.interesting(); c.outcome(hcells(x)); }
PART("triangles on 5 vertices") { auto x = choose_complex(c, 5, c.tier ? 3 : 2, true); c.shard_here(); int tri = 0, ed = 0; for (auto& s : x) { tri += s.size() == 3; ed += s.size() == 2; } if (!c.tier && (tri > 2 || ed < 8)) c.prune(); show(c, x); c.state(hcells(x)); auto X = build_complex<bats::SimplicialComplex>(x, 5, mdim(x)); plain<F2>(c, bats::Chain(X, F2()), ""); if (c.tier) plain<F3>(c, bats::Chain(X, F3()), ""); c.interesting(); c.outcome(hcells(x)); }
PART("cell complexes with torsion coefficients") { int ne = c.range(1, 3), nf = c.range(1, 3); if (ne * nf > (c.tier ? 9 : 4)) c.prune(); bats::CellComplex X; X.add_vertices(1); for (int e = 0; e < ne; e++) X.add({}, {}, 1); mc::Hash h; h(ne)(nf); for (int f = 0; f < nf; f++) { vector<size_t> ix; vector<int> co; for (int e = 0; e < ne; e++) { static const int al[] = {0, 1, -2, 3, -1}; int v = al[c.choose(ne * nf > 6 ? 3 : 5)]; h(v + 5); if (v) ix.push_back(e), co.push_back(v); } X.add(ix, co, 2); } c.shard_here(); c.state(h.h); plain<F2>(c, bats::Chain(X, F2()), "cells "); plain<F3>(c, bats::Chain(X, F3()), "cells "); plain<QQ>(c, bats::Chain(X, QQ()), "cells "); c.interesting(); c.outcome(h.h); }

// filtered: barcodes before, between and after clean-up steps and value updates
template <class F> void filtered(mc::Ctx& c, const Cells& x, int nv, const Vals& a, const Vals& b, bool nf = true) {
    using namespace bats; auto X = build_complex<SimplicialComplex>(x, nv, mdim(x)); Filtration<double, SimplicialComplex> Fi(X, a); auto C = Chain(Fi, F()); auto d = dense_complex<F>(Chain(X, F()), c);
    auto judge = [&](ReducedFilteredChainComplex<double, CM<F>>& R, const Vals& v, const string& what) { c.op(); auto ord = sort_orders(v); auto want = expected_pairs(d, v, ord); auto dd = d; for (size_t k = 1; k < d.size(); k++) dd[k] = d[k].permrows(ord[k - 1]).permcols(ord[k]); for (size_t k = 0; k < d.size(); k++) { auto got = got_pairs(R.persistence_pairs(k)); c.checkf(got == want[k], [&] { return what + ": dimension " + to_string(k) + " pairs " + str(got) + "expected " + str(want[k]); }); } check_rcc<F>(c, dd, R.RC, what, nf);
        for (size_t k = 0; k < d.size(); k++) for (auto& p : R.persistence_pairs(k)) if (p.length() > 0 || p.death_ind == NO_IND) { auto r = rdvec<F>(R.representative(p), d[k].n, c, "representative"); c.checkf(zerov(matvec(d[k], r)), [&] { return what + ": representative of a bar is not a cycle"; }); double m = -1e308; bool has = false; for (int i = 0; i < d[k].n; i++) if (!r[i].zero()) { m = max(m, v[k][i]); has |= i == (int)p.birth_ind; } c.checkf(has && m == p.birth, [&] { return what + ": representative of a bar is not born with it"; }); } };
    set<string> seen; each_filtered<F, double>(C, [&](const char* n, const ReducedFilteredChainComplex<double, CM<F>>& Q, bool basis) { if (!basis || seen_before(seen, Q.RC, c)) return; for (int hist = 0; hist < 6; hist++) { auto R = Q; string what = FT<F>::name() + " filtered " + n; if (hist % 3 == 2) { what += " sparsify remove"; R.sparsify_basis(); R.remove_extra_cycles(); } else if (hist % 3 == 1) { what += " sparsify"; R.sparsify_basis(); } else { what += " remove"; R.remove_extra_cycles(); } if (hist < 3) { judge(R, a, what); what += " sparsify"; R.sparsify_basis(); judge(R, a, what); } else { R.update_filtration(b); what += " update"; judge(R, b, what); R.sparsify_basis(); R.remove_extra_cycles(); what += " sparsify remove"; judge(R, b, what); R.update_filtration(a); judge(R, a, what + " update"); } } });
}
PART("filtrations on 3 vertices, clean-up and updates") { auto x = choose_complex(c, 3, 2, true); auto a = choose_values(c, x, {-1, 0, 2}); c.shard_here(); auto ext = choose_values(c, x, {0, 1}); show(c, x); show(c, a); show(c, ext); c.state(mc::mix(hcells(x), mc::mix(hvals(a), hvals(ext)))); if (!c.tier && x.size() > 5) { int odd = 0; for (auto& r : a) for (double w : r) odd += w == 0; if (odd || a[0][0] > a[0][1]) c.prune(); } filtered<F3>(c, x, 3, a, ext); if (c.tier || x.size() < 6) filtered<F2>(c, x, 3, a, ext); if (a != ext && x.size() > 5) c.interesting(); c.outcome(hvals(a)); }
static const vector<ref::Spx> RP2 = {{0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5}};
PART("lower-star filtrations of the projective plane and its parts") { vector<double> f(6); int drop = c.choose(c.tier ? 11 : 3); auto p = choose_perm(c, c.tier ? 5 : 4); for (int i = 0; i < 6; i++) f[i] = i < (int)p.size() ? p[i] : i % 2 ? 1.5 : 5; c.shard_here(); set<ref::Spx> S; for (int i = 0; i < 6; i++) S.insert({i}); for (int t = 0; t < 10; t++) if (t != drop - 1) { S.insert(RP2[t]); for (auto& q : ref::faces(RP2[t])) S.insert(q); } Cells x; for (auto& s : ref::all_simplices(6, 2)) if (S.count(s)) x.push_back(s); auto lower = [&](const vector<double>& f) { Vals v(3); for (auto& s : x) { double m = -9; for (int i : s) m = max(m, f[i]); v[s.size() - 1].push_back(m); } return v; }; auto g = f; reverse(g.begin(), g.end()); show(c, x); auto a = lower(f), b = lower(g); show(c, a); c.state(mc::mix(hcells(x), hvals(a))); c.interesting(); c.outcome(hvals(a)); filtered<F2>(c, x, 6, a, b); filtered<F3>(c, x, 6, a, b); }
// induced maps between cleaned bases
template <class F> void induced(mc::Ctx& c, const Cells& x, const Cells& y) { using namespace bats; auto X = build_complex<SimplicialComplex>(x, 4, mdim(x)), Y = build_complex<SimplicialComplex>(y, 4, mdim(y)); auto f = Chain(CellularMap(X, Y), F()); auto A = Chain(X, F()), B = Chain(Y, F()); auto da = dense_complex<F>(A, c), db = dense_complex<F>(B, c); ReducedChainComplex<CM<F>> RA(A), RB(B); for (int h = 0; h < 9; h++) { auto P = RA, Q = RB; auto cl = [](auto& R, int m) { if (m == 1) R.sparsify_basis(); if (m == 2) { R.remove_extra_cycles(); R.sparsify_basis(); } }; cl(P, h % 3); cl(Q, h / 3); for (size_t k = 0; k <= X.maxdim(); k++) { c.op(); auto M = rdmat<F>(induced_map(f, P, Q, k), c, "induced map"); c.check(M.n == (int)P.hdim(k) && M.m == (int)Q.hdim(k), "induced map: shape"); RM<F> in = k + 1 < db.size() ? db[k + 1] : RM<F>(db[k].n, 0); for (int j = 0; j < M.n; j++) { auto z = rdvec<F>(P.get_preferred_representative(j, k), da[k].n, c, "rep"); auto fz = matvec(rdmat<F>(f[k], c, "chain map"), z); for (int i = 0; i < M.m; i++) { auto w = rdvec<F>(Q.get_preferred_representative(i, k), db[k].n, c, "rep"); for (size_t r = 0; r < fz.size(); r++) fz[r] = fz[r] - M(i, j) * w[r]; } c.check(in_span(in, fz), FT<F>::name() + " induced map between cleaned bases sends a class to the wrong class"); } } } }
PART("induced maps between cleaned bases") { auto y = choose_complex(c, 4, 2, true); if (!c.tier && y.size() < 9) c.prune(); c.shard_here(); int drop = c.choose(1 << 2); Cells x; for (auto& s : y) if ((s.size() < 3 || !(drop & 1)) && !(s.size() == 2 && (drop & 2) && s[1] == 3)) x.push_back(s); Cells x2; for (auto& s : x) { bool ok = true; for (auto& q : ref::faces(s)) ok &= find(x.begin(), x.end(), q) != x.end(); if (ok) x2.push_back(s); } show(c, y); show(c, x2); c.state(mc::mix(hcells(x2), hcells(y))); if (drop) c.interesting(); c.outcome(hcells(y)); induced<F2>(c, x2, y); induced<F3>(c, x2, y); }
// larger complexes and filtrations
PART("larger complexes") { int k = c.choose(bigc::N), how = c.choose(4), fld = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); z.x = reorder(z.x, (k + how) % 3); c.state(mc::mix(hcells(z.x), fld)); c << "kind " << k << " part " << how; auto X = build_complex<bats::SimplicialComplex>(z.x, z.nv, mdim(z.x)); if (fld) plain<F3>(c, bats::Chain(X, F3()), ""); else plain<F2>(c, bats::Chain(X, F2()), ""); c.interesting(); c.outcome(hcells(z.x)); }
PART("larger filtrations, clean-up and updates") { int k = c.choose(bigc::N), how = 1 + c.choose(3), va = c.choose(bigc::NV), vb = (va + 1 + c.choose(3)) % bigc::NV, fld = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); auto a = bigc::values(z.x, va), b = bigc::values(z.x, vb); c.state(mc::mix(hcells(z.x), va * 16 + vb * 2 + fld)); c << "kind " << k << " part " << how << " values " << va << " " << vb; c.interesting(); c.outcome(hvals(a)); if (fld) filtered<F3>(c, z.x, z.nv, a, b, c.tier); else filtered<F2>(c, z.x, z.nv, a, b, c.tier); }
