// C14: inserting, deleting and re-valuing cells incrementally equals recomputing.
#include "big.hpp"
using namespace std;
typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LSC;
template <class CpxT> CpxT mk(const Cells& x, int nv, int md) { return build_complex<CpxT>(x, nv, md); }
template <class CpxT> Vals native_vals(const CpxT& X, const Cells& x, const Vals& v, int md) { Vals w(md + 1); for (int k = 0; k <= md; k++) w[k].resize(X.ncells(k)); vector<size_t> pos(md + 1); for (auto s : x) { int k = (int)s.size() - 1; vector<size_t> t(s.begin(), s.end()); w[k][X.find_idx(t)] = v[k][pos[k]++]; } return w; }
// R = D U, U upper triangular and invertible, R reduced with pivot table p2c
template <class F> void check_factor(mc::Ctx& c, const RM<F>& D, const CM<F>& R_, const CM<F>& U_, const vector<size_t>& p2c, const string& what) {
    auto R = rdmat<F>(R_, c, "R"), U = rdmat<F>(U_, c, "U"); c.checkf(U.m == D.n && U.n == D.n && U.upper() && U.invertible(), [&] { return what + ": recorded basis is not invertible upper triangular " + U.str(); });
    c.checkf(R.m == D.m && R.n == D.n && R == D * U, [&] { return what + ": R = " + R.str() + " is not the matrix of the new filtration " + D.str() + " times the basis " + U.str(); }); vector<int> seen(R.m, -1);
    for (int j = 0; j < R.n; j++) { int i = R.m - 1; while (i >= 0 && R(i, j).zero()) i--; if (i < 0) continue; c.checkf(seen[i] < 0, [&] { return what + ": R is not reduced"; }); seen[i] = j; }
    for (int i = 0; i < R.m; i++) c.checkf(i < (int)p2c.size() && (seen[i] < 0 ? p2c[i] == bats::NO_IND : p2c[i] == (size_t)seen[i]), [&] { return what + ": pivot table is wrong"; });
}
template <class RT> void check_pairs(mc::Ctx& c, const RT& R, const Vals& v, const vector<vector<PP>>& want, const vector<vector<size_t>>& perm, const string& what) {
    c.op(); c.checkf(R.val == v, [&] { return what + ": values of the new filtration not stored"; }); c.checkf(R.perm == perm, [&] { return what + ": permutation is not the sort permutation of the new filtration"; });
    for (size_t k = 0; k < want.size(); k++) { auto got = got_pairs(R.persistence_pairs(k)); c.checkf(got == want[k], [&] { return what + ": dimension " + to_string(k) + " pairs " + str(got) + "expected " + str(want[k]); }); int inf = 0; for (auto& p : want[k]) inf += p.d < 0; c.checkf((int)R.hdim(k) == inf, [&] { return what + ": homology dimension in degree " + to_string(k); }); }
}
template <class F, class FT_> struct Fresh { vector<RM<F>> d; vector<vector<PP>> want; vector<vector<int>> ord; vector<vector<size_t>> perm, rperm; Fresh(mc::Ctx& c, const FT_& Fi) { d = dense_complex<F>(bats::Chain(Fi.complex(), F()), c); ord = sort_orders(Fi.vals()); want = expected_pairs(d, Fi.vals(), ord); for (auto& p : ord) { perm.push_back(up(p)); auto q = up(p); reverse(q.begin(), q.end()); rperm.push_back(q); } }
    RM<F> D(int k) const { return k == 0 ? RM<F>(0, d[0].n) : d[k].permrows(ord[k - 1]).permcols(ord[k]); }
    RM<F> coD(int k) const { auto r = d[k].permrows(vector<int>(rperm[k - 1].begin(), rperm[k - 1].end())).permcols(vector<int>(rperm[k].begin(), rperm[k].end())); return r.T(); } };
template <class F, class FT_> void homological(mc::Ctx& c, const vector<FT_>& Fs, bool every) {
    using namespace bats; vector<Fresh<F, FT_>> fr; for (auto& f : Fs) fr.emplace_back(c, f); int K = Fs[0].maxdim(); typedef ReducedFilteredDGVectorSpace<double, CM<F>> RD; typedef ReducedFilteredChainComplex<double, CM<F>> RC;
    // number of deletions/insertions with boundaries (UpdateInfo2), any field
    FilteredDGVectorSpace<double, CM<F>> G(Fs[0], -1);
    vector<pair<string, RD>> st = {{"default", RD(G)}, {"clearing", RD(G, standard_reduction_flag(), clearing_flag(), compute_basis_flag())}}; if (every) st.push_back({"extra", RD(G, extra_reduction_flag(), compute_basis_flag())});
    for (auto& [n, R0] : st) { auto R = R0; for (size_t t = 1; t < Fs.size(); t++) { UpdateInfo2 UI(Fs[t - 1], Fs[t]); R.update_basis(UI); string w = "update_basis degree -1 " + FT<F>::name() + " from " + n + " step " + to_string(t); check_pairs(c, R, Fs[t].vals(), fr[t].want, fr[t].perm, w); for (int k = 0; k <= K; k++) check_factor<F>(c, fr[t].D(k), R.RC.R[k], R.RC.U[k], R.RC.p2c[k], w + " dimension " + to_string(k)); } }
    FilteredDGVectorSpace<double, CM<F>> H(Fs[0], +1);
    vector<pair<string, RD>> sc = {{"default", RD(H)}, {"clearing", RD(H, standard_reduction_flag(), clearing_flag(), compute_basis_flag())}}; if (every) sc.push_back({"extra", RD(H, extra_reduction_flag(), compute_basis_flag())});
    for (auto& [n, R0] : sc) { auto R = R0; for (size_t t = 1; t < Fs.size(); t++) { UpdateInfo2 UI(Fs[t - 1], Fs[t]); R.update_basis(UI); string w = "update_basis degree +1 " + FT<F>::name() + " from " + n + " step " + to_string(t); check_pairs(c, R, Fs[t].vals(), fr[t].want, fr[t].rperm, w); for (int k = 1; k <= K; k++) check_factor<F>(c, fr[t].coD(k), R.RC.R[k], R.RC.U[k], R.RC.p2c[k], w + " matrix " + to_string(k)); } }
    if constexpr (std::is_same<F, F2>::value) { // Update_info: mod 2 only
        auto C = Chain(Fs[0], F()); vector<pair<string, RC>> s = {{"default", RC(C)}, {"clearing", RC(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag())}};
        for (auto& [n, R0] : s) for (int how = 0; how < 3; how++) { auto R = R0; for (size_t t = 1; t < Fs.size(); t++) { Update_info<FT_> UI(Fs[t - 1], Fs[t]); if (how == 0) R.update_filtration_general(UI); else if (how == 1) R.update_filtration_general(UI, standard_reduction_flag()); else R.update_filtration_general(UI, extra_reduction_flag()); string w = "update_filtration_general (reduced chain complex, variant " + to_string(how) + ") from " + n + " step " + to_string(t); check_pairs(c, R, Fs[t].vals(), fr[t].want, fr[t].perm, w); for (int k = 1; k <= K; k++) check_factor<F>(c, fr[t].D(k), R.RC.R[k], R.RC.U[k], R.RC.p2c[k], w + " dimension " + to_string(k)); } }
        for (int deg : {-1, 1}) for (int how = 0; how < 3; how++) { RD R(deg == -1 ? G : H); for (size_t t = 1; t < Fs.size(); t++) { Update_info<FT_> UI(Fs[t - 1], Fs[t]); if (how == 0) R.update_filtration_general(UI); else if (how == 1) R.update_filtration_general(UI, standard_reduction_flag()); else R.update_filtration_general_clearing(UI, standard_reduction_flag()); string w = "update_filtration_general (graded, degree " + to_string(deg) + ", variant " + to_string(how) + ") step " + to_string(t); check_pairs(c, R, Fs[t].vals(), fr[t].want, deg == -1 ? fr[t].perm : fr[t].rperm, w); for (int k = 1; k <= K; k++) check_factor<F>(c, deg == -1 ? fr[t].D(k) : fr[t].coD(k), R.RC.R[k], R.RC.U[k], R.RC.p2c[k], w + " matrix " + to_string(k)); } }
        for (size_t t = 1; t < Fs.size(); t++) { Update_info<FT_> UI(Fs[t - 1], Fs[t]); C.update_filtration_general(UI); auto D = Chain(Fs[t], F()); c.op(); c.check(C.val == D.val && C.perm == D.perm, "updated filtered chain complex: values or permutation"); for (int k = 1; k <= K; k++) c.checkf(rdmat<F>(C.C.boundary[k], c, "boundary") == rdmat<F>(D.C.boundary[k], c, "boundary"), [&] { return "updated filtered chain complex: boundary " + to_string(k) + " is " + rdmat<F>(C.C.boundary[k], c, "b").str() + " expected " + rdmat<F>(D.C.boundary[k], c, "b").str(); }); }
    }
}
struct Fil { Cells x; Vals v; };
static void go(mc::Ctx& c, const vector<Fil>& fs, int nv, int md, bool light, bool every) {
    mc::Hash h; for (auto& f : fs) { show(c, f.x); show(c, f.v); h(hcells(f.x)); h(hvals(f.v)); } c.state(h.h); c.outcome(h.h); if (fs[0].x != fs[1].x) c.interesting();
    auto run = [&](auto tag) { typedef decltype(tag) CpxT; typedef bats::Filtration<double, CpxT> FT_; vector<FT_> Fs; for (auto& f : fs) { auto X = mk<CpxT>(f.x, nv, md); Fs.emplace_back(X, native_vals(X, f.x, f.v, md)); } homological<F2>(c, Fs, every); homological<F3>(c, Fs, every); };
    if (light) run(LSC(nv, md)); else run(bats::SimplicialComplex());
}
static Fil fil(mc::Ctx& c, int nv, int md, const vector<double>& al, bool allv) { Fil f; f.x = choose_complex(c, nv, md, allv); if (f.x.empty()) c.prune(); f.v = choose_values(c, f.x, al); return f; }
PART("every pair of filtrations on 2 vertices, with cell orders and two representations") { auto a = fil(c, 2, 1, {0, 1, 2}, false), b = fil(c, 2, 1, {-1, 0.5, 2}, false); c.shard_here(); b.x = reorder(b.x, c.choose(2)); b.v = choose_values(c, b.x, {0.5, 1}); go(c, {a, b, a}, 2, 1, c.flip(), true); }
PART("every pair of filtrations on 3 vertices") { auto a = fil(c, 3, 2, {0, 1}, false); c.shard_here(); auto b = fil(c, 3, 2, {0, 1}, false); go(c, {a, b}, 3, 2, false, false); }
PART("light complexes and reordered cells on 3 vertices") { Fil a; a.x = choose_complex(c, 3, 2); if (a.x.empty()) c.prune(); a.x = reorder(a.x, c.choose(3)); a.v = choose_values(c, a.x, {0, 2}); c.shard_here(); Fil b; b.x = reorder(choose_complex(c, 3, 2), 1); if (b.x.empty()) c.prune(); b.v = choose_values(c, b.x, {1}); go(c, {a, b, a}, 3, 2, c.flip(), true); }
PART("graphs: every pair of edge sets on 4 vertices") { auto mkg = [&](int vals) { Fil f; f.v.resize(2); for (int i = 0; i < 4; i++) { f.x.push_back({i}); f.v[0].push_back(vals == 2 && i == 1 ? 0.5 : 0); } for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { int r = c.choose(vals + 1); if (r) { f.x.push_back({i, j}); f.v[1].push_back(r); } } return f; }; auto a = mkg(1); c.shard_here(); auto b = mkg(c.tier ? 2 : 1); go(c, {a, b, a}, 4, 1, false, false); }
PART("2-complexes: every pair of sets of triangles of the tetrahedron") { auto mkt = [&](int s) { Fil f; set<ref::Spx> S; f.v.resize(3); int full = 0; vector<ref::Spx> T; for (auto& t : ref::all_simplices(4, 2)) if (t.size() == 3) T.push_back(t); for (auto& t : T) if (c.flip()) { full++; S.insert(t); for (auto& e : ref::faces(t)) { S.insert(e); for (auto& q : ref::faces(e)) S.insert(q); } } if (S.empty()) c.prune(); for (auto& t : ref::all_simplices(4, 2)) if (S.count(t)) { f.x.push_back(t); f.v[t.size() - 1].push_back(t.size() == 1 ? 0 : t.size() == 2 ? (t[0] + t[1] + s) % 3 : 2 + (t[0] + 2 * t[1] + s * t[2]) % 3); } return f; }; auto a = mkt(c.choose(3)), b = mkt(c.choose(3)); c.shard_here(); auto d = mkt(0); go(c, {a, b, d}, 4, 2, false, true); }
PART("chains of three filtrations: add, delete and re-order in turn") { auto a = fil(c, 3, 1, {0, 1}, true); c.shard_here(); auto b = fil(c, 3, 1, {0, 1}, true); auto d = fil(c, 3, 1, {0}, true); go(c, {a, b, d}, 3, 1, false, false); }
PART("Rips filtrations at two scales") { vector<double> xs; for (int i = 0; i < 4; i++) xs.push_back(c.choose(3)); c.shard_here(); vector<double> ys; for (int i = 0; i < 4; i++) ys.push_back(c.choose(3) + (i == 2)); double r = 1 + c.choose(2); auto rips = [&](const vector<double>& p, double r) { Fil f; f.v.resize(3); for (auto& s : ref::all_simplices(4, 2)) { double d = 0; for (int a : s) for (int b : s) d = max(d, abs(p[a] - p[b])); if (d <= r) { f.x.push_back(s); f.v[s.size() - 1].push_back(d); } } return f; }; auto a = rips(xs, r), b = rips(ys, 1); go(c, {a, b}, 4, 2, c.flip(), false); }
PART("larger complexes: pairs of filtrations with cells added and removed") { int kind = c.choose(bigc::N), h1 = c.choose(4), h2 = c.choose(4), a = c.choose(bigc::NV), b = c.choose(bigc::NV); if (!c.tier && (kind + h1 + 2 * h2 + a + b) % 5) c.prune(); c.shard_here(); auto y = bigc::make(kind, h1), z = bigc::make(kind, h2); if (y.x.size() > (c.tier ? 140 : 80) || z.x.size() > (c.tier ? 140 : 80)) c.prune(); int md = max(mdim(y.x), mdim(z.x)); y.x = reorder(y.x, a % 3); z.x = reorder(z.x, b % 3); Fil f{y.x, bigc::values(y.x, a)}, g{z.x, bigc::values(z.x, b)}; f.v.resize(md + 1); g.v.resize(md + 1); go(c, {f, g, f}, y.nv, md, (a + b) % 2, false); }
