// C08: homology ranks for every complex, coefficient field and option.
#include "big.hpp"
using namespace std;

template <class F> void check_ranks(mc::Ctx& c, const bats::ChainComplex<CM<F>>& C, const vector<int>& want, const char* what) {
    auto cmp = [&](const string& name, const bats::ReducedChainComplex<CM<F>>& R) {
        c.op();
        c.checkf(R.maxdim() + 1 == C.boundary.size(), [&] { return string(what) + " " + name + ": wrong top dimension"; });
        long chi = 0, chic = 0;
        for (size_t k = 0; k < C.boundary.size(); k++) {
            int w = k < want.size() ? want[k] : 0;
            c.checkf((int)R.hdim(k) == w && (int)R.betti(k) == w, [&] { return string(what) + " " + FT<F>::name() + " " + name + ": dim H_" + to_string(k) + " = " + to_string(R.hdim(k)) + ", expected " + to_string(w); });
            c.checkf(R.dim(k) == C.dim(k), [&] { return string(what) + " " + name + ": chain dimension changed"; });
            chi += (k & 1 ? -1 : 1) * (long)R.hdim(k); chic += (k & 1 ? -1 : 1) * (long)C.dim(k);
        }
        c.checkf(chi == chic, [&] { return string(what) + " " + name + ": Euler characteristic mismatch"; });
    };
    each_reduction<F>(C, [&](const char* n, const bats::ReducedChainComplex<CM<F>>& R, bool) { cmp(n, R); });
    { auto D = C; D.clear_compress_apparent_pairs(); c.op(); cmp("apparent pairs preprocessing", bats::ReducedChainComplex<CM<F>>(D, bats::standard_reduction_flag())); cmp("apparent pairs preprocessing, extra", bats::ReducedChainComplex<CM<F>>(D, bats::extra_reduction_flag())); }
    uint64_t h = 3; for (int w : want) h = mc::mix(h, w); c.outcome(h);
    if (want.size() > 1 && want[1] > 0) c.interesting();
}
template <class F, class X> void simp(mc::Ctx& c, const X& cpx, const Cells& cells, const char* what) {
    auto w = ref::betti(ref::complex_of<RF<F>>(ref::by_dim(cells)));
    auto C = bats::Chain(cpx, F());
    check_ranks<F>(c, C, w, what);
    auto R = bats::Reduce(cpx, F()); auto R2 = bats::Reduce(cpx, F(), bats::standard_reduction_flag(), bats::clearing_flag(), bats::compute_basis_flag()); c.op(2);
    for (size_t k = 0; k < w.size(); k++) c.check((int)R.hdim(k) == w[k] && (int)R2.hdim(k) == w[k], "Reduce(complex) gives a different homology rank");
}
static Cells reorder(mc::Ctx&, Cells x, int how) { // different index orders inside the dimensions
    if (how == 1) { auto b = ref::by_dim(x); x.clear(); for (auto& v : b) { std::reverse(v.begin(), v.end()); for (auto& s : v) x.push_back(s); } }
    if (how == 2) { auto b = ref::by_dim(x); x.clear(); for (auto& v : b) { if (v.size() > 2) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end()); for (size_t i = 0; i + 1 < v.size(); i += 2) swap(v[i], v[i + 1]); for (auto& s : v) x.push_back(s); } }
    return x;
}
PART("simplicial complexes on 4 vertices") {
    auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); c.shard_here(); x = reorder(c, x, c.choose(3)); show(c, x); c.state(hcells(x));
    auto X = build_complex<bats::SimplicialComplex>(x, 4, 3);
    simp<F2>(c, X, x, "simplicial"); simp<F3>(c, X, x, "simplicial"); simp<F5>(c, X, x, "simplicial"); simp<QQ>(c, X, x, "simplicial");
    typedef bats::LightSimplicialComplex<size_t> L; L Y(4, 3); for (auto& s : x) Y.add(up(s));
    simp<F2>(c, Y, x, "light simplicial"); simp<F3>(c, Y, x, "light simplicial");
}
PART("simplicial complexes on 5 vertices") {
    auto x = choose_complex(c, 5, 4, true); c.shard_here(); x = reorder(c, x, c.choose(c.tier ? 3 : 2)); show(c, x); c.state(hcells(x));
    auto X = build_complex<bats::SimplicialComplex>(x, 5, 4);
    simp<F2>(c, X, x, "simplicial"); simp<F3>(c, X, x, "simplicial"); if (c.tier) simp<QQ>(c, X, x, "simplicial");
}
PART_THOROUGH("graphs and 2-complexes on 6 vertices (2-skeleton prefix)") {
    // every graph on 6 vertices, completed by its clique triangles chosen by parity classes
    Cells x; for (int i = 0; i < 6; i++) x.push_back({i}); set<ref::Spx> E; for (int i = 0; i < 6; i++) for (int j = i + 1; j < 6; j++) if (c.flip()) { x.push_back({i, j}); E.insert({i, j}); }
    c.shard_here(); int par = c.choose(3);
    for (auto& s : ref::all_simplices(6, 2)) if (s.size() == 3 && E.count({s[0], s[1]}) && E.count({s[0], s[2]}) && E.count({s[1], s[2]}) && (par == 2 || (s[0] + s[1] + s[2]) % 2 == par)) x.push_back(s);
    show(c, x); c.state(hcells(x)); auto X = build_complex<bats::SimplicialComplex>(x, 6, 2); simp<F2>(c, X, x, "simplicial"); simp<F3>(c, X, x, "simplicial");
}
static const vector<ref::Spx> RP2 = {{0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5}};
PART("sub-surfaces of the 6-vertex projective plane (torsion)") {
    Cells tri; for (auto& t : RP2) if (!c.flip()) tri.push_back(t); c.shard_here();
    vector<int> p(6); iota(p.begin(), p.end(), 0); int rot = c.choose(c.tier ? 12 : 3); for (int r = 0; r < rot; r++) next_permutation(p.begin(), p.end()), rotate(p.begin(), p.begin() + 1, p.end());
    set<ref::Spx> S; for (int i = 0; i < 6; i++) S.insert({p[i]}); for (auto t : tri) { for (auto& v : t) v = p[v]; sort(t.begin(), t.end()); S.insert(t); for (auto& f : ref::faces(t)) S.insert(f); }
    Cells x; for (auto& s : ref::all_simplices(6, 2)) if (S.count(s)) x.push_back(s); show(c, x); c.state(hcells(x));
    auto X = build_complex<bats::SimplicialComplex>(x, 6, 2); simp<F2>(c, X, x, "RP2"); simp<F3>(c, X, x, "RP2"); simp<QQ>(c, X, x, "RP2");
}
template <class F> void rel(mc::Ctx& c, const Cells& x, const Cells& a, const bats::SimplicialComplex& X, const bats::SimplicialComplex& A) {
    set<ref::Spx> as(a.begin(), a.end()); vector<vector<ref::Spx>> q; auto b = ref::by_dim(x); for (auto& v : b) { vector<ref::Spx> w; for (auto& s : v) if (!as.count(s)) w.push_back(s); q.push_back(w); }
    auto want = ref::betti(ref::complex_of<RF<F>>(q));
    check_ranks<F>(c, bats::Chain(X, A, F()), want, "relative");
    auto C = bats::Chain(X, F()); auto inds = X.get_indices(A); check_ranks<F>(c, C.relative_complex(inds), want, "relative (from chain complex)");
    auto inds2 = X.get_indices(A); check_ranks<F>(c, C.subcomplex(inds2), ref::betti(ref::complex_of<RF<F>>(ref::by_dim(a))), "subcomplex (from chain complex)");
}
PART("relative homology of all pairs on 4 vertices") {
    auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune();
    set<ref::Spx> in; Cells a; for (auto& s : x) { bool ok = true; for (auto& f : ref::faces(s)) if (!in.count(f)) ok = false; if (ok && c.flip()) { in.insert(s); a.push_back(s); } }
    c.shard_here(); show(c, x); c << "rel "; show(c, a); c.state(mc::mix(hcells(x), hcells(a)));
    int md = 0; for (auto& s : x) md = max(md, (int)s.size() - 1);
    auto X = build_complex<bats::SimplicialComplex>(x, 4, md), A = build_complex<bats::SimplicialComplex>(a, 4, md);
    rel<F2>(c, x, a, X, A); rel<F3>(c, x, a, X, A);
}
PART("tensor products obey Kunneth") {
    auto x = choose_complex(c, 3, 2), y = choose_complex(c, c.tier ? 4 : 3, c.tier ? 3 : 2); if (x.empty() || y.empty()) c.prune(); c.shard_here(); show(c, x); c << "x "; show(c, y); c.state(mc::mix(hcells(x), hcells(y)));
    auto go = [&](auto f) { typedef decltype(f) F; 
        int mx = 0, my = 0; for (auto& s : x) mx = max(mx, (int)s.size() - 1); for (auto& s : y) my = max(my, (int)s.size() - 1);
        auto A = bats::Chain(build_complex<bats::SimplicialComplex>(x, 3, mx), F()), B = bats::Chain(build_complex<bats::SimplicialComplex>(y, 4, my), F());
        auto bx = ref::betti(ref::complex_of<RF<F>>(ref::by_dim(x))), by = ref::betti(ref::complex_of<RF<F>>(ref::by_dim(y)));
        vector<int> w(bx.size() + by.size() - 1, 0); for (size_t i = 0; i < bx.size(); i++) for (size_t j = 0; j < by.size(); j++) w[i + j] += bx[i] * by[j];
        auto T = tensor_product(A, B); c.check(T.is_valid_complex(), "tensor product boundary does not square to zero");
        check_ranks<F>(c, T, w, "tensor product"); };
    go(F2()); go(F3());
}
// cubical complexes: every downward closed set of elementary cubes of a small grid
static vector<vector<size_t>> grid_cubes(const vector<int>& n) { // all cubes, by dimension
    vector<vector<size_t>> out; int D = n.size(); 
    for (int d = 0; d <= D; d++) { function<void(int, vector<size_t>, int)> go = [&](int i, vector<size_t> s, int k) { if (i == D) { if (k == d) out.push_back(s); return; } for (int a = 0; a <= n[i]; a++) { auto t = s; t.push_back(a); t.push_back(a); go(i + 1, t, k); if (a < n[i]) { t = s; t.push_back(a); t.push_back(a + 1); go(i + 1, t, k + 1); } } }; go(0, {}, 0); }
    return out;
}
static int cdim(const vector<size_t>& s) { int d = 0; for (size_t i = 0; i < s.size(); i += 2) d += s[i + 1] != s[i]; return d; }
static vector<vector<size_t>> cfaces(const vector<size_t>& s) { vector<vector<size_t>> f; for (size_t i = 0; i < s.size(); i += 2) if (s[i] != s[i + 1]) { auto t = s; t[i] = s[i + 1]; f.push_back(t); t = s; t[i + 1] = s[i]; f.push_back(t); } return f; }
template <class F> void cub(mc::Ctx& c, const bats::CubicalComplex& X, const vector<vector<vector<size_t>>>& b) {
    vector<RM<F>> d; for (size_t k = 0; k < b.size(); k++) { RM<F> B(k ? b[k - 1].size() : 0, b[k].size()); if (k) for (size_t j = 0; j < b[k].size(); j++) { int sg = 1; auto& s = b[k][j]; for (size_t i = 0; i < s.size(); i += 2) if (s[i] != s[i + 1]) { auto t = s; t[i] = s[i + 1]; auto u = s; u[i + 1] = s[i]; int a = find(b[k - 1].begin(), b[k - 1].end(), t) - b[k - 1].begin(), e = find(b[k - 1].begin(), b[k - 1].end(), u) - b[k - 1].begin(); B(a, j) = RF<F>(sg); B(e, j) = RF<F>(-sg); sg = -sg; } } d.push_back(B); }
    check_ranks<F>(c, bats::Chain(X, F()), ref::betti(d), "cubical");
}
static void cubical_part(mc::Ctx& c, const vector<int>& n, bool allv) {
    set<vector<size_t>> in; vector<vector<vector<size_t>>> b(n.size() + 1); bats::CubicalComplex X(n.size()); size_t nv = 0;
    for (auto& s : grid_cubes(n)) { bool ok = true; for (auto& f : cfaces(s)) if (!in.count(f)) ok = false; if (!ok) continue; if ((allv && cdim(s) == 0) || c.flip()) { in.insert(s); b[cdim(s)].push_back(s); nv++; } if (cdim(s) == 1 && !c.sharded && nv > 5) c.shard_here(); }
    if (in.empty()) c.prune(); c.shard_here(); mc::Hash h; for (auto& s : in) h.range(s.begin(), s.end()); c.state(h.h); c << in.size() << " cubes";
    for (auto& v : b) for (auto s : v) X.add(s);
    cub<F2>(c, X, b); cub<F3>(c, X, b);
}
PART("cubical complexes in a 2x1 grid") { cubical_part(c, {2, 1}, false); }
PART("cubical complexes in a 2x2 grid, all vertices") { if (!c.tier) { cubical_part(c, {1, 1}, false); return; } cubical_part(c, {2, 2}, true); }
PART("cubical complexes in a 3-cube, all vertices") { cubical_part(c, {1, 1, 1}, true); }
PART("cell complexes: every attaching matrix") {
    // one or two vertices, up to 3 one-cells, 2-cells with every small integer boundary that is a cycle, a 3-cell likewise
    int nv = c.range(1, 2), ne = c.range(1, 3); bats::CellComplex X; X.add_vertices(nv); vector<vector<int>> d1(nv, vector<int>(ne, 0));
    for (int e = 0; e < ne; e++) { if (nv == 2 && c.flip()) { X.add({0, 1}, {-1, 1}, 1); d1[0][e] = -1; d1[1][e] = 1; } else X.add({}, {}, 1); }
    int nf = c.range(0, 2); vector<vector<int>> d2(ne, vector<int>(nf, 0));
    for (int f = 0; f < nf; f++) { vector<size_t> ix; vector<int> co; for (int e = 0; e < ne; e++) { int v = c.range(0, ne == 3 && !c.tier ? 2 : 4) ; v = (v == 0 ? 0 : v == 1 ? 1 : v == 2 ? -2 : v == 3 ? 3 : -1); d2[e][f] = v; if (v) { ix.push_back(e); co.push_back(v); } } for (int v = 0; v < nv; v++) { int s = 0; for (int e = 0; e < ne; e++) s += d1[v][e] * d2[e][f]; if (s) c.prune(); } X.add(ix, co, 2); }
    c.shard_here(); c << nv << " vertices " << ne << " edges " << nf << " faces"; mc::Hash h; h(nv)(ne)(nf); for (auto& r : d1) for (int v : r) h(v + 10); for (auto& r : d2) for (int v : r) h(v + 10); c.state(h.h);
    c.check(X.ncells() == (size_t)(nv + ne + nf) && X.ncells(0) == (size_t)nv && X.ncells(1) == (size_t)ne && X.ncells(2) == (size_t)nf, "cell complex: numbers of cells"); for (int k = 1; k <= (nf ? 2 : 1); k++) { auto B = X.boundary(k); auto& w = k == 1 ? d1 : d2; int N = k == 1 ? ne : nf; bool ok = B.ncol() == (size_t)N && B.nrow() == w.size(); for (size_t i = 0; ok && i < w.size(); i++) for (int j = 0; ok && j < N; j++) ok = B(i, j) == w[i][j]; c.check(ok, "cell complex: integer boundary"); }
    auto go = [&](auto f) { typedef decltype(f) F; vector<RM<F>> d{RM<F>(0, nv), RM<F>(nv, ne)}; for (int i = 0; i < nv; i++) for (int j = 0; j < ne; j++) d[1](i, j) = RF<F>(d1[i][j]); if (nf) { d.push_back(RM<F>(ne, nf)); for (int i = 0; i < ne; i++) for (int j = 0; j < nf; j++) d[2](i, j) = RF<F>(d2[i][j]); }
        check_ranks<F>(c, bats::Chain(X, F()), ref::betti(d), "cell complex"); };
    go(F2()); go(F3()); go(F5()); go(QQ());
}
PART("larger complexes: skeleta, surfaces with holes, suspensions, flag complexes") {
    int kind = c.choose(bigc::N), how = c.choose(4), ord = c.choose(3); c.shard_here(); auto z = bigc::make(kind, how); auto x = reorder(c, z.x, ord); c << "kind " << kind << " how " << how << " order " << ord; c.state(hcells(x));
    int md = 0; for (auto& s : x) md = max(md, (int)s.size() - 1); auto X = build_complex<bats::SimplicialComplex>(x, z.nv, md); simp<F2>(c, X, x, "larger"); simp<F3>(c, X, x, "larger"); if (!how) simp<QQ>(c, X, x, "larger"); bats::LightSimplicialComplex<size_t> Y(z.nv, md); for (auto& s : x) Y.add(up(s)); simp<F3>(c, Y, x, "larger light");
    Cells a; for (auto& s : x) if (how % 2 ? (int)s.size() <= md : s.back() < z.nv / 2) a.push_back(s); auto A = build_complex<bats::SimplicialComplex>(a, z.nv, md); rel<F2>(c, x, a, X, A); rel<F3>(c, x, a, X, A); }
