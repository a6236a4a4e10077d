// C10: maps induced on homology. The matrix is judged column by column: f(z_j) - sum_i M_ij w_i must be a boundary (this determines M).
#include "reps.hpp"
#include "big.hpp"
using namespace std;
template <class F> using Rcc = bats::ReducedChainComplex<CM<F>>;
template <class F> vector<vector<RF<F>>> reps_of(mc::Ctx& c, const Rcc<F>& R, size_t k) { vector<vector<RF<F>>> z; for (size_t j = 0; j < R.hdim(k); j++) z.push_back(rdvec<F>(R.get_preferred_representative(j, k), R.dim(k), c, "representative")); return z; }
// din: boundary into the target's degree
template <class F> int judge(mc::Ctx& c, const RM<F>& f, const RM<F>& din, const vector<vector<RF<F>>>& zc, const vector<vector<RF<F>>>& zd, const CM<F>& M, const string& what) {
    c.op(); auto m = rdmat<F>(M, c, "induced map"); c.checkf(m.m == (int)zd.size() && m.n == (int)zc.size(), [&] { return what + ": induced map has shape " + to_string(m.m) + "x" + to_string(m.n); });
    for (size_t j = 0; j < zc.size(); j++) { auto y = matvec(f, zc[j]); for (size_t i = 0; i < zd.size(); i++) for (size_t r = 0; r < y.size(); r++) y[r] = y[r] - m((int)i, (int)j) * zd[i][r];
        c.checkf(in_span(din, y), [&] { return what + ": column " + to_string(j) + " of the induced map is not the class of the image"; }); }
    return m.rank();
}
template <class F> RM<F> into(const vector<RM<F>>& d, size_t k) { return k + 1 < d.size() ? d[k + 1] : RM<F>(d[k].n, 0); }
template <class F> vector<pair<string, Rcc<F>>> with_basis(const bats::ChainComplex<CM<F>>& C) { vector<pair<string, Rcc<F>>> v; each_reduction<F>(C, [&](const char* n, const Rcc<F>& R, bool b) { if (b) v.push_back({n, R}); }); return v; }
template <class F> void judge_all(mc::Ctx& c, const bats::ChainMap<CM<F>>& f, const vector<RM<F>>& fd, const bats::ChainComplex<CM<F>>& C, const bats::ChainComplex<CM<F>>& D, const string& what, bool every_pair) {
    auto dd = dense_complex<F>(D, c); auto A = with_basis<F>(C), B = with_basis<F>(D);
    for (size_t a = 0; a < A.size(); a++) for (size_t b = 0; b < B.size(); b++) if (every_pair || a == 0 || b == 0 || a == b)
        for (size_t k = 0; k < fd.size(); k++) judge<F>(c, fd[k], into<F>(dd, k), reps_of<F>(c, A[a].second, k), reps_of<F>(c, B[b].second, k), bats::induced_map(f, A[a].second, B[b].second, k), what + " " + FT<F>::name() + " [" + A[a].first + " -> " + B[b].first + "] degree " + to_string(k));
}
// dense chain map of a vertex map
template <class F> vector<RM<F>> dense_map(const Cells& x, const Cells& y, const vector<int>& f, int md) {
    auto bx = ref::by_dim(x), by = ref::by_dim(y); vector<RM<F>> r;
    for (int k = 0; k <= md; k++) { RM<F> m(k < (int)by.size() ? (int)by[k].size() : 0, k < (int)bx.size() ? (int)bx[k].size() : 0);
        for (int j = 0; j < m.n; j++) { ref::Spx t; for (int v : bx[k][j]) t.push_back(f[v]); int sg = 1; bool deg = false; for (size_t a = 0; a < t.size(); a++) for (size_t b = a + 1; b < t.size(); b++) { if (t[a] == t[b]) deg = true; if (t[a] > t[b]) sg = -sg; } if (deg) continue; sort(t.begin(), t.end()); int i = find(by[k].begin(), by[k].end(), t) - by[k].begin(); m(i, j) = RF<F>(sg); } r.push_back(m); }
    return r;
}
static bool simplicial(const Cells& x, const Cells& y, const vector<int>& f) { set<ref::Spx> Y(y.begin(), y.end()); for (auto& s : x) { set<int> t; for (int v : s) t.insert(f[v]); if (!Y.count(ref::Spx(t.begin(), t.end()))) return false; } return true; }
static bool surj_h(const vector<int>&) { return true; }
template <class F> void graded(mc::Ctx& c, const bats::SimplicialComplex& X, const bats::SimplicialComplex& Y, const bats::CellularMap& f, const vector<RM<F>>& fd, bool aug) {
    using namespace bats; typedef ReducedDGVectorSpace<CM<F>> R;
    for (int deg : {-1, 1}) {
        DGVectorSpace<CM<F>> CX(X, deg, aug), CY(Y, deg, aug); DGLinearMap<CM<F>> f_(f, deg);
        vector<pair<const char*, function<R(const DGVectorSpace<CM<F>>&)>>> mk = {{"default", [](auto& C) { return R(C); }}, {"standard", [](auto& C) { return R(C, standard_reduction_flag(), compute_basis_flag()); }}, {"extra", [](auto& C) { return R(C, extra_reduction_flag(), compute_basis_flag()); }}, {"clearing", [](auto& C) { return R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()); }}};
        for (size_t a = 0; a < mk.size(); a++) for (size_t b = 0; b < mk.size(); b++) if (a == 0 || b == 0 || a == b) {
            auto rx = mk[a].second(CX), ry = mk[b].second(CY); auto& src = deg == -1 ? rx : ry; auto& dst = deg == -1 ? ry : rx; auto& CD = deg == -1 ? CY : CX;
            for (size_t k = 0; k < fd.size(); k++) { auto g = deg == -1 ? fd[k] : fd[k].T(); auto din = rdmat<F>(CD.differential[deg == -1 ? k + 1 : k], c, "differential"); 
                auto reps = [&](const R& r) { vector<vector<RF<F>>> z; for (size_t j = 0; j < r.hdim(k); j++) z.push_back(rdvec<F>(r.get_preferred_representative(j, k), (&r == &src) ? g.n : g.m, c, "representative")); return z; };
                judge<F>(c, g, din, reps(src), reps(dst), induced_map(f_, src, dst, k), "graded degree " + to_string(deg) + (aug ? " augmented " : " ") + FT<F>::name() + " [" + mk[a].first + ", " + mk[b].first + "] dimension " + to_string(k)); } } }
}
static void with_case(mc::Ctx& c, int nx, int ny, int dx, int dy, bool allv, function<void(const Cells&, const Cells&, const vector<int>&)> go) {
    auto x = choose_complex(c, nx, dx, allv); if (x.empty()) c.prune(); auto y = choose_complex(c, ny, dy, allv); if (y.empty()) c.prune(); c.shard_here();
    set<int> vx; for (auto& s : x) if (s.size() == 1) vx.insert(s[0]); vector<int> f(nx, 0); for (int v : vx) f[v] = c.choose(ny); if (!simplicial(x, y, f)) c.prune();
    show(c, x); show(c, y); c << "f=" << str(f); c.state(mc::mix(mc::mix(hcells(x), hcells(y)), mc::Hash().range(f.begin(), f.end()).h)); if (mdim(x) > 0) c.interesting(); go(x, y, f);
}
template <class F> void simp(mc::Ctx& c, const Cells& x, const Cells& y, const vector<int>& f, int nx, int ny, bool every) {
    int md = max(mdim(x), mdim(y)); auto X = build_complex<bats::SimplicialComplex>(x, nx, md), Y = build_complex<bats::SimplicialComplex>(y, ny, md);
    auto sf = bats::SimplicialMap(X, Y, up(f)); int top = mdim(x); auto fd = dense_map<F>(x, y, f, top);
    auto CX = bats::Chain(X, F()), CY = bats::Chain(Y, F()); judge_all<F>(c, bats::Chain(sf, F()), fd, CX, CY, "simplicial map", every);
    if (mdim(x) == mdim(y)) { graded<F>(c, X, Y, sf, fd, false); }
    for (auto& m : fd) c.outcome(m.rank());
}
PART("every simplicial map between complexes on 3 vertices") { with_case(c, 3, 3, 2, 2, false, [&](const Cells& x, const Cells& y, const vector<int>& f) { bool small = true; simp<F2>(c, x, y, f, 3, 3, true); simp<F3>(c, x, y, f, 3, 3, false); if (small) simp<QQ>(c, x, y, f, 3, 3, false); }); }
PART("maps from 4 vertices to the hollow triangle, sphere and wedges") {
    static const vector<Cells> targets = {{{0},{1},{2},{0,1},{0,2},{1,2}}, {{0},{1},{2},{3},{0,1},{0,2},{0,3},{1,2},{1,3},{2,3},{0,1,2},{0,1,3},{0,2,3},{1,2,3}}, {{0},{1},{2},{3},{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}};
    auto x = choose_complex(c, 4, 2, true); auto& y = targets[c.choose(3)]; c.shard_here(); vector<int> f(4); int ny = y.size() == 6 ? 3 : 4; for (auto& v : f) v = c.choose(ny); if (!simplicial(x, y, f)) c.prune();
    show(c, x); show(c, y); c << "f=" << str(f); c.state(mc::mix(mc::mix(hcells(x), hcells(y)), mc::Hash().range(f.begin(), f.end()).h)); c.interesting();
    simp<F3>(c, x, y, f, 4, 4, false); simp<F2>(c, x, y, f, 4, 4, false);
}
PART("circle maps of every degree: hexagon to triangle") { Cells x, y; for (int i = 0; i < 6; i++) x.push_back({i}); for (int i = 0; i < 6; i++) { ref::Spx e{i, (i + 1) % 6}; sort(e.begin(), e.end()); x.push_back(e); } for (int i = 0; i < 3; i++) y.push_back({i}); y.push_back({0, 1}); y.push_back({1, 2}); y.push_back({0, 2});
    vector<int> f(6); for (auto& v : f) v = c.choose(3); c.shard_here(); c << "f=" << str(f); c.state(mc::Hash().range(f.begin(), f.end()).h); int deg = 0; for (int i = 0; i < 6; i++) { int s = (f[(i + 1) % 6] - f[i] + 3) % 3; deg += s == 2 ? -1 : s; } deg /= 3; c.outcome(deg + 10); if (deg) c.interesting();
    auto go = [&](auto z) { typedef decltype(z) F; simp<F>(c, x, y, f, 6, 3, false); auto X = build_complex<bats::SimplicialComplex>(x, 6, 1), Y = build_complex<bats::SimplicialComplex>(y, 3, 1); auto M = rdmat<F>(bats::induced_map(bats::Chain(bats::SimplicialMap(X, Y, up(f)), F()), bats::Reduce(X, F()), bats::Reduce(Y, F()), 1), c, "induced"); c.checkf((M.m == 1 && M.n == 1) && M(0, 0).zero() == (RF<F>(deg)).zero(), [&] { return "degree " + to_string(deg) + " circle map has wrong induced map"; }); };
    go(F2()); go(F3()); go(QQ()); }
template <class F> void functorial(mc::Ctx& c, const Cells& x, const Cells& y, const Cells& z, const vector<int>& f, const vector<int>& g, int md) {
    auto X = build_complex<bats::SimplicialComplex>(x, 3, md), Y = build_complex<bats::SimplicialComplex>(y, 3, md), Z = build_complex<bats::SimplicialComplex>(z, 3, md);
    vector<int> h(3); for (int i = 0; i < 3; i++) h[i] = g[f[i]]; auto Cf = bats::Chain(bats::SimplicialMap(X, Y, up(f)), F()), Cg = bats::Chain(bats::SimplicialMap(Y, Z, up(g)), F()), Ch = bats::Chain(bats::SimplicialMap(X, Z, up(h)), F()), Ci = bats::Chain(bats::SimplicialMap(X, X, {0, 1, 2}), F());
    auto RX = bats::Reduce(X, F()), RY = bats::Reduce(Y, F(), bats::extra_reduction_flag(), bats::clearing_flag(), bats::compute_basis_flag()), RZ = bats::Reduce(Z, F(), bats::standard_reduction_flag(), bats::compression_flag(), bats::compute_basis_flag());
    for (int k = 0; k <= md; k++) { auto a = rdmat<F>(bats::induced_map(Cf, RX, RY, k), c, "f"), b = rdmat<F>(bats::induced_map(Cg, RY, RZ, k), c, "g"), h2 = rdmat<F>(bats::induced_map(Ch, RX, RZ, k), c, "gf"), i = rdmat<F>(bats::induced_map(Ci, RX, RX, k), c, "id"); c.op(4); c.check(b * a == h2, "induced maps do not compose"); c.check(i == RM<F>::eye(i.n), "identity does not induce the identity"); }
}
PART("composable pairs of maps on 3 vertices") {
    static const vector<Cells> V = [] { vector<Cells> v; for (int m = 0; m < 8; m++) { Cells x{{0}, {1}, {2}}; static const ref::Spx e[3] = {{0, 1}, {0, 2}, {1, 2}}; for (int i = 0; i < 3; i++) if (m >> i & 1) x.push_back(e[i]); v.push_back(x); if (m == 7) { x.push_back({0, 1, 2}); v.push_back(x); } } return v; }();
    auto& x = V[c.choose(9)]; auto& y = V[c.choose(9)]; auto& z = V[c.choose(9)]; c.shard_here(); vector<int> f(3), g(3); for (auto& v : f) v = c.choose(3); if (!simplicial(x, y, f)) c.prune(); for (auto& v : g) v = c.choose(3); if (!simplicial(y, z, g)) c.prune();
    show(c, x); show(c, y); show(c, z); c << str(f) << str(g); mc::Hash h; h(hcells(x))(hcells(y))(hcells(z)).range(f.begin(), f.end()).range(g.begin(), g.end()); c.state(h.h); c.interesting(); int md = max({mdim(x), mdim(y), mdim(z)}); functorial<F3>(c, x, y, z, f, g, md); functorial<F2>(c, x, y, z, f, g, md); c.outcome(md); }
PART("inclusions of every subcomplex pair on 4 vertices") {
    auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); set<ref::Spx> in; Cells a; for (auto& s : x) { bool ok = true; for (auto& f : ref::faces(s)) if (!in.count(f)) ok = false; if (ok && c.flip()) { in.insert(s); a.push_back(s); } } if (a.empty()) c.prune(); c.shard_here();
    show(c, a); c << "in "; show(c, x); c.state(mc::mix(hcells(x), hcells(a))); c.interesting(); int md = mdim(x); auto X = build_complex<bats::SimplicialComplex>(x, 4, md), A = build_complex<bats::SimplicialComplex>(a, 4, md); vector<int> id{0, 1, 2, 3};
    auto go = [&](auto z) { typedef decltype(z) F; auto fd = dense_map<F>(a, x, id, mdim(a)); bats::CellularMap i(A, X); judge_all<F>(c, bats::Chain(i, F()), fd, bats::Chain(A, F()), bats::Chain(X, F()), "inclusion", false); if (mdim(a) == md) graded<F>(c, A, X, i, fd, c.flip()); }; if (c.flip()) go(F3()); else go(F2()); c.outcome(mdim(a)); }
// maps of pairs
template <class F> void relative(mc::Ctx& c, const Cells& x, const Cells& a, const Cells& y, const Cells& b, const vector<int>& f) {
    int md = mdim(x); auto X = build_complex<bats::SimplicialComplex>(x, 3, md), A = build_complex<bats::SimplicialComplex>(a, 3, md), Y = build_complex<bats::SimplicialComplex>(y, 3, md), B = build_complex<bats::SimplicialComplex>(b, 3, md);
    auto sf = bats::SimplicialMap(X, Y, up(f)); bats::ChainMap<CM<F>> rf(sf, X, A, Y, B); auto full = dense_map<F>(x, y, f, md); auto bx = ref::by_dim(x), by = ref::by_dim(y); set<ref::Spx> as(a.begin(), a.end()), bs(b.begin(), b.end()); vector<RM<F>> fd;
    for (int k = 0; k <= md; k++) { vector<int> R, C; for (size_t i = 0; k < (int)by.size() && i < by[k].size(); i++) if (!bs.count(by[k][i])) R.push_back(i); for (size_t j = 0; k < (int)bx.size() && j < bx[k].size(); j++) if (!as.count(bx[k][j])) C.push_back(j); RM<F> m(R.size(), C.size()); for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < C.size(); j++) m(i, j) = full[k](R[i], C[j]); fd.push_back(m); c.check(rdmat<F>(rf[k], c, "relative map") == m, "relative chain map is wrong"); }
    judge_all<F>(c, rf, fd, bats::Chain(X, A, F()), bats::Chain(Y, B, F()), "map of pairs", false);
    auto cf = bats::Chain(sf, F()); auto i1 = X.get_indices(A), i2 = Y.get_indices(B); auto rf2 = cf.relative_map(i2, i1); for (int k = 0; k <= md; k++) c.check(rdmat<F>(rf2[k], c, "relative map") == fd[k], "relative_map of a chain map is wrong");
}
PART("maps of pairs on 3 vertices") {
    auto x = choose_complex(c, 3, 2, true); auto sub = [&](const Cells& x) { set<ref::Spx> in; Cells a; for (auto& s : x) { bool ok = true; for (auto& f : ref::faces(s)) if (!in.count(f)) ok = false; if (ok && c.flip()) { in.insert(s); a.push_back(s); } } return a; }; auto a = sub(x); static const vector<Cells> Y = {{{0},{1},{2},{0,1},{0,2},{1,2}}, {{0},{1},{2},{0,1},{0,2},{1,2},{0,1,2}}}; auto y = Y[c.choose(2)]; if (mdim(y) < mdim(x)) c.prune(); auto b = sub(y); c.shard_here(); vector<int> f(3); for (auto& v : f) v = c.choose(3); if (!simplicial(x, y, f) || !simplicial(a, b, f)) c.prune(); if (mdim(x) != mdim(y)) c.prune();
    show(c, x); show(c, a); show(c, y); show(c, b); c << str(f); mc::Hash h; h(hcells(x))(hcells(a))(hcells(y))(hcells(b)).range(f.begin(), f.end()); c.state(h.h); c.interesting(); relative<F3>(c, x, a, y, b, f); relative<F2>(c, x, a, y, b, f); c.outcome(mdim(x)); }
// filtered: bases of the permuted complexes
template <class F> void filt(mc::Ctx& c, const Cells& x, const Cells& y, const vector<int>& f, const vector<vector<double>>& vx, const vector<vector<double>>& vy) {
    using namespace bats; int md = max(mdim(x), mdim(y)); auto X = build_complex<SimplicialComplex>(x, 3, md), Y = build_complex<SimplicialComplex>(y, 3, md); Filtration<double, SimplicialComplex> FX(X, vx), FY(Y, vy); auto RX = Reduce(FX, F()), RY = Reduce(FY, F(), extra_reduction_flag(), compute_basis_flag());
    auto CF = Chain(SimplicialMap(X, Y, up(f)), F()); auto CX = Chain(FX, F()), CY = Chain(FY, F()); auto fd = dense_map<F>(x, y, f, mdim(x)); auto dd = dense_complex<F>(CY.complex(), c);
    for (int k = 0; k <= mdim(x); k++) { CF.permute_row_basis(k, RY.perm[k]); CF.permute_column_basis(k, RX.perm[k]); auto g = fd[k]; for (int i = 0; i < g.m; i++) for (int j = 0; j < g.n; j++) g(i, j) = fd[k](RY.perm[k][i], RX.perm[k][j]); c.check(rdmat<F>(CF[k], c, "permuted map") == g, "permuting the bases of a chain map gives the wrong matrix");
        judge<F>(c, g, into<F>(dd, k), reps_of<F>(c, RX.RC, k), reps_of<F>(c, RY.RC, k), induced_map(CF, RX.RC, RY.RC, k), string("filtered ") + FT<F>::name() + " degree " + to_string(k)); }
}
static vector<vector<double>> values(mc::Ctx& c, const Cells& x, int md, int nval) { auto b = ref::by_dim(x); b.resize(md + 1); vector<vector<double>> v(b.size()); for (size_t k = 0; k < b.size(); k++) for (auto& s : b[k]) { double m = -5; if (k) for (auto& f : ref::faces(s)) m = max(m, v[k - 1][find(b[k - 1].begin(), b[k - 1].end(), f) - b[k - 1].begin()]); double w = c.choose(nval); if (w < m) c.prune(); v[k].push_back(w); } return v; }
PART("persistence bases of filtered complexes on 3 vertices") {
    static const vector<Cells> T = {{{0},{1},{2},{0,1},{0,2},{1,2}}, {{0},{1},{2},{0,1},{0,2},{1,2},{0,1,2}}}; auto x = T[c.choose(2)], y = T[c.choose(2)]; if (mdim(x) != mdim(y)) c.prune(); auto vx = values(c, x, mdim(x), 2), vy = values(c, y, mdim(y), 2); c.shard_here(); vector<int> f(3); for (auto& v : f) v = c.choose(3); if (!simplicial(x, y, f)) c.prune();
    mc::Hash h; h(hcells(x)).range(f.begin(), f.end()); for (auto& r : vx) for (double w : r) h((uint64_t)w); for (auto& r : vy) for (double w : r) h((uint64_t)w); c.state(h.h); c << str(f); c.interesting(); filt<F3>(c, x, y, f, vx, vy); filt<F2>(c, x, y, f, vx, vy); c.outcome(h.h); }
PART_THOROUGH("every simplicial map between 2-complexes on 4 vertices") { with_case(c, 4, 4, 2, 2, true, [&](const Cells& x, const Cells& y, const vector<int>& f) { if (mdim(x) != mdim(y)) c.prune(); if (c.flip()) simp<F2>(c, x, y, f, 4, 4, false); else simp<F3>(c, x, y, f, 4, 4, false); }); }
// larger complexes: inclusions of parts, rotations and reversals, collapses
template <class F> static void larger(mc::Ctx& c, const Cells& x, int nx, const Cells& y, int ny, const vector<int>& f) { if (!simplicial(x, y, f)) c.prune(); show(c, x); c << "f=" << str(f); c.state(mc::mix(mc::mix(hcells(x), hcells(y)), mc::Hash().range(f.begin(), f.end()).h)); c.interesting(); simp<F>(c, x, y, f, nx, ny, false); }
PART("larger complexes: inclusions of parts") { int k = c.choose(bigc::N), how = 1 + c.choose(3), fld = c.choose(2); c.shard_here(); auto a = bigc::make(k, how), b = bigc::make(k, 0); a.x = reorder(a.x, how); vector<int> f(a.nv); iota(f.begin(), f.end(), 0); c << "kind " << k; if (fld) larger<F3>(c, a.x, a.nv, b.x, b.nv, f); else larger<F2>(c, a.x, a.nv, b.x, b.nv, f); }
PART("larger complexes: maps of the vertices") { int k = c.choose(bigc::N), fld = c.choose(2), m = c.choose(8); c.shard_here(); auto a = bigc::make(k, 0), b = a; int n = a.nv; vector<int> f(n); for (int i = 0; i < n; i++) f[i] = m == 0 ? n - 1 - i : m == 1 ? (i + 1) % n : m == 2 ? (i + 3) % n : m == 3 ? (k == 3 ? (i % 3) * 3 + i / 3 : (i ^ 1) < n ? i ^ 1 : i) : m == 4 ? i / 2 : m == 5 ? 0 : m == 6 ? (i < 2 ? 1 - i : i) : (i % 3 == 2 ? i - 2 : i); c << "kind " << k << " map " << m; b.x = reorder(b.x, m % 3); if (fld) larger<F3>(c, a.x, n, b.x, n, f); else larger<F2>(c, a.x, n, b.x, n, f); }
PART("coverings of circles and tori") { int m = c.range(3, 4), r = c.range(1, 3), kind = c.choose(2), fld = c.choose(3); c.shard_here(); int n = m * r; Cells x, y; vector<int> f; int nx, ny; if (!kind) { auto circ = [](int l) { vector<ref::Spx> t; for (int i = 0; i < l; i++) t.push_back({i, (i + 1) % l}); return bigc::closure(t, l); }; x = circ(n); y = circ(m); nx = n; ny = m; for (int i = 0; i < n; i++) f.push_back(i % m); } else { x = bigc::closure(bigc::surface(n, 3, false), n * 3); y = bigc::closure(bigc::surface(m, 3, false), m * 3); nx = 3 * n; ny = 3 * m; if (nx > 27) c.prune(); for (int i = 0; i < nx; i++) f.push_back(i % ny); } if (fld == 0) larger<F2>(c, x, nx, y, ny, f); else if (fld == 1) larger<F3>(c, x, nx, y, ny, f); else larger<F5>(c, x, nx, y, ny, f); }
