// C19: maps of complexes induce chain maps, functorially.
#include "filt.hpp"
#include "big.hpp"
#include "homopts.hpp"
#include <unordered_map>
using namespace std;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LC; typedef ref::Spx Spx;
template <class CX> CX mk(const Cells& x, int nv, int md) { CX X(nv, md); for (auto& s : x) X.add(up(s)); return X; }
static vector<vector<Spx>> sizes(const Cells& x, int md) { auto b = ref::by_dim(x); b.resize(md + 1); return b; }
static bool simplicial(const Cells& x, const Cells& y, const vector<int>& f) { set<Spx> Y(y.begin(), y.end()); for (auto& s : x) { set<int> t; for (int v : s) t.insert(f[v]); if (!Y.count(Spx(t.begin(), t.end()))) return false; } return true; }
// dense integer matrix of a vertex map in dimension k, cells in insertion order
static vector<vector<int>> vertex_map(const vector<Spx>& x, const vector<Spx>& y, const vector<int>& f) {
    vector<vector<int>> M(y.size(), vector<int>(x.size(), 0));
    for (size_t j = 0; j < x.size(); j++) { Spx t; for (int v : x[j]) t.push_back(f[v]); int sg = 1; bool deg = false; for (size_t a = 0; a < t.size(); a++) for (size_t b = a + 1; b < t.size(); b++) { deg |= t[a] == t[b]; if (t[a] > t[b]) sg = -sg; } if (deg) continue; sort(t.begin(), t.end()); M[find(y.begin(), y.end(), t) - y.begin()][j] = sg; }
    return M;
}
static vector<vector<int>> dense(mc::Ctx& c, const ColumnMatrix<SparseVector<int, size_t>>& A, const string& n) { vector<vector<int>> M(A.nrow(), vector<int>(A.ncol(), 0)); for (size_t j = 0; j < A.ncol(); j++) { long last = -1; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) { c.check(it->ind < A.nrow() && (long)it->ind > last && it->val != 0, n + ": malformed column"); last = it->ind; M[it->ind][j] = it->val; } } return M; }
static vector<vector<int>> imul(const vector<vector<int>>& a, const vector<vector<int>>& b, size_t n) { vector<vector<int>> r(a.size(), vector<int>(n, 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) for (size_t j = 0; j < n; j++) r[i][j] += a[i][k] * b[k][j]; return r; }
template <class F> RM<F> cast(const vector<vector<int>>& a, size_t m, size_t n) { RM<F> r((int)m, (int)n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(i, j) = RF<F>(a[i][j]); return r; }
// boundaries padded with empty dimensions
template <class F, class CC> vector<RM<F>> bounds(mc::Ctx& c, const CC& C, int md) { vector<RM<F>> d; for (int k = 0; k <= md; k++) { if (k <= (int)C.maxdim()) d.push_back(rdmat<F>(C[k], c, "boundary")); else d.push_back(RM<F>(k ? d[k - 1].n : 0, 0)); } return d; }
template <class F> void commutes(mc::Ctx& c, const vector<RM<F>>& f, const vector<RM<F>>& dx, const vector<RM<F>>& dy, const string& n) { for (size_t k = 1; k < f.size(); k++) { c.op(); auto l = dy[k] * f[k], r = f[k - 1] * dx[k]; c.checkf(l == r, [&] { return n + " " + FT<F>::name() + ": does not commute with the boundary in dimension " + to_string(k) + ": " + l.str() + " vs " + r.str(); }); } }
template <class F> vector<RM<F>> chain_of(mc::Ctx& c, const bats::CellularMap& f, const vector<vector<vector<int>>>& want, const vector<size_t>& my, const vector<size_t>& nx, const string& n) {
    auto F_ = bats::Chain(f, F()); c.check(F_.maxdim() + 1 == want.size(), n + ": dimensions of the chain map"); vector<RM<F>> r; for (size_t k = 0; k < want.size(); k++) { auto M = rdmat<F>(F_[k], c, n); auto w = cast<F>(want[k], my[k], nx[k]); c.checkf(M == w, [&] { return n + " " + FT<F>::name() + " dimension " + to_string(k) + ": " + M.str() + " expected " + w.str(); }); r.push_back(M); }
    bats::DGLinearMap<CM<F>> h(f, -1), t(f, +1); c.check((size_t)(h.maxdim() + 1) >= want.size() && h.maxdim() == t.maxdim() && h.maxdim() == (ssize_t)f.maxdim(), n + ": top degree of the graded map"); { bats::DGLinearMap<CM<F>> e((size_t)h.maxdim()), l(h.map); c.check(e.maxdim() == h.maxdim() && l.maxdim() == h.maxdim(), n + ": top degree of a graded map"); for (size_t k = 0; k < want.size(); k++) c.check(rdmat<F>(l[k], c, n) == rdmat<F>(h[k], c, n), n + ": graded map from its list of matrices"); } for (size_t k = 0; k < want.size(); k++) { c.check(rdmat<F>(h[k], c, n) == r[k], n + ": graded map of degree -1"); c.check(rdmat<F>(t[k], c, n) == r[k].T(), n + ": graded map of degree +1 is not the transpose"); }
    return r; }
template <class F, class CX> void over(mc::Ctx& c, const bats::CellularMap& f, const vector<vector<vector<int>>>& want, const CX& X, const CX& Y, const string& n) { int md = (int)want.size() - 1; vector<size_t> my, nx; auto dx = bounds<F>(c, bats::Chain(X, F()), md), dy = bounds<F>(c, bats::Chain(Y, F()), md); for (int k = 0; k <= md; k++) { my.push_back(dy[k].n); nx.push_back(dx[k].n); } auto r = chain_of<F>(c, f, want, my, nx, n); commutes<F>(c, r, dx, dy, n); }
template <class CX> void judge_map(mc::Ctx& c, const bats::CellularMap& f, const vector<vector<vector<int>>>& want, const CX& X, const CX& Y, const string& n) { c.op(); c.checkf(f.maxdim() + 1 == want.size(), [&] { return n + ": map has " + to_string(f.maxdim() + 1) + " dimensions, expected " + to_string(want.size()); }); for (size_t k = 0; k < want.size(); k++) { auto M = dense(c, f[k], n); c.check(f[k].ncol() == X.ncells(k) && f[k].nrow() == want[k].size(), n + ": shape of the map"); c.checkf(M == want[k], [&] { return n + ": wrong matrix in dimension " + to_string(k); }); } over<F2>(c, f, want, X, Y, n); over<F3>(c, f, want, X, Y, n); over<QQ>(c, f, want, X, Y, n); }
template <class CX> void vmap(mc::Ctx& c, const Cells& x, const Cells& y, const vector<int>& f, int nx, int ny, int mx, int my, const string& n) {
    auto X = mk<CX>(x, nx, mx), Y = mk<CX>(y, ny, my); auto F0 = up(f); c.op(); bool ok = simplicial(x, y, f);
    if (!ok) { bool threw = false; try { bats::SimplicialMap(X, Y, F0); } catch (const std::exception&) { threw = true; } c.check(threw, n + ": a vertex map that is not simplicial is accepted"); return; }
    vector<vector<vector<int>>> w; auto bx = sizes(x, mx), by = sizes(y, max(mx, my)); for (int k = 0; k <= mx; k++) w.push_back(vertex_map(bx[k], by[k], f)); judge_map(c, bats::SimplicialMap(X, Y, F0), w, X, Y, n); }
static vector<int> choose_f(mc::Ctx& c, const Cells& x, int nx, int ny) { set<int> vx; for (auto& s : x) if (s.size() == 1) vx.insert(s[0]); vector<int> f(nx, 0); for (int v : vx) f[v] = c.choose(ny); return f; }
static void seen(mc::Ctx& c, const Cells& x, const Cells& y, const vector<int>& f) { show(c, x); show(c, y); c << "f=" << str(f); c.state(mc::mix(mc::mix(hcells(x), hcells(y)), mc::Hash().range(f.begin(), f.end()).h)); if (mdim(x) > 0) c.interesting(); }
PART("every vertex map between complexes on three vertices") { auto x = choose_complex(c, 3, 2), y = choose_complex(c, 3, 2); if (x.empty() || y.empty()) c.prune(); c.shard_here(); auto f = choose_f(c, x, 3, 3); int hx = c.choose(2) * 2, hy = c.choose(2) * 2; auto p = reorder(x, hx), q = reorder(y, hy); seen(c, p, q, f); bool tight = c.flip(); int mx = tight ? mdim(x) : 2, my = tight ? mdim(y) : 2; vmap<SC>(c, p, q, f, 3, 3, mx, my, "simplicial map"); if (my >= mx || simplicial(p, q, f)) vmap<LC>(c, p, q, f, 3, 3, mx, my, "packed simplicial map"); }
PART("vertex maps from complexes on four vertices to spheres, simplices and graphs") { static const vector<Cells> T = {ref::all_simplices(3, 1), ref::all_simplices(4, 2), ref::all_simplices(4, 1), ref::all_simplices(2, 1), ref::all_simplices(4, 3)}; auto x = choose_complex(c, 4, c.tier ? 3 : 2, true); auto y = T[c.choose(5)]; int ny = 0; for (auto& s : y) ny += s.size() == 1; c.shard_here(); auto f = choose_f(c, x, 4, ny); int h = c.tier ? c.choose(3) : (int)(hcells(x) % 3); x = reorder(x, h); y = reorder(y, (h + 1) % 3); seen(c, x, y, f); vmap<SC>(c, x, y, f, 4, ny, mdim(x), mdim(y), "simplicial map"); if (mdim(y) >= mdim(x) || simplicial(x, y, f)) vmap<LC>(c, x, y, f, 4, ny, mdim(x), mdim(y), "packed simplicial map"); }
PART("every vertex map between full simplices") { int n = c.range(1, c.tier ? 6 : 5), m = c.range(1, c.tier ? 6 : 5); c.shard_here(); vector<int> f(n); for (auto& v : f) v = c.choose(m); auto x = ref::all_simplices(n, n - 1), y = ref::all_simplices(m, m - 1); seen(c, x, y, f); vmap<SC>(c, x, y, f, n, m, n - 1, m - 1, "simplicial map"); if (m >= n || simplicial(x, y, f)) vmap<LC>(c, x, y, f, n, m, n - 1, m - 1, "packed simplicial map"); }
// composition and identities
template <class CX> void compose(mc::Ctx& c, const Cells& x, const Cells& y, const Cells& z, const vector<int>& f, const vector<int>& g, const string& n) { auto X = mk<CX>(x, 3, 2), Y = mk<CX>(y, 3, 2), Z = mk<CX>(z, 3, 2); vector<int> gf; for (int v : f) gf.push_back(g[v]); c.op(3); auto F = bats::SimplicialMap(X, Y, up(f)), G = bats::SimplicialMap(Y, Z, up(g)), H = bats::SimplicialMap(X, Z, up(gf)); auto c3 = bats::Chain(F, F3()), d3 = bats::Chain(G, F3()), e3 = bats::Chain(H, F3());
    for (size_t k = 0; k <= 2; k++) { c.check(imul(dense(c, G[k], n), dense(c, F[k], n), X.ncells(k)) == dense(c, H[k], n), n + ": composition of maps is not the product of matrices"); c.check(dense(c, G[k] * F[k], n) == dense(c, H[k], n), n + ": product of the integer matrices"); c.check(rdmat<F3>(d3[k] * c3[k], c, n) == rdmat<F3>(e3[k], c, n), n + ": product of the chain maps"); } }
PART("composable pairs of vertex maps") { auto pool = [&] { return choose_complex(c, 3, 2, true); }; auto x = pool(), y = pool(), z = pool(); c.shard_here(); auto f = choose_f(c, x, 3, 3), g = choose_f(c, y, 3, 3); if (!simplicial(x, y, f) || !simplicial(y, z, g)) c.prune(); y = reorder(y, 2); seen(c, x, y, f); c.state(mc::mix(hcells(z), mc::Hash().range(g.begin(), g.end()).h)); compose<SC>(c, x, y, z, f, g, "simplicial map"); compose<LC>(c, x, y, z, f, g, "packed simplicial map"); }
template <class CX> void identities(mc::Ctx& c, const CX& X, const string& n, function<void(const bats::CellularMap&, const string&)> is_id) { is_id(bats::CellularMap::identity(X), n + " identity"); is_id(bats::CellularMap(X, X), n + " inclusion into itself"); }
template <class CX> void check_id(mc::Ctx& c, const CX& X, const bats::CellularMap& f, const string& n) { vector<vector<vector<int>>> w; for (size_t k = 0; k <= X.maxdim(); k++) { w.push_back(vector<vector<int>>(X.ncells(k), vector<int>(X.ncells(k), 0))); for (size_t i = 0; i < X.ncells(k); i++) w[k][i][i] = 1; } judge_map(c, f, w, X, X, n); }
PART("identities of complexes on four vertices") { auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); c.shard_here(); x = reorder(x, c.choose(3)); c.state(hcells(x)); show(c, x); if (mdim(x)) c.interesting(); auto X = mk<SC>(x, 4, mdim(x)); auto L = mk<LC>(x, 4, mdim(x)); vector<size_t> id{0, 1, 2, 3}; check_id(c, X, bats::CellularMap::identity(X), "identity"); check_id(c, X, bats::SimplicialMap(X, X), "map of X into itself"); check_id(c, X, bats::SimplicialMap(X, X, id), "identity vertex map"); check_id(c, L, bats::CellularMap::identity(L), "packed identity"); check_id(c, L, bats::SimplicialMap(L, L), "packed map into itself"); check_id(c, L, bats::SimplicialMap(L, L, id), "packed identity vertex map"); }
// inclusions
template <class T> vector<vector<int>> incl(const vector<T>& a, const vector<T>& x) { vector<vector<int>> M(x.size(), vector<int>(a.size(), 0)); for (size_t j = 0; j < a.size(); j++) M[find(x.begin(), x.end(), a[j]) - x.begin()][j] = 1; return M; }
static Cells choose_sub(mc::Ctx& c, const Cells& z) { set<Spx> in; Cells a; for (auto& s : z) { bool ok = true; for (auto& f : ref::faces(s)) ok &= in.count(f) > 0; if (ok && c.flip()) { in.insert(s); a.push_back(s); } } return a; }
template <class F> void relative(mc::Ctx& c, const bats::CellularMap& f, const SC& X, const SC& A, const SC& Y, const SC& B, const string& n) { c.op(); bats::ChainMap<CM<F>> R(f, X, A, Y, B); int md = (int)f.maxdim(); auto dx = bounds<F>(c, bats::Chain(X, A, F()), md), dy = bounds<F>(c, bats::Chain(Y, B, F()), md); vector<RM<F>> r; auto full = bats::Chain(f, F()); auto iy = Y.get_indices(B), ix = X.get_indices(A); iy.resize(md + 1); ix.resize(md + 1); auto R2 = full.relative_map(iy, ix);
    for (int k = 0; k <= md; k++) { auto M = rdmat<F>(R[k], c, n), want = rdmat<F>(full[k], c, n); vector<int> pr, pc; auto by = Y.get_indices(B, k), ax = X.get_indices(A, k); for (size_t i = 0; i < Y.ncells(k); i++) if (!count(by.begin(), by.end(), i)) pr.push_back(i); for (size_t i = 0; i < X.ncells(k); i++) if (!count(ax.begin(), ax.end(), i)) pc.push_back(i); want = want.permrows(pr).permcols(pc); c.checkf(M == want, [&] { return n + ": wrong relative map in dimension " + to_string(k); }); c.check(rdmat<F>(R2[k], c, n) == want, n + ": relative_map disagrees"); r.push_back(M); }
    commutes<F>(c, r, dx, dy, n); }
PART("inclusions of every subcomplex of every complex on four vertices") { auto x = choose_complex(c, 4, c.tier ? 3 : 2); if (x.empty()) c.prune(); auto a = choose_sub(c, x); if (a.empty()) c.prune(); c.shard_here(); int h = (int)(hcells(x) % 3); auto y = reorder(x, h), b = reorder(a, (h + 1) % 3); seen(c, b, y, {}); int top = mdim(x), ma = mdim(a); auto by = sizes(y, top), ba = sizes(b, ma); vector<vector<vector<int>>> w; for (int k = 0; k <= ma; k++) w.push_back(incl(ba[k], by[k]));
    auto X = mk<SC>(y, 4, top), A = mk<SC>(b, 4, ma); auto L = mk<LC>(y, 4, top), K = mk<LC>(b, 4, ma); vector<size_t> id{0, 1, 2, 3}; judge_map(c, bats::CellularMap(A, X), w, A, X, "inclusion"); judge_map(c, bats::SimplicialMap(A, X), w, A, X, "inclusion (SimplicialMap)"); judge_map(c, bats::SimplicialMap(A, X, id), w, A, X, "inclusion (vertex map)"); judge_map(c, bats::CellularMap(K, L), w, K, L, "packed inclusion");
    if (b.size() < y.size()) { for (auto& s : y) if (!count(a.begin(), a.end(), s)) { bool threw = false; try { bats::CellularMap f(X, mk<SC>(b, 4, top)); } catch (const std::exception&) { threw = true; } c.check(threw, "inclusion into a complex that misses a cell is accepted"); break; } } }
PART("relative chain maps on three vertices") { auto x = choose_complex(c, 3, 2), y = choose_complex(c, 3, c.tier ? 2 : 1); if (x.empty() || y.empty()) c.prune(); auto f = choose_f(c, x, 3, 3); if (!simplicial(x, y, f)) c.prune(); c.shard_here(); auto a = choose_sub(c, x), b = choose_sub(c, y); if (!simplicial(a, b, f)) c.prune(); x = reorder(x, 2); b = b.empty() ? b : reorder(b, 1); seen(c, x, y, f); c.state(mc::mix(hcells(a), hcells(b))); int my = max(mdim(x), mdim(y)); auto X = mk<SC>(x, 3, mdim(x)), Y = mk<SC>(y, 3, my); SC A(3, mdim(x)), B(3, my); for (auto& s : a) A.add(up(s)); for (auto& s : b) B.add(up(s)); auto m = bats::SimplicialMap(X, Y, up(f)); relative<F2>(c, m, X, A, Y, B, "relative map"); relative<F3>(c, m, X, A, Y, B, "relative map"); }
// cubical inclusions
typedef vector<size_t> Cube; static int cdim(const Cube& s) { int d = 0; for (size_t i = 0; i < s.size(); i += 2) d += s[i + 1] != s[i]; return d; }
static vector<Cube> cfaces(const Cube& s) { vector<Cube> f; for (size_t i = 0; i < s.size(); i += 2) if (s[i] != s[i + 1]) { auto t = s; t[i] = s[i + 1]; f.push_back(t); t = s; t[i + 1] = s[i]; f.push_back(t); } return f; }
static vector<Cube> grid(const vector<int>& n) { vector<Cube> out; function<void(size_t, Cube)> go = [&](size_t i, Cube s) { if (i == n.size()) { out.push_back(s); return; } for (int a = 0; a <= n[i]; a++) { auto t = s; t.push_back(a); t.push_back(a); go(i + 1, t); if (a < n[i]) { t.back() = a + 1; go(i + 1, t); } } }; go(0, {}); stable_sort(out.begin(), out.end(), [](const Cube& a, const Cube& b) { return cdim(a) < cdim(b); }); return out; }
static vector<Cube> choose_cubes(mc::Ctx& c, const vector<Cube>& U, bool vertices) { set<Cube> in; vector<Cube> out; for (auto& s : U) { bool ok = true; for (auto& f : cfaces(s)) ok &= in.count(f) > 0; if (ok && ((vertices && cdim(s) == 0) || c.flip())) { in.insert(s); out.push_back(s); } } return out; }
static void cubical(mc::Ctx& c, vector<Cube> x, vector<Cube> a, int D) { mc::Hash h; for (auto& s : x) h.range(s.begin(), s.end()); h(7); for (auto& s : a) h.range(s.begin(), s.end()); c.state(h.h); if (a.size() > 3) c.interesting(); stable_sort(a.begin(), a.end(), [](const Cube& p, const Cube& q) { return cdim(p) != cdim(q) ? cdim(p) < cdim(q) : p > q; }); auto build = [&](const vector<Cube>& z) { bats::CubicalComplex Z(D); for (auto s : z) Z.add(s); return Z; }; auto X = build(x), A = build(a); vector<vector<vector<int>>> w, id; for (int k = 0; k <= D; k++) { vector<Cube> p, q; for (auto& s : x) if (cdim(s) == k) q.push_back(s); for (auto& s : a) if (cdim(s) == k) p.push_back(s); w.push_back(incl(p, q)); id.push_back(incl(q, q)); }
    judge_map(c, bats::CubicalMap(A, X), w, A, X, "cubical inclusion"); judge_map(c, bats::CellularMap(A, X), w, A, X, "cubical inclusion"); judge_map(c, bats::CellularMap::identity(X), id, X, X, "cubical identity"); judge_map(c, bats::CubicalMap(X, X), id, X, X, "cubical complex into itself"); }
PART("cubical inclusions in a square, a strip and a cube") { static const vector<vector<int>> G = {{2}, {1, 1}, {2, 1}, {1, 1, 1}}; int g = c.choose(4); auto U = grid(G[g]); auto x = choose_cubes(c, U, g > 1); auto y = x; if (x.empty()) c.prune(); if (g == 3 && (int)x.size() < (c.tier ? 24 : 26)) c.prune(); if (g == 2 && !c.tier && x.size() < 14) c.prune(); c.shard_here(); auto a = choose_cubes(c, x, g > 1); cubical(c, x, a, (int)G[g].size()); }
// maps given by hand: cell complexes
template <class F> void cell(mc::Ctx& c, const bats::CellularMap& f, const bats::CellComplex& X, const bats::CellComplex& Y, const vector<vector<vector<int>>>& want, const string& n) { over<F>(c, f, want, X, Y, n); }
PART("degree maps of circles and of lens-like complexes") { // X: circle with n vertices and edges, Y: circle with m vertices; f wraps, vertex i -> i mod m (needs m | n); discs attached by degrees p, q with p*... matched
    int m = c.range(1, 3), r = c.range(1, 4), n = m * r; int p = c.range(0, 3); int t = c.range(-2, 2); c.shard_here(); int order = c.choose(2); bats::CellComplex X, Y; X.add_vertices(n); Y.add_vertices(m); auto circ = [&](bats::CellComplex& Z, int l) { for (int i = 0; i < l; i++) { if (l == 1) Z.add({}, {}, 1); else { size_t a = i, b = (i + 1) % l; if (a < b) Z.add({a, b}, {-1, 1}, 1); else Z.add({b, a}, {1, -1}, 1); } } }; circ(X, n); circ(Y, m); auto disc = [&](bats::CellComplex& Z, int l, int d) { vector<size_t> b; vector<int> co; if (d) for (int i = 0; i < l; i++) { b.push_back(i); co.push_back(d); } Z.add(b, co, 2); };
    disc(X, n, p * t); disc(Y, m, p); // f(edge i) = edge i mod m, f(disc) = r*t*disc
    vector<vector<vector<int>>> w(3); w[0].assign(m, vector<int>(n, 0)); w[1] = w[0]; for (int i = 0; i < n; i++) w[0][i % m][i] = w[1][i % m][i] = 1; w[2] = {{r * t}}; bats::CellularMap f = order ? bats::CellularMap() : bats::CellularMap((size_t)2); for (int k = 0; k <= 2; k++) { vector<SparseVector<int, size_t>> col; for (size_t j = 0; j < w[k][0].size(); j++) { vector<size_t> ii; vector<int> vv; for (size_t i = 0; i < w[k].size(); i++) if (w[k][i][j]) { ii.push_back(i); vv.push_back(w[k][i][j]); } col.push_back(SparseVector<int, size_t>(ii, vv)); } f[k] = ColumnMatrix<SparseVector<int, size_t>>(w[k].size(), w[k][0].size(), col); }
    c.state(mc::mix(n * 10 + m, p * 10 + t + 3)); if (t && p) c.interesting(); c.check(f.maxdim() == 2, "dimension of a map given by hand"); cell<F2>(c, f, X, Y, w, "wrapping map"); cell<F3>(c, f, X, Y, w, "wrapping map"); cell<F5>(c, f, X, Y, w, "wrapping map"); cell<QQ>(c, f, X, Y, w, "wrapping map"); bats::CellularMap I = bats::CellularMap::identity(X); vector<vector<vector<int>>> id; for (size_t k = 0; k <= 2; k++) { id.push_back(vector<vector<int>>(X.ncells(k), vector<int>(X.ncells(k), 0))); for (size_t i = 0; i < X.ncells(k); i++) id[k][i][i] = 1; } cell<F3>(c, I, X, X, id, "identity of a cell complex"); }
// change of basis
PART("permuted bases of chain maps") { auto x = choose_complex(c, 3, 2, true), y = choose_complex(c, 3, 1, true); auto f = choose_f(c, x, 3, 3); if (!simplicial(x, y, f)) c.prune(); c.shard_here(); auto X = mk<SC>(x, 3, 2), Y = mk<SC>(y, 3, 2); auto M = bats::Chain(bats::SimplicialMap(X, Y, up(f)), F3()); seen(c, x, y, f); for (size_t k = 0; k <= 1; k++) { auto A = rdmat<F3>(M[k], c, "map"); auto p = choose_perm(c, A.m), q = choose_perm(c, A.n); auto N = M; c.op(2); N.permute_row_basis(k, up(p)); c.check(rdmat<F3>(N[k], c, "map") == A.permrows(p), "permute_row_basis: new row i is not old row p[i]"); auto uf = up(f); bats::DGLinearMap<CM<F3>> G(bats::SimplicialMap(X, Y, uf)); G.permute_row_basis(k, up(p)); c.check(rdmat<F3>(G[k], c, "map") == A.permrows(p), "graded permute_row_basis"); N = M; N.permute_column_basis(k, up(q)); auto B = rdmat<F3>(N[k], c, "map"), W = A.permcols(q), W2 = A; G = bats::DGLinearMap<CM<F3>>(bats::SimplicialMap(X, Y, up(f))); G.permute_column_basis(k, up(q)); c.check(rdmat<F3>(G[k], c, "map") == B, "graded permute_column_basis"); for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) W2(i, q[j]) = A(i, j); c.check(B == W || B == W2, "permute_column_basis is not a permutation of the columns"); c.outcome(B == W); if (c.verbose) c << "B" << B.str() << "W" << W.str() << W2.str(); } }
// larger complexes
PART("vertex maps between larger complexes") { int k = c.choose(bigc::N), how = c.choose(2), m = c.choose(9), light = c.choose(2); c.shard_here(); auto a = bigc::make(k, how * 2), b = bigc::make(k, 0); int n = a.nv; vector<int> f(n); for (int i = 0; i < n; i++) f[i] = m == 0 ? n - 1 - i : m == 1 ? (i + 1) % n : m == 2 ? (i + 3) % n : m == 3 ? (k == 3 ? (i % 3) * 3 + i / 3 : (i ^ 1) < n ? i ^ 1 : i) : m == 4 ? i / 2 : m == 5 ? n / 2 : m == 6 ? (i < 2 ? 1 - i : i) : m == 7 ? i : (i % 3 == 2 ? i - 2 : i); auto x = reorder(a.x, m % 3), y = reorder(b.x, (m + k) % 3); c << "kind " << k << " map " << m; seen(c, x, y, f); c.interesting(); if (light) { if (!simplicial(x, y, f)) c.prune(); vmap<LC>(c, x, y, f, n, n, mdim(x), mdim(y), "larger packed simplicial map"); } else vmap<SC>(c, x, y, f, n, n, mdim(x), mdim(y), "larger simplicial map"); }
PART("larger inclusions") { int k = c.choose(bigc::N), how = 1 + c.choose(3), o = c.choose(3); c.shard_here(); auto a = bigc::make(k, how), b = bigc::make(k, 0); auto x = reorder(a.x, o), y = reorder(b.x, (o + 1) % 3); seen(c, x, y, {}); c.interesting(); int top = mdim(y), ma = mdim(x); auto by = sizes(y, top), ba = sizes(x, ma); vector<vector<vector<int>>> w; for (int q = 0; q <= ma; q++) w.push_back(incl(ba[q], by[q])); auto X = mk<SC>(y, b.nv, top), A = mk<SC>(x, a.nv, ma); auto L = mk<LC>(y, b.nv, top), K = mk<LC>(x, b.nv, ma); judge_map(c, bats::CellularMap(A, X), w, A, X, "larger inclusion"); judge_map(c, bats::SimplicialMap(A, X), w, A, X, "larger inclusion (SimplicialMap)"); judge_map(c, bats::CellularMap(K, L), w, K, L, "larger packed inclusion"); }
