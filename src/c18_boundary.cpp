// C18: boundary operators have the right faces and signs and square to zero; relative, tensor and product complexes.
#include "filt.hpp"
#include "big.hpp"
#include <unordered_map>
using namespace std;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LC;
typedef ref::Spx Spx; typedef vector<size_t> Cube;
// every column: exactly the faces, with the reference signs up to one sign per column
template <class F> void same_up_to_column_sign(mc::Ctx& c, const RM<F>& got, const RM<F>& want, const string& n) {
    c.op(); c.checkf(got.m == want.m && got.n == want.n, [&] { return n + ": " + to_string(got.m) + "x" + to_string(got.n) + " boundary, expected " + to_string(want.m) + "x" + to_string(want.n); });
    for (int j = 0; j < want.n; j++) { bool p = true, q = true; for (int i = 0; i < want.m; i++) { p &= got(i, j) == want(i, j); q &= got(i, j) == RF<F>(0) - want(i, j); } c.checkf(p || q, [&] { return n + ": boundary " + got.str() + " expected " + want.str() + " (column " + to_string(j) + ")"; }); } }
template <class F, class CC> vector<RM<F>> dense_checked(mc::Ctx& c, const CC& C, const string& n) {
    vector<RM<F>> d; for (size_t k = 0; k <= C.maxdim(); k++) { d.push_back(rdmat<F>(C[k], c, n)); c.check((size_t)d.back().n == C.dim(k), n + ": dim(k) is not the number of columns"); if (k == 0) { c.check(d[0].iszero(), n + ": boundary of vertices is not zero"); d[0] = RM<F>(0, d[0].n); } else { c.check(d[k].m == d[k - 1].n, n + ": shapes do not compose"); c.checkf((d[k - 1] * d[k]).iszero() , [&] { return n + ": boundary " + to_string(k - 1) + " o boundary " + to_string(k) + " is not zero"; }); } }
    c.check(C.is_valid_complex(), n + ": is_valid_complex() is false for a complex"); size_t t = 0; for (auto& m : d) t += m.n; c.check(C.dim() == t, n + ": dim()"); return d; }
template <class F> void judge(mc::Ctx& c, const vector<RM<F>>& got, const vector<RM<F>>& want, const string& n0) { string n = n0 + " " + FT<F>::name(); for (size_t k = 1; k < max(got.size(), want.size()); k++) { RM<F> w = k < want.size() ? want[k] : RM<F>(k <= want.size() ? want[k - 1].n : 0, 0); if (k < got.size()) same_up_to_column_sign<F>(c, got[k], w, n + " dimension " + to_string(k)); else c.check(w.n == 0, n + ": missing dimension"); } if (!want.empty()) c.check(got[0].n == want[0].n, n + ": number of vertices"); }
template <class F, class X> void simplicial(mc::Ctx& c, const X& x, const Cells& cells, const string& n) {
    judge<F>(c, dense_checked<F>(c, bats::Chain(x, F()), n), ref::complex_of<RF<F>>(ref::by_dim(cells)), n); }
template <class X> void integer_boundary(mc::Ctx& c, const X& x, const vector<vector<int>>& nfaces, const string& n) { (void)nfaces; // boundary_csc and boundary(dim, k) agree
    for (size_t k = 1; k <= x.maxdim(); k++) { auto B = x.boundary_csc(k); c.check(B.nrow() == x.ncells(k - 1) && B.ncol() == x.ncells(k), n + ": boundary_csc shape"); ColumnMatrix<SparseVector<int, size_t>> M(B); for (size_t j = 0; j < x.ncells(k); j++) { auto [ind, val] = x.boundary(k, j); map<size_t, int> a, b; for (size_t i = 0; i < ind.size(); i++) a[ind[i]] += val[i]; for (auto it = M[j].nzbegin(); it != M[j].nzend(); ++it) b[it->ind] += it->val; c.check(a == b, n + ": boundary_csc and boundary() differ"); } } }
static void all_simplicial(mc::Ctx& c, const Cells& x, int nv, int how) {
    auto y = reorder(x, how); int md = mdim(y); SC X = build_complex<SC>(y, nv, md); LC L(nv, md); for (auto& s : y) L.add(up(s)); c.state(mc::mix(hcells(y), how)); if (md > 1) c.interesting(); c.outcome(y.size());
    simplicial<F2>(c, X, y, "simplicial"); simplicial<F3>(c, X, y, "simplicial"); simplicial<QQ>(c, X, y, "simplicial"); simplicial<F5>(c, X, y, "simplicial"); integer_boundary(c, X, {}, "simplicial");
    simplicial<F2>(c, L, y, "packed"); simplicial<F3>(c, L, y, "packed"); simplicial<QQ>(c, L, y, "packed"); integer_boundary(c, L, {}, "packed"); }
PART("every simplicial complex on four vertices, three cell orders") { auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); c.shard_here(); all_simplicial(c, x, 4, c.choose(3)); }
PART("every simplicial complex on five vertices with all edges, dimension two or three") { Cells x; for (auto& s : ref::all_simplices(5, 1)) x.push_back(s); auto t = ref::all_simplices(5, 3); set<Spx> in(x.begin(), x.end()); for (auto& s : t) if (s.size() > 2) { bool ok = true; for (auto& f : ref::faces(s)) ok &= in.count(f) > 0; if (ok && (s.size() == 3 || c.tier || s[0] == 0) && c.flip()) { in.insert(s); x.push_back(s); } if (s == Spx{0, 3, 4}) c.shard_here(); } c.shard_here(); all_simplicial(c, x, 5, 0); }
PART("full simplices") { int n = c.range(1, c.tier ? 7 : 6); auto x = ref::all_simplices(n, n - 1); all_simplicial(c, x, n, c.choose(3)); }
// relative complexes
template <class F> void relative(mc::Ctx& c, const Cells& x, const Cells& a, const SC& X, const SC& A) {
    string n = "relative"; auto bx = ref::by_dim(x); set<Spx> as(a.begin(), a.end()); auto D = dense_checked<F>(c, bats::Chain(X, F()), "absolute"); vector<vector<int>> keep(bx.size()), in(bx.size()); for (size_t k = 0; k < bx.size(); k++) for (size_t i = 0; i < bx[k].size(); i++) (as.count(bx[k][i]) ? in : keep)[k].push_back((int)i);
    auto cut = [&](const vector<vector<int>>& p) { vector<RM<F>> w; for (size_t k = 0; k < bx.size(); k++) w.push_back(k ? D[k].permrows(p[k - 1]).permcols(p[k]) : RM<F>(0, (int)p[0].size())); return w; };
    auto exact = [&](const vector<RM<F>>& got, const vector<RM<F>>& want, const string& m) { c.check(got.size() == want.size(), m + ": number of dimensions"); for (size_t k = 0; k < want.size(); k++) c.checkf(got[k] == want[k], [&] { return m + " dimension " + to_string(k) + ": " + got[k].str() + " expected " + want[k].str(); }); };
    exact(dense_checked<F>(c, bats::Chain(X, A, F()), n), cut(keep), n + " chain complex"); auto C = bats::Chain(X, F()); auto i1 = X.get_indices(A), i2 = i1; exact(dense_checked<F>(c, C.relative_complex(i1), n), cut(keep), "relative_complex"); exact(dense_checked<F>(c, C.subcomplex(i2), n), cut(in), "subcomplex");
    for (auto& r : i1) reverse(r.begin(), r.end()); exact(dense_checked<F>(c, C.relative_complex(i1), n), cut(keep), "relative_complex (unsorted indices)"); }
PART("relative complexes of every pair on four vertices") { auto x = choose_complex(c, 4, c.tier ? 3 : 2); if (x.empty()) c.prune(); set<Spx> in; Cells a; for (auto& s : x) { bool ok = true; for (auto& f : ref::faces(s)) ok &= in.count(f) > 0; if (ok && c.flip()) { in.insert(s); a.push_back(s); } } c.shard_here(); c.state(mc::mix(hcells(x), hcells(a))); if (a.size() > 2) c.interesting(); int how = c.tier ? c.choose(3) : 2; auto y = reorder(x, how), b = a.empty() ? a : reorder(a, (how + 1) % 3); SC X = build_complex<SC>(y, 4, mdim(y)), A; for (auto& s : b) A.add(up(s)); relative<F3>(c, y, b, X, A); relative<F2>(c, y, b, X, A); }
// cubical complexes
static int cdim(const Cube& s) { int d = 0; for (size_t i = 0; i < s.size(); i += 2) d += s[i + 1] != s[i]; return d; }
static vector<pair<Cube, int>> cfaces(const Cube& s) { vector<pair<Cube, int>> f; int g = 1; for (size_t i = 0; i < s.size(); i += 2) if (s[i] != s[i + 1]) { auto t = s; t[i] = s[i + 1]; f.push_back({t, g}); t = s; t[i + 1] = s[i]; f.push_back({t, -g}); g = -g; } return f; }
static vector<Cube> grid(const vector<int>& n) { vector<Cube> out; function<void(size_t, Cube)> go = [&](size_t i, Cube s) { if (i == n.size()) { out.push_back(s); return; } for (int a = 0; a <= n[i]; a++) { auto t = s; t.push_back(a); t.push_back(a); go(i + 1, t); if (a < n[i]) { t.back() = a + 1; go(i + 1, t); } } }; go(0, {}); stable_sort(out.begin(), out.end(), [](const Cube& a, const Cube& b) { return cdim(a) < cdim(b); }); return out; }
struct CModel { vector<vector<Cube>> cells; map<Cube, int> idx; CModel(int D) : cells(D + 1) {} bool has(const Cube& s) const { return idx.count(s); } bool facesin(const Cube& s) const { for (auto& f : cfaces(s)) if (!has(f.first)) return false; return true; } int put(const Cube& s) { auto& r = cells[cdim(s)]; idx[s] = (int)r.size(); r.push_back(s); return idx[s]; } uint64_t hash() const { mc::Hash h; for (auto& r : cells) { h(r.size()); for (auto& s : r) h.range(s.begin(), s.end()); } return h.h; } };
template <class F> vector<RM<F>> cboundary(const CModel& m) { vector<RM<F>> d; for (size_t k = 0; k < m.cells.size(); k++) { RM<F> B(k ? (int)m.cells[k - 1].size() : 0, (int)m.cells[k].size()); if (k) for (size_t j = 0; j < m.cells[k].size(); j++) for (auto& [f, g] : cfaces(m.cells[k][j])) B(m.idx.at(f), (int)j) = RF<F>(g); d.push_back(B); } return d; }
static void compare(mc::Ctx& c, const bats::CubicalComplex& x, const CModel& m, const vector<Cube>& U, const string& n, bool fields = true) {
    c.op(); c.check(x.ncells() == m.idx.size(), n + ": ncells()"); c.check(x.maxdim() + 1 == m.cells.size(), n + ": maxdim()"); auto all = x.get_cubes(); size_t q = 0; c.check(all.size() == m.idx.size(), n + ": get_cubes()");
    for (size_t k = 0; k < m.cells.size(); k++) { c.checkf(x.ncells(k) == m.cells[k].size(), [&] { return n + ": ncells(" + to_string(k) + ")=" + to_string(x.ncells(k)) + " expected " + to_string(m.cells[k].size()); }); auto ck = x.get_cubes(k); c.check(ck.size() == m.cells[k].size(), n + ": get_cubes(k)"); for (size_t i = 0; i < ck.size(); i++) { c.check(ck[i] == m.cells[k][i] && x.get_cube(k, i) == ck[i] && x.get_cell(k, i) == ck[i] && all[q] == ck[i], n + ": cube order"); q++; if (k) { multiset<size_t> w; for (auto& f : cfaces(ck[i])) w.insert(m.idx.at(f.first)); c.check(multiset<size_t>(x.faces_begin(k, i), x.faces_end(k, i)) == w, n + ": faces"); cell_ind ci(k, i); c.check(multiset<size_t>(x.faces_begin(ci), x.faces_end(ci)) == w, n + ": faces of a cell index"); } } }
    for (auto& s : U) c.checkf(x.find_idx(s) == (m.has(s) ? (size_t)m.idx.at(s) : bats::NO_IND), [&] { return n + ": find_idx"; });
    if (fields) { judge<F3>(c, dense_checked<F3>(c, bats::Chain(x, F3()), n), cboundary<F3>(m), n); judge<QQ>(c, dense_checked<QQ>(c, bats::Chain(x, QQ()), n), cboundary<QQ>(m), n); judge<F2>(c, dense_checked<F2>(c, bats::Chain(x, F2()), n), cboundary<F2>(m), n); } }
static void missing(set<Cube>& out, const CModel& m, const Cube& s) { if (m.has(s)) return; out.insert(s); for (auto& f : cfaces(s)) missing(out, m, f.first); }
static string cs(const Cube& s) { string r; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "(") + to_string(s[i]); return r + ")"; }
static void rec(mc::Ctx& c, bats::CubicalComplex& x, CModel& m, const Cube& s) { set<Cube> want; missing(want, m, s); auto r = x.add_recursive(s); if (want.empty()) { for (auto& q : r) c.check((int)q.dim == cdim(s) && (int)q.ind == m.idx[s], "recursive insertion of a present cube reports another"); return; } c.check(r.size() == want.size(), "recursive insertion reports the wrong number of cubes"); vector<pair<pair<size_t, size_t>, Cube>> g; for (auto& q : r) { c.check(q.ind < x.ncells(q.dim), "index out of range"); auto f = x.get_cube(q.dim, q.ind); c.checkf(want.erase(f), [&] { return "recursive insertion reports " + cs(f); }); g.push_back({{q.dim, q.ind}, f}); } sort(g.begin(), g.end()); for (auto& [k, f] : g) c.check((size_t)m.put(f) == k.second, "cube index is not the next one"); }
static void cseq(mc::Ctx& c, const vector<int>& n, int len, int start) { auto U = grid(n); bats::CubicalComplex x(n.size()); CModel m(n.size()); for (auto& s : U) if (cdim(s) < start) { x.add(s); m.put(s); }
    for (int e = 0; e < len; e++) { int q = c.choose(2 * (int)U.size()); if (e == 1) c.shard_here(); auto s = U[q % U.size()]; c.op(); if (q < (int)U.size()) { auto r = x.add(s); c.check((int)r.dim == cdim(s), "cube dimension"); if (m.has(s)) c.check((int)r.ind == m.idx[s], "adding a cube again changes its index"); else if (!m.facesin(s)) c.check(r.ind == bats::NO_IND, "a cube without its faces is not rejected"); else c.check((int)r.ind == m.put(s), "wrong cube index"); } else rec(c, x, m, s); }
    c.state(m.hash()); c.outcome(m.idx.size()); if (m.idx.size() > 4) c.interesting(); compare(c, x, m, U, "cubical");
    for (size_t k = 0; k <= n.size(); k++) { CModel sk(n.size()); for (size_t j = 0; j <= k; j++) for (auto& s : m.cells[j]) sk.put(s); compare(c, x.skeleton(k), sk, U, "skeleton", false); } bats::CubicalComplex y(x), z(n.size()); z = y; CModel m2 = m; rec(c, y, m2, U.back()); compare(c, y, m2, U, "changed copy", false); compare(c, x, m, U, "original", false); compare(c, z, m, U, "assigned", false); z = bats::CubicalComplex(n.size()); compare(c, z, CModel(n.size()), U, "cleared", false);
    auto bad = [&](Cube s) { bool t = false; try { x.add(s); } catch (const std::runtime_error&) { t = true; } c.check(t, "an invalid cube is accepted"); t = false; try { x.add_recursive(s); } catch (const std::runtime_error&) { t = true; } c.check(t, "an invalid cube is accepted recursively"); }; Cube s = U[0]; s.push_back(0); bad(s); s = U[0]; s[1] += 2; bad(s); s = U[0]; s[0] = s[1] + 1; bad(s); compare(c, x, m, U, "after rejected cubes", false); }
PART("cube insertion sequences on an interval and a square") { if (c.flip()) cseq(c, {2}, c.tier ? 5 : 4, 0); else cseq(c, {1, 1}, c.tier ? 5 : 4, 0); }
PART("cube insertion sequences on a 3-cube") { cseq(c, {1, 1, 1}, c.tier ? 3 : 2, c.choose(4)); }
PART("cube insertion sequences on a 2x2 grid") { cseq(c, {2, 2}, c.tier ? 3 : 2, c.choose(3)); }
PART("full cubes") { int n = c.range(2, c.tier ? 5 : 4); auto x = bats::CubicalComplex::generate_cube(n); auto U = grid({n - 1, n - 1, n - 1}); c.state(n); c.interesting(); CModel m(3); for (size_t k = 0; k <= 3; k++) for (auto& s : x.get_cubes(k)) { c.check(cdim(s) == (int)k && m.facesin(s) && !m.has(s), "generated cube"); m.put(s); } c.check(m.idx.size() == U.size(), "generate_cube does not have all cubes"); for (auto& s : U) c.check(m.has(s), "generate_cube misses a cube"); compare(c, x, m, U, "generated cube", n <= 3); }
// products
template <class F> RM<F> kron(const RM<F>& a, const RM<F>& b) { RM<F> r(a.m * b.m, a.n * b.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) for (int k = 0; k < b.m; k++) for (int l = 0; l < b.n; l++) r(i * b.m + k, j * b.n + l) = a(i, j) * b(k, l); return r; }
// tensor complex from dense boundaries: summands ordered by the degree of the first factor
template <class F> vector<RM<F>> tensor(const vector<RM<F>>& a, const vector<RM<F>>& b, int top) { vector<RM<F>> d; auto da = [&](int p) { return p < (int)a.size() ? a[p].n : 0; }; auto db = [&](int p) { return p < (int)b.size() ? b[p].n : 0; }; auto off = [&](int k, int p) { int s = 0; for (int i = 0; i < p; i++) s += da(i) * db(k - i); return s; };
    for (int k = 0; k <= top; k++) { RM<F> M(k ? off(k - 1, k) : 0, off(k, k + 1)); if (k) for (int p = 0; p <= k; p++) { int q = k - p; if (!da(p) || !db(q)) continue; if (p) { auto K = kron<F>(a[p], RM<F>::eye(db(q))); for (int i = 0; i < K.m; i++) for (int j = 0; j < K.n; j++) M(off(k - 1, p - 1) + i, off(k, p) + j) = M(off(k - 1, p - 1) + i, off(k, p) + j) + K(i, j); } if (q) { auto K = kron<F>(RM<F>::eye(da(p)), b[q]); for (int i = 0; i < K.m; i++) for (int j = 0; j < K.n; j++) M(off(k - 1, p) + i, off(k, p) + j) = M(off(k - 1, p) + i, off(k, p) + j) + (p % 2 ? RF<F>(0) - K(i, j) : K(i, j)); } } d.push_back(M); } return d; }
template <class F> void tensor_part(mc::Ctx& c, const Cells& x, const Cells& y) { auto A = bats::Chain(build_complex<SC>(x, 4, mdim(x)), F()); auto B = bats::Chain(build_complex<SC>(y, 4, mdim(y)), F()); auto a = dense_checked<F>(c, A, "left"), b = dense_checked<F>(c, B, "right"); int top = mdim(x) + mdim(y);
    for (int dm = 0; dm <= top + 1; dm++) { auto T = dm > top ? tensor_product(A, B) : tensor_product(A, B, dm); auto d = dense_checked<F>(c, T, "tensor product"); auto w = tensor<F>(a, b, min(dm, top)); c.check(d.size() == w.size(), "tensor product: number of dimensions"); for (size_t k = 0; k < w.size(); k++) c.checkf(d[k] == w[k], [&] { return "tensor product " + FT<F>::name() + " dimension " + to_string(k) + ": " + d[k].str() + " expected " + w[k].str(); }); } }
PART("tensor products of every pair of complexes on three vertices") { auto x = choose_complex(c, 3, 2), y = choose_complex(c, 3, 2); if (x.empty() || y.empty()) c.prune(); c.shard_here(); c.state(mc::mix(hcells(x), hcells(y))); if (x.size() > 2 && y.size() > 2) c.interesting(); tensor_part<F3>(c, x, y); tensor_part<F2>(c, x, y); if (c.tier) tensor_part<QQ>(c, x, y); }
// triangulated products (up to dimension m: the triangulated m-skeleton of the product cell complex): chains of pairs whose projections are simplices with dimensions adding up to at most m
static set<Spx> product_cells(const Cells& x, const Cells& y, int n, int maxdim) { set<Spx> xs(x.begin(), x.end()), ys(y.begin(), y.end()); vector<pair<int, int>> vs; for (auto& a : x) if (a.size() == 1) for (auto& b : y) if (b.size() == 1) vs.push_back({a[0], b[0]}); sort(vs.begin(), vs.end()); set<Spx> out;
    function<void(vector<pair<int, int>>&)> go = [&](vector<pair<int, int>>& ch) { if (!ch.empty()) { Spx s, a, b; for (auto& [i, j] : ch) { s.push_back(i + n * j); if (a.empty() || a.back() != i) a.push_back(i); if (b.empty() || b.back() != j) b.push_back(j); } if (!xs.count(a) || !ys.count(b) || (int)(a.size() + b.size()) > maxdim + 2) return; sort(s.begin(), s.end()); out.insert(s); } for (auto& v : vs) if (ch.empty() || (v.first >= ch.back().first && v.second >= ch.back().second && v != ch.back())) { ch.push_back(v); go(ch); ch.pop_back(); } }; vector<pair<int, int>> e; go(e); return out; }
template <class X> void product_checked(mc::Ctx& c, const X& XY, const set<Spx>& want, const string& n) { c.op(); c.checkf(XY.ncells() == want.size(), [&] { return n + ": " + to_string(XY.ncells()) + " cells, expected " + to_string(want.size()); }); for (auto& s : XY.get_simplices()) { Spx t(s.begin(), s.end()); c.checkf(want.count(t) > 0, [&] { return n + ": unexpected simplex " + ref::spx_str(t); }); } }
PART("triangulated products of every pair of complexes on three vertices") { auto x = choose_complex(c, 3, 2, true), y = choose_complex(c, c.tier ? 3 : 2 + c.choose(2), 2); if (x.empty() || y.empty()) c.prune(); int dx = mdim(x), dy = mdim(y); c.shard_here(); int how = c.choose(2) * 2; x = reorder(x, how); y = reorder(y, how); c.state(mc::mix(hcells(x), hcells(y))); if (dx && dy) c.interesting(); auto X = build_complex<SC>(x, 3, dx), Y = build_complex<SC>(y, 3, dy); LC LX(3, dx), LY(3, dy); for (auto& s : x) LX.add(up(s)); for (auto& s : y) LY.add(up(s));
    for (int md = 0; md <= dx + dy; md++) { auto want = product_cells(x, y, 3, md); auto P = bats::TriangulatedProduct(X, Y, (size_t)md); product_checked(c, P, want, "triangulated product up to dimension " + to_string(md)); auto Q = bats::TriangulatedProduct(X, Y, (size_t)md, (size_t)3); product_checked(c, Q, want, "triangulated product with given shift"); }
    auto full = product_cells(x, y, 3, 9); auto P = bats::TriangulatedProduct(X, Y); product_checked(c, P, full, "triangulated product"); 
    { bool vy = true; for (auto& s : y) if (s.size() == 1 && s[0] >= (int)LY.ncells(0)) vy = false; if (vy) { auto LP = bats::TriangulatedProduct(LX, LY); product_checked(c, LP, full, "packed triangulated product"); } }
    auto ba = ref::betti(ref::complex_of<RF<F3>>(ref::by_dim(x))), bb = ref::betti(ref::complex_of<RF<F3>>(ref::by_dim(y))); vector<int> want(dx + dy + 1, 0); for (size_t i = 0; i < ba.size(); i++) for (size_t j = 0; j < bb.size(); j++) want[i + j] += ba[i] * bb[j]; auto d = dense_checked<F3>(c, bats::Chain(P, F3()), "product"); auto got = ref::betti(d); got.resize(want.size()); c.check(got == want, "homology of the triangulated product breaks the Kunneth formula"); }
// Eilenberg-Zilber maps (the library leaves out the shuffle signs, so the chain-map law is decided over F2 and listed as a known finding over F3)
template <class F, class CX> void ez_checked(mc::Ctx& c, const CX& X, const CX& Y, const Cells& x, const Cells& y, int md, const string& nm) { bool full = md == mdim(x) + mdim(y); c.op(); auto [T, E, P] = bats::EilenbergZilber(X, Y, (size_t)md, F()); int nx = 0; for (auto& s : x) nx = max(nx, s.back() + 1); product_checked(c, P, product_cells(x, y, nx, md), nm + " product");
    auto a = dense_complex<F>(bats::Chain(X, F()), c), b = dense_complex<F>(bats::Chain(Y, F()), c); auto d = dense_checked<F>(c, T, (nm + " tensor complex").c_str()), w = tensor<F>(a, b, md); c.check(d.size() == w.size(), nm + ": dimensions of the tensor complex"); for (int k = 0; k <= md; k++) c.checkf(d[k] == w[k], [&] { return nm + " tensor complex, dimension " + to_string(k) + ": " + d[k].str() + " expected " + w[k].str(); });
    auto p = dense_checked<F>(c, bats::Chain(P, F()), (nm + " product chain complex").c_str()); vector<RM<F>> e; c.check((int)E.maxdim() == md, nm + ": map dimensions"); for (int k = 0; k <= md; k++) { auto M = rdmat<F>(E[k], c, nm + " map"); c.check(M.n == d[k].n && M.m == (k < (int)p.size() ? p[k].n : 0), nm + ": size of the map"); e.push_back(M); }
    { int j = 0; for (size_t i = 0; i < X.ncells(0); i++) for (size_t l = 0; l < Y.ncells(0); l++, j++) { int cnt = 0; for (int r = 0; r < e[0].m; r++) if (!e[0](r, j).zero()) { cnt++; auto s = P.get_simplex(0, r); c.check(s[0] == X.get_simplex(0, i)[0] + nx * Y.get_simplex(0, l)[0], nm + ": vertex sent to the wrong product vertex"); } c.check(cnt == 1, nm + ": vertex column"); } }
    if (is_same<F, F2>::value) { for (int k = 1; k <= md; k++) { auto l = p[k] * e[k], r = e[k - 1] * d[k]; c.checkf(l == r, [&] { return nm + ": not a chain map in dimension " + to_string(k); }); } auto R = bats::Reduce(T); auto Q = bats::Reduce(bats::Chain(P, F())); for (int k = 0; k <= md; k++) { if (k == md && !full) continue; c.check(R.hdim(k) == Q.hdim(k), nm + ": homology of the product and of the tensor product differ"); auto H = rdmat<F>(bats::induced_map(E, R, Q, k), c, "induced"); c.check(H.rank() == (int)R.hdim(k), nm + ": not an isomorphism on homology"); } }
    else for (int k = 1; k <= md; k++) c.check(p[k] * e[k] == e[k - 1] * d[k], nm + ": not a chain map in odd characteristic", "eilenberg-zilber-signs");
    if (full) { auto RX = bats::Reduce(bats::Chain(X, F())), RY = bats::Reduce(bats::Chain(Y, F())); auto R = bats::Reduce(T); for (int k = 0; k <= md; k++) { RM<F> all((int)R.hdim(k), 0); for (int i = 0; i <= k; i++) { if (i > mdim(x) || k - i > mdim(y)) continue; auto K = rdmat<F>(bats::kron_homology(i, RX, k - i, RY, R), c, "kron"); c.check(K.m == (int)R.hdim(k) && K.n == (int)(RX.hdim(i) * RY.hdim(k - i)), "kron_homology: size"); all = all.hcat(K); } c.check(all.n == all.m && all.rank() == all.n, "products of homology classes do not form a basis of the homology of the tensor product"); } } }
PART("Eilenberg-Zilber maps of every pair of complexes on up to three vertices") { auto x = choose_complex(c, 3, 2, true), y = choose_complex(c, c.tier ? 3 : 2, 2, true); int dx = mdim(x), dy = mdim(y); bool sw = c.flip(); if (sw) swap(x, y), swap(dx, dy); int nx = 0, ny = 0; for (auto& s : x) nx += s.size() == 1; for (auto& s : y) ny += s.size() == 1; c.shard_here(); int how = c.choose(2) * 2; x = reorder(x, how); y = reorder(y, how); c.state(mc::mix(hcells(x), hcells(y))); if (dx && dy) c.interesting(); auto X = build_complex<SC>(x, nx, dx), Y = build_complex<SC>(y, ny, dy); LC LX(nx, dx), LY(ny, dy); for (auto& s : x) LX.add(up(s)); for (auto& s : y) LY.add(up(s)); for (int md = 0; md <= dx + dy; md++) { ez_checked<F2>(c, X, Y, x, y, md, "Eilenberg-Zilber"); ez_checked<F2>(c, LX, LY, x, y, md, "packed Eilenberg-Zilber"); if (md == dx + dy) { ez_checked<F3>(c, X, Y, x, y, md, "Eilenberg-Zilber F3"); ez_checked<F3>(c, LX, LY, x, y, md, "packed Eilenberg-Zilber F3"); } } }
template <class F> void ez_relative(mc::Ctx& c, const Cells& x, const Cells& a, const Cells& y, const Cells& b, int nx, int ny) { int md = mdim(x) + mdim(y); auto X = build_complex<SC>(x, nx, mdim(x)), Y = build_complex<SC>(y, ny, mdim(y)), A = build_complex<SC>(a, nx, mdim(x)), B = build_complex<SC>(b, ny, mdim(y)); c.op(); auto [T, E, P] = bats::EilenbergZilber(X, A, Y, B, (size_t)md, F());
    auto dx = dense_complex<F>(bats::Chain(X, A, F()), c), dy = dense_complex<F>(bats::Chain(Y, B, F()), c); auto bx = ref::betti(dx), by = ref::betti(dy); auto d = dense_checked<F>(c, T, "relative tensor complex"), p = dense_checked<F>(c, P, "relative product complex"); auto w = tensor<F>(dx, dy, md); for (int k = 0; k <= md; k++) c.checkf(d[k] == w[k], [&] { return "relative tensor complex, dimension " + to_string(k) + ": " + d[k].str() + " expected " + w[k].str(); });
    vector<int> want(md + 1, 0); for (size_t i = 0; i < bx.size(); i++) for (size_t j = 0; j < by.size(); j++) want[i + j] += bx[i] * by[j]; auto g1 = ref::betti(d), g2 = ref::betti(p); g1.resize(md + 1); g2.resize(md + 1); c.check(g1 == want, "homology of the relative tensor product breaks the Kunneth formula"); c.check(g2 == want, "homology of the relative product breaks the Kunneth formula");
    vector<RM<F>> e; for (int k = 0; k <= md; k++) { auto M = rdmat<F>(E[k], c, "relative map"); c.check(M.n == d[k].n && M.m == p[k].n, "relative Eilenberg-Zilber: size of the map"); e.push_back(M); } if (is_same<F, F2>::value) { for (int k = 1; k <= md; k++) c.check(p[k] * e[k] == e[k - 1] * d[k], "relative Eilenberg-Zilber: not a chain map"); auto R = bats::Reduce(T), Q = bats::Reduce(P); for (int k = 0; k <= md; k++) { auto H = rdmat<F>(bats::induced_map(E, R, Q, k), c, "induced"); c.check(H.rank() == (int)R.hdim(k), "relative Eilenberg-Zilber: not an isomorphism on homology"); } } }
PART("relative Eilenberg-Zilber maps of every pair of pairs on up to three vertices") { auto x = choose_complex(c, 3, c.tier ? 2 : 1, true), y = choose_complex(c, 2, 1, true); bool sw = c.flip(); if (sw) swap(x, y); auto sub = [&](const Cells& z) { set<Spx> in; Cells a; for (auto& s : z) { bool ok = true; for (auto& f : ref::faces(s)) ok &= in.count(f) > 0; if (ok && c.flip()) { in.insert(s); a.push_back(s); } } return a; }; auto a = sub(x), b = sub(y); if (a.empty() || b.empty()) c.prune(); c.shard_here(); c.state(mc::mix(mc::mix(hcells(x), hcells(a)), mc::mix(hcells(y), hcells(b)))); if (mdim(x) && mdim(y)) c.interesting(); ez_relative<F2>(c, x, a, y, b, sw ? 2 : 3, sw ? 3 : 2); ez_relative<F3>(c, x, a, y, b, sw ? 2 : 3, sw ? 3 : 2); }
// larger complexes
PART("larger simplicial complexes") { int k = c.choose(bigc::N), how = c.choose(4), ord = c.choose(3); c.shard_here(); auto z = bigc::make(k, how); c << "kind " << k << " part " << how; all_simplicial(c, z.x, z.nv, ord); }
PART("larger relative complexes") { int k = c.choose(bigc::N), h1 = c.choose(2), h2 = 1 + c.choose(3), ord = c.choose(3), sub = c.choose(2); c.shard_here(); auto z = bigc::make(k, h1), w = bigc::make(k, h2); set<Spx> in(z.x.begin(), z.x.end()); Cells a; for (auto& s : w.x) if (in.count(s) && (!sub || (int)s.size() <= mdim(z.x))) a.push_back(s); auto y = reorder(z.x, ord), b = reorder(a, (ord + 1) % 3); c.state(mc::mix(hcells(y), hcells(b))); c.interesting(); c << "kind " << k; auto X = build_complex<SC>(y, z.nv, mdim(y)), A = build_complex<SC>(b, z.nv, mdim(y)); relative<F3>(c, y, b, X, A); relative<F2>(c, y, b, X, A); }
PART("larger cubical complexes") { static const vector<vector<int>> G = {{12}, {5, 4}, {9, 2}, {3, 2, 2}, {2, 2, 3}, {1, 2, 1, 2}, {1, 1, 1, 1, 1}, {300}}; auto& g = G[c.choose(8)]; int how = c.choose(3), drop = c.choose(3); c.shard_here(); auto U = grid(g); set<Cube> out; vector<Cube> x; int q = 0; for (auto& s : U) { bool ok = true; for (auto& f : cfaces(s)) ok &= !out.count(f.first); if (!ok || (drop && cdim(s) > 0 && ++q % (4 + drop) == 1)) out.insert(s); else x.push_back(s); } auto y = x; if (how) stable_sort(y.begin(), y.end(), [&](const Cube& a, const Cube& b) { return cdim(a) != cdim(b) ? cdim(a) < cdim(b) : how == 1 ? a > b : Cube(a.rbegin(), a.rend()) < Cube(b.rbegin(), b.rend()); }); bats::CubicalComplex X((int)g.size()); CModel m((int)g.size()); for (auto s : y) { c.op(); auto r = X.add(s); c.check((int)r.dim == cdim(s) && (int)r.ind == m.put(s), "larger cubical complex: index"); } c.state(m.hash()); c.interesting(); c.outcome(y.size()); compare(c, X, m, U, "larger cubical complex"); }
PART("products of complexes with gaps in their vertex labels") { static const vector<vector<int>> G = {{0, 2, 3}, {1, 4, 9}, {0, 1, 6}, {5, 6, 7}}; auto x = choose_complex(c, 3, c.tier ? 2 : 1), y = choose_complex(c, 2 + c.choose(2), 1); if (x.empty() || y.empty()) c.prune(); auto gx = c.pick(G), gy = c.pick(G); c.shard_here(); for (auto& s : x) for (auto& v : s) v = gx[v]; for (auto& s : y) for (auto& v : s) v = gy[v]; c.state(mc::mix(hcells(x), hcells(y))); c.interesting(); int dx = mdim(x), dy = mdim(y), nx = 0, ny = 0; for (auto& s : x) nx = max(nx, s.back() + 1); for (auto& s : y) ny = max(ny, s.back() + 1);
    SC X, Y; for (auto& s : x) X.add(up(s)); for (auto& s : y) Y.add(up(s)); LC LX(nx, dx), LY(ny, dy); for (auto& s : x) LX.add(up(s)); for (auto& s : y) LY.add(up(s));
    for (int md = 0; md <= dx + dy; md++) { auto want = product_cells(x, y, nx, md); product_checked(c, bats::TriangulatedProduct(X, Y, (size_t)md), want, "triangulated product"); product_checked(c, bats::TriangulatedProduct(LX, LY, (size_t)md), want, "packed triangulated product"); auto w2 = product_cells(x, y, nx + 2, md); product_checked(c, bats::TriangulatedProduct(X, Y, (size_t)md, (size_t)nx + 2), w2, "triangulated product with given shift"); product_checked(c, bats::TriangulatedProduct(LX, LY, (size_t)md, (size_t)nx + 2), w2, "packed triangulated product with given shift"); ez_checked<F2>(c, X, Y, x, y, md, "Eilenberg-Zilber"); ez_checked<F2>(c, LX, LY, x, y, md, "packed Eilenberg-Zilber"); }
    product_checked(c, bats::TriangulatedProduct(X, Y), product_cells(x, y, nx, 9), "triangulated product"); product_checked(c, bats::TriangulatedProduct(LX, LY), product_cells(x, y, nx, 9), "packed triangulated product"); }
