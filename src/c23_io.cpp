// C23: saved objects read back equal, saving changes nothing, and saving what was read gives the same text.
#include "filt.hpp"
#include "big.hpp"
#include <util/io.hpp>
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using namespace std; typedef bats::SimplicialComplex SC; typedef bats::CubicalComplex QC; typedef ref::Spx Spx;
// a scratch directory per case, removed with its files
struct Files { string root; vector<string> f, dirs; Files() { char t[] = "/tmp/c23_XXXXXX"; if (!mkdtemp(t)) throw runtime_error("no scratch directory"); root = t; } Files(const Files&) = delete; ~Files() { for (auto& x : f) unlink(x.c_str()); for (auto& x : dirs) rmdir(x.c_str()); rmdir(root.c_str()); } string file(const string& n) { f.push_back(root + "/" + n); return f.back(); } string dir(const string& n) { dirs.push_back(root + "/" + n); return dirs.back(); } };
static string slurp(const string& f) { ifstream i(f); stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const string& f, const string& t) { ofstream o(f); o << t; }
template <class F> string vtext(const vector<RF<F>>& v) { string s; for (size_t i = 0; i < v.size(); i++) if (!v[i].zero()) { ostringstream o; o << FT<F>::from(v[i]); s += to_string(i) + ":" + o.str() + ","; } return s; }

template <class F> void vectors(mc::Ctx& c) { int m = c.range(0, 5); auto d = choose_vec<F>(c, m, 5); c.shard_here(); mc::Hash h; for (auto& x : d) h(FT<F>::order ? (uint64_t)0 : 1), h.range(x.str().begin(), x.str().end()); c << FT<F>::name() << vstr(d); SV<F> v = mkvec<F>(d), v0 = v; string t = v.str(); c.op(); c.check(v == v0, "writing a vector changes it"); c.check(t == vtext<F>(d) + "\n", "text of a vector"); ostringstream o; v.write(o); c.check(o.str() == t, "write and str differ"); string l = t.substr(0, t.size() - 1); SV<F> w(l); c.op(); c.checkf(rdvec<F>(w, m, c, "vector read back") == d, [&] { return "vector " + l + " reads back as " + w.str(); }); c.check(w == v && v == w && w.str() == t, "vector read back is not equal"); c.state(hash<string>()(FT<F>::name() + to_string(m) + t)); if (t.size() > 12) c.interesting(); }
PART("sparse vectors") { switch (c.choose(4)) { case 0: vectors<F2>(c); break; case 1: vectors<F3>(c); break; case 2: vectors<F5>(c); break; default: vectors<QQ>(c); } }
PART("integer vectors") { int m = c.range(0, c.tier ? 5 : 4); static const vector<int> al = {0, -1, 1, -12, 2147483647, -2147483647 - 1}; vector<size_t> ind; vector<int> val; static const size_t at[] = {0, 1, 9, 10, 2147483647}; for (int i = 0; i < m; i++) { int v = c.pick(al); if (v) { ind.push_back(at[i]); val.push_back(v); } } c.shard_here(); SparseVector<int, size_t> v(ind, val); string t = v.str(); c.state(hash<string>()(t)); string l = t.substr(0, t.size() - 1); SparseVector<int, size_t> w(l); c.op(); size_t k = 0; for (auto it = w.nzbegin(); it != w.nzend(); ++it, ++k) c.check(k < ind.size() && it->ind == ind[k] && it->val == val[k], "integer vector read back"); c.check(k == ind.size() && w.str() == t, "integer vector read back"); if (ind.size() > 2) c.interesting(); }
PART("rationals") { static const vector<int> al = {1, -1, 2, -3, 7, -10}; int n = c.pick(al), d = c.pick(al); if (!c.tier && d < 0) c.prune(); int n2 = c.pick(al); c.shard_here(); SparseVector<QQ, size_t> v({3, 11}, {QQ(n, d), QQ(n2, 6)}); string t = v.str(), l = t.substr(0, t.size() - 1); SparseVector<QQ, size_t> w(l); c.op(); vector<RF<QQ>> want(12); want[3] = RF<QQ>(n, d); want[11] = RF<QQ>(n2, 6); c.checkf(rdvec<QQ>(w, 12, c, "rational vector") == want && w.str() == t, [&] { return "rational vector " + l + " reads back as " + w.str(); }); c.state(hash<string>()(t)); c.interesting(); }

template <class F> void same_matrix(mc::Ctx& c, const CM<F>& M, const RM<F>& d, const string& n) { c.check(M.nrow() == (size_t)d.m && M.ncol() == (size_t)d.n && M.cols().size() == (size_t)d.n, n + ": shape"); c.check(rdmat<F>(M, c, n) == d, n + ": entries"); }
template <class F> void matrices(mc::Ctx& c, int cells, int k) { int m = big_mode() ? dim(c, 21) : c.range(0, 4), n = big_mode() ? dim(c, 33) : c.range(0, 4); if (!big_mode() && m * n > cells) c.prune(); auto d = choose_mat<F>(c, m, n, k); c.shard_here(); auto A = mkmat<F>(d); string t = A.str(); c.op(); same_matrix<F>(c, A, d, "matrix after writing"); string want = "ColumnMatrix\n" + to_string(m) + "," + to_string(n) + "\n"; for (int j = 0; j < n; j++) want += vtext<F>(d.col(j)) + "\n"; c.check(t == want, "text of a matrix"); c.state(hash<string>()(FT<F>::name() + t)); if (m > 1 && n > 1) c.interesting();
    { istringstream i(t + "tail\n"); CM<F> B(i); same_matrix<F>(c, B, d, "matrix read from a stream"); c.check(B == A && A == B && B.str() == t, "matrix read from a stream is not equal"); string rest; getline(i, rest); c.check(rest == "tail", "reading a matrix consumes the wrong number of lines"); istringstream i2(t); B.read(i2); same_matrix<F>(c, B, d, "matrix read over another"); CM<F> Z(3, 3); istringstream i3(t); Z.read(i3); same_matrix<F>(c, Z, d, "matrix read over another"); }
    if (c.taken.size() % 3 == 0 || m * n <= 4) { Files f; auto p = f.file("m"), q = f.file("m2"); A.save(p); c.op(); c.check(slurp(p) == t, "saved matrix"); CM<F> B(p); same_matrix<F>(c, B, d, "matrix read from a file"); B.save(q); c.check(slurp(q) == t, "matrix saved again"); } }
PART("matrices over F2") { matrices<F2>(c, c.tier ? 12 : 9, 2); }
PART("matrices over F3") { matrices<F3>(c, c.tier ? 9 : 8, 3); }
PART("matrices over Q") { matrices<QQ>(c, c.tier ? 6 : 4, 5); }
typedef ColumnMatrix<SparseVector<int, size_t>> IM;
static IM choose_imat(mc::Ctx& c, int m, int n, vector<int>& d, const vector<int>& al) { d.assign(m * n, 0); vector<SparseVector<int, size_t>> cols; for (int j = 0; j < n; j++) { vector<size_t> i; vector<int> v; for (int k = 0; k < m; k++) { int x = d[j * m + k] = c.pick(al); if (x) { i.push_back(k); v.push_back(x); } } cols.emplace_back(i, v); } return IM(m, n, cols); }
static bool eq(const IM& A, int m, int n, const vector<int>& d) { if ((int)A.nrow() != m || (int)A.ncol() != n) return false; for (int j = 0; j < n; j++) { size_t nz = 0; for (int k = 0; k < m; k++) { nz += d[j * m + k] != 0; } size_t got = 0; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it, ++got) if ((int)it->ind >= m || d[j * m + it->ind] != it->val) return false; if (got != nz) return false; } return true; }
PART("integer matrices") { int m = c.range(0, 3), n = c.range(0, 3); if (m * n > (c.tier ? 9 : 6)) c.prune(); vector<int> d; IM A = choose_imat(c, m, n, d, {0, -1, 12}); c.shard_here(); string t = A.str(); istringstream i(t); IM B(i); c.op(); c.check(eq(A, m, n, d) && eq(B, m, n, d) && B.str() == t, "integer matrix read back"); c.state(hash<string>()(t)); if (m * n > 3) c.interesting(); }

static void same_complex(mc::Ctx& c, const SC& X, const SC& Y, const string& n) { c.check(X.ncells() == Y.ncells(), n + ": number of simplices"); for (size_t k = 0; k <= max(X.maxdim(), Y.maxdim()); k++) { size_t a = k <= X.maxdim() ? X.ncells(k) : 0, b = k <= Y.maxdim() ? Y.ncells(k) : 0; c.check(a == b, n + ": number of simplices"); for (size_t i = 0; i < a; i++) { c.check(X.get_simplex(k, i) == Y.get_simplex(k, i), n + ": order of the simplices"); auto s = X.get_simplex(k, i); c.check(Y.find_idx(s) == i, n + ": index of a simplex"); if (k) { auto [p, q] = X.boundary(k, i); auto [r, s2] = Y.boundary(k, i); c.check(p == r && q == s2, n + ": boundary"); } } } }
static void sc_roundtrip(mc::Ctx& c, const SC& X, const string& n) { Files f; auto p = f.file("x"), q = f.file("y"); SC X0(X); X.save(p); c.op(); same_complex(c, X, X0, n + " after saving"); string want = "SimplicialComplex\n"; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { for (auto v : X.get_simplex(k, i)) want += to_string(v) + ","; want += "\n"; } c.check(slurp(p) == want, n + ": text"); SC Y{string(p)}; c.op(); same_complex(c, X, Y, n + " read back"); Y.save(q); c.check(slurp(q) == want, n + ": saved again"); c.state(hash<string>()(want)); vector<size_t> s{0, 7}; vector<size_t> z{7}; if (Y.find_idx(z) != bats::NO_IND) return; Y.add(z); z = {0}; if (Y.find_idx(z) != bats::NO_IND) { auto r = Y.add(s); c.check(r.dim == 1 && r.ind == (X.maxdim() >= 1 ? X.ncells(1) : 0), n + ": adding to a complex that was read"); } }
PART("simplicial complexes on three and four vertices") { int nv = c.range(0, 4); auto x = nv == 0 ? vector<Spx>{} : choose_complex(c, nv, 3); int r = c.range(0, 2), pad = c.flip(); c.shard_here(); reorder(x, r); c.op(); show(c, x); if (x.size() > 4) c.interesting(); int md = x.empty() ? 0 : mdim(x); auto X = build_complex<SC>(x, nv, md + pad); sc_roundtrip(c, X, "simplicial complex"); }
PART("simplicial complexes with gaps and large labels") { int mask = c.choose(1 << 5); static const size_t lab[] = {0, 3, 10, 99, 1000000}; bool down = c.flip(); int top = c.range(1, 3); c.shard_here(); SC X; vector<size_t> vs; for (int i = 0; i < 5; i++) if (mask >> i & 1) vs.push_back(lab[i]); if (down) reverse(vs.begin(), vs.end()); for (size_t v : vs) { vector<size_t> s{v}; X.add(s); } for (int k = 2; k <= top + 1; k++) for (int m = 0; m < 1 << vs.size(); m++) if (__builtin_popcount(m) == k) { vector<size_t> s; for (size_t i = 0; i < vs.size(); i++) if (m >> i & 1) s.push_back(vs[i]); X.add(s); } if (vs.size() > 2) c.interesting(); sc_roundtrip(c, X, "simplicial complex with gaps"); }
PART("cubical complexes from a list of cubes") { int a = c.range(1, 2), b = c.range(1, 2); int mask = c.choose(1 << (a * b)); bool pre = c.flip(); QC X(2); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) if (mask >> (i * b + j) & 1) { vector<size_t> s = {(size_t)i, (size_t)i + 1, (size_t)j, (size_t)j + 1}; X.add_recursive(s); } int drop = c.range(0, 2); c.shard_here(); string t; vector<vector<vector<size_t>>> want(3); for (size_t k = 0; k + drop <= 2; k++) for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_cube(k, i); string l; for (size_t v : s) l += (l.empty() ? "" : ",") + to_string(v); t += l + "\n"; want[k].push_back(s); } c.state(hash<string>()(t)); if (mask & (mask - 1)) c.interesting(); Files f; auto p = f.file("q"); spit(p, t); QC Y(2); if (pre && want[0].size()) { auto s = want[0][0]; Y.add(s); } Y.load_cubes(p); c.op(); for (size_t k = 0; k <= 2; k++) { c.check(Y.ncells(k) == want[k].size(), "cubes loaded"); for (size_t i = 0; i < want[k].size(); i++) { c.check(Y.get_cube(k, i) == want[k][i] && Y.find_idx(want[k][i]) == i, "order of the cubes loaded"); } } }
// cellular maps: any sequence of integer matrices
static void same_map(mc::Ctx& c, const bats::CellularMap& F, const bats::CellularMap& G, size_t nd, const string& n) { c.check(F.maxdim() + 1 == nd && G.maxdim() + 1 == nd, n + ": dimensions " + to_string(G.maxdim() + 1) + ", expected " + to_string(nd)); for (size_t k = 0; k < nd; k++) c.check(F[k] == G[k] && F[k].nrow() == G[k].nrow() && F[k].ncol() == G[k].ncol(), n + ": matrix"); }
static void map_roundtrip(mc::Ctx& c, const bats::CellularMap& F, size_t nd) { Files f; auto p = f.file("f"), q = f.file("g"); bats::CellularMap F0(F); F.save(p); c.op(); same_map(c, F, F0, nd, "map after saving"); string want = "CellularMap\n"; for (size_t k = 0; k < nd; k++) { IM M(F[k]); want += M.str(); } c.check(slurp(p) == want, "text of a map"); bats::CellularMap G(p); c.op(); same_map(c, F, G, nd, "map read back"); G.save(q); c.check(slurp(q) == want, "map saved again"); c.state(hash<string>()(want)); }
PART("maps with arbitrary matrices") { int nd = c.range(0, c.tier ? 3 : 2); bats::CellularMap F; vector<int> d; size_t tot = 0; for (int k = 0; k < nd; k++) { int m = c.range(0, 2), n = c.range(0, 2); F[k] = choose_imat(c, m, n, d, k ? vector<int>{0, -1} : vector<int>{0, 1, -2}); tot += m * n; } c.shard_here(); if (tot > 3) c.interesting(); map_roundtrip(c, F, nd); }
PART("simplicial maps") { int nv = c.range(1, 3); auto x = choose_complex(c, nv, 2, true); vector<size_t> f0(nv); for (auto& v : f0) v = c.choose(3); c.shard_here(); if (x.size() > 4) c.interesting(); auto X = build_complex<SC>(x, nv, mdim(x)); vector<Spx> full; for (auto& s : ref::all_simplices(3, 2)) full.push_back(s); auto Y = build_complex<SC>(full, 3, 2); auto F = bats::SimplicialMap(X, Y, f0); map_roundtrip(c, F, F.maxdim() + 1); if (nv == 3) { bats::CellularMap I(X, Y); map_roundtrip(c, I, I.maxdim() + 1); } auto J = bats::CellularMap::identity(X); map_roundtrip(c, J, J.maxdim() + 1); }
// diagrams are saved as a directory of nodes and edges
template <class NT, class ET, class MN, class ME, class CN, class CE> void diagram(mc::Ctx& c, MN mknode, ME mkedge, CN cmpnode, CE cmpedge) { int nn = c.range(0, 3), ne = nn ? c.range(0, c.tier ? 3 : 2) : 0; vector<pair<int, int>> e(ne); for (auto& p : e) { p.first = c.choose(nn); p.second = c.choose(nn); } vector<int> nk(nn), ek(ne); for (int& x : nk) x = c.choose(2); for (int& x : ek) x = c.choose(2); c.shard_here(); mc::Hash h; h(nn)(ne).range(nk.begin(), nk.end()).range(ek.begin(), ek.end()); for (auto& p : e) h(p.first)(p.second); c.state(h.h); if (ne > 1) c.interesting(); bats::Diagram<NT, ET> D; for (int i = 0; i < nn; i++) D.add_node(mknode(nk[i])); for (int i = 0; i < ne; i++) D.add_edge(e[i].first, e[i].second, mkedge(ek[i])); Files f; string dir = f.dir("d"); vector<string> nf, ef; auto md = f.file("d/metadata"); for (int i = 0; i < nn; i++) nf.push_back(f.file("d/node" + to_string(i))); for (int i = 0; i < ne; i++) ef.push_back(f.file("d/edge" + to_string(i))); D.save(dir); c.op(); string want = to_string(nn) + "\n" + to_string(ne) + "\n"; for (auto& p : e) want += to_string(p.first) + "," + to_string(p.second) + "\n"; c.checkf(slurp(md) == want, [&] { return "metadata of a diagram: " + slurp(md); }); for (int i = 0; i < nn; i++) cmpnode(nf[i], D.node[i], nk[i]); for (int i = 0; i < ne; i++) cmpedge(ef[i], D.edata[i], ek[i]); f.f.push_back(dir + "/node" + to_string(nn)); c.check(access((dir + "/node" + to_string(nn)).c_str(), F_OK) != 0 && access((dir + "/edge" + to_string(ne)).c_str(), F_OK) != 0, "diagram writes too many files"); }
PART("diagrams of complexes and maps") { auto mk = [](int k) { SC X(3, 2); vector<size_t> s; for (size_t i = 0; i < 2 + (size_t)k; i++) { s = {i}; X.add(s); } s = {0, 1}; X.add(s); return X; }; auto mf = [](int k) { bats::CellularMap F(k); for (int j = 0; j <= k; j++) F[j] = IM::identity(j + k); return F; }; diagram<SC, bats::CellularMap>(c, mk, mf, [&](string p, SC& X, int k) { SC Y{string(p)}, Z = mk(k); same_complex(c, Z, Y, "node read back"); same_complex(c, Z, X, "node after saving"); }, [&](string p, bats::CellularMap& F, int k) { bats::CellularMap G(p), H = mf(k); same_map(c, H, G, k + 1, "edge read back"); same_map(c, H, F, k + 1, "edge after saving"); }); }
PART("diagrams of matrices") { auto mk = [](int k) { RM<F3> M(2, 1 + k); for (size_t i = 0; i < M.a.size(); i++) M.a[i] = (int)(i * 2 + k) % 3; return M; }; auto mm = [&](int k) { return mkmat<F3>(mk(k)); }; auto cmp = [&](string p, CM<F3>& A, int k) { CM<F3> B(p); same_matrix<F3>(c, B, mk(k), "matrix of a diagram read back"); same_matrix<F3>(c, A, mk(k), "matrix of a diagram after saving"); }; diagram<CM<F3>, CM<F3>>(c, mm, mm, cmp, cmp); }
// point clouds
PART("point clouds") { int m = c.range(1, 4), n = c.range(1, 4); bool head = c.flip(), trail = c.flip(), last = c.flip(); int pat = c.choose(4); c.shard_here(); c.state(mc::mix(m * 10 + n, head * 100 + trail * 10 + last * 5 + pat)); static const double al[4][5] = {{0, 1, 2, 3, 4}, {-1.5, 0.25, 3, -0.001, 7}, {1e-9, 2e10, -3, 0.1, 1.0 / 3}, {5, 5, -5, 0, 12345.678}}; string t = head ? "x,y\n" : ""; vector<vector<double>> w(m, vector<double>(n)); for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) { w[i][j] = al[pat][(i * n + j) % 5] * (1 + i); char b[40]; snprintf(b, sizeof b, "%.17g", w[i][j]); t += b; if (j + 1 < n || trail) t += ","; } if (i + 1 < m || last) t += "\n"; } Files f; auto p = f.file("p"); spit(p, t); auto M = bats::read_point_cloud(p, head); c.op(); c.checkf((int)M.nrow() == m && (int)M.ncol() == n, [&] { return to_string(m) + " points in dimension " + to_string(n) + " read as a matrix with " + to_string(M.nrow()) + " rows and " + to_string(M.ncol()) + " columns"; }); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c.checkf(M(i, j) == w[i][j], [&] { return "coordinate " + to_string(j) + " of point " + to_string(i) + " of a point cloud"; }); bats::DataSet<double> D(M); c.check((int)D.size() == m && (int)D.dim() == n, "size of a point cloud"); M.free(); if (m > 1 && n > 1) c.interesting(); }
PART("command line values") { int n = c.range(0, 3), dup = c.flip(); static const vector<string> key = {"-k", "-n", "-file", "-kk"}, val = {"0.2", "7", "a_b", "-3"}; vector<string> a = {"prog"}; map<string, string> first; for (int i = 0; i < n; i++) { auto k = c.pick(key), v = k == "-file" ? string("x=y.csv").substr(0, 1 + 2 * dup) : c.pick(vector<string>{"0.2", "7", "-3"}); a.push_back(k + "=" + v); first.emplace(k, v); } c.shard_here(); vector<char*> v; for (auto& s : a) v.push_back(&s[0]); string all; for (auto& s : a) all += s + " "; c.state(hash<string>()(all)); c.op(3); for (string k : {"-k", "-n"}) { double d = bats::util::io::parse_argv((int)v.size(), v.data(), string(k), 42.5); c.check(d == (first.count(k) ? stod(first[k]) : 42.5), "numeric command line value"); int q = bats::util::io::parse_argv((int)v.size(), v.data(), string(k), 9); c.check(q == (first.count(k) ? (int)stod(first[k]) : 9), "integer command line value"); } auto s = bats::util::io::parse_argv((int)v.size(), v.data(), string("-file"), string("none")); c.check(s == (first.count("-file") ? first["-file"] : "none"), "text command line value"); if (n > 1) c.interesting(); }
// larger objects
PART("larger matrices") { Big big; switch (c.choose(4)) { case 0: matrices<F2>(c, 0, 2); break; case 1: matrices<F3>(c, 0, 3); break; case 2: matrices<F5>(c, 0, 5); break; default: matrices<QQ>(c, 0, 5); } }
PART("larger complexes and maps") { auto B = bigc::make(c.choose(bigc::N), c.choose(4)); int r = c.range(0, 2); int what = c.choose(3); c.shard_here(); reorder(B.x, r); c.op(); c.interesting(); auto X = build_complex<SC>(B.x, B.nv, mdim(B.x)); if (what == 0) { sc_roundtrip(c, X, "larger simplicial complex"); return; }
    vector<size_t> f(B.nv); for (int i = 0; i < B.nv; i++) f[i] = what == 1 ? (size_t)(i * 3 + 1) % 5 : (size_t)(i / 2); set<Spx> im; for (auto& s : B.x) { set<int> t; for (int v : s) t.insert((int)f[v]); Spx q(t.begin(), t.end()); for (int m = 1; m < 1 << q.size(); m++) { Spx z; for (size_t i = 0; i < q.size(); i++) if (m >> i & 1) z.push_back(q[i]); im.insert(z); } } Cells y(im.begin(), im.end()); stable_sort(y.begin(), y.end(), [](const Spx& a, const Spx& b) { return a.size() < b.size(); }); auto Y = build_complex<SC>(y, B.nv, mdim(B.x)); auto F = bats::SimplicialMap(X, Y, f); map_roundtrip(c, F, F.maxdim() + 1); }
PART("cubical complexes of several dimensions") { int d = c.range(1, 3); static const int ext[] = {1, 2, 5, 12}; vector<int> e(d); for (auto& x : e) x = d == 3 ? 1 + c.choose(2) : ext[c.choose(4)]; int pat = c.choose(4); c.shard_here(); QC X(d); vector<int> at(d, 0); int q = 0; for (;;) { if ((q * 7 + q / 3) % (pat + 1) == 0) { vector<size_t> s; for (int i = 0; i < d; i++) { s.push_back(at[i]); s.push_back(at[i] + 1 - (pat == 3 && i == q % d)); } X.add_recursive(s); } q++; int i = 0; while (i < d && ++at[i] == e[i]) at[i++] = 0; if (i == d) break; } string t; for (int k = 0; k <= d; k++) for (size_t i = 0; i < X.ncells(k); i++) { string l; for (size_t v : X.get_cube(k, i)) l += (l.empty() ? "" : ",") + to_string(v); t += l + "\n"; } c.state(hash<string>()(t)); c.interesting(); Files f; auto p = f.file("q"); spit(p, t); QC Y(d); Y.load_cubes(p); c.op(); for (int k = 0; k <= d; k++) { c.check(Y.ncells(k) == X.ncells(k), "cubes loaded"); for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_cube(k, i); c.check(Y.get_cube(k, i) == s && Y.find_idx(s) == i, "order of the cubes loaded"); } } }
