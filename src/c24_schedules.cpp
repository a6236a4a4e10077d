// C24: every schedule of the parallel sections gives the sequential answer, and no two unordered strands conflict.
#include "filt.hpp"
#include "zz.hpp"
#include "sched.hpp"
#include <topology/zigzag_zoo.hpp>
#include <dirent.h>
using namespace std;
typedef map<pair<int, int>, int> Bars;
// results as text
template <class T> typename enable_if<is_arithmetic<T>::value, string>::type ser(const T& x) { char b[40]; snprintf(b, 40, "%.17g", (double)x); return b; }
static string ser(const string& s) { return s; }
template <class A, class B> string ser(const pair<A, B>& p);
template <class T> string ser(const vector<T>& v);
template <class T> string ser(const set<T>& v) { string s = "{"; for (auto& x : v) s += ser(x) + ","; return s + "}"; }
template <class A, class B> string ser(const unordered_map<A, B>& v) { map<A, B> m(v.begin(), v.end()); string s = "{"; for (auto& [k, x] : m) s += ser(k) + ":" + ser(x) + ","; return s + "}"; }
template <class F> string ser(const CM<F>& A) { string s = to_string(A.nrow()) + "x" + to_string(A.ncol()) + "["; for (size_t j = 0; j < A.ncol(); j++) { for (auto i = A[j].nzbegin(); i != A[j].nzend(); ++i) { ostringstream o; o << i->val; s += to_string(i->ind) + ":" + o.str() + ","; } s += ";"; } return s + "]"; }
static string ser(const bats::SimplicialComplex& X) { return ser(X.get_simplices()); }
static string ser(const bats::CubicalComplex& X) { return ser(X.get_cubes()); }
static string ser(const bats::CellularMap& f) { string s; for (size_t k = 0; k <= f.maxdim(); k++) { for (size_t j = 0; j < f[k].ncol(); j++) { for (auto i = f[k][j].nzbegin(); i != f[k][j].nzend(); ++i) s += to_string(i->ind) + ":" + to_string(i->val) + ","; s += ";"; } s += "|"; } return s; }
template <class M> string ser(const bats::ChainComplex<M>& C) { string s; for (size_t k = 0; k <= C.maxdim(); k++) s += ser(C[k]); return s; }
template <class M> string ser(const bats::ChainMap<M>& C) { string s; for (size_t k = 0; k <= C.maxdim(); k++) s += ser(C[k]); return s; }
template <class M> string ser(const bats::DGVectorSpace<M>& C) { return ser(C.differential) + ser(C.degree); }
template <class M> string ser(const bats::DGLinearMap<M>& C) { string s; for (ssize_t k = 0; k <= (ssize_t)C.maxdim(); k++) s += ser(C[k]); return s; }
template <class M> string ser(const bats::ReducedChainComplex<M>& C) { return ser(C.R) + ser(C.U) + ser(C.p2c) + ser(C.I); }
template <class M> string ser(const bats::ReducedDGVectorSpace<M>& C) { return ser(C.R) + ser(C.U) + ser(C.p2c) + ser(C.I); }
static string ser(const bats::PersistencePair<size_t>& p) { return to_string(p.dim) + ":" + to_string(p.birth) + "," + to_string(p.death) + "/" + to_string(p.birth_ind) + "," + to_string(p.death_ind) + ";"; }
template <class N, class E> string ser(const bats::Diagram<N, E>& D) { string s = "nodes "; for (auto& x : D.node) s += ser(x) + " "; s += "edges "; for (size_t e = 0; e < D.edata.size(); e++) s += to_string(D.elist[e].src) + ">" + to_string(D.elist[e].targ) + ":" + ser(D.edata[e]) + " "; return s; }
template <class A, class B> string ser(const pair<A, B>& p) { return "(" + ser(p.first) + "," + ser(p.second) + ")"; }
template <class T> string ser(const vector<T>& v) { string s = "["; for (auto x : v) s += ser(x) + ","; return s + "]"; }
static string cut(string a, string b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; size_t p = k > 30 ? k - 30 : 0; return "..." + a.substr(p, 120) + "... instead of ..." + b.substr(p, 120) + "..."; }

// runs fn under the schedule the explorer picks: in one parallel region up to bound deviations from
// "keep running the same task"; every other region keeps the default order, or all are reversed
template <class Fn> string under(mc::Ctx& c, int T, int bound, const string& want, const string& what, Fn&& fn) {
    int mode = c.choose(3), used = 0, locked = -1; string trace;
    sched::reset(T, [&](int region, int n) -> int { if (mode == 0) return 0; if (mode == 1) return n - 1; if ((locked >= 0 && region != locked) || used >= bound) return 0; int k = c.choose(n); if (k) used++, locked = region; return k; });
    string got = fn(); auto st = sched::st; auto races = sched::races; sched::reset(1, nullptr); if (mode == 2 && used == 0) c.prune();   // same as mode 0
    c.op(st.strands); c.checkf(races.empty(), [&] { return what + " with " + to_string(T) + " threads: " + races[0]; });
    c.checkf(want.empty() || got == want, [&] { return what + " with " + to_string(T) + " threads differs from the sequential result: " + cut(got, want); }); c.outcome(hash<string>()(got)); if (st.strands > 3) c.interesting(); return got;
}
template <class Fn> string alone(Fn&& fn) { sched::reset(1, nullptr); return fn(); }

// divide and conquer for zigzag barcodes: the answer is the interval decomposition
template <class F> bats::Diagram<int, CM<F>> diagram(const Quiver<F>& q) { bats::Diagram<int, CM<F>> D(q.dim.size(), q.map.size()); for (size_t e = 0; e < q.map.size(); e++) { size_t s = q.left[e] ? e + 1 : e, t = q.left[e] ? e : e + 1; D.set_edge(e, s, t, mkmat<F>(q.map[e])); } return D; }
static string bstr(const Bars& m) { string s; for (auto& [k, v] : m) s += "[" + to_string(k.first) + "," + to_string(k.second) + "]x" + to_string(v) + " "; return s; }
template <class F> void dq(mc::Ctx& c, const Quiver<F>& q, int bound) {
    mc::Hash h; for (auto& m : q.map) for (auto& x : m.a) h(x.key()); for (char l : q.left) h(l); c.state(h.h); auto D = diagram<F>(q); Bars want = decomposition<F>(q); int T = c.pick(vector<int>{4, 5});
    under(c, T, bound, bstr(want), "divide and conquer barcode", [&] { auto ps = bats::barcode(D, 3, bats::flags::divide_conquer()); Bars b; for (auto& p : ps) b[{(int)p.birth, (int)p.death}]++; return bstr(b); });
}
template <class F> RM<F> two(const vector<int>& a) { RM<F> m(2, 2); for (int i = 0; i < 4; i++) m.a[i] = RF<F>(a[i]); return m; }
static const vector<vector<int>> kinds = {{1,0,0,1}, {1,1,0,1}, {1,0,0,0}, {0,1,1,0}, {0,0,1,0}, {1,1,1,1}};
PART("zigzag barcodes: five to seven arrows of planes") { int m = c.range(5, c.tier ? 7 : 6), pat = c.choose(4); Quiver<F3> q; q.dim.assign(m + 1, 2); for (int e = 0; e < m; e++) q.left.push_back(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? e % 2 : (e / 2) % 2); int k = m == 5 ? (c.tier ? 4 : 3) : 2; for (int e = 0; e < m; e++) q.map.push_back(two<F3>(kinds[m == 5 || e % 2 == 0 ? c.choose(e == 4 && !c.tier ? 2 : k) : (e + 1) % 6])); c.shard_here(); dq<F3>(c, q, c.tier ? 3 : 2); }
PART("zigzag barcodes: nested halves, nine to thirteen arrows") { int m = c.pick(c.tier ? vector<int>{9, 10, 11, 12, 13} : vector<int>{9, 11, 12}), pat = c.choose(3), v = c.choose(c.tier ? 6 : 3); Quiver<F2> q; vector<int> prof = {1, 2, 3, 2, 1, 2, 2, 3, 2, 1, 1, 2, 2, 1}; for (int i = 0; i <= m; i++) q.dim.push_back(v % 2 ? prof[i] : 2); for (int e = 0; e < m; e++) q.left.push_back(pat == 0 ? 0 : pat == 1 ? e % 2 : (e % 3 == 0)); for (int e = 0; e < m; e++) { RM<F2> f(q.dim[q.left[e] ? e : e + 1], q.dim[q.left[e] ? e + 1 : e]); int t = (e * (v + 1) + v) % 4; for (int i = 0; i < f.m; i++) for (int j = 0; j < f.n; j++) if (t == 0 ? i == j : t == 1 ? i + j == min(f.m, f.n) - 1 : t == 2 ? i <= j : (i + j + e) % 3 == 0) f(i, j) = RF<F2>(1); q.map.push_back(f); } c.shard_here(); dq<F2>(c, q, c.tier ? 2 : 1); }
template <class Fn> void region(Fn&& fn) {
#pragma omp parallel shared(fn)
    {
#pragma omp single nowait
        { fn(); }
    }
}
// block reduction: same matrices, pivots and columns as the sequential run, and a genuine reduction
template <class F> void reduced(mc::Ctx& c, const RM<F>& D, const CM<F>& M, const string& what) { auto R = rdmat<F>(M, c, "reduced"); set<int> piv; for (int j = 0; j < R.n; j++) { int i = R.m - 1; while (i >= 0 && R(i, j).zero()) i--; if (i >= 0) c.check(piv.insert(i).second, what + ": two columns share a pivot"); c.check(R.block(0, R.m, 0, j + 1).rank() == D.block(0, D.m, 0, j + 1).rank() && D.block(0, D.m, 0, j + 1).hcat(R.block(0, R.m, 0, j + 1)).rank() == D.block(0, D.m, 0, j + 1).rank(), what + ": span of the first columns changes"); } }
template <class F> void blocks(mc::Ctx& c, const RM<F>& D, int bound) {
    mc::Hash h; for (auto& x : D.a) h(x.key()); h(D.m)(D.n); c.state(h.h); c << D.str(); int bs = c.choose(3) + 1, depth = c.choose(3), kind = c.choose(3); if (kind && depth) c.prune(); int T = kind ? 4 : 2; CM<F> out, U;
    auto fn = [&] { auto M = mkmat<F>(D); auto V = CM<F>::identity(D.n); string s; if (kind == 0) { tuple<unordered_map<size_t, size_t>, vector<size_t>> r; region([&] { r = bats::reduce_block_dq(M, (size_t)0, (size_t)D.n, (size_t)bs, (size_t)0, (size_t)depth); }); s = ser(get<0>(r)) + ser(get<1>(r)); } else if (kind == 1) bats::partial_reduce_parallel(M, (size_t)bs); else bats::partial_reduce_parallel(M, V, (size_t)bs); out = M; U = V; return s + ser(M) + ser(V); };
    string want = alone(fn); under(c, T, kind ? bound + 1 : bound, want, kind ? "parallel partial reduction" : "divide and conquer reduction", fn);
    if (kind == 0) reduced<F>(c, D, out, "divide and conquer reduction"); else { RM<F> R = rdmat<F>(out, c, "M"); if (kind == 2) { auto V = rdmat<F>(U, c, "U"); c.check(V.upper() && V.invertible() && D * V == R, "parallel partial reduction: the matrix times the basis is not the result"); } for (int j = 0; j < D.n; j += bs) { int e = min(j + bs, D.n); reduced<F>(c, D.block(0, D.m, j, e), mkmat<F>(R.block(0, D.m, j, e)), "parallel partial reduction"); } }
}
PART("block reductions of every small matrix") { int m = c.range(2, 3), n = c.range(3, c.tier ? 5 : 4); if (m * n > (c.tier ? 10 : 8)) c.prune(); auto D = choose_mat<F2>(c, m, n, 2); c.shard_here(); blocks<F2>(c, D, c.tier ? 2 : 1); }
PART("block reductions of larger patterned matrices") { int n = c.range(c.tier ? 6 : 8, c.tier ? 9 : 8), m = 4 + c.choose(2), v = c.choose(c.tier ? 8 : 3); RM<F3> D(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) D(i, j) = RF<F3>((i * (v + 1) + j * (2 * v + 1) + (i * j) * v + (i + j * j) / 3) % 4 % 3); c.shard_here(); blocks<F3>(c, D, c.tier ? 2 : 1); }
static vector<ref::Spx> skel(int n, int d) { vector<ref::Spx> x; for (auto& s : ref::all_simplices(n, d)) x.push_back(s); return x; }
// large enough for the library to split the matrix by itself
PART("reductions of boundary matrices with more than 256 columns") {
    int v = c.choose(c.tier ? 3 : 2), nv = v == 0 ? 24 : v == 1 ? 33 : 14; auto X = bats::SimplicialComplex(nv, v == 2 ? 2 : 1); for (int i = 0; i < nv; i++) X.add({(size_t)i}); vector<pair<size_t, size_t>> ed; for (int i = 0; i < nv; i++) for (int j = i + 1; j < nv; j++) ed.push_back({i, j}); if (v != 2) for (size_t k = 0; k < ed.size(); k++) { auto& e = ed[(k * 101) % ed.size()]; X.add({e.first, e.second}); } else { for (auto& e : ed) X.add({e.first, e.second}); for (auto& s : skel(nv, 2)) if (s.size() == 3) X.add({(size_t)s[0], (size_t)s[1], (size_t)s[2]}); } auto C = bats::Chain(X, F2()); c.shard_here(); c.state(v);
    auto fn = [&] { auto M = C[v == 2 ? 2 : 1]; auto p = bats::reduce_matrix(M, bats::divide_conquer_flag()); return ser(p) + ser(M); }; string want = alone(fn); under(c, c.pick(vector<int>{2, 4}), 1, want, "reduce_matrix divide and conquer", fn);
    auto M = C[v == 2 ? 2 : 1]; auto p = bats::reduce_matrix(M, bats::standard_reduction_flag()); size_t k = 0; for (auto& x : p) k += x != bats::NO_IND; c.check(k == (v == 2 ? (size_t)(13 * 12 / 2) : (size_t)nv - 1), "rank of a boundary matrix");
}
// functors on diagrams
typedef bats::Diagram<set<size_t>, vector<size_t>> Sets;
static vector<size_t> inclusion(const set<size_t>& a, const set<size_t>& b) { vector<size_t> r; for (auto x : a) r.push_back(distance(b.begin(), b.find(x))); return r; }
static Sets sets_of(mc::Ctx& c, int n, int shape) { // zigzag, fan or chain of subsets of five points
    vector<set<size_t>> s(n); static const vector<set<size_t>> big = {{0,1,2},{1,2,3},{2,3,4},{0,3,4},{0,1,4}}; Sets D(n, shape == 1 ? n - 1 : n - 1); if (shape == 2) { for (int i = 0; i < n; i++) for (int j = 0; j <= min(i + 1, 4); j++) s[i].insert(j); for (int i = 0; i < n; i++) D.set_node(i, s[i]); for (int e = 0; e + 1 < n; e++) D.set_edge(e, e, e + 1, inclusion(s[e], s[e + 1])); return D; }
    if (shape == 1) { s[0] = {0, 1, 2, 3, 4}; for (int i = 1; i < n; i++) s[i] = big[i - 1]; for (int i = 0; i < n; i++) D.set_node(i, s[i]); for (int e = 0; e + 1 < n; e++) D.set_edge(e, e + 1, 0, inclusion(s[e + 1], s[0])); return D; }
    for (int i = 0; i < n; i += 2) s[i] = big[i / 2]; for (int i = 1; i < n; i += 2) { s[i] = s[i - 1]; if (i + 1 < n) s[i].insert(s[i + 1].begin(), s[i + 1].end()); } for (int i = 0; i < n; i++) D.set_node(i, s[i]); for (int e = 0; e + 1 < n; e++) { int a = e % 2 ? e + 1 : e, b = e % 2 ? e : e + 1; D.set_edge(e, a, b, inclusion(s[a], s[b])); } return D; }
static bats::DataSet<double> points(int v) { vector<vector<double>> P = v == 0 ? vector<vector<double>>{{0,0},{1,0},{1,1},{0,1},{0.4,0.6}} : vector<vector<double>>{{0,0},{2,0},{1,1.5},{1,-1},{3,1}}; bats::Matrix<double> A(5, 2); for (int i = 0; i < 5; i++) for (int j = 0; j < 2; j++) A(i, j) = P[i][j]; return bats::DataSet<double>(A); }
PART("functors on diagrams") {
    int n = c.range(2, c.tier ? 5 : 4), shape = c.choose(3), v = c.choose(2), which = c.choose(12), T = c.range(2, min(n, 4)); c.shard_here(); auto D = sets_of(c, n, shape); auto P = points(v); bats::Euclidean dist; c.state(((n * 3 + shape) * 2 + v) * 12 + which); vector<double> rm(n, 1.1 + v); double r = 1.1 + v; for (int i = 0; i < n; i++) rm[i] = shape == 2 ? 0.8 + 0.3 * i : shape == 0 ? (i % 2 ? 1.6 : 1.2) : i == 0 ? 2 : 1.2; typedef CM<F3> M; size_t B = T; using namespace bats;
    auto X = alone([&] { return string(); }); auto K = Rips(D, P, dist, rm, 2); auto C = ChainFunctor<M>(K); auto go = [&](const string& name, auto fn) { string want = alone(fn); under(c, T, B, want, name, fn); };
    bool all2 = true; for (auto& x : C.node) all2 &= x.maxdim() == C.node[0].maxdim() && x.maxdim() > 0;
    switch (which) {
    case 0: go("Rips diagram", [&] { return ser(Rips(D, P, dist, r, 2)); }); break;
    case 1: go("Rips diagram with radii", [&] { return ser(Rips(D, P, dist, rm, 2)); }); break;
    case 2: go("ChainFunctor", [&] { return ser(ChainFunctor<M>(K)); }); break;
    case 3: go("Chain", [&] { return ser(Chain(K, F3())); }); break;
    case 4: go("Hom in one degree", [&] { return ser(Hom(C, (size_t)1)); }); break;
    case 5: if (!all2) c.prune(); go("Hom", [&] { return ser(Hom(C, true)); }); break;
    case 6: go("RipsHom", [&] { return ser(RipsHom(D, P, dist, rm, 1, F3())); }); break;
    case 7: go("DGLinearFunctor", [&] { return ser(DGLinearFunctor<M>(K, v ? 1 : -1)); }); break;
    case 8: { auto G = DGLinearFunctor<M>(K, v ? 1 : -1); go("Hom of graded spaces in one degree", [&] { return ser(Hom(G, (size_t)1)); }); break; }
    case 9: { if (!all2) c.prune(); auto G = DGLinearFunctor<M>(K, v ? 1 : -1); go("Hom of graded spaces", [&] { return ser(Hom(G, false)); }); break; }
    case 10: { if (!all2 || shape == 1) c.prune(); auto H = Hom(C, false); go("barcodes in all degrees", [&] { return ser(barcode(H)); }); break; }
    case 11: { Diagram<Cover, vector<size_t>> N(n, n - 1); Cover one; for (size_t i = 0; i < 5; i++) one.push_back({i, (i + 1) % 5, (i + 2 + v) % 5}); for (int i = 0; i < n; i++) { Cover k; size_t keep = shape == 1 ? (i ? 4 : 5) : shape == 2 ? min(i + 2, 5) : (i % 2 ? 5 : 3); for (size_t j = 0; j < keep; j++) k.push_back(one[j]); N.set_node(i, k); } for (int e = 0; e + 1 < n; e++) { size_t s = D.elist[e].src, t = D.elist[e].targ; vector<size_t> m; for (size_t j = 0; j < N.node[s].size(); j++) m.push_back(j); N.set_edge(e, s, t, m); } go("Nerve diagram", [&] { return ser(Nerve(N, 2)); }); break; }
    }
}
PART("neighbourhoods") { int n = c.range(2, 5), T = c.range(2, min(n, c.tier ? 5 : 4)), k = c.choose(4), v = c.choose(2); c.shard_here(); auto P = points(v); bats::Euclidean dist; bats::Matrix<double> A(n, 2); for (int i = 0; i < n; i++) A(i, 0) = P(i, 0), A(i, 1) = P(i, 1); bats::DataSet<double> X(A); c.state(n * 8 + k * 2 + v); auto fn = [&] { return k < 2 ? ser(bats::neighborhoods(X, P, dist, 0.9 + k)) : ser(bats::neighborhoods(X, P, dist, (size_t)k)); }; string want = alone(fn); under(c, T, T, want, "neighborhoods", fn); }
PART("level-set diagrams") { int T = c.range(2, 4), v = c.choose(4); double eps = v % 2 ? 1 : 0.5; c.shard_here(); c.state(v); vector<vector<vector<double>>> img(2, vector<vector<double>>(2, vector<double>(1))); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) img[i][j][0] = (i * 2 + j * (v + 1) + i * j) % 4; auto Z = bats::zigzag_toplex(img); auto fn = [&] { return ser(bats::zigzag_levelsets(Z, eps, 0.0, 2.0)); }; string want = alone(fn); under(c, T, T, want, "zigzag_levelsets", fn); }
PART("saving diagrams") {
    int n = c.range(2, 4), T = c.range(2, min(n, 3)), shape = c.choose(3); c.shard_here(); c.state(n * 3 + shape); auto D = sets_of(c, n, shape); auto P = points(0); bats::Euclidean dist; auto K = alone([] { return string(); }).empty() ? bats::Rips(D, P, dist, 1.5, 2) : bats::Diagram<bats::SimplicialComplex, bats::CellularMap>();
    auto fn = [&] { char t[] = "/tmp/c24XXXXXX"; if (!mkdtemp(t)) abort(); string d = string(t) + "/d"; K.save(d); string s; map<string, string> f; if (DIR* q = opendir(d.c_str())) { while (auto e = readdir(q)) if (e->d_name[0] != '.') { ifstream i(d + "/" + e->d_name); f[e->d_name] = string(istreambuf_iterator<char>(i), {}); unlink((d + "/" + e->d_name).c_str()); } closedir(q); } rmdir(d.c_str()); rmdir(t); for (auto& [a, b] : f) s += a + "=" + b + "\n"; return s; };
    string want = alone(fn); c.check(want.find("node0=") != string::npos && want.find("edge0=") != string::npos && want.find("metadata=") != string::npos, "saving a diagram: a file is missing"); under(c, T, T, want, "Diagram::save", fn);
}
