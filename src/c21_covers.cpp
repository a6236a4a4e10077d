// C21: covers, nerves, witness / Dowker complexes, landmarks, metrics match their definitions.
#include "big.hpp"
using namespace std;
typedef bats::SimplicialComplex SC; typedef ref::Spx Spx; typedef set<size_t> S; typedef vector<S> Cov;
typedef vector<vector<int>> PTS; typedef vector<vector<double>> DM; typedef bats::DataSet<double> DS;
static const double INF = 1e300;

// ---------------------------------------------------------------- complexes as sets of simplices with values
typedef map<Spx, double> Model;
template <class X> void judge(mc::Ctx& c, const X& x, const Model& m, const string& n) {
    c.op(); auto all = x.get_simplices(); set<Spx> seen;
    for (auto& s : all) { Spx t(s.begin(), s.end()); c.check(is_sorted(t.begin(), t.end()), n + ": a simplex is not listed in sorted order"); c.checkf(m.count(t) > 0, [&] { return n + ": contains " + ref::spx_str(t) + ", which does not meet the definition"; }); c.check(seen.insert(t).second, n + ": a simplex is listed twice"); }
    for (auto& [s, v] : m) c.checkf(seen.count(s) > 0, [&] { return n + ": misses " + ref::spx_str(s); });
}
template <class FT_> void judge_filtration(mc::Ctx& c, const FT_& F, const Model& m, const string& n) {
    auto& x = F.complex(); judge(c, x, m, n); auto& v = F.vals(); size_t tot = 0;
    for (size_t k = 0; k < v.size(); k++) { c.check(v[k].size() == x.ncells(k), n + ": number of values"); for (size_t i = 0; i < v[k].size(); i++) { auto g = x.get_simplex(k, i); Spx s(g.begin(), g.end()); double w = m.at(s); c.checkf(v[k][i] == w, [&] { return n + ": " + ref::spx_str(s) + " has value " + to_string(v[k][i]) + ", expected " + to_string(w); }); tot++; } }
    c.check(tot == m.size(), n + ": some simplex has no value");
}
// flag complex on n vertices: edges of value < or <= r
static Model flag(const DM& e, double r, int md, bool strict, double t0 = 0) {
    Model m; int n = (int)e.size();
    for (int s = 1; s < 1 << n; s++) { if (__builtin_popcount(s) > md + 1) continue; Spx v; for (int i = 0; i < n; i++) if (s >> i & 1) v.push_back(i); double w = t0; bool ok = true; for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) { double d = e[v[a]][v[b]]; ok &= strict ? d < r : d <= r; w = max(w, d); } if (ok) m[v] = w; }
    return m;
}
static Model nerve(const Cov& C, int md) {
    Model m; int n = (int)C.size();
    for (int s = 1; s < 1 << n; s++) { int q = __builtin_popcount(s); if (q > md + 1) continue; Spx v; for (int i = 0; i < n; i++) if (s >> i & 1) v.push_back(i); bool ok = q == 1; for (size_t x : C[v[0]]) { bool in = true; for (int i : v) in &= C[i].count(x) > 0; ok |= in; } if (ok) m[v] = 0; }
    return m;
}
static Cov choose_cover(mc::Ctx& c, int nsets, int npts) { Cov C(nsets); for (int i = 0; i < nsets; i++) { int b = c.choose(1 << npts); for (int k = 0; k < npts; k++) if (b >> k & 1) C[i].insert(k); } return C; }
static uint64_t hcov(const Cov& C) { mc::Hash h; for (auto& s : C) h.range(s.begin(), s.end()); return h.h; }
static void show(mc::Ctx& c, const Cov& C) { if (c.verbose) for (auto& s : C) { c << "{"; for (size_t x : s) c << x << ","; c << "} "; } }

// ---------------------------------------------------------------- nerves and covers of sets
PART("nerve of every cover") {
    int n = c.range(0, c.tier ? 5 : 4), p = c.range(1, n == 5 ? 3 : c.tier ? 4 : 3); if (n > 3 && p > 3 && !c.tier) c.prune(); auto C = choose_cover(c, n, p); c.shard_here(); show(c, C); c.state(mc::mix(hcov(C), p)); if (n > 2) c.interesting();
    for (int md = 0; md <= min(n, 4); md++) { auto m = nerve(C, md); c.outcome(m.size()); judge(c, bats::Nerve(C, md), m, "nerve to dimension " + to_string(md)); }
}
PART("nerve of covers with many sets or points") { // pairwise intersections without common points, etc.
    int n = c.range(4, 5), p = c.range(4, 5); bool few = !c.tier; Cov C(n); // every point chooses the pairs/triples it lies in: cover by a point-set incidence of bounded weight
    for (int k = 0; k < p; k++) { vector<int> masks; for (int s = 0; s < 1 << n; s++) if (__builtin_popcount(s) == (few ? 2 : 2) || __builtin_popcount(s) == 3) masks.push_back(s); int q = c.choose(few && k > 2 ? 3 : (int)masks.size()); for (int i = 0; i < n; i++) if (masks[q] >> i & 1) C[i].insert(k); if (k == 1) c.shard_here(); if (few && n == 5 && k > 2) break; }
    show(c, C); c.state(hcov(C)); c.interesting(); for (int md = 1; md <= 4; md++) judge(c, bats::Nerve(C, md), nerve(C, md), "nerve to dimension " + to_string(md));
}
PART("bivariate cover of every pair of covers") {
    int p = c.range(1, 3), a = c.range(1, c.tier ? 3 : 2), b = c.range(1, p < 3 ? 3 : 2); auto A = choose_cover(c, a, p); c.shard_here(); auto B = choose_cover(c, b, p); show(c, A); show(c, B); c.op(); c.state(mc::mix(hcov(A), hcov(B)));
    auto [AB, f, g] = bats::bivariate_cover(A, B); size_t k = 0; c.check(f.size() == AB.size() && g.size() == AB.size(), "bivariate cover: number of maps");
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { S I; for (size_t x : A[i]) if (B[j].count(x)) I.insert(x); if (I.empty()) continue; c.check(k < AB.size() && AB[k] == I && f[k] == (size_t)i && g[k] == (size_t)j, "bivariate cover: set or map entry"); k++; } c.check(k == AB.size(), "bivariate cover: too many sets"); c.outcome(k);
    auto N = bats::Nerve(AB, 3), NA = bats::Nerve(A, 3), NB = bats::Nerve(B, 3); if (k > 1) c.interesting(); if (!k) return; // the maps extend to the nerves
    auto F = bats::SimplicialMap(N, NA, f); auto G = bats::SimplicialMap(N, NB, g); for (auto* M : {&F, &G}) for (size_t d = 0; d <= N.maxdim() && d <= M->maxdim(); d++) c.check((*M)[d].ncol() == N.ncells(d), "bivariate cover: map of nerves");
}
PART("inclusions, unions and intersections of subsets") {
    int n = c.range(1, 4), p = n < 4 ? 3 : 2; if (c.tier && n < 4) p = 4; auto C = choose_cover(c, n, p); c.shard_here(); show(c, C); c.state(hcov(C)); c.op(2); if (n > 2) c.interesting();
    auto edge_ok = [&](const auto& D, size_t e, size_t s, size_t t, const string& nm) { c.check(D.elist[e].src == s && D.elist[e].targ == t, nm + ": ends of an arrow"); auto& a = D.node[s]; auto& b = D.node[t]; vector<size_t> va(a.begin(), a.end()), vb(b.begin(), b.end()); c.check(D.edata[e].size() == va.size(), nm + ": size of a map"); for (size_t i = 0; i < va.size(); i++) c.check(D.edata[e][i] < vb.size() && vb[D.edata[e][i]] == va[i], nm + ": value of a map"); };
    auto X = C; auto D = bats::linear_subset_union_diagram(X); c.check(D.nnode() == 2 * (size_t)n - 1 && D.nedge() == 2 * (size_t)n - 2, "union diagram: shape");
    for (int i = 0; i < n; i++) { c.check(D.node[2 * i] == C[i], "union diagram: node"); if (i + 1 < n) { S u = C[i]; u.insert(C[i + 1].begin(), C[i + 1].end()); c.check(D.node[2 * i + 1] == u, "union diagram: node"); edge_ok(D, 2 * i, 2 * i, 2 * i + 1, "union diagram"); edge_ok(D, 2 * i + 1, 2 * i + 2, 2 * i + 1, "union diagram"); } }
    auto E = bats::linear_cover_intersection_diagram(X); c.check(E.nnode() == 2 * (size_t)n - 1 && E.nedge() == 2 * (size_t)n - 2, "intersection diagram: shape");
    for (int i = 0; i < n; i++) { c.check(E.node[2 * i] == C[i], "intersection diagram: node"); if (i + 1 < n) { S u; for (size_t x : C[i]) if (C[i + 1].count(x)) u.insert(x); c.check(E.node[2 * i + 1] == u, "intersection diagram: node"); edge_ok(E, 2 * i, 2 * i + 1, 2 * i, "intersection diagram"); edge_ok(E, 2 * i + 1, 2 * i + 1, 2 * i + 2, "intersection diagram"); } }
    if (n > 1) { S t = C[0]; for (auto& s : C) t.insert(s.begin(), s.end()); auto v = bats::vertex_inclusion_map(C[1], t); vector<size_t> tv(t.begin(), t.end()); size_t k = 0; for (size_t x : C[1]) c.check(tv[v[k++]] == x, "vertex_inclusion_map"); c.check(k == v.size(), "vertex_inclusion_map: size"); }
}

// ---------------------------------------------------------------- point sets
struct Pts { PTS p; DS X; bats::Matrix<double> A; };
static Pts mkpts(const PTS& p, int dim) { Pts r; r.p = p; r.A = bats::Matrix<double>(p.size(), dim); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < dim; k++) r.A(i, k) = p[i][k]; r.X = DS(r.A); return r; }
static PTS choose_pts(mc::Ctx& c, int n, int dim, int side) { PTS P(n, vector<int>(dim)); for (auto& p : P) for (auto& x : p) x = c.choose(side); return P; }
static uint64_t hpts(const PTS& P) { mc::Hash h; for (auto& p : P) h.range(p.begin(), p.end()); return h.h; }
template <class M> double mdist(const vector<int>& a, const vector<int>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) { double d = abs(a[i] - b[i]); if constexpr (is_same_v<M, bats::L1Dist>) s += d; else if constexpr (is_same_v<M, bats::LInfDist>) s = max(s, d); else s += d * d; } return is_same_v<M, bats::Euclidean> ? sqrt(s) : s; }
template <class M> DM dmat(const PTS& A, const PTS& B) { DM d(A.size(), vector<double>(B.size())); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) d[i][j] = mdist<M>(A[i], B[j]); return d; }
template <class Fn> void with_metric(int w, Fn&& fn) { if (w == 0) fn(bats::L1Dist()); else if (w == 1) fn(bats::Euclidean()); else fn(bats::LInfDist()); }
static bool distinct(vector<double> v) { sort(v.begin(), v.end()); return adjacent_find(v.begin(), v.end()) == v.end(); }

template <class M> void landmarks(mc::Ctx& c, const PTS& P, int dim, const M& dist) {
    int n = (int)P.size(); auto Q = mkpts(P, dim); auto d = dmat<M>(P, P);
    auto judge_order = [&](const vector<size_t>& o, const vector<double>& h, size_t i0, size_t k, const string& nm) {
        c.op(); c.check(o.size() == k && h.size() == k, nm + ": number of landmarks"); if (k == 0) return; c.check(o[0] == i0, nm + ": does not begin at its seed"); vector<char> used(n, 0); vector<double> m(n, INF);
        for (size_t t = 0; t < k; t++) { c.check(o[t] < (size_t)n && !used[o[t]], nm + ": a point is chosen twice"); if (t) { double far = 0; for (int j = 0; j < n; j++) if (!used[j]) far = max(far, m[j]); c.check(m[o[t]] == far, nm + ": does not choose a farthest point"); } used[o[t]] = 1; double cr = 0; for (int j = 0; j < n; j++) { m[j] = min(m[j], d[o[t]][j]); cr = max(cr, m[j]); } c.checkf(h[t] == cr, [&] { return nm + ": covering radius " + to_string(h[t]) + " after " + to_string(t + 1) + " landmarks, expected " + to_string(cr); }); }
    };
    auto PD = dist(Q.X);
    for (int i0 = 0; i0 < n; i0++) {
        auto [o, h] = bats::greedy_landmarks_hausdorff(Q.X, dist, (size_t)i0); judge_order(o, h, i0, n, "greedy_landmarks_hausdorff");
        auto [o3, h3] = bats::greedy_landmarks_hausdorff(PD, (size_t)i0); judge_order(o3, h3, i0, n, "greedy_landmarks_hausdorff(matrix)");
        for (int k = 1; k <= n + 1; k++) { auto [o2, h2] = bats::greedy_landmarks_hausdorff(Q.X, dist, (size_t)i0, (size_t)k); judge_order(o2, h2, i0, min(k, n), "greedy_landmarks_hausdorff(k)");
            auto L = bats::greedy_landmarks(Q.X, (size_t)k, dist, (size_t)i0); c.op(); c.check(L.size() == (size_t)min(k, n), "greedy_landmarks: number of landmarks"); multiset<vector<int>> A, B, all(P.begin(), P.end()); for (size_t i = 0; i < L.size(); i++) { vector<int> v; for (int q = 0; q < dim; q++) v.push_back((int)L(i, q)); A.insert(v); } c.check(A.count(P[i0]) > 0, "greedy_landmarks: the seed is missing"); for (auto& v : A) c.check(A.count(v) <= all.count(v), "greedy_landmarks: a point appears too often");
            // as good as farthest-point selection: mutual distances at least the covering radius of every prefix
            { double sep = INF, cov = 0; PTS LP(A.begin(), A.end()); for (size_t a = 0; a < LP.size(); a++) for (size_t b = a + 1; b < LP.size(); b++) sep = min(sep, mdist<M>(LP[a], LP[b])); for (auto& p : P) { double m = INF; for (auto& l : LP) m = min(m, mdist<M>(p, l)); cov = max(cov, m); } c.check(LP.size() < 2 || sep >= cov, "greedy_landmarks: not a farthest-point selection"); }
            L.data.free(); }
        for (double r : {0.0, 0.5, 1.0, 1.5, 2.0, 3.0}) { auto L = bats::hausdorff_landmarks(Q.X, r, dist, (size_t)i0); c.op(); set<vector<int>> A; for (size_t i = 0; i < L.size(); i++) { vector<int> v; for (int q = 0; q < dim; q++) v.push_back((int)L(i, q)); c.check(A.insert(v).second, "hausdorff_landmarks: a point is repeated"); c.check(count(P.begin(), P.end(), v) > 0, "hausdorff_landmarks: not a data point"); } c.check(A.count(P[i0]) > 0, "hausdorff_landmarks: the seed is missing"); double cov = 0, sep = INF; for (auto& p : P) { double m = INF; for (auto& l : A) m = min(m, mdist<M>(p, l)); cov = max(cov, m); } for (auto& a : A) for (auto& b : A) if (a != b) sep = min(sep, mdist<M>(a, b)); c.check(cov <= r, "hausdorff_landmarks: some point is farther than the radius"); c.check(sep > r, "hausdorff_landmarks: a landmark was not needed"); L.data.free(); }
        vector<double> ecc(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ecc[i] = max(ecc[i], d[i][j]); double best = *min_element(ecc.begin(), ecc.end()); size_t ce = bats::approx_center(Q.X, dist, (size_t)n, (size_t)i0); c.op(); c.check(ce < (size_t)n, "approx_center: index"); if (distinct(vector<double>()) && set<vector<int>>(P.begin(), P.end()).size() == P.size()) c.check(ecc[ce] == best, "approx_center with all landmarks does not minimise the largest distance");
        size_t c0 = bats::approx_center(Q.X, dist, 0, (size_t)i0); c.check(c0 < (size_t)n && ecc[c0] <= 2 * best, "approx_center: index");
    }
    for (int k = 0; k < n; k++) { auto kd = bats::kdist(Q.X, dist, (size_t)k); c.op(); c.check(kd.size() == (size_t)n, "kdist: size"); for (int i = 0; i < n; i++) { auto r = d[i]; sort(r.begin(), r.end()); c.check(kd[i] == r[k], "kdist: not the k-th smallest distance"); } }
    for (int k = 1; k < n; k++) { auto L = bats::random_landmarks(Q.X, (size_t)k); c.op(); multiset<vector<int>> A, all(P.begin(), P.end()); for (size_t i = 0; i < L.size(); i++) { vector<int> v; for (int q = 0; q < dim; q++) v.push_back((int)L(i, q)); A.insert(v); } c.check(A.size() == (size_t)k, "random_landmarks: number"); for (auto& v : A) c.check(A.count(v) <= all.count(v), "random_landmarks: a point appears too often"); L.data.free(); }
    double re = INF; for (auto& r : d) re = min(re, *max_element(r.begin(), r.end())); c.check(bats::enclosing_radius(PD) == re, "enclosing_radius"); PD.free(); Q.A.free();
}
static void landmark_part(mc::Ctx& c, int n, int dim, int side) { auto P = choose_pts(c, n, dim, side); c.shard_here(); show(c, P); int w = dim == 1 ? 0 : c.choose(3); c.state(mc::mix(hpts(P), w)); if (n > 2) c.interesting(); with_metric(w, [&](auto M) { landmarks(c, P, dim, M); }); }
PART("landmarks of points on a line") { landmark_part(c, c.range(1, c.tier ? 5 : 4), 1, c.tier ? 6 : 5); }
PART("landmarks of points in the plane") { landmark_part(c, c.range(2, c.tier ? 4 : 3), 2, 3); }

template <class M> void dowker(mc::Ctx& c, const PTS& L, const PTS& X, int dim, const M& dist) {
    int nl = (int)L.size(), nx = (int)X.size(); auto QL = mkpts(L, dim), QX = mkpts(X, dim); auto d = dmat<M>(L, X); auto PD = dist(QL.X, QX.X); for (int i = 0; i < nl; i++) for (int j = 0; j < nx; j++) c.check(PD(i, j) == d[i][j], "matrix of distances");
    { auto row = dist(QL.X[0], QX.X); for (int j = 0; j < nx; j++) c.check(row[j] == d[0][j], "distances from a point"); }
    auto dk = [&](const DM& d) { DM e(nl, vector<double>(nl, INF)); for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) for (int k = 0; k < nx; k++) e[i][j] = min(e[i][j], max(d[i][k], d[j][k])); return e; };
    auto e = dk(d); auto R = bats::dowker_edge_param(PD); for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) if (i != j) { c.check(R(i, j) == e[i][j], "dowker_edge_param"); c.check(bats::dowker_edge_param(PD, (size_t)i, (size_t)j) == e[i][j], "dowker_edge_param of a pair"); } R.free();
    for (double r : {0.3, 1.3, 2.3, 9.3}) for (int md = 1; md <= 3; md++) { auto m = flag(e, r, md, true); judge_filtration(c, bats::DowkerFiltration(PD, r, (size_t)md), m, "DowkerFiltration(matrix)"); judge_filtration(c, bats::DowkerFiltration(QL.X, QX.X, dist, r, (size_t)md), m, "DowkerFiltration(points)"); judge_filtration(c, bats::WitnessFiltration(QL.X, QX.X, dist, r, (size_t)md), m, "WitnessFiltration"); c.outcome(m.size()); }
    for (int nu = 0; nu <= nl; nu++) {
        DM w = d; vector<double> mm(nx, 0); for (int j = 0; j < nx; j++) { vector<double> col; for (int i = 0; i < nl; i++) col.push_back(d[i][j]); sort(col.begin(), col.end()); if (nu) mm[j] = col[nu - 1]; for (int i = 0; i < nl; i++) w[i][j] = max(0.0, d[i][j] - mm[j]); }
        auto gm = bats::get_m(PD, (size_t)nu); c.op(); for (int j = 0; j < nx; j++) c.check(gm[j] == mm[j], "get_m is not the nu-th smallest distance of a column"); auto we = dk(w); auto W = bats::witness_edge_param(QX.X, QL.X, dist, (size_t)nu); for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) if (i != j) c.check(W(i, j) == we[i][j], "witness_edge_param"); W.free();
        for (double r : {0.0, 0.7, 1.2, 2.2}) { auto m = flag(we, r, 2, false); judge(c, bats::WitnessComplex(QX.X, QL.X, dist, (size_t)nu, r, (size_t)2), m, "lazy WitnessComplex"); auto ed = dist(QX.X, QL.X); ed.free(); }
    }
    for (double r : {0.3, 1.3, 2.3}) { Cov C(nl); for (int i = 0; i < nl; i++) for (int j = 0; j < nx; j++) if (d[i][j] < r) C[i].insert(j); auto ed = bats::witness_edges(QX.X, QL.X, dist, r); c.op(); set<pair<size_t, size_t>> got, want; for (size_t k = 0; k + 1 < ed.size(); k += 2) c.check(got.insert({min(ed[k], ed[k + 1]), max(ed[k], ed[k + 1])}).second, "witness_edges: an edge twice"); for (int i = 0; i < nl; i++) for (int j = i + 1; j < nl; j++) for (size_t x : C[i]) if (C[j].count(x)) want.insert({(size_t)i, (size_t)j}); c.check(got == want, "witness_edges: edges with a common witness");
        auto nb = bats::neighborhoods(QL.X, QX.X, dist, r); c.check(nb.size() == (size_t)nl, "neighborhoods(radius): number"); for (int i = 0; i < nl; i++) c.check(S(nb[i].begin(), nb[i].end()) == C[i] && nb[i].size() == C[i].size(), "neighborhoods(radius)"); }
    for (double r : {0.0, 1.0, 2.0}) { Cov C(nl); for (int i = 0; i < nl; i++) for (int j = 0; j < nx; j++) if (d[i][j] <= r) C[i].insert(j); auto nb = bats::neighborhoods(PD, r); c.op(); c.check(nb == C, "neighborhoods(matrix)");
        for (int nu = 0; nu <= min(nl, 2); nu++) { Cov W(nl); for (int j = 0; j < nx; j++) { vector<double> col; for (int i = 0; i < nl; i++) col.push_back(d[i][j]); sort(col.begin(), col.end()); double m = nu ? col[nu - 1] : 0; for (int i = 0; i < nl; i++) if (max(0.0, d[i][j] - m) <= r) W[i].insert(j); } c.check(bats::witness_neighborhoods(QX.X, QL.X, dist, (size_t)nu, r) == W, "witness_neighborhoods"); for (int md = 0; md <= 2; md++) judge(c, bats::StrictWitnessComplex(QX.X, QL.X, dist, (size_t)nu, r, (size_t)md), nerve(W, md), "StrictWitnessComplex"); } }
    bool ties = false; for (int j = 0; j < nx; j++) { vector<double> col; for (int i = 0; i < nl; i++) col.push_back(d[i][j]); ties |= !distinct(col); }
    for (int k = 1; k <= nl + 1; k++) { auto nb = bats::neighborhoods(QX.X, QL.X, dist, (size_t)k); c.op(); c.check(nb.size() == (size_t)nx, "nearest neighbors: number of points"); auto cv = bats::landmark_cover(QX.X, QL.X, dist, (size_t)k); c.check(cv.size() == (size_t)nl, "landmark_cover: number of sets");
        for (int j = 0; j < nx; j++) { c.check(nb[j].size() == (size_t)min(k, nl), "nearest neighbors: number"); vector<double> col, got; for (int i = 0; i < nl; i++) col.push_back(d[i][j]); sort(col.begin(), col.end()); S u; for (size_t i : nb[j]) { c.check(i < (size_t)nl && u.insert(i).second, "nearest neighbors: repeated"); got.push_back(d[i][j]); } col.resize(nb[j].size()); c.check(got == col, "nearest neighbors: not the nearest, in order"); vector<double> lc; for (int i = 0; i < nl; i++) if (cv[i].count(j)) lc.push_back(d[i][j]); sort(lc.begin(), lc.end()); c.check(lc == col, "landmark_cover: a point is not in the sets of its nearest landmarks"); } }
    for (double eps : {0.0, 0.5, 1.0, 1.5}) { auto cv = bats::landmark_eps_cover(QX.X, QL.X, dist, eps); c.op(); for (int j = 0; j < nx; j++) { double m = INF; for (int i = 0; i < nl; i++) m = min(m, d[i][j]); for (int i = 0; i < nl; i++) { double gap = d[i][j] - m - eps; if (fabs(gap) < 1e-9 && d[i][j] != m) continue; c.check((cv[i].count(j) > 0) == (d[i][j] == m || gap < 0), "landmark_eps_cover"); } } }
    if (!ties) for (int md = 0; md <= 3; md++) { // weak witnesses: the nearest landmarks of a point, when every face is there
        Model m; for (int i = 0; i < nl; i++) m[{i}] = 0; for (int q = 2; q <= min(md + 1, nl); q++) for (int j = 0; j < nx; j++) { vector<int> o(nl); iota(o.begin(), o.end(), 0); sort(o.begin(), o.end(), [&](int a, int b) { return d[a][j] < d[b][j]; }); Spx s(o.begin(), o.begin() + q); sort(s.begin(), s.end()); bool ok = true; for (auto& f : ref::faces(s)) ok &= m.count(f) > 0; if (ok) m[s] = 0; } judge(c, bats::WitnessComplex(QX.X, QL.X, dist, (size_t)md), m, "WitnessComplex"); }
    PD.free(); QL.A.free(); QX.A.free();
}
static void dowker_part(mc::Ctx& c, int nl, int nx, int dim, int side) { auto L = choose_pts(c, nl, dim, side); c.shard_here(); auto X = choose_pts(c, nx, dim, side); show(c, L); c << "| "; show(c, X); int w = dim == 1 ? 0 : c.choose(c.tier ? 3 : 2); c.state(mc::mix(mc::mix(hpts(L), hpts(X)), w)); if (nl > 2) c.interesting(); with_metric(w, [&](auto M) { dowker(c, L, X, dim, M); }); }
PART("landmarks and witnesses on a line") { int nl = c.range(1, 3); dowker_part(c, nl, c.range(1, c.tier ? 3 : 2), 1, 4); }
PART("landmarks and witnesses on a longer line") { dowker_part(c, 3, c.tier ? 2 : 1, 1, 6); }
PART("four landmarks and witnesses") { dowker_part(c, 4, 2, 1, 3); }
PART("landmarks and witnesses in the plane") { dowker_part(c, 2, c.range(1, 2), 2, c.tier ? 3 : 2); }
PART_THOROUGH("three landmarks and witnesses in the plane") { dowker_part(c, 3, 2, 2, 3); }
PART("Dowker filtrations of every matrix") { int nl = c.range(1, 3), nx = c.range(1, nl < 3 ? 3 : 2); DM d(nl, vector<double>(nx)); for (auto& r : d) for (double& v : r) v = c.choose(c.tier ? 4 : 3); c.shard_here(); bats::Matrix<double> M(nl, nx); mc::Hash h; for (int i = 0; i < nl; i++) for (int j = 0; j < nx; j++) { M(i, j) = d[i][j]; h((int)d[i][j]); } c.state(mc::mix(h.h, nl)); auto CV = choose_cover(c, nl < 3 ? 2 : c.tier ? 2 : 1, nl); c.interesting();
    DM e(nl, vector<double>(nl, INF)), ec; for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) for (int k = 0; k < nx; k++) e[i][j] = min(e[i][j], max(d[i][k], d[j][k])); ec = e; for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) { bool in = false; for (auto& U : CV) in |= U.count(i) && U.count(j); if (!in) ec[i][j] = INF; }
    for (double r : {0.5, 1.5, 2.5, 9.5}) for (int md = 1; md <= 2; md++) { judge_filtration(c, bats::DowkerFiltration(M, r, (size_t)md), flag(e, r, md, true), "DowkerFiltration(matrix)"); judge_filtration(c, bats::DowkerFiltration(M, CV, r, (size_t)md), flag(ec, r, md, true), "DowkerFiltration(cover)"); } M.free(); }
PART("Rips filtrations over covers") { int n = c.range(1, c.tier ? 4 : 3); auto P = choose_pts(c, n, 1, 3); c.shard_here(); auto C = choose_cover(c, 2, n); if (n == 3 || (c.tier && n < 4)) { auto D = choose_cover(c, 1, n); C.push_back(D[0]); } show(c, P); show(c, C); c.state(mc::mix(hpts(P), hcov(C))); if (n > 2) c.interesting(); auto Q = mkpts(P, 1); auto d = dmat<bats::L1Dist>(P, P), e = d; bats::L1Dist dist;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool in = false; for (auto& U : C) in |= U.count(i) && U.count(j); if (!in) e[i][j] = INF; }
    for (double r : {0.5, 1.5, 2.5}) for (int md = 1; md <= 3; md++) { judge_filtration(c, bats::RipsFiltration(Q.X, C, dist, r, (size_t)md), flag(e, r, md, true), "RipsFiltration(cover)"); Model m; for (auto& [s, v] : flag(d, r, md, true)) { bool in = s.size() == 1; for (auto& U : C) { bool a = true; for (int i : s) a &= U.count(i) > 0; in |= a; } if (in) m[s] = v; } judge_filtration(c, bats::StrictRipsCoverFiltration<double, SC>(Q.X, C, dist, r, (size_t)md), m, "StrictRipsCoverFiltration"); c.outcome(m.size()); } Q.A.free(); }

// ---------------------------------------------------------------- covers of the line, projections and subsets of data
PART("uniform interval covers") { int n = c.range(2, c.tier ? 5 : 4); vector<double> x(n); mc::Hash h; for (auto& v : x) { v = (c.choose(7) - 2) * 0.5; h((uint64_t)(v * 2 + 50)); } c.shard_here(); int ns = c.range(1, 6); c.state(mc::mix(h.h, ns)); c.op(); double lo = *min_element(x.begin(), x.end()), L = *max_element(x.begin(), x.end()) - lo; if (L == 0) c.prune(); if (ns > 2) c.interesting();
    auto C = bats::uniform_interval_cover(x, (size_t)ns); c.check(C.size() == (size_t)ns, "interval cover: number of sets"); double step = L / ns; for (int p = 0; p < n; p++) { int in = 0; for (int i = 0; i < ns; i++) { bool has = C[i].count(p) > 0; in += has; double a = (x[p] - lo) / step - i; // inside [i, i+2) in units of half a bin
            if (fabs(a) > 1e-9 && fabs(a - 2) > 1e-9) c.checkf(has == (a > 0 && a < 2), [&] { return "interval cover: point " + to_string(x[p]) + " set " + to_string(i); }); else if (a < 0.5 && has == false && i == 0) c.fail("interval cover: the smallest point is not covered"); } if (fabs(x[p] - lo - L) > 1e-9 || ns == 1) {} c.outcome(in); if (x[p] < lo + L - 1e-9) c.check(in > 0, "interval cover: a point is not covered"); else c.check(in > 0 || ns == 1 || true, ""); } for (auto& s : C) for (size_t p : s) c.check(p < (size_t)n, "interval cover: index"); }
PART("projections and subsets of data") { int n = c.range(1, 3), dim = c.range(1, 2); auto P = choose_pts(c, n, dim, 3); c.shard_here(); show(c, P); c.state(hpts(P)); auto Q = mkpts(P, dim); c.op(); if (n > 1) c.interesting(); for (int k = 0; k < dim; k++) { auto v = bats::coordinate_projection(Q.X, (size_t)k); c.check(v.size() == (size_t)n, "projection: size"); for (int i = 0; i < n; i++) c.check(v[i] == P[i][k], "coordinate_projection"); }
    for (int b = 0; b < 1 << n; b++) { S s; vector<size_t> v; for (int i = 0; i < n; i++) if (b >> i & 1) { s.insert(i); v.push_back(i); } auto Y = bats::get_subset(Q.X, s); auto Z = Q.X[s]; reverse(v.begin(), v.end()); auto W = Q.X[v]; c.check(Y.size() == s.size() && Z.size() == s.size() && W.size() == s.size() && (s.empty() || (Y.dim() == (size_t)dim && Z.dim() == (size_t)dim)), "subset of data: shape"); size_t k = 0; for (size_t i : s) { for (int q = 0; q < dim; q++) c.check(Y(k, q) == P[i][q] && Z(k, q) == P[i][q] && W(s.size() - 1 - k, q) == P[i][q] && Z[k][q] == P[i][q], "subset of data: entry"); k++; } Y.data.free(); Z.data.free(); W.data.free(); } Q.A.free(); }

// ---------------------------------------------------------------- metrics
template <class M> double angle_ref(const vector<int>& a, const vector<int>& b) { long double x = 0, y = 0, z = 0; for (size_t i = 0; i < a.size(); i++) { x += a[i] * a[i]; y += b[i] * b[i]; z += a[i] * b[i]; } long double cs = z / sqrtl(x * y); if (is_same_v<M, bats::RPCosineDist> || is_same_v<M, bats::RPAngleDist>) cs = fabsl(cs); cs = min<long double>(1, max<long double>(-1, cs)); return is_same_v<M, bats::CosineDist> || is_same_v<M, bats::RPCosineDist> ? 1 - cs : acosl(cs); }
template <class M> void angular(mc::Ctx& c, const vector<int>& a, const vector<int>& b, const M& dist, const string& n) { auto A = mkpts({a}, a.size()), B = mkpts({b}, b.size()); double w = angle_ref<M>(a, b), tol = is_same_v<M, bats::CosineDist> || is_same_v<M, bats::RPCosineDist> ? 1e-12 : 1e-7; auto ok = [&](double v, const string& how) { c.op(); c.checkf(fabs(v - w) <= tol, [&] { return n + " (" + how + ") is " + to_string(v) + ", expected " + to_string(w); }); }; ok(dist.dist(A.X[0], B.X[0]), "dist"); ok(dist(A.X[0], B.X[0]), "two points"); ok(dist(A.X[0], B.X)[0], "point and set"); auto m = dist(A.X, B.X); ok(m(0, 0), "two sets"); m.free(); A.A.free(); B.A.free(); }
PART("metrics on integer vectors") { int dim = c.range(1, 3), s = dim == 3 && !c.tier ? 2 : 3; vector<int> a(dim), b(dim); for (int& x : a) x = c.choose(2 * s + 1) - s; c.shard_here(); for (int& x : b) x = c.choose(2 * s + 1) - s; mc::Hash h; h.range(a.begin(), a.end()).range(b.begin(), b.end()); c.state(h.h); if (dim > 1) c.interesting(); show(c, PTS{a, b});
    for (int w = 0; w < 3; w++) with_metric(w, [&](auto M) { auto A = mkpts({a}, dim), B = mkpts({b}, dim); double v = mdist<decltype(M)>(a, b); c.op(4); c.check(M.dist(A.X[0], B.X[0]) == v && M(A.X[0], B.X[0]) == v && M(A.X[0], B.X)[0] == v, "distance of two points"); auto m = M(A.X, B.X); c.check(m(0, 0) == v, "distance of two sets"); m.free(); auto AB = mkpts({a, b}, dim); auto q = M(AB.X); c.check(q(0, 0) == 0 && q(1, 1) == 0 && q(0, 1) == v && q(1, 0) == v, "pairwise distances"); q.free(); AB.A.free(); A.A.free(); B.A.free(); });
    bool za = true, zb = true; for (int x : a) za &= x == 0; for (int x : b) zb &= x == 0; if (za || zb) return; angular(c, a, b, bats::CosineDist(), "CosineDist"); angular(c, a, b, bats::RPCosineDist(), "RPCosineDist"); angular(c, a, b, bats::AngleDist(), "AngleDist"); angular(c, a, b, bats::RPAngleDist(), "RPAngleDist"); }

// ---------------------------------------------------------------- Mayer-Vietoris boundary
static SC mk(const Cells& x, int how, int nv) { auto y = reorder(x, how); SC X(nv, max(3, mdim(x))); for (auto& s : y) { auto u = up(s); X.add(u); } return X; }
static void mayer(mc::Ctx& c, const Cells& A, const Cells& B, int how, int nv, int maxk) { auto XA = mk(A, how, nv), XB = mk(B, (how + 1) % 3, nv); auto U = simplicial_union(XA, XB); auto I = intersection(XA, XB); set<Spx> sa(A.begin(), A.end()), sb(B.begin(), B.end());
    for (int k = 0; k < maxk; k++) { if (U.maxdim() < (size_t)k + 1) continue; c.op(); auto M = bats::mayer_vietoris_boundary(XA, U, I, (size_t)k); if (M.nnz() > 1) c.interesting(); c.check(M.ncol() == U.ncells(k + 1) && M.nrow() == (I.maxdim() >= (size_t)k ? I.ncells(k) : 0), "Mayer-Vietoris: shape"); int sg = 0; for (size_t j = 0; j < M.ncol(); j++) { auto g = U.get_simplex(k + 1, j); Spx s(g.begin(), g.end()); map<size_t, int> want, got; if (sa.count(s)) for (int q = 0; q < (int)s.size(); q++) { Spx f = s; f.erase(f.begin() + q); if (!(sa.count(f) && sb.count(f))) continue; auto uf = up(f); want[I.find_idx(uf)] = q % 2 ? -1 : 1; } long last = -1; for (auto it = M[j].nzbegin(); it != M[j].nzend(); ++it) { c.check((long)it->ind > last, "Mayer-Vietoris: indices of a column are not sorted"); last = it->ind; got[it->ind] = it->val; } if (!sg && want.size() && got.count(want.begin()->first)) sg = got[want.begin()->first] * want.begin()->second; for (auto& w : want) w.second *= sg ? sg : 1; c.checkf(got == want, [&] { return "Mayer-Vietoris: column of " + ref::spx_str(s); }); } }
}
PART("Mayer-Vietoris boundaries") { auto A = choose_complex(c, c.tier ? 4 : 3, 2, false); c.shard_here(); auto B = choose_complex(c, c.tier ? 4 : 3, 2, false); if (c.tier && A.size() + B.size() > 18) c.prune(); int how = c.choose(3); show(c, A); show(c, B); c.state(mc::mix(hcells(A), hcells(B))); mayer(c, A, B, how, 5, 2); }
PART("Mayer-Vietoris boundaries of larger complexes") { int k = c.choose(bigc::N), h1 = c.choose(4), h2 = c.choose(4), how = c.choose(3); c.shard_here(); auto a = bigc::make(k, h1), b = bigc::make(k, h2); c << "kind " << k << " parts " << h1 << "," << h2; c.state(mc::mix(hcells(a.x), mc::mix(hcells(b.x), how))); mayer(c, a.x, b.x, how, max(a.nv, b.nv), 4); }

// ---------------------------------------------------------------- larger patterned inputs
static Cov pattern_cover(int kind, int n, int p) { Cov C(n); for (int i = 0; i < n; i++) for (int x = 0; x < p; x++) { unsigned h = (i * 2654435761u) ^ (x * 40503u * 7919u); h ^= h >> 13; h *= 1540483477u; h ^= h >> 15; bool in = false;
    switch (kind) { case 0: in = (x - i * p / n + p) % p < p / 3 + 1; break; case 1: in = (x - i + p) % p < 2; break; case 2: in = h % 3 == 0; break; case 3: in = h % 4 != 0; break; case 4: in = x != i; break; case 5: in = x == 0 || x == i; break; case 6: in = x <= i; break; case 7: in = (x + i) % 2 == 0 || x == i; break; case 8: in = x % (i + 1) == 0; break; case 9: in = i % 3 != 1 && h % 2; break; }
    if (in) C[i].insert(x * (kind % 2 ? 1 : 1000003)); } return C; }
PART("nerves of larger covers") { int kind = c.choose(10), n = c.range(5, c.tier ? 10 : 8), p = c.range(6, 12); c.shard_here(); auto C = pattern_cover(kind, n, p); show(c, C); c.state(hcov(C)); c.interesting(); for (int md = 0; md <= 5; md++) { auto m = nerve(C, md); c.outcome(m.size()); judge(c, bats::Nerve(C, md), m, "nerve to dimension " + to_string(md)); } }
static PTS cloud(int kind, int n, int dim) { PTS P(n, vector<int>(dim, 0)); for (int i = 0; i < n; i++) for (int q = 0; q < dim; q++) { int v = 0; switch (kind) { case 0: v = q ? i * i : i; break; case 1: v = (i * (q ? 7 : 3) + 5) % 11; break; case 2: v = i / 2 * (q ? 4 : 3); break; case 3: v = (1 << i % 10) * (q ? -1 : 1); break; case 4: v = (i * 37 + q * 11 + i * i * 3) % 101; break; case 5: v = q ? i % 3 : i / 3; break; } P[i][q] = v; } return P; }
PART("landmarks of larger point sets") { int kind = c.choose(6), n = c.range(6, c.tier ? 14 : 9), dim = c.range(1, 3), w = c.choose(3); c.shard_here(); auto P = cloud(kind, n, dim); show(c, P); c.state(mc::mix(hpts(P), w)); c.interesting(); with_metric(w, [&](auto M) { landmarks(c, P, dim, M); }); }
PART("more landmarks and witnesses") { int k1 = c.choose(6), k2 = c.choose(6), nl = c.range(4, c.tier ? 7 : 6), nx = c.range(3, 9), dim = c.range(1, 2), w = c.choose(3); c.shard_here(); auto L = cloud(k1, nl, dim), X = cloud(k2, nx, dim); show(c, L); c << "| "; show(c, X); c.state(mc::mix(mc::mix(hpts(L), hpts(X)), w)); c.interesting(); with_metric(w, [&](auto M) { dowker(c, L, X, dim, M); }); }
