// C20: Rips and flag constructions are exactly the clique complexes.
#include "filt.hpp"
#include <filtration/rips.hpp>
#include <unordered_map>
using namespace std;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LC; typedef ref::Spx Spx;
typedef vector<vector<double>> DM; static const double NONE = 1e300;
struct Model { map<Spx, double> val; }; // cliques with their largest pair value
static Model cliques(const DM& d, double r, int maxdim, double t0 = 0) { Model m; int n = (int)d.size(); for (int s = 1; s < 1 << n; s++) { if (__builtin_popcount(s) > maxdim + 1) continue; Spx v; for (int i = 0; i < n; i++) if (s >> i & 1) v.push_back(i); double w = v.size() == 1 ? t0 : -NONE; bool ok = true; for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) { ok &= d[v[a]][v[b]] <= r; w = max(w, d[v[a]][v[b]]); } if (ok) m.val[v] = w; } return m; }
template <class X> void judge(mc::Ctx& c, const X& x, const Model& m, const string& n) { c.op(); auto all = x.get_simplices(); set<Spx> seen; c.checkf(all.size() == m.val.size() && x.ncells() == m.val.size(), [&] { return n + ": " + to_string(all.size()) + " simplices, expected " + to_string(m.val.size()); }); for (auto& s : all) { Spx t(s.begin(), s.end()); sort(t.begin(), t.end()); c.checkf(m.val.count(t) > 0, [&] { return n + ": " + ref::spx_str(t) + " is not a clique within the bounds"; }); c.check(seen.insert(t).second, n + ": a simplex is listed twice"); }
    for (auto& [s, v] : m.val) { auto u = up(s); size_t i = x.find_idx(u); c.check(i != bats::NO_IND && i < x.ncells(s.size() - 1), n + ": a clique cannot be found"); auto g = x.get_simplex(s.size() - 1, i); sort(g.begin(), g.end()); c.check(g == up(s), n + ": a clique is found at the wrong place"); } }
template <class FT_> void judge_filtration(mc::Ctx& c, const FT_& F, const Model& m, const string& n) { auto& x = F.complex(); judge(c, x, m, n); auto& v = F.vals(); size_t tot = 0; for (size_t k = 0; k < v.size(); k++) { c.check(v[k].size() == x.ncells(k), n + ": number of values"); for (size_t i = 0; i < v[k].size(); i++) { auto g = x.get_simplex(k, i); Spx s(g.begin(), g.end()); sort(s.begin(), s.end()); double w = m.val.at(s); c.checkf(v[k][i] == w, [&] { return n + ": " + ref::spx_str(s) + " has value " + to_string(v[k][i]) + ", expected " + to_string(w); }); if (k && i) c.check(v[k][i - 1] <= v[k][i], n + ": simplices of one dimension are not added in order of value"); tot++; } } c.check(tot == m.val.size(), n + ": some simplex has no value"); }
static bats::Matrix<double> dense(const DM& d) { int n = (int)d.size(); bats::Matrix<double> M(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M(i, j) = d[i][j]; return M; }
template <class CX> void from_matrix(mc::Ctx& c, const DM& d, double r, int md, const string& n) { auto m = cliques(d, r, md); auto M = dense(d); judge(c, bats::RipsComplex<CX>(M, r, (size_t)md), m, n + "RipsComplex(matrix)"); judge_filtration(c, bats::RipsFiltration<CX>(M, r, (size_t)md), m, n + "RipsFiltration(matrix)"); if (md == 0) return; auto [F, inds] = bats::RipsFiltration_extension<CX>(M, r, (size_t)md); judge_filtration(c, F, m, n + "RipsFiltration_extension(matrix)");
    auto E = bats::rips_filtration_edges(M, r); sort(E.begin(), E.end()); for (size_t k = 1; k < inds.size(); k++) { c.check(inds[k].size() == F.ncells(k), n + "extension: number of edge indices"); for (size_t i = 0; i < inds[k].size(); i++) { auto s = F.complex().get_simplex(k, i); size_t last = 0; for (size_t e = 0; e < E.size(); e++) if (count(s.begin(), s.end(), E[e].s) && count(s.begin(), s.end(), E[e].t)) last = e; c.check(inds[k][i] == last, n + "extension: the recorded edge is not the last edge of the simplex"); } } for (size_t i = 0; i < inds[0].size(); i++) c.check(inds[0][i] == i, n + "extension: vertex index"); c.check(inds[0].size() == F.ncells(0), n + "extension: vertices"); }
static DM choose_dm(mc::Ctx& c, int n, const vector<double>& al) { DM d(n, vector<double>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) d[i][j] = d[j][i] = al[c.choose((int)al.size())]; return d; }
static void seen(mc::Ctx& c, const DM& d, double r, int md) { mc::Hash h; for (auto& x : d) for (double v : x) h((uint64_t)(v * 4096)); h((uint64_t)(r * 4096 + 99999)); h(md); c.state(h.h); if (md > 1 && d.size() > 2) c.interesting(); if (c.verbose) { for (auto& x : d) { for (double v : x) c << v << " "; c << "/ "; } c << "r=" << r << " maxdim=" << md; } }
static void both(mc::Ctx& c, const DM& d, double r, int md) { seen(c, d, r, md); auto m = cliques(d, r, md); c.outcome(m.val.size()); from_matrix<SC>(c, d, r, md, ""); from_matrix<LC>(c, d, r, md, "packed "); }
PART("every distance matrix on up to four points") { int n = c.range(0, 4); auto d = choose_dm(c, n, {0, 1, 2, 3}); c.shard_here(); double r = c.pick(vector<double>{2, -1, 0, 1, 1.5, 3}); both(c, d, r, c.range(0, c.tier ? 4 : 3)); }
PART("every two-valued distance matrix on five points") { auto d = choose_dm(c, 5, c.tier ? vector<double>{1, 2, 2.5} : vector<double>{1, 2}); c.shard_here(); double r = c.pick(vector<double>{2.5, 1}); both(c, d, r, c.tier ? c.range(1, 5) : c.range(2, 4)); }
PART("every graph on six points") { auto d = choose_dm(c, 6, {1, 2}); c.shard_here(); both(c, d, 1, c.tier ? c.range(1, 5) : 3); }
PART_THOROUGH("every three-step filtration on five points ") { auto d = choose_dm(c, 5, {0, 1, 2, 3}); c.shard_here(); both(c, d, 3, 3); }
// edge lists in every order and orientation
template <class CX> void from_edges(mc::Ctx& c, const vector<pair<int, int>>& e, const vector<double>& v, int n, int md, double t0, const string& nm) { DM d(n, vector<double>(n, NONE)); for (size_t k = 0; k < e.size(); k++) d[e[k].first][e[k].second] = d[e[k].second][e[k].first] = v[k]; auto m = cliques(d, NONE / 2, md, t0); vector<size_t> flat; vector<bats::filtered_edge<double>> fe; for (size_t k = 0; k < e.size(); k++) { flat.push_back(e[k].first); flat.push_back(e[k].second); fe.emplace_back(e[k].first, e[k].second, v[k]); } judge(c, bats::FlagComplex<CX>(flat, n, md), m, nm + "FlagComplex"); auto g = fe; judge_filtration(c, bats::FlagFiltration<CX>(g, n, md, t0), m, nm + "FlagFiltration"); c.check(is_sorted(g.begin(), g.end()), nm + "FlagFiltration leaves the edges unsorted"); if (md == 0) return; g = fe; auto [F, I] = bats::FlagFiltration_extension<CX>(g, n, md, t0); judge_filtration(c, F, m, nm + "FlagFiltration_extension"); for (size_t k = 1; k < I.size(); k++) for (size_t i = 0; i < I[k].size(); i++) c.check(g[I[k][i]].r == F.vals()[k][i], nm + "extension: value of the recorded edge"); }
static void edge_lists(mc::Ctx& c, int n, int maxe, bool orient) { vector<pair<int, int>> all, e; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) all.push_back({i, j}); vector<int> used(all.size(), 0); while ((int)e.size() < maxe) { vector<int> left; for (size_t i = 0; i < all.size(); i++) if (!used[i]) left.push_back(i); int q = c.choose((int)left.size() + 1); if (q == (int)left.size()) break; auto p = all[left[q]]; used[left[q]] = 1; if (orient && c.flip()) swap(p.first, p.second); e.push_back(p); if (e.size() == 2) c.shard_here(); } if (!c.sharded) c.shard_here(); vector<double> v; double t0 = orient ? -2 : 0; bool ties = c.flip(); for (size_t k = 0; k < e.size(); k++) v.push_back(ties ? (double)(e.size() - k) / 2 - 1 + (t0 == 0 ? 1 : 0) : (double)((k * 2) % 3)); mc::Hash h; for (auto& p : e) { h(p.first); h(p.second); } c.state(mc::mix(h.h, ties)); if (e.size() > 3) c.interesting(); for (int md = 0; md <= min(3, n); md++) { from_edges<SC>(c, e, v, n, md, t0, ""); from_edges<LC>(c, e, v, n, md, t0, "packed "); } }
PART("edge lists on three vertices in every order and orientation") { edge_lists(c, 3, 3, true); }
PART("edge lists on four vertices in every order") { edge_lists(c, 4, c.tier ? 6 : 6, false); }
PART("values and orders of the complete graph on four and five vertices") { int n = c.range(3, 4); int m = n * (n - 1) / 2; auto p = choose_perm(c, m); c.shard_here(); if (n == 4) { } vector<pair<int, int>> all; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) all.push_back({i, j}); vector<size_t> flat; vector<double> v; DM d(n, vector<double>(n, 0)); bool tie = c.flip(); for (int k = 0; k < m; k++) { auto e = all[p[k]]; flat.push_back(e.first); flat.push_back(e.second); v.push_back(tie ? k / 2 : k); d[e.first][e.second] = d[e.second][e.first] = v.back(); } c.state(mc::mix(mc::Hash().range(p.begin(), p.end()).h, tie)); c.interesting(); for (int md = 1; md <= n; md++) { c.op(); auto [X, F] = bats::CompleteFlagFiltration<double>(flat, v, n, md, 0.0); auto mo = cliques(d, NONE, md); judge_filtration(c, F, mo, "CompleteFlagFiltration"); judge(c, X, mo, "complex of CompleteFlagFiltration"); } }
// points
template <class M> double dist(const vector<int>& a, const vector<int>& b); struct ME {}; struct M1 {}; struct MI {};
template <> double dist<ME>(const vector<int>& a, const vector<int>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += ((double)a[i] - b[i]) * ((double)a[i] - b[i]); return sqrt(s); }
template <> double dist<M1>(const vector<int>& a, const vector<int>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += abs(a[i] - b[i]); return s; }
template <> double dist<MI>(const vector<int>& a, const vector<int>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s = max(s, (double)abs(a[i] - b[i])); return s; }
template <class CX, class M, class D> void from_points(mc::Ctx& c, const vector<vector<int>>& P, D dd, double r, int md, const string& n) { int N = (int)P.size(); DM d(N, vector<double>(N)); bats::Matrix<double> A(N, P.empty() ? 1 : P[0].size()); for (int i = 0; i < N; i++) { for (size_t k = 0; k < P[i].size(); k++) A(i, k) = P[i][k]; for (int j = 0; j < N; j++) d[i][j] = dist<M>(P[i], P[j]); } bats::DataSet<double> X(A); auto m = cliques(d, r, md); judge(c, bats::RipsComplex<CX>(X, dd, r, (size_t)md), m, n + "RipsComplex(points)"); judge_filtration(c, bats::RipsFiltration<CX>(X, dd, r, (size_t)md), m, n + "RipsFiltration(points)"); if (md) judge_filtration(c, get<0>(bats::RipsFiltration_extension<CX>(X, dd, r, (size_t)md)), m, n + "RipsFiltration_extension(points)"); auto PD = dd(X); judge_filtration(c, bats::RipsFiltration<CX>(PD, r, (size_t)md), m, n + "RipsFiltration(matrix of points)"); judge(c, bats::RipsComplex<CX>(PD, r, (size_t)md), m, n + "RipsComplex(matrix of points)"); seen(c, d, r, md); }
static void points(mc::Ctx& c, int N, int dim, int side) { vector<vector<int>> P(N, vector<int>(dim)); for (auto& p : P) for (auto& x : p) x = c.choose(side); c.shard_here(); double r = c.pick(vector<double>{1.5, 0, 1, 2, 4}); int md = c.range(1, 3); int w = c.choose(3); if (w == 0) { from_points<SC, ME>(c, P, bats::Euclidean(), r, md, "Euclidean "); from_points<LC, ME>(c, P, bats::Euclidean(), r, md, "packed Euclidean "); } else if (w == 1) from_points<SC, M1>(c, P, bats::L1Dist(), r, md, "L1 "); else from_points<SC, MI>(c, P, bats::LInfDist(), r, md, "LInf "); }
PART("points on a line") { int n = c.range(1, c.tier ? 5 : 4); points(c, n, 1, 4); }
PART("points in the plane") { int n = c.range(2, c.tier ? 4 : 3); points(c, n, 2, 3); }
// helpers on coordinate lists
PART("edge helpers on coordinate lists") { int n = c.range(1, 4); vector<double> x(n); for (auto& v : x) v = c.choose(4) - 1; c.shard_here(); mc::Hash h; for (double v : x) h((uint64_t)(v + 1)); c.state(h.h); c.op(3); vector<size_t> e; vector<double> t; bats::rips_edges(x, e, t); c.check(e.size() == (size_t)n * (n - 1) && t.size() * 2 == e.size(), "rips_edges: number of edges"); set<pair<size_t, size_t>> S; for (size_t k = 0; k < t.size(); k++) { c.check(e[2 * k] < e[2 * k + 1] && e[2 * k + 1] < (size_t)n && S.insert({e[2 * k], e[2 * k + 1]}).second, "rips_edges: pairs"); c.check(t[k] == fabs(x[e[2 * k]] - x[e[2 * k + 1]]), "rips_edges: length"); } auto e2 = e; auto t2 = t; bats::sort_edges(e2, t2); c.check(is_sorted(t2.begin(), t2.end()), "sort_edges does not sort"); multiset<tuple<double, size_t, size_t>> A, B; for (size_t k = 0; k < t.size(); k++) { A.insert({t[k], e[2 * k], e[2 * k + 1]}); B.insert({t2[k], e2[2 * k], e2[2 * k + 1]}); } c.check(A == B, "sort_edges changes the edges"); auto ap = bats::all_pairs(n); set<set<size_t>> Q; for (size_t k = 0; k + 1 < ap.size(); k += 2) Q.insert(set<size_t>{ap[k], ap[k + 1]}); c.check(ap.size() == (size_t)n * (n - 1) && Q.size() * 2 == ap.size(), "all_pairs"); auto pd = bats::pairwise_dist(x, ap, 1); for (size_t k = 0; k < pd.size(); k++) c.check(pd[k] == fabs(x[ap[2 * k]] - x[ap[2 * k + 1]]), "pairwise_dist"); if (n % 2 == 0) { vector<size_t> one; if (n == 4) one = {0, 1}; auto q = bats::pairwise_dist(x, one, 2); if (n == 4) c.check(q.size() == 1 && q[0] == sqrt((x[0] - x[2]) * (x[0] - x[2]) + (x[1] - x[3]) * (x[1] - x[3])), "pairwise_dist in the plane"); } }
// more points
static DM patterned_dm(int n, int kind) { DM d(n, vector<double>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) d[i][j] = d[j][i] = kind == 0 ? (i * 7 + j * 7 + i * j) % 11 : kind == 1 ? min(i - j, n - i + j) : kind == 2 ? abs(i - j) : kind == 3 ? 1 + ((i * j + i + j) % 3 == 0) : kind == 4 ? 1 + 1e-9 * ((i * 5 + j * 5) % 17) : 1e3 - ((i + j) * 13 % 29); return d; }
PART("distance matrices on up to twelve points") { int n = c.range(6, c.tier ? 14 : 12), kind = c.choose(6), md = c.range(1, c.tier ? 5 : 3); c.shard_here(); auto d = patterned_dm(n, kind); set<double> vs; for (auto& r : d) for (double x : r) vs.insert(x); vector<double> v(vs.begin(), vs.end()); double r = v[(v.size() - 1) * (1 + c.choose(4)) / 4]; c << n << " points, kind " << kind; both(c, d, r, md); }
PART("points with large coordinates") { int N = c.range(5, 9), kind = c.choose(4); c.shard_here(); vector<vector<int>> P; for (int i = 0; i < N; i++) P.push_back(kind == 0 ? vector<int>{i * 1000003, -i * 7} : kind == 1 ? vector<int>{(i * i) % 7, (i * 3) % 5, -i} : kind == 2 ? vector<int>{i % 3, i / 3} : vector<int>{(i % 2) * 1000000, (i / 2) * 1000001}); double r = c.pick(vector<double>{2.5, 1e6, 1e7}); int md = c.range(1, 3); from_points<SC, ME>(c, P, bats::Euclidean(), r, md, "Euclidean "); from_points<LC, M1>(c, P, bats::L1Dist(), r, md, "packed L1 "); from_points<SC, MI>(c, P, bats::LInfDist(), r, md, "LInf "); }
