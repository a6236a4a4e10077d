// C31: grids, their triangulations, product and sample spaces, noise with a seed, and the Sierpinski diagram are what they say.
#include "bridge.hpp"
#include <topology/extras.hpp>
#include <topology/spherical.hpp>
using namespace std;
typedef vector<int> Pt; typedef set<vector<size_t>> Sets;
typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LSC;
// cubes of a grid: per coordinate an interval [a,b] with b - a <= 1
struct Cube { Pt lo, hi; bool operator==(const Cube& o) const { return lo == o.lo && hi == o.hi; } bool operator<(const Cube& o) const { return tie(lo, hi) < tie(o.lo, o.hi); } };
static void each(const Pt& lo, const Pt& hi, const function<void(const Pt&)>& f) { Pt p = lo; for (size_t i = 0; i < p.size(); i++) if (lo[i] > hi[i]) return; for (;;) { f(p); size_t i = 0; while (i < p.size() && p[i] == hi[i]) { p[i] = lo[i]; i++; } if (i == p.size()) return; p[i]++; } }
static set<Cube> box(const Pt& lo, const Pt& hi) { set<Cube> r; each(lo, hi, [&](const Pt& a) { Pt z(a.size(), 0), o(a.size(), 1); each(z, o, [&](const Pt& d) { Pt b = a; bool ok = true; for (size_t i = 0; i < a.size(); i++) { b[i] += d[i]; ok &= b[i] <= hi[i]; } if (ok) r.insert({a, b}); }); }); return r; }
static set<Cube> closure(const set<Cube>& x) { set<Cube> r; for (auto& q : x) for (auto& f : box(q.lo, q.hi)) r.insert(f); return r; }
static size_t rowmajor_index(const Pt& p, const Pt& n) { size_t k = 0; for (size_t i = 0; i < p.size(); i++) k = k * n[i] + p[i]; return k; }
// simplices: increasing chains of vertices of one cube
static Sets chains(const set<Cube>& x, const Pt& n, size_t maxdim) { Sets out; for (auto& q : x) { vector<Pt> vs; each(q.lo, q.hi, [&](const Pt& p) { vs.push_back(p); }); sort(vs.begin(), vs.end());
        function<void(vector<Pt>)> rec = [&](vector<Pt> s) { if (s.size()) { vector<size_t> t; for (auto& p : s) t.push_back(rowmajor_index(p, n)); sort(t.begin(), t.end()); out.insert(t); } if (s.size() == maxdim + 1) return;
            for (auto& p : vs) { if (s.size()) { bool le = true, ne = false; for (size_t i = 0; i < p.size(); i++) { le &= s.back()[i] <= p[i]; ne |= s.back()[i] != p[i]; } if (!le || !ne) continue; } auto t = s; t.push_back(p); rec(t); } }; rec({}); }
    return out; }
template <class C> static Sets simplices(mc::Ctx& c, const C& X, const string& what) { Sets r; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { auto v = X.get_simplex(k, i); vector<size_t> t(v.begin(), v.end()); sort(t.begin(), t.end()); c.check(t.size() == k + 1, what + ": a simplex is listed in the wrong dimension"); c.check(r.insert(t).second, what + ": a simplex is listed twice"); } return r; }
static set<Cube> cubes(mc::Ctx& c, const bats::CubicalComplex& X, size_t d, const string& what) { set<Cube> r; vector<size_t> q; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { X.get_cube(k, i, q); Cube z; for (size_t j = 0; j < d; j++) { z.lo.push_back(q[2 * j]); z.hi.push_back(q[2 * j + 1]); } size_t dim = 0; for (size_t j = 0; j < d; j++) dim += z.lo[j] != z.hi[j]; c.check(dim == k, what + ": a cube is listed in the wrong dimension"); c.check(r.insert(z).second, what + ": a cube is listed twice"); } return r; }
static string show(const Pt& p) { return str(vector<int>(p)); }
static string diff(const Sets& a, const Sets& b) { for (auto& s : a) if (!b.count(s)) return " has " + str(s) + " which is not in the triangulation"; for (auto& s : b) if (!a.count(s)) return " lacks " + str(s); return ""; }
static Pt ones(size_t d) { return Pt(d, 1); } static Pt minus1(Pt n) { for (auto& x : n) x--; return n; }
template <class C> static void freud2(mc::Ctx& c, const Pt& n, const string& w) { c.op(); auto X = bats::Freudenthal<C>((size_t)n[0], (size_t)n[1]); auto want = chains(box({0, 0}, minus1(n)), n, 2); auto got = simplices(c, X, w); c.checkf(got == want, [&] { return w + diff(got, want); }); }
template <class C> static void freud3(mc::Ctx& c, const Pt& n, const string& w) { c.op(); auto X = bats::Freudenthal<C>((size_t)n[0], (size_t)n[1], (size_t)n[2]); auto want = chains(box({0, 0, 0}, minus1(n)), n, 3); auto got = simplices(c, X, w); c.checkf(got == want, [&] { return w + diff(got, want); }); }
PART("two-dimensional grids") { int N = c.tier ? 8 : 6; Pt n{2 + c.choose(N - 1), 2 + c.choose(N - 1)}; c.shard_here(); mc::Hash h; h(n[0]); h(n[1]); c.state(h.h); c.interesting(); string w = "grid " + show(n); freud2<bats::SimplicialComplex>(c, n, "simplicial " + w); freud2<LSC>(c, n, "packed " + w);
    auto X = bats::Cube((size_t)n[0], (size_t)n[1]); c.check(cubes(c, X, 2, "cubical " + w) == box({0, 0}, minus1(n)), "cubical " + w + " has the wrong cubes"); }
PART("three-dimensional grids") { int N = c.tier ? 6 : 4; Pt n{2 + c.choose(N - 1), 2 + c.choose(N - 1), 2 + c.choose(N - 1)}; c.shard_here(); mc::Hash h; h.range(n.begin(), n.end()); c.state(h.h); c.interesting(); string w = "grid " + show(n); freud3<bats::SimplicialComplex>(c, n, "simplicial " + w); freud3<LSC>(c, n, "packed " + w);
    auto X = bats::Cube((size_t)n[0], (size_t)n[1], (size_t)n[2]); c.check(cubes(c, X, 3, "cubical " + w) == box({0, 0, 0}, minus1(n)), "cubical " + w + " has the wrong cubes"); }
PART("ranges and slices of three-dimensional grids") { int N = c.tier ? 4 : 3; Pt n, lo, hi; for (int i = 0; i < 3; i++) n.push_back(2 + c.choose(N - 1)); c.shard_here(); int flat = 0; for (int i = 0; i < 3; i++) { lo.push_back(c.choose(n[i])); hi.push_back(lo[i] + c.choose(n[i] - lo[i])); flat += lo[i] == hi[i]; }
    if (flat > 1) c.prune(); mc::Hash h; h.range(n.begin(), n.end()); h.range(lo.begin(), lo.end()); h.range(hi.begin(), hi.end()); c.state(h.h); if (flat) c.interesting(); string w = "grid " + show(n) + " from " + show(lo) + " to " + show(hi); if (c.verbose) c << w << "\n"; c.op(2);
    auto F = bats::Freudenthal<bats::SimplicialComplex>(n[0], n[1], n[2], lo[0], hi[0] + 1, lo[1], hi[1] + 1, lo[2], hi[2] + 1); auto want = chains(box(lo, hi), n, 3), got = simplices(c, F, w); c.checkf(got == want, [&] { return w + diff(got, want); });
    auto L = bats::Freudenthal<LSC>(n[0], n[1], n[2], lo[0], hi[0] + 1, lo[1], hi[1] + 1, lo[2], hi[2] + 1); c.check(simplices(c, L, w) == want, "packed " + w);
    auto X = bats::Cube(n[0], n[1], n[2], lo[0], hi[0] + 1, lo[1], hi[1] + 1, lo[2], hi[2] + 1); c.check(cubes(c, X, 3, w) == box(lo, hi), "cubical " + w + " has the wrong cubes"); }
// triangulation of a cubical complex: generated by any set of cubes
static void tri(mc::Ctx& c, const Pt& n, const vector<Cube>& gen, int order) { set<Cube> want; bats::CubicalComplex X(3); auto g = gen; if (order) reverse(g.begin(), g.end()); for (auto& q : g) { vector<size_t> v; for (int i = 0; i < 3; i++) { v.push_back(q.lo[i]); v.push_back(q.hi[i]); } X.add_recursive(v); want.insert(q); } want = closure(want);
    mc::Hash h; for (auto& q : want) { h.range(q.lo.begin(), q.lo.end()); h.range(q.hi.begin(), q.hi.end()); } c.state(h.h); c.op(2); if (want.size() > 1) c.interesting(); auto s = chains(want, n, 3);
    auto F = bats::Freudenthal<bats::SimplicialComplex>(X, n[0], n[1], n[2]); auto got = simplices(c, F, "triangulation"); c.checkf(got == s, [&] { string w = "triangulation of the complex of"; for (auto& q : gen) w += " " + show(q.lo) + show(q.hi); return w + diff(got, s); });
    auto L = bats::Freudenthal<LSC>(X, n[0], n[1], n[2]); c.check(simplices(c, L, "packed triangulation") == s, "packed triangulation differs"); }
PART("triangulations of every subcomplex of a cube") { Pt n{2, 2, 2}; auto all = box({0, 0, 0}, {1, 1, 1}); vector<vector<Cube>> by(4); for (auto& q : all) { int d = 0; for (int i = 0; i < 3; i++) d += q.lo[i] != q.hi[i]; by[d].push_back(q); }
    vector<Cube> gen; if (c.flip()) gen.push_back(by[3][0]); else { set<Cube> in; for (auto& q : by[2]) if (c.flip()) { gen.push_back(q); } c.shard_here(); set<Cube> cl = closure(set<Cube>(gen.begin(), gen.end())); for (auto& q : by[1]) if (!cl.count(q) && c.flip()) gen.push_back(q); cl = closure(set<Cube>(gen.begin(), gen.end())); for (auto& q : by[0]) if (!cl.count(q) && c.flip()) gen.push_back(q); }
    if (gen.empty()) c.prune(); int order = c.tier ? c.choose(2) : gen.size() % 2; tri(c, n, gen, order); }
PART("triangulations of sets of cubes in longer grids") { int which = c.choose(c.tier ? 4 : 3); Pt n = which == 0 ? Pt{3, 2, 2} : which == 1 ? Pt{2, 3, 2} : which == 2 ? Pt{2, 2, 4} : Pt{3, 3, 2}; auto all = box({0, 0, 0}, minus1(n)); vector<Cube> three, two; for (auto& q : all) { int d = 0; for (int i = 0; i < 3; i++) d += q.lo[i] != q.hi[i]; if (d == 3) three.push_back(q); if (d == 2) two.push_back(q); }
    vector<Cube> gen; for (auto& q : three) if (c.flip()) gen.push_back(q); c.shard_here(); int left = c.tier ? 3 : 2; set<Cube> cl = closure(set<Cube>(gen.begin(), gen.end())); for (auto& q : two) if (left && !cl.count(q) && c.flip()) { gen.push_back(q); left--; } if (gen.empty()) c.prune(); tri(c, n, gen, c.choose(2)); }
PART("a complex that is not three-dimensional is refused") { int d = c.choose(3); bool threw = false; bats::CubicalComplex X(d); try { bats::Freudenthal<bats::SimplicialComplex>(X, 2, 2, 2); } catch (const runtime_error&) { threw = true; } c.op(); c.state(d); c.check(threw, "no exception"); }
// data sets
typedef bats::DataSet<double> DS;
static DS dataset(const vector<vector<double>>& x, size_t d) { bats::Matrix<double> M(x.size(), d); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < d; j++) M(i, j) = x[i][j]; return DS(M); }
static vector<vector<double>> choose_points(mc::Ctx& c, int n, int d, int k) { vector<vector<double>> x(n, vector<double>(d)); for (auto& r : x) for (auto& v : r) v = c.choose(k) - 1; return x; }
PART("product spaces") { int nx = 1 + c.choose(3), ny = 1 + c.choose(3), dx = 1 + c.choose(2), dy = 1 + c.choose(2); if (nx * dx + ny * dy > (c.tier ? 9 : 7)) c.prune(); c.shard_here(); auto x = choose_points(c, nx, dx, 2), y = choose_points(c, ny, dy, 2); auto X = dataset(x, dx), Y = dataset(y, dy); mc::Hash h; h(nx); h(dx); for (auto& r : x) for (double v : r) h((int)v + 9); for (auto& r : y) for (double v : r) h((int)v + 99); c.state(h.h); c.op(); c.interesting();
    // make every coordinate recognisable as well
    for (int i = 0; i < nx; i++) for (int j = 0; j < dx; j++) X(i, j) += 10 * i + 100 * j; for (int i = 0; i < ny; i++) for (int j = 0; j < dy; j++) Y(i, j) += 1000 * i + 10000 * j;
    auto Z = bats::product_space(X, Y); c.check((int)Z.size() == nx * ny && (int)Z.dim() == dx + dy, "the product has the wrong size"); for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < dx + dy; k++) c.check(Z(i * ny + j, k) == (k < dx ? X(i, k) : Y(j, k - dx)), "wrong coordinate in a product space"); }
PART("intervals, circles and cylinders") { int n = 2 + c.choose(c.tier ? 40 : 12), m = 1 + c.choose(c.tier ? 40 : 12); c.shard_here(); double a = c.choose(5) - 2, b = a + c.choose(5) - 2; double rad = 0.5 * (1 + c.choose(3)); mc::Hash h; h(n); h(m); h((int)a + 5); h((int)b + 9); h((int)(2 * rad)); c.state(h.h); c.op(3); c.interesting();
    auto I = bats::interval<double>(a, b, n); c.check((int)I.size() == n && I.dim() == 1, "interval: wrong size"); for (int i = 0; i < n; i++) c.check(fabs(I(i, 0) - (a + (b - a) * i / (n - 1))) < 1e-9, "interval: points are not evenly spaced from the first to the last end");
    auto S = bats::circle<double>(rad, m); c.check((int)S.size() == m && S.dim() == 2, "circle: wrong size"); for (int i = 0; i < m; i++) c.check(fabs(S(i, 0) - rad * cos(2 * M_PI * i / m)) < 1e-9 && fabs(S(i, 1) - rad * sin(2 * M_PI * i / m)) < 1e-9, "circle: a point is at the wrong angle or radius");
    auto C = bats::gen_cylinder(n, m, rad); c.check((int)C.size() == n * m && C.dim() == 3, "cylinder: wrong size"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) c.check(fabs(C(i * m + j, 0) - i / (n - 1.0)) < 1e-9 && fabs(C(i * m + j, 1) - S(j, 0)) < 1e-12 && fabs(C(i * m + j, 2) - S(j, 1)) < 1e-12, "cylinder: a point is misplaced"); }
PART("random samples are in range and determined by their seed") { int d = 1 + c.choose(4), n = 1 + c.choose(c.tier ? 12 : 6), seed = c.choose(c.tier ? 20 : 6); c.shard_here(); mc::Hash h; h(d); h(n); h(seed); c.state(h.h); c.op(6); c.interesting();
    auto A = bats::sample_sphere<double>(d, n, (unsigned)seed), B = bats::sample_sphere<double>(d, n, (unsigned)seed), R = bats::sample_sphere<double>(d, n); for (auto* p : {&A, &B, &R}) { c.check((int)p->size() == n && (int)p->dim() == d, "sphere: wrong size"); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < d; j++) s += (*p)(i, j) * (*p)(i, j); c.check(fabs(s - 1) < 1e-9, "a sample of the sphere is not on the sphere"); } }
    auto P = bats::sample_cube<double>(d, n, (unsigned)seed), Q = bats::sample_cube<double>(d, n, (unsigned)seed), W = bats::sample_cube<double>(d, n); for (auto* p : {&P, &Q, &W}) { c.check((int)p->size() == n && (int)p->dim() == d, "cube: wrong size"); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) c.check((*p)(i, j) >= 0 && (*p)(i, j) <= 1, "a sample of the cube is outside of it"); }
    for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) c.check(A(i, j) == B(i, j) && P(i, j) == Q(i, j), "two samples with the same seed differ");
    // noise is added to what is there: the same seed gives the same displacement, scaled and shifted
    bats::Matrix<double> M(n, d), N(n, d), U(n, d); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) { M(i, j) = 0; N(i, j) = 7 * i - j; U(i, j) = 3 * i + j; } bats::add_normal_noise(M, (unsigned)seed); bats::add_normal_noise(N, (unsigned)seed, 0.0, 1.0); bats::add_uniform_noise(U, (unsigned)seed, -2.0, -1.0);
    for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) { c.check(fabs(N(i, j) - (7 * i - j) - M(i, j)) < 1e-9, "normal noise is not added to the data"); double u = U(i, j) - (3 * i + j); c.check(u >= -2 - 1e-9 && u <= -1 + 1e-9, "uniform noise is out of its range"); }
    DS D = dataset(vector<vector<double>>(n, vector<double>(d, 5)), d); bats::add_normal_noise(D, (unsigned)seed, 0.0, 1.0); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) c.check(fabs(D(i, j) - 5 - M(i, j)) < 1e-9, "noise on a data set differs from noise on its matrix");
    DS E = dataset(vector<vector<double>>(n, vector<double>(d, 5)), d); bats::add_uniform_noise(E, 2.0, 3.0); for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) c.check(E(i, j) >= 7 && E(i, j) <= 8, "uniform noise on a data set is out of its range"); }
PART("normalised points") { int n = 1 + c.choose(3), d = 1 + c.choose(3); if (n * d > (c.tier ? 9 : 6)) c.prune(); auto x = choose_points(c, n, d, 4); c.shard_here(); for (auto& r : x) { bool z = true; for (double v : r) z &= v == 0; if (z) c.prune(); } mc::Hash h; h(n); for (auto& r : x) for (double v : r) h((int)v + 9); c.state(h.h); c.op(); c.interesting(); auto X = dataset(x, d); bats::normalize_entries(X);
    for (int i = 0; i < n; i++) { double s = 0; for (double v : x[i]) s += v * v; s = sqrt(s); for (int j = 0; j < d; j++) c.check(fabs(X(i, j) - x[i][j] / s) < 1e-9, "a point is not divided by its norm"); } }
// Sierpinski triangles
PART("Sierpinski diagrams") { int k = 1 + c.choose(c.tier ? 7 : 6); c.shard_here(); c.state(k); if (k > 1) c.interesting(); c.op(); auto D = bats::serpinski_diagram(k); c.check((int)D.nnode() == k && (int)D.nedge() == k - 1, "wrong shape"); typedef QQ F; size_t p3 = 1;
    for (int i = 0; i < k; i++, p3 *= 3) { auto& X = D.node[i]; string w = "level " + to_string(i); size_t v = (3 * p3 + 3) / 2, e = 3 * p3, f = (p3 - 1) / 2; c.check(X.ncells(0) == v && X.ncells(1) == e && X.ncells(2) == f, w + ": wrong number of cells");
        auto C = bats::Chain(X, F()); for (int q = 1; q <= (f ? 2 : 1); q++) rdmat<F>(C[q], c, w + ": boundary"); if (f) { auto z = C[1] * C[2]; for (size_t j = 0; j < z.ncol(); j++) c.check(z[j].nnz() == 0, w + ": the boundary of a boundary is not zero"); } for (size_t j = 0; j < e; j++) c.check(C[1][j].nnz() == 2, w + ": an edge does not have two ends");
        // a disc is glued into every hole that the subdivision made, so one hole is left per small triangle
        auto R = bats::Reduce(C); c.check(R.hdim(0) == 1 && R.hdim(1) == p3, w + ": wrong homology");
        if (i) { auto& s = D.elist[i - 1]; c.check((int)s.src == i - 1 && (int)s.targ == i, "arrow between the wrong levels"); auto m = bats::Chain(D.edata[i - 1], F()); auto C0 = bats::Chain(D.node[i - 1], F()); for (int q = 0; q <= (i > 1 ? 2 : 1); q++) rdmat<F>(m[q], c, w + ": map"); for (int q = 1; q <= (i > 1 ? 2 : 1); q++) c.check((C[q] * m[q]) == (m[q - 1] * C0[q]), w + ": the subdivision is not a chain map in dimension " + to_string(q));
            auto& mm = D.edata[i - 1]; for (size_t j = 0; j < D.node[i - 1].ncells(1); j++) c.check(mm[1][j].nnz() == 2, w + ": an edge is not mapped to its two halves"); 
            auto R0 = bats::Reduce(C0); for (int q = 0; q < 2; q++) { auto H = bats::induced_map(m, R0, R, q); auto want = q ? p3 / 3 : 1; RM<F> dm = rdmat<F>(H, c, "induced map"); c.check(dm.rank() == (int)want, w + ": the subdivision is not injective on homology in dimension " + to_string(q)); } } } }
