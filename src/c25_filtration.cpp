// C25: filtration containers keep cells, values and orders consistent.
#include "filt.hpp"
#include "big.hpp"
#include <unordered_map>
using namespace std;
typedef bats::SimplicialComplex SC; typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LC; typedef bats::CubicalComplex QC; typedef ref::Spx Spx;
typedef map<Spx, double> Model; // cell -> value
template <class X> struct Kind; 
template <> struct Kind<SC> { static constexpr bool checked = true, cube = false; static SC make(int n, int d) { return SC(n, d); } };
template <> struct Kind<LC> { static constexpr bool checked = false, cube = false; static LC make(int n, int d) { return LC(n, d); } };
template <> struct Kind<QC> { static constexpr bool checked = true, cube = true; static QC make(int n, int d) { return QC(d); } };
static vector<Spx> cfaces(const Spx& s) { vector<Spx> f; for (size_t k = 0; k + 1 < s.size(); k += 2) if (s[k] != s[k + 1]) for (int e : {0, 1}) { Spx t = s; t[k] = t[k + 1] = s[k + e]; f.push_back(t); } return f; }
template <class X> vector<Spx> faces_of(const Spx& s) { return Kind<X>::cube ? cfaces(s) : ref::faces(s); }
template <class X> size_t dim_of(const Spx& s) { if (!Kind<X>::cube) return s.size() - 1; size_t d = 0; for (size_t k = 0; k + 1 < s.size(); k += 2) d += s[k] != s[k + 1]; return d; }
template <class X> void closure(const Spx& s, set<Spx>& out) { if (!out.insert(s).second) return; for (auto& f : faces_of<X>(s)) closure<X>(f, out); }
template <class X> Spx cell(const X& x, size_t k, size_t i) { auto g = x.get_cell(k, i); return Spx(g.begin(), g.end()); }
template <class X> size_t find(const X& x, const Spx& s) { auto u = up(s); return x.find_idx(u); }

template <class X> void compare(mc::Ctx& c, const bats::Filtration<double, X>& F, const Model& m, const string& n) {
    c.op(); auto& x = F.complex(); auto& v = F.vals(); size_t tot = 0; c.check(x.ncells() == m.size(), n + ": number of cells"); c.check(v.size() >= x.maxdim() + 1 || Kind<X>::cube, n + ": dimensions of the list of values"); c.check(F.maxdim() + 1 == v.size(), n + ": maxdim");
    for (size_t k = 0; k < v.size(); k++) { c.checkf(v[k].size() == x.ncells(k) && F.ncells(k) == x.ncells(k), [&] { return n + ": " + to_string(v[k].size()) + " values for " + to_string(x.ncells(k)) + " cells of dimension " + to_string(k); }); for (size_t i = 0; i < v[k].size(); i++) { auto s = cell(x, k, i); auto it = m.find(s); c.checkf(it != m.end(), [&] { return n + ": unexpected cell " + ref::spx_str(s); }); c.checkf(it->second == v[k][i], [&] { return n + ": " + ref::spx_str(s) + " has value " + to_string(v[k][i]) + ", expected " + to_string(it->second); }); c.check(find(x, s) == i, n + ": index of a cell"); c.check(F.vals(k)[i] == v[k][i], n + ": vals(k)"); tot++; } } c.check(tot == m.size(), n + ": cells without values");
    auto P = F.sortperm(); c.check(P.size() == v.size(), n + ": sortperm"); auto I = bats::filtration_iperm(P); for (size_t k = 0; k < v.size(); k++) { auto w = sort_order(v[k]); c.check(P[k].size() == w.size() && F.sortperm(k) == P[k], n + ": sortperm"); for (size_t i = 0; i < w.size(); i++) { c.check(P[k][i] == (size_t)w[i], n + ": cells are not sorted stably by value"); c.check(I[k][P[k][i]] == i, n + ": inverse permutation"); } }
}
template <class X> void sublevels(mc::Ctx& c, const bats::Filtration<double, X>& F, const Model& m, const vector<double>& at) {
    bool mono = true; for (auto& [s, v] : m) for (auto& f : faces_of<X>(s)) mono &= m.count(f) && m.at(f) <= v; if (!mono) return;
    for (double a : at) { c.op(); X y = F.sublevelset(a); set<Spx> want, got; for (auto& [s, v] : m) if (v <= a) want.insert(s); size_t tot = 0; for (size_t k = 0; k <= y.maxdim(); k++) for (size_t i = 0; i < y.ncells(k); i++) { auto s = cell(y, k, i); c.check(find(y, s) == i, "sublevel set: index of a cell"); got.insert(s); tot++; } c.checkf(got == want && tot == want.size(), [&] { return "sublevel set at " + to_string(a) + " has " + to_string(tot) + " cells, expected " + to_string(want.size()); }); c.outcome(tot); }
}
template <class X> void dims(mc::Ctx& c, const bats::Filtration<double, X>& F) { if (F.ncells(0) == 0) return; auto C = bats::Chain(F, F2()); auto d = dense_complex<F2>(C.complex(), c); }
// one insertion: plain or recursive
template <class X> void insert(mc::Ctx& c, bats::Filtration<double, X>& F, Model& m, const Spx& s, double t, bool rec, int scramble) {
    auto u = up(s); if (scramble && !Kind<X>::cube && Kind<X>::checked) { if (scramble == 1) reverse(u.begin(), u.end()); else rotate(u.begin(), u.begin() + 1, u.end()); }
    if (rec) { set<Spx> cl; closure<X>(s, cl); size_t added = 0; Model old = m; for (auto& f : cl) if (m.emplace(f, t).second) added++; auto r = F.add_recursive(t, u); set<Spx> got; for (auto& q : r) { auto g = cell(F.complex(), q.dim, q.ind); c.check(cl.count(g) > 0 && (!old.count(g) || g == s), "add_recursive returns a cell it did not add"); c.check(got.insert(g).second, "add_recursive returns a cell twice"); } for (auto& f : cl) if (!old.count(f)) c.check(got.count(f) > 0, "add_recursive does not return a cell it added"); }
    else { bool ok = true; for (auto& f : faces_of<X>(s)) ok &= m.count(f) > 0; if (!ok && !Kind<X>::checked) c.prune(); bool have = m.count(s); size_t before = F.complex().ncells(); auto r = F.add(t, u); if (ok || have) { m[s] = t; c.check(r.dim == dim_of<X>(s) && r.ind == find(F.complex(), s), "add returns the wrong cell"); } else { c.check(r.ind == bats::NO_IND, "add of a cell without its faces does not report failure"); c.check(F.complex().ncells() == before, "add of a cell without its faces changes the complex"); } }
}
template <class X> void history(mc::Ctx& c, const vector<Spx>& pool, int n, int maxd, int steps, const vector<double>& al, bool scr) {
    bats::Filtration<double, X> F(Kind<X>::make(n, maxd)); Model m; mc::Hash h; c.shard_here();
    for (int t = 0; t < steps; t++) { int q = c.choose((int)pool.size() + 1); if (q == (int)pool.size()) break; bool rec = c.flip(); double v = al[c.choose((int)al.size())]; int sc = scr && pool[q].size() > 1 ? c.choose(pool[q].size() > 2 ? 3 : 2) : 0; if (c.verbose) c << (rec ? "add_recursive " : "add ") << ref::spx_str(pool[q]) << "@" << v << " "; insert<X>(c, F, m, pool[q], v, rec, sc); compare<X>(c, F, m, "filtration"); }
    for (auto& [s, v] : m) { h.range(s.begin(), s.end()); h((uint64_t)(int64_t)(v * 2)); } c.state(h.h); if (m.size() > 3) c.interesting(); auto at = al; at.push_back(-9); at.push_back(0.25); at.push_back(9); sublevels<X>(c, F, m, at);
    { bats::Filtration<double, X> G(F); compare<X>(c, G, m, "copy"); Vals w = F.vals(); for (auto& r : w) for (double& x : r) x = -x; G.update_filtration(w); Model m2 = m; for (auto& p : m2) p.second = -p.second; compare<X>(c, G, m2, "update_filtration"); compare<X>(c, F, m, "original of a copy"); bats::Filtration<double, X> H(F.complex(), F.vals()); compare<X>(c, H, m, "filtration from complex and values"); bats::Filtration<double, X> Z(F.complex()); Model z = m; for (auto& p : z) p.second = 0; compare<X>(c, Z, z, "filtration from complex"); }
    bool mono = m.size() > 0; for (auto& [s, v] : m) for (auto& f : faces_of<X>(s)) mono &= m.count(f) > 0; if (mono) dims<X>(c, F);
}
static const vector<Spx> tri = {{0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}}, gap = {{1}, {4}, {2}, {1, 4}, {1, 2}, {2, 4}, {1, 2, 4}}, tet = {{0, 1, 2}, {1, 2, 3}, {0, 3}, {0, 1, 3}, {0, 1, 2, 3}, {2, 3}, {3}};
static const vector<double> A2 = {1, -1.5}, A3 = {0, 2, -1};
PART("histories on a triangle") { history<SC>(c, tri, 3, 2, c.tier ? 5 : 4, A2, false); }
PART("histories on a triangle with three values and every vertex order") { history<SC>(c, tri, 3, 2, 3, A3, true); }
PART("histories on a triangle without declared dimension") { history<SC>(c, tri, 0, 0, 3, A2, false); }
PART("histories on a packed triangle") { history<LC>(c, tri, 3, 2, c.tier ? 5 : 4, A2, false); }
PART("histories with gaps in the vertex labels") { if (c.flip()) history<SC>(c, gap, 5, 2, 3, A2, true); else history<LC>(c, gap, 5, 2, c.tier ? 4 : 3, A2, false); }
PART("histories on a tetrahedron") { if (c.flip()) history<SC>(c, tet, 4, 3, c.tier ? 4 : 3, A2, false); else history<LC>(c, tet, 4, 3, c.tier ? 4 : 3, A2, false); }
PART("histories on squares") { static const vector<Spx> pool = {{0, 1, 0, 1}, {1, 2, 0, 1}, {1, 1, 0, 1}, {0, 0, 0, 0}, {1, 1, 1, 1}, {1, 2, 1, 1}}; history<QC>(c, pool, 0, 2, c.tier ? 4 : 3, A2, false); }
PART("directed simplices") { bats::Filtration<double, SC> F(SC(3, 2)); Model m; static const vector<Spx> pool = {{0}, {1}, {2}, {1, 0}, {0, 1}, {2, 0}, {1, 2}, {1, 2, 0}, {2, 0, 1}}; c.shard_here(); mc::Hash h; for (int t = 0; t < (c.tier ? 6 : 5); t++) { int q = c.choose((int)pool.size() + 1); if (q == (int)pool.size()) break; auto& s = pool[q]; h(q); double v = t - 2; bool ok = true; for (auto& f : ref::faces(s)) ok &= m.count(f) > 0; auto u = up(s); auto r = F.add_directed(v, u); if (ok || m.count(s)) { m[s] = v; c.check(r.ind == F.complex().find_idx(u), "add_directed returns the wrong cell"); } else c.check(r.ind == bats::NO_IND, "add_directed of a simplex without its faces does not report failure"); compare<SC>(c, F, m, "directed filtration"); } c.state(h.h); if (m.size() > 3) c.interesting(); }
// union of filtrations
template <class X> void unions(mc::Ctx& c, const vector<Spx>& pool, int n, int d, int steps) { bats::Filtration<double, X> F(Kind<X>::make(n, d)), G(Kind<X>::make(n, d)); Model a, b; map<Spx, double> fixed; int i = 0; for (auto& s : pool) { set<Spx> cl; closure<X>(s, cl); for (auto& f : cl) fixed.emplace(f, i * 0.5 - 1); i++; } auto build = [&](bats::Filtration<double, X>& F, Model& m) { for (int t = 0; t < steps; t++) { int q = c.choose((int)pool.size() + 1); if (q == (int)pool.size()) break; set<Spx> cl; closure<X>(pool[q], cl); vector<Spx> o(cl.begin(), cl.end()); stable_sort(o.begin(), o.end(), [](auto& x, auto& y) { return x.size() < y.size(); }); for (auto& f : o) insert<X>(c, F, m, f, fixed[f], false, 0); } }; build(F, a); c.shard_here(); build(G, b); c.state(mc::mix(a.size() * 100 + b.size(), c.taken.size())); F.union_add(G); Model u = a; for (auto& p : b) u[p.first] = p.second; compare<X>(c, F, u, "union_add"); compare<X>(c, G, b, "argument of union_add"); if (u.size() > a.size() && u.size() > b.size()) c.interesting(); sublevels<X>(c, F, u, {-1, 0, 1}); }
PART("unions of filtrations") { if (c.flip()) unions<SC>(c, tri, 3, 2, c.tier ? 3 : 2); else unions<SC>(c, tet, 4, 3, 2); }
// lower stars
static Vals values_of(const Vals& v) { return v; }
template <class X> void lower(mc::Ctx& c, const Cells& x, int nv, const vector<double>& f, const string& n) { auto C = build_complex<X>(x, nv, mdim(x)); auto [v, ind] = lower_star_filtration(C, f); c.op(); c.check(v.size() == C.maxdim() + 1 && ind.size() == v.size(), n + "lower star: dimensions"); Model m; for (size_t k = 0; k < v.size(); k++) { c.check(v[k].size() == C.ncells(k) && ind[k].size() == v[k].size(), n + "lower star: number of values"); for (size_t i = 0; i < v[k].size(); i++) { auto s = cell(C, k, i); double w = -1e9; for (int q : s) w = max(w, f[q]); c.checkf(v[k][i] == w, [&] { return n + "lower star: " + ref::spx_str(s) + " has value " + to_string(v[k][i]); }); c.check(count(s.begin(), s.end(), (int)ind[k][i]) && f[ind[k][i]] == w, n + "lower star: critical vertex"); m[s] = w; } } bats::Filtration<double, X> F(C, v); compare<X>(c, F, m, n + "lower star filtration"); sublevels<X>(c, F, m, f);
    // gradient of births and deaths with respect to the vertex values
    auto FC = bats::Chain(F, F2()); auto R = bats::Reduce(FC); vector<vector<int>> bd; for (size_t k = 0; k < v.size(); k++) { bd.push_back({}); for (auto& p : R.persistence_pairs(k)) { bd[k].push_back(p.birth_ind == bats::NO_IND ? -1 : (int)p.birth_ind); bd[k].push_back(p.death_ind == bats::NO_IND ? -1 : (int)p.death_ind); } } Vals g(v.size()); vector<double> want(f.size(), 0); double w = 1; for (size_t k = 0; k < bd.size(); k++) for (size_t i = 0; i < bd[k].size(); i++) { g[k].push_back(w); if (bd[k][i] >= 0) want[ind[k + i % 2][bd[k][i]]] += w; w *= 2; } if (ind[0].size() == f.size()) { auto df = lower_star_backwards(g, bd, ind); c.op(); c.check(df == want, n + "lower star gradient"); } }
PART("lower stars on complexes with three and four vertices") { int nv = c.range(2, 4); auto x = choose_complex(c, nv, nv == 4 ? (c.tier ? 3 : 2) : 2, true); c.shard_here(); vector<double> f(nv); for (double& v : f) v = c.pick(c.tier || nv < 4 ? vector<double>{-2, 0, 1.5} : vector<double>{-2, 1}); show(c, x); c.state(mc::mix(hcells(x), hvals({f}))); if (mdim(x) > 1) c.interesting(); lower<SC>(c, x, nv, f, ""); lower<LC>(c, x, nv, f, "packed "); }
static QC grid2(int a, int b) { QC X(2); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { vector<size_t> s = {(size_t)i, (size_t)i + 1, (size_t)j, (size_t)j + 1}; X.add_recursive(s); } return X; }
template <class V> void cubes(mc::Ctx& c, const QC& X, const V& f, function<double(const vector<int>&)> at, const vector<double>& lev) { auto v = lower_star_filtration(X, f); c.op(); Model m; c.check(v.size() == X.maxdim() + 1, "lower star of cubes: dimensions"); for (size_t k = 0; k < v.size(); k++) { c.check(v[k].size() == X.ncells(k), "lower star of cubes: number of values"); for (size_t i = 0; i < v[k].size(); i++) { auto s = cell(X, k, i); double w = -1e9; int D = s.size() / 2; for (int b = 0; b < 1 << D; b++) { vector<int> p; for (int q = 0; q < D; q++) p.push_back(s[2 * q + (b >> q & 1)]); w = max(w, at(p)); } c.checkf(v[k][i] == w, [&] { return "lower star of cubes: " + ref::spx_str(s) + " has value " + to_string(v[k][i]) + ", expected " + to_string(w); }); m[s] = w; } } bats::Filtration<double, QC> F(X, v); compare<QC>(c, F, m, "lower star of cubes"); sublevels<QC>(c, F, m, lev); }
PART("lower stars on square grids") { int a = c.range(1, 2), b = c.range(1, a == 1 || c.tier ? 2 : 1); vector<vector<double>> f(a + 1, vector<double>(b + 1)); vector<double> al = a * b > 2 ? vector<double>{-2, 1} : vector<double>{-2, 0, 1.5}; for (auto& r : f) for (double& v : r) v = c.pick(al); c.shard_here(); c.state(hvals(f)); c.interesting(); cubes(c, grid2(a, b), f, [&](const vector<int>& p) { return f[p[0]][p[1]]; }, al); }
PART("lower stars on cubes") { vector<vector<vector<double>>> f(2, vector<vector<double>>(2, vector<double>(2))); for (auto& p : f) for (auto& r : p) for (double& v : r) v = c.pick(c.tier ? vector<double>{-2, -1, 1} : vector<double>{-2, -1}); c.shard_here(); QC X(3); vector<size_t> s = {0, 1, 0, 1, 0, 1}; X.add_recursive(s); mc::Hash h; for (auto& p : f) h(hvals(p)); c.state(h.h); c.interesting(); cubes(c, X, f, [&](const vector<int>& p) { return f[p[0]][p[1]][p[2]]; }, {-2, -1}); }
// larger filtrations
template <class X> void larger(mc::Ctx& c, const bigc::C& z, const Vals& v, const vector<double>& at, const string& n) { auto b = ref::by_dim(z.x); bats::Filtration<double, X> F(Kind<X>::make(z.nv, mdim(z.x))); Model m; int i = 0; for (size_t k = 0; k < b.size(); k++) for (size_t j = 0; j < b[k].size(); j++) insert<X>(c, F, m, b[k][j], v[k][j], false, i++ % 3); compare<X>(c, F, m, n); sublevels<X>(c, F, m, at); bats::Filtration<double, X> G(F.complex(), F.vals()); compare<X>(c, G, m, n + " from complex and values"); auto w = F.vals(); Model m2 = m; for (auto& r : w) for (auto& q : r) q = 3 - 2 * q; for (auto& p : m2) p.second = 3 - 2 * p.second; G.update_filtration(w); compare<X>(c, G, m2, n + " update_filtration"); compare<X>(c, F, m, n + " original"); dims<X>(c, F);
    bats::Filtration<double, X> H(Kind<X>::make(z.nv, mdim(z.x))); Model mh; int q = 0; for (auto it = z.x.rbegin(); it != z.x.rend(); ++it) if (q++ % 3 == 0) insert<X>(c, H, mh, *it, q * 0.5 - 7, true, q % 2); compare<X>(c, H, mh, n + " add_recursive"); }
PART("larger filtrations") { int k = c.choose(bigc::N), how = c.choose(4), vk = c.choose(bigc::NV), light = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); z.x = reorder(z.x, (k + vk) % 3); auto v = bigc::values(z.x, vk); c.state(mc::mix(hcells(z.x), hvals(v) + light)); c.interesting(); c << "kind " << k << " part " << how << " values " << vk; vector<double> at{-1e301, 1e301, 0.25, 1e3}; set<double> s; for (auto& r : v) for (double w : r) s.insert(w); vector<double> t(s.begin(), s.end()); for (int i = 0; i < 4; i++) at.push_back(t[(t.size() - 1) * i / 3]); if (light) larger<LC>(c, z, v, at, "packed larger"); else larger<SC>(c, z, v, at, "larger"); }
PART("lower stars on larger complexes") { int k = c.choose(bigc::N), how = c.choose(4), fk = c.choose(5), light = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); z.x = reorder(z.x, fk % 3); vector<double> f; for (int i = 0; i < z.nv; i++) f.push_back(fk == 0 ? -i : fk == 1 ? (i * 5) % 7 - 3.5 : fk == 2 ? 1 + i * 1e-12 : fk == 3 ? (i % 2 ? 1e9 : -1e9) + i : i * i % 5); c.state(mc::mix(hcells(z.x), hvals({f}) + light)); c.interesting(); c << "kind " << k << " part " << how << " function " << fk; if (light) lower<LC>(c, z.x, z.nv, f, "packed "); else lower<SC>(c, z.x, z.nv, f, ""); }
PART("lower stars on larger grids") { int a = c.range(2, 5), b = c.range(2, 6), fk = c.choose(5); c.shard_here(); vector<vector<double>> f(a + 1, vector<double>(b + 1)); for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) f[i][j] = fk == 0 ? (i * 7 + j * 3) % 11 - 4 : fk == 1 ? -i * j : fk == 2 ? (i - 2.5) * (i - 2.5) + (j - 3) * (j - 3) : fk == 3 ? ((i ^ j) & 1) : i * 1e-9 - j * 1e-10; c.state(hvals(f)); c.interesting(); cubes(c, grid2(a, b), f, [&](const vector<int>& p) { return f[p[0]][p[1]]; }, {-2, 0.5, 3}); }
