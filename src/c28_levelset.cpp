// C28: level-set constructions: values extended to cells, level sets, and zigzags of level sets.
#include "zzhist.hpp"
#include "big.hpp"
#include <memory>
typedef bats::SimplicialComplex SC; typedef bats::CubicalComplex CC;
template <class T> using ZF = bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, T>; template <class T> using ZC = bats::zigzag::ZigzagFiltration<bats::CubicalComplex, T>;
template <class CX> Cell cell(const CX& X, size_t k, size_t i) { Cell s; for (auto v : X.get_cell(k, i)) s.push_back((int)v); return s; }
// interval of every cell as stored by the filtration; the cells found must be exactly the keys of want
template <class CX, class T> Hist judge_values(mc::Ctx& c, const bats::zigzag::ZigzagFiltration<CX, T>& Z, const map<Cell, Ivs>& want, const string& n) {
    Cells cells; map<Cell, Ivs> got; auto& X = Z.complex(); size_t top = 0;
    for (size_t k = 0; k <= X.maxdim(); k++) { size_t nc = X.ncells(k); if (nc) top = k; if (nc) c.checkf(k <= Z.maxdim() && Z.ncells(k) == nc, [&] { return n + ": cells without values in dimension " + to_string(k); });
        for (size_t i = 0; i < nc; i++) { auto s = cell(X, k, i); c.check(!got.count(s), n + ": a cell is stored twice"); Ivs v; for (auto& p : Z.vals(k)[i]) v.push_back({(double)p.first, (double)p.second}); got[s] = v; cells.push_back(s); } }
    c.checkf(got == want, [&] { ostringstream s; s << n << ": "; for (auto& [a, v] : want) if (!got.count(a)) s << "missing " << ref::spx_str(a) << " "; else if (got[a] != v) { s << ref::spx_str(a) << " has"; for (auto& p : got[a]) s << " [" << p.first << "," << p.second << "]"; s << " expected"; for (auto& p : v) s << " [" << p.first << "," << p.second << "]"; s << "; "; } for (auto& [a, v] : got) if (!want.count(a)) s << "unexpected " << ref::spx_str(a) << " "; return s.str(); });
    Hist h = universe(cells); for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) h.iv[k][i] = got[h.U[k][i]]; return h;
}
template <class CX> set<Cell> cellset(const CX& X) { set<Cell> s; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) s.insert(cell(X, k, i)); return s; }
static set<Cell> met(const Hist& h, double a, double b) { set<Cell> r; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) for (auto& p : h.iv[k][i]) if (p.first <= b && a <= p.second) r.insert(h.U[k][i]); return r; }
template <class CX, class T> void judge_levels(mc::Ctx& c, const bats::zigzag::ZigzagFiltration<CX, T>& Z, const Hist& h, const vector<double>& ts, const string& n) {
    for (size_t i = 0; i < ts.size(); i++) for (size_t j = i; j < ts.size(); j++) { c.op(); auto Y = Z.levelset((T)ts[i], (T)ts[j]); auto got = cellset(Y), want = met(h, ts[i], ts[j]); c.checkf(got == want, [&] { ostringstream s; s << n << ": the level set [" << ts[i] << "," << ts[j] << "] has " << got.size() << " cells, expected " << want.size() << "; "; for (auto& x : want) if (!got.count(x)) s << "missing " << ref::spx_str(x); for (auto& x : got) if (!want.count(x)) s << "unexpected " << ref::spx_str(x); s << " in " << show(h); return s.str(); }); }
}
// the zigzag of windows [s,s+eps] -> [s,s+2eps] <- [s+eps,s+2eps] -> ...
template <class F, class CX, class T> void judge_windows(mc::Ctx& c, const bats::zigzag::ZigzagFiltration<CX, T>& Z, const Hist& h, double eps, double t0, double t1, const string& n0) {
    string n = n0 + " windows of size " + to_string(eps); c.op(); t1 = t0 + eps * ceil((t1 - t0) / eps); auto D = bats::zigzag_levelsets(Z, (T)eps, (T)t0, (T)t1); vector<pair<double, double>> w; for (double s = t0; ; s += eps) { w.push_back({s, s + eps}); if (!(s + 2 * eps <= t1)) break; w.push_back({s, s + 2 * eps}); }
    c.checkf(D.nnode() == w.size() && D.nedge() + 1 == w.size(), [&] { return n + ": " + to_string(D.nnode()) + " nodes, expected " + to_string(w.size()); });
    vector<vector<vector<char>>> in; vector<char> grow; for (size_t i = 0; i < w.size(); i++) { auto want = met(h, w[i].first, w[i].second); c.checkf(cellset(D.node_data(i)) == want, [&] { return n + ": node " + to_string(i) + " is not the level set of its window"; }); vector<vector<char>> x; for (auto& r : h.U) { x.emplace_back(); for (auto& s : r) x.back().push_back(want.count(s)); } in.push_back(x); }
    for (size_t e = 0; e + 1 < w.size(); e++) { size_t s = e % 2 ? e + 1 : e, t = e % 2 ? e : e + 1; c.checkf(D.edge_source(e) == s && D.edge_target(e) == t, [&] { return n + ": edge " + to_string(e) + " points the wrong way"; }); grow.push_back(!(e % 2)); auto& f = D.edge_data(e); auto &X = D.node_data(s), &Y = D.node_data(t);
        for (size_t k = 0; k <= X.maxdim(); k++) { if (!X.ncells(k)) continue; c.check(f.maxdim() >= k && f[k].ncol() == X.ncells(k) && f[k].nrow() == Y.ncells(k), n + ": shape of an inclusion"); for (size_t j = 0; j < X.ncells(k); j++) { auto& col = f[k][j]; c.check(col.nnz() == 1 && col.nzbegin()->val == 1 && cell(Y, k, col.nzbegin()->ind) == cell(X, k, j), n + ": a map is not the inclusion"); } } }
    if (w.size() < 2) return; auto B = bd<F>(h); int top = (int)h.U.size() - 1; auto CD = bats::Chain(D, F());
    for (int k = 0; k <= top; k++) { c.op(); auto want = subcomplex_bars<F>(B, in, grow, k); map<pair<int, int>, int> got; auto H = bats::Hom(CD, (size_t)k); for (auto& p : bats::barcode(H, (size_t)k)) got[{(int)p.birth, (int)p.death}]++; c.checkf(got == want, [&] { ostringstream s; s << n << ": barcode in dimension " << k << " has"; for (auto& [b, m] : got) s << " [" << b.first << "," << b.second << "]x" << m; s << " expected"; for (auto& [b, m] : want) s << " [" << b.first << "," << b.second << "]x" << m; s << " for " << show(h); return s.str(); }); }
}
static vector<double> levels(const vector<double>& v, double e) { set<double> s; for (double x : v) { s.insert(x); s.insert(x - e); s.insert(x + e); } vector<double> t(s.begin(), s.end()), r; for (size_t i = 0; i < t.size(); i++) { r.push_back(t[i]); if (i + 1 < t.size()) r.push_back((t[i] + t[i + 1]) / 2); } if (t.size()) { r.insert(r.begin(), t[0] - 1); r.push_back(t.back() + 1); } return r; }
static vector<double> thin(const vector<double>& v, size_t m) { if (v.size() <= m) return v; vector<double> r; for (size_t i = 0; i < m; i++) r.push_back(v[i * (v.size() - 1) / (m - 1)]); return r; }
template <class T> vector<double> whole(const vector<double>& v) { set<double> s; for (double x : v) s.insert((double)(T)floor(x)); return vector<double>(s.begin(), s.end()); }
static const vector<vector<double>> alphabets = {{-3, -1, 2}, {0, 1, 4}, {-5, -4, -2}};
// ---------------------------------------------------------------- simplicial complexes
template <class T> void simplicial(mc::Ctx& c, const Cells& x, int nv, const vector<double>& f, double eps, int how, bool deep) {
    string n = string(sizeof(T) == 4 ? "float" : is_same<T, long>::value ? "integer" : "double") + " simplicial"; auto y = reorder(x, how); SC X(nv, mdim(x)); for (auto& s : y) X.add(up(s)); vector<T> f0(f.begin(), f.end()); map<Cell, Ivs> want; bool bad = false;
    for (auto& s : x) { double lo = f[s[0]], hi = lo; for (int v : s) { lo = min(lo, f[v]); hi = max(hi, f[v]); } bad |= hi - eps > lo + eps; want[s] = {{hi - eps, lo + eps}}; }
    c.op(); if (bad) { bool threw = false; streambuf* o = cout.rdbuf(nullptr); try { bats::zigzag::extend_zigzag_filtration(f0, X, (T)eps); } catch (const runtime_error&) { threw = true; } cout.rdbuf(o); c.check(threw, n + ": a simplex wider than the thickening is accepted"); return; }
    streambuf* o = cout.rdbuf(nullptr); unique_ptr<ZF<T>> Z; string err; try { Z.reset(new ZF<T>(bats::zigzag::extend_zigzag_filtration(f0, X, (T)eps))); } catch (const exception& e) { err = e.what(); } cout.rdbuf(o); c.checkf(!!Z, [&] { return n + ": rejected (" + err + ")"; });
    c.interesting(); auto h = judge_values(c, *Z, want, n); auto ts = levels(f, eps); if (is_same<T, long>::value) ts = whole<T>(ts); judge_levels(c, *Z, h, thin(ts, deep ? 30 : 9), n);
    if (is_same<T, double>::value) { auto idx = indices(h, Z->complex()); run<F2>(c, h, bd<F2>(h), *Z, idx, n); if (deep) run<F3>(c, h, bd<F3>(h), *Z, idx, n); double lo = *min_element(f.begin(), f.end()), hi = *max_element(f.begin(), f.end()); if (deep) judge_windows<F2>(c, *Z, h, 0.5, lo - 1, hi + 1, n); judge_windows<F3>(c, *Z, h, 1, lo - 1, hi + 1, n); judge_windows<F2>(c, *Z, h, 2, lo - 2, lo + 4, n); }
}
template <class Fn> void complexes(mc::Ctx& c, int nv, int md, Fn&& fn) { // every subcomplex containing every vertex
    auto all = ref::all_simplices(nv, md); Cells x; set<Cell> in; for (auto& s : all) { bool ok = true; if (s.size() > 1) for (auto& f : ref::faces(s)) ok &= in.count(f); if (ok && (s.size() == 1 || c.flip())) { x.push_back(s); in.insert(s); } } fn(x); }
PART("vertex functions on every complex with up to three vertices") { int nv = 1 + c.choose(3); complexes(c, nv, 2, [&](const Cells& x) { auto& al = c.pick(alphabets); vector<double> f; for (int v = 0; v < nv; v++) f.push_back(al[c.choose(3)]); double eps = c.pick(vector<double>{0, 0.5, 1.5, 2, 3.5, 5}); c.shard_here(); int how = c.choose(3); mc::Hash h; h(hcells(x)); for (double v : f) h((int)v + 50); h(int(eps * 2)); h(how); c.state(h.h); c.outcome(h.h); show(c, x); if (c.verbose) for (double v : f) c << v << " ";
    simplicial<double>(c, x, nv, f, eps, how, c.tier); simplicial<float>(c, x, nv, f, eps, how, false); if (eps == floor(eps)) simplicial<long>(c, x, nv, f, eps, how, false); }); }
PART("vertex functions on complexes with four vertices") { const vector<Cells> xs = {ref::all_simplices(4, 1), ref::all_simplices(4, 2), ref::all_simplices(4, 3)}; Cells x; if (c.tier) complexes(c, 4, 3, [&](const Cells& y) { x = y; }); else x = c.pick(xs); if (!c.tier && c.flip()) { Cells y; int skip = c.choose(3); for (auto& s : x) if (!(s.size() == 2 && ((skip == 0 && s == Cell{0, 2}) || (skip == 1 && (s == Cell{0, 2} || s == Cell{1, 3})) || (skip == 2 && s[1] == 3))) && s.size() < 3) y.push_back(s); x = y; }
    auto& al = c.tier ? alphabets[0] : c.pick(alphabets); vector<double> f; for (int v = 0; v < 4; v++) f.push_back(al[c.choose(3)]); if (c.tier) c.shard_here(); double eps = c.pick(c.tier ? vector<double>{1, 3} : vector<double>{0.5, 2, 3.5}); c.shard_here(); mc::Hash h; h(hcells(x)); for (double v : f) h((int)v + 50); h(int(eps * 2)); c.state(h.h); c.outcome(h.h); show(c, x); if (c.verbose) for (double v : f) c << v << " "; simplicial<double>(c, x, 4, f, eps, 0, false); }
// ---------------------------------------------------------------- cubical complexes on a cube of n^3 vertices
template <class T> void cubical(mc::Ctx& c, const Cells& x, int n, const vector<double>& f, double eps, bool deep) {
    string nm = "cubical"; CUBES = true; CC X(3); for (auto& s : x) X.add(up(s)); vector<T> f0(f.begin(), f.end()); map<Cell, Ivs> want, every; bool bad = false;
    for (auto& s : x) { double lo = 1e9, hi = -1e9; for (int i : {0, 1}) for (int j : {2, 3}) for (int k : {4, 5}) { double v = f[s[k] + (s[j] + s[i] * n) * n]; lo = min(lo, v); hi = max(hi, v); } if (hi - eps <= lo + eps) want[s] = {{hi - eps, lo + eps}}; else bad = true; every[s] = {{hi - eps, lo + eps}}; }
    c.op(); auto Z = bats::zigzag::extend_zigzag_filtration(f0, X, (T)eps, (size_t)n); auto h = judge_values(c, Z, want, nm); if (want.size() > 1 && want.size() < every.size()) c.interesting();
    bool threw = false; try { auto v = bats::zigzag::extend_levelset(f0, X, (T)eps, (size_t)n); c.check(v.size() == X.maxdim() + 1, nm + ": number of dimensions"); for (size_t k = 0; k < v.size(); k++) { c.check(v[k].size() == X.ncells(k), nm + ": number of values"); for (size_t i = 0; i < v[k].size(); i++) { auto& e = every[cell(X, k, i)]; c.check(v[k][i].size() == 1 && (double)v[k][i][0].first == e[0].first && (double)v[k][i][0].second == e[0].second, nm + ": extend_levelset has a wrong interval"); } } } catch (const runtime_error&) { threw = true; } c.check(threw == bad, nm + ": extend_levelset accepts or rejects wrongly");
    auto ts = levels(f, eps); if (is_same<T, long>::value) ts = whole<T>(ts); judge_levels(c, Z, h, thin(ts, deep ? 12 : 5), nm);
    if (is_same<T, double>::value && !want.empty()) { run<F2>(c, h, bd<F2>(h), Z, {}, nm, false); double lo = *min_element(f.begin(), f.end()), hi = *max_element(f.begin(), f.end()); if (deep) judge_windows<F3>(c, Z, h, 1, lo - 1, hi + 1, nm); judge_windows<F2>(c, Z, h, 2, lo - 1, hi + 1, nm); } CUBES = false;
}
static uint64_t fh(const vector<double>& f, double eps, size_t m) { mc::Hash h; for (double v : f) h((int)v + 50); h(int(eps * 2)); h(m); return h.h; }
static Cells gen(mc::Ctx& c, int n) { CUBES = true; auto X = CC::generate_cube(n); auto want = cubes({n - 1, n - 1, n - 1}); c.check(cellset(X) == set<Cell>(want.begin(), want.end()), "generate_cube: wrong set of cubes"); return want; }
PART("functions on the vertices of a cube") { auto x = gen(c, 2); int how = c.choose(3); if (how) x = below(x, how); auto& al = c.pick(alphabets); vector<double> f; for (int i = 0; i < 8; i++) { f.push_back(c.tier ? al[c.choose(3)] : al[c.choose(2) * 2]); if (i == 3) c.shard_here(); } double eps = c.pick(vector<double>{0.5, 1.5, 3.5}); c.state(fh(f, eps, x.size())); c.outcome(fh(f, eps, x.size())); if (c.verbose) for (double v : f) c << v << " "; cubical<double>(c, x, 2, f, eps, false); if (eps == 1.5) cubical<long>(c, x, 2, f, 2, false); }
PART("functions on 27 vertices: up to two values changed") { auto x = gen(c, 3); vector<double> f; int bg = c.choose(3); const auto& al = alphabets[0]; for (int i = 0; i < 27; i++) f.push_back(bg == 2 ? al[(i * 7 / 3) % 3] : al[bg ? 2 : 0]); int i = c.choose(27); f[i] = al[c.choose(3)]; c.shard_here(); if (c.tier) { int j = c.choose(27); f[j] = al[c.choose(3)]; } double eps = c.pick(vector<double>{0.5, 2}); c.state(fh(f, eps, i)); c.outcome(fh(f, eps, 0)); cubical<double>(c, x, 3, f, eps, false); }
// ---------------------------------------------------------------- images: maximal cubes carry the values
template <class T> void image(mc::Ctx& c, const vector<int>& d, const vector<double>& f, bool deep) {
    CUBES = true; string nm = string("image ") + (is_same<T, long>::value ? "integer" : is_same<T, float>::value ? "float" : "double"); vector<vector<vector<T>>> img(d[0], vector<vector<T>>(d[1], vector<T>(d[2]))); auto at = [&](int i, int j, int k) { return f[k + d[2] * (j + d[1] * i)]; }; for (int i = 0; i < d[0]; i++) for (int j = 0; j < d[1]; j++) for (int k = 0; k < d[2]; k++) img[i][j][k] = (T)at(i, j, k);
    map<Cell, Ivs> want; for (auto& s : cubes(d)) { double lo = 1e9, hi = -1e9; for (int i = 0; i < d[0]; i++) for (int j = 0; j < d[1]; j++) for (int k = 0; k < d[2]; k++) if (i <= s[0] && s[1] <= i + 1 && j <= s[2] && s[3] <= j + 1 && k <= s[4] && s[5] <= k + 1) { lo = min(lo, at(i, j, k)); hi = max(hi, at(i, j, k)); } want[s] = {{lo, hi}}; }
    c.op(); auto Z = bats::zigzag_toplex(img); auto h = judge_values(c, Z, want, nm); auto ts = levels(f, 0); if (is_same<T, long>::value) ts = whole<T>(ts); judge_levels(c, Z, h, thin(ts, deep ? 12 : 5), nm);
    if (is_same<T, double>::value) { run<F2>(c, h, bd<F2>(h), Z, {}, nm, false); double lo = *min_element(f.begin(), f.end()), hi = *max_element(f.begin(), f.end()); judge_windows<F2>(c, Z, h, 1, lo - 1, hi + 1, nm); if (deep) judge_windows<F3>(c, Z, h, 0.5, lo - 1, hi + 1, nm); judge_windows<F3>(c, Z, h, 2, lo, hi + 1, nm); } CUBES = false;
}
PART("every small image") { static const vector<vector<int>> ds = {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {3, 1, 1}, {1, 3, 1}, {1, 1, 3}, {2, 2, 1}, {2, 1, 2}, {1, 2, 2}}; auto& d = c.pick(ds); auto& al = c.pick(alphabets); int n = d[0] * d[1] * d[2]; vector<double> f; for (int i = 0; i < n; i++) { f.push_back(al[c.choose(3)]); if (i == 0) c.shard_here(); } mc::Hash h; for (int v : d) h(v); h(fh(f, 0, 0)); c.state(h.h); c.outcome(h.h); if (n > 1) c.interesting(); if (c.verbose) { for (int v : d) c << v << " "; for (double v : f) c << v << " "; } image<double>(c, d, f, c.tier); image<long>(c, d, f, false); if (n <= 3) image<float>(c, d, f, false); }
PART("images with eight or more pixels") { static const vector<vector<int>> ds = {{2, 2, 2}, {3, 3, 1}, {3, 1, 3}, {1, 3, 3}, {2, 3, 2}, {3, 2, 2}, {2, 2, 3}}; auto& d = c.pick(ds); int n = d[0] * d[1] * d[2]; auto& al = c.tier ? c.pick(alphabets) : alphabets[0]; vector<double> f; if (c.tier && n <= 9) for (int i = 0; i < n; i++) { f.push_back(al[c.choose(2) * 2]); if (i == 2) c.shard_here(); } else { int bg = c.choose(3); for (int i = 0; i < n; i++) f.push_back(bg == 2 ? al[(i * 5 / 2) % 3] : al[bg * 2]); int i = c.choose(n); c.shard_here(); f[i] = al[c.choose(3)]; int j = c.choose(n); if (j < i) c.prune(); if (!c.tier && (i + j) % 8) c.prune(); f[j] = al[1 + c.choose(2)]; } mc::Hash h; for (int v : d) h(v); h(fh(f, 0, 0)); c.state(h.h); c.outcome(h.h); c.interesting(); image<double>(c, d, f, false); }
PART("the hollow cube: an image with a hole") { vector<int> d = {3, 3, 3}; vector<double> f(27, 0); f[13] = c.pick(c.tier ? vector<double>{-2, 1, 3} : vector<double>{-2, 3}); int i = c.choose(27); f[i] = c.pick(c.tier ? vector<double>{-2, 0, 2} : vector<double>{0, 2}); c.shard_here(); c.state(fh(f, 0, i)); c.outcome(fh(f, 0, 0)); c.interesting(); image<double>(c, d, f, false); }
// ---------------------------------------------------------------- filtrations whose cells enter several times
PART("level sets of filtrations with several intervals per cell") { auto h = history(c, upto(3, 2), upto(3, c.choose(3)), c.tier ? 6 : 4, 1 + c.choose(2), 1); auto Z = build<double>(h); c.outcome(hh(h)); c.interesting(); vector<double> v; for (auto& r : h.iv) for (auto& w : r) for (auto& p : w) { v.push_back(p.first); v.push_back(p.second); } auto ts = levels(v, 0); // the window [a,b] of a zigzag is a complex: every cell meets it when a coface does
    judge_levels(c, Z, h, ts, "several intervals"); judge_windows<F2>(c, Z, h, 1, 0, 6, "several intervals"); judge_windows<F3>(c, Z, h, 0.5, 0, 4, "several intervals"); }
PART("cells whose faces are missing are refused") { auto all = upto(3, 2); vector<char> in(all.size()); set<Cell> have; ZF<double> Z; c.shard_here(); map<Cell, Ivs> want; int steps = c.tier ? 5 : 4; for (int t = 0; t < steps; t++) { int i = c.choose((int)all.size()); auto s = all[i]; bool ok = true; if (s.size() > 1) for (auto& f : ref::faces(s)) ok &= have.count(f); double a = t, b = t + 0.5; auto u = up(s); c.op(); auto r = c.choose(2) ? Z.add(a, b, std::move(u)) : Z.add(a, b, u); if (ok) { have.insert(s); want[s].push_back({a, b}); c.check(r.ind != bats::NO_IND && r.dim + 1 == s.size(), "a cell with all faces present is refused"); } else c.check(r.ind == bats::NO_IND, "a cell with missing faces is accepted"); }
    mc::Hash h; for (auto& [s, v] : want) { h.range(s.begin(), s.end()); for (auto& p : v) h((int)p.first); } c.state(h.h); c.outcome(h.h); c.interesting(); judge_values(c, Z, want, "adding in any order"); }
// ---------------------------------------------------------------- larger complexes and images
PART("larger simplicial complexes") { int k = c.choose(bigc::N), how = 1 + c.choose(3), fk = c.choose(4); double eps = c.pick(vector<double>{0.5, 2, 3.5}); c.shard_here(); auto z = bigc::make(k, how); vector<double> f; for (int i = 0; i < z.nv; i++) f.push_back(fk == 0 ? i % 3 : fk == 1 ? (i * 3) % 5 - 2 : fk == 2 ? i / 4 : abs(i - z.nv / 2) / 2); mc::Hash h; h(hcells(z.x)); h(fh(f, eps, how)); c.state(h.h); c.outcome(h.h); c << "kind " << k << " part " << how << " function " << fk; simplicial<double>(c, z.x, z.nv, f, eps, (k + fk) % 3, false); simplicial<float>(c, z.x, z.nv, f, eps, 0, false); }
PART("larger images") { static const vector<vector<int>> ds = {{4, 3, 3}, {5, 5, 1}, {1, 6, 4}, {4, 1, 5}, {9, 1, 1}, {1, 12, 1}, {3, 4, 2}}; auto& d = c.pick(ds); int fk = c.choose(6); c.shard_here(); vector<double> f; for (int i = 0; i < d[0]; i++) for (int j = 0; j < d[1]; j++) for (int k = 0; k < d[2]; k++) f.push_back(fk == 0 ? (i * 5 + j * 3 + k) % 4 : fk == 1 ? (i + j + k) % 2 * 3 : fk == 2 ? i * j - k : fk == 3 ? abs(i - 2) + abs(j - 2) + abs(k - 1) : fk == 4 ? -((i * i + j * 2 + k * 3) % 5) : (i == 1 && j == 1) ? 4 : 0); mc::Hash h; for (int v : d) h(v); h(fh(f, 0, 0)); c.state(h.h); c.outcome(h.h); c.interesting(); image<double>(c, d, f, false); image<long>(c, d, f, false); }
PART("functions on 27 and 64 vertices") { int n = c.range(3, 4), fk = c.choose(5), lowdim = c.choose(2); double eps = c.pick(vector<double>{0.5, 1.5, 3}); auto x = gen(c, n); c.shard_here(); if (lowdim) x = below(x, 2); vector<double> f; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) f.push_back(fk == 0 ? (i * 5 + j * 3 + k) % 4 : fk == 1 ? i + 2 * j - k : fk == 2 ? (i == 1 && j == 1) * 3 : fk == 3 ? abs(i - 1) + abs(j - 1) + abs(k - 1) : (i * j + k) % 3); c.state(fh(f, eps, x.size() + n)); c.outcome(fh(f, eps, x.size())); c << "n=" << n << " function " << fk; cubical<double>(c, x, n, f, eps, false); }
PART("level sets of complexes with gaps in their vertex labels") { typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LX; static const vector<vector<int>> G = {{0, 2, 3}, {1, 4, 9}, {0, 1, 6}, {5, 6, 7}}; int nv = 2 + c.choose(2); complexes(c, nv, 2, [&](const Cells& x0) { auto g = c.pick(G); int pat = c.choose(6), how = c.choose(2); c.shard_here(); auto x = reorder(x0, how); map<Cell, Ivs> want; int top = 0; for (auto& s : x) { double b = 0, d = 9; for (int v : s) { b = max(b, double((v * (pat + 1) + pat) % 4)); d = min(d, double(4 + (v * pat + 1) % 5)); } for (auto& v : s) { v = g[v]; top = max(top, v + 1); } want[s] = {{b, d}}; if (pat % 2) want[s].push_back({9.5 + b / 8, 12 - b / 8}); }
    c.state(mc::mix(hcells(x), pat)); c.interesting(); auto judge = [&](auto X, const string& n) { typedef decltype(X) CX; for (auto& s : x) X.add(up(s)); vector<vector<vector<pair<double, double>>>> val(X.maxdim() + 1); for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { Cell s; for (auto v : X.get_cell(k, i)) s.push_back((int)v); val[k].push_back(want[s]); } bats::zigzag::ZigzagFiltration<CX, double> Z(X, val); auto h = judge_values(c, Z, want, n); vector<double> ts; for (double t = -0.5; t < 13; t += 0.5) ts.push_back(t); judge_levels(c, Z, h, ts, n); };
    judge(SC(), "simplicial with gaps"); judge(LX(top, mdim(x)), "packed with gaps"); }); }
