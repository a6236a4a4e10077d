// C16: the barcode of a zigzag filtration is the interval decomposition of the homology of its sequence of subcomplexes.
#include "zzhist.hpp"
#include "big.hpp"
PART("every history from the empty complex on three vertices") { int L = c.tier ? 9 : 8; auto h = history(c, upto(3, 2), {}, L, 1); run_all<F2>(c, h); if (c.tier) run_all<F3>(c, h, 1); }
PART("every history from the hollow triangle and the full triangle") { bool full = c.flip(); auto all = upto(3, 2); Cells st = upto(3, full ? 2 : 1); auto h = history(c, all, st, c.tier ? 8 : 6, 1); run_all<F3>(c, h, 1); }
PART("several cells at the same time") { int b = 2 + c.choose(2); auto h = history(c, upto(3, 2), {}, b == 2 ? (c.tier ? 8 : 7) : (c.tier ? 9 : 7), b); run_all<F2>(c, h, 0); }
PART("several cells at the same time, from the hollow triangle") { int b = 2 + c.choose(2); auto h = history(c, upto(3, 2), upto(3, 1), (b == 2 ? 4 : 6) + c.tier, b); run_all<F3>(c, h, 2); }
PART("from the hollow tetrahedron") { auto all = upto(4, 3); auto h = history(c, all, upto(4, 2), c.tier ? 6 : 5, 1); run_all<F2>(c, h, c.choose(3)); }
PART("from the graph K4 with triangles") { auto all = upto(4, 2); auto h = history(c, all, upto(4, 1), c.tier ? 5 : 4, 1); run_all<F3>(c, h); }
// cubical complexes: the general code path, integer values
template <class F> void run_cub(mc::Ctx& c, const Hist& h, size_t ambient) {
    bats::zigzag::ZigzagFiltration<bats::CubicalComplex, int> Z(ambient); vector<tuple<double, int, int, double>> es; vector<vector<int>> idx(h.U.size()); for (size_t k = 0; k < h.U.size(); k++) { idx[k].assign(h.U[k].size(), -1); for (size_t i = 0; i < h.iv[k].size(); i++) for (auto& p : h.iv[k][i]) es.push_back({p.first, (int)k, (int)i, p.second}); } sort(es.begin(), es.end());
    for (auto& [a, k, i, b] : es) { auto s = up(h.U[k][i]); auto r = Z.add((int)a, (int)b, s); c.check((int)r.dim == k, "a cube is added in the wrong dimension"); if (idx[k][i] < 0) idx[k][i] = (int)r.ind; }
    run<F>(c, h, bd<F>(h), Z, idx, "cubical"); }
PART("cubes of a square: every history from the boundary of the square") { CUBES = true; auto all = cubes({1, 1}); auto h = history(c, all, below(all, 1), c.tier ? 8 : 6, 1); run_cub<F3>(c, h, 2); CUBES = false; }
PART("cubes of a square: several cells at the same time") { CUBES = true; auto all = cubes({1, 1}); auto h = history(c, all, below(all, c.choose(3)), c.tier ? 7 : 5, 3); run_cub<F2>(c, h, 2); CUBES = false; }
PART("cubes of the boundary of a 3-cube, with and without the cube") { CUBES = true; auto all = cubes({1, 1, 1}); auto h = history(c, all, below(all, 2 + c.choose(2)), 3 + c.tier, 1, 1); run_cub<F2>(c, h, 3); CUBES = false; }
// without removals: the ordinary persistence barcode
PART("cells that never leave: ordinary persistence") { auto x = upto(3, 2); if (c.tier && c.flip()) { x = upto(4, 2); x.resize(4 + 6 + 2); } auto v = x.size() > 7 ? choose_values(c, x, {0, 1}) : choose_values(c, x, {0, 1, 2, 3}); c.shard_here(); c.state(hvals(v) + x.size()); int how = c.choose(3); auto y = reorder(x, how); auto bx = ref::by_dim(x), by = ref::by_dim(y); Vals w(v.size()); for (size_t k = 0; k < by.size(); k++) for (auto& s : by[k]) w[k].push_back(v[k][find(bx[k].begin(), bx[k].end(), s) - bx[k].begin()]); show(c, w);
    bool finite = c.flip(); double end = finite ? 50 : std::numeric_limits<double>::infinity(); typedef F3 F; bats::zigzag::ZigzagFiltration<bats::SimplicialComplex> Z; for (size_t k = 0; k < by.size(); k++) for (size_t i = 0; i < by[k].size(); i++) { auto s = up(by[k][i]); Z.add(w[k][i], end, s); }
    auto d = ref::complex_of<RF<F>>(by); auto want = expected_pairs<RF<F>>(d, w, sort_orders(w)); int top = (int)by.size() - 1; if (top) c.interesting();
    for (int md = 0; md <= top; md++) for (int r = 0; r < 2; r++) { c.op(); auto bars = r ? bats::zigzag::barcode(Z, (ssize_t)md, F(), bats::no_optimization_flag(), bats::extra_reduction_flag()) : bats::zigzag::barcode(Z, (ssize_t)md, F(), bats::no_optimization_flag(), bats::standard_reduction_flag()); auto got = got_bars(c, bars, "no removals"); vector<Bar> e; for (int k = 0; k <= md; k++) for (auto& p : want[k]) { double dd = min(p.vd, end); if (p.vb < dd) e.push_back({k, p.vb, dd}); } sort(e.begin(), e.end()); c.checkf(got == e, [&] { return "no removals: bars " + str(got) + "persistence " + str(e); }); } }
// larger complexes: windows sliding over the vertices or edges, cells that enter and leave twice, growing and shrinking
static Hist windows(const Cells& x, int pat, int par) { Hist h = universe(x); map<ref::Spx, Ivs> iv; auto meet = [](const Ivs& a, const Ivs& b) { Ivs r; for (auto& p : a) for (auto& q : b) { double s = max(p.first, q.first), e = min(p.second, q.second); if (s < e) r.push_back({s, e}); } return r; }; int N = (int)x.size(), n = 0;
    for (auto& s : x) { Ivs v{{0, 1e6}}; if (s.size() > 1) { v = iv[ref::faces(s)[0]]; for (auto& f : ref::faces(s)) v = meet(v, iv[f]); } int k = (int)s.size() - 1, a = s[0], b = s.back();
        if (pat == 0 && k == 0) v = {{2.0 * a, 2.0 * a + 5 + par * 3}}; if (pat == 1 && k == 0) v = {{(double)a, a + 5.0 + par}, {a + 13.0, a + 17.0 + 2 * par}}; if (pat == 2) { if (k == 0) v = {{0, 40}}; if (k == 1) { double q = (a * 3 + b * 5 + par) % 12; v = {{1 + q, 8 + q}, {20 + q / 2, 30 - q / 4}}; } }
        if (pat == 3) v = {{(double)n, 3.0 * N - (par ? n : (n % 2 ? n : n / 2.0))}}; if (pat == 4) { v = {{(double)n, 2.0 * N - n}, {2.0 * N + 0.25 + n, 4.0 * N + 0.25 - n}}; if (par && n % 4 == 3) v.pop_back(); } if (pat == 5 && k == 2 && n % 2 == par) v = {}; if (pat == 5 && k <= 1) v = k ? Ivs{{1.0 + (a + b) % 5, 9.0 + (a * b) % 4}} : Ivs{{0, 20}}; if (pat == 6 && k == 0) v = {{(double)((a * 7) % 11), 8 + (double)((a * 5) % 9)}};
        if ((pat == 3 || pat == 4) && s.size() > 1) { Ivs w = iv[ref::faces(s)[0]]; for (auto& f : ref::faces(s)) w = meet(w, iv[f]); v = meet(v, w); }
        iv[s] = v; n++; }
    for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) h.iv[k][i] = iv[h.U[k][i]]; return h; }
PART("larger complexes: sliding windows, second entries, growing and shrinking") { int kind = c.choose(7), pat = c.choose(7), par = c.choose(2), fld = c.choose(2); c.shard_here(); Cells x; vector<ref::Spx> top; auto add = [&](vector<ref::Spx> t, int off) { for (auto s : t) { for (auto& v : s) v += off; top.push_back(s); } }; int nv = 0;
    if (kind == 0) { add(bigc::rp2(), 0); nv = 6; } else if (kind == 1) { for (auto& s : ref::all_simplices(5, 3)) if (s.size() == 4) top.push_back(s); nv = 5; } else if (kind == 2) { for (auto& s : ref::all_simplices(4, 2)) if (s.size() == 3) { top.push_back(s); for (auto& v : s) v += 3; top.push_back(s); } nv = 7; } else if (kind == 3) { for (int i = 0; i < 9; i++) top.push_back({i, (i + 1) % 9}); add({{0, 3, 6}, {1, 4}, {2, 7}}, 0); nv = 9; } else if (kind == 4) { add(bigc::surface(3, 3, false), 0); nv = 9; } else if (kind == 5) { for (int i = 0; i < 4; i++) { int j = (i + 1) % 4; top.push_back({i, j, 4}); top.push_back({i, j, 5}); } nv = 6; } else { for (int i = 0; i + 3 < 10; i++) top.push_back({i, i + 1, i + 3}); nv = 10; }
    if ((pat == 3 || pat == 4) && (kind == 4 || kind == 6 || (!c.tier && kind < pat - 1) || (pat == 4 && !c.tier && kind != 3))) c.prune(); auto h = windows(bigc::closure(top, nv), pat, par); while (!h.U.empty()) { bool any = false; for (auto& v : h.iv.back()) any |= !v.empty(); if (any) break; h.U.pop_back(); h.iv.pop_back(); } c.state(mc::mix(hh(h), fld)); c << "kind " << kind << " windows " << pat << " " << par; if (fld) run_all<F3>(c, h, par + 1); else run_all<F2>(c, h, par); }
// recursive insertion: the cells an insertion creates take its interval, cells already there keep theirs
template <class F, class Z> void recursive_history(mc::Ctx& c, Z& z, const Cells& all, int len, bool moved, const string& name) {
    Hist h = universe(all); map<Cell, pair<int, int>> id; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) id[h.U[k][i]] = {(int)k, (int)i}; set<Cell> present; vector<vector<int>> idx(h.U.size()); for (size_t k = 0; k < h.U.size(); k++) idx[k].assign(h.U[k].size(), -1); mc::Hash sh;
    for (int t = 0; t < len; t++) { Cells can; for (auto& s : all) if (!present.count(s)) can.push_back(s); int n = (int)can.size(), q = c.choose(n + (t > 0)); if (q == n) break; auto s = can[q]; if (t == 0) c.shard_here(); sh(id[s].first); sh(id[s].second); set<Cell> nw; function<void(const Cell&)> rec = [&](const Cell& x) { if (present.count(x)) return; present.insert(x); nw.insert(x); for (auto& f : sfaces(x)) rec(f.first); }; rec(s);
        double a = t + 1, b = END - t; auto u = up(s); typedef decltype(z.vals(0)[0][0].first) T0; typedef std::decay_t<T0> T; vector<cell_ind> r; c.op(); if constexpr (std::is_same_v<T, double>) { if (moved) r = z.add_recursive(a, b, up(s)); else r = z.add_recursive(a, b, u); } else r = z.add_recursive((T)a, (T)b, u);
        c.checkf(r.size() == nw.size(), [&] { return name + ": recursive insertion of " + ref::spx_str(s) + " reports " + to_string(r.size()) + " cells, " + to_string(nw.size()) + " are new"; }); set<pair<size_t, size_t>> seen; map<int, int> per; for (auto& x : r) { c.check(seen.insert({x.dim, x.ind}).second, "recursive insertion reports a cell twice"); per[(int)x.dim]++; } map<int, int> wantper; for (auto& x : nw) wantper[cdim(x)]++; c.check(per == wantper, "recursive insertion reports cells of the wrong dimensions");
        for (auto& x : nw) { auto [k, i] = id[x]; h.iv[k][i].push_back({a, b}); size_t j = z.complex().find_idx(up(x)); c.checkf(j != bats::NO_IND && seen.count({(size_t)k, j}), [&] { return name + ": the face " + ref::spx_str(x) + " of the inserted cell is missing or not reported"; }); idx[k][i] = (int)j; }
        for (auto& x : present) { auto [k, i] = id[x]; auto& v = z.vals(k)[idx[k][i]]; bool ok = v.size() == h.iv[k][i].size(); for (size_t e = 0; ok && e < v.size(); e++) ok = (double)v[e].first == h.iv[k][i][e].first && (double)v[e].second == h.iv[k][i][e].second; c.checkf(ok, [&] { return name + ": wrong intervals of " + ref::spx_str(x) + " after the insertion of " + ref::spx_str(s); }); } }
    while (!h.U.empty()) { bool any = false; for (auto& v : h.iv.back()) any |= !v.empty(); if (any) break; h.U.pop_back(); h.iv.pop_back(); } if (h.U.empty()) c.prune(); c.state(mc::mix(sh.h, name.size())); if (c.verbose) c << show(h); run<F>(c, h, bd<F>(h), z, idx, name); }
PART("recursive insertion: simplices") { int how = c.choose(4), nv = 3 + c.choose(2); auto all = upto(nv, nv - 1); int len = nv == 3 ? 3 + c.tier : 2 + c.tier; if (how < 2) { bats::zigzag::ZigzagFiltration<bats::SimplicialComplex> z; recursive_history<F3>(c, z, all, len, how == 1, how ? "recursive, temporary" : "recursive"); } else if (how == 2) { bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, int> z; recursive_history<F2>(c, z, all, len, false, "recursive, integer times"); } else { bats::zigzag::ZigzagFiltration<bats::SimplicialComplex> z(nv, nv - 1); recursive_history<F2>(c, z, all, len, false, "recursive, reserved"); } }
PART("recursive insertion: cubes") { CUBES = true; bool three = c.flip(); auto all = three ? cubes({1, 1, 1}) : cubes({2, 1}); bats::zigzag::ZigzagFiltration<bats::CubicalComplex> z(three ? 3 : 2); recursive_history<F3>(c, z, all, 2 + c.tier * !three, c.flip(), "recursive cubes"); CUBES = false; }
