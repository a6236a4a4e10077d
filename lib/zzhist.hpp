// histories of cells entering and leaving, their expected bars, and the comparison with the library
#pragma once
#include "filt.hpp"
#include "zz.hpp"
using namespace std;
typedef vector<pair<double, double>> Ivs;
struct Node { vector<vector<char>> in; double from, to; bool grow; int ev; }; // ev: event that made the node (-1: several)
typedef ref::Spx Cell; // a simplex, or a cube as the list of its interval ends
static bool CUBES = false; // set by the parts on cubical complexes
static vector<pair<Cell, int>> sfaces(const Cell& s) { vector<pair<Cell, int>> r; if (!CUBES) { int g = 1; for (auto& f : ref::faces(s)) { r.push_back({f, g}); g = -g; } return r; }
    int g = 1; for (size_t i = 0; i + 1 < s.size(); i += 2) if (s[i] != s[i + 1]) { Cell a = s, b = s; a[i + 1] = s[i]; b[i] = s[i + 1]; r.push_back({a, -g}); r.push_back({b, g}); g = -g; } return r; }
static int cdim(const Cell& s) { if (!CUBES) return (int)s.size() - 1; int d = 0; for (size_t i = 0; i + 1 < s.size(); i += 2) d += s[i] != s[i + 1]; return d; }
static vector<vector<Cell>> bydim(const Cells& x) { vector<vector<Cell>> r; for (auto& s : x) { while ((int)r.size() <= cdim(s)) r.emplace_back(); r[cdim(s)].push_back(s); } return r; }
struct Hist { Cells cells; vector<vector<ref::Spx>> U; vector<vector<Ivs>> iv; // universe, by dimension, intervals
    vector<pair<int, int>> first; }; // order of first entry
struct Bar { int k; double b, d; bool operator<(const Bar& o) const { return tie(k, b, d) < tie(o.k, o.b, o.d); } bool operator==(const Bar& o) const { return tie(k, b, d) == tie(o.k, o.b, o.d); } };
static string str(const vector<Bar>& v) { ostringstream s; for (auto& b : v) s << b.k << ":[" << b.b << "," << b.d << ") "; return s.str(); }
static string show(const Hist& h) { ostringstream s; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) if (h.iv[k][i].size()) { s << ref::spx_str(h.U[k][i]); for (auto& p : h.iv[k][i]) s << "[" << p.first << "," << p.second << "]"; s << " "; } return s.str(); }
static uint64_t hh(const Hist& h) { mc::Hash x; for (auto& r : h.iv) for (auto& v : r) { x(v.size()); for (auto& p : v) { x((uint64_t)(int64_t)p.first); x((uint64_t)(int64_t)p.second); } } return x.h; }
// the sequence of spaces: at every event time, and between consecutive event times
static void sequence(const Hist& h, vector<vector<vector<char>>>& in, vector<char>& grow, vector<double>& birth, vector<double>& death) {
    set<double> ts; for (auto& r : h.iv) for (auto& v : r) for (auto& p : v) { ts.insert(p.first); ts.insert(p.second); } vector<double> t(ts.begin(), ts.end());
    auto at = [&](auto&& f) { vector<vector<char>> x(h.U.size()); for (size_t k = 0; k < h.U.size(); k++) for (auto& v : h.iv[k]) { char q = 0; for (auto& p : v) q |= f(p); x[k].push_back(q); } return x; };
    for (size_t i = 0; i < t.size(); i++) { double a = t[i]; in.push_back(at([&](auto& p) { return p.first <= a && a <= p.second; })); birth.push_back(a); death.push_back(a); if (i + 1 < t.size()) { double b = t[i + 1]; in.push_back(at([&](auto& p) { return p.first <= a && b <= p.second; })); birth.push_back(a); death.push_back(b); grow.push_back(0); grow.push_back(1); } }
}
template <class F> vector<Bar> expected(const Hist& h, const vector<RM<F>>& D, int maxk) {
    vector<vector<vector<char>>> in; vector<char> grow; vector<double> b, d; sequence(h, in, grow, b, d); vector<Bar> out;
    for (int k = 0; k <= maxk && k < (int)D.size(); k++) for (auto& [x, m] : subcomplex_bars<F>(D, in, grow, k)) { double s = b[x.first], e = d[x.second]; if (s < e) for (int i = 0; i < m; i++) out.push_back({k, s, e}); }
    sort(out.begin(), out.end()); return out;
}
template <class Z> vector<Bar> got_bars(mc::Ctx& c, const vector<vector<Z>>& bars, const string& what) {
    vector<Bar> v; for (size_t k = 0; k < bars.size(); k++) for (auto& p : bars[k]) { c.checkf(p.dim == k, [&] { return what + ": bar carries the wrong dimension"; }); c.checkf(p.birth <= p.death, [&] { return what + ": bar ends before it starts"; }); if (p.birth < p.death) v.push_back({(int)p.dim, (double)p.birth, (double)p.death}); } sort(v.begin(), v.end()); return v;
}
template <class Z> void check_events(mc::Ctx& c, const Hist& h, const vector<vector<int>>& idx, const vector<vector<Z>>& bars, const string& what) { // which cell made each end (times are distinct)
    struct E { int k, i; bool entry, firstcopy; }; map<double, vector<E>> ev; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.iv[k].size(); i++) for (size_t q = 0; q < h.iv[k][i].size(); q++) { ev[h.iv[k][i][q].first].push_back({(int)k, idx[k][i], true, !q}); ev[h.iv[k][i][q].second].push_back({(int)k, idx[k][i], false, !q}); }
    for (auto& r : bars) for (auto& p : r) if (p.birth < p.death) { for (int e = 0; e < 2; e++) { auto& x = ev[e ? p.death : p.birth]; if (x.size() != 1) continue; bool entry = e ? p.death_is_entry : p.birth_is_entry; size_t ind = e ? p.death_ind : p.birth_ind; c.checkf(entry == x[0].entry, [&] { return what + ": the end of a bar is marked entry/removal wrongly"; }); if (x[0].firstcopy) c.checkf((int)ind == x[0].i, [&] { return what + ": the end of a bar names the wrong cell"; }); } }
}
template <class F, class CpxT, class T> void run(mc::Ctx& c, const Hist& h, const vector<RM<F>>& D, const bats::zigzag::ZigzagFiltration<CpxT, T>& Z, const vector<vector<int>>& idx, const string& n0, bool events = true) {
    using namespace bats; int top = (int)Z.maxdim(); string n = n0 + " " + FT<F>::name(); auto all = expected<F>(h, D, top);
    if (all.size() > 1) c.interesting(); mc::Hash o; for (auto& b : all) { o(b.k); o((int)b.b); o((int)b.d); } c.outcome(o.h);
    auto one = [&](int md, auto red, const string& what) { c.op(); auto bars = bats::zigzag::barcode(Z, (ssize_t)md, F(), no_optimization_flag(), red); int lim = md < 0 ? (int)bars.size() - 1 : md; c.checkf((int)bars.size() == lim + 1 && lim >= top - 1 - (md >= 0 ? top : 0), [&] { return what + ": wrong number of dimensions"; });
        vector<Bar> want; for (auto& b : all) if (b.k <= lim) want.push_back(b); auto got = got_bars(c, bars, what); c.checkf(got == want, [&] { return what + ", maximum dimension " + to_string(md) + ": bars " + str(got) + "expected " + str(want) + "for " + show(h); }); if (events) check_events(c, h, idx, bars, what); };
    for (int md = -1; md <= top; md++) { one(md, standard_reduction_flag(), n + " standard"); one(md, extra_reduction_flag(), n + " extra"); }
}
static vector<vector<int>> indices(const Hist& h, const bats::SimplicialComplex& X) { vector<vector<int>> idx(h.U.size()); for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) { idx[k].push_back(h.iv[k][i].size() ? (int)X.find_idx(up(h.U[k][i])) : -1); } return idx; }
// entries in order of time (dimension at ties), through add()
template <class T> bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, T> build(const Hist& h) {
    bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, T> Z; vector<tuple<double, int, int, double>> es; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.iv[k].size(); i++) for (auto& p : h.iv[k][i]) es.push_back({p.first, (int)k, (int)i, p.second}); sort(es.begin(), es.end());
    for (auto& [a, k, i, b] : es) { auto s = up(h.U[k][i]); Z.add((T)a, (T)b, s); } return Z; }
// complex first, cells of every dimension in another order, values by constructor
static bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, double> build_explicit(const Hist& h, int how, vector<vector<int>>& idx) {
    Cells x; map<ref::Spx, Ivs> iv; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) if (h.iv[k][i].size()) { x.push_back(h.U[k][i]); iv[h.U[k][i]] = h.iv[k][i]; } x = reorder(x, how); bats::SimplicialComplex X; vector<vector<Ivs>> val; for (auto& s : x) { X.add(up(s)); while (val.size() < s.size()) val.emplace_back(); val[s.size() - 1].push_back(iv[s]); }
    idx = indices(h, X); return bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, double>(X, val); }
static Hist universe(const Cells& cells) { Hist h; h.cells = cells; h.U = bydim(cells); h.iv.resize(h.U.size()); for (size_t k = 0; k < h.U.size(); k++) h.iv[k].resize(h.U[k].size()); return h; }
template <class F> vector<RM<F>> bd(const Hist& h) { vector<RM<F>> D; for (size_t k = 0; k < h.U.size(); k++) { RM<F> M(k ? (int)h.U[k - 1].size() : 0, (int)h.U[k].size()); map<Cell, int> id; if (k) for (size_t i = 0; i < h.U[k - 1].size(); i++) id[h.U[k - 1][i]] = i; if (k) for (size_t j = 0; j < h.U[k].size(); j++) for (auto& [f, g] : sfaces(h.U[k][j])) M(id[f], j) = RF<F>(g); D.push_back(M); } return D; }
// a history of events with the given times; start: cells present from time 0; cells left at the end leave together
static const double END = 100;
struct Live { int k, i; double since; };
static Hist history(mc::Ctx& c, const Cells& cells, const Cells& start, int len, int block, int shard = 2) {
    Hist h = universe(cells); map<ref::Spx, pair<int, int>> id; for (size_t k = 0; k < h.U.size(); k++) for (size_t i = 0; i < h.U[k].size(); i++) id[h.U[k][i]] = {(int)k, (int)i};
    map<ref::Spx, double> live; map<ref::Spx, double> gone; for (auto& s : start) live[s] = 0; double t = 0; bool removing = false;
    for (int e = 0; e < len; e++) { if (e % block == 0) { t += 1; removing = false; }
        vector<ref::Spx> add, rem; if (!removing) for (auto& s : cells) if (!live.count(s) && !(gone.count(s) && gone[s] == t)) { bool ok = true; for (auto& f : sfaces(s)) ok &= live.count(f.first); if (ok) add.push_back(s); }
        for (auto& [s, since] : live) { bool ok = true; for (auto& [u, z] : live) if (cdim(u) == cdim(s) + 1) for (auto& f : sfaces(u)) ok &= f.first != s; if (ok) rem.push_back(s); }
        int n = add.size() + rem.size(); if (!n) { if (block > 1 && removing) { e = (e / block + 1) * block - 1; continue; } c.prune(); } int q = c.choose(n + (block > 1 && e % block ? 1 : 0)); if (q == n) { e = (e / block + 1) * block - 1; continue; } // end the block early
        if (q < (int)add.size()) live[add[q]] = t; else { auto s = rem[q - add.size()]; auto [k, i] = id[s]; h.iv[k][i].push_back({live[s], t}); live.erase(s); gone[s] = t; removing = true; } if (e == shard) c.shard_here(); }
    for (auto& [s, since] : live) { auto [k, i] = id[s]; h.iv[k][i].push_back({since, END}); }
    while (!h.U.empty()) { bool any = false; for (auto& v : h.iv.back()) any |= !v.empty(); if (any) break; h.U.pop_back(); h.iv.pop_back(); } if (h.U.empty()) c.prune();
    c.state(hh(h)); if (c.verbose) c << show(h); return h;
}
template <class F> void run_all(mc::Ctx& c, const Hist& h, int variant = -1) {
    auto D = bd<F>(h); auto want = build<double>(h);
    // cells that never enter are not part of the complex: drop them from the oracle's index only
    auto idx = indices(h, want.complex()); run<F>(c, h, D, want, idx, "added in time order");
    if (variant >= 0) { vector<vector<int>> id2; auto Z = build_explicit(h, variant, id2); run<F>(c, h, D, Z, id2, "explicit values, cell order " + to_string(variant)); }
}
static Cells upto(int nv, int md) { return ref::all_simplices(nv, md); }
static Cells cubes(const vector<int>& n) { Cells out; function<void(size_t, Cell)> rec = [&](size_t i, Cell s) { if (i == n.size()) { out.push_back(s); return; } for (int a = 0; a <= n[i]; a++) { Cell t = s; t.push_back(a); t.push_back(a); rec(i + 1, t); if (a < n[i]) { t.back() = a + 1; rec(i + 1, t); } } }; rec(0, {}); stable_sort(out.begin(), out.end(), [](const Cell& a, const Cell& b) { return cdim(a) < cdim(b); }); return out; }
static Cells below(const Cells& x, int d) { Cells y; for (auto& s : x) if (cdim(s) <= d) y.push_back(s); return y; }
