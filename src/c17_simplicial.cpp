// C17: simplicial complexes behave as downward-closed sets of simplices with stable indices.
#include "filt.hpp"
#include "big.hpp"
#include <unordered_map>
using namespace std;
typedef bats::SimplicialComplex SC;
typedef bats::LightSimplicialComplex<size_t, unordered_map<size_t, size_t>> LC;
typedef ref::Spx Spx;
// the reference: cells in the order of their indices, per dimension
struct Model { vector<vector<Spx>> cells; map<Spx, int> idx; int top = -1;
    bool has(const Spx& s) const { return idx.count(s); }
    bool facesin(const Spx& s) const { for (auto& f : ref::faces(s)) if (!has(f)) return false; return true; }
    int put(const Spx& s) { size_t d = s.size() - 1; while (cells.size() <= d) cells.emplace_back(); idx[s] = (int)cells[d].size(); cells[d].push_back(s); top = max(top, (int)d); return idx[s]; }
    size_t n(size_t k) const { return k < cells.size() ? cells[k].size() : 0; } size_t n() const { return idx.size(); }
    uint64_t hash() const { mc::Hash h; for (auto& r : cells) { h(r.size()); for (auto& s : r) h.range(s.begin(), s.end()); } return h.h; } };
static Spx dn(const vector<size_t>& s) { return Spx(s.begin(), s.end()); }
static string show(const Model& m) { string s; for (auto& r : m.cells) for (auto& x : r) s += ref::spx_str(x) + " "; return s; }
static void missing(set<Spx>& out, const Model& m, const Spx& s) { if (m.has(s)) return; out.insert(s); for (auto& f : ref::faces(s)) missing(out, m, f); }
// common accessors of the two representations
template <class X> void compare_common(mc::Ctx& c, const X& x, const Model& m, const vector<Spx>& universe, const string& n) {
    c.op(); c.checkf(x.ncells() == m.n(), [&] { return n + ": " + to_string(x.ncells()) + " cells, expected " + to_string(m.n()); });
    c.checkf((int)x.maxdim() >= m.top, [&] { return n + ": maxdim " + to_string(x.maxdim()); });
    size_t tot = 0; for (size_t k = 0; k <= x.maxdim(); k++) { tot += x.ncells(k); c.checkf(x.ncells(k) == m.n(k), [&] { return n + ": ncells(" + to_string(k) + ") = " + to_string(x.ncells(k)) + " expected " + to_string(m.n(k)) + " in " + show(m); }); 
        auto all = x.get_simplices(k); c.check(all.size() == m.n(k), "get_simplices(k) has the wrong size"); vector<size_t> buf;
        for (size_t i = 0; i < m.n(k); i++) { c.checkf(dn(x.get_simplex(k, i)) == m.cells[k][i] && dn(all[i]) == m.cells[k][i] && dn(x.get_cell(k, i)) == m.cells[k][i], [&] { return n + ": simplex " + to_string(i) + " of dimension " + to_string(k) + " is " + ref::spx_str(dn(x.get_simplex(k, i))) + ", expected " + ref::spx_str(m.cells[k][i]); }); x.get_simplex(k, i, buf); c.check(dn(buf) == m.cells[k][i], "get_simplex into a buffer");
            if (k) { auto [ind, val] = x.boundary(k, i); multiset<int> want; map<int, int> sign; auto fs = ref::faces(m.cells[k][i]); for (auto& f : fs) want.insert(m.idx.at(f)); c.checkf(multiset<int>(ind.begin(), ind.end()) == want && is_sorted(ind.begin(), ind.end()) && val.size() == ind.size(), [&] { return n + ": faces of " + ref::spx_str(m.cells[k][i]) + " are wrong"; });
                for (int v : val) c.check(v == 1 || v == -1, "boundary coefficient is not a sign");
                map<size_t, int> bb; for (size_t q = 0; q < ind.size(); q++) { if (k == 1) bb[0] += val[q]; else { auto [i2, v2] = x.boundary(k - 1, ind[q]); for (size_t w = 0; w < i2.size(); w++) bb[i2[w]] += val[q] * v2[w]; } } for (auto& [a, b] : bb) c.checkf(b == 0, [&] { return n + ": the boundary of the boundary of " + ref::spx_str(m.cells[k][i]) + " is not zero"; }); } } }
    auto every = x.get_simplices(); size_t q = 0; c.check(every.size() == m.n() && tot == m.n(), "get_simplices() has the wrong size"); for (size_t k = 0; k < m.cells.size(); k++) for (auto& s : m.cells[k]) { c.check(dn(every[q]) == s, "get_simplices() out of order"); q++; }
    for (auto& s : universe) if (s.size() <= x.maxdim() + 1) { size_t g = x.find_idx(up(s)); c.checkf(g == (m.has(s) ? (size_t)m.idx.at(s) : bats::NO_IND), [&] { return n + ": find_idx" + ref::spx_str(s) + " = " + to_string(g) + " in " + show(m); }); }
}
static void compare(mc::Ctx& c, const SC& x, const Model& m, const vector<Spx>& universe, const string& n) {
    compare_common(c, x, m, universe, n); SC& y = const_cast<SC&>(x);
    for (auto& s : universe) c.check(y.find_idx(up(s)) == x.find_idx(up(s)), "find_idx of a mutable complex differs");
    for (size_t k = 0; k < m.cells.size(); k++) for (size_t i = 0; i < m.n(k); i++) { c.check(dn(vector<size_t>(x.simplex_begin(k, i), x.simplex_end(k, i))) == m.cells[k][i], "simplex iterators"); if (k) { multiset<int> want; for (auto& f : ref::faces(m.cells[k][i])) want.insert(m.idx.at(f)); c.check(multiset<int>(x.faces_begin(k, i), x.faces_end(k, i)) == want, "face iterators"); c.check(x.faces_begin(cell_ind(k, i)) == x.faces_begin(k, i) && x.faces_end(cell_ind(k, i)) == x.faces_end(k, i), "face iterators by cell"); } } }
static void compare(mc::Ctx& c, const LC& x, const Model& m, const vector<Spx>& universe, const string& n) {
    compare_common(c, x, m, universe, n); for (size_t k = 0; k < m.cells.size(); k++) for (size_t i = 0; i < m.n(k); i++) { size_t key = x.simplex_key(up(m.cells[k][i])); c.check(dn(x.key_to_simplex(k, key)) == m.cells[k][i] && x.find_idx(k, key) == i && (int)x.max_vertex(key, k) == m.cells[k][i].back(), "packed keys"); if (k) { multiset<size_t> want, got; for (auto& f : ref::faces(m.cells[k][i])) want.insert(x.simplex_key(up(f))); for (auto it = x.simplex_begin(k, i); it != x.simplex_end(k, i); ++it) got.insert(*it); c.check(got == want, "face iterators of packed keys"); } } }
// accept cells reported as newly added; the model takes the library's order inside one recursive insertion, which must add exactly the missing faces
template <class X> void accept_recursive(mc::Ctx& c, const X& x, Model& m, const Spx& s, const vector<cell_ind>& r, const string& n) {
    set<Spx> want; missing(want, m, s);
    if (want.empty()) { for (auto& q : r) c.check(q.dim == s.size() - 1 && (int)q.ind == m.idx.at(s), "inserting a present simplex reports another cell"); return; }
    c.checkf(r.size() == want.size(), [&] { return n + ": recursive insertion of " + ref::spx_str(s) + " reports " + to_string(r.size()) + " new cells, expected " + to_string(want.size()) + " in " + show(m); });
    vector<pair<pair<size_t, size_t>, Spx>> got; for (auto& q : r) { c.check(q.dim < s.size(), "new cell of too high dimension"); c.checkf(q.ind < x.ncells(q.dim), [&] { return n + ": reported index out of range"; }); auto f = dn(x.get_simplex(q.dim, q.ind)); c.checkf(want.erase(f), [&] { return n + ": recursive insertion reports " + ref::spx_str(f); }); got.push_back({{q.dim, q.ind}, f}); }
    c.check(dn(x.get_simplex(r.back().dim, r.back().ind)) == s, "the inserted simplex is reported last"); sort(got.begin(), got.end()); for (auto& [k, f] : got) { int i = m.put(f); c.checkf((size_t)i == k.second, [&] { return n + ": new cell " + ref::spx_str(f) + " has index " + to_string(k.second) + ", next index is " + to_string(i); }); } }
static vector<size_t> scrambled(Spx s, int how) { if (how == 1) reverse(s.begin(), s.end()); if (how == 2 && s.size() > 1) rotate(s.begin(), s.begin() + 1, s.end()); return up(s); }
static void sequences(mc::Ctx& c, int nv, int maxdim, int len, int how_ctor, bool light, int order) {
    auto U = ref::all_simplices(nv, maxdim); SC x = how_ctor == 0 ? SC() : how_ctor == 1 ? SC((size_t)nv, (size_t)maxdim) : how_ctor == 2 ? SC((size_t)1) : SC(vector<size_t>{2, 1}); LC y(nv, maxdim); Model m, my; compare(c, x, m, U, "empty"); if (light) { compare(c, y, my, U, "empty packed"); LC z; compare(c, z, my, U, "default packed"); z = y; compare(c, z, my, U, "assigned packed"); }
    bool eager = how_ctor == 3; // check after every step or only at the end
    for (int e = 0; e < len; e++) { int q = c.choose(2 * (int)U.size()); if (e == 1) c.shard_here(); auto s = U[q % U.size()]; bool rec = q >= (int)U.size(); if (c.verbose) c << (rec ? " rec" : " add") << ref::spx_str(s); auto raw = scrambled(s, order);
        if (!rec) { c.op(); auto r = e % 2 ? x.add(raw) : x.add(vector<size_t>(raw)); bool can = m.facesin(s); c.check(r.dim == s.size() - 1, "add reports the wrong dimension"); if (m.has(s)) c.checkf((int)r.ind == m.idx[s], [&] { return "adding " + ref::spx_str(s) + " again gives another index"; }); else if (!can) c.checkf(r.ind == bats::NO_IND, [&] { return "adding " + ref::spx_str(s) + " without its faces is not rejected in " + show(m); }); else { int i = m.put(s); c.checkf((int)r.ind == i, [&] { return "adding " + ref::spx_str(s) + " gives index " + to_string(r.ind) + " expected " + to_string(i); }); }
            if (light && (my.has(s) || my.facesin(s))) { auto t = y.add(up(s)); if (my.has(s)) c.check((int)t.ind == my.idx[s], "packed: adding again gives another index"); else { int i = my.put(s); c.check((int)t.ind == i && t.dim == s.size() - 1, "packed: wrong index"); } } }
        else { c.op(); auto r = e % 2 ? x.add_recursive(raw) : x.add_recursive(vector<size_t>(raw)); accept_recursive(c, x, m, s, r, "pointer"); if (light) { auto t = y.add_recursive(up(s)); accept_recursive(c, y, my, s, t, "packed"); } }
        if (eager || e == len - 1) { compare(c, x, m, U, "pointer"); if (light) compare(c, y, my, U, "packed"); } }
    c.state(m.hash()); c.outcome(m.n() * 16 + m.top + 1); if (m.n() > 3) c.interesting();
    // copies are independent of the original
    { SC a(x), b, d(x); b = x; SC e; e.add(vector<size_t>{7}); e = x; a = a; for (auto* p : {&a, &b, &e}) compare(c, *p, m, U, "copy"); Model mm = m; auto r = a.add_recursive(up(U.back())); accept_recursive(c, a, mm, U.back(), r, "copy"); compare(c, a, mm, U, "changed copy"); compare(c, x, m, U, "original of a changed copy"); compare(c, b, m, U, "other copy"); b = SC(); compare(c, b, Model(), U, "copy replaced by an empty complex"); SC z(std::move(d)); compare(c, z, m, U, "moved"); e = std::move(z); compare(c, e, m, U, "move-assigned"); e.add(vector<size_t>{9}); c.check(e.find_idx(vector<size_t>{9}) == m.n(0), "insertion after a move");
      vector<SC> vs; for (int i = 0; i < 5; i++) vs.push_back(x); for (auto& w : vs) compare(c, w, m, U, "copies in a growing vector"); swap(vs[0], e); compare(c, vs[1], m, U, "after swap"); compare(c, e, m, U, "after swap"); }
    if (light) { LC a(y), b; b = y; Model mm = my; auto r = a.add_recursive(up(U.back())); accept_recursive(c, a, mm, U.back(), r, "packed copy"); compare(c, a, mm, U, "changed packed copy"); compare(c, b, my, U, "packed copy"); LC z(std::move(b)); compare(c, z, my, U, "moved packed"); } }
PART("insertion sequences on three vertices") { sequences(c, 3, 2, c.tier ? 5 : 4, 3, true, 0); }
PART("insertion sequences on three vertices, scrambled input, every constructor") { int k = c.choose(3); sequences(c, 3, 2, 3, k, k == 1, 1 + c.choose(2)); }
PART("insertion sequences on four vertices") { sequences(c, 4, 3, c.tier ? 4 : 3, 3, true, 0); }
PART("insertion sequences on five vertices") { sequences(c, 5, 4, c.tier ? 3 : 2, 3, true, 2); }
static Model model_of(const vector<Spx>& x) { Model m; for (auto& s : x) m.put(s); return m; }
static SC build(const vector<Spx>& x) { SC X; for (auto& s : x) X.add(up(s)); return X; }
static vector<Spx> closed(mc::Ctx& c, int nv, int maxdim) { vector<Spx> x; set<Spx> in; for (auto& s : ref::all_simplices(nv, maxdim)) { bool ok = true; for (auto& f : ref::faces(s)) ok &= in.count(f) > 0; if (ok && c.flip()) { in.insert(s); x.push_back(s); } } return x; }
static void setops(mc::Ctx& c, int nv, int maxdim) {
    auto U = ref::all_simplices(nv, maxdim); auto a = closed(c, nv, maxdim); c.shard_here(); auto b = closed(c, nv, maxdim); int ha = c.choose(nv < 4 || c.tier ? 3 : 1), hb = c.choose(nv < 4 || c.tier ? 3 : 1); if (a.empty()) ha = 0; if (b.empty()) hb = 0; a = reorder(a, ha); b = reorder(b, hb);
    c.state(mc::mix(hcells(a), hcells(b))); if (a.size() > 2 && b.size() > 2) c.interesting(); SC A = build(a), B = build(b); auto ma = model_of(a), mb = model_of(b); c.outcome(a.size() * 64 + b.size());
    Model un = ma; for (auto& s : b) if (!un.has(s)) un.put(s); Model in; for (auto& s : a) if (mb.has(s)) in.put(s);
    auto x = simplicial_union(A, B); compare(c, x, un, U, "union"); auto y = A; y.union_add(B); compare(c, y, un, U, "union_add"); auto z = intersection(A, B); compare(c, z, in, U, "intersection"); compare(c, A, ma, U, "operand"); compare(c, B, mb, U, "operand");
    for (auto* p : {&x, &y}) for (int w = 0; w < 2; w++) { const SC& s = w ? B : A; const Model& ms = w ? mb : ma; auto all = p->get_indices(s); c.check(all.size() == p->maxdim() + 1, "get_indices: one list per dimension"); for (size_t k = 0; k <= s.maxdim(); k++) { auto g = p->get_indices(s, k); c.check(g.size() == ms.n(k) && (k >= all.size() ? ms.n(k) == 0 : all[k] == g), "get_indices size"); for (size_t i = 0; i < g.size(); i++) c.checkf((int)g[i] == un.idx[ms.cells[k][i]], [&] { return "get_indices: cell " + ref::spx_str(ms.cells[k][i]) + " at " + to_string(g[i]); }); } }
    if (!in.cells.empty()) for (size_t k = 0; k < in.cells.size(); k++) { auto g = A.get_indices(z, k), h = B.get_indices(z, k); for (size_t i = 0; i < in.n(k); i++) c.check((int)g[i] == ma.idx[in.cells[k][i]] && (int)h[i] == mb.idx[in.cells[k][i]], "get_indices of the intersection"); } 
    c.check(A.get_indices(B, 7).empty(), "get_indices above the top"); }
PART("union, intersection, subcomplex indices: pairs of complexes on three vertices") { setops(c, 3, 2); }
PART("union, intersection: pairs of complexes on four vertices, dimension 1 and 2") { if (!c.tier) { setops(c, 4, 1); return; } setops(c, 4, 2); }
// directed (ordered, possibly degenerate) simplices
static vector<Spx> words(int letters, int len) { vector<Spx> out, last{{}}; for (int l = 0; l < len; l++) { vector<Spx> nx; for (auto& w : last) for (int a = 0; a < letters; a++) { auto v = w; v.push_back(a); nx.push_back(v); } out.insert(out.end(), nx.begin(), nx.end()); last = nx; } return out; }
static void directed(mc::Ctx& c, int letters, int wl, int len) { auto U = words(letters, wl); SC x; Model m; for (int e = 0; e < len; e++) { int q = c.choose(2 * (int)U.size()); if (e == 1) c.shard_here(); auto s = U[q % U.size()]; bool rec = q >= (int)U.size(); if (c.verbose) c << (rec ? " rec" : " add") << ref::spx_str(s); auto raw = up(s); c.op(); if (!rec) { auto r = x.add_directed(raw); if (m.has(s)) c.check((int)r.ind == m.idx[s], "directed: index changes"); else if (!m.facesin(s)) c.check(r.ind == bats::NO_IND, "directed: missing faces not rejected"); else c.check((int)r.ind == m.put(s), "directed: wrong index"); } else accept_recursive(c, x, m, s, x.add_directed_recursive(raw), "directed"); compare(c, x, m, U, "directed"); }
    c.state(m.hash()); c.outcome(m.n()); if (m.n() > 3) c.interesting(); SC b; b = x; compare(c, b, m, U, "directed copy"); }
PART("directed simplices over two vertices") { directed(c, 2, 3, c.tier ? 4 : 3); }
PART("directed simplices over three vertices") { directed(c, 3, c.tier ? 3 : 2, 3); }
// larger complexes and vertex labels
static void larger(mc::Ctx& c, const vector<Spx>& x, const vector<Spx>& top, int nv, int maxdim, bool light) { Model m, my, mr; SC a, b; LC y(nv, maxdim); int i = 0; set<Spx> u; for (auto& s : x) { u.insert(s); if (s.size() > 1) { auto t = s; t.back() += t.back() + 1 < nv; u.insert(t); t = s; if (t[0]) { t[0]--; u.insert(t); } } } vector<Spx> U(u.begin(), u.end());
    for (auto& s : x) { auto r = a.add(scrambled(s, i++ % 3)); c.op(); c.check((int)r.ind == m.put(s) && r.dim == s.size() - 1, "add: wrong index"); if (light) { auto t = y.add(up(s)); c.check((int)t.ind == my.put(s), "packed add: wrong index"); } } compare(c, a, m, U, "larger"); if (light) compare(c, y, my, U, "larger packed");
    for (auto& s : top) accept_recursive(c, b, mr, s, b.add_recursive(scrambled(s, i++ % 3)), "larger recursive"); compare(c, b, mr, U, "larger recursive"); if (light) { LC z(nv, maxdim); Model mz; for (auto& s : top) accept_recursive(c, z, mz, s, z.add_recursive(up(s)), "larger packed recursive"); compare(c, z, mz, U, "larger packed recursive"); }
    { SC w = a; Model un = m; for (auto& r : mr.cells) for (auto& s : r) if (!un.has(s)) un.put(s); w.union_add(b); compare(c, w, un, U, "larger union"); Model in; for (auto& r : m.cells) for (auto& s : r) if (mr.has(s)) in.put(s); compare(c, intersection(a, b), in, U, "larger intersection"); for (size_t k = 0; k <= b.maxdim(); k++) { auto g = w.get_indices(b, k); c.check(g.size() == mr.n(k), "larger get_indices"); for (size_t j = 0; j < g.size(); j++) c.check((int)g[j] == un.idx[mr.cells[k][j]], "larger get_indices"); } }
    c.state(m.hash()); c.outcome(m.n()); c.interesting(); }
PART("larger complexes") { int k = c.choose(bigc::N), how = c.choose(4), ord = c.choose(3), lab = c.choose(4); c.shard_here(); auto z = bigc::make(k, how); auto x = reorder(z.x, ord); vector<Spx> top; for (auto& s : z.x) { bool mx = true; for (auto& t : z.x) if (t.size() == s.size() + 1 && includes(t.begin(), t.end(), s.begin(), s.end())) mx = false; if (mx && (how || top.size() % 7 != 3)) top.push_back(s); } if (how == 3) reverse(top.begin(), top.end()); c << "kind " << k << " part " << how << " labels " << lab; int nv = z.nv, md = mdim(z.x);
    auto relabel = [&](vector<Spx>& v) { for (auto& s : v) for (auto& q : s) q = lab == 1 ? q + 300 : lab == 2 ? q * 257 + 65530 : lab == 3 ? q * 97000001 : q; }; relabel(x); relabel(top); int nl = lab == 0 ? nv : lab == 1 ? nv + 300 : lab == 2 ? nv * 257 + 65530 : 2000000000; double bits = log2((double)nl) * (md + 1); larger(c, x, top, nl, md, bits < 63); }
PART("full simplices of dimension up to seven") { int n = c.range(5, 8), lab = c.choose(3); c.shard_here(); Spx s; for (int i = 0; i < n; i++) s.push_back(lab == 0 ? i : lab == 1 ? 40 + 3 * i : i * i * i + 100); vector<Spx> x; set<Spx> cl; function<void(const Spx&)> add = [&](const Spx& t) { if (!cl.insert(t).second) return; if (t.size() > 1) for (auto& f : ref::faces(t)) add(f); }; add(s); x.assign(cl.begin(), cl.end()); stable_sort(x.begin(), x.end(), [](const Spx& a, const Spx& b) { return a.size() < b.size(); }); int nl = s.back() + 1; larger(c, reorder(x, c.choose(3)), {s}, nl, n - 1, log2((double)nl) * n < 63); }
