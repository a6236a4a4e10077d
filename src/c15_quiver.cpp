// C15: barcodes of type-A quiver representations are the interval decomposition.
#include "bridge.hpp"
#include "zz.hpp"
using namespace std;
static string bstr(const map<pair<int, int>, int>& m) { string s; for (auto& [k, v] : m) s += "[" + to_string(k.first) + "," + to_string(k.second) + "]x" + to_string(v) + " "; return s; }
template <class F> bats::Diagram<int, CM<F>> diagram(const Quiver<F>& q) { bats::Diagram<int, CM<F>> D(q.dim.size(), q.map.size()); for (size_t e = 0; e < q.map.size(); e++) { size_t s = q.left[e] ? e + 1 : e, t = q.left[e] ? e : e + 1; D.set_edge(e, s, t, mkmat<F>(q.map[e])); } return D; }
template <class F> void judge_pairs(mc::Ctx& c, const Quiver<F>& q, const map<pair<int, int>, int>& want, const vector<bats::PersistencePair<size_t>>& ps, size_t hdim, const string& what) {
    c.op(); map<pair<int, int>, int> got; set<pair<size_t, size_t>> st, en;
    for (auto& p : ps) { c.check(p.dim == hdim, "bar carries the wrong dimension"); c.checkf(p.birth <= p.death && p.death < q.dim.size(), [&] { return what + ": bar outside the quiver"; }); got[{(int)p.birth, (int)p.death}]++;
        c.checkf(p.birth_ind < (size_t)q.dim[p.birth] && p.death_ind < (size_t)q.dim[p.death], [&] { return what + ": bar index is not a basis index"; });
        c.checkf(st.insert({p.birth, p.birth_ind}).second && en.insert({p.death, p.death_ind}).second, [&] { return what + ": two bars use the same basis vector at an end"; }); }
    c.checkf(got == want, [&] { return what + ": bars " + bstr(got) + "expected " + bstr(want); });
}
// barcode form: partial permutation matrices of the same shapes and ranks as an isomorphic representation
template <class F> void judge_form(mc::Ctx& c, const Quiver<F>& q, const map<pair<int, int>, int>& want, const vector<CM<F>>& form, const string& what) {
    c.op(); c.check(form.size() == q.map.size(), "wrong number of matrices"); Quiver<F> p = q;
    for (size_t e = 0; e < form.size(); e++) { auto m = rdmat<F>(form[e], c, "barcode form"); c.checkf(m.m == q.map[e].m && m.n == q.map[e].n, [&] { return what + ": matrix has the wrong shape"; });
        for (int i = 0; i < m.m; i++) { int k = 0; for (int j = 0; j < m.n; j++) k += !m(i, j).zero(); c.checkf(k <= 1, [&] { return what + ": row with two entries in the barcode form " + m.str(); }); }
        for (int j = 0; j < m.n; j++) { int k = 0; for (int i = 0; i < m.m; i++) k += !m(i, j).zero(); c.checkf(k <= 1, [&] { return what + ": column with two entries in the barcode form " + m.str(); }); } p.map[e] = m; }
    auto d = decomposition<F>(p); c.checkf(d == want, [&] { return what + ": the barcode form decomposes as " + bstr(d) + "expected " + bstr(want); });
}
template <class F> vector<CM<F>> divide(const bats::Diagram<int, CM<F>>& D) { using TC = SV<F>; vector<SparseFact<TC>> facts(D.nedge()); auto mats = D.edata; bats::type_A_dq_common(D, facts, mats, 0, (ssize_t)D.nedge() - 1); for (size_t j = 0; j < D.nedge(); j++) mats[j] = facts[j].E; return mats; }
template <class F> void judge(mc::Ctx& c, const Quiver<F>& q) {
    mc::Hash h; for (int d : q.dim) h(d); for (char l : q.left) h(l); for (auto& m : q.map) for (auto& x : m.a) h(x.key()); c.state(h.h); if (c.verbose) for (size_t e = 0; e < q.map.size(); e++) c << (q.left[e] ? " <- " : " -> ") << q.map[e].str();
    auto want = decomposition<F>(q); if (want.size() > 1) c.interesting(); mc::Hash o; for (auto& [k, v] : want) { o(k.first); o(k.second); o(v); } c.outcome(o.h);
    auto D = diagram<F>(q); using namespace bats; string n = FT<F>::name() + " ";
    judge_pairs<F>(c, q, want, barcode(D, 1, flags::rightward()), 1, n + "rightward"); judge_pairs<F>(c, q, want, barcode(D, 2, flags::leftward()), 2, n + "leftward"); judge_pairs<F>(c, q, want, barcode(D, 0), 0, n + "default"); judge_pairs<F>(c, q, want, barcode(D, 0, flags::divide_conquer()), 0, n + "divide and conquer");
    judge_form<F>(c, q, want, barcode_form_leftright(D), n + "left-to-right form"); judge_form<F>(c, q, want, barcode_form_rightleft(D), n + "right-to-left form");
    if (q.map.size() >= 3) { auto f = divide<F>(D); judge_form<F>(c, q, want, f, n + "divide and conquer form"); judge_pairs<F>(c, q, want, bars_to_pairs(barcode_from_barcode_form(f, D), 0), 0, n + "divide and conquer"); }
    if (q.map.size() >= 5) { omp_set_num_threads(8); judge_form<F>(c, q, want, barcode_form_divide_conquer(D), n + "divide and conquer with 8 threads"); judge_pairs<F>(c, q, want, barcode(D, 0), 0, n + "default with 8 threads"); omp_set_num_threads(1); }
}
template <class F> void all(mc::Ctx& c, int m, int maxdim, int letters, int mindim = 0) { Quiver<F> q; for (int i = 0; i <= m; i++) q.dim.push_back(c.range(mindim, maxdim)); for (int e = 0; e < m; e++) q.left.push_back(c.flip()); c.shard_here(); for (int e = 0; e < m; e++) q.map.push_back(choose_mat<F>(c, q.dim[q.left[e] ? e : e + 1], q.dim[q.left[e] ? e + 1 : e], letters)); judge<F>(c, q); }
PART("one arrow, F2 up to 3x3") { all<F2>(c, 1, 3, 2); }
PART("two arrows, F2 up to dimension 2") { all<F2>(c, 2, 2, 2); }
PART("three arrows, F2 up to dimension 2") { if (!c.tier && c.flip()) c.prune(); all<F2>(c, 3, 2, 2); }
PART("two arrows, F3 up to dimension 2") { all<F3>(c, 2, 2, 3); }
PART("two arrows, Q up to dimension 2") { all<QQ>(c, 2, 2, c.tier ? 3 : 2); }
PART("two arrows with a space of dimension 3, F2") { Quiver<F2> q; q.dim = {2, 3, 2}; if (c.tier) q.dim[2] = 3; q.left = {(char)c.flip(), (char)c.flip()}; for (int e = 0; e < 2; e++) { q.map.push_back(choose_mat<F2>(c, q.dim[q.left[e] ? e : e + 1], q.dim[q.left[e] ? e + 1 : e], 2)); if (!e) c.shard_here(); } judge<F2>(c, q); }
PART("long quivers of lines, every zero pattern and direction") { int m = c.range(1, c.tier ? 7 : 5); Quiver<F3> q; for (int i = 0; i <= m; i++) q.dim.push_back(c.choose(2)); for (int e = 0; e < m; e++) q.left.push_back(c.flip()); c.shard_here(); for (int e = 0; e < m; e++) q.map.push_back(choose_mat<F3>(c, q.dim[q.left[e] ? e : e + 1], q.dim[q.left[e] ? e + 1 : e], 3)); judge<F3>(c, q); }
template <class F> RM<F> two(const vector<int>& a) { RM<F> m(2, 2); for (int i = 0; i < 4; i++) m.a[i] = RF<F>(a[i]); return m; }
static const vector<vector<int>> kinds = {{1,0,0,1}, {0,1,1,0}, {1,1,0,1}, {1,0,0,0}, {1,0,1,1}, {1,1,1,1}, {0,1,0,0}, {0,0,0,0}};
PART("five arrows of planes, every direction (divide and conquer)") { Quiver<F3> q; int m = 5; q.dim.assign(m + 1, 2); for (int e = 0; e < m; e++) q.left.push_back(c.flip()); c.shard_here(); for (int e = 0; e < m; e++) q.map.push_back(two<F3>(kinds[c.choose(c.tier ? 6 : 4)])); judge<F3>(c, q); }
PART("recursive divide and conquer: up to three maps among identities, 6 to 12 arrows") { int m = c.pick(vector<int>{6, 8, 9, 11, 12}); int pat = c.choose(4); Quiver<F2> q; q.dim.assign(m + 1, 2); for (int e = 0; e < m; e++) { q.left.push_back(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? e % 2 : (e / 2) % 2); q.map.push_back(two<F2>(kinds[0])); } int last = -1; c.shard_here(); for (int k = 0; k < (c.tier ? 3 : 2); k++) { int e = last + 1 + c.choose(m - last - 1 + 1); if (e >= m) break; last = e; q.map[e] = two<F2>(kinds[1 + c.choose(k == 1 && !c.tier ? 5 : 6)]); } if (m < 5) c.prune(); judge<F2>(c, q); }
PART("changing dimensions along eleven arrows") { int m = 11; Quiver<F2> q; vector<int> prof = c.pick(vector<vector<int>>{{1,2,3,2,1,2,3,2,1,0,1,2},{0,1,1,2,2,3,3,2,2,1,1,0},{3,2,1,2,3,2,1,2,3,2,1,2}}); q.dim = prof; int pat = c.choose(3); for (int e = 0; e < m; e++) q.left.push_back(pat == 0 ? 0 : pat == 1 ? e % 2 : (e % 3 == 0)); c.shard_here(); int a = c.choose(m), b = c.choose(m); int ka = c.choose(4), kb = c.choose(4); for (int e = 0; e < m; e++) { RM<F2> f(q.dim[q.left[e] ? e : e + 1], q.dim[q.left[e] ? e + 1 : e]); int k = e == a ? ka : e == b ? kb : 0; for (int i = 0; i < f.m; i++) for (int j = 0; j < f.n; j++) { bool v = k == 0 ? i == j : k == 1 ? i + j == min(f.m, f.n) - 1 : k == 2 ? i <= j : (i + j) % 2; if (v) f(i, j) = RF<F2>(1); } q.map.push_back(f); } judge<F2>(c, q); }
PART("barcodes of diagrams stacked by dimension") { typedef F3 F; Quiver<F> a, b; int m = 2; a.dim = {1, 2, 1}; b.dim = {2, 1, 2}; a.left = b.left = {(char)c.flip(), (char)c.flip()}; c.shard_here(); for (int e = 0; e < m; e++) { a.map.push_back(choose_mat<F>(c, a.dim[a.left[e] ? e : e + 1], a.dim[a.left[e] ? e + 1 : e], 3)); b.map.push_back(choose_mat<F>(c, b.dim[b.left[e] ? e : e + 1], b.dim[b.left[e] ? e + 1 : e], 2)); }
    bats::Diagram<int, vector<CM<F>>> D(m + 1, m); for (int e = 0; e < m; e++) { size_t s = a.left[e] ? e + 1 : e, t = a.left[e] ? e : e + 1; D.set_edge(e, s, t, vector<CM<F>>{mkmat<F>(a.map[e]), mkmat<F>(b.map[e])}); }
    mc::Hash h; for (auto& q : {a, b}) for (auto& f : q.map) for (auto& x : f.a) h(x.key()); h(a.left[0] * 2 + a.left[1]); c.state(h.h); c.interesting(); auto wa = decomposition<F>(a), wb = decomposition<F>(b); c.outcome(wa.size() * 16 + wb.size());
    auto one = [&](const vector<bats::PersistencePair<size_t>>& ps, const string& w) { vector<bats::PersistencePair<size_t>> p0, p1; for (auto& p : ps) (p.dim == 0 ? p0 : p1).push_back(p); judge_pairs<F>(c, a, wa, p0, 0, w + " dimension 0"); judge_pairs<F>(c, b, wb, p1, 1, w + " dimension 1"); };
    one(bats::barcode(D), "stacked default"); one(bats::barcode(D, bats::flags::rightward()), "stacked rightward"); one(bats::barcode(D, bats::flags::leftward()), "stacked leftward"); one(bats::barcode(D, bats::flags::divide_conquer()), "stacked divide and conquer");
    for (size_t k = 0; k < 2; k++) { auto E = bats::extract_dimension(D, k); c.check(E.nnode() == 3 && E.nedge() == 2, "extract_dimension shape"); for (int e = 0; e < m; e++) c.check(rdmat<F>(E.edata[e], c, "m") == (k ? b : a).map[e] && E.elist[e].src == D.elist[e].src && E.elist[e].targ == D.elist[e].targ, "extract_dimension changes the diagram"); } }
PART_THOROUGH("four arrows of dimension at most 2, F2") { all<F2>(c, 4, 2, 2); }
PART_THOROUGH("three arrows of planes, F3") { all<F3>(c, 3, 2, 3, 1); }
// larger spaces and longer quivers from the patterned families
template <class F> void larger(mc::Ctx& c, int m, int mx) { int p0 = c.choose((int)patterns().size()), st = c.choose(3), prof = c.choose(4), dir = c.choose(5), letters = c.choose(2) + 2; c.shard_here(); auto al = FT<F>::alphabet(letters); Quiver<F> q; for (int i = 0; i <= m; i++) q.dim.push_back(prof == 0 ? mx : prof == 1 ? mx - i % 3 : prof == 2 ? max(0, min(mx, min(i, m - i) + 1)) : (i * 5 + 2) % (mx + 1)); for (int e = 0; e < m; e++) q.left.push_back(dir == 0 ? 0 : dir == 1 ? 1 : dir == 2 ? e % 2 : dir == 3 ? (e / 2) % 2 : e % 5 == 1 || e % 3 == 0);
    for (int e = 0; e < m; e++) { RM<F> M(q.dim[q.left[e] ? e : e + 1], q.dim[q.left[e] ? e + 1 : e]); auto& P = patterns()[(p0 + e * (2 * st + 1)) % patterns().size()]; for (int i = 0; i < M.m; i++) for (int j = 0; j < M.n; j++) M(i, j) = P.on(i, j) != (i == j && e % 3 != 1) ? al[1 + (i + 2 * j) % (al.size() - 1)] : RF<F>(0); q.map.push_back(M); } c << m << " arrows, pattern " << p0; judge<F>(c, q); }
PART("larger spaces: dimension up to 6 along two to five arrows") { int m = c.range(2, 5), fld = c.choose(2); if (fld) larger<F3>(c, m, 6); else larger<F2>(c, m, 6); }
PART("longer quivers: up to 14 arrows of dimension up to 4") { int m = c.pick(c.tier ? vector<int>{7, 10, 14, 17, 20} : vector<int>{7, 10, 14}), fld = c.choose(2); if (fld) larger<F3>(c, m, 4); else larger<F2>(c, m, 4); }
PART("larger spaces over Q") { larger<QQ>(c, c.range(2, 6), 4); }
PART("wide spaces: dimension 20 to 70") { int m = c.range(2, 3), d = c.pick(c.tier ? vector<int>{20, 33, 70} : vector<int>{20, 40}), fld = c.choose(2); if (fld) larger<F3>(c, m, d); else larger<F2>(c, m, d); }
