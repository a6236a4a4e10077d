// C26: permutations, sorted lists, tries, disjoint sets and simplex keys against the mathematical definitions.
#include "mc.hpp"
#include "bats.hpp"
#include <functional>
using namespace std;
namespace bu = bats::util; typedef vector<size_t> V; typedef bats::SparseTrie<size_t, size_t> Trie;
static string vs(const V& v) { string s; for (auto x : v) s += to_string((long)x) + " "; return "[" + s + "]"; }
static bool is_perm(const V& p, size_t n) { vector<char> h(n); if (p.size() != n) return false; for (auto x : p) { if (x >= n || h[x]) return false; h[x] = 1; } return true; }
static V choose_list(mc::Ctx& c, int maxlen, int k) { int n = c.range(0, maxlen); V v(n); for (auto& x : v) x = c.choose(k); if (c.verbose) c << vs(v) << " "; return v; }
static V choose_permutation(mc::Ctx& c, int n) { V p(n), left(n); iota(left.begin(), left.end(), 0); for (auto& x : p) { int q = c.choose((int)left.size()); x = left[q]; left.erase(left.begin() + q); } if (c.verbose) c << vs(p) << " "; return p; }
static uint64_t hv(const V& v) { mc::Hash h; h(v.size()).range(v.begin(), v.end()); return h.h; }
template <class T> void sorts(mc::Ctx& c, const vector<T>& d, const V& p, bool stable, const string& n) { c.op(); c.check(is_perm(p, d.size()), n + " is not a permutation"); for (size_t i = 0; i + 1 < p.size(); i++) { c.check(!(d[p[i + 1]] < d[p[i]]), n + " does not sort"); if (stable && !(d[p[i]] < d[p[i + 1]])) c.check(p[i] < p[i + 1], n + " is not stable"); } }
static V inverse(const V& p) { V r(p.size()); for (size_t i = 0; i < p.size(); i++) r[p[i]] = i; return r; }
static size_t inversions(const V& p) { size_t k = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) k += p[i] > p[j]; return k; }

template <class T> void sorting(mc::Ctx& c, const vector<T>& d, const V& raw) {
    size_t n = d.size(); sorts(c, d, bu::sortperm(d), false, "sortperm"); sorts(c, d, bu::sortperm(d.cbegin(), d.cend()), false, "sortperm of a range"); sorts(c, d, bu::stable_sortperm(d), true, "stable_sortperm"); sorts(c, d, bats::sort_indexes(d), true, "sort_indexes");
    V p{7, 7}; bu::fill_sortperm(d, p); sorts(c, d, p, false, "fill_sortperm"); vector<T> neg(d); for (auto& x : neg) x = -x; sorts(c, neg, bu::sortperm(d.cbegin(), d.cend(), [](T a, T b) { return b < a; }), false, "sortperm with a comparator"); sorts(c, d, bu::sortperm(size_t(0), n, [&](size_t a, size_t b) { return d[a] < d[b]; }), false, "sortperm of indices"); if (n) { vector<T> t(d.begin() + 1, d.end()); sorts(c, t, bu::sortperm(size_t(1), n, [&](size_t a, size_t b) { return d[a] < d[b]; }), false, "sortperm of shifted indices"); }
    auto f = bats::find_perm_from_vector(d); c.check(is_perm(f, n), "find_perm_from_vector is not a permutation"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (d[i] < d[j] || (d[i] == d[j] && i < j)) c.check(f[i] < f[j], "find_perm_from_vector is not the rank");
    vector<T> s(d); sort(s.begin(), s.end()); for (size_t k = 0; k <= n; k++) { auto a = bu::firstk(d.cbegin(), d.cend(), k); c.op(); c.check(a.size() == k, "firstk: size"); set<size_t> seen; for (size_t i = 0; i < k; i++) c.check(a[i] < n && seen.insert(a[i]).second && d[a[i]] == s[i], "firstk: not the smallest in order"); if (k < n || n > 0) { auto b = bu::top_k(d, k); c.op(); c.check(b.size() == k && set<size_t>(b.begin(), b.end()).size() == k, "top_k: size"); vector<T> w; for (auto x : b) w.push_back(d[x]); sort(w.begin(), w.end()); for (size_t i = 0; i < k; i++) c.check(w[i] == s[i], "top_k: not the smallest"); } }
    for (double q : {0.0, 0.3, 0.5, 1.0}) if (n) c.check(bu::top_p(d, q).size() == (size_t)round(n * q), "top_p: size");
    vector<T> y{T(9)}; bu::sort_into(d, y); c.check(y == s, "sort_into");
    size_t inv = inversions(raw); c.op(); c.check(bu::perm_inversions(d) == inv, "perm_inversions"); c.check(bu::perm_sign(d) == (inv % 2 ? -1 : 1), "perm_sign"); c.check(bu::is_degenerate(s) == (set<T>(d.begin(), d.end()).size() < n), "is_degenerate");
}
static void signs(mc::Ctx& c, const V& raw) { V z(raw); bool deg = set<size_t>(raw.begin(), raw.end()).size() < raw.size(); int got = bu::simplex_sign(z); V s(raw); sort(s.begin(), s.end()); c.op(); c.check(z == s, "simplex_sign does not sort"); c.checkf(got == (deg ? 0 : inversions(raw) % 2 ? -1 : 1), [&] { return "simplex_sign of " + vs(raw) + " is " + to_string(got); }); }
PART("sorting lists") { V r = choose_list(c, c.tier ? 7 : 6, c.tier ? 4 : 3); c.shard_here(); c.state(hv(r)); if (r.size() > 3) c.interesting(); vector<double> d; vector<int> e; for (auto x : r) { d.push_back(x * 0.5 - 1); e.push_back((int)x - 1); }
    sorting(c, d, r); sorting(c, e, r); signs(c, r); sorts(c, r, bu::sortperm(r), false, "sortperm");
    { V arr(r); vector<int> w(r.begin(), r.end()); size_t k = bats::Kendall_tau(w); c.op(); c.check(k == inversions(r), "Kendall tau of a list"); size_t k2 = bats::Kendall_tau_inplace(w.data(), 0, (int)w.size() - 1); V s(r); sort(s.begin(), s.end()); c.check(k2 == inversions(r) && V(w.begin(), w.end()) == s, "Kendall tau in place"); } }
PART("long lists") { // beyond the insertion-sort threshold: periodic and reversed patterns
    int n = c.range(15, c.tier ? 40 : 24), k = c.range(1, 5), a = c.range(0, 6), b = c.range(0, 3); vector<double> d; V r; for (int i = 0; i < n; i++) { size_t x = (i * a + (i / k) * b + (i % k)) % (k + 2); r.push_back(x); d.push_back(-double(x)); } c.shard_here(); c.state(hv(r)); c.interesting(); V q; size_t mx = *max_element(r.begin(), r.end()); for (auto x : r) q.push_back(mx - x); sorting(c, d, q); signs(c, r); c.check(bats::Kendall_tau(r) == inversions(r), "Kendall tau of a list"); }
static void perm_checks(mc::Ctx& c, const V& p) { int n = (int)p.size(); V ip = inverse(p); c.op(); c.check(bu::inv_perm(p) == ip, "inv_perm"); c.check(bu::inv_perm(bu::inv_perm(p)) == p, "inv_perm is not an involution"); vector<string> d, want(n), iw(n); for (int i = 0; i < n; i++) d.push_back(string(20, 'a' + i % 26) + to_string(i)); for (int i = 0; i < n; i++) { want[i] = d[p[i]]; iw[p[i]] = d[i]; }
    auto x = d; bu::apply_perm(x, p); c.check(x == want, "apply_perm"); bu::apply_perm(x, ip); c.check(x == d, "apply_perm is not undone by the inverse"); x = d; vector<string> tmp(2); bu::apply_perm(x.data(), tmp, p); c.check(x == want, "apply_perm with a buffer"); x = d; bu::apply_perm_swap(x, p); c.check(x == iw, "apply_perm_swap"); bu::apply_iperm_swap(x, p); c.check(x == d, "apply_iperm_swap does not undo apply_perm_swap"); x = d; bu::apply_iperm_swap(x, p); c.check(x == want, "apply_iperm_swap"); c.op(7);
    c.check(bats::find_perm_from_vector(p) == p && bu::sortperm(p) == ip, "rank of a permutation"); c.check(bats::identity_perm(n) == bu::inv_perm(bats::identity_perm(n)) && is_perm(bats::identity_perm(n), n), "identity_perm"); for (int m = n; m < n + 3; m++) { auto e = bats::extension_perm(p, m); bool ok = (int)e.size() == m; for (int i = 0; ok && i < m; i++) ok = e[i] == (i < n ? p[i] : (size_t)i); c.check(ok, "extension_perm"); } c.check(bats::Kendall_tau(p) == inversions(p), "Kendall tau distance to the identity"); c.check(bats::Kendall_tau(p, p) == 0 && bats::Kendall_tau(p, bats::identity_perm(n)) == inversions(p), "Kendall tau distance"); }
PART("permutations") { int n = c.range(0, c.tier ? 7 : 6); V p = choose_permutation(c, n); c.shard_here(); c.state(hv(p)); if (n > 2) c.interesting(); perm_checks(c, p); }
PART("pairs of permutations") { int n = c.range(0, c.tier ? 5 : 4); V p = choose_permutation(c, n), q = choose_permutation(c, n); c.shard_here(); c.state(mc::mix(hv(p), hv(q))); V ip = inverse(p), iq = inverse(q); size_t k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) k += (ip[i] < ip[j]) != (iq[i] < iq[j]); V p0 = p, q0 = q; c.op(); c.checkf(bats::Kendall_tau(p, q) == k, [&] { return "Kendall tau distance of " + vs(p) + vs(q) + ": " + to_string(bats::Kendall_tau(p, q)); }); c.check(p == p0 && q == q0, "Kendall tau changes its arguments"); auto l = bats::Kendall_tau(vector<V>{p, q}); c.check(l.size() == 2 && l[0] == inversions(p) && l[1] == inversions(q), "list of Kendall tau distances"); if (k > 1) c.interesting();
    V d(n), e, f; for (int i = 0; i < n; i++) d[i] = 10 + i; e = f = d; bu::apply_perm(e, p); bu::apply_perm(e, q); V pq(n); for (int i = 0; i < n; i++) pq[i] = p[q[i]]; bu::apply_perm(f, pq); c.check(e == f, "apply_perm does not compose"); c.outcome(k); }
static void below_checks(mc::Ctx& c, const V& p, const V& ind, int rot) { int n = (int)p.size(); V w(ind); sort(w.begin(), w.end(), [&](size_t a, size_t b) { return p[a] < p[b]; });
    V a(ind); bu::sort_ind_by_perm(a, p); c.op(3); c.check(a == w, "sort_ind_by_perm"); V ip; bu::fill_partial_sortperm(ind, p, ip); c.check(is_perm(ip, ind.size()), "fill_partial_sortperm"); for (size_t i = 0; i < ip.size(); i++) c.check(ind[ip[i]] == w[i], "fill_partial_sortperm does not sort"); V b(ind), d; map<size_t, size_t> tag; for (auto x : ind) { tag[x] = d.size() + 50; d.push_back(d.size() + 50); } bu::sort_ind_pair_by_perm(b, d, p); c.check(b == w, "sort_ind_pair_by_perm: first list"); for (size_t i = 0; i < w.size(); i++) c.check(d[i] == tag[w[i]], "sort_ind_pair_by_perm: second list");
    for (size_t m = n; m < (size_t)n + 2; m++) { auto pp = bu::partial_perm(ind, m); c.check(pp.size() == m, "partial_perm: size"); for (size_t i = 0; i < m; i++) { auto it = find(ind.begin(), ind.end(), i); c.check(pp[i] == (it == ind.end() ? bats::NO_IND : size_t(it - ind.begin())), "partial_perm"); } }
    if (rot == 0) { for (size_t m = n; m < (size_t)n + 2; m++) { V e, f = ind; for (size_t i = 0; i < m; i++) if (!count(ind.begin(), ind.end(), i)) e.push_back(i); V g = e; e.insert(e.end(), ind.begin(), ind.end()); c.check(bats::perm_to_the_end(ind, m) == e, "perm_to_the_end of a list"); if (ind.size() == 1) c.check(bats::perm_to_the_end(ind[0], m) == e, "perm_to_the_end of an index"); auto h = bu::sorted_complement(ind, m); c.check(h == g, "sorted_complement"); } } }
PART("indices below a permutation") { int n = c.range(1, c.tier ? 6 : 5); V p = choose_permutation(c, n); int mask = c.choose(1 << n); V ind; for (int i = 0; i < n; i++) if (mask >> i & 1) ind.push_back(i); int rot = ind.size() > 1 ? c.choose(3) : 0; if (rot == 1) reverse(ind.begin(), ind.end()); if (rot == 2) rotate(ind.begin(), ind.begin() + 1, ind.end()); c.shard_here(); c.state(mc::mix(hv(p), hv(ind))); if (ind.size() > 2) c.interesting(); below_checks(c, p, ind, rot); }
// sorted lists
static void sorted_pair(mc::Ctx& c, const V& a, const V& b, size_t top) { set<size_t> sa(a.begin(), a.end()), sb(b.begin(), b.end()); V w, u; set_intersection(a.begin(), a.end(), b.begin(), b.end(), back_inserter(w)); set_union(a.begin(), a.end(), b.begin(), b.end(), back_inserter(u));
    V r{3, 4}; bu::intersect_sorted(a, b, r); c.op(); c.check(r == w, "intersect_sorted"); bu::intersect_sorted(sa, b, r); c.check(r == w, "intersect_sorted of a set and a list"); set<size_t> q{9}; bu::intersect_sorted(a, sb, q); c.check(V(q.begin(), q.end()) == w, "intersect_sorted into a set"); c.check(bu::has_intersect_sorted(a, b) == !w.empty() && bu::has_intersect_sorted(sa, sb) == !w.empty(), "has_intersect_sorted"); auto i = bu::set_intersection(a, sb); c.check(V(i.begin(), i.end()) == w, "set_intersection"); auto j = bu::set_union(a, sb); c.check(V(j.begin(), j.end()) == u, "set_union"); c.check(bu::to_set(b) == sb, "to_set");
    for (size_t t = 0; t <= top; t++) { V x; for (auto y : w) if (y < t) x.push_back(y); V r{5}; bu::intersect_sorted_lt(a, b, t, r); c.op(); c.checkf(r == x, [&] { return "intersect_sorted_lt of " + vs(a) + vs(b) + "below " + to_string(t) + " is " + vs(r); }); c.checkf(bu::has_intersect_sorted_lt(a, b, t) == !x.empty(), [&] { return "has_intersect_sorted_lt of " + vs(a) + vs(b) + "below " + to_string(t); }); bu::intersect_sorted_lt(sa, sb, t, r); c.check(r == x, "intersect_sorted_lt of sets"); } }
PART("pairs of sorted lists") { int N = c.tier ? 6 : 5, A = c.choose(1 << N), B = c.choose(1 << N); c.shard_here(); auto lst = [&](int m) { V v; for (int i = 0; i < N; i++) if (m >> i & 1) v.push_back(2 * i + 1); return v; }; V a = lst(A), b = lst(B); c.state(mc::mix(A, B)); if (__builtin_popcount(A & B) > 1 && A != B) c.interesting(); sorted_pair(c, a, b, 2 * (size_t)N + 2); }
PART("last element below a bound") { int N = 6, A = c.choose(1 << N), off = c.range(0, 2); vector<size_t> a; for (int i = 0; i < N; i++) if (A >> i & 1) a.push_back(2 * i + 1); if (off > (int)a.size()) c.prune(); c.shard_here(); c.state(mc::mix(A, off)); for (size_t t = 0; t <= 14; t++) { auto g = bu::find_sorted_lt(a.cbegin() + off, a.cend(), t); size_t w = bats::NO_IND; for (size_t i = off; i < a.size(); i++) if (a[i] < t) w = i - off; c.op(); c.checkf(g == w, [&] { return "find_sorted_lt of " + vs(a) + "from " + to_string(off) + " below " + to_string(t) + " is " + to_string((long)g); }); } if (a.size() > 2) c.interesting(); }
PART("sorting and summing index-value lists") { int n = c.range(0, c.tier ? 5 : 4); V ind(n); vector<int> val(n); for (auto& x : ind) x = c.choose(3); static const vector<int> al = {-1, 1, 2, 0}; for (auto& x : val) x = c.pick(al); int off = n ? c.choose(n + 1) : 0; c.shard_here(); mc::Hash h; h(hv(ind)).range(val.begin(), val.end()); c.state(mc::mix(h.h, off)); V i0 = ind; auto v0 = val; map<size_t, int> m; for (int i = off; i < n; i++) m[ind[i]] += val[i]; V wi(ind.begin(), ind.begin() + off); vector<int> wv(val.begin(), val.begin() + off); for (auto [k, v] : m) if (v) { wi.push_back(k); wv.push_back(v); } V perm, ti; vector<int> tv; bu::sort_sum_reduce(ind, val, off, perm, ti, tv); c.op(); c.checkf(ind == wi && val == wv, [&] { return "sort_sum_reduce of " + vs(i0) + "from " + to_string(off) + " gives " + vs(ind); }); if (m.size() > 1) c.interesting(); }
// random helpers only have to return valid objects
PART("random subsets and permutations") { int n = c.range(1, 12), k = c.range(0, n); c.shard_here(); c.state(mc::mix(n, k)); c.op(); c.check(is_perm(bu::rand_perm(n), n), "rand_perm"); auto s = bu::random_subset(n, k); c.check((int)s.size() == k && (s.empty() || *s.rbegin() < (size_t)n), "random_subset"); if (k > 1) c.interesting(); }
// tries: every sequence of operations on two tries
static const vector<V> keys = {{}, {0}, {1}, {0, 1}, {1, 0}, {0, 1, 2}}; static vector<V> probes() { vector<V> r{{}}; for (size_t i = 0; i < r.size(); i++) if (r[i].size() < 3) for (size_t a = 0; a < 3; a++) { V v = r[i]; v.push_back(a); r.push_back(v); } r.push_back({0, 1, 2, 0}); return r; }
typedef map<V, size_t> TM; // every node of the trie: prefixes of a key are nodes with value 0
static void put(TM& m, const V& k, size_t v) { for (size_t i = 0; i <= k.size(); i++) m.emplace(V(k.begin(), k.begin() + i), 0); m[k] = v; }
static void same(mc::Ctx& c, Trie& t, const TM& m, const string& n) { static const auto P = probes(); const Trie& k = t; c.op(); for (auto& p : P) { auto it = m.find(p); size_t w = it == m.end() ? 77 : it->second; c.checkf(t.get(p, 77) == w, [&] { return n + ": look-up of " + vs(p) + " gives " + to_string(t.get(p, 77)) + ", expected " + to_string(w); }); c.check(k.get(p, 77) == w, n + ": look-up in a constant trie"); c.check(k.get(p.cbegin(), p.cend(), 77) == w && t.get(p.begin(), p.end(), 77) == w, n + ": look-up by iterators"); c.check(t.count(p) == (it != m.end()), n + ": count"); if (it != m.end()) c.check(t[p] == w && t.get(p.cbegin(), p.cend()) == w, n + ": operator[]"); } }
static void tries(mc::Ctx& c, int steps, int nk) { Trie a, b; TM A, B; A[{}] = 0; B[{}] = 0; c.shard_here(); mc::Hash h; for (int s = 0; s < steps; s++) { int q = c.choose(2 * nk + 9); h(q); if (q < 2 * nk) { auto& k = keys[q / 2]; auto& t = q % 2 ? a : b; put(q % 2 ? A : B, k, s + 1); size_t val = s + 1; if (s % 3 == 0) t.insert(k.begin(), k.end(), val); else if (s % 3 == 1) t.emplace(k, (const size_t&)val); else t.emplace(k, s + 1); }
        else switch (q - 2 * nk) { case 0: a = b; A = B; break; case 1: b = a; B = A; break; case 2: a = std::move(b); A = B; b = Trie(); B = {{{}, 0}}; break; case 3: { Trie t(a); b = std::move(t); B = A; break; } case 4: { Trie t(std::move(b)); same(c, t, B, "moved trie"); t.insert(keys[1].begin(), keys[1].end(), 50); b = t; put(B, keys[1], 50); break; } case 5: { Trie& r = a; a = r; break; } case 6: a.clear_children(); { size_t v = A[{}]; A = {{{}, v}}; } break; case 7: { Trie t(a); t.insert(keys[3].begin(), keys[3].end(), 60); t.clear_children(); break; } case 8: for (auto& p : A) a[p.first] += 1, p.second++; break; }
        same(c, a, A, "first trie"); same(c, b, B, "second trie"); }
    if (A.size() > 2 && B.size() > 2) c.interesting(); c.state(h.h); c.outcome(A.size() * 100 + B.size()); }
PART("histories of two tries") { tries(c, c.tier ? 5 : 4, c.tier ? 5 : 6); }
PART("containers of tries") { int n = c.range(1, 4), m = c.choose(1 << 4), d = c.choose(n); c.shard_here(); c.state(mc::mix(n, m * 10 + d)); vector<Trie> v; vector<TM> w; for (int i = 0; i < n; i++) { Trie t; TM x; x[{}] = 0; for (int k = 0; k < 4; k++) if (m >> k & 1) { put(x, keys[(k + i) % 6], 10 * i + k); t.emplace(keys[(k + i) % 6], size_t(10 * i + k)); } v.push_back(t); w.push_back(x); } v.erase(v.begin() + d); w.erase(w.begin() + d); reverse(v.begin(), v.end()); reverse(w.begin(), w.end()); for (size_t i = 0; i < v.size(); i++) same(c, v[i], w[i], "trie in a container"); auto u = v; v.clear(); for (size_t i = 0; i < u.size(); i++) same(c, u[i], w[i], "copied container"); if (n > 2 && m) c.interesting(); }
// disjoint sets
PART("histories of disjoint sets") { int n = 4, steps = 4; if (c.tier) { if (c.flip()) n = 5; else steps = 5; } V par(n); iota(par.begin(), par.end(), 0); vector<int> cls(par.begin(), par.end()); c.shard_here(); mc::Hash h; for (int s = 0; s < steps; s++) { int i = c.choose(n), j = c.choose(n); h(i * 10 + j); bool link = c.flip(); size_t a = bats::find_parent(par, i), b = bats::find_parent(par, j); c.op(2); c.check((a == b) == (cls[i] == cls[j]), "find_parent: connectivity"); c.check(cls[a] == cls[i] && par[a] == a && par[i] == a, "find_parent: root and path compression"); if (link) { par[a] = b; int o = cls[i], w = cls[j]; for (int& x : cls) if (x == o) x = w; } V q = par; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) { V t = q; c.check((bats::find_parent(t, x) == bats::find_parent(t, y)) == (cls[x] == cls[y]), "find_parent: partition"); } } c.state(h.h); set<int> k(cls.begin(), cls.end()); if (k.size() < (size_t)n - 1) c.interesting(); c.outcome(k.size()); }
PART("disjoint-set forests of every shape") { int n = c.range(1, c.tier ? 7 : 6); V par(n); for (int i = 0; i < n; i++) par[i] = c.choose(n); auto root = [&](size_t i) { size_t k = 0; while (par[i] != i && k++ <= (size_t)n) i = par[i]; return i; }; for (int i = 0; i < n; i++) { size_t r = root(i); if (par[r] != r) c.prune(); } c.state(hv(par)); for (int i = 0; i < n; i++) { V t = par; size_t r = bats::find_parent(t, i); c.op(); c.check(r == root(i), "find_parent: root"); size_t x = i; while (par[x] != x) { c.check(t[x] == r, "find_parent: path is not compressed"); x = par[x]; } V sv = par; par = t; for (int j = 0; j < n; j++) { size_t a = root(j); par = sv; c.check(a == root(j), "find_parent changes the partition"); par = t; } par = sv; } if (n > 3) c.interesting(); }
PART("edges of the complete graph") { size_t N = c.range(2, c.tier ? 400 : 120); c.shard_here(); c.state(N); c.interesting(); size_t k = 0; c.check(bats::k_choose_2(N) == N * (N - 1) / 2, "binomial"); for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++, k++) { auto p = bats::binom_to_inds(k, N); c.op(); c.checkf(p.first == i && p.second == j, [&] { return "edge " + to_string(k) + " of " + to_string(N) + " vertices is " + to_string(p.first) + "," + to_string(p.second); }); } }
PART("Rips union-find in every edge order") { int n = c.range(2, 4), m = n * (n - 1) / 2; V o = choose_permutation(c, m); c.shard_here(); c.state(hv(o)); vector<double> val(m); for (int i = 0; i < m; i++) val[o[i]] = i + 0.5; auto pr = bats::rips_union_find_pairs(o, val); vector<int> cls(n); iota(cls.begin(), cls.end(), 0); multiset<double> want, got; vector<pair<int, int>> e; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) e.push_back({i, j}); for (int k = 0; k < m; k++) { auto [i, j] = e[o[k]]; if (cls[i] != cls[j]) { want.insert(k + 0.5); int a = cls[i], b = cls[j]; for (int& x : cls) if (x == a) x = b; } } int inf = 0; c.op(); c.check((int)pr.size() == n, "number of bars"); for (auto& p : pr) { c.check(p.birth == 0 && p.dim == 0, "birth"); if (p.death_ind == bats::NO_IND) inf++; else { got.insert(p.death); c.check(val[o[p.death_ind]] == p.death, "death index"); } } c.check(inf == 1 && got == want, "deaths are not the edges of the minimum spanning tree"); if (n == 4) c.interesting(); c.outcome(mc::mix((uint64_t)*want.rbegin() * 2, m)); }
PART("simplex keys") { V a = choose_list(c, 3, 3), b = choose_list(c, 3, 3); c.shard_here(); c.state(mc::mix(hv(a), hv(b))); bu::SimplexHasher H; c.op(); c.check(H(a) == H(V(a)), "hash of equal keys differs"); if (a == b) c.check(H(a) == H(b), "hash of equal keys differs"); unordered_map<V, size_t, bu::SimplexHasher> m; m[a] = 1; m[b] += 2; c.check(m.size() == (a == b ? 1u : 2u) && m[b] == (a == b ? 3u : 2u), "map keyed by simplices"); ostringstream s; bu::write_simplex(s, a.begin(), a.end()); string l = s.str(); l.pop_back(); V r{8}; bu::read_simplex(l, r); c.check(r == a, "simplex text does not read back"); if (a != b && a.size() > 1) c.interesting(); }

// larger structured inputs
static V pattern_perm(int n, int k, int a) { V p(n); iota(p.begin(), p.end(), 0); switch (k) {
    case 0: { int s = a + 2; while (std::__gcd(s, n) != 1) s++; for (int i = 0; i < n; i++) p[i] = (size_t)((long)i * s + a) % n; break; }
    case 1: reverse(p.begin() + a, p.end()); break;
    case 2: rotate(p.begin(), p.begin() + (n * (a + 1)) / 7 % n, p.end()); break;
    case 3: for (int b = 0; b < n; b += a + 2) reverse(p.begin() + b, p.begin() + min(n, b + a + 2)); break;
    case 4: stable_sort(p.begin(), p.end(), [&](size_t x, size_t y) { return x % (a + 2) < y % (a + 2); }); break;
    case 5: for (int i = 0; i + a + 1 < n; i += 2 * a + 3) swap(p[i], p[i + a + 1]); break; } return p; }
static V pattern_set(int n, int k) { V v; for (int i = 0; i < n; i++) if (k == 0 ? true : k == 1 ? i % 2 : k == 2 ? i % 3 == 0 : k == 3 ? i < n / 2 : k == 4 ? i >= n / 2 : k == 5 ? (i * i) % 7 < 2 : k == 6 ? i % 16 == 15 : i == n - 1) v.push_back(i); return v; }
PART("larger permutations") { static const vector<int> N = {17, 33, 64, 65, 129, 257}; int n = c.pick(N), k = c.choose(6), a = c.range(0, c.tier ? 9 : 4); V p = pattern_perm(n, k, a); c.shard_here(); c.state(hv(p)); c.interesting(); c.check(is_perm(p, n), "pattern"); perm_checks(c, p); signs(c, p); vector<double> d(p.begin(), p.end()); for (auto& x : d) x = x / (a + 1) - 3; if (n < 70) { V q(p); sorting(c, d, q); V r; for (auto x : p) r.push_back(x / 4); vector<int> e; for (auto x : r) e.push_back((int)x - 5); sorting(c, e, r); }
    for (int s = 0; s < 8; s++) { V ind = pattern_set(n, s); below_checks(c, p, ind, 0); reverse(ind.begin(), ind.end()); below_checks(c, p, ind, 1); }
    V q = pattern_perm(n, (k + 1) % 6, a), ip = inverse(p), iq = inverse(q); size_t t = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) t += (ip[i] < ip[j]) != (iq[i] < iq[j]); c.op(); c.check(bats::Kendall_tau(p, q) == t, "Kendall tau distance of larger permutations"); }
PART("larger sorted lists") { static const vector<int> N = {16, 31, 64, 100}; int n = c.pick(N), A = c.choose(8), B = c.choose(8), s = c.choose(3), o = c.choose(3); V a = pattern_set(n, A), b = pattern_set(n, B); for (auto& x : b) x = x * (s + 1) + o; c.shard_here(); mc::Hash h; h(hv(a))(hv(b)); c.state(h.h); c.interesting(); sorted_pair(c, a, b, n * (s + 1) + 4); sorted_pair(c, b, a, n + 2);
    for (size_t t = 0; t <= b.back() + 2; t++) for (size_t off : {size_t(0), b.size() / 2}) { auto g = bu::find_sorted_lt(b.cbegin() + off, b.cend(), t); size_t w = bats::NO_IND; for (size_t i = off; i < b.size(); i++) if (b[i] < t) w = i - off; c.op(); c.check(g == w, "find_sorted_lt of a longer list"); }
    V ind, perm, ti; vector<int> val, tv; map<size_t, int> m; for (int i = 0; i < n; i++) { size_t x = (i * (2 * A + 1) + o) % (B + 3); int v = (i * 5 + s) % 7 - 3; ind.push_back(x); val.push_back(v); } int off = o * 3; V wi(ind.begin(), ind.begin() + off); vector<int> wv(val.begin(), val.begin() + off); for (int i = off; i < n; i++) m[ind[i]] += val[i]; for (auto [k, v] : m) if (v) { wi.push_back(k); wv.push_back(v); } bu::sort_sum_reduce(ind, val, off, perm, ti, tv); c.op(); c.check(ind == wi && val == wv, "sort_sum_reduce of a longer list"); }
PART("larger tries") { int depth = c.range(1, 8), br = c.range(2, 6), n = c.pick(vector<int>{20, 90, 300}), k = c.choose(4); c.shard_here(); c.state(mc::mix(mc::mix(depth, br), n * 4 + k)); c.interesting(); Trie t; TM m; m[{}] = 0; auto key = [&](int i) { V v; int l = 1 + (i * 3 + k) % depth; long x = (long)i * (2 * k + 7); for (int j = 0; j < l; j++) { v.push_back((x % br) * (k == 2 ? 1000003 : 1)); x = x / br + j; } return v; };
    auto look = [&](Trie& t, const TM& m, const string& what) { const Trie& q = t; for (auto& [kk, v] : m) { c.op(); c.checkf(t.get(kk, 777777) == v && q.get(kk, 777777) == v, [&] { return what + ": look-up of " + vs(kk); }); V w = kk; w.push_back(999); c.check(t.get(w, 777777) == 777777, what + ": finds a longer key"); if (kk.size()) { w = kk; w.back() += 500; c.check(t.get(w, 777777) == 777777, what + ": finds an absent key"); } } };
    Trie half; TM hm; for (int i = 0; i < n; i++) { V q = key(i); size_t v = 10 + i; put(m, q, v); if (i % 2) t.insert(q.begin(), q.end(), v); else t.emplace(q, size_t(v)); if (i == n / 2) { half = t; hm = m; } } look(t, m, "trie"); look(half, hm, "copy taken half way"); Trie mv(std::move(half)); look(mv, hm, "moved trie"); t = mv; look(t, hm, "reassigned trie"); }
PART("larger disjoint sets") { static const vector<int> N = {16, 65, 200}; int n = c.pick(N), k = c.choose(6), a = c.range(1, 4), dir = c.choose(3); c.shard_here(); c.state(mc::mix(n * 8 + k, a * 3 + dir)); c.interesting(); V par(n); iota(par.begin(), par.end(), 0); V cls(par); vector<pair<int, int>> e; switch (k) { case 0: for (int i = 0; i + a < n; i++) e.push_back({i, i + a}); break; case 1: for (int i = n - 1 - a; i >= 0; i--) e.push_back({i, i + a}); break; case 2: for (int s = 1; s < n; s *= 2) for (int i = 0; i + s < n; i += 2 * s) e.push_back({i, i + s}); break; case 3: for (int i = 1; i < n; i++) if (i % (a + 1)) e.push_back({0, i}); break; case 4: for (int i = 0; i < n; i++) e.push_back({i, (i * (2 * a + 3) + a) % n}); break; case 5: for (int i = 0; i < n / 2; i++) e.push_back({i, n - 1 - i}); break; }
    int z = 0; for (auto [i, j] : e) { size_t p = bats::find_parent(par, i), q = bats::find_parent(par, j); c.op(2); c.check((p == q) == (cls[i] == cls[j]), "find_parent: connectivity"); c.check(par[p] == p && par[q] == q && cls[p] == cls[i] && cls[q] == cls[j], "find_parent: root"); if (p != q) { bool f = dir == 0 || (dir == 2 && z++ % 2); if (f) par[p] = q; else par[q] = p; size_t o = cls[i], w = cls[j]; for (auto& x : cls) if (x == o) x = w; } } V roots(n, bats::NO_IND); for (int i = 0; i < n; i++) { size_t r = bats::find_parent(par, i); c.check(cls[r] == cls[i], "find_parent: partition"); if (roots[cls[i]] == bats::NO_IND) roots[cls[i]] = r; c.check(roots[cls[i]] == r, "find_parent: two roots for one class"); } }
PART("Rips union-find on more points") { int n = c.range(5, c.tier ? 40 : 16), k = c.choose(6), a = c.range(0, 3); int m = n * (n - 1) / 2; V o = pattern_perm(m, k, a); c.shard_here(); c.state(hv(o)); c.interesting(); vector<double> val(m); for (int i = 0; i < m; i++) val[o[i]] = (i / (a + 1)) + 0.5; auto pr = bats::rips_union_find_pairs(o, val); V cls(n); iota(cls.begin(), cls.end(), 0); multiset<double> want, got; vector<pair<int, int>> e; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) e.push_back({i, j}); for (int q = 0; q < m; q++) { auto [i, j] = e[o[q]]; if (cls[i] != cls[j]) { want.insert(val[o[q]]); size_t x = cls[i], y = cls[j]; for (auto& z : cls) if (z == x) z = y; } } int inf = 0; c.op(); c.check((int)pr.size() == n, "number of bars"); for (auto& p : pr) { c.check(p.birth == 0 && p.dim == 0, "birth"); if (p.death_ind == bats::NO_IND) inf++; else { got.insert(p.death); c.check(val[o[p.death_ind]] == p.death, "death index"); } } c.check(inf == 1 && got == want, "deaths are not the edges of the minimum spanning tree"); }
