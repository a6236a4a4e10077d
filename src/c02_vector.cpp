// C02: sparse vectors against dense vectors over the same field.
#include "bridge.hpp"
using namespace std;
template <class F> using DV = vector<RF<F>>;
template <class F> void same(mc::Ctx& c, const SV<F>& v, const DV<F>& w, const char* what) {
    auto r = rdvec<F>(v, w.size(), c, what); c.op();
    c.checkf(r == w, [&] { return FT<F>::name() + string(" ") + what + ": got " + vstr(r) + ", expected " + vstr(w); });
    size_t nz = 0; for (auto& x : w) nz += !x.zero(); c.checkf(v.nnz() == nz, [&] { return string(what) + ": nnz is wrong"; });
    for (size_t i = 0; i < w.size(); i++) c.checkf(FT<F>::to(v.getval(i)) == w[i] && FT<F>::to(v[i]) == w[i], [&] { return string(what) + ": entry access is wrong"; });
}
template <class F> uint64_t hv(const DV<F>& v) { mc::Hash h; h(v.size() + 100 * FT<F>::order); for (auto& x : v) h(x.key()); return h.h; }
template <class F> DV<F> axpy(DV<F> y, RF<F> a, const DV<F>& x, size_t lo = 0, size_t hi = 1000) { for (size_t i = lo; i < min(hi, y.size()); i++) y[i] = y[i] + a * x[i]; return y; }
template <class F> int alph() { return FT<F>::order ? 0 : 4; }

template <class F> void binary(mc::Ctx& c, int m) {
    auto y = choose_vec<F>(c, m, 4); c.shard_here(); auto x = choose_vec<F>(c, m, 4); c << vstr(y) << vstr(x); c.state(mc::mix(hv<F>(x), hv<F>(y)));
    SV<F> X = mkvec<F>(x), Y = mkvec<F>(y); typename SV<F>::tmp_type tmp;
    for (auto a : FT<F>::alphabet(5)) {
        F A = FT<F>::from(a); auto want = axpy<F>(y, a, x);
        { SV<F> t = Y; t.axpy(A, X); same<F>(c, t, want, "axpy"); }
        { SV<F> t = Y; t.axpy(A, X, tmp); same<F>(c, t, want, "axpy with workspace"); }
        for (size_t lo = 0; lo <= (size_t)m; lo += big_mode() ? 7 : 1) for (size_t hi = lo; hi <= (size_t)m; hi += big_mode() ? 5 : 1) { SV<F> t = Y; t.axpy(A, X, lo, hi, tmp); same<F>(c, t, axpy<F>(y, a, x, lo, hi), "axpy on an index window"); }
        same<F>(c, X * A, axpy<F>(DV<F>(m), a, x), "scalar multiple"); same<F>(c, X.scale(A), axpy<F>(DV<F>(m), a, x), "scale");
        { SV<F> t = X; t.scale_inplace(A); same<F>(c, t, axpy<F>(DV<F>(m), a, x), "scale_inplace"); }
    }
    same<F>(c, Y + X, axpy<F>(y, RF<F>(1), x), "sum"); same<F>(c, X, x, "operand"); 
    RF<F> d(0); size_t ni = 0; for (int i = 0; i < m; i++) { d = d + x[i] * y[i]; ni += !x[i].zero() && !y[i].zero(); }
    c.check(FT<F>::to(X * Y) == d, "dot product"); c.check(X.nnz_intersection(Y) == ni, "number of common non-zeros");
    c.check((X == Y) == (x == y) && (X != Y) == (x != y), "equality of vectors");
    map<F, size_t> ct; Y.coeff_intersection(X, ct); map<uint64_t, size_t> g, w; for (auto& p : ct) g[FT<F>::to(p.first).key()] += p.second; for (int i = 0; i < m; i++) if (!x[i].zero() && !y[i].zero()) w[(y[i] / x[i]).key()]++; c.check(g == w, "counts of proportional entries");
    { DV<F> k; for (auto& a : x) for (auto& b : y) k.push_back(a * b); same<F>(c, X.kron(Y, m), k, "Kronecker product"); }
    if (ni) c.interesting(); c.outcome(hv<F>(axpy<F>(y, RF<F>(1), x)));
}
PART("pairs of vectors, F2") { binary<F2>(c, c.tier ? 6 : 5); }
PART("pairs of vectors, F3") { binary<F3>(c, 4); }
PART("pairs of vectors, F5") { binary<F5>(c, 3); }
PART("pairs of vectors, Q") { binary<QQ>(c, 3); }
PART("pairs of empty vectors") { binary<F2>(c, 0); }
template <class F> void window(mc::Ctx& c, int m) { // y + coeff * x[inds]
    auto x = choose_vec<F>(c, m, 2); vector<size_t> inds; for (int i = 0; i < m; i++) if (c.flip()) inds.push_back(i); c.shard_here(); auto y = choose_vec<F>(c, m, 3); auto co = choose_vec<F>(c, (int)inds.size(), 3);
    c << vstr(y) << vstr(co) << vstr(x) << str(inds); c.state(mc::mix(hv<F>(x), hv<F>(y)));
    vector<F> cf; for (auto& a : co) cf.push_back(FT<F>::from(a)); typename SV<F>::tmp_type tmp; SV<F> t = mkvec<F>(y); t.axpy(mkvec<F>(x), cf, inds, tmp);
    auto w = y; for (size_t i = 0; i < inds.size(); i++) w[i] = w[i] + co[i] * x[inds[i]]; same<F>(c, t, w, "sum of coefficients times selected entries"); c.interesting(); c.outcome(hv<F>(w));
}
PART("coefficient axpy, F2") { window<F2>(c, c.tier ? 5 : 4); }
PART("coefficient axpy, F3") { window<F3>(c, c.tier ? 4 : 3); }

template <class F> struct Step { // one edit applied to both; returns false if not applicable
    mc::Ctx& c; int m; SV<F>& v; DV<F>& w;
    set<int> spread(int m) { set<int> r; int q = c.choose(4); for (int i = 0; i < 9; i++) r.insert(q == 0 ? i : q == 1 ? m + i : q == 2 ? m / 2 + i : i * (m + 8) / 8); return r; }
    void run(int kind) {
        auto al = FT<F>::alphabet(4); auto pickc = [&] { return al[c.choose(al.size())]; };
        m = w.size();
        switch (kind) {
        case 0: { auto p = choose_perm(c, m); v.permute(up(p)); DV<F> u(m); for (int i = 0; i < m; i++) u[p[i]] = w[i]; w = u; break; }
        case 1: { auto p = choose_perm(c, m); v.ipermute(up(p)); DV<F> u(m); for (int i = 0; i < m; i++) u[i] = w[p[i]]; w = u; break; }
        case 2: { if (m < 1) c.prune(); int i = pos(c, m), j = pos(c, m); v.swap_rows(i, j); swap(w[i], w[j]); break; }
        case 3: { if (m < 1) c.prune(); int i = pos(c, m); auto a = pickc(); v.scale_inplace((size_t)i, FT<F>::from(a)); w[i] = a * w[i]; break; }
        case 4: { if (m < 2) c.prune(); int i = pos(c, m), j = pos(c, m); if (i == j) c.prune(); auto a = pickc(), b = pickc(), cc = pickc(), d = pickc(); v.mix_rows(i, j, FT<F>::from(a), FT<F>::from(b), FT<F>::from(cc), FT<F>::from(d)); auto x = a * w[i] + b * w[j], y = cc * w[i] + d * w[j]; w[i] = x; w[j] = y; break; }
        case 5: { int i = pos(c, m + 1), j = posr(c, i, m); auto b = choose_vec<F>(c, j - i, 2); v.set_block(i, j, mkvec<F>(b)); for (int k = i; k < j; k++) w[k] = b[k - i]; break; }
        case 6: { int i = pos(c, m + 1), j = posr(c, i, m); v = v.block(i, j); w = DV<F>(w.begin() + i, w.begin() + j); break; }
        case 7: { v.J(m); reverse(w.begin(), w.end()); break; }
        case 8: { if (m < 1) c.prune(); v.reverse_inds(m - 1); reverse(w.begin(), w.end()); break; }
        case 9: { if (m < 1) c.prune(); v.erase_last_row_of_matrix(m - 1); w.pop_back(); break; }
        case 10: { int k = pos(c, m + 1); if (k < m) v.erase_rows_after(m - k - 1); else v.erase_all(); w.resize(m - k); break; }
        case 11: { int k = pos(c, m + 1); v.erase_initial_rows(k); w.erase(w.begin(), w.begin() + k); break; }
        case 12: { if (m < 1) c.prune(); int k = pos(c, m); v.erase_for_matrix(k); w.erase(w.begin() + k); break; }
        case 13: { if (m < 1) c.prune(); int k = pos(c, m + 1); v.erase_last_rows_of_matrix(m - 1, k); w.resize(m - k); break; }
        case 14: { vector<size_t> ins; vector<F> vals; DV<F> u; int o = 0; int tot = m + 2; if (big_mode()) { auto at = spread(m); for (int i = 0; i < m + 9; i++) if (at.count(i)) { auto a = al[1 + i % (al.size() - 1)]; ins.push_back(i); vals.push_back(FT<F>::from(a)); u.push_back(a); } else u.push_back(w[o++]); v.insert_rows(ins, vals); w = u; break; } auto val = al; for (int i = 0; i < tot; i++) if (ins.size() < 2 && (o >= m || c.flip())) { auto a = al[c.range(1, al.size() - 1)]; ins.push_back(i); vals.push_back(FT<F>::from(a)); u.push_back(a); } else if (o < m) u.push_back(w[o++]); while (o < m) u.push_back(w[o++]); v.insert_rows(ins, vals); w = u; break; }
        case 15: { vector<size_t> ins; DV<F> u; int o = 0; int tot = m + 2; if (big_mode()) { auto at = spread(m); for (int i = 0; i < m + 9; i++) if (at.count(i)) { ins.push_back(i); u.push_back(RF<F>(0)); } else u.push_back(w[o++]); v.insert_rows(ins); w = u; break; } for (int i = 0; i < tot; i++) if (ins.size() < 2 && (o >= m || c.flip())) { ins.push_back(i); u.push_back(RF<F>(0)); } else if (o < m) u.push_back(w[o++]); while (o < m) u.push_back(w[o++]); int nb = 0; while (nb < (int)ins.size() && ins[nb] == (size_t)nb) nb++; v.insert_rows(ins, (size_t)c.choose(nb + 1)); w = u; break; }
        case 16: { auto cl = bits(c, m); if (c.flip()) { typename SV<F>::tmp_type t; v.clear_inds(cl, t); } else v.clear_inds(cl); for (int i = 0; i < m; i++) if (cl[i]) w[i] = RF<F>(0); break; }
        case 17: { auto p = choose_perm(c, m); int k = pos(c, m + 1); vector<size_t> pind(m, bats::NO_IND); DV<F> u(k); for (int i = 0; i < k; i++) { pind[p[i]] = i; u[i] = w[p[i]]; } v = v.subvector(pind); w = u; break; }
        case 18: { vector<size_t> is; DV<F> u; auto sel = bits(c, m); for (int i = 0; i < m; i++) if (sel[i]) { is.push_back(i); u.push_back(w[i]); } v = v[is]; w = u; break; }
        case 19: { int k = c.choose(3); v = v.shift_inds(k); w.insert(w.begin(), k, RF<F>(0)); break; }
        case 20: { vector<F> co; DV<F> u = w; for (int i = 0; i < m; i++) { auto a = al[big_mode() ? 1 + i % (al.size() - 1) : c.range(1, al.size() - 1)]; co.push_back(FT<F>::from(a)); u[i] = u[i] * a; } v.scale_inplace(co); w = u; break; }
        case 21: { auto a = pickc(); v.scale_inplace(FT<F>::from(a)); for (auto& x : w) x = x * a; break; }
        case 22: { auto a = pickc(); auto x = choose_vec<F>(c, m, 3); v.axpy(FT<F>::from(a), mkvec<F>(x)); w = axpy<F>(w, a, x); break; }
        case 23: { auto a = pickc(); v.axpy(FT<F>::from(a), SV<F>(v)); w = axpy<F>(w, a, DV<F>(w)); break; }
        case 24: { v.clear_zeros(); break; }
        case 25: { if (c.flip()) v.clear(); else v.clear_dealloc(); w = DV<F>(m); break; }
        }
    }
};
static const int NK = 26;
template <class F> void single(mc::Ctx& c, int m) {
    auto w = choose_vec<F>(c, m, 3); c.shard_here(); SV<F> v = mkvec<F>(w); c.state(hv<F>(w)); int k = c.choose(NK); c << vstr(w) << " op " << k; Step<F> s{c, m, v, w}; s.run(k); c.state(hv<F>(w));
    static const char* nm[] = {"permute", "ipermute", "swap_rows", "scale entry", "mix_rows", "set_block", "block", "J", "reverse_inds", "erase last row", "erase rows after", "erase initial rows", "erase row", "erase last rows", "insert rows with values", "insert zero rows", "clear_inds", "subvector", "index set", "shift_inds", "scale by coefficients", "scale", "axpy", "axpy with a copy of itself", "clear_zeros", "clear"};
    same<F>(c, v, w, nm[k]); c.interesting(); c.outcome(mc::mix(k, hv<F>(w)));
}
PART("every single edit of every vector, F2") { single<F2>(c, c.range(0, 5)); }
PART("every single edit of every vector, F3") { single<F3>(c, c.range(0, 4)); }
PART("every single edit of every vector, Q") { single<QQ>(c, c.range(1, 3)); }
template <class F> void seqs(mc::Ctx& c, int m, int depth) {
    auto w = choose_vec<F>(c, m, 2); SV<F> v = mkvec<F>(w); c << vstr(w);
    static const int small[] = {2, 3, 4, 5, 6, 7, 12, 11, 15, 17, 19, 21, 22, 23};
    for (int d = 0; d < depth; d++) { int k = small[c.choose(14)]; c << " op " << k; if (d == 0) c.shard_here(); if ((int)w.size() > m + 2) c.prune(); Step<F> s{c, m, v, w}; s.run(k); c.state(hv<F>(w)); same<F>(c, v, w, "edit sequence"); }
    c.interesting(); c.outcome(hv<F>(w));
}
PART("edit sequences, F2") { seqs<F2>(c, 2, c.tier ? 3 : 2); }
PART("edit sequences, F3") { seqs<F3>(c, 2, 2); }
template <class F> void ctors(mc::Ctx& c, int m) {
    vector<int> raw; for (int i = 0; i < m; i++) raw.push_back(c.range(-3, 5)); c.shard_here(); DV<F> w; for (int x : raw) w.push_back(RF<F>(x)); c.state(hv<F>(w)); c << str(raw);
    vector<size_t> ind; vector<F> val; vector<int> iv; vector<tuple<size_t, int>> tup; string line;
    for (int i = 0; i < m; i++) if (!w[i].zero()) { ind.push_back(i); val.push_back(F(raw[i])); iv.push_back(raw[i]); line += to_string(i) + ":" + to_string(raw[i]) + ","; }
    for (int i = m - 1; i >= 0; i--) if (!w[i].zero()) tup.push_back({(size_t)i, raw[i]});
    same<F>(c, SV<F>(ind, val), w, "construction from lists"); same<F>(c, SV<F>(tup), w, "construction from tuples"); { string l = line; same<F>(c, SV<F>(l), w, "construction from a text line"); }
    vector<size_t> ai; for (int i = 0; i < m; i++) ai.push_back(i);
    same<F>(c, SV<F>(ai.begin(), raw.begin(), (size_t)m), w, "construction from iterators over integers");
    same<F>(c, SV<F>(SparseVector<int, size_t>(ai, raw)), w, "construction from an integer vector");
    same<F>(c, SparseVector<int, size_t>(ai, raw).cast_values(F()), w, "cast of an integer vector");
    { vector<nzpair<size_t, F>> p; for (size_t i = 0; i < ind.size(); i++) p.push_back(nzpair<size_t, F>(ind[i], val[i])); same<F>(c, SV<F>(p), w, "construction from pairs"); SV<F> e; for (auto& q : p) e.emplace_back(q.ind, q.val); same<F>(c, e, w, "construction by appending"); }
    { SV<F> v(ind, val); auto zi = v.nzinds(); auto zv = v.nzvals(); auto zs = v.nzs(); c.check(zi == ind && get<0>(zs) == ind && zv.size() == val.size() && get<1>(zs).size() == val.size(), "list of non-zero indices"); for (size_t i = 0; i < val.size(); i++) c.check(zv[i] == val[i] && get<1>(zs)[i] == val[i], "list of non-zero values");
      if (!ind.empty()) c.check(v.firstnz().ind == ind[0] && v.lastnz().ind == ind.back() && v.firstnz().val == val[0] && v.lastnz().val == val.back(), "first and last non-zero");
      for (int i = 0; i <= m; i++) { size_t lo = 0, hi = 0; for (auto k : ind) { lo += k < (size_t)i; hi += k <= (size_t)i; } c.check((size_t)(v.lower_bound(i) - v.nzbegin()) == lo && (size_t)(v.upper_bound(i) - v.nzbegin()) == hi, "lower/upper bound"); auto it = v.find_last_nz(i); c.check(lo == 0 ? it == v.nzend() : it == v.nzbegin() + (lo - 1), "last non-zero below an index"); } }
    RF<F> a(raw.empty() ? 1 : raw[0]); if (!a.zero()) same<F>(c, SV<F>::dense(FT<F>::from(a), m), DV<F>(m, a), "constant vector");
    for (int i = 0; i < m; i++) { DV<F> e(m); e[i] = RF<F>(1); same<F>(c, SV<F>((size_t)i), e, "indicator"); }
    c.interesting(); c.outcome(hv<F>(w));
}
PART("constructors and accessors, F2") { ctors<F2>(c, c.range(0, 3)); }
PART("constructors and accessors, F3") { ctors<F3>(c, c.range(0, 3)); }
PART("constructors and accessors, F5") { ctors<F5>(c, c.range(0, 3)); }
PART("constructors and accessors, Q") { ctors<QQ>(c, c.range(0, 3)); }
PART("larger patterned vectors: pairs") { Big b; int m = c.pick(vector<int>{17, 33, 64}); if (c.flip()) binary<F3>(c, m); else binary<F2>(c, m); }
PART("larger patterned vectors: edits") { Big b; int m = c.pick(vector<int>{17, 33, 64}); if (c.flip()) single<F3>(c, m); else single<F2>(c, m); }
// indices up to the largest index: nothing may be computed in a narrower integer than size_t
PART("widely spaced indices") {
    static const vector<size_t> U{0, 1, 255, 256, 65535, 65536, 2147483647ul, 2147483648ul, 4294967295ul, 4294967296ul, 4294967297ul, 1ul << 40}; typedef map<size_t, RF<F3>> Mp;
    auto ch = [&](int k) { Mp r; int i = -1; for (int q = 0; q < k; q++) { i = c.range(i + 1, (int)U.size() - k + q); r[U[i]] = RF<F3>(1 + (i + q) % 2); } return r; }; Mp x = ch(c.tier ? 4 : 3); c.shard_here(); Mp y = ch(2);
    auto mk = [&](const Mp& m) { vector<size_t> i; vector<F3> v; for (auto& p : m) i.push_back(p.first), v.push_back(FT<F3>::from(p.second)); return SV<F3>(i, v); };
    auto eq = [&](const SV<F3>& v, const Mp& m, const char* w) { c.op(); Mp g; bool sorted = true; size_t last = 0, n = 0; for (auto it = v.nzbegin(); it != v.nzend(); ++it, ++n) { sorted &= !n || it->ind > last; last = it->ind; g[it->ind] = FT<F3>::to(it->val); } c.checkf(sorted && g == m, [&] { return string(w) + ": wrong with large indices"; }); for (auto u : U) { auto f = m.find(u); c.check(FT<F3>::to(v.getval(u)) == (f == m.end() ? RF<F3>(0) : f->second) && FT<F3>::to(v[u]) == FT<F3>::to(v.getval(u)), "entry access at a large index"); } };
    auto clean = [](Mp m) { for (auto it = m.begin(); it != m.end();) if (it->second.zero()) it = m.erase(it); else ++it; return m; };
    auto X = mk(x), Y = mk(y); mc::Hash h; for (auto& p : x) h(p.first); for (auto& p : y) h(p.first); c.state(h.h); eq(X, x, "construction"); c.check((X == Y) == (x == y), "equality");
    for (int a = 0; a < 3; a++) { Mp w = x; for (auto& p : y) w[p.first] = w[p.first] + RF<F3>(a) * p.second; SV<F3> t = X; t.axpy(FT<F3>::from(RF<F3>(a)), Y); eq(t, clean(w), "axpy"); for (size_t lo : U) for (size_t hi : U) if (lo <= hi) { Mp w2 = x; for (auto& p : y) if (p.first >= lo && p.first < hi) w2[p.first] = w2[p.first] + RF<F3>(a) * p.second; SV<F3> s = X; typename SV<F3>::tmp_type tmp; s.axpy(FT<F3>::from(RF<F3>(a)), Y, lo, hi, tmp); eq(s, clean(w2), "axpy on an index window"); } }
    RF<F3> d(0); size_t ni = 0; for (auto& p : x) if (y.count(p.first)) d = d + p.second * y[p.first], ni++; c.check(FT<F3>::to(X * Y) == d && X.nnz_intersection(Y) == ni, "dot product");
    for (size_t u : U) { size_t lo = 0, hi = 0; for (auto& p : x) lo += p.first < u, hi += p.first <= u; c.check((size_t)(X.lower_bound(u) - X.nzbegin()) == lo && (size_t)(X.upper_bound(u) - X.nzbegin()) == hi, "lower/upper bound"); auto it = X.find_last_nz(u); c.check(lo == 0 ? it == X.nzend() : it == X.nzbegin() + (lo - 1), "last non-zero below an index");
        { Mp w; for (auto& p : x) w[p.first + u] = p.second; SV<F3> t = X; auto z = t.shift_inds(u); bool ok = z.nnz() == w.size(); for (auto& p : w) ok &= FT<F3>::to(z.getval(p.first)) == p.second; c.check(ok, "shift"); }
        for (size_t v : U) { SV<F3> t = X; t.swap_rows(u, v); Mp w; for (auto& p : x) w[p.first == u ? v : p.first == v ? u : p.first] = p.second; eq(t, w, "swap of rows"); if (u <= v) { auto B = X.block(u, v); bool ok = true; size_t n = 0; for (auto& p : x) if (p.first >= u && p.first < v) { n++; ok &= FT<F3>::to(B.getval(p.first - u)) == p.second; } c.check(ok && B.nnz() == n, "block"); } }
        { SV<F3> t = X; t.erase_for_matrix(u); Mp w; for (auto& p : x) if (p.first != u) w[p.first - (p.first > u)] = p.second; bool ok = t.nnz() == w.size(); for (auto& p : w) ok &= FT<F3>::to(t.getval(p.first)) == p.second; c.check(ok, "erased row"); }
        { SV<F3> t = X; t.insert_rows(vector<size_t>{u}); bool ok = t.nnz() == x.size(); for (auto& p : x) ok &= FT<F3>::to(t.getval(p.first + (p.first >= u))) == p.second; c.check(ok, "inserted row"); } }
    { SV<F3> t = X; t.J((1ul << 40) + 1); bool ok = t.nnz() == x.size(); size_t last = 0, n = 0; for (auto it = t.nzbegin(); it != t.nzend(); ++it) { ok &= !n++ || it->ind > last; last = it->ind; } for (auto& p : x) ok &= FT<F3>::to(t.getval((1ul << 40) - p.first)) == p.second; c.check(ok, "reversal"); }
    if (ni) c.interesting(); c.outcome(mc::mix(ni, x.size()));
}
