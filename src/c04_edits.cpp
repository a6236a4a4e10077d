// C04: structural edits of column matrices.  One transition relation (edit) applied to the real
// matrix and to a dense model; explored from every state in the bound, and in sequences.
#include "bridge.hpp"
using namespace std;
template <class F> struct Ed {
    typedef RF<F> R; typedef RM<F> D; mc::Ctx& c; CM<F>& A; D& a; int K; string log;
    Ed(mc::Ctx& c, CM<F>& A, D& a, int K) : c(c), A(A), a(a), K(K) {}
    int vq = -1; // in the larger mode: shape of the next vector
    R el() { if (big_mode()) { auto al = FT<F>::alphabet(K); return c.flip() ? al[1] : al.back(); } auto al = FT<F>::alphabet(K); return al[c.choose((int)al.size())]; }
    R unit() { auto al = FT<F>::alphabet(K); return al[1 + c.choose((int)al.size() - 1)]; }
    vector<R> units(int n) { auto al = FT<F>::alphabet(K); vector<R> v(n); for (int i = 0; i < n; i++) v[i] = big_mode() ? al[1 + i % (al.size() - 1)] : unit(); return v; }
    vector<R> vec(int n) { if (big_mode()) { auto al = FT<F>::alphabet(K); vector<R> v(n); if (vq < 0) vq = c.choose(3); int q = vq++ % 3; for (int i = 0; i < n; i++) v[i] = q == 0 || (q == 1 && i % 3 == 1) ? al[1 + i % (al.size() - 1)] : R(0); return v; } vector<R> v(n); for (auto& x : v) x = el(); return v; }
    vector<F> dv(const vector<R>& v) { vector<F> r; for (auto& x : v) r.push_back(FT<F>::from(x)); return r; }
    F f(R x) { return FT<F>::from(x); }
    vector<size_t> finals(int n, int k) { vector<size_t> r; if (big_mode()) { int q = c.choose(4); for (int i = 0; i < k; i++) r.push_back(q == 0 ? i : q == 1 ? n - k + i : q == 2 ? (n - k) / 2 + i : i * (n - 1) / max(1, k - 1)); return r; } for (int i = 0; i < n && (int)r.size() < k; i++) if (n - i == k - (int)r.size() || c.flip()) r.push_back(i); return r; } // increasing, size k out of n
    D insrows(const vector<size_t>& at, const vector<vector<R>>& rows) { D w(a.m + (int)at.size(), a.n); int o = 0; size_t q = 0; for (int i = 0; i < w.m; i++) { if (q < at.size() && (int)at[q] == i) { for (int j = 0; j < a.n; j++) w(i, j) = rows[q][j]; q++; } else { for (int j = 0; j < a.n; j++) w(i, j) = a(o, j); o++; } } return w; }
    D inscols(const vector<size_t>& at, const vector<vector<R>>& cols) { D t = a.T(); swap(a, t); D w = insrows(at, cols).T(); swap(a, t); return w; }
    D delrow(int i) { vector<int> k; for (int r = 0; r < a.m; r++) if (r != i) k.push_back(r); return a.permrows(k); }
    D delcol(int i) { vector<int> k; for (int r = 0; r < a.n; r++) if (r != i) k.push_back(r); return a.permcols(k); }
    void need(bool b) { if (!b) c.prune(); }
    static const int N = 40;
    void step() {
        int m = a.m, n = a.n, op = c.choose(N); vq = -1; log += " op" + to_string(op); c << (" op" + to_string(op)); c.op();
        switch (op) {
        case 0: { need(m); int i = pos(c, m), j = pos(c, m); A.swap_rows(i, j); for (int k = 0; k < n; k++) swap(a(i, k), a(j, k)); break; }
        case 1: { need(n); int i = pos(c, n), j = pos(c, n); A.swap_cols(i, j); for (int k = 0; k < m; k++) swap(a(k, i), a(k, j)); break; }
        case 2: { auto p = choose_perm(c, m); A.permute_rows(up(p)); D w(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w(p[i], j) = a(i, j); a = w; break; }
        case 3: { auto p = choose_perm(c, m); A.ipermute_rows(up(p)); a = a.permrows(p); break; }
        case 4: { auto p = choose_perm(c, n); A.permute_cols(up(p)); D w(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w(i, p[j]) = a(i, j); a = w; break; }
        case 5: { auto p = choose_perm(c, n); A.ipermute_cols(up(p)); a = a.permcols(p); break; }
        case 6: { auto p = choose_perm(c, m), q = choose_perm(c, n); A.permute(up(p), up(q)); D w(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w(p[i], q[j]) = a(i, j); a = w; break; }
        case 7: { auto v = units(m); A.row_scale(dv(v)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = v[i] * a(i, j); break; }
        case 8: { auto v = units(n); A.col_inv_scale(dv(v)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = a(i, j) / v[j]; break; }
        case 9: { need(m > 1); int i = pos(c, m), j = pos(c, m); need(i != j); R p = el(), q = el(), r = el(), s = el(); A.mix_rows(i, j, f(p), f(q), f(r), f(s)); for (int k = 0; k < n; k++) { R x = a(i, k), y = a(j, k); a(i, k) = p * x + q * y; a(j, k) = r * x + s * y; } break; }
        case 10: { need(n > 1); int i = pos(c, n), j = pos(c, n); need(i != j); R p = el(), q = el(), r = el(), s = el(); A.mix_cols(i, j, f(p), f(q), f(r), f(s)); for (int k = 0; k < m; k++) { R x = a(k, i), y = a(k, j); a(k, i) = p * x + r * y; a(k, j) = q * x + s * y; } break; }
        case 11: { auto v = vec(m); SV<F> x = mkvec<F>(v); A.append_column(x); a = inscols({(size_t)n}, {v}); break; }
        case 12: { A.append_column(); a = inscols({(size_t)n}, {vector<R>(m)}); break; }
        case 13: { A.append_row(); a = insrows({(size_t)m}, {vector<R>(n)}); break; }
        case 14: { auto v = vec(n); A.append_row(dv(v)); a = insrows({(size_t)m}, {v}); break; }
        case 15: { auto v = vec(n); A.append_sparse_row(mkvec<F>(v)); a = insrows({(size_t)m}, {v}); break; }
        case 16: { size_t k = pos(c, n + 1); auto v = vec(m); A.insert_column(k, mkvec<F>(v)); a = inscols({k}, {v}); break; }
        case 17: { size_t k = pos(c, n + 1); A.insert_column(k); a = inscols({k}, {vector<R>(m)}); break; }
        case 18: { int q = big_mode() ? c.choose(3) * 9 : c.choose(3); auto at = finals(n + q, q); vector<vector<R>> v; vector<SV<F>> s; for (int i = 0; i < q; i++) { v.push_back(vec(m)); s.push_back(mkvec<F>(v.back())); } A.insert_columns(at, s); a = inscols(at, v); break; }
        case 19: { size_t k = pos(c, m + 1); auto v = vec(n); A.insert_row(k, dv(v)); a = insrows({k}, {v}); break; }
        case 20: { size_t k = pos(c, m + 1); A.insert_row(k); a = insrows({k}, {vector<R>(n)}); break; }
        case 21: { int q = big_mode() ? c.choose(3) * 9 : c.choose(4); auto at = finals(m + q, q); A.insert_rows(at); a = insrows(at, vector<vector<R>>(q, vector<R>(n))); break; }
        case 22: case 23: case 24: { int q = big_mode() ? c.choose(3) * 9 : c.choose(3); auto at = finals(m + q, q); vector<vector<R>> v; vector<SV<F>> s; vector<vector<size_t>> ix; vector<vector<F>> vals; for (int i = 0; i < q; i++) { v.push_back(vec(n)); s.push_back(mkvec<F>(v.back())); ix.emplace_back(); vals.emplace_back(); for (int j = 0; j < n; j++) if (!v.back()[j].zero()) { ix.back().push_back(j); vals.back().push_back(f(v.back()[j])); } }
            if (op == 22) A.insert_rows(at, s); if (op == 23) A.insert_rows(at, ix, vals); if (op == 24) A.insert_sparse_rows(at, s); a = insrows(at, v); break; }
        case 25: { need(n); int k = pos(c, n); A.erase_column(k); a = delcol(k); break; }
        case 26: { need(n); A.erase_column(); a = delcol(n - 1); break; }
        case 27: { int k = pos(c, n + 1); A.erase_final_columns(k); a = a.block(0, m, 0, n - k); break; }
        case 28: { int k = pos(c, n + 1); A.erase_initial_cols(k); a = a.block(0, m, k, n); break; }
        case 29: { need(m); int k = pos(c, m); A.erase_row(k); a = delrow(k); break; }
        case 30: { need(m); A.erase_row(); a = delrow(m - 1); break; }
        case 31: { int k = pos(c, m + 1); A.erase_rows(k); a = a.block(0, m - k, 0, n); break; }
        case 32: { int k = pos(c, m + 1); A.erase_initial_rows(k); a = a.block(k, m, 0, n); break; }
        case 33: { int k = pos(c, m + 1); need(a.block(m - k, m, 0, n).iszero()); if (k == 1 && c.flip()) A.erase_row_unsafe(); else A.erase_final_rows_unsafe(k); a = a.block(0, m - k, 0, n); break; }
        case 34: { int i0 = pos(c, m + 1), i1 = posr(c, i0, m), j0 = pos(c, n + 1), j1 = posr(c, j0, n); D b(i1 - i0, j1 - j0); for (auto& x : b.a) { if (big_mode()) break; x = el(); } if (big_mode()) pattern_fill(c, b, FT<F>::alphabet(K)); A.set_block(i0, i1, j0, j1, mkmat<F>(b)); for (int i = i0; i < i1; i++) for (int j = j0; j < j1; j++) a(i, j) = b(i - i0, j - j0); break; }
        case 35: { auto z = bits(c, m); A.clear_rows(z); for (int i = 0; i < m; i++) if (z[i]) for (int j = 0; j < n; j++) a(i, j) = R(0); break; }
        case 36: { auto z = bits(c, n); A.clear_cols(z); for (int j = 0; j < n; j++) if (z[j]) for (int i = 0; i < m; i++) a(i, j) = R(0); break; }
        case 37: { bool cp = c.flip(); if (cp) A = A.J_left(); else A.J_left_inplace(); D w(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w(i, j) = a(m - 1 - i, j); a = w; break; }
        case 38: { int cp = c.choose(4); if (cp == 0) A = A.J_right(); else if (cp == 1) A.J_right_inplace(); else if (cp == 2) A = A.J_conjugation(); else A.J_conjugation_inplace(); D w(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w(i, j) = a(cp >= 2 ? m - 1 - i : i, n - 1 - j); a = w; break; }
        case 39: { need(m && n); int i = pos(c, m), j = pos(c, n); need(!a(i, j).zero()); A.schur_complement(i, j); for (int k = j + 1; k < n; k++) for (int r = i + 1; r < m; r++) a(r, k) = a(r, k) - a(i, k) / a(i, j) * a(r, j); break; }
        }
        check();
    }
    void check() {
        c.checkf((int)A.nrow() == a.m && (int)A.ncol() == a.n && (int)A.cols().size() == a.n, [&] { return FT<F>::name() + " after" + log + ": shape " + to_string(A.nrow()) + "x" + to_string(A.ncol()) + " expected " + to_string(a.m) + "x" + to_string(a.n); });
        auto r = rdmat<F>(A, c, log.c_str()); c.checkf(r == a, [&] { return FT<F>::name() + " after" + log + ": got " + r.str() + " expected " + a.str(); });
    }
};
template <class F> void edits(mc::Ctx& c, int mmax, int nmax, int K, int depth) {
    int m = dim(c, mmax), n = dim(c, nmax); auto a = choose_mat<F>(c, m, n, K); c.shard_here(); c << a.str(); CM<F> A = mkmat<F>(a); Ed<F> e(c, A, a, K);
    for (int d = 0; d < depth; d++) { c.state(mc::mix(a.hash(), FT<F>::order)); e.step(); c.outcome(mc::mix(a.hash(), FT<F>::order)); } c.interesting();
}
PART("every edit from every matrix up to 3x3, F2") { edits<F2>(c, 3, 3, 2, 1); }
PART("every edit from every matrix up to 2x2, F3") { edits<F3>(c, 2, 2, 3, 1); }
PART("every edit from every matrix up to 2x2, Q") { edits<QQ>(c, 2, 2, 4, 1); }
PART("edit pairs, F2") { edits<F2>(c, c.tier ? 2 : 1, 2, 2, 2); }
PART_THOROUGH("edit pairs on 1x1 and 1x2, F3") { edits<F3>(c, 1, 2, 3, 2); }
PART_THOROUGH("every edit from every matrix up to 3x4, F2") { edits<F2>(c, 3, 4, 2, 1); }
PART_THOROUGH("every edit from every matrix up to 2x3, F3") { edits<F3>(c, 2, 3, 3, 1); }
PART_THOROUGH("edit triples on 1x2, F2") { edits<F2>(c, 1, 2, 2, 3); }
PART("every edit from larger patterned matrices") { Big b; if (c.flip()) edits<F2>(c, 34, 18, 2, 1); else edits<F3>(c, 18, 34, 3, 1); }
