// C05: triangular solves, triangular inverses and shape predicates.
#include "bridge.hpp"
using namespace std;
template <class F> RM<F> choose_tri(mc::Ctx& c, int n, int k, bool upper) { auto al = FT<F>::alphabet(k); RM<F> M(n, n); if (big_mode()) { pattern_fill(c, M, al); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (i != j && (i < j) != upper) M(i, j) = RF<F>(0); if (M(i, i).zero()) M(i, i) = al[1 + i % (al.size() - 1)]; } return M; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j) M(i, j) = al[1 + c.choose((int)al.size() - 1)]; else if ((i < j) == upper) M(i, j) = al[c.choose((int)al.size())]; return M; }
template <class F> void solves(mc::Ctx& c, int nmax, int k, int krhs) {
    int n = dim(c, nmax); bool upper = c.flip(); auto t = choose_tri<F>(c, n, k, upper); c.shard_here(); c << t.str(); c.state(mc::mix(t.hash(), upper)); auto inv = t.inverse(); const CM<F> T = mkmat<F>(t);
    auto al = FT<F>::alphabet(krhs); int q = (int)al.size(); long tot = 1; if (big_mode()) tot = 12; else for (int i = 0; i < n; i++) tot *= q;
    RM<F> B(n, (int)tot);
    for (long s = 0; s < tot; s++) { vector<RF<F>> y(n); long u = s; for (int i = 0; i < n; i++) { y[i] = big_mode() ? patterns()[s].on(i, s) ? al[1 + i % (q - 1)] : RF<F>(0) : al[u % q]; u /= q; B(i, (int)s) = y[i]; } SV<F> Y = mkvec<F>(y); SV<F> X = upper ? u_solve(T, Y) : l_solve(T, Y); c.op();
        auto x = rdvec<F>(X, n, c, "triangular solve"); RM<F> yy(n, 1), xx(n, 1); for (int i = 0; i < n; i++) yy(i, 0) = y[i], xx(i, 0) = x[i]; c.checkf(xx == inv * yy, [&] { return FT<F>::name() + " solve with " + t.str() + " and right-hand side " + yy.str() + " gave " + xx.str(); }); c.check(rdvec<F>(Y, n, c, "rhs") == y, "right-hand side changed"); }
    auto M = upper ? u_solve(T, mkmat<F>(B)) : l_solve(T, mkmat<F>(B)); c.op(); c.check(rdmat<F>(M, c, "matrix solve") == inv * B, "solve with a matrix right-hand side");
    auto I = upper ? u_inv(T) : l_inv(T); c.op(); c.check(rdmat<F>(I, c, "triangular inverse") == inv, "triangular inverse"); c.check(rdmat<F>(T, c, "T") == t, "triangular matrix changed");
    c.check(upper ? T.is_upper() && T.is_upper_invert() : T.is_lower(), "triangular matrix not recognised"); c.interesting(); c.outcome(inv.hash());
}
PART("triangular solves, F2") { solves<F2>(c, c.tier ? 5 : 4, 2, 2); }
PART("triangular solves, F3") { solves<F3>(c, c.tier ? 4 : 3, 3, 3); }
PART("triangular solves, F5") { solves<F5>(c, c.tier ? 3 : 2, 5, 5); }
PART("triangular solves, Q") { solves<QQ>(c, 3, c.tier ? 5 : 4, 3); }
template <class F> void inverse(mc::Ctx& c, int nmax, int k) { int n = dim(c, nmax); auto a = big_mode() ? RM<F>() : choose_mat<F>(c, n, n, k); if (big_mode()) { auto l = choose_tri<F>(c, n, k, false); a = l * choose_tri<F>(c, n, k, true).permrows(choose_perm(c, n)); } if (!a.invertible()) c.prune(); c.shard_here(); c << a.str(); c.state(a.hash()); auto I = inv(mkmat<F>(a)); c.op(); c.checkf(rdmat<F>(I, c, "inverse") == a.inverse(), [&] { return FT<F>::name() + " inverse of " + a.str() + " is not " + rdmat<F>(I, c, "inverse").str(); }); c.interesting(); c.outcome(I.nnz()); }
PART("inverse of any invertible matrix, F2") { inverse<F2>(c, c.tier ? 4 : 3, 2); }
PART("inverse of any invertible matrix, F3") { inverse<F3>(c, c.tier ? 3 : 2, 3); }
PART("inverse of any invertible matrix, Q") { inverse<QQ>(c, c.tier ? 3 : 2, c.tier ? 4 : 4); }
template <class R> bool el(const ref::Mat<R>& a) { int last = -1, j = 0; for (; j < a.n; j++) { int cnt = 0, at = -1; for (int i = 0; i < a.m; i++) if (!a(i, j).zero()) cnt++, at = i; if (!cnt) break; if (cnt > 1 || at <= last) return false; last = at; } for (; j < a.n; j++) for (int i = 0; i < a.m; i++) if (!a(i, j).zero()) return false; return true; }
template <class R> ref::Mat<R> jc(const ref::Mat<R>& a) { ref::Mat<R> w(a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) w(i, j) = a(a.m - 1 - i, a.n - 1 - j); return w; }
template <class F> void preds_of(mc::Ctx& c, const RM<F>& a) {
    int m = a.m, n = a.n; c << a.str(); c.state(a.hash()); const CM<F> A = mkmat<F>(a); c.op(9);
    bool up = a.upper(), lo = a.lower(), ui = up && m == n && a.invertible(), red = true, piv = true; map<int, int> low;
    for (int j = 0; j < n; j++) { int l = -1, cnt = 0; for (int i = 0; i < m; i++) if (!a(i, j).zero()) l = i, cnt++; if (l >= 0 && low[l]++) red = false; if (cnt > 1) piv = false; }
    for (int i = 0; i < m; i++) { int cnt = 0; for (int j = 0; j < n; j++) cnt += !a(i, j).zero(); if (cnt > 1) piv = false; }
    auto t = [&](bool got, bool want, const char* w) { c.checkf(got == want, [&] { return FT<F>::name() + string(" ") + w + " says " + (got ? "true" : "false") + " on " + a.str(); }); };
    t(A.is_upper(), up, "is_upper"); t(A.is_lower(), lo, "is_lower"); t(A.is_upper_invert(), ui, "is_upper_invert"); t(A.is_reduced(), red, "is_reduced"); t(A.is_pivot_matrix(), piv, "is_pivot_matrix");
    t(A.is_EL(), el(a), "is_EL"); t(A.is_EU(), el(a.T()), "is_EU"); t(A.is_ELhat(), el(jc(a).T()), "is_ELhat"); t(A.is_EUhat(), el(jc(a)), "is_EUhat"); t(A.is_zero(), a.iszero(), "is_zero");
    c.check(rdmat<F>(A, c, "A") == a, "predicate changed the matrix"); if (el(a) || up) c.interesting(); c.outcome(up + 2 * lo + 4 * ui + 8 * red + 16 * piv + 32 * el(a) + 64 * el(a.T()));
}
template <class F> void preds(mc::Ctx& c, int mmax, int nmax, int k) { int m = dim(c, mmax), n = dim(c, nmax); auto a = choose_mat<F>(c, m, n, k); c.shard_here(); preds_of<F>(c, a); }
PART("shape predicates, F2") { preds<F2>(c, c.tier ? 5 : 4, 4, 2); }
PART("shape predicates, F3") { preds<F3>(c, 3, c.tier ? 4 : 3, c.tier ? 3 : 3); }
PART("shape predicates, Q") { preds<QQ>(c, 2, 3, 3); }
PART("larger patterned triangular solves and inverses") { Big b; int w = c.choose(4); if (w == 0) solves<F2>(c, 33, 2, 2); if (w == 1) solves<F3>(c, 20, 3, 3); if (w == 2) solves<F5>(c, 18, 5, 5); if (w == 3) { if (c.flip()) inverse<F2>(c, 20, 2); else inverse<F3>(c, 12, 3); } }
PART("shape predicates of larger patterned matrices") { // a triangular or echelon pattern with one entry changed
    Big b; int m = dim(c, 18), n = dim(c, 20); RM<F3> a(m, n); int w = c.choose(5), st = c.range(1, 2); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = RF<F3>(w == 0 ? i <= j : w == 1 ? i >= j : w == 2 ? i == st * j : w == 3 ? st * i == j : i == j); if (c.flip()) a = jc(a); c.shard_here(); if (c.flip()) { int i = c.choose(m), j = c.choose(n); a(i, j) = a(i, j) + RF<F3>(1 + c.choose(2)); } preds_of<F3>(c, a); }
