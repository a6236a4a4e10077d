// C27: polynomials, extended gcd, Smith forms and rational canonical form.
#include "bridge.hpp"
using namespace std;
// reference rings
struct ZZ { long long v; ZZ(long long x = 0) : v(x) {} ZZ operator+(ZZ o) const { return v + o.v; } ZZ operator-(ZZ o) const { return v - o.v; } ZZ operator*(ZZ o) const { return v * o.v; } ZZ operator-() const { return -v; } bool operator==(ZZ o) const { return v == o.v; } bool operator!=(ZZ o) const { return v != o.v; } bool zero() const { return v == 0; } bool unit() const { return v == 1 || v == -1; } string str() const { return to_string(v); } };
static pair<ZZ, ZZ> divmod(ZZ a, ZZ b) { return {a.v / b.v, a.v % b.v}; }
template <class R> struct Pol { vector<R> c; Pol() {} Pol(int x) { if (x) c.push_back(R(x)); trim(); } Pol(vector<R> v) : c(v) { trim(); } void trim() { while (!c.empty() && c.back().zero()) c.pop_back(); } R at(size_t i) const { return i < c.size() ? c[i] : R(0); } int deg() const { return (int)c.size() - 1; }
    Pol operator+(const Pol& o) const { vector<R> r; for (size_t i = 0; i < max(c.size(), o.c.size()); i++) r.push_back(at(i) + o.at(i)); return Pol(r); } Pol operator-() const { vector<R> r; for (auto& x : c) r.push_back(-x); return Pol(r); } Pol operator-(const Pol& o) const { return *this + (-o); }
    Pol operator*(const Pol& o) const { vector<R> r(c.size() + o.c.size()); for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < o.c.size(); j++) r[i + j] = r[i + j] + c[i] * o.c[j]; return Pol(r); }
    bool operator==(const Pol& o) const { return c == o.c; } bool operator!=(const Pol& o) const { return !(c == o.c); } bool zero() const { return c.empty(); } bool unit() const { return c.size() == 1; } string str() const { if (c.empty()) return "0"; string s; for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + c[i].str(); return "<" + s + ">"; } };
template <class R> pair<Pol<R>, Pol<R>> divmod(Pol<R> a, const Pol<R>& b) { Pol<R> q; while (a.deg() >= b.deg()) { vector<R> m(a.deg() - b.deg() + 1); m.back() = a.c.back() / b.c.back(); Pol<R> t(m); q = q + t; a = a - t * b; } return {q, a}; }
template <class K> K gcd_(K a, K b) { while (!b.zero()) { auto r = divmod(a, b).second; a = b; b = r; } return a; }
template <class K> bool divs(const K& a, const K& b) { return a.zero() ? b.zero() : divmod(b, a).second.zero(); }
template <class K> bool assoc(const K& a, const K& b) { return divs(a, b) && divs(b, a); }
template <class K> K det(const ref::Mat<K>& A, vector<int> r, vector<int> c) { if (r.empty()) return K(1); K s(0); int i = r[0]; vector<int> rr(r.begin() + 1, r.end()); for (size_t k = 0; k < c.size(); k++) { if (A(i, c[k]).zero()) continue; auto cc = c; cc.erase(cc.begin() + k); auto t = A(i, c[k]) * det(A, rr, cc); s = k % 2 ? s - t : s + t; } return s; }
static vector<vector<int>> subsets(int n, int k) { vector<vector<int>> r; for (int m = 0; m < 1 << n; m++) if (__builtin_popcount(m) == k) { vector<int> v; for (int i = 0; i < n; i++) if (m >> i & 1) v.push_back(i); r.push_back(v); } return r; }
template <class K> K divisor(const ref::Mat<K>& A, int k) { K g(0); for (auto& r : subsets(A.m, k)) for (auto& c : subsets(A.n, k)) g = gcd_(g, det(A, r, c)); return g; }
template <class K> bool unimodular(const ref::Mat<K>& A) { return A.m == A.n && divisor(A, A.n).unit(); }
// library side
template <class K> struct LT; template <> struct LT<ZZ> { typedef int T; static T to(const ZZ& x) { return (int)x.v; } static ZZ from(const T& x) { return x; } };
template <class F> struct LP { typedef UnivariatePolynomial<F> T; typedef Pol<RF<F>> K; static T to(const K& p) { vector<F> v; for (auto& x : p.c) v.push_back(FT<F>::from(x)); return T(v); } static K from(const T& p) { vector<RF<F>> v; for (size_t i = 0; i < p.size(); i++) v.push_back(FT<F>::to(p[i])); return K(v); } };
template <> struct LT<Pol<RF<F2>>> : LP<F2> {}; template <> struct LT<Pol<RF<F3>>> : LP<F3> {}; template <> struct LT<Pol<RF<QQ>>> : LP<QQ> {};
template <class K> ColumnMatrix<SparseVector<typename LT<K>::T>> lib(const ref::Mat<K>& A) { typedef SparseVector<typename LT<K>::T> V; vector<V> col; for (int j = 0; j < A.n; j++) { vector<size_t> ix; vector<typename LT<K>::T> v; for (int i = 0; i < A.m; i++) if (!A(i, j).zero()) { ix.push_back(i); v.push_back(LT<K>::to(A(i, j))); } col.push_back(V(ix, v)); } return ColumnMatrix<V>((size_t)A.m, (size_t)A.n, col); }
template <class K, class M> ref::Mat<K> rd(mc::Ctx& c, const M& A, const string& what) { ref::Mat<K> r((int)A.nrow(), (int)A.ncol()); for (size_t j = 0; j < A.ncol(); j++) { size_t last = 0; bool first = true; for (auto i = A[j].nzbegin(); i != A[j].nzend(); ++i) { c.check(i->ind < A.nrow() && (first || i->ind > last), what + ": bad column"); auto x = LT<K>::from(i->val); c.check(!x.zero(), what + ": explicit zero stored"); if (r.m) r((int)i->ind, (int)j) = x; last = i->ind; first = false; } } return r; }
template <class K> string mstr(const ref::Mat<K>& A) { string s; for (int i = 0; i < A.m; i++) { s += "["; for (int j = 0; j < A.n; j++) s += (j ? " " : "") + A(i, j).str(); s += "]"; } return s; }
template <class K> bool is_poly() { return !is_same<K, ZZ>::value; }
template <class K> bool monic(const K& x) { if constexpr (is_same<K, ZZ>::value) return true; else return x.c.back() == decltype(x.c.back())(1); }

// S is the Smith form of A
template <class K> int smith_form(mc::Ctx& c, const ref::Mat<K>& A, const ref::Mat<K>& S, const string& what) {
    c.op(); c.check(S.m == A.m && S.n == A.n, what + ": shape"); int r = 0; for (int i = 0; i < S.m; i++) for (int j = 0; j < S.n; j++) if (i != j) c.checkf(S(i, j).zero(), [&] { return what + " of " + mstr(A) + " is not diagonal: " + mstr(S); });
    int d = min(S.m, S.n); while (r < d && !S(r, r).zero()) r++; for (int i = r; i < d; i++) c.checkf(S(i, i).zero(), [&] { return what + " of " + mstr(A) + ": a non-zero diagonal entry follows a zero: " + mstr(S); });
    K p(1); for (int k = 0; k < r; k++) { p = p * S(k, k); if (k) c.checkf(divs(S(k - 1, k - 1), S(k, k)), [&] { return what + " of " + mstr(A) + ": a diagonal entry does not divide the next: " + mstr(S); }); c.checkf(monic(S(k, k)), [&] { return what + " of " + mstr(A) + ": diagonal entry is not monic: " + mstr(S); }); c.checkf(assoc(p, divisor(A, k + 1)), [&] { return what + " of " + mstr(A) + ": determinantal divisor of size " + to_string(k + 1) + " is " + divisor(A, k + 1).str() + ": " + mstr(S); }); }
    if (r < d) c.checkf(divisor(A, r + 1).zero(), [&] { return what + " of " + mstr(A) + ": rank is too small: " + mstr(S); }); return r;
}
template <class K> void smith(mc::Ctx& c, const ref::Mat<K>& A, const string& ring) {
    c << mstr(A); mc::Hash h; string t = mstr(A); c.state(hash<string>()(ring + t)); auto M = lib<K>(A); auto N = M; smith_normal_form(N); auto S = rd<K>(c, N, "Smith form"); int r = smith_form<K>(c, A, S, ring + " smith_normal_form"); if (r > 1) c.interesting(); c.outcome(hash<string>()(mstr(S)));
    { auto f = smith_factorization(M); auto R = rd<K>(c, f.R, "R"), C = rd<K>(c, f.C, "C"), D = rd<K>(c, f.S, "S"); string w = ring + " smith_factorization"; smith_form<K>(c, A, D, w); c.checkf(unimodular(R) && unimodular(C), [&] { return w + " of " + mstr(A) + ": a factor is not invertible: " + mstr(R) + " " + mstr(C); }); c.checkf(R * D * C == A, [&] { return w + " of " + mstr(A) + ": factors " + mstr(R) + mstr(D) + mstr(C) + " do not multiply back"; }); c.check(rd<K>(c, f.prod(), "product") == A, w + ": prod() is not the matrix"); }
    { auto [R_, S_] = smith_rows(M); auto R = rd<K>(c, R_, "R"), D = rd<K>(c, S_, "S"); string w = ring + " smith_rows"; int k = smith_form<K>(c, A, D, w); c.checkf(unimodular(R), [&] { return w + " of " + mstr(A) + ": the row factor is not invertible: " + mstr(R); });
      // A = R S C with C invertible: the leading rows of C are determined by R^-1 A
      auto adj = ref::Mat<K>(R.m, R.m); vector<int> all; for (int i = 0; i < R.m; i++) all.push_back(i); K dt = det(R, all, all); for (int i = 0; i < R.m; i++) for (int j = 0; j < R.m; j++) { auto a = all, b = all; a.erase(a.begin() + i); b.erase(b.begin() + j); auto x = det(R, a, b); x = (i + j) % 2 ? -x : x; adj(j, i) = divmod(x, dt).first; } auto B = adj * A; ref::Mat<K> C(k, A.n); bool ok = true; for (int i = 0; i < B.m; i++) for (int j = 0; j < B.n; j++) { if (i >= k) ok &= B(i, j).zero(); else { ok &= divs(D(i, i), B(i, j)); if (ok) C(i, j) = divmod(B(i, j), D(i, i)).first; } } c.checkf(ok && (k == 0 || divisor(C, k).unit()), [&] { return w + " of " + mstr(A) + ": no invertible column factor completes " + mstr(R) + mstr(D); }); }
}
template <class K> ref::Mat<K> pickmat(mc::Ctx& c, int m, int n, const vector<K>& al) { ref::Mat<K> A(m, n); for (auto& x : A.a) x = al[c.choose((int)al.size())]; return A; }
static vector<ZZ> ints(int b) { vector<ZZ> v{0}; for (int i = 1; i <= b; i++) { v.push_back(i); v.push_back(-i); } return v; }
template <class F> vector<Pol<RF<F>>> polys(int deg) { vector<Pol<RF<F>>> r{Pol<RF<F>>()}; auto al = FT<F>::alphabet(3); size_t k = 1; for (int d = 0; d <= deg; d++) k *= al.size(); for (size_t x = 1; x < k; x++) { vector<RF<F>> v; size_t y = x; for (int d = 0; d <= deg; d++) { v.push_back(al[y % al.size()]); y /= al.size(); } r.push_back(Pol<RF<F>>(v)); } return r; }
typedef Pol<RF<F2>> P2; typedef Pol<RF<F3>> P3; typedef Pol<RF<QQ>> PQ;

template <class K> void euclid(mc::Ctx& c, const K& a, const K& b, const string& ring) {
    c.op(); auto A = LT<K>::to(a), B = LT<K>::to(b); auto [x_, y_, g_, w_, z_] = extended_euclidean(A, B); auto x = LT<K>::from(x_), y = LT<K>::from(y_), g = LT<K>::from(g_), w = LT<K>::from(w_), z = LT<K>::from(z_); string n = ring + " extended_euclidean(" + a.str() + "," + b.str() + ")";
    c.checkf(assoc(g, gcd_(a, b)), [&] { return n + ": gcd is " + g.str(); }); c.checkf(a * x + b * y == g, [&] { return n + ": coefficients do not give the gcd"; }); c.checkf(g * w == a && g * z == b, [&] { return n + ": cofactors are wrong"; });
}
PART("extended gcd of every pair") { int k = c.choose(3); if (k == 0) { int b = c.tier ? 60 : 24; int a = c.choose(2 * b + 1) - b; c.shard_here(); for (int e = -b; e <= b; e++) euclid<ZZ>(c, a, e, "Z"); c.state(a + 1000); c.outcome(a); } else if (k == 1) { auto p = polys<F2>(c.tier ? 5 : 4); auto& a = c.pick(p); c.shard_here(); for (auto& b : p) euclid<P2>(c, a, b, "F2[x]"); c.state(hash<string>()(a.str())); } else { auto p = polys<F3>(c.tier ? 3 : 2); auto& a = c.pick(p); c.shard_here(); for (auto& b : p) euclid<P3>(c, a, b, "F3[x]"); c.state(hash<string>()("3" + a.str())); } c.interesting(); }
// polynomial arithmetic
template <class F> void arithmetic(mc::Ctx& c, int deg) {
    typedef Pol<RF<F>> K; typedef UnivariatePolynomial<F> T; auto ps = polys<F>(deg); const K a = c.pick(ps); c.shard_here(); T A = LT<K>::to(a); string r = FT<F>::name() + "[x]: "; auto L = [](const T& t) { return LT<K>::from(t); }; auto eq = [&](const K& got, const K& want, const string& w) { c.checkf(got == want, [&] { return r + w + " is " + got.str() + " instead of " + want.str(); }); };
    c.state(hash<string>()(r + a.str())); if (a.deg() > 0) c.interesting(); c.outcome(a.deg()); eq(L(-A), -a, "-" + a.str()); c.check(A.is_zero() == a.zero() && A.size() == a.c.size() && (a.zero() || ((int)A.degree() == a.deg() && (int)A.dim() == a.deg() && FT<F>::to(A.leading_coeff()) == a.c.back() && A.is_monic() == (a.c.back() == RF<F>(1)))), r + "degree or leading coefficient of " + a.str()); eq(L(T::identity()), K(1), "identity"); eq(L(T::zero()), K(0), "zero");
    for (int k = 0; k <= deg; k++) for (auto s : FT<F>::alphabet(4)) { vector<RF<F>> v(k + 1); v[k] = s; eq(L(T::monomial(k, FT<F>::from(s))), K(v), "monomial"); }
    for (auto s : FT<F>::alphabet(4)) { RF<F> w(0), pw(1); for (auto& x : a.c) { w = w + x * pw; pw = pw * s; } c.op(); c.checkf(FT<F>::to(A(FT<F>::from(s))) == w, [&] { return r + "value of " + a.str() + " at " + s.str(); }); c.check((A == FT<F>::from(s)) == (a == K(vector<RF<F>>{s})) && (A != FT<F>::from(s)) == !(a == K(vector<RF<F>>{s})), r + "comparison with a constant"); }
    c.check((A == 0) == a.zero() && (A != 0) == !a.zero() && (A == 1) == (a == K(1)) && (A != 1) == !(a == K(1)), r + "comparison with 0 or 1");
    for (auto& b : ps) { c.op(); T B = LT<K>::to(b); string n = a.str() + " and " + b.str(); eq(L(A + B), a + b, "sum of " + n); eq(L(A - B), a - b, "difference of " + n); eq(L(A * B), a * b, "product of " + n); c.check((A == B) == (a == b) && (A != B) == !(a == b), r + "comparison of " + n); { T X = A; X += B; eq(L(X), a + b, "in-place sum of " + n); } { T X = A; X -= B; eq(L(X), a - b, "in-place difference of " + n); }
        if (!b.zero()) { auto [q, m] = divmod(a, b); auto [Q, M] = A.divrem(B); eq(L(Q), q, "quotient of " + n); eq(L(M), m, "remainder of " + n); eq(L(A / B), q, "quotient of " + n); eq(L(A.remainder(B)), m, "remainder of " + n); } auto g = L(A.gcd(B)); c.checkf(assoc(g, gcd_(a, b)), [&] { return r + "gcd of " + n + " is " + g.str(); }); }
    { T X = A; X += X; eq(L(X), a + a, "in-place double of " + a.str()); X = A; X -= X; eq(L(X), K(0), "in-place difference with itself"); }
    if (!a.zero() && a.c.back() == RF<F>(1)) { auto m = rdmat<F>(A.companion_matrix(), c, "companion matrix"); int n = a.deg(); bool ok = m.m == n && m.n == n; for (int j = 0; ok && j < n; j++) for (int i = 0; i < n; i++) ok &= m(i, j) == (j == n - 1 ? -a.c[i] : RF<F>(i == j + 1)); c.checkf(ok, [&] { return r + "companion matrix of " + a.str() + " is " + m.str(); });
        for (int k = 0; k < n; k++) { auto v = A(A.companion_matrix(), SV<F>((size_t)k)); c.check(rdvec<F>(v, n, c, "p(A)v") == vector<RF<F>>(n), r + "a polynomial does not vanish on its companion matrix"); } }
}
PART("polynomial arithmetic, F2") { arithmetic<F2>(c, c.tier ? 6 : 4); }
PART("polynomial arithmetic, F3") { arithmetic<F3>(c, c.tier ? 4 : 3); }
PART("polynomial arithmetic, Q") { arithmetic<QQ>(c, c.tier ? 3 : 2); }
// Smith forms
PART("Smith forms of integer matrices, small shapes") { int m = c.range(1, 3), n = c.range(1, 3); if (m * n > 4 && m * n != 6 && m * n != 3) c.prune(); auto A = pickmat<ZZ>(c, m, n, ints(m * n == 6 ? (c.tier ? 3 : 2) : m * n == 4 ? (c.tier ? 8 : 5) : m * n == 3 ? 6 : 20)); c.shard_here(); smith<ZZ>(c, A, "Z"); }
PART("Smith forms of 3x3 integer matrices") { auto A = pickmat<ZZ>(c, 3, 2, ints(c.tier ? 2 : 1)); c.shard_here(); ref::Mat<ZZ> B(3, 3); for (int i = 0; i < 3; i++) { B(i, 0) = A(i, 0); B(i, 1) = A(i, 1); B(i, 2) = ints(1)[c.choose(3)]; if (c.tier) B(i, 2) = B(i, 2) * 2 + (i == 1); } smith<ZZ>(c, B, "Z"); }
PART("Smith forms of integer diagonal and triangular matrices") { static const vector<ZZ> al = {0, 1, 2, -2, 3, 4, 6, -6, 10, 12, 15}; int n = c.tier ? 4 : 3; ref::Mat<ZZ> A(n, n); for (int i = 0; i < n; i++) A(i, i) = al[c.choose(n == 4 ? 9 : (int)al.size())]; c.shard_here(); int k = c.choose(4); if (k) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int v = k == 1 ? (i + j) % 2 : k == 2 ? 2 : i - j; (c.tier && k == 2 ? A(j, i) : A(i, j)) = v; } smith<ZZ>(c, A, "Z"); }
PART("Smith forms of wide and tall integer matrices") { bool wide = c.flip(); ref::Mat<ZZ> A(2, 4); for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) A(i, j) = ints(3)[c.choose(c.tier ? 5 : 3)]; c.shard_here(); smith<ZZ>(c, wide ? A : A.T(), "Z"); }
template <class F> void polysmith(mc::Ctx& c, int m, int n, int deg, int cap) { auto al = polys<F>(deg); if (cap && (int)al.size() > cap) al.resize(cap); auto A = pickmat<Pol<RF<F>>>(c, m, n, al); c.shard_here(); smith<Pol<RF<F>>>(c, A, FT<F>::name() + "[x]"); }
PART("Smith forms of polynomial matrices, F2") { int m = c.range(1, 3), n = c.range(1, 3); if (m * n > 6) c.prune(); polysmith<F2>(c, m, n, m * n == 4 ? (c.tier ? 3 : 2) : m * n == 6 ? 1 : 2, m * n == 6 && !c.tier ? 3 : 0); }
PART("Smith forms of polynomial matrices, F3") { int m = c.range(1, 2), n = c.range(1, 3); polysmith<F3>(c, m, n, m * n <= 2 ? 2 : 1, m * n == 6 ? (c.tier ? 4 : 3) : m * n == 4 ? 9 : 0); }
PART("Smith forms of polynomial matrices, Q") { int m = c.range(1, 2), n = c.range(1, 2); polysmith<QQ>(c, m, n, 1, m * n == 4 && !c.tier ? 5 : 0); }
// rational canonical form
template <class F> RM<F> inverse(const RM<F>& A) { return A.inverse(); }
template <class F> void rcf(mc::Ctx& c, const RM<F>& A) {
    typedef Pol<RF<F>> K; int n = A.n; c << A.str(); c.state(hash<string>()(FT<F>::name() + A.str())); auto L = mkmat<F>(A); string w = FT<F>::name() + " "; ref::Mat<K> X(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X(i, j) = Pol<RF<F>>(i == j ? vector<RF<F>>{-A(i, j), RF<F>(1)} : vector<RF<F>>{-A(i, j)});
    auto M = characteristic_matrix(L); c.op(); c.checkf(rd<K>(c, M, "characteristic matrix") == X, [&] { return w + "characteristic matrix of " + A.str(); }); auto [R_, S_] = smith_rows(M); auto S = rd<K>(c, S_, "S"), R = rd<K>(c, R_, "R"); int r = smith_form<K>(c, X, S, w + "Smith form of the characteristic matrix"); c.check(r == n, w + "characteristic matrix must have full rank");
    auto B_ = generating_basis(R_, L); auto B = rdmat<F>(B_, c, "generating basis"); c.check(B.m == n && B.n == n, w + "generating basis: shape"); for (int j = 0; j < n; j++) { vector<RF<F>> v(n); for (int i = 0; i < n; i++) { vector<RF<F>> e(n); e[i] = RF<F>(1); for (auto& x : R(i, j).c) { for (int k = 0; k < n; k++) v[k] = v[k] + x * e[k]; auto f = vector<RF<F>>(n); for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) f[p] = f[p] + A(p, q) * e[q]; e = f; } } c.check(B.col(j) == v, w + "generating basis: column is not R(A) applied to the standard basis"); if (S(j, j).unit()) c.check(v == vector<RF<F>>(n), w + "generating basis: column of a trivial factor is not zero"); }
    auto Q_ = RCF_basis(S_, L, B_); c.checkf(Q_.nrow() == (size_t)n && Q_.ncol() == (size_t)n, [&] { return w + "canonical basis of " + A.str() + " has shape " + to_string(Q_.nrow()) + "x" + to_string(Q_.ncol()); }); auto Q = rdmat<F>(Q_, c, "canonical basis"); c.checkf(Q.invertible(), [&] { return w + "canonical basis of " + A.str() + " is not invertible: " + Q.str(); });
    RM<F> want(n, n); int o = 0; for (int j = 0; j < n; j++) { int d = S(j, j).deg(); for (int k = 0; k < d; k++) { if (k + 1 < d) want(o + k + 1, o + k) = RF<F>(1); want(o + k, o + d - 1) = -S(j, j).c[k] + (k + 1 < d ? RF<F>(0) : RF<F>(0)); } if (d > 1) for (int k = 0; k < d; k++) want(o + k, o + d - 1) = -S(j, j).c[k]; o += d; }
    c.check(o == n, w + "degrees of the invariant factors do not add up"); c.checkf(Q.inverse() * A * Q == want, [&] { return w + "canonical form of " + A.str() + " is " + (Q.inverse() * A * Q).str() + " instead of " + want.str(); }); int big = 0; for (int j = 0; j < n; j++) big += S(j, j).deg() > 0; if (big > 1) c.interesting(); c.outcome(hash<string>()(want.str()));
    auto f = smith_factorization(M); c.check(rd<K>(c, f.S, "S") == S, w + "smith_rows and smith_factorization disagree");
}
PART("rational canonical form, F2") { int n = c.range(1, c.tier ? 4 : 3); auto A = choose_mat<F2>(c, n, n, 2); c.shard_here(); rcf<F2>(c, A); }
PART("rational canonical form, F3") { int n = c.range(1, c.tier ? 3 : 2); auto A = choose_mat<F3>(c, n, n, 3); c.shard_here(); rcf<F3>(c, A); }
PART("rational canonical form, block matrices over F2 and F3") { int n = c.tier ? 5 : 4; bool three = c.flip(); vector<vector<int>> comp; int left = n; while (left > 0) { int d = 1 + c.choose(left); vector<int> p; for (int i = 0; i < d; i++) p.push_back(c.choose(three && n < 5 ? 3 : 2)); comp.push_back(p); left -= d; } c.shard_here(); auto go = [&](auto F_) { typedef decltype(F_) F; RM<F> A(n, n); int o = 0; for (auto& p : comp) { int d = p.size(); for (int k = 0; k < d; k++) { if (k + 1 < d) A(o + k + 1, o + k) = RF<F>(1); A(o + k, o + d - 1) = A(o + k, o + d - 1) + RF<F>(p[k]); } o += d; } rcf<F>(c, A); }; if (three) go(F3()); else go(F2()); }
// larger matrices, families
PART("Smith forms of larger integer matrices") { Big big; int m = 4 + c.choose(2), n = 4 + c.choose(2); auto& P = patterns(); auto p = P[c.choose((int)P.size())]; int al = c.choose(4); c.shard_here(); static const int V[4][5] = {{1, -1, 2, -2, 3}, {2, 4, -6, 12, 8}, {3, 5, -7, 2, 10}, {6, 10, 15, -30, 1}}; ref::Mat<ZZ> A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (p.on(i, j)) A(i, j) = V[al][(i * 3 + j * j) % 5]; smith<ZZ>(c, A, "Z"); }
PART("rational canonical forms of larger matrices") { Big big; int n = 5 + c.choose(c.tier ? 3 : 2); int f = c.choose(2); auto go = [&](auto F_) { typedef decltype(F_) F; auto A = choose_mat<F>(c, n, n, 3); c.shard_here(); rcf<F>(c, A); }; if (f == 0) go(F2()); else go(F3()); }
PART("Smith forms of larger polynomial matrices") { Big big; int n = 3 + c.choose(2); int f = c.choose(2); auto go = [&](auto F_) { typedef decltype(F_) F; typedef Pol<RF<F>> K; auto a = choose_mat<F>(c, n, n, 3); int sh = c.choose(4); c.shard_here(); ref::Mat<K> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!a(i, j).zero()) { vector<RF<F>> v((i * sh + j) % 3 + 1); v.back() = a(i, j); if (sh == 2) v[0] = RF<F>(1); A(i, j) = K(v); } smith<K>(c, A, FT<F>::name() + "[x]"); }; if (f == 0) go(F2()); else go(F3()); }
