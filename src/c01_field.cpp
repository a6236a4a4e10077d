// C01: coefficient fields against exact integer / fraction arithmetic.
#include <sstream>
#include <limits>
#include <numeric>
#include <vector>
#include <set>
#include <linalg/field.hpp>
#include "mc.hpp"
#include "ref.hpp"
#include <climits>
using namespace std;
typedef __int128 W;
static long long md(W x, long long p) { x %= p; if (x < 0) x += p; return (long long)x; }
static long long inv(long long a, long long p) { for (long long r = 1, b = a, e = p - 2;; ) { r = 1; while (e) { if (e & 1) r = md((W)r * b, p); b = md((W)b * b, p); e >>= 1; } return r; } }

// every machine integer the harness uses: all near 0 and near multiples of p, and the extremes of the type
template <class I> vector<long long> ints(long long p, int tier) {
    set<long long> s; long long lim = p <= 13 ? (tier ? 4 * p + 2 : 2 * p + 2) : 3;
    for (long long i = -lim; i <= lim; i++) s.insert(i);
    for (long long k : {-3, -2, -1, 1, 2, 3}) for (long long d = -1; d <= 1; d++) s.insert(k * p + d);
    s.insert(p / 2); s.insert(p / 2 + 1); s.insert(-p / 2 - 1); s.insert(1000); s.insert(-1000); s.insert(46341); s.insert(-65537);
    long long lo = numeric_limits<I>::min(), hi = numeric_limits<I>::max();
    for (long long d = 0; d <= 2; d++) { s.insert(lo + d); s.insert(hi - d); }
    s.insert(lo / 2); s.insert(hi / 2 + 1);
    vector<long long> v; for (auto x : s) if (x >= lo && x <= hi) v.push_back(x); return v;
}
template <class I, unsigned P> void pair_case(mc::Ctx& c) {
    typedef ModP<I, P> F; auto al = ints<I>(P, c.tier);
    long long x = c.pick(al); c.shard_here(); long long y = c.pick(al);
    c << "F" << P << " " << x << " " << y; c.state(mc::mix(mc::mix(P, md(x, P)), md(y, P) * 2 + (sizeof(I) > 4)));
    long long a = md(x, P), b = md(y, P); F A((I)x), B((I)y); c.op(20);
    auto is = [&](const F& f, W want, const char* what) {
        long long w = md(want, P);
        c.checkf((long long)f.to_int() == w, [&] { return string("F") + to_string(P) + " " + what + " of " + to_string(x) + ", " + to_string(y) + ": to_int " + to_string((long long)f.to_int()) + ", expected " + to_string(w); });
        c.checkf(f.iszero() == (w == 0) && (f == (int)w) && !(f != (int)w) && (f == F((I)w)) && !(f != F((I)w)), [&] { return string("F") + to_string(P) + " " + what + " of " + to_string(x) + ", " + to_string(y) + ": comparison with its own residue fails"; });
        ostringstream o; o << f; c.checkf(o.str() == to_string(w), [&] { return string("F") + to_string(P) + " " + what + ": prints as " + o.str(); });
    };
    is(A, a, "construction"); is(B, b, "construction"); is(F(), 0, "default construction");
    { F t; t = (int)y == y ? F((I)y) : F((I)y); is(t, b, "assignment"); }
    if (y >= INT_MIN && y <= INT_MAX) { F t((I)x); t = (int)y; is(t, b, "assignment of an int"); t = A; is(t, a, "assignment"); 
        c.checkf((A == (int)y) == (a == b) && (A != (int)y) == (a != b), [&] { return "F" + to_string(P) + ": comparing residue of " + to_string(x) + " with plain integer " + to_string(y); });
        is(A + (int)y, a + b, "sum with an int"); is(A * (int)y, (W)a * b, "product with an int"); is(A - (int)y, a - b, "difference with an int");
        if (b) is(A / (int)y, (W)a * inv(b, P), "quotient with an int"); }
    c.check((A == B) == (a == b) && (A != B) == (a != b), "equality of residues"); 
    c.check((A < B) == (a < b), "order of residues");
    is(A + B, a + b, "sum"); is(A - B, a - b, "difference"); is(A * B, (W)a * b, "product"); { F t(A); is(-t, -a, "negation"); is(t, a, "operand of negation"); }
    { F t(A); t += B; is(t, a + b, "+="); t -= B; is(t, a, "-= after +="); t *= B; is(t, (W)a * b, "*="); t -= B; is(t, (W)a * b - b, "-="); t += A; is(t, (W)a * b - b + a, "+= chain"); }
    { F t(A); t += t; is(t, 2 * a, "t += t"); t = A; t -= t; is(t, 0, "t -= t"); t = A; t *= t; is(t, (W)a * a, "t *= t"); }
    auto throws = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    if (b) {
        long long ib = inv(b, P); is(B.inv(), ib, "inverse"); is(A / B, (W)a * ib, "quotient"); F t(A); t /= B; is(t, (W)a * ib, "/="); t *= B; is(t, a, "*= after /="); t = B; t /= t; is(t, 1, "t /= t"); is(B.inv().inv(), b, "double inverse"); c.interesting();
    } else { c.check(throws([&] { (void)B.inv(); }), "inverse of zero is not rejected"); c.check(throws([&] { (void)(A / B); }), "division by zero is not rejected"); F t(A); c.check(throws([&] { t /= B; }), "in-place division by zero is not rejected"); }
    c.outcome(mc::mix(P, md(a + b, P) * 100003 + md((W)a * b, P)));
}
PART("pairs of integers in F_2 (int)") { pair_case<int, 2>(c); }
PART("pairs of integers in F_3 (int)") { pair_case<int, 3>(c); }
PART("pairs of integers in F_5 (int)") { pair_case<int, 5>(c); }
PART("pairs of integers in F_7 (int)") { pair_case<int, 7>(c); }
PART("pairs of integers in F_11 (int)") { pair_case<int, 11>(c); }
PART("pairs of integers in F_13 (int)") { pair_case<int, 13>(c); }
PART("pairs of integers in F_17 (int)") { pair_case<int, 17>(c); }
PART("pairs of integers in F_251 (int)") { pair_case<int, 251>(c); }
PART("pairs of integers in F_32749 (int)") { pair_case<int, 32749>(c); }
PART("pairs of integers in F_2 (long)") { pair_case<long, 2>(c); }
PART("pairs of integers in F_3 (long)") { pair_case<long, 3>(c); }
PART("pairs of integers in F_5 (long)") { pair_case<long, 5>(c); }
PART("pairs of integers in F_97 (long)") { pair_case<long, 97>(c); }
template <class I, unsigned P> void seq_case(mc::Ctx& c, int depth) { // every sequence of in-place operations: state stays a residue
    typedef ModP<I, P> F; vector<long long> al; for (long long i = 0; i < (long long)P; i++) al.push_back(i); if (P <= 3) { al.push_back(-1); al.push_back((long long)P + 1); }
    long long v = c.pick(al); F t((I)v); long long r = md(v, P); mc::Hash h; h(r);
    for (int k = 0; k < depth; k++) {
        int o = c.choose(7); long long y = o < 5 ? c.pick(al) : 0; F B((I)y); long long b = md(y, P); c << o << ":" << y << " "; if (k == 1) c.shard_here(); c.op();
        switch (o) { case 0: t += B; r = md(r + b, P); break; case 1: t -= B; r = md(r - b, P); break; case 2: t *= B; r = md(r * b, P); break; case 3: if (!b) c.prune(); t /= B; r = md(r * inv(b, P), P); break;
            case 4: t = (int)y; r = b; break; case 5: { F u = -t; t = u; r = md(-r, P); break; } case 6: if (!r) c.prune(); t = t.inv(); r = inv(r, P); break; }
        h(o)(r); c.state(mc::mix(P, r));
        c.checkf(t.to_int() == r && (t == (int)r) && t.iszero() == (r == 0), [&] { return "F" + to_string(P) + ": after an operation sequence the value is " + to_string((long long)t.to_int()) + ", expected " + to_string(r); });
    }
    c.outcome(h.h); c.interesting();
}
PART("operation sequences in F_2") { seq_case<int, 2>(c, c.tier ? 5 : 4); }
PART("operation sequences in F_3") { seq_case<int, 3>(c, c.tier ? 5 : 3); }
PART("operation sequences in F_7") { seq_case<int, 7>(c, c.tier ? 4 : 3); }

// ---- rationals ------------------------------------------------------------------------------
template <class I> void rat_case(mc::Ctx& c, int N) {
    typedef Rational<I> Q; typedef ref::Fr R; int n1 = c.range(-N, N), d1 = c.range(-N, N); if (!d1) c.prune(); c.shard_here(); int n2 = c.range(-N, N), d2 = c.range(-N, N); if (!d2) c.prune();
    Q A((I)n1, (I)d1), B((I)n2, (I)d2); R a(n1, d1), b(n2, d2); c << n1 << "/" << d1 << " , " << n2 << "/" << d2; c.state(mc::mix(a.key(), b.key())); c.op(14);
    auto is = [&](const Q& q, R w, const char* what) {
        ostringstream o; o << q; string e = to_string(w.n) + "/" + to_string(w.d);
        c.checkf(o.str() == e, [&] { return string("rational ") + what + " of " + a.str() + ", " + b.str() + ": got " + o.str() + ", expected " + e + " in lowest terms with positive denominator"; });
        c.checkf(q.iszero() == w.zero() && (long long)q.to_int() == w.n / w.d && (q == Q((I)w.n, (I)w.d)) && !(q != Q((I)w.n, (I)w.d)), [&] { return string("rational ") + what + ": predicates disagree with the value " + e; });
    };
    is(A, a, "construction"); is(B, b, "construction"); is(A + B, a + b, "sum"); is(A - B, a - b, "difference"); is(A * B, a * b, "product"); is(-A, -a, "negation"); is(Q((I)n1), R(n1), "integer construction"); is(Q(), R(0), "default");
    { Q t(A); t += B; is(t, a + b, "+="); t -= B; is(t, a, "-="); t *= B; is(t, a * b, "*="); t = A; t -= B; is(t, a - b, "-="); t = A; t += t; is(t, a + a, "t += t"); t = A; t -= t; is(t, R(0), "t -= t"); t = A; t *= t; is(t, a * a, "t *= t"); }
    c.check((A == B) == (a == b) && (A != B) == (a != b), "equality of rationals"); c.check((A < B) == (a.n * b.d < b.n * a.d), "order of rationals");
    c.check((A == n2) == (a == R(n2)) && (A != n2) == (a != R(n2)), "comparison of a rational with an integer");
    auto throws = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    if (!b.zero()) { is(A / B, a / b, "quotient"); is(B.inv(), b.inv(), "inverse"); Q t(A); t /= B; is(t, a / b, "/="); t = B; t /= t; is(t, R(1), "t /= t"); c.interesting(); }
    else { c.check(throws([&] { (void)B.inv(); }), "inverse of zero is not rejected"); c.check(throws([&] { (void)(A / B); }), "division by zero is not rejected"); Q t(A); c.check(throws([&] { t /= B; }), "in-place division by zero is not rejected"); }
    c.outcome((a + b).key());
}
PART("pairs of small rationals (int)") { rat_case<int>(c, c.tier ? 16 : 7); }
PART("pairs of small rationals (long)") { rat_case<long>(c, c.tier ? 10 : 5); }
PART("pairs of large rationals") { // numerators and denominators near the largest for which no intermediate product overflows
    static const vector<int> al{1, 2, 3, 6, 32766, 32767, 30030, -1, -2, -32767, -30030, 16384, 255}; int n1 = c.pick(al), d1 = c.pick(al); c.shard_here(); int n2 = c.pick(al), d2 = c.pick(al);
    typedef Rational<int> Q; typedef ref::Fr R; R a(n1, d1), b(n2, d2); Q A(n1, d1), B(n2, d2); c << a.str() << " " << b.str(); c.state(mc::mix(a.key(), b.key()));
    auto fits = [](long long x) { return x > INT_MIN && x <= INT_MAX; };
    auto is = [&](const Q& q, R w, const char* what) { ostringstream o; o << q; string e = to_string(w.n) + "/" + to_string(w.d); c.op(); c.checkf(o.str() == e, [&] { return string("rational ") + what + " of " + a.str() + ", " + b.str() + ": got " + o.str() + ", expected " + e; }); };
    if (fits(a.n * b.n) && fits(a.d * b.d)) { is(A * B, a * b, "product"); Q t(A); t *= B; is(t, a * b, "*="); c.interesting(); }
    if (fits(a.n * b.d) && fits(a.d * b.n)) { is(A / B, a / b, "quotient"); c.check((A < B) == (a.n * b.d < b.n * a.d), "order of rationals"); }
    if (fits(a.n * b.d) && fits(a.d * b.n) && fits(a.d * b.d) && fits(a.n * b.d + b.n * a.d)) is(A + B, a + b, "sum");
    if (fits(a.n * b.d) && fits(a.d * b.n) && fits(a.d * b.d) && fits(a.n * b.d - b.n * a.d)) is(A - B, a - b, "difference");
}
template <class I> void rat_seq(mc::Ctx& c, int depth) {
    typedef Rational<I> Q; typedef ref::Fr R; static const vector<R> al{R(0), R(1), R(-1), R(2), R(1, 2), R(-2, 3)}; R r = c.pick(al); Q t((I)r.n, (I)r.d);
    for (int k = 0; k < depth; k++) { int o = c.choose(6); R b = o < 4 ? c.pick(al) : R(1); Q B((I)b.n, (I)b.d); if (k == 1) c.shard_here(); c.op(); c << o << ":" << b.str() << " ";
        switch (o) { case 0: t += B; r = r + b; break; case 1: t -= B; r = r - b; break; case 2: t *= B; r = r * b; break; case 3: if (b.zero()) c.prune(); t /= B; r = r / b; break; case 4: t = -t; r = -r; break; case 5: if (r.zero()) c.prune(); t = t.inv(); r = r.inv(); break; }
        ostringstream os; os << t; string e = to_string(r.n) + "/" + to_string(r.d); c.state(r.key()); c.checkf(os.str() == e, [&] { return "rational after an operation sequence: " + os.str() + ", expected " + e; }); }
    c.outcome(r.key()); c.interesting();
}
PART("operation sequences on rationals") { rat_seq<int>(c, c.tier ? 4 : 3); }
PART("helper functions") { int x = c.range(-40, 40); c.shard_here(); c.state(x + 50); c.check(sgn(x) == (x > 0) - (x < 0), "sgn"); if (x >= 0) { bool pr = x >= 2; for (int i = 2; i < x; i++) if (x % i == 0) pr = false; c.checkf(isprime(x) == pr, [&] { return "isprime(" + to_string(x) + ")"; }); c.interesting(); } c.op(); c.outcome(x); }
