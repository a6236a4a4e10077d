// Bridges between the library's types and the reference models.
#pragma once
#include <bats.hpp>
#include "mc.hpp"
#include "ref.hpp"

template <class F> struct FT;
template <unsigned P> struct FT<ModP<int, P>> {
    typedef ref::Zp<(int)P> R; static const int order = P;
    static R to(const ModP<int, P>& x) { return R(x.to_int()); }
    static ModP<int, P> from(R x) { return ModP<int, P>(x.v); }
    static std::vector<R> alphabet(int = 0) { std::vector<R> a; for (int i = 0; i < (int)P; i++) a.push_back(R(i)); return a; }
    static std::string name() { return "F" + std::to_string(P); }
};
template <> struct FT<Rational<int>> {
    typedef ref::Fr R; static const int order = 0;
    static R to(const Rational<int>& x) { std::ostringstream o; o << x; std::string s = o.str(); size_t p = s.find('/'); if (p == std::string::npos) return R(atoll(s.c_str())); return R(atoll(s.substr(0, p).c_str()), atoll(s.substr(p + 1).c_str())); }
    static Rational<int> from(R x) { return Rational<int>((int)x.n, (int)x.d); }
    static std::vector<R> alphabet(int k = 3) { std::vector<R> a{R(0), R(1), R(-1), R(2), R(1, 2)}; a.resize(k); return a; }
    static std::string name() { return "Q"; }
};
typedef ModP<int, 2> F2; typedef ModP<int, 3> F3; typedef ModP<int, 5> F5; typedef Rational<int> QQ;
template <class F> using RF = typename FT<F>::R;
template <class F> using RM = ref::Mat<typename FT<F>::R>;
template <class F> using SV = SparseVector<F, size_t>;
template <class F> using CM = ColumnMatrix<SparseVector<F, size_t>>;

inline std::string str(const std::vector<size_t>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
inline std::string str(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }

template <class F> SV<F> mkvec(const std::vector<RF<F>>& d) { std::vector<size_t> i; std::vector<F> v; for (size_t k = 0; k < d.size(); k++) if (!d[k].zero()) { i.push_back(k); v.push_back(FT<F>::from(d[k])); } return SV<F>(i, v); }
template <class F> CM<F> mkmat(const RM<F>& d) { std::vector<SV<F>> cols; for (int j = 0; j < d.n; j++) cols.push_back(mkvec<F>(d.col(j))); return CM<F>((size_t)d.m, (size_t)d.n, cols); }

// read back, checking the representation invariant (sorted, in range, no zeros); allow_zeros for CSC
template <class F, class V> std::vector<RF<F>> rdvec(const V& v, size_t m, mc::Ctx& c, const std::string& what) {
    std::vector<RF<F>> r(m); bool first = true; size_t last = 0;
    for (auto it = v.nzbegin(); it != v.nzend(); ++it) {
        size_t i = it->ind;
        if (i >= m) c.fail(std::string(what) + ": stored index out of range");
        if (!first && i <= last) c.fail(std::string(what) + ": stored indices not strictly increasing");
        RF<F> x = FT<F>::to(it->val);
        if (x.zero()) c.fail(std::string(what) + ": explicit zero stored");
        r[i] = x; first = false; last = i;
    }
    return r;
}
template <class F, class M> RM<F> rdmat(const M& A, mc::Ctx& c, const std::string& what) {
    RM<F> r((int)A.nrow(), (int)A.ncol());
    for (size_t j = 0; j < A.ncol(); j++) { auto v = rdvec<F>(A[j], A.nrow(), c, what); for (size_t i = 0; i < v.size(); i++) r((int)i, (int)j) = v[i]; }
    return r;
}
// ---- larger inputs: in this mode the choosers draw from families of patterned inputs of a fixed larger size instead of all
// inputs of a small size (every member of the family is still visited).  Sizes straddle the powers of two and the
// cut-offs of library and standard algorithms (16, 32).
inline bool& big_mode() { static thread_local bool b = false; return b; }
struct Big { Big() { big_mode() = true; } ~Big() { big_mode() = false; } };
inline int dim(mc::Ctx& c, int mx) { if (!big_mode()) return c.choose(mx + 1); return c.flip() ? mx : mx / 2 + 1; } // 0..mx
inline int pos(mc::Ctx& c, int n) { if (!big_mode() || n <= 3) return c.choose(n); int k = c.choose(4); return k == 0 ? 0 : k == 1 ? n / 2 : k == 2 ? n - 2 : n - 1; } // 0..n-1
inline int posr(mc::Ctx& c, int lo, int hi) { return lo + pos(c, hi - lo + 1); } // lo..hi
inline std::vector<bool> bits(mc::Ctx& c, int n) { std::vector<bool> b(n); if (!big_mode()) { for (int i = 0; i < n; i++) b[i] = c.flip(); return b; } static const int S[] = {1, 2, 3, 7, 1000}; int s = S[c.choose(5)], t = s == 1 || s > 100 ? 0 : c.choose(2); bool neg = c.flip(); for (int i = 0; i < n; i++) b[i] = (i % s == t) != neg; return b; }
struct Pat { int a, b, d, e, w, t; bool on(long i, long j) const { return (a * i + b * j + d * i * j + e) % w < t; } };
inline const std::vector<Pat>& patterns() { static const std::vector<Pat> P{{1, 1, 0, 0, 3, 1}, {1, 2, 0, 1, 5, 2}, {3, 1, 1, 0, 7, 2}, {1, 6, 0, 0, 7, 1}, {2, 3, 1, 1, 11, 3}, {1, 0, 0, 0, 2, 1}, {0, 1, 0, 0, 3, 1}, {1, 1, 0, 0, 1, 1}, {5, 7, 1, 3, 13, 2}, {1, 16, 0, 0, 17, 1}, {1, 1, 2, 0, 5, 1}, {4, 9, 3, 2, 19, 6}}; return P; }
template <class R> void pattern_fill(mc::Ctx& c, ref::Mat<R>& M, const std::vector<R>& al) { auto& P = patterns(); auto p = P[c.choose((int)P.size())]; int v = al.size() > 2 ? c.choose(2) : 0; for (int i = 0; i < M.m; i++) for (int j = 0; j < M.n; j++) M(i, j) = p.on(i, j) ? al[1 + (v ? (i + 2 * j) % (al.size() - 1) : (i * j + i / 3) % (al.size() - 1))] : R(0); }
// choose a dense m x n matrix over the first k letters of the alphabet
template <class F> RM<F> choose_mat(mc::Ctx& c, int m, int n, int k = 3) { auto al = FT<F>::alphabet(k); RM<F> M(m, n); if (big_mode()) { pattern_fill(c, M, al); return M; } for (auto& x : M.a) x = al[c.choose((int)al.size())]; return M; }
template <class F> std::vector<RF<F>> choose_vec(mc::Ctx& c, int m, int k = 3) { auto al = FT<F>::alphabet(k); std::vector<RF<F>> v(m); if (big_mode()) { RM<F> M(m, 1); pattern_fill(c, M, al); return M.a; } for (auto& x : v) x = al[c.choose((int)al.size())]; return v; }
inline std::vector<int> choose_perm(mc::Ctx& c, int n) { std::vector<int> pool(n), p; if (big_mode()) { int k = c.choose(5); for (int i = 0; i < n; i++) p.push_back(k == 0 ? i : k == 1 ? n - 1 - i : k == 2 ? (i + 1) % n : k == 3 ? (i ^ 1) < n ? i ^ 1 : i : (i < n / 2 ? i + n - n / 2 : i - n / 2)); return p; } std::iota(pool.begin(), pool.end(), 0); while (!pool.empty()) { int k = c.choose((int)pool.size()); p.push_back(pool[k]); pool.erase(pool.begin() + k); } return p; }
inline std::vector<size_t> up(const std::vector<int>& v) { return std::vector<size_t>(v.begin(), v.end()); }
template <class R> std::string vstr(const std::vector<R>& v) { std::string s = "("; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + v[i].str(); return s + ")"; }

// choose a simplicial complex on nv vertices up to maxdim (every downward closed set, in (dim, lex) order)
inline std::vector<ref::Spx> choose_complex(mc::Ctx& c, int nv, int maxdim, bool all_vertices = false) {
    std::set<ref::Spx> in; std::vector<ref::Spx> cells;
    for (auto& s : ref::all_simplices(nv, maxdim)) {
        bool ok = true; for (auto& f : ref::faces(s)) if (!in.count(f)) ok = false;
        if (!ok) continue;
        if (s.size() == 1 && all_vertices) { in.insert(s); cells.push_back(s); continue; }
        if (c.flip()) { in.insert(s); cells.push_back(s); }
    }
    return cells;
}
template <class CpxT> CpxT build_complex(const std::vector<ref::Spx>& cells, int nv, int maxdim) { CpxT X(nv, maxdim); for (auto s : cells) { std::vector<size_t> t(s.begin(), s.end()); X.add(t); } return X; }
