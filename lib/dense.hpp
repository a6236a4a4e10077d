// common to the two harnesses of C29
#pragma once
#include "bridge.hpp"
#include <future.hpp>
using namespace std;
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:print_legend=0:quarantine_size_mb=8"; }
namespace fu = bats::future;
template <class F> using FM = fu::Matrix<F>;
template <class F> F lib(const RF<F>& x) { return FT<F>::from(x); }
template <class F> FM<F> mkf(const RM<F>& a, bool cm) { FM<F> r((size_t)a.m, (size_t)a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) r((size_t)i, (size_t)j) = lib<F>(a(i, j)); return cm ? FM<F>(r, fu::ColumnMajor()) : r; }
template <class F, class M> RM<F> rdf(const M& A) { RM<F> r((int)A.nrow(), (int)A.ncol()); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) r(i, j) = FT<F>::to(A((size_t)i, (size_t)j)); return r; }
template <class F> void same(mc::Ctx& c, const RM<F>& got, const RM<F>& want, const string& n) { c.checkf(got == want, [&] { return n + " (" + FT<F>::name() + "): got " + got.str() + " expected " + want.str(); }); }
template <class F, class M> void eq(mc::Ctx& c, const M& A, const RM<F>& want, const string& n) { same<F>(c, rdf<F>(A), want, n); }
template <class R> ref::Mat<R> E_add(int n, int i0, int i1, R a) { auto e = ref::Mat<R>::eye(n); e(i0, i1) = e(i0, i1) + a; return e; } // row i0 += a * row i1
template <class R> ref::Mat<R> E_swap(int n, int i, int j) { auto e = ref::Mat<R>::eye(n); if (i != j) { e(i, i) = e(j, j) = R(0); e(i, j) = e(j, i) = R(1); } return e; }
template <class R> ref::Mat<R> E_scale(int n, int i, R a) { auto e = ref::Mat<R>::eye(n); e(i, i) = a; return e; }
template <class F> void note(mc::Ctx& c, const RM<F>& a, uint64_t x = 0) { mc::Hash h; h(a.m); h(a.n); h(FT<F>::order); h(x); for (auto& v : a.a) h(v.key()); c.state(h.h); c.outcome(h.h); if (c.verbose) c << FT<F>::name() << " " << a.str() << " "; if (!a.iszero()) c.interesting(); }
static const int SH[][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}};
template <class F, class Fn> void every(mc::Ctx& c, int shapes, Fn&& fn) { int s = c.choose(shapes); auto a = choose_mat<F>(c, SH[s][0], SH[s][1]); c.shard_here(); fn(a); }
template <class Fn> void fields(mc::Ctx& c, Fn&& fn) { switch (c.choose(3)) { case 0: fn(F2(), c.tier ? 9 : 9); break; case 1: fn(F3(), c.tier ? 9 : 8); break; default: fn(QQ(), c.tier ? 8 : 6); } }
template <class R> bool isperm(const ref::Mat<R>& p) { for (int i = 0; i < p.m; i++) { int r = 0, q = 0; for (int j = 0; j < p.n; j++) { if (!(p(i, j) == R(0)) && !(p(i, j) == R(1))) return false; r += !p(i, j).zero(); q += !p(j, i).zero(); } if (r != 1 || q != 1) return false; } return p.m == p.n; }
template <class R> bool unitlower(const ref::Mat<R>& p) { for (int i = 0; i < p.m; i++) for (int j = i; j < p.n; j++) if (!(p(i, j) == R(i == j))) return false; return true; }
template <class R> bool isupper(const ref::Mat<R>& p) { for (int i = 0; i < p.m; i++) for (int j = 0; j < i && j < p.n; j++) if (!p(i, j).zero()) return false; return true; }
