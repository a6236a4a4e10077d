// homology representatives and normal forms judged by dense linear algebra
#pragma once
#include "homopts.hpp"
template <class R> std::vector<R> matvec(const ref::Mat<R>& A, const std::vector<R>& x) { std::vector<R> y(A.m); for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) y[i] = y[i] + A(i, j) * x[j]; return y; }
template <class R> bool zerov(const std::vector<R>& v) { for (auto& x : v) if (!x.zero()) return false; return true; }
template <class R> ref::Mat<R> cols_of(int m, const std::vector<std::vector<R>>& cs) { ref::Mat<R> r(m, (int)cs.size()); for (size_t j = 0; j < cs.size(); j++) for (int i = 0; i < m; i++) r(i, (int)j) = cs[j][i]; return r; }
// out: C_k -> next, in: prev -> C_k (both dense); reps: the reported representatives; nf: normal form of a chain
template <class F, class NF> void check_classes(mc::Ctx& c, const RM<F>& out, const RM<F>& in, const std::vector<SV<F>>& reps, NF&& nf, const std::string& what, bool normal_forms = true) {
    typedef RF<F> R; int n = out.n; std::vector<std::vector<R>> rv; int rin = in.rank(), rout = out.rank();
    for (auto& r : reps) { rv.push_back(rdvec<F>(r, n, c, "representative")); c.checkf(zerov(matvec(out, rv.back())), [&] { return what + ": representative " + vstr(rv.back()) + " is not a cycle"; }); }
    c.checkf((int)reps.size() == n - rout - rin, [&] { return what + ": " + std::to_string(reps.size()) + " representatives, homology has dimension " + std::to_string(n - rout - rin); });
    auto RM_ = cols_of(n, rv); c.checkf(in.hcat(RM_).rank() == rin + (int)reps.size(), [&] { return what + ": representatives are not independent in homology"; });
    if (!normal_forms) return;
    auto K = out.kernel(); int kd = K.n; auto al = FT<F>::alphabet(FT<F>::order ? FT<F>::order : 3); int q = (int)al.size(); long tot = 1; for (int i = 0; i < kd && tot < 100; i++) tot *= q; bool full = tot < 100; 
    std::vector<std::vector<R>> zs, ns; auto NFv = [&](const std::vector<R>& z) { c.op(); return rdvec<F>(nf(mkvec<F>(z)), n, c, "normal form"); };
    if (full) for (long t = 0; t < tot; t++) { std::vector<R> z(n); long u = t; for (int i = 0; i < kd; i++) { auto a = al[u % q]; u /= q; for (int r = 0; r < n; r++) z[r] = z[r] + a * K(r, i); } zs.push_back(z); }
    else { zs.push_back(std::vector<R>(n)); for (int i = 0; i < kd; i++) zs.push_back(K.col(i)); for (int i = 0; i < kd; i++) for (int j = 0; j < kd; j++) if (i != j && (kd <= 8 || (j + kd - i) % kd == 1 || (j + kd - i) % kd == kd / 2)) { auto z = K.col(i), w = K.col(j); for (int r = 0; r < n; r++) z[r] = z[r] + w[r] * al.back(); zs.push_back(z); } }
    for (auto& z : zs) { auto y = NFv(z); ns.push_back(y); auto d = y; for (int i = 0; i < n; i++) d[i] = d[i] - z[i];
        c.checkf(in_span(in, d), [&] { return what + ": normal form " + vstr(y) + " of cycle " + vstr(z) + " is not homologous to it"; }); c.checkf(NFv(y) == y, [&] { return what + ": normal form is not idempotent on " + vstr(z); });
        c.checkf(zerov(y) == in_span(in, z), [&] { return what + ": normal form of " + vstr(z) + " is " + vstr(y) + " but boundary=" + std::to_string(in_span(in, z)); }); c.checkf(in_span(RM_, y), [&] { return what + ": normal form " + vstr(y) + " is not a combination of the preferred representatives"; }); }
    if (zs.size() <= (kd <= 8 ? 64 : 40)) for (size_t i = 0; i < zs.size(); i++) for (size_t j = 0; j < i; j++) { std::vector<R> s(n), t(n); for (int r = 0; r < n; r++) { s[r] = zs[i][r] + zs[j][r]; t[r] = ns[i][r] + ns[j][r]; } c.checkf(NFv(s) == t, [&] { return what + ": normal form is not linear"; });
        std::vector<R> d(n); for (int r = 0; r < n; r++) d[r] = zs[i][r] - zs[j][r]; c.checkf((ns[i] == ns[j]) == in_span(in, d), [&] { return what + ": equal normal forms and homology disagree"; }); }
    for (size_t j = 0; j < rv.size(); j++) c.checkf(NFv(rv[j]) == rv[j], [&] { return what + ": a preferred representative is not its own normal form"; });
}
// dense differentials of a complex: d[k]: C_k -> C_{k-1}, with a zero map above the top
template <class F, class RC> void check_rcc(mc::Ctx& c, const std::vector<RM<F>>& d, const RC& R, const std::string& what, bool nf = true) {
    for (size_t k = 0; k < d.size(); k++) { RM<F> in = k + 1 < d.size() ? d[k + 1] : RM<F>(d[k].n, 0); std::vector<SV<F>> reps; for (size_t j = 0; j < R.hdim(k); j++) reps.push_back(R.get_preferred_representative(j, k));
        check_classes<F>(c, d[k], in, reps, [&](const SV<F>& z) { return R.chain_preferred_representative(z, k); }, what + " degree " + std::to_string(k), nf); }
}
