// C29: dense matrices in four storage orders: views, products, echelon factorizations, commutations and solves.
#include "dense.hpp"
// ------------------------------------------------------------------ dense matrices of the four storage orders
template <class F, class Acc> using DM = ::A<Dense<F, Acc>>;
template <class F, class M> RM<F> rdd(const M& a) { RM<F> r((int)a.nrow(), (int)a.ncol()); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) r(i, j) = FT<F>::to(a(i, j)); return r; }
template <class F, class M> M mkd(const RM<F>& a) { M r((size_t)a.m, (size_t)a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) r(i, j) = lib<F>(a(i, j)); return r; }
template <class R> ref::Mat<R> jc(const ref::Mat<R>& a) { ref::Mat<R> r(a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) r(a.m - 1 - i, a.n - 1 - j) = a(i, j); return r; }
template <class F> struct Pool { vector<F*> p; ~Pool() { sort(p.begin(), p.end()); p.erase(unique(p.begin(), p.end()), p.end()); for (auto x : p) delete[] x; } template <class M> M operator()(M m) { p.push_back(m.mat); return m; } };
template <class Fn> void orders(Fn&& fn) { fn(RowMaj(), "row-major "); fn(ColMaj(), "column-major "); fn(RevRowMaj(), "reversed row-major "); fn(RevColMaj(), "reversed column-major "); }
template <class F, class V> vector<RF<F>> rdv(V v) { vector<RF<F>> r; for (auto it = v.begin(); it != v.end(); ++it) r.push_back(FT<F>::to(*it)); return r; }
template <class F, class Acc> void dense_storage(mc::Ctx& c, const RM<F>& a, const string& n) {
    typedef RF<F> R; typedef DM<F, Acc> M; Pool<F> own; c.op(); auto D = own(mkd<F, M>(a)); c.check(D.nrow() == (size_t)a.m && D.ncol() == (size_t)a.n && D.size() == a.a.size(), n + "dimensions"); same<F>(c, rdd<F>(D), a, n + "entries");
    for (int i = 0; i < a.m; i++) { vector<R> w; for (int j = 0; j < a.n; j++) w.push_back(a(i, j)); auto v = D.r(i); c.check(v.size() == w.size() && rdv<F>(v) == w, n + "row view"); vector<R> ix, post; for (size_t j = 0; j < w.size(); j++) { ix.push_back(FT<F>::to(v[j])); c.check(FT<F>::to(v(j)) == w[j], n + "row view access"); } for (auto it = v.begin(); it != v.end();) post.push_back(FT<F>::to(*it++)); c.check(ix == w && post == w && (size_t)(v.end() - v.begin()) == w.size() && FT<F>::to(*(v.begin() + (w.size() - 1))) == w.back(), n + "row view iteration"); const M& cD = D; auto cv = cD.r(i); c.check(rdv<F>(cv) == w, n + "constant row view"); }
    for (int j = 0; j < a.n; j++) { auto v = D[j]; c.check(v.size() == (size_t)a.m && rdv<F>(v) == a.col(j), n + "column view"); for (int i = 0; i < a.m; i++) c.check(FT<F>::to(v[i]) == a(i, j), n + "column view access"); const M& cD = D; auto cv = cD[j]; c.check(rdv<F>(cv) == a.col(j), n + "constant column view"); }
    auto T = D.Trp(); auto J = D.JConj(); auto TJ = D.TJConj(); same<F>(c, rdd<F>(T), a.T(), n + "transpose"); same<F>(c, rdd<F>(J), jc(a), n + "reversal"); same<F>(c, rdd<F>(TJ), jc(a).T(), n + "reversed transpose"); same<F>(c, rdd<F>(T.Trp()), a, n + "transpose twice"); same<F>(c, rdd<F>(J.JConj()), a, n + "reversal twice"); same<F>(c, rdd<F>(TJ.TJConj()), a, n + "reversed transpose twice"); same<F>(c, rdd<F>(T.JConj()), jc(a).T(), n + "reversal of the transpose");
    auto C = own(D.copy()); c.check(D == C && C == D, n + "a copy equals the original"); C(0, 0) = F(1) + C(0, 0); c.check(!(D == C), n + "different matrices compare equal"); same<F>(c, rdd<F>(D), a, n + "the original after changing a copy"); { auto l = own(D.copy()); l(a.m - 1, a.n - 1) = F(1) + l(a.m - 1, a.n - 1); c.check(!(l == D), n + "matrices differing in the last entry compare equal"); RM<F> wide(a.m, a.n + 1), tall(a.m + 1, a.n); auto W = own(mkd<F, M>(wide)), Y = own(mkd<F, M>(tall)); c.check(!(D == W) && !(D == Y), n + "matrices of other shapes compare equal"); }
    auto edit = [&](auto&& f, const RM<F>& w, const string& what) { auto B = own(D.copy()); f(B); same<F>(c, rdd<F>(B), w, n + what); };
    for (int k = 0; k < a.m; k++) for (int l = 0; l < a.m; l++) { edit([&](M& B) { B.swap_rows(k, l); }, E_swap<R>(a.m, k, l) * a, "swap_rows"); for (auto& s : FT<F>::alphabet(3)) edit([&](M& B) { B.add_row_to(k, l, lib<F>(s)); }, E_add<R>(a.m, k, l, s) * a, "add_row_to"); edit([&](M& B) { B.r(k).axpy(F(1), B.r(l)); }, E_add<R>(a.m, k, l, R(1)) * a, "axpy of rows"); edit([&](M& B) { B.r(k) = B.r(l); }, [&] { auto w = a; for (int j = 0; j < a.n; j++) w(k, j) = a(l, j); return w; }(), "assigning a row"); }
    for (int k = 0; k < a.n; k++) for (int l = 0; l < a.n; l++) { edit([&](M& B) { B.swap_cols(k, l); }, a * E_swap<R>(a.n, k, l), "swap_cols"); for (auto& s : FT<F>::alphabet(3)) { edit([&](M& B) { B.add_col_to(k, l, lib<F>(s)); }, a * E_add<R>(a.n, l, k, s), "add_col_to"); edit([&](M& B) { B[k].axpy(lib<F>(s), B[l]); }, a * E_add<R>(a.n, l, k, s), "axpy of columns"); } edit([&](M& B) { B[k] = B[l]; }, [&] { auto w = a; for (int i = 0; i < a.m; i++) w(i, k) = a(i, l); return w; }(), "assigning a column"); }
    edit([&](M& B) { B[0] /= lib<F>(R(0) - R(1)); }, a * E_scale<R>(a.n, 0, R(0) - R(1)), "dividing a column"); edit([&](M& B) { B.r(a.m - 1) /= lib<F>(R(0) - R(1)); }, E_scale<R>(a.m, a.m - 1, R(0) - R(1)) * a, "dividing a row"); edit([&](M& B) { auto T = B.Trp(); T(0, a.m - 1) = F(1); }, [&] { auto w = a; w(a.m - 1, 0) = R(1); return w; }(), "writing through the transpose"); edit([&](M& B) { fill_zeros(B); }, RM<F>(a.m, a.n), "fill_zeros"); auto I = own(M::identity(a.n)); same<F>(c, rdd<F>(I), RM<F>::eye(a.n), n + "identity"); MemAcc<F, Acc> ma(a.m, a.n, D.mat); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) c.check(FT<F>::to(ma(i, j)) == a(i, j), n + "accessor"); same<F>(c, rdd<F>(M(D)), a, n + "shallow copy"); same<F>(c, rdd<F>(M((size_t)a.m, (size_t)a.n, D.mat)), a, n + "wrapping an array");
    for (size_t k = 0; k < a.a.size(); k++) c.check(&D(k) == D.mat + k, n + "linear access");
    { ostringstream o; for (int i = 0; i < a.m; i++) { for (int j = 0; j < a.n; j++) o << lib<F>(a(i, j)) << " "; o << "\n"; } c.check(D.str() == o.str() && ma.str() == o.str(), n + "text"); }
}
PART("dense: storage orders, views, transposes and elementary operations") { fields(c, [&](auto z, int s) { typedef decltype(z) F; if (FT<F>::order == 0 && s > 5) s = 5; if (!c.tier && FT<F>::order == 3) s = 7; every<F>(c, s, [&](const RM<F>& a) { note<F>(c, a, 11); orders([&](auto acc, const string& n) { dense_storage<F, decltype(acc)>(c, a, n); }); }); }); }
PART("dense: conversions to and from sparse matrices") { fields(c, [&](auto z, int s) { typedef decltype(z) F; every<F>(c, s, [&](const RM<F>& a) { note<F>(c, a, 12); c.op(); auto S = mkmat<F>(a); F* d = S.dump_dense(); DM<F, ColMaj> D((size_t)a.m, (size_t)a.n, d); same<F>(c, rdd<F>(D), a, "dump of a sparse matrix"); vector<SV<F>> cols; for (int j = 0; j < a.n; j++) { vector<size_t> ind; vector<F> val; auto v = D[j]; for (size_t i = 0; i < v.size(); i++) if (v[i] != F(0)) { ind.push_back(i); val.push_back(v[i]); } cols.push_back(SV<F>(ind, val)); } CM<F> back((size_t)a.m, (size_t)a.n, cols); c.check(back == S, "sparse matrix from its dense dump"); auto rows = S.to_row_array(); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) c.check(FT<F>::to(rows[i][j]) == a(i, j), "row array of a sparse matrix"); D.free(); }); }); }
template <class F, class A1, class A2> void dense_products(mc::Ctx& c, const RM<F>& a, const RM<F>& b, const string& n) { Pool<F> own; c.op(); auto X = own(mkd<F, DM<F, A1>>(a)); auto Y = own(mkd<F, DM<F, A2>>(b)); auto Z = own(matmul(X, Y)); same<F>(c, rdd<F>(Z), a * b, n + "matmul");
    if (a.m == a.n) { auto W = own(Y.copy()); auto r = apply_matmul_on_left(X, W); same<F>(c, rdd<F>(r), a * b, n + "apply_matmul_on_left"); same<F>(c, rdd<F>(W), a * b, n + "apply_matmul_on_left in place"); } if (b.m == b.n) { auto W = own(X.copy()); auto r = apply_matmul_on_right(W, Y); same<F>(c, rdd<F>(W), a * b, n + "apply_matmul_on_right in place"); same<F>(c, rdd<F>(r), a * b, n + "apply_matmul_on_right"); } }
PART("dense: products of every pair of storage orders") { fields(c, [&](auto z, int) { typedef decltype(z) F; int m = 1 + c.choose(2), k = 1 + c.choose(FT<F>::order == 2 ? 3 : 2), n = 1 + c.choose(2); if (FT<F>::order == 0 && m + k + n == 6) c.prune(); c.shard_here(); auto a = choose_mat<F>(c, m, k), b = choose_mat<F>(c, k, n); note<F>(c, a, 13); note<F>(c, b, 14); orders([&](auto p, const string& s) { orders([&](auto q, const string& t) { dense_products<F, decltype(p), decltype(q)>(c, a, b, s + "times " + t); }); }); }); }
template <class R> bool islower(const ref::Mat<R>& p) { return isupper(p.T()); }
template <class R> bool echelonE(const ref::Mat<R>& e, int r) { int last = -1, k = 0; for (int j = 0; j < e.n; j++) { int cnt = 0, at = -1; for (int i = 0; i < e.m; i++) if (!e(i, j).zero()) { if (!(e(i, j) == R(1))) return false; cnt++; at = i; } if (cnt > 1) return false; if (cnt) { if (j != k || at <= last) return false; last = at; k++; } } return k == r; } // ones in the first r columns, stepping down
template <class R> bool invertible_diag(const ref::Mat<R>& p) { for (int i = 0; i < p.m; i++) if (p(i, i).zero()) return false; return true; }
template <class F, class Acc> void dense_factor(mc::Ctx& c, const RM<F>& a, const string& n) {
    Pool<F> own; auto D = own(mkd<F, DM<F, Acc>>(a)); int r = a.rank(); typedef RM<F> M;
    { c.op(); auto [L_, E_, U_, P_] = LEUP_fact(D); own(L_); own(E_); own(U_); own(P_); M l = rdd<F>(L_), e = rdd<F>(E_), u = rdd<F>(U_), p = rdd<F>(P_); same<F>(c, rdd<F>(D), a, n + "LEUP leaves the matrix"); c.checkf(islower(l) && invertible_diag(l) && isupper(u) && invertible_diag(u) && isperm(p) && echelonE(e, r), [&] { return n + "LEUP: factor of the wrong form: " + l.str() + e.str() + u.str() + p.str(); }); same<F>(c, l * e * u * p, a, n + "LEUP product"); }
    { c.op(); auto [P_, L_, E_, U_] = PLEU_fact(D); own(L_); own(E_); own(U_); own(P_); M l = rdd<F>(L_), e = rdd<F>(E_), u = rdd<F>(U_), p = rdd<F>(P_); c.checkf(islower(l) && invertible_diag(l) && isupper(u) && invertible_diag(u) && isperm(p) && echelonE(e.T(), r), [&] { return n + "PLEU: factor of the wrong form"; }); same<F>(c, p * l * e * u, a, n + "PLEU product"); }
    { c.op(); auto [U_, E_, L_, P_] = UELP_fact(D); own(L_); own(E_); own(U_); own(P_); M l = rdd<F>(L_), e = rdd<F>(E_), u = rdd<F>(U_), p = rdd<F>(P_); c.checkf(islower(l) && invertible_diag(l) && isupper(u) && invertible_diag(u) && isperm(p) && echelonE(jc(e), r), [&] { return n + "UELP: factor of the wrong form"; }); same<F>(c, u * e * l * p, a, n + "UELP product"); }
    { c.op(); auto [P_, U_, E_, L_] = PUEL_fact(D); own(L_); own(E_); own(U_); own(P_); M l = rdd<F>(L_), e = rdd<F>(E_), u = rdd<F>(U_), p = rdd<F>(P_); c.checkf(islower(l) && invertible_diag(l) && isupper(u) && invertible_diag(u) && isperm(p) && echelonE(jc(e).T(), r), [&] { return n + "PUEL: factor of the wrong form"; }); same<F>(c, p * u * e * l, a, n + "PUEL product"); }
    same<F>(c, rdd<F>(D), a, n + "the factored matrix");
}
PART("dense: the four echelon factorizations of every small matrix") { fields(c, [&](auto z, int s) { typedef decltype(z) F; every<F>(c, s, [&](const RM<F>& a) { note<F>(c, a, 15); orders([&](auto acc, const string& n) { dense_factor<F, decltype(acc)>(c, a, n); }); }); }); }
PART("dense: factorizations of larger matrices over F2") { static const int sh[][2] = {{3, 4}, {4, 3}, {2, 5}, {5, 2}, {4, 4}}; int s = c.choose(c.tier ? 5 : 4); auto a = choose_mat<F2>(c, sh[s][0], sh[s][1]); c.shard_here(); note<F2>(c, a, 16); if (c.tier || s % 2) dense_factor<F2, RowMaj>(c, a, "row-major "); if (c.tier || !(s % 2)) dense_factor<F2, RevColMaj>(c, a, "reversed column-major "); }
// echelon matrices with ones in the first r columns at the chosen rows
template <class F> RM<F> choose_E(mc::Ctx& c, int m, int n) { RM<F> e(m, n); int j = 0; for (int i = 0; i < m && j < n; i++) if (c.flip()) e(i, j++) = RF<F>(1); return e; }
template <class F> RM<F> choose_L(mc::Ctx& c, int n, bool unit) { RM<F> l(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { auto al = FT<F>::alphabet(3); if (i == j) l(i, j) = unit ? RF<F>(1) : al[1 + c.choose((int)al.size() - 1)]; else l(i, j) = al[c.choose((int)al.size())]; } return l; }
PART("dense: commuting echelon and triangular factors") { typedef F3 F; int m = 1 + c.choose(3), n = 1 + c.choose(3); auto e = choose_E<F>(c, m, n); auto l = choose_L<F>(c, n, !c.tier); c.shard_here(); note<F>(c, e, 17); note<F>(c, l, 18);
    orders([&](auto acc, const string& s) { typedef decltype(acc) Acc; Pool<F> own; typedef Dense<F, Acc> T;
        { c.op(); auto EE = own(mkd<F, EL<T>>(e)); auto LL = own(mkd<F, L<T>>(l)); auto R = own(commute(EE, LL)); auto r = rdd<F>(R); c.check(r.m == m && r.n == m && islower(r) && invertible_diag(r), s + "commute(EL, L): not an invertible lower triangular matrix"); same<F>(c, r * e, e * l, s + "commute(EL, L)"); }
        { c.op(); auto e2 = jc(e).T(), l2 = jc(l).T(); auto EE = own(mkd<F, ELH<T>>(e2)); auto LL = own(mkd<F, L<T>>(l2)); auto R = own(commute(LL, EE)); auto r = rdd<F>(R); c.check(islower(r) && invertible_diag(r), s + "commute(L, ELH): not an invertible lower triangular matrix"); same<F>(c, e2 * r, l2 * e2, s + "commute(L, ELH)"); }
        { c.op(); auto e2 = jc(e), l2 = jc(l); auto EE = own(mkd<F, EUH<T>>(e2)); auto LL = own(mkd<F, U<T>>(l2)); auto R = own(commute(EE, LL)); auto r = rdd<F>(R); c.check(isupper(r) && invertible_diag(r), s + "commute(EUH, U): not an invertible upper triangular matrix"); same<F>(c, r * e2, e2 * l2, s + "commute(EUH, U)"); }
        { c.op(); auto e2 = e.T(), l2 = l.T(); auto EE = own(mkd<F, EU<T>>(e2)); auto LL = own(mkd<F, U<T>>(l2)); auto R = own(commute(LL, EE)); auto r = rdd<F>(R); c.check(isupper(r) && invertible_diag(r), s + "commute(U, EU): not an invertible upper triangular matrix"); same<F>(c, e2 * r, l2 * e2, s + "commute(U, EU)"); } }); }
template <class F> void solves(mc::Ctx& c) { int n = 1 + c.choose(FT<F>::order == 2 ? 3 : 2), k = 1 + c.choose(2); auto l = choose_L<F>(c, n, false); c.shard_here(); auto b = choose_mat<F>(c, n, k); note<F>(c, l, 19); note<F>(c, b, 20);
    orders([&](auto acc, const string& s) { typedef decltype(acc) Acc; orders([&](auto acc2, const string& t0) { typedef decltype(acc2) Acc2; string t = s + "and " + t0; Pool<F> own; auto LL = own(mkd<F, L<Dense<F, Acc>>>(l)); auto UU = own(mkd<F, U<Dense<F, Acc>>>(l.T())); auto inv = l.inverse();
        { c.op(); auto B = own(mkd<F, DM<F, Acc2>>(b)); auto r = apply_inverse_on_left(LL, B); same<F>(c, rdd<F>(r), inv * b, t + "L \\ A"); same<F>(c, rdd<F>(B), inv * b, t + "L \\ A in place"); } { c.op(); auto B = own(mkd<F, DM<F, Acc2>>(b)); auto r = apply_inverse_on_left(UU, B); same<F>(c, rdd<F>(r), inv.T() * b, t + "U \\ A"); } { c.op(); auto B = own(mkd<F, DM<F, Acc2>>(b.T())); auto r = apply_inverse_on_right(B, UU); same<F>(c, rdd<F>(r), b.T() * inv.T(), t + "A / U"); } { c.op(); auto B = own(mkd<F, DM<F, Acc2>>(b.T())); auto r = apply_inverse_on_right(B, LL); same<F>(c, rdd<F>(r), b.T() * inv, t + "A / L"); } { auto B = own(mkd<F, DM<F, Acc2>>(b)); l_solve(LL, B[0]); auto w = inv * b; for (int i = 0; i < n; i++) c.check(FT<F>::to(B[0][i]) == w(i, 0), t + "l_solve of one column"); } }); }); }
PART("dense: triangular solves") { switch (c.choose(3)) { case 0: solves<F2>(c); break; case 1: solves<F3>(c); break; default: solves<QQ>(c); } }
PART("dense: larger matrices") { Big big; fields(c, [&](auto z, int) { typedef decltype(z) F; int m = dim(c, 11), n = dim(c, 9); auto a = choose_mat<F>(c, m, n, FT<F>::order == 0 ? 3 : 5); int o = c.choose(4); c.shard_here(); note<F>(c, a, 77); int k = 0; orders([&](auto acc, const string& s) { if (k++ == o) { dense_factor<F, decltype(acc)>(c, a, s); if (FT<F>::order == 3 || c.tier) dense_storage<F, decltype(acc)>(c, a, s); dense_products<F, decltype(acc), RowMaj>(c, a, a.T(), s); dense_products<F, RevColMaj, decltype(acc)>(c, a.T(), a, s); } }); }); }
