// C29: future::Matrix: storage, views, products, LU, spans, similarity and permutations against exact linear algebra.
#include "dense.hpp"
// ------------------------------------------------------------------ future: storage, views, elementary operations
template <class F> void storage(mc::Ctx& c, const RM<F>& a) {
    typedef RF<F> R; for (int cm = 0; cm < 2; cm++) { string n = cm ? "column-major" : "row-major"; auto A = mkf<F>(a, cm); c.op(); eq<F>(c, A, a, n); c.check(A.nrow() == (size_t)a.m && A.ncol() == (size_t)a.n && A.len() == a.a.size() && A.dims().first == (size_t)a.m && A.dims().second == (size_t)a.n, n + " dimensions");
        for (size_t k = 0; k < a.a.size(); k++) { auto want = cm ? a(int(k % a.m), int(k / a.m)) : a(int(k / a.n), int(k % a.n)); const auto& CA = A; c.check(FT<F>::to(A[k]) == want && FT<F>::to(A(k)) == want && FT<F>::to(CA[k]) == want && FT<F>::to(CA(k)) == want && FT<F>::to(A.data()[k]) == want, n + " linear access"); }
        for (int i = 0; i < a.m; i++) { auto r = A.row(i); vector<R> pre, post, idx, back; for (auto it = r.begin(); it != r.end(); ++it) pre.push_back(FT<F>::to(*it)); for (auto it = r.begin(); it != r.end();) post.push_back(FT<F>::to(*it++)); for (int j = 0; j < a.n; j++) idx.push_back(FT<F>::to(r[j])); auto it = r.end(); while (it != r.begin()) { --it; back.push_back(FT<F>::to(*it)); } reverse(back.begin(), back.end()); vector<R> w; for (int j = 0; j < a.n; j++) w.push_back(a(i, j)); c.check(pre == w && post == w && idx == w && back == w, n + ": a row view"); const auto& cr = r; vector<R> cc; for (auto q = cr.begin(); q != cr.end();) cc.push_back(FT<F>::to(*q++)); c.check(cc == w, n + ": a constant row view"); auto e = r.end(); auto e1 = e; auto old = e--; c.check(old == e1 && FT<F>::to(*e) == w.back(), n + ": stepping a row iterator back"); c.check(FT<F>::to(*(r.begin() + (a.n - 1))) == w.back(), n + ": row iterator plus offset"); }
        for (int j = 0; j < a.n; j++) { auto r = A.column(j); vector<R> pre, post, idx; for (auto it = r.begin(); it != r.end(); ++it) pre.push_back(FT<F>::to(*it)); for (auto it = r.cbegin(); it != r.cend();) post.push_back(FT<F>::to(*it++)); for (int i = 0; i < a.m; i++) idx.push_back(FT<F>::to(r[i])); c.check(pre == a.col(j) && post == a.col(j) && idx == a.col(j), n + ": a column view"); }
        eq<F>(c, A.transpose(), a.T(), n + " transpose"); { auto B = A; B.fill(F(1)); RM<F> o(a.m, a.n); for (auto& x : o.a) x = R(1); eq<F>(c, B, o, n + " fill"); eq<F>(c, A, a, n + " original after fill of a copy"); }
        for (int k = 0; k < a.m; k++) for (int l = 0; l < a.m; l++) { auto B = A; B.swap_rows(k, l); eq<F>(c, B, E_swap<R>(a.m, k, l) * a, n + " swap_rows"); for (auto& s : FT<F>::alphabet(3)) { auto D = A; D.add_row(lib<F>(s), (size_t)k, (size_t)l); eq<F>(c, D, E_add<R>(a.m, l, k, s) * a, n + " add_row"); } auto G = A; G.add_row((size_t)k, (size_t)l); eq<F>(c, G, E_add<R>(a.m, l, k, R(1)) * a, n + " add_row"); }
        for (int k = 0; k < a.n; k++) for (int l = 0; l < a.n; l++) { auto B = A; B.swap_columns(k, l); eq<F>(c, B, a * E_swap<R>(a.n, k, l), n + " swap_columns"); for (auto& s : FT<F>::alphabet(3)) { auto D = A; D.add_column(lib<F>(s), (size_t)k, (size_t)l); eq<F>(c, D, a * E_add<R>(a.n, k, l, s), n + " add_column"); } auto G = A; G.add_column((size_t)k, (size_t)l); eq<F>(c, G, a * E_add<R>(a.n, k, l, R(1)), n + " add_column"); }
        for (auto& s : FT<F>::alphabet(3)) { for (int i = 0; i < a.m; i++) { auto B = A; B.scale_row(lib<F>(s), i); eq<F>(c, B, E_scale<R>(a.m, i, s) * a, n + " scale_row"); } for (int j = 0; j < a.n; j++) { auto B = A; B.scale_column(lib<F>(s), j); eq<F>(c, B, a * E_scale<R>(a.n, j, s), n + " scale_column"); } }
        { auto B = A; bool ok = B.append_column(F(1)); auto w = a; RM<F> one(a.m, 1); for (auto& x : one.a) x = R(1); if (ok) { eq<F>(c, B, a.hcat(one), n + " append_column"); c.check(B.delete_column(), n + " delete_column after append_column"); } else c.check(!cm, n + ": append_column refuses a column-major matrix"); eq<F>(c, B, a, n + " append and delete a column"); auto D = A; if (D.append_column()) eq<F>(c, D, a.hcat(RM<F>(a.m, 1)), n + " append a zero column"); if (A.ncol() > 1) { auto G = A; if (G.delete_column()) { vector<int> p; for (int j = 0; j + 1 < a.n; j++) p.push_back(j); eq<F>(c, G, a.permcols(p), n + " delete_column"); } } }
        // views by index lists and ranges, writing through
        for (int mask = 1; mask < 1 << a.n; mask++) { vector<size_t> cs; vector<int> ci; for (int j = a.n - 1; j >= 0; j--) if (mask >> j & 1) { cs.push_back(j); ci.push_back(j); } vector<size_t> rs{(size_t)a.m - 1, 0}; vector<int> ri{a.m - 1, 0}; auto V = A.view(rs, cs); same<F>(c, rdf<F>(V), a.permrows(ri).permcols(ci), n + " view"); auto W = A.view(fu::range<size_t>(0, a.m), fu::range<size_t>(0, ci.size())); vector<int> id; for (size_t t = 0; t < ci.size(); t++) id.push_back(t); same<F>(c, rdf<F>(W), a.permcols(id), n + " view of ranges"); auto B = A; auto VB = B.view(rs, cs); VB(0, 0) = F(1) - VB(0, 0); auto w = a; w(ri[0], ci[0]) = R(1) - w(ri[0], ci[0]); eq<F>(c, B, w, n + " write through a view"); vector<size_t> full; for (int i = 0; i < a.m; i++) full.push_back(i); auto VF = A.view(full, cs); same<F>(c, rdf<F>(A.transpose().mm(VF)), a.T() * a.permcols(ci), n + " product with a view"); }
        { auto B = A; B.row(0)[0] = F(1) - B.row(0)[0]; auto w = a; w(0, 0) = R(1) - w(0, 0); eq<F>(c, B, w, n + " write through a row view"); B.column(a.n - 1)[a.m - 1] = F(0); w(a.m - 1, a.n - 1) = R(0); eq<F>(c, B, w, n + " write through a column view"); }
    }
    fu::RowMajor rm; fu::ColumnMajor cmj; FM<F> X((size_t)a.m, (size_t)a.n, F(1), rm), Y((size_t)a.m, (size_t)a.n, F(1), cmj), Z((size_t)a.m, (size_t)a.n, F(1)); RM<F> o(a.m, a.n); for (auto& x : o.a) x = R(1); eq<F>(c, X, o, "filled row-major"); eq<F>(c, Y, o, "filled column-major"); eq<F>(c, Z, o, "filled"); eq<F>(c, FM<F>((size_t)a.m, (size_t)a.n), RM<F>(a.m, a.n), "zero matrix"); eq<F>(c, FM<F>::identity(a.m), RM<F>::eye(a.m), "identity");
}
PART("future: storage, views and elementary operations") { fields(c, [&](auto z, int s) { typedef decltype(z) F; if (FT<F>::order == 0 && s > 5) s = 5; if (!c.tier && FT<F>::order == 3) s = 7; every<F>(c, s, [&](const RM<F>& a) { note<F>(c, a, 1); storage<F>(c, a); }); }); }
PART("future: products") { fields(c, [&](auto z, int) { typedef decltype(z) F; int m = 1 + c.choose(2), k = 1 + c.choose(FT<F>::order == 2 ? 3 : 2), n = 1 + c.choose(2); c.shard_here(); auto a = choose_mat<F>(c, m, k), b = choose_mat<F>(c, k, n); note<F>(c, a, 2); note<F>(c, b, 3); for (int q = 0; q < 4; q++) { c.op(); auto A = mkf<F>(a, q & 1), B = mkf<F>(b, q & 2); same<F>(c, rdf<F>(A.mm(B)), a * b, "mm"); same<F>(c, rdf<F>(A * B), a * b, "operator*"); same<F>(c, rdf<F>(fu::gemm(A, B)), a * b, "gemm"); vector<F> x; for (auto& v : b.col(0)) x.push_back(lib<F>(v)); RM<F> w(m, 1); auto ab = a * b; for (int i = 0; i < m; i++) w(i, 0) = ab(i, 0); auto y = A.mv(x); same<F>(c, rdf<F>(y), w, "mv"); FM<F> out((size_t)m, 2, F(1)); fu::gemv(A, x, out.column(1)); RM<F> e(m, 2); for (int i = 0; i < m; i++) { e(i, 0) = RF<F>(1); e(i, 1) = w(i, 0); } eq<F>(c, out, e, "gemv into a column"); } }); }
template <class F> void lu(mc::Ctx& c, const RM<F>& a) { for (int cm = 0; cm < 2; cm++) { c.op(); auto A = mkf<F>(a, cm); auto f = fu::LU(A); auto p = rdf<F>(f.P), l = rdf<F>(f.L), u = rdf<F>(f.U), q = rdf<F>(f.Q); eq<F>(c, A, a, "the factored matrix"); c.check(p.m == a.m && l.m == a.m && l.n == a.m && u.m == a.m && u.n == a.n && q.m == a.n, "LU: shapes"); c.checkf(isperm(p) && isperm(q), [&] { return "LU: not permutations: " + p.str() + " " + q.str(); }); c.checkf(unitlower(l), [&] { return "LU: not unit lower triangular: " + l.str(); }); c.checkf(isupper(u), [&] { return "LU: not upper triangular: " + u.str(); }); same<F>(c, p * l * u * q, a, "LU: the product P L U Q"); same<F>(c, rdf<F>(f.prod()), a, "LU: prod()");
        int r = a.rank(); for (int i = 0; i < u.m; i++) for (int j = 0; j < u.n; j++) if (i >= r) c.check(u(i, j).zero(), "LU: complete pivoting leaves nonzero rows below the rank"); for (int i = 0; i < r; i++) c.check(!u(i, i).zero(), "LU: zero pivot above the rank"); } }
PART("future: LU of every small matrix") { fields(c, [&](auto z, int s) { typedef decltype(z) F; every<F>(c, s, [&](const RM<F>& a) { note<F>(c, a, 4); lu<F>(c, a); }); }); }
PART("future: LU of larger matrices over F2") { static const int sh[][2] = {{3, 4}, {4, 3}, {2, 5}, {5, 2}, {4, 4}}; int s = c.choose(c.tier ? 5 : 4); auto a = choose_mat<F2>(c, sh[s][0], sh[s][1]); c.shard_here(); note<F2>(c, a, 5); lu<F2>(c, a); }
PART("future: LU with long row and column cycles") { int n = c.tier ? 5 : 4; auto p = choose_perm(c, n); auto q = choose_perm(c, n); c.shard_here(); RM<F3> a(n, n); for (int i = 0; i < n; i++) a(p[i], i) = RF<F3>(1 + i % 2); a = a.permcols(q); for (int i = 0; i < n; i++) a(q[i], p[i]) = a(q[i], p[i]) + RF<F3>(1); note<F3>(c, a, 6); lu<F3>(c, a); }
PART("future: LU of empty matrices") { int m = c.choose(3), n = m == 0 ? c.choose(3) : 0; RM<F3> a(m, n); note<F3>(c, a, 7); auto A = mkf<F3>(a, c.flip()); auto f = fu::LU(A); c.op(); c.check(f.P.nrow() == (size_t)m && f.Q.nrow() == (size_t)n && f.U.nrow() == (size_t)m && f.U.ncol() == (size_t)n, "LU of an empty matrix: shapes"); same<F3>(c, rdf<F3>(f.prod()), a, "LU of an empty matrix"); }
PART("future: triangular solves and residuals") { fields(c, [&](auto z, int) { typedef decltype(z) F; typedef RF<F> R; int m = 1 + c.choose(3), n = c.choose(m + 1); if (FT<F>::order == 0 && m == 3) c.prune(); RM<F> l(m, n); for (int j = 0; j < n; j++) for (int i = j; i < m; i++) l(i, j) = i == j ? R(1) : c.pick(FT<F>::alphabet(3)); c.shard_here(); auto y = choose_vec<F>(c, m); RM<F> yy(m, 1); for (int i = 0; i < m; i++) yy(i, 0) = y[i]; note<F>(c, l, 8); note<F>(c, yy, 9);
    auto Lm = mkf<F>(l, c.flip()); vector<F> Y, x(n, F(1)), Y2; for (auto& v : y) { Y.push_back(lib<F>(v)); } Y2 = Y; c.op(); bool ok = fu::l_solve(Lm, Y, x); RM<F> xx(n, 1), rr(m, 1), r2(m, 1); for (int i = 0; i < n; i++) xx(i, 0) = FT<F>::to(x[i]); for (int i = 0; i < m; i++) rr(i, 0) = FT<F>::to(Y[i]); same<F>(c, l * xx + rr, yy, "l_solve: L x plus the residual"); for (int i = 0; i < n; i++) c.check(rr(i, 0).zero(), "l_solve: residual not zero on the pivot rows"); c.check(ok == rr.iszero(), "l_solve: wrong answer about consistency"); fu::l_residual(Lm, Y2); for (int i = 0; i < m; i++) r2(i, 0) = FT<F>::to(Y2[i]); same<F>(c, r2, rr, "l_residual"); auto Y3 = mkf<F>(yy, false); fu::l_residual(Lm.view(fu::range<size_t>(0, m), fu::range<size_t>(0, n)), Y3.column(0)); same<F>(c, rdf<F>(Y3), rr, "l_residual of views"); }); }
// ------------------------------------------------------------------ spans, similarity, permutations
template <class F> void span(mc::Ctx& c, int n, int len) { typedef RF<F> R; fu::Span S((size_t)n, F()); RM<F> in(n, 0); vector<vector<R>> all; function<void(vector<R>)> rec = [&](vector<R> v) { if ((int)v.size() == n) { all.push_back(v); return; } for (auto& x : FT<F>::alphabet(3)) { v.push_back(x); rec(v); v.pop_back(); } }; rec({}); mc::Hash h; h(n); h(FT<F>::order);
    for (int t = 0; t < len; t++) { auto& v = all[c.choose((int)all.size())]; if (t == 1) c.shard_here(); RM<F> w(n, 1); vector<F> lv; for (int i = 0; i < n; i++) { w(i, 0) = v[i]; lv.push_back(lib<F>(v[i])); h(v[i].key()); } auto nx = in.hcat(w); bool grows = nx.rank() > in.rank(); c.op(); if (c.verbose) c << vstr(v); bool got = S.add(lv); c.checkf(got == grows, [&] { return "Span::add returned " + to_string(got) + " for " + vstr(v) + " after " + in.str(); }); in = nx; c.check(S.dim() == (size_t)in.rank() && S.vdim() == (size_t)n, "Span::dim");
        for (auto& u : all) { RM<F> um(n, 1); vector<F> lu; for (int i = 0; i < n; i++) { um(i, 0) = u[i]; lu.push_back(lib<F>(u[i])); } bool want = in.hcat(um).rank() == in.rank(); c.checkf(S.contains(lu) == want, [&] { return "Span::contains is " + to_string(!want) + " for " + vstr(u) + " in the span of " + in.str(); }); }
        c.state(h.h); } c.outcome(h.h); if (in.rank() > 1) c.interesting(); }
PART("future: spans, every sequence of vectors") { switch (c.choose(4)) { case 0: span<F2>(c, 3, c.tier ? 5 : 4); break; case 1: span<F3>(c, 2, c.tier ? 5 : 4); break; case 2: span<F3>(c, 3, c.tier ? 3 : 2); break; default: span<F2>(c, 4, c.tier ? 4 : 3); } }
template <class F> void similarity(mc::Ctx& c, int n, int len) { typedef RF<F> R; auto a = choose_mat<F>(c, n, n); c.shard_here(); fu::SimilarityTransform<F> S(mkf<F>(a, c.flip())); note<F>(c, a, 10); auto cur = a; mc::Hash h; h(n); for (auto& x : a.a) h(x.key());
    for (int t = 0; t < len; t++) { int op = c.choose(5); int i = c.choose(n), j = c.choose(n); RM<F> e; c.op(); auto al = FT<F>::alphabet(3); if (op == 0) { S.swap_rows(i, j); e = E_swap<R>(n, i, j); } else if (op == 1) { S.swap_columns(i, j); e = E_swap<R>(n, i, j); } else if (op == 2) { if (i == j) c.prune(); auto s = al[c.choose((int)al.size())]; S.add_row(lib<F>(s), (size_t)i, (size_t)j); e = E_add<R>(n, j, i, s); } else { if (j) c.prune(); auto s = al[1 + c.choose((int)al.size() - 1)]; if (op == 3) { S.scale_row(lib<F>(s), i); e = E_scale<R>(n, i, s); } else { S.scale_column(lib<F>(s), i); e = E_scale<R>(n, i, s.inv()); } }
        cur = e * cur * e.inverse(); eq<F>(c, S.A, cur, "similarity transform: the transformed matrix"); same<F>(c, rdf<F>(S.S) * rdf<F>(S.Sinv), RM<F>::eye(n), "similarity transform: S times its inverse"); same<F>(c, rdf<F>(S.prod()), a, "similarity transform: the product"); c.check(S.size() == (size_t)n && FT<F>::to(S(0, n - 1)) == cur(0, n - 1), "similarity transform: access"); h(op * 64 + i * 8 + j); c.state(h.h); } }
PART("future: similarity transforms") { switch (c.choose(3)) { case 0: similarity<F3>(c, 2, c.tier ? 3 : 2); break; case 1: similarity<F2>(c, 3, c.tier ? 2 : 1); break; default: similarity<QQ>(c, 2, c.tier ? 2 : 1); } }
PART("future: permutations as sequences of swaps") { int n = 3, len = c.choose(c.tier ? 4 : 3); vector<int> v{10, 20, 30}, w = v; fu::CompositePermutation P, Q; string s; mc::Hash h;
    for (int t = 0; t < len; t++) { int i = c.choose(n), j = c.choose(n); h(i * 4 + j); c.op(); fu::ElementaryPermutation e(i, j); if (c.flip()) P.swap(i, j); else if (c.flip()) P.append(e); else e(P); std::swap(w[i], w[j]); s += "(" + to_string(i) + "," + to_string(j) + ")"; auto x = v; e(x); auto y = v; std::swap(y[i], y[j]); c.check(x == y, "an elementary permutation"); x = e(vector<int>(v)); c.check(x == y, "an elementary permutation of a temporary"); }
    auto x = v; P(x); c.checkf(x == w, [&] { return "composite permutation " + s; }); { vector<int> z = P(vector<int>(v)); c.checkf(z == w, [&] { return "composite permutation of a temporary " + s; }); } ostringstream o; o << P; c.checkf(o.str() == (len ? s : "()"), [&] { return "printed " + o.str() + " expected " + s; }); int i = c.choose(n), j = c.choose(n); P(fu::ElementaryPermutation(i, j)); x = v; P(x); auto y = v; std::swap(y[i], y[j]); { vector<int> z = y; string t = s; size_t p = 0; while (p < t.size()) { int a = t[p + 1] - '0', b = t[p + 3] - '0'; std::swap(z[a], z[b]); p += 5; } c.checkf(x == z, [&] { return "composite permutation after another swap: " + s; }); } c.state(h.h); c.outcome(h.h); if (len > 1) c.interesting(); }
PART("future: ranges") { long b = c.range(-3, 3), len = c.range(0, 4), st = c.pick(vector<long>{1, 2, -1, -2, 0}); c.op(); c.interesting(); long s = st ? st : 1, e = b + s * len; if (!st && c.flip()) { s = -1; e = b - len; } fu::range<long> r = st ? fu::range<long>(b, e, s) : fu::range<long>(b, e); c.state(mc::mix(b + 50, mc::mix(len, s + 50))); c.outcome(mc::mix(e + 50, s + 50)); string n = "range(" + to_string(b) + "," + to_string(e) + (st ? "," + to_string(s) : "") + ")"; c.checkf(r.size() == (size_t)len, [&] { return n + ": size " + to_string(r.size()); }); for (long i = 0; i < len; i++) c.check(r[i] == b + s * i, n + " element"); if (r.size() == (size_t)len) { vector<long> got; for (auto it = r.begin(); it != r.end() && got.size() < 9; ++it) got.push_back(*it); vector<long> g2; for (auto it = r.cbegin(); it != r.cend() && g2.size() < 9;) g2.push_back(*it++); vector<long> w; for (long i = 0; i < len; i++) w.push_back(b + s * i); c.check(got == w, n + ": iteration"); c.check(g2 == w, n + ": iteration by postfix increment"); } }
PART("future: larger matrices") { Big big; fields(c, [&](auto z, int) { typedef decltype(z) F; int m = dim(c, 11), n = dim(c, 9); auto a = choose_mat<F>(c, m, n, FT<F>::order == 0 ? 3 : 5); c.shard_here(); note<F>(c, a, 78); lu<F>(c, a); if (FT<F>::order == 3) storage<F>(c, a); }); }
