// type-A quivers: interval decomposition from generalised ranks; homology of sequences of subcomplexes and maps
#pragma once
#include "bridge.hpp"
template <class F> struct Quiver { std::vector<int> dim; std::vector<char> left; std::vector<RM<F>> map; };
// generalised rank of the restriction to nodes i..j : rank of limit -> colimit
template <class F> int zrank(const Quiver<F>& q, int i, int j) {
    std::vector<int> off; int n = 0; for (int k = i; k <= j; k++) { off.push_back(n); n += q.dim[k]; } int rows = 0; for (int e = i; e < j; e++) rows += q.map[e].m;
    RM<F> C(rows, n), K(n, 0); int r = 0, kc = 0; for (int e = i; e < j; e++) kc += q.map[e].n; K = RM<F>(n, kc); kc = 0;
    for (int e = i; e < j; e++) { auto& f = q.map[e]; int s = off[e - i + (q.left[e] ? 1 : 0)], t = off[e - i + (q.left[e] ? 0 : 1)];
        for (int a = 0; a < f.m; a++) { for (int b = 0; b < f.n; b++) C(r + a, s + b) = f(a, b); C(r + a, t + a) = C(r + a, t + a) - RF<F>(1); } r += f.m;
        for (int b = 0; b < f.n; b++) { K(s + b, kc + b) = RF<F>(1); for (int a = 0; a < f.m; a++) K(t + a, kc + b) = RF<F>(0) - f(a, b); } kc += f.n; }
    auto L = C.kernel(); RM<F> P(n, (int)L.n); for (int c = 0; c < L.n; c++) for (int a = 0; a < q.dim[i]; a++) P(a, c) = L(a, c);
    return K.hcat(P).rank() - K.rank();
}
template <class F> std::map<std::pair<int, int>, int> decomposition(const Quiver<F>& q) {
    int N = q.dim.size(); std::vector<std::vector<int>> r(N + 2, std::vector<int>(N + 2, 0)); for (int i = 0; i < N; i++) for (int j = i; j < N; j++) r[i + 1][j + 1] = zrank<F>(q, i, j);
    std::map<std::pair<int, int>, int> m; for (int i = 1; i <= N; i++) for (int j = i; j <= N; j++) { int x = r[i][j] - r[i - 1][j] - r[i][j + 1] + r[i - 1][j + 1]; if (x) m[{i - 1, j - 1}] = x; } return m;
}
// coordinates of the columns of Z in the columns of Y modulo the columns of B (Y independent modulo B, all of Z in the span)
template <class R> ref::Mat<R> coords(const ref::Mat<R>& Y, const ref::Mat<R>& B, const ref::Mat<R>& Z) {
    auto M = Y.hcat(B).hcat(Z); auto piv = M.rref(); ref::Mat<R> X(Y.n, Z.n); int h = Y.n + B.n;
    for (size_t r = 0; r < piv.size(); r++) if (piv[r] < Y.n) for (int j = 0; j < Z.n; j++) X(piv[r], j) = M((int)r, h + j); return X;
}
// columns of K chosen to be a basis of span(K) modulo span(B)
template <class R> ref::Mat<R> complement(const ref::Mat<R>& B, const ref::Mat<R>& K) { auto M = B.hcat(K); auto piv = M.rref(); std::vector<int> p; for (int j : piv) if (j >= B.n) p.push_back(j - B.n); return K.permcols(p); }
// H_k of every subcomplex of a sequence (in[t][d][i]: cell i of dimension d present), D: boundary matrices of the ambient complex,
// grow[t]: step t -> t+1 is an inclusion (else the reverse); bars by node, isomorphic steps merged
template <class F> std::map<std::pair<int, int>, int> subcomplex_bars(const std::vector<RM<F>>& D, const std::vector<std::vector<std::vector<char>>>& in, const std::vector<char>& grow, int k) {
    typedef RF<F> R; int N = (int)in.size(), n = D[k].n; std::vector<RM<F>> B(N), Y(N);
    for (int t = 0; t < N; t++) { std::vector<int> ck, cu; for (int i = 0; i < n; i++) if (in[t][k][i]) ck.push_back(i); if (k + 1 < (int)D.size()) for (int i = 0; i < D[k + 1].n; i++) if (in[t][k + 1][i]) cu.push_back(i);
        B[t] = k + 1 < (int)D.size() ? D[k + 1].permcols(cu) : RM<F>(n, 0); auto Kc = D[k].permcols(ck).kernel(); RM<F> K(n, Kc.n); for (size_t a = 0; a < ck.size(); a++) for (int j = 0; j < Kc.n; j++) K(ck[a], j) = Kc((int)a, j); Y[t] = complement(B[t], K); }
    Quiver<F> q; std::vector<std::pair<int, int>> span; // span: nodes merged into one
    for (int t = 0; t < N; t++) {
        if (t) { int s = grow[t - 1] ? t - 1 : t, u = grow[t - 1] ? t : t - 1; auto f = coords(Y[u], B[u], Y[s]);
            if (f.m == f.n && f.rank() == f.n) { span.back().second = t; if (!(f == RM<F>::eye(f.n))) { // re-express the newer node in the older coordinates
                    Y[t] = grow[t - 1] ? Y[t] * f : Y[t] * f.inverse(); } continue; }
            q.left.push_back(!grow[t - 1]); q.map.push_back(f); }
        q.dim.push_back(Y[t].n); span.push_back({t, t}); }
    std::map<std::pair<int, int>, int> out; for (auto& [b, m] : decomposition<F>(q)) out[{span[b.first].first, span[b.second].second}] += m; return out;
}
