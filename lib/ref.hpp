// Boring reference models, independent of the code under test.
#pragma once
#include <vector>
#include <string>
#include <sstream>
#include <numeric>
#include <set>
#include <map>
#include <algorithm>
#include <cstdint>
#include <cassert>
#include <functional>

namespace ref {

template <int P> struct Zp {
    int v; Zp(long long x = 0) : v((int)(((x % P) + P) % P)) {}
    Zp operator+(Zp o) const { return Zp(v + o.v); } Zp operator-(Zp o) const { return Zp(v - o.v); }
    Zp operator*(Zp o) const { return Zp((long long)v * o.v); } Zp operator-() const { return Zp(-v); }
    Zp inv() const { for (int i = 1; i < P; i++) if ((long long)i * v % P == 1) return Zp(i); assert(false); return Zp(0); }
    Zp operator/(Zp o) const { return *this * o.inv(); }
    bool operator==(Zp o) const { return v == o.v; } bool operator!=(Zp o) const { return v != o.v; }
    bool zero() const { return v == 0; } std::string str() const { return std::to_string(v); } uint64_t key() const { return v; }
};
struct Fr {
    long long n, d;
    Fr(long long a = 0, long long b = 1) { long long g = std::gcd(a, b); if (g == 0) g = 1; if (b < 0) g = -g; n = a / g; d = b / g; }
    Fr operator+(Fr o) const { return Fr(n * o.d + o.n * d, d * o.d); } Fr operator-(Fr o) const { return Fr(n * o.d - o.n * d, d * o.d); }
    Fr operator*(Fr o) const { return Fr(n * o.n, d * o.d); } Fr operator-() const { return Fr(-n, d); }
    Fr inv() const { return Fr(d, n); } Fr operator/(Fr o) const { return Fr(n * o.d, d * o.n); }
    bool operator==(Fr o) const { return n == o.n && d == o.d; } bool operator!=(Fr o) const { return !(*this == o); }
    bool zero() const { return n == 0; } std::string str() const { return d == 1 ? std::to_string(n) : std::to_string(n) + "/" + std::to_string(d); }
    uint64_t key() const { return (uint64_t)n * 1000003ULL + (uint64_t)d; }
};

template <class R> struct Mat {
    int m = 0, n = 0; std::vector<R> a;
    Mat() {} Mat(int m, int n) : m(m), n(n), a((size_t)m * n) {}
    R& operator()(int i, int j) { return a[(size_t)i * n + j]; } const R& operator()(int i, int j) const { return a[(size_t)i * n + j]; }
    static Mat eye(int n) { Mat e(n, n); for (int i = 0; i < n; i++) e(i, i) = R(1); return e; }
    bool operator==(const Mat& o) const { return m == o.m && n == o.n && a == o.a; } bool operator!=(const Mat& o) const { return !(*this == o); }
    Mat operator*(const Mat& o) const { Mat r(m, o.n); for (int i = 0; i < m; i++) for (int k = 0; k < n; k++) if (!(*this)(i, k).zero()) for (int j = 0; j < o.n; j++) r(i, j) = r(i, j) + (*this)(i, k) * o(k, j); return r; }
    Mat operator+(const Mat& o) const { Mat r(m, n); for (size_t i = 0; i < a.size(); i++) r.a[i] = a[i] + o.a[i]; return r; }
    Mat operator-(const Mat& o) const { Mat r(m, n); for (size_t i = 0; i < a.size(); i++) r.a[i] = a[i] - o.a[i]; return r; }
    Mat scaled(R c) const { Mat r(m, n); for (size_t i = 0; i < a.size(); i++) r.a[i] = c * a[i]; return r; }
    Mat T() const { Mat r(n, m); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r(j, i) = (*this)(i, j); return r; }
    bool iszero() const { for (auto& x : a) if (!x.zero()) return false; return true; }
    std::vector<R> col(int j) const { std::vector<R> c(m); for (int i = 0; i < m; i++) c[i] = (*this)(i, j); return c; }
    // row echelon in place; returns pivots
    std::vector<int> rref() {
        std::vector<int> piv; int r = 0;
        for (int j = 0; j < n && r < m; j++) {
            int k = r; while (k < m && (*this)(k, j).zero()) k++;
            if (k == m) continue;
            if (k != r) for (int c = 0; c < n; c++) std::swap((*this)(k, c), (*this)(r, c));
            R iv = (*this)(r, j).inv(); for (int c = 0; c < n; c++) (*this)(r, c) = (*this)(r, c) * iv;
            for (int i = 0; i < m; i++) if (i != r && !(*this)(i, j).zero()) { R f = (*this)(i, j); for (int c = 0; c < n; c++) (*this)(i, c) = (*this)(i, c) - f * (*this)(r, c); }
            piv.push_back(j); r++;
        }
        return piv;
    }
    int rank() const { Mat t = *this; return (int)t.rref().size(); }
    Mat block(int i0, int i1, int j0, int j1) const { Mat r(i1 - i0, j1 - j0); for (int i = i0; i < i1; i++) for (int j = j0; j < j1; j++) r(i - i0, j - j0) = (*this)(i, j); return r; }
    Mat kernel() const { // columns span the null space
        Mat t = *this; auto piv = t.rref(); std::vector<int> ispiv(n, -1); for (size_t k = 0; k < piv.size(); k++) ispiv[piv[k]] = (int)k;
        Mat K(n, n - (int)piv.size()); int c = 0;
        for (int j = 0; j < n; j++) if (ispiv[j] < 0) { K(j, c) = R(1); for (size_t k = 0; k < piv.size(); k++) K(piv[k], c) = -t((int)k, j); c++; }
        return K;
    }
    Mat hcat(const Mat& o) const { int mm = std::max(m, o.m); Mat r(mm, n + o.n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r(i, j) = (*this)(i, j); for (int i = 0; i < o.m; i++) for (int j = 0; j < o.n; j++) r(i, n + j) = o(i, j); return r; }
    Mat vcat(const Mat& o) const { return T().hcat(o.T()).T(); }
    Mat permcols(const std::vector<int>& p) const { Mat r(m, (int)p.size()); for (int j = 0; j < (int)p.size(); j++) for (int i = 0; i < m; i++) r(i, j) = (*this)(i, p[j]); return r; }
    Mat permrows(const std::vector<int>& p) const { Mat r((int)p.size(), n); for (int i = 0; i < (int)p.size(); i++) for (int j = 0; j < n; j++) r(i, j) = (*this)(p[i], j); return r; }
    bool invertible() const { return m == n && rank() == n; }
    Mat inverse() const { Mat t = hcat(eye(m)); t.rref(); return t.block(0, m, n, 2 * n); }
    R det() const { Mat t = *this; R d(1); for (int j = 0; j < n; j++) { int k = j; while (k < n && t(k, j).zero()) k++; if (k == n) return R(0); if (k != j) { for (int c = 0; c < n; c++) std::swap(t(k, c), t(j, c)); d = -d; } d = d * t(j, j); R iv = t(j, j).inv(); for (int i = j + 1; i < n; i++) { R f = t(i, j) * iv; for (int c = 0; c < n; c++) t(i, c) = t(i, c) - f * t(j, c); } } return d; }
    bool upper() const { for (int i = 0; i < m; i++) for (int j = 0; j < n && j < i; j++) if (!(*this)(i, j).zero()) return false; return true; }
    bool lower() const { for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) if (!(*this)(i, j).zero()) return false; return true; }
    std::string str() const { std::string s = "[" + std::to_string(m) + "x" + std::to_string(n) + ":"; for (int i = 0; i < m; i++) { s += i ? "; " : " "; for (int j = 0; j < n; j++) s += (j ? " " : "") + (*this)(i, j).str(); } return s + "]"; }
    uint64_t hash() const { uint64_t h = m * 131 + n; for (auto& x : a) { h ^= x.key() + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; } return h; }
};
template <class R> bool in_span(const Mat<R>& B, const std::vector<R>& v) { Mat<R> c((int)v.size(), 1); for (size_t i = 0; i < v.size(); i++) c((int)i, 0) = v[i]; Mat<R> BB = B; BB.m = B.m; return B.hcat(c).rank() == B.rank(); }

// persistence pivots of a matrix by corner ranks: (i,j) is a pivot pair iff
// r(i,j) - r(i+1,j) - r(i,j-1) + r(i+1,j-1) == 1, r(i,j) = rank of rows >= i, columns <= j
template <class R> std::vector<std::pair<int, int>> corner_pairs(const Mat<R>& M) {
    auto r = [&](int i, int j) { if (j < 0 || i >= M.m) return 0; return M.block(i, M.m, 0, j + 1).rank(); };
    std::vector<std::vector<int>> t(M.m + 1, std::vector<int>(M.n + 1, 0));
    for (int i = 0; i <= M.m; i++) for (int j = 0; j <= M.n; j++) t[i][j] = r(i, j - 1);
    std::vector<std::pair<int, int>> out;
    for (int i = 0; i < M.m; i++) for (int j = 0; j < M.n; j++) if (t[i][j + 1] - t[i + 1][j + 1] - t[i][j] + t[i + 1][j] == 1) out.push_back({i, j});
    return out;
}
// faster: standard left-to-right reduction on a dense matrix (same pairs; cross-checked against corner_pairs in selftest)
template <class R> std::vector<std::pair<int, int>> reduce_pairs(Mat<R> M) {
    std::vector<int> low(M.m, -1); std::vector<std::pair<int, int>> out;
    for (int j = 0; j < M.n; j++) {
        for (;;) {
            int i = M.m - 1; while (i >= 0 && M(i, j).zero()) i--;
            if (i < 0) break;
            if (low[i] < 0) { low[i] = j; out.push_back({i, j}); break; }
            R f = M(i, j) / M(i, low[i]); for (int k = 0; k <= i; k++) M(k, j) = M(k, j) - f * M(k, low[i]);
        }
    }
    return out;
}

// ---- simplicial sets --------------------------------------------------------------------
typedef std::vector<int> Spx;
inline std::vector<Spx> all_simplices(int nv, int maxdim) { // by dimension, then lexicographic
    std::vector<Spx> out;
    for (int d = 0; d <= maxdim; d++) { std::vector<int> sel(nv, 0); std::fill(sel.begin(), sel.begin() + std::min(d + 1, nv), 1); if (d + 1 > nv) break; do { Spx s; for (int i = 0; i < nv; i++) if (sel[i]) s.push_back(i); out.push_back(s); } while (std::prev_permutation(sel.begin(), sel.end())); }
    return out;
}
inline std::vector<Spx> faces(const Spx& s) { std::vector<Spx> f; if (s.size() < 2) return f; for (size_t i = 0; i < s.size(); i++) { Spx t = s; t.erase(t.begin() + i); f.push_back(t); } return f; }
inline std::string spx_str(const Spx& s) { std::string r; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]); return "(" + r + ")"; }
template <class C> std::vector<std::vector<Spx>> by_dim(const C& cells) { std::vector<std::vector<Spx>> r; for (auto& s : cells) { size_t d = s.size() - 1; if (r.size() <= d) r.resize(d + 1); r[d].push_back(s); } return r; }
// boundary matrix of dim k for per-dimension cell lists
template <class R> Mat<R> boundary(const std::vector<std::vector<Spx>>& cells, int k) {
    int m = (k >= 1 && k - 1 < (int)cells.size()) ? (int)cells[k - 1].size() : 0, n = (k >= 0 && k < (int)cells.size()) ? (int)cells[k].size() : 0;
    Mat<R> B(m, n); if (k == 0) return B;
    std::map<Spx, int> idx; for (int i = 0; i < m; i++) idx[cells[k - 1][i]] = i;
    for (int j = 0; j < n; j++) { auto f = faces(cells[k][j]); for (size_t i = 0; i < f.size(); i++) { auto it = idx.find(f[i]); if (it != idx.end()) B(it->second, j) = (i % 2 == 0) ? R(1) : R(-1); } }
    return B;
}
template <class R> std::vector<int> betti(const std::vector<Mat<R>>& d) { // d[k]: C_k -> C_{k-1}
    std::vector<int> b; int K = (int)d.size(); std::vector<int> rk(K + 1, 0); for (int k = 0; k < K; k++) rk[k] = d[k].m ? d[k].rank() : 0;
    for (int k = 0; k < K; k++) b.push_back(d[k].n - rk[k] - (k + 1 < K ? rk[k + 1] : 0)); return b;
}
template <class R> std::vector<Mat<R>> complex_of(const std::vector<std::vector<Spx>>& cells) { std::vector<Mat<R>> d; for (int k = 0; k < (int)cells.size(); k++) d.push_back(boundary<R>(cells, k)); return d; }

} // namespace ref
