// C03: column and compressed-sparse-column matrices against dense linear algebra.
#include "bridge.hpp"
using namespace std;
template <class F> void same(mc::Ctx& c, const CM<F>& A, const RM<F>& w, const char* what) {
    c.op(); c.checkf((int)A.nrow() == w.m && (int)A.ncol() == w.n && A.cols().size() == A.ncol(), [&] { return FT<F>::name() + string(" ") + what + ": shape " + to_string(A.nrow()) + "x" + to_string(A.ncol()) + ", expected " + to_string(w.m) + "x" + to_string(w.n); });
    auto r = rdmat<F>(A, c, what); c.checkf(r == w, [&] { return FT<F>::name() + string(" ") + what + ": got " + r.str() + ", expected " + w.str(); });
}
template <class F> SV<F> vec(const vector<RF<F>>& v) { return mkvec<F>(v); }
template <class F> vector<RF<F>> mulv(const RM<F>& A, const vector<RF<F>>& x) { vector<RF<F>> y(A.m); for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) y[i] = y[i] + A(i, j) * x[j]; return y; }

template <class F> void single(mc::Ctx& c, int mmax, int nmax, int k) {
    int m = dim(c, mmax), n = dim(c, nmax); auto a = choose_mat<F>(c, m, n, k); c.shard_here(); c << a.str(); c.state(a.hash() + FT<F>::order);
    const CM<F> A = mkmat<F>(a); same<F>(c, A, a, "construction");
    same<F>(c, A.T(), a.T(), "transpose"); same<F>(c, A.transpose(), a.T(), "transpose");
    size_t nz = 0; for (auto& x : a.a) nz += !x.zero(); c.check(A.nnz() == nz && A.is_zero() == (nz == 0), "number of non-zeros");
    for (auto s : FT<F>::alphabet(4)) same<F>(c, A * FT<F>::from(s), a.scaled(s), "scalar multiple");
    auto ra = A.to_row_array(); F* d = A.dump_dense(); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c.check(FT<F>::to(A(i, j)) == a(i, j) && FT<F>::to(A.getval(i, j)) == a(i, j) && FT<F>::to(ra[i][j]) == a(i, j) && FT<F>::to(d[i + j * m]) == a(i, j), "entry access / dense dumps"); delete[] d; c.check((int)ra.size() == m, "row array has the wrong number of rows");
    same<F>(c, CM<F>::identity(n), RM<F>::eye(n), "identity"); same<F>(c, CM<F>(m, n), RM<F>(m, n), "zero matrix"); { RM<F> o(m, n); for (auto& x : o.a) x = RF<F>(1); same<F>(c, CM<F>(m, n, F(1)), o, "constant matrix"); }
    same<F>(c, A * CM<F>::identity(n), a, "A * I"); same<F>(c, CM<F>::identity(m) * A, a, "I * A"); same<F>(c, A - A, RM<F>(m, n), "A - A"); same<F>(c, A + A, a + a, "A + A"); { CM<F> B = A; B += B; same<F>(c, B, a + a, "B += B"); }
    { // products with every vector
        int tot = 1, q = (int)FT<F>::alphabet(k).size(); if (big_mode()) tot = 24; else for (int j = 0; j < n; j++) tot *= q; auto al = FT<F>::alphabet(k);
        typename CM<F>::tmp_type tmp;
        for (int t = 0; t < tot; t++) { vector<RF<F>> x; int u = t; for (int j = 0; j < n; j++) { x.push_back(big_mode() ? patterns()[t / 2].on(j, t) ? al[1 + (t + j) % (q - 1)] : RF<F>(0) : al[u % q]); u /= q; } auto w = mulv<F>(a, x); SV<F> X = vec<F>(x); c.check(rdvec<F>(A * X, m, c, "A x") == w && rdvec<F>(A.gemv(X), m, c, "A x") == w && rdvec<F>(A.gemv(X, tmp), m, c, "A x") == w, "matrix-vector product"); c.check(rdvec<F>(X, n, c, "x") == x, "operand of a product changed"); 
            c.check(rdvec<F>(X * A.T(), m, c, "x^T A") == w, "vector-matrix product"); c.op(4); }
    }
    // blocks and submatrices
    int stp = big_mode() ? 9 : 1; for (int i0 = 0; i0 <= m; i0 += stp) for (int i1 = i0; i1 <= m; i1 += stp) for (int j0 = 0; j0 <= n; j0 += stp) for (int j1 = j0; j1 <= n; j1 += stp) same<F>(c, A.block(i0, i1, j0, j1), a.block(i0, i1, j0, j1), "block");
    if (m <= 3 && n <= 3) { // every ordered selection of rows and columns
        vector<vector<int>> selm, seln; function<void(vector<int>, int, vector<vector<int>>&)> rec = [&](vector<int> s, int mm, vector<vector<int>>& out) { out.push_back(s); for (int i = 0; i < mm; i++) if (find(s.begin(), s.end(), i) == s.end()) { auto t = s; t.push_back(i); rec(t, mm, out); } }; rec({}, m, selm); rec({}, n, seln);
        for (auto& r : selm) for (auto& s : seln) same<F>(c, A.submatrix(up(r), up(s)), a.permrows(r).permcols(s), "submatrix");
    }
    if (big_mode()) for (int r = 0; r < 4; r++) { auto P = choose_perm(c, m), Q = choose_perm(c, n); P.resize(m - r * (m / 5)); Q.resize(n - r * (n / 5)); same<F>(c, A.submatrix(up(P), up(Q)), a.permrows(P).permcols(Q), "submatrix"); break; }
    // comparison
    c.check(A == CM<F>(A), "equality of a copy"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { auto b = a; b(i, j) = b(i, j) + RF<F>(1); c.check(!(A == mkmat<F>(b)), "matrices differing in one entry compare equal"); }
    { RM<F> b(m + 1, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) b(i, j) = a(i, j); c.check(!(A == mkmat<F>(b)), "matrices of different shape compare equal"); }
    // structural sums
    { auto b = RM<F>::eye(2); auto D = direct_sum(A, mkmat<F>(b)); RM<F> w(m + 2, n + 2); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w(i, j) = a(i, j); w(m, n) = w(m + 1, n + 1) = RF<F>(1); same<F>(c, D, w, "direct sum"); auto E = direct_sum(mkmat<F>(b), A); RM<F> e(m + 2, n + 2); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e(i + 2, j + 2) = a(i, j); e(0, 0) = e(1, 1) = RF<F>(1); same<F>(c, E, e, "direct sum"); }
    same<F>(c, A, a, "operand"); if (nz) c.interesting(); c.outcome(mc::mix(nz, a.rank()));
}
PART("single matrices, F2") { single<F2>(c, c.tier ? 4 : 3, c.tier ? 4 : 3, 2); }
PART("single matrices, F3") { single<F3>(c, c.tier ? 3 : 2, 3, 3); }
PART("single matrices, Q") { single<QQ>(c, 2, 2, 4); }
template <class F> void product(mc::Ctx& c, int mmax, int k) {
    int m = dim(c, mmax), n = dim(c, mmax), p = dim(c, mmax); auto a = choose_mat<F>(c, m, n, k); c.shard_here(); auto b = choose_mat<F>(c, n, p, k); c << a.str() << b.str(); c.state(mc::mix(a.hash(), b.hash())); const CM<F> A = mkmat<F>(a), B = mkmat<F>(b);
    same<F>(c, A * B, a * b, "matrix product"); same<F>(c, A, a, "operand"); same<F>(c, B, b, "operand"); c.check((A == B) == (a == b), "equality"); c.interesting(); c.outcome((a * b).hash());
}
PART("products, F2") { product<F2>(c, c.tier ? 3 : 2, 2); } 
PART("products of 3x3, F2") { auto a = choose_mat<F2>(c, 3, 3, 2); c.shard_here(); auto b = choose_mat<F2>(c, 3, 3, 2); c.state(mc::mix(a.hash(), b.hash())); same<F2>(c, mkmat<F2>(a) * mkmat<F2>(b), a * b, "matrix product"); c.interesting(); }
PART("products, F3") { product<F3>(c, 2, 3); }
PART("products, Q") { product<QQ>(c, 2, c.tier ? 4 : 3); }
template <class F> void sums(mc::Ctx& c, int mmax, int k) {
    int m = dim(c, mmax), n = dim(c, mmax); auto a = choose_mat<F>(c, m, n, k); c.shard_here(); auto b = choose_mat<F>(c, m, n, k); c << a.str() << b.str(); c.state(mc::mix(a.hash(), b.hash())); const CM<F> A = mkmat<F>(a), B = mkmat<F>(b);
    same<F>(c, A + B, a + b, "matrix sum"); same<F>(c, A - B, a - b, "matrix difference"); { CM<F> C = A; C += B; same<F>(c, C, a + b, "in-place sum"); } same<F>(c, A, a, "operand"); same<F>(c, B, b, "operand"); c.check((A == B) == (a == b), "equality"); 
    { RM<F> w(m * m, n * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int s = 0; s < m; s++) for (int t = 0; t < n; t++) w(i * m + s, j * n + t) = a(i, j) * b(s, t); same<F>(c, tensor_product(A, B), w, "Kronecker product of matrices"); }
    c.interesting(); c.outcome((a - b).hash());
}
PART("sums and differences, F2") { sums<F2>(c, c.tier ? 3 : 2, 2); }
PART("sums and differences, F3") { sums<F3>(c, 2, 3); }
PART("sums and differences, Q") { sums<QQ>(c, 2, 3); }

// ---- compressed sparse columns ----------------------------------------------------------------
typedef ref::Fr ZZ; // integers as fractions with denominator 1
template <class T> struct VT; template <> struct VT<int> { typedef ref::Fr R; static R to(int x) { return R(x); } static int from(R x) { return (int)x.n; } static vector<R> al() { return {R(0), R(1), R(-1), R(3)}; } };
template <> struct VT<F3> { typedef FT<F3>::R R; static R to(F3 x) { return FT<F3>::to(x); } static F3 from(R x) { return FT<F3>::from(x); } static vector<R> al() { return FT<F3>::alphabet(); } };
template <class T> ref::Mat<typename VT<T>::R> rd(mc::Ctx& c, const CSCMatrix<T, size_t>& A, const char* what) {
    ref::Mat<typename VT<T>::R> r(A.nrow(), A.ncol()); auto& cp = A.get_colptr(); auto& ri = A.get_rowind(); auto& v = A.get_val();
    c.checkf(cp.size() == A.ncol() + 1 && cp[0] == 0 && cp.back() == ri.size() && ri.size() == v.size(), [&] { return string(what) + ": column pointers inconsistent with the stored entries"; });
    for (size_t j = 0; j < A.ncol(); j++) for (size_t k = cp[j]; k < cp[j + 1]; k++) { c.checkf(ri[k] < A.nrow() && (k == cp[j] || ri[k - 1] < ri[k]), [&] { return string(what) + ": row indices not strictly increasing or out of range"; }); r(ri[k], j) = VT<T>::to(v[k]); c.checkf(!VT<T>::to(v[k]).zero(), [&] { return string(what) + ": explicit zero stored"; }); c.check(VT<T>::to(A.getval(ri[k], j)) == r(ri[k], j), "getval"); }
    return r;
}
template <class T> CSCMatrix<T, size_t> mk(const ref::Mat<typename VT<T>::R>& a, bool rev) { vector<size_t> cp{0}, ri; vector<T> v; for (int j = 0; j < a.n; j++) { for (int q = 0; q < a.m; q++) { int i = rev ? a.m - 1 - q : q; if (!a(i, j).zero()) { ri.push_back(i); v.push_back(VT<T>::from(a(i, j))); } } cp.push_back(ri.size()); } return CSCMatrix<T, size_t>(a.m, a.n, cp, ri, v); }
template <class T> ref::Mat<typename VT<T>::R> chm(mc::Ctx& c, int m, int n, int k) { auto al = VT<T>::al(); al.resize(k); ref::Mat<typename VT<T>::R> a(m, n); for (auto& x : a.a) x = al[c.choose(k)]; return a; }
template <class T> void csc1(mc::Ctx& c, int mmax, int k) {
    int m = dim(c, mmax), n = dim(c, mmax); auto a = chm<T>(c, m, n, k); c.shard_here(); bool rev = c.flip(); c << a.str(); c.state(mc::mix(a.hash(), rev)); auto A = mk<T>(a, rev);
    auto eq = [&](const CSCMatrix<T, size_t>& X, const ref::Mat<typename VT<T>::R>& w, const char* what) { c.op(); auto r = rd<T>(c, X, what); c.checkf(r == w, [&] { return string(what) + " (CSC): got " + r.str() + ", expected " + w.str(); }); };
    eq(A, a, "construction"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c.check(VT<T>::to(A.getval(i, j)) == a(i, j), "getval");
    vector<vector<int>> selm, seln; function<void(vector<int>, int, vector<vector<int>>&)> rec = [&](vector<int> s, int mm, vector<vector<int>>& out) { out.push_back(s); for (int i = 0; i < mm; i++) if (find(s.begin(), s.end(), i) == s.end()) { auto t = s; t.push_back(i); rec(t, mm, out); } }; rec({}, m, selm); rec({}, n, seln);
    for (auto& r : selm) for (auto& s : seln) { auto w = a.permrows(r).permcols(s);
        // submatrix keeps the order of rows in each column of the source; compare entries only
        auto S = A.submatrix(up(r), up(s)); c.op(); c.check((int)S.nrow() == w.m && (int)S.ncol() == w.n, "submatrix shape"); for (int i = 0; i < w.m; i++) for (int j = 0; j < w.n; j++) c.check(VT<T>::to(S.getval(i, j)) == w(i, j), "submatrix of a CSC matrix");
        CSCMatrix<T, size_t> B; block_select(A, up(s), bats::util::partial_perm(up(r), m), r.size(), B); c.op(); c.check((int)B.nrow() == w.m && (int)B.ncol() == w.n, "selected block shape"); for (int i = 0; i < w.m; i++) for (int j = 0; j < w.n; j++) c.check(VT<T>::to(B.getval(i, j)) == w(i, j), "block selected from a CSC matrix"); 
        // two complementary row blocks at once
        vector<int> rest; for (int i = 0; i < m; i++) if (find(r.begin(), r.end(), i) == r.end()) rest.push_back(i);
        CSCMatrix<T, size_t> X, Y; auto p1 = bats::util::partial_perm(up(r), m), p2 = bats::util::partial_perm(up(rest), m); block_select(A, up(s), {&p1, &p2}, {r.size(), rest.size()}, {&X, &Y}); eq(X, w, "row blocks selected together"); eq(Y, a.permrows(rest).permcols(s), "row blocks selected together"); }
    c.interesting(); c.outcome(a.hash());
}
PART("CSC matrices over the integers: access and selection") { csc1<int>(c, 2, 4); }
PART("CSC matrices over F3: access and selection") { csc1<F3>(c, 2, 3); }
PART("CSC 3x3 selections") { csc1<int>(c, 3, 2); }
template <class T> void csc2(mc::Ctx& c, int mmax, int k) {
    typedef typename VT<T>::R R; int m = dim(c, mmax), n = dim(c, mmax); auto a = chm<T>(c, m, n, k); c.shard_here(); int p = dim(c, mmax); auto b = chm<T>(c, n, p, k); c << a.str() << b.str(); c.state(mc::mix(a.hash(), b.hash()));
    auto A = mk<T>(a, false), B = mk<T>(b, true); auto eq = [&](const CSCMatrix<T, size_t>& X, const ref::Mat<R>& w, const char* what) { c.op(); auto r = rd<T>(c, X, what); c.checkf(r == w, [&] { return string(what) + " (CSC): got " + r.str() + ", expected " + w.str() + " from " + a.str() + b.str(); }); };
    eq(A * B, a * b, "product"); { CSCMatrix<T, size_t> C = A; gemm(A, B, C); eq(C, a * b, "gemm into a used matrix"); } eq(A, a, "operand"); eq(B, b, "operand"); c.interesting(); c.outcome((a * b).hash());
}
PART("CSC products over the integers") { csc2<int>(c, 2, 3); }
PART("CSC products over F3") { csc2<F3>(c, 2, 3); }
template <class T> void csc3(mc::Ctx& c, int mmax, int k) {
    typedef typename VT<T>::R R; int m = dim(c, mmax), n = dim(c, mmax); auto a = chm<T>(c, m, n, k); c.shard_here(); auto b = chm<T>(c, m, n, k); c << a.str() << b.str(); c.state(mc::mix(a.hash(), b.hash()));
    auto A = mk<T>(a, false), B = mk<T>(b, true); auto eq = [&](const CSCMatrix<T, size_t>& X, const ref::Mat<R>& w, const char* what) { c.op(); auto r = rd<T>(c, X, what); c.checkf(r == w, [&] { return string(what) + " (CSC): got " + r.str() + ", expected " + w.str() + " from " + a.str() + b.str(); }); };
    CSCMatrix<T, size_t> C; sum(A, B, C); eq(C, a + b, "sum"); for (int s : {0, 1, -1, 2}) { CSCMatrix<T, size_t> D = A; sum(T(s), A, B, D); eq(D, a.scaled(R(s)) + b, "scaled sum"); } c.interesting(); c.outcome((a + b).hash());
}
PART("CSC sums over the integers") { csc3<int>(c, 2, 4); }
PART("CSC sums over F3") { csc3<F3>(c, 2, 3); }
template <class F> void conv(mc::Ctx& c, int m, int n) { // integer CSC -> column matrix over a field
    ref::Mat<ref::Fr> a(m, n); static const int al[] = {0, 1, -1, 2, 3, -4, 6}; for (auto& x : a.a) x = ref::Fr(al[c.choose(7)]); c.shard_here(); c << a.str(); c.state(a.hash()); auto A = mk<int>(a, false); RM<F> w(m, n); for (size_t i = 0; i < a.a.size(); i++) w.a[i] = RF<F>(a.a[i].n); same<F>(c, CM<F>(A), w, "conversion from integer CSC");
    vector<SparseVector<int, size_t>> cols; for (int j = 0; j < n; j++) { vector<size_t> ix; vector<int> v; for (int i = 0; i < m; i++) if (!a(i, j).zero()) { ix.push_back(i); v.push_back(a(i, j).n); } cols.push_back(SparseVector<int, size_t>(ix, v)); }
    same<F>(c, CM<F>(ColumnMatrix<SparseVector<int, size_t>>(m, n, cols)), w, "conversion from an integer column matrix"); c.interesting(); c.outcome(w.hash());
}
PART("integer matrices converted to fields") { int m = c.range(0, 2), n = c.range(0, 2); int f = c.choose(4); if (f == 0) conv<F2>(c, m, n); if (f == 1) conv<F3>(c, m, n); if (f == 2) conv<F5>(c, m, n); if (f == 3) conv<QQ>(c, m, n); }
PART("larger patterned matrices") { Big b; if (c.flip()) single<F2>(c, 34, 18, 2); else single<F3>(c, 18, 34, 3); }
PART("products of larger patterned matrices") { Big b; int w = c.choose(3); if (w == 0) product<F2>(c, 34, 2); if (w == 1) product<F3>(c, 20, 3); if (w == 2) sums<F3>(c, 18, 3); }
