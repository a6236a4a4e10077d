// C07: column reduction contract, for every matrix up to the bounds and every entry point.
#include "bridge.hpp"
using namespace std;

template <class F> void check_reduced(mc::Ctx& c, const RM<F>& B, const CM<F>& R, const vector<size_t>& p2c, const CM<F>* U, bool extra, const string& name) {
    c.op();
    auto r = rdmat<F>(R, c, name.c_str());
    c.checkf(r.m == B.m && r.n == B.n, [&] { return name + ": reduced matrix changed shape"; });
    auto ref = ref::corner_pairs(B);
    set<pair<int, int>> want(ref.begin(), ref.end()), got;
    for (int j = 0; j < r.n; j++) { int i = r.m - 1; while (i >= 0 && r(i, j).zero()) i--; if (i >= 0) got.insert({i, j}); }
    c.checkf(got == want, [&] { return name + ": pivots of the reduced matrix are not those determined by corner ranks; input " + B.str() + " reduced " + r.str(); });
    c.checkf((int)p2c.size() == B.m, [&] { return name + ": pivot table has wrong length"; });
    set<pair<int, int>> tab; for (size_t i = 0; i < p2c.size(); i++) if (p2c[i] != bats::NO_IND) tab.insert({(int)i, (int)p2c[i]});
    c.checkf(tab == want, [&] { return name + ": pivot table does not list exactly the pivots; input " + B.str() + " reduced " + r.str(); });
    for (int j = 0; j <= r.n; j++) { // same column-space filtration
        auto b1 = B.block(0, B.m, 0, j), r1 = r.block(0, r.m, 0, j);
        int rb = b1.rank(); c.checkf(r1.rank() == rb && b1.hcat(r1).rank() == rb, [&] { return name + ": span of leading columns changed; input " + B.str() + " reduced " + r.str(); });
    }
    if (U) {
        auto u = rdmat<F>(*U, c, "basis");
        c.checkf(u.m == B.n && u.n == B.n && u.upper() && u.invertible(), [&] { return name + ": basis is not invertible upper triangular " + u.str(); });
        c.checkf(B * u == r, [&] { return name + ": input * basis != reduced; input " + B.str() + " U " + u.str() + " R " + r.str(); });
    }
    if (extra) for (auto& p : want) for (int j = p.second + 1; j < r.n; j++)
        c.checkf(r(p.first, j).zero(), [&] { return name + ": extra reduction left an entry in an earlier pivot row; input " + B.str() + " reduced " + r.str(); });
    if (!want.empty() && (int)want.size() < r.n) c.interesting();
    uint64_t h = 7; for (auto& p : want) h = mc::mix(h, p.first * 64 + p.second); c.outcome(mc::mix(h, extra));
}

template <class F> void run(mc::Ctx& c, const RM<F>& B) {
    c << FT<F>::name() << " " << B.str(); c.state(mc::mix(FT<F>::order, B.hash()));
    const CM<F> M = mkmat<F>(B);
    auto I = [&] { return CM<F>::identity(B.n); };
    { auto R = M; auto p = bats::reduce_matrix(R); check_reduced<F>(c, B, R, p, nullptr, false, "default"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U); check_reduced<F>(c, B, R, p, &U, false, "default+basis"); }
    { auto R = M; auto p = bats::reduce_matrix(R, bats::standard_reduction_flag()); check_reduced<F>(c, B, R, p, nullptr, false, "standard"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U, bats::standard_reduction_flag()); check_reduced<F>(c, B, R, p, &U, false, "standard+basis"); }
    { auto R = M; auto p = bats::reduce_matrix(R, bats::extra_reduction_flag()); check_reduced<F>(c, B, R, p, nullptr, true, "extra"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U, bats::extra_reduction_flag()); check_reduced<F>(c, B, R, p, &U, true, "extra+basis"); }
    { auto R = M; auto p = bats::reduce_matrix(R, bats::divide_conquer_flag()); check_reduced<F>(c, B, R, p, nullptr, false, "divide-conquer"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U, bats::divide_conquer_flag()); check_reduced<F>(c, B, R, p, &U, false, "divide-conquer+basis"); }
    auto table = [&](const unordered_map<size_t, size_t>& m) { vector<size_t> t(B.m, bats::NO_IND); for (auto& kv : m) if (kv.first < t.size()) t[kv.first] = kv.second; return t; };
    auto nzlist = [&](const CM<F>& R, vector<size_t> nz, const char* n) { sort(nz.begin(), nz.end()); vector<size_t> w; for (size_t j = 0; j < R.ncol(); j++) if (R[j].nnz()) w.push_back(j); c.checkf(nz == w, [&] { return string(n) + ": list of non-zero columns is wrong; input " + B.str(); }); };
    for (size_t bs = 2; bs <= 3; bs++) { // force the recursion that large matrices take
        { auto R = M; auto U = I(); auto t = bats::reduce_block_dq(R, U, 0, B.n, bs); check_reduced<F>(c, B, R, table(get<0>(t)), &U, false, "dq recursion+basis"); nzlist(R, get<1>(t), "dq recursion+basis"); }
        for (size_t depth = 0; depth <= 2; depth++) { auto R = M; auto t = bats::reduce_block_dq(R, 0, B.n, bs, 0, depth); check_reduced<F>(c, B, R, table(get<0>(t)), nullptr, false, "dq recursion"); nzlist(R, get<1>(t), "dq recursion"); }
    }
    { auto R = M; vector<size_t> p(B.m, bats::NO_IND); map<F, size_t> co; typename SV<F>::tmp_type tmp; for (int j = 0; j < B.n; j++) bats::reduce_column_sparsify(R, j, p, co, tmp); check_reduced<F>(c, B, R, p, nullptr, false, "sparsifying"); }
    for (size_t bs = 1; bs <= 3; bs++) { // blocked partial reduction followed by the full one
        { auto R = M; auto U = I(); bats::partial_reduce_parallel(R, U, bs); auto p = bats::reduce_matrix(R, U); check_reduced<F>(c, B, R, p, &U, false, "partial+basis"); }
        { auto R = M; bats::partial_reduce_parallel(R, bs); auto p = bats::reduce_matrix(R); check_reduced<F>(c, B, R, p, nullptr, false, "partial"); }
    }
}
template <class F> void shape(mc::Ctx& c, vector<pair<int, int>> sh, int letters = 3) {
    auto s = c.pick(sh); auto al = FT<F>::alphabet(letters); RM<F> B(s.first, s.second); size_t k = 0;
    for (auto& x : B.a) { x = al[c.choose((int)al.size())]; if (++k == 4) c.shard_here(); }
    if (k < 4) c.shard_here();
    run<F>(c, B);
}
PART("F2 matrices") { vector<pair<int, int>> sh; for (int m = 0; m <= 4; m++) for (int n = 0; n <= 4; n++) if (m * n <= 12 || c.tier) sh.push_back({m, n}); sh.push_back({2, 5}); sh.push_back({1, 6}); sh.push_back({5, 2}); if (c.tier) { sh.push_back({3, 6}); sh.push_back({6, 3}); sh.push_back({4,5}); } shape<F2>(c, sh); }
PART("F3 matrices") { vector<pair<int, int>> sh{{0, 2}, {1, 1}, {1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {1, 4}}; if (c.tier) for (auto x : {pair<int, int>{3, 3}, {2, 4}, {4, 2}, {2, 5}}) sh.push_back(x); else { sh.push_back({2, 4}); } shape<F3>(c, sh); }
PART("Q matrices") { vector<pair<int, int>> sh{{1, 1}, {1, 2}, {2, 2}, {2, 3}, {3, 2}}; if (c.tier) sh.push_back({3, 3}); shape<QQ>(c, sh, 3); }
PART("Q matrices, wider alphabet") { vector<pair<int, int>> sh{{2, 2}, {1, 3}}; if (c.tier) sh.push_back({2, 3}); shape<QQ>(c, sh, 5); }
// clearing and compression use the reduction of the neighbouring boundary: every composable pair with zero product
template <class F, class Fl> void chained(mc::Ctx& c, const RM<F>& A, const RM<F>& D, Fl fl, bool extra, const string& fn) {
    using namespace bats; auto RD = mkmat<F>(D); auto UD = CM<F>::identity(D.n); auto pD = reduce_matrix(RD, UD, fl); auto inds = get_clearing_inds(pD);
    { auto R = mkmat<F>(A); auto p = reduce_matrix_clearing(R, inds, fl); check_reduced<F>(c, A, R, p, nullptr, extra, fn + "+clearing"); }
    { auto R = mkmat<F>(A); auto U = CM<F>::identity(A.n); auto p = reduce_matrix_clearing(R, U, RD, pD, fl); check_reduced<F>(c, A, R, p, &U, extra, fn + "+clearing+basis"); }
    auto RA = mkmat<F>(A); reduce_matrix(RA, fl); auto comp = get_compression_inds(RA); auto want = ref::corner_pairs(D); set<pair<int, int>> w(want.begin(), want.end());
    auto D0 = D; for (int i = 0; i < D.m; i++) if (comp[i]) for (int j = 0; j < D.n; j++) D0(i, j) = RF<F>(0);
    for (int b = 0; b < 2; b++) { string what = fn + (b ? "+compression+basis" : "+compression"); auto R = mkmat<F>(D); auto U = CM<F>::identity(D.n); auto p = b ? reduce_matrix_compression(R, U, comp, fl) : reduce_matrix_compression(R, comp, fl); c.op();
        auto r = rdmat<F>(R, c, what.c_str()); set<pair<int, int>> got, tab; for (int j = 0; j < r.n; j++) { int i = r.m - 1; while (i >= 0 && r(i, j).zero()) i--; if (i >= 0) got.insert({i, j}); } for (size_t i = 0; i < p.size(); i++) if (p[i] != NO_IND) tab.insert({(int)i, (int)p[i]});
        c.checkf(r.m == D.m && r.n == D.n && got == w && tab == w, [&] { return what + ": pivots are not those of the input; input " + D.str() + " reduced " + r.str(); });
        if (b) { auto u = rdmat<F>(U, c, "basis"); c.checkf(u.m == D.n && u.n == D.n && u.upper() && u.invertible() && D0 * u == r, [&] { return what + ": compressed input * basis != reduced; input " + D.str() + " U " + u.str() + " R " + r.str(); }); } }
}
template <class F> void pair_part(mc::Ctx& c, vector<array<int, 3>> sh) {
    auto s = c.pick(sh); auto al = FT<F>::alphabet(3); RM<F> A(s[0], s[1]), D(s[1], s[2]); for (auto& x : A.a) x = al[c.choose((int)al.size())]; c.shard_here();
    for (int j = 0; j < D.n; j++) { for (int i = 0; i < D.m; i++) D(i, j) = al[c.choose((int)al.size())]; for (int i = 0; i < A.m; i++) { RF<F> t(0); for (int k = 0; k < A.n; k++) t = t + A(i, k) * D(k, j); if (!t.zero()) c.prune(); } }
    c << FT<F>::name() << " " << A.str() << " o " << D.str() << " = 0"; c.state(mc::mix(mc::mix(77, FT<F>::order), mc::mix(A.hash(), D.hash())));
    chained<F>(c, A, D, bats::standard_reduction_flag(), false, "standard"); chained<F>(c, A, D, bats::extra_reduction_flag(), true, "extra"); chained<F>(c, A, D, bats::divide_conquer_flag(), false, "divide-conquer");
}
PART("F2 clearing and compression") { vector<array<int, 3>> sh{{0, 2, 2}, {1, 2, 2}, {2, 2, 2}, {1, 3, 2}, {2, 3, 2}, {2, 3, 3}, {1, 4, 2}, {2, 4, 2}, {3, 3, 2}}; if (c.tier) for (auto x : {array<int, 3>{2, 4, 3}, {3, 4, 2}, {3, 4, 3}, {2, 5, 2}}) sh.push_back(x); pair_part<F2>(c, sh); }
PART("F3 clearing and compression") { vector<array<int, 3>> sh{{0, 2, 2}, {1, 2, 2}, {2, 2, 2}, {1, 3, 2}}; if (c.tier) for (auto x : {array<int, 3>{2, 3, 2}, {1, 4, 2}, {2, 3, 3}}) sh.push_back(x); pair_part<F3>(c, sh); }
PART("Q clearing and compression") { vector<array<int, 3>> sh{{1, 2, 1}, {1, 2, 2}, {1, 3, 1}}; if (c.tier) sh.push_back({2, 3, 2}); pair_part<QQ>(c, sh); }
// larger inputs in patterned families; chains of boundaries are made as products that vanish
PART("larger patterned matrices") { Big b; int m = dim(c, c.tier ? 34 : 18), n = dim(c, c.tier ? 40 : 20); if (c.flip()) { auto B = choose_mat<F2>(c, m, n, 2); c.shard_here(); run<F2>(c, B); } else { auto B = choose_mat<F3>(c, m, n, 3); c.shard_here(); run<F3>(c, B); } }
template <class F> void big_pair(mc::Ctx& c, int m, int k, int n) { auto A = choose_mat<F>(c, m, k, 3); auto K = A.kernel(); if (!K.n) c.prune(); auto D = K * choose_mat<F>(c, K.n, n, 3); c.shard_here(); c << FT<F>::name() << " " << A.str() << " o " << D.str(); c.state(mc::mix(A.hash(), D.hash())); int f = c.choose(3); if (f == 0) chained<F>(c, A, D, bats::standard_reduction_flag(), false, "standard"); if (f == 1) chained<F>(c, A, D, bats::extra_reduction_flag(), true, "extra"); if (f == 2) chained<F>(c, A, D, bats::divide_conquer_flag(), false, "divide-conquer"); }
PART("larger patterned pairs with clearing and compression") { Big b; if (c.flip()) big_pair<F2>(c, 9, 18, 14); else big_pair<F3>(c, 8, 17, 12); }
// wide matrices: the library's own block sizes (256 and 1024 columns) are crossed, once and twice
template <class F> struct Wide {
    typedef RF<F> R; RM<F> B; vector<pair<int, int>> want; vector<vector<R>> ech; vector<int> at; // echelon basis and the column each element came with
    Wide(const RM<F>& b) : B(b) { map<int, int> piv; for (int j = 0; j < B.n; j++) { auto v = B.col(j); int i; while ((i = low(v)) >= 0 && piv.count(i)) sub(v, ech[piv[i]], i); if (i >= 0) { piv[i] = ech.size(); ech.push_back(v); at.push_back(j); want.push_back({i, j}); } } sort(want.begin(), want.end()); }
    static int low(const vector<R>& v) { int i = (int)v.size() - 1; while (i >= 0 && v[i].zero()) i--; return i; }
    static void sub(vector<R>& v, const vector<R>& w, int i) { R a = v[i] / w[i]; for (int k = 0; k <= i; k++) v[k] = v[k] - a * w[k]; }
    void judge(mc::Ctx& c, const CM<F>& Rm, const vector<size_t>& p2c, const CM<F>* U, bool extra, const string& n) {
        c.op(); auto r = rdmat<F>(Rm, c, n); c.check(r.m == B.m && r.n == B.n && (int)p2c.size() == B.m, n + ": shape"); vector<pair<int, int>> got, tab; map<int, int> by; for (size_t k = 0; k < ech.size(); k++) by[low(ech[k])] = k;
        for (int j = 0; j < r.n; j++) { auto v = r.col(j); int i = low(v); if (i >= 0) got.push_back({i, j}); while ((i = low(v)) >= 0 && by.count(i) && at[by[i]] <= j) sub(v, ech[by[i]], i); c.checkf(low(v) < 0, [&] { return n + ": column " + to_string(j) + " leaves the span of the leading columns"; }); }
        sort(got.begin(), got.end()); c.check(got == want, n + ": pivots of the reduced matrix"); for (int i = 0; i < B.m; i++) if (p2c[i] != bats::NO_IND) tab.push_back({i, (int)p2c[i]}); c.check(tab == want, n + ": pivot table");
        if (U) for (int j = 0; j < B.n; j++) { vector<R> v(B.m); bool diag = false; for (auto it = (*U)[j].nzbegin(); it != (*U)[j].nzend(); ++it) { c.check((int)it->ind <= j, n + ": basis is not upper triangular"); if ((int)it->ind == j) diag = true; R a = FT<F>::to(it->val); for (int i = 0; i < B.m; i++) if (!B(i, (int)it->ind).zero()) v[i] = v[i] + a * B(i, (int)it->ind); } c.checkf(diag && v == r.col(j), [&] { return n + ": input * basis is not the reduced matrix in column " + to_string(j); }); }
        if (extra) for (auto& p : want) for (int j = p.second + 1; j < r.n; j++) c.check(r(p.first, j).zero(), n + ": extra reduction left an entry"); } };
template <class F> void wide(mc::Ctx& c, int m, int n, int pat) {
    RM<F> B(m, n); auto put = [&](long i, int j, int v) { i %= m; if (B(i, j).zero()) B(i, j) = RF<F>(v % 2 ? 1 : -1); };
    for (int j = 0; j < n; j++) switch (pat) { case 0: put(j * 7L + j / 5, j, 1); put(j * 3L + 1, j, 2); break; case 1: put(m - 1 - (j / 40) % m, j, j); put(j * 5L + j / 11, j, 1); put((long)j * j, j, 0); break; case 2: if (j % 3) { put(j / 30, j, 1); put(j * 13L + 2, j, 1); put(j * 29L + j / 17, j, j); put(j + j / 64, j, 2); } break; default: put(j < n / 2 ? j % (m / 2) : (long)j * 11, j, 1); put(j * 2L + j / (m / 2), j, 2); }
    c << FT<F>::name() << " " << m << "x" << n << " pattern " << pat; c.state(mc::mix(mc::mix(m, n), pat * 10 + FT<F>::order)); Wide<F> W(B); const CM<F> M = mkmat<F>(B); auto I = [&] { return CM<F>::identity(n); };
    { auto R = M; auto p = bats::reduce_matrix(R, bats::divide_conquer_flag()); W.judge(c, R, p, nullptr, false, "wide divide-conquer"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U, bats::divide_conquer_flag()); W.judge(c, R, p, &U, false, "wide divide-conquer+basis"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U, bats::extra_reduction_flag()); W.judge(c, R, p, &U, true, "wide extra+basis"); }
    { auto R = M; auto U = I(); auto p = bats::reduce_matrix(R, U, bats::standard_reduction_flag()); W.judge(c, R, p, &U, false, "wide standard+basis"); }
    { auto R = M; auto U = I(); bats::partial_reduce_parallel(R, U, (size_t)100); auto p = bats::reduce_matrix(R, U); W.judge(c, R, p, &U, false, "wide partial+basis"); }
    if (W.want.size() > 20) c.interesting(); c.outcome(W.want.size());
}
PART("wide matrices") { static const int S[][2] = {{40, 300}, {60, 2200}, {25, 1100}, {50, 600}, {300, 260}, {80, 4200}}; auto s = S[c.choose(c.tier ? 6 : 5)]; int pat = c.choose(4); bool three = c.flip(); c.shard_here(); if (three) wide<F3>(c, s[0], s[1], pat); else wide<F2>(c, s[0], s[1], pat); }
