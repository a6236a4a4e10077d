// filtered complexes: expected persistence pairs (by corner ranks of the sorted boundary) and enumeration helpers
#pragma once
#include "homopts.hpp"
#include "reps.hpp"
typedef std::vector<ref::Spx> Cells;
typedef std::vector<std::vector<double>> Vals;
inline uint64_t hcells(const Cells& x) { mc::Hash h; for (auto& s : x) h.range(s.begin(), s.end()); return h.h; }
inline void show(mc::Ctx& c, const Cells& x) { if (c.verbose) { c << "cells "; for (auto& s : x) c << ref::spx_str(s); c << "; "; } }
inline void show(mc::Ctx& c, const Vals& v) { if (c.verbose) { c << "values "; for (auto& r : v) { c << "("; for (double w : r) c << w << " "; c << ")"; } c << "; "; } }
inline uint64_t hvals(const Vals& v) { mc::Hash h; for (auto& r : v) { h(r.size()); for (double w : r) h((uint64_t)(int64_t)(w * 64)); } return h.h; }
inline int mdim(const Cells& x) { int m = 0; for (auto& s : x) m = std::max(m, (int)s.size() - 1); return m; }
inline Cells reorder(Cells x, int how) { auto b = ref::by_dim(x); x.clear(); for (auto& v : b) { if (how == 1) std::reverse(v.begin(), v.end()); if (how == 2) { if (v.size() > 2) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end()); for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[i + 1]); } for (auto& s : v) x.push_back(s); } return x; }
inline std::vector<int> sort_order(const std::vector<double>& v) { std::vector<int> p(v.size()); std::iota(p.begin(), p.end(), 0); std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return v[a] < v[b]; }); return p; }
inline std::vector<std::vector<int>> sort_orders(const Vals& v) { std::vector<std::vector<int>> p; for (auto& r : v) p.push_back(sort_order(r)); return p; }
struct PP { int k, b, d; double vb, vd; bool operator<(const PP& o) const { return std::tie(k, b, d, vb, vd) < std::tie(o.k, o.b, o.d, o.vb, o.vd); } bool operator==(const PP& o) const { return k == o.k && b == o.b && d == o.d && vb == o.vb && vd == o.vd; } };
inline std::string str(const std::vector<PP>& v) { std::ostringstream s; for (auto& p : v) s << p.k << ":<" << p.b << "," << p.d << ">(" << p.vb << "," << p.vd << ") "; return s.str(); }
// d: boundary matrices in original order; order: total order of each dimension; indices of the result are original ones
template <class R> std::vector<std::vector<PP>> expected_pairs(const std::vector<ref::Mat<R>>& d, const Vals& v, const std::vector<std::vector<int>>& ord, bool by_corners = false) {
    int K = (int)d.size(); std::vector<std::vector<PP>> out(K); std::vector<std::vector<int>> death(K), neg(K);
    for (int k = 0; k < K; k++) { death[k].assign(d[k].n, -1); neg[k].assign(d[k].n, 0); }
    for (int k = 1; k < K; k++) { auto M = d[k].permrows(ord[k - 1]).permcols(ord[k]); for (auto& [i, j] : by_corners ? ref::corner_pairs(M) : ref::reduce_pairs(M)) { death[k - 1][i] = j; neg[k][j] = 1; } }
    for (int k = 0; k < K; k++) { for (int i = 0; i < d[k].n; i++) if (!neg[k][i]) { int b = ord[k][i], j = death[k][i]; out[k].push_back({k, b, j < 0 ? -1 : ord[k + 1][j], v[k][b], j < 0 ? std::numeric_limits<double>::infinity() : v[k + 1][ord[k + 1][j]]}); } std::sort(out[k].begin(), out[k].end()); }
    return out;
}
template <class T> std::vector<PP> got_pairs(const std::vector<bats::PersistencePair<T>>& ps) { std::vector<PP> v; for (auto& p : ps) v.push_back({(int)p.dim, (int)p.birth_ind, p.death_ind == bats::NO_IND ? -1 : (int)p.death_ind, (double)p.birth, (double)p.death}); std::sort(v.begin(), v.end()); return v; }
// choose values of cells, non-decreasing from faces to cofaces
inline Vals choose_values(mc::Ctx& c, const Cells& x, const std::vector<double>& alpha) {
    auto b = ref::by_dim(x); Vals v(b.size());
    for (size_t k = 0; k < b.size(); k++) { std::map<ref::Spx, int> idx; if (k) for (size_t i = 0; i < b[k - 1].size(); i++) idx[b[k - 1][i]] = i; for (auto& s : b[k]) { size_t lo = 0; if (k) for (auto& f : ref::faces(s)) { double w = v[k - 1][idx[f]]; while (alpha[lo] < w) lo++; } v[k].push_back(alpha[lo + c.choose((int)(alpha.size() - lo))]); } }
    return v;
}
// choose a total order of the cells compatible with faces: distinct integer values
inline Vals choose_linear_extension(mc::Ctx& c, const Cells& x) {
    auto b = ref::by_dim(x); std::vector<std::pair<int, int>> cell; std::map<ref::Spx, int> id; std::vector<ref::Spx> all; for (auto& r : b) for (auto& s : r) { id[s] = all.size(); all.push_back(s); }
    int n = all.size(); std::vector<int> pos(n, -1); std::vector<std::vector<int>> need(n); for (int i = 0; i < n; i++) for (auto& f : ref::faces(all[i])) need[i].push_back(id[f]);
    for (int t = 0; t < n; t++) { std::vector<int> av; for (int i = 0; i < n; i++) if (pos[i] < 0) { bool ok = true; for (int f : need[i]) ok &= pos[f] >= 0; if (ok) av.push_back(i); } pos[av[c.choose((int)av.size())]] = t; }
    Vals v; int q = 0; for (auto& r : b) { std::vector<double> w; for (size_t i = 0; i < r.size(); i++) w.push_back(pos[q++]); v.push_back(w); } return v;
}
// every documented way to reduce a filtered chain complex; fn(name, R, hasbasis)
template <class F, class T, class Fn> void each_filtered(const bats::FilteredChainComplex<T, CM<F>>& C, Fn&& fn) {
    using namespace bats; typedef ReducedFilteredChainComplex<T, CM<F>> R;
    fn("default", R(C), true);
    fn("standard", R(C, standard_reduction_flag()), false); fn("extra", R(C, extra_reduction_flag()), false); fn("divide-conquer", R(C, divide_conquer_flag()), false);
    fn("standard+basis", R(C, standard_reduction_flag(), compute_basis_flag()), true); fn("extra+basis", R(C, extra_reduction_flag(), compute_basis_flag()), true); fn("divide-conquer+basis", R(C, divide_conquer_flag(), compute_basis_flag()), true);
    fn("standard+clearing", R(C, standard_reduction_flag(), clearing_flag()), false); fn("extra+clearing", R(C, extra_reduction_flag(), clearing_flag()), false);
    fn("standard+clearing+basis", R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()), true); fn("extra+clearing+basis", R(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag()), true);
    fn("standard+compression", R(C, standard_reduction_flag(), compression_flag()), false); fn("extra+compression", R(C, extra_reduction_flag(), compression_flag()), false);
    fn("standard+compression+basis", R(C, standard_reduction_flag(), compression_flag(), compute_basis_flag()), true); fn("extra+compression+basis", R(C, extra_reduction_flag(), compression_flag(), compute_basis_flag()), true);
}
template <class F, class T, class Fn> void each_filtered_dg(const bats::FilteredDGVectorSpace<T, CM<F>>& C, Fn&& fn) {
    using namespace bats; typedef ReducedFilteredDGVectorSpace<T, CM<F>> R;
    fn("default", R(C), true); fn("standard", R(C, standard_reduction_flag()), false); fn("extra", R(C, extra_reduction_flag()), false);
    fn("standard+basis", R(C, standard_reduction_flag(), compute_basis_flag()), true); fn("extra+basis", R(C, extra_reduction_flag(), compute_basis_flag()), true);
    fn("standard+clearing", R(C, standard_reduction_flag(), clearing_flag()), false); fn("extra+clearing", R(C, extra_reduction_flag(), clearing_flag()), false);
    fn("standard+clearing+basis", R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()), true); fn("extra+clearing+basis", R(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag()), true);
    fn("standard+compression", R(C, standard_reduction_flag(), compression_flag()), false); fn("extra+compression", R(C, extra_reduction_flag(), compression_flag()), false);
}
