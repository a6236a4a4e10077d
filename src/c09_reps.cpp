// C09: preferred representatives and normal forms of cycles.
#include "reps.hpp"
#include "big.hpp"
using namespace std;
template <class F> void homology(mc::Ctx& c, const bats::ChainComplex<CM<F>>& C, const char* what) {
    auto d = dense_complex<F>(C, c);
    each_reduction<F>(C, [&](const char* n, const bats::ReducedChainComplex<CM<F>>& R, bool basis) { if (!basis) return; check_rcc<F>(c, d, R, string(what) + " " + FT<F>::name() + " " + n, true);
        for (size_t k = 0; k < d.size(); k++) for (int j = 0; j < d[k].n; j++) { vector<RF<F>> e(d[k].n); e[j] = RF<F>(1); auto x = mkvec<F>(e); c.check(rdvec<F>(R.from_hom_basis(R.to_hom_basis(x, k), k), d[k].n, c, "round trip") == e && rdvec<F>(R.to_hom_basis(R.from_hom_basis(x, k), k), d[k].n, c, "round trip") == e, "to/from homology basis are not inverse to each other"); } });
}
template <class F> void graded(mc::Ctx& c, const bats::SimplicialComplex& X, int deg, bool aug) {
    typedef bats::ReducedDGVectorSpace<CM<F>> R; using namespace bats; DGVectorSpace<CM<F>> C(X, deg, aug); vector<RM<F>> D; for (auto& m : C.differential) D.push_back(rdmat<F>(m, c, "differential"));
    auto go = [&](const char* n, const R& r) { string what = string("graded degree ") + to_string(deg) + (aug ? " augmented " : " ") + FT<F>::name() + " " + n; for (size_t k = 0; k <= X.maxdim(); k++) { auto& out = deg == -1 ? D[k] : D[k + 1]; auto& in = deg == -1 ? D[k + 1] : D[k]; vector<SV<F>> reps; for (size_t j = 0; j < r.hdim(k); j++) reps.push_back(r.get_preferred_representative(j, k)); check_classes<F>(c, out, in, reps, [&](const SV<F>& z) { return r.chain_preferred_representative(z, k); }, what + " dimension " + to_string(k)); } };
    go("default", R(C)); go("standard", R(C, standard_reduction_flag(), compute_basis_flag())); go("extra", R(C, extra_reduction_flag(), compute_basis_flag())); go("clearing", R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag())); go("extra clearing", R(C, extra_reduction_flag(), clearing_flag(), compute_basis_flag()));
}
template <class F> void all(mc::Ctx& c, const Cells& x, int nv, int md) {
    auto X = build_complex<bats::SimplicialComplex>(x, nv, md); homology<F>(c, bats::Chain(X, F()), "simplicial");
}
PART("complexes on 3 and 4 vertices, chain complexes") { auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); c.shard_here(); x = reorder(x, c.choose(3)); show(c, x); c.state(hcells(x)); all<F2>(c, x, 4, mdim(x)); all<F3>(c, x, 4, mdim(x)); if (x.size() < 9 || c.tier) all<QQ>(c, x, 4, mdim(x)); if (mdim(x) > 0) c.interesting(); c.outcome(hcells(x)); }
PART("complexes on 3 and 4 vertices, graded vector spaces") { auto x = choose_complex(c, 4, 3); if (x.empty()) c.prune(); c.shard_here(); x = reorder(x, c.choose(3)); show(c, x); c.state(hcells(x)); auto X = build_complex<bats::SimplicialComplex>(x, 4, mdim(x)); int deg = c.flip() ? 1 : -1; bool aug = c.flip(); graded<F2>(c, X, deg, aug); graded<F3>(c, X, deg, aug); if (mdim(x) > 0) c.interesting(); c.outcome(mc::mix(hcells(x), deg + 10 * aug)); }
PART("graphs and triangles on 5 vertices") { auto x = choose_complex(c, 5, c.tier ? 4 : 2, true); c.shard_here(); if (!c.tier) { int tri = 0; for (auto& s : x) tri += s.size() == 3; if (tri > 4) c.prune(); } show(c, x); c.state(hcells(x)); all<F2>(c, x, 5, mdim(x)); if (c.tier) all<F3>(c, x, 5, mdim(x)); c.interesting(); c.outcome(hcells(x)); }
PART("cell complexes with torsion coefficients") {
    int ne = c.range(1, 3), nf = c.range(1, 2); bats::CellComplex X; X.add_vertices(1); for (int e = 0; e < ne; e++) X.add({}, {}, 1);
    mc::Hash h; h(ne)(nf); for (int f = 0; f < nf; f++) { vector<size_t> ix; vector<int> co; for (int e = 0; e < ne; e++) { static const int al[] = {0, 1, -2, 3, -1}; int v = al[c.choose(ne == 3 ? 3 : 5)]; h(v + 5); if (v) ix.push_back(e), co.push_back(v); } X.add(ix, co, 2); } c.shard_here(); c.state(h.h); c << ne << " loops " << nf << " faces"; homology<F2>(c, bats::Chain(X, F2()), "cells"); homology<F3>(c, bats::Chain(X, F3()), "cells"); homology<QQ>(c, bats::Chain(X, QQ()), "cells"); c.interesting(); c.outcome(h.h); }
template <class F> void filtered(mc::Ctx& c, const Cells& x, const vector<vector<double>>& val, int nv = 4) {
    auto X = build_complex<bats::SimplicialComplex>(x, nv, mdim(x)); bats::Filtration<double, bats::SimplicialComplex> Fi(X, val); using namespace bats;
    auto go = [&](const char* n, auto R) { // representatives of all homology classes, in the filtered basis
        auto d = dense_complex<F>(Chain(Fi, F()).complex(), c); check_rcc<F>(c, d, R.RC, string("filtered ") + FT<F>::name() + " " + n); };
    auto C = Chain(Fi, F()); typedef ReducedFilteredChainComplex<double, CM<F>> R; go("default", R(C)); go("extra", R(C, extra_reduction_flag(), compute_basis_flag())); go("clearing", R(C, standard_reduction_flag(), clearing_flag(), compute_basis_flag()));
}
PART("filtered complexes: representatives in the permuted basis") { auto x = choose_complex(c, 3, 2, true); auto b = ref::by_dim(x); vector<vector<double>> v(b.size()); for (size_t k = 0; k < b.size(); k++) for (size_t i = 0; i < b[k].size(); i++) { double m = -5; if (k) for (auto& f : ref::faces(b[k][i])) m = max(m, v[k - 1][find(b[k - 1].begin(), b[k - 1].end(), f) - b[k - 1].begin()]); double w = c.choose(3); if (w < m) c.prune(); v[k].push_back(w); } c.shard_here(); show(c, x); mc::Hash h; h(hcells(x)); for (auto& r : v) for (double w : r) h((uint64_t)w); c.state(h.h); filtered<F2>(c, x, v); filtered<F3>(c, x, v); c.interesting(); c.outcome(h.h); }
PART("larger complexes") { int k = c.choose(bigc::N), how = c.choose(4), ord = c.choose(3), fld = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); z.x = reorder(z.x, ord); c.state(mc::mix(hcells(z.x), fld)); c << "kind " << k << " part " << how; if (fld) all<F3>(c, z.x, z.nv, mdim(z.x)); else all<F2>(c, z.x, z.nv, mdim(z.x)); c.interesting(); c.outcome(hcells(z.x)); }
PART("larger complexes, graded vector spaces") { int k = c.choose(bigc::N), how = c.choose(4), mode = c.choose(4), fld = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); z.x = reorder(z.x, mode % 3); c.state(mc::mix(hcells(z.x), fld * 4 + mode)); c << "kind " << k << " part " << how; auto X = build_complex<bats::SimplicialComplex>(z.x, z.nv, mdim(z.x)); if (fld) graded<F3>(c, X, mode & 1 ? 1 : -1, mode & 2); else graded<F2>(c, X, mode & 1 ? 1 : -1, mode & 2); c.interesting(); c.outcome(hcells(z.x)); }
PART("larger filtrations: representatives in the permuted basis") { int k = c.choose(bigc::N), how = c.choose(4), vk = c.choose(bigc::NV), fld = c.choose(2); c.shard_here(); auto z = bigc::make(k, how); auto v = bigc::values(z.x, vk); c.state(mc::mix(hcells(z.x), fld * 8 + vk)); c << "kind " << k << " part " << how << " values " << vk; if (fld) filtered<F3>(c, z.x, v, z.nv); else filtered<F2>(c, z.x, v, z.nv); c.interesting(); c.outcome(mc::mix(hcells(z.x), vk)); }
