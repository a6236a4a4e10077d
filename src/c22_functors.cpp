// C22: functors applied to diagrams keep the shape and agree with the direct computation at every node and edge.
#include "homopts.hpp"
#include "reps.hpp"
#include "filt.hpp"
#include <topology/zigzag_zoo.hpp>
using namespace std;
using namespace bats;
typedef SimplicialComplex SC; typedef set<size_t> S; typedef Diagram<S, vector<size_t>> SetDgm; typedef Diagram<SC, CellularMap> CpxDgm;
struct Arrow { int s, t; };
template <class D, class E> void same_shape(mc::Ctx& c, const D& d, const E& e, const string& n, bool rev = false) { c.check(d.nnode() == e.nnode() && d.nedge() == e.nedge() && d.node.size() == e.node.size() && d.edata.size() == e.edata.size() && d.elist.size() == e.elist.size(), n + ": number of nodes or edges"); for (size_t j = 0; j < d.elist.size(); j++) c.check(rev ? e.elist[j].src == d.elist[j].targ && e.elist[j].targ == d.elist[j].src : e.elist[j].src == d.elist[j].src && e.elist[j].targ == d.elist[j].targ, n + ": ends of an edge"); }
static void same(mc::Ctx& c, const SC& a, const SC& b, const string& n) { c.op(); c.check(a.maxdim() == b.maxdim() && a.ncells() == b.ncells(), n + ": size of a complex"); c.check(a.get_simplices() == b.get_simplices(), n + ": simplices of a complex"); }
template <class A, class B> bool same_cols(const A& a, const B& b) { if (a.nrow() != b.nrow() || a.ncol() != b.ncol()) return false; for (size_t j = 0; j < a.ncol(); j++) { auto i = a[j].nzbegin(), k = b[j].nzbegin(); for (; i != a[j].nzend() && k != b[j].nzend(); ++i, ++k) if (i->ind != k->ind || !(i->val == k->val)) return false; if (i != a[j].nzend() || k != b[j].nzend()) return false; } return true; }
static void same(mc::Ctx& c, const CellularMap& a, const CellularMap& b, const string& n) { c.op(); c.check(a.maxdim() == b.maxdim(), n + ": dimension of a map"); for (size_t k = 0; k <= a.maxdim(); k++) c.check(same_cols(a[k], b[k]), n + ": matrix of a map"); }
template <class F> RM<F> kernel_of(const RM<F>& d) { return d.kernel(); }
// rank of a map on homology: rank [f(Z) | B] - rank B
template <class F> int hrank(const RM<F>& dsrc, const RM<F>& f, const RM<F>& dup) { auto Z = f * dsrc.kernel(); return dup.hcat(Z).rank() - dup.rank(); }
template <class F> int hdim(const RM<F>& d, const RM<F>& dup) { return d.kernel().n - dup.rank(); }

template <class F> void algebra(mc::Ctx& c, const CpxDgm& T, bool deep) {
    const string n = FT<F>::name(); auto C = ChainFunctor<CM<F>>(T); same_shape(c, T, C, "ChainFunctor");
    auto C2 = ChainFunctor(T, F()); auto C3 = bats::Chain(T, F()); auto C4 = bats::__ChainFunctor(T, F()); for (auto* X : {&C2, &C3, &C4}) same_shape(c, T, *X, "chain functor");
    for (auto* X : {&C, &C2, &C3, &C4}) { for (size_t i = 0; i < T.nnode(); i++) { auto D = bats::Chain(T.node[i], F()); c.op(); c.check(D.maxdim() == X->node[i].maxdim(), n + " chain functor: maxdim"); for (size_t k = 0; k <= D.maxdim(); k++) c.check(same_cols(D[k], X->node[i][k]), n + " chain functor: boundary of a node"); } for (size_t j = 0; j < T.nedge(); j++) { auto f = bats::ChainMap<CM<F>>(T.edata[j]); c.check(f.maxdim() == X->edata[j].maxdim(), n + " chain functor: maxdim of an edge"); for (size_t k = 0; k <= f.maxdim(); k++) c.check(same_cols(f[k], X->edata[j][k]), n + " chain functor: map of an edge"); } if (!deep) break; }
    vector<vector<RM<F>>> d(T.nnode()); for (size_t i = 0; i < T.nnode(); i++) { d[i] = dense_complex<F>(C.node[i], c); }
    auto up_ = [&](size_t i, size_t k) { return k + 1 < d[i].size() ? d[i][k + 1] : RM<F>(d[i][k].n, 0); };
    size_t md = T.node[0].maxdim(); bool eqdim = true; for (auto& x : T.node) { eqdim &= x.maxdim() == md; }
    map<size_t, vector<RM<F>>> H; // degree -> edge matrices
    auto judge = [&](const auto& HD, size_t k, size_t j, const CM<F>& M, const string& nm) { c.op(); size_t s = T.elist[j].src, t = T.elist[j].targ; auto m = rdmat<F>(M, c, "induced map"); auto f = rdmat<F>(C.edata[j][k], c, "chain map"); c.checkf(m.n == hdim<F>(d[s][k], up_(s, k)) && m.m == hdim<F>(d[t][k], up_(t, k)), [&] { return n + " " + nm + ": shape of a map in degree " + to_string(k); }); c.checkf(m.rank() == hrank<F>(d[s][k], f, up_(t, k)), [&] { return n + " " + nm + ": rank of a map in degree " + to_string(k); }); c.outcome(m.rank()); return m; };
    auto squares = [&](const vector<RM<F>>& m, const string& nm, bool rev) { size_t E = m.size(); auto src = [&](size_t e) { return rev ? T.elist[e].targ : T.elist[e].src; }; auto tg = [&](size_t e) { return rev ? T.elist[e].src : T.elist[e].targ; }; for (size_t a = 0; a < E; a++) { if (src(a) == tg(a)) c.check(m[a] == RM<F>::eye(m[a].n), nm + ": a loop does not give the identity"); for (size_t b = 0; b < E; b++) if (tg(a) == src(b)) { auto p = m[b] * m[a]; for (size_t e = 0; e < E; e++) if (src(e) == src(a) && tg(e) == tg(b)) c.check(m[e] == p, nm + ": a triangle does not commute"); for (size_t x = 0; x < E; x++) if (src(x) == src(a)) for (size_t y = 0; y < E; y++) if (src(y) == tg(x) && tg(y) == tg(b)) c.check(m[y] * m[x] == p, nm + ": a square does not commute"); } } };
    for (size_t k = 0; k <= md && eqdim; k++) {
        auto HD = bats::Hom(C, k); same_shape(c, T, HD, "Hom"); vector<RM<F>> ms; for (size_t i = 0; i < T.nnode(); i++) { auto R = bats::ReducedChainComplex<CM<F>>(C.node[i]); c.check((int)HD.node[i].hdim(k) == hdim<F>(d[i][k], up_(i, k)), n + " Hom: dimension of a node"); c.check(R.hdim(k) == HD.node[i].hdim(k), n + " Hom: node"); for (size_t j = 0; j < R.hdim(k); j++) c.check(R.get_preferred_representative(j, k) == HD.node[i].get_preferred_representative(j, k), n + " Hom: representative of a node"); }
        for (size_t j = 0; j < T.nedge(); j++) { ms.push_back(judge(HD, k, j, HD.edata[j], "Hom")); auto M = bats::induced_map(C.edata[j], HD.node[T.elist[j].src], HD.node[T.elist[j].targ], k); c.check(same_cols(M, HD.edata[j]), n + " Hom: edge is not the induced map"); } squares(ms, n + " Hom", false); H[k] = ms;
    }
    if (eqdim) for (bool top : {false, true}) { size_t K = md + (top ? 1 : 0); if (K == 0) continue; auto HA = bats::Hom(C, top); same_shape(c, T, HA, "Hom in all degrees"); for (size_t j = 0; j < T.nedge(); j++) { c.check(HA.edata[j].size() == K, n + " Hom in all degrees: number of maps"); for (size_t k = 0; k < K; k++) c.check(rdmat<F>(HA.edata[j][k], c, "map") == H[k][j], n + " Hom in all degrees: a map differs from Hom in one degree"); } for (size_t i = 0; i < T.nnode(); i++) for (size_t k = 0; k <= md; k++) c.check((int)HA.node[i].hdim(k) == hdim<F>(d[i][k], up_(i, k)), n + " Hom in all degrees: dimension of a node"); }
    if (!deep || !eqdim) return;
    for (int deg : {-1, 1}) { auto G = bats::DGLinearFunctor<CM<F>>(T, deg); same_shape(c, T, G, "DGLinearFunctor", deg == 1); for (size_t i = 0; i < T.nnode(); i++) { DGVectorSpace<CM<F>> D(T.node[i], deg); c.check(D.differential.size() == G.node[i].differential.size() && D.degree == G.node[i].degree, n + " DGLinearFunctor: node"); for (size_t k = 0; k < D.differential.size(); k++) c.check(same_cols(D.differential[k], G.node[i].differential[k]), n + " DGLinearFunctor: differential of a node"); }
        for (size_t j = 0; j < T.nedge(); j++) { DGLinearMap<CM<F>> f(T.edata[j], deg); c.check(f.maxdim() == G.edata[j].maxdim(), n + " DGLinearFunctor: edge"); for (size_t k = 0; k <= f.maxdim(); k++) c.check(same_cols(f[k], G.edata[j][k]), n + " DGLinearFunctor: map of an edge"); }
        vector<vector<RM<F>>> all; for (size_t k = 0; k <= md; k++) { auto HD = bats::Hom(G, k); same_shape(c, G, HD, "graded Hom"); vector<RM<F>> ms; for (size_t j = 0; j < T.nedge(); j++) { auto m = rdmat<F>(HD.edata[j], c, "graded map"); ms.push_back(m); auto& w = H[k][j]; c.check(deg == -1 ? m.m == w.m && m.n == w.n : m.m == w.n && m.n == w.m, n + " graded Hom: shape"); c.check(m.rank() == w.rank(), n + " graded Hom: rank of a map"); auto M = bats::induced_map(G.edata[j], HD.node[G.elist[j].src], HD.node[G.elist[j].targ], k); c.check(same_cols(M, HD.edata[j]), n + " graded Hom: edge is not the induced map"); } squares(ms, n + " graded Hom", deg == 1); all.push_back(ms); }
        for (bool top : {false, true}) { size_t gm = G.node[0].maxdim(), K = gm + (top ? 1 : 0); if (K == 0) continue; auto HA = bats::Hom(G, top); same_shape(c, G, HA, "graded Hom in all degrees"); for (size_t j = 0; j < T.nedge(); j++) { c.check(HA.edata[j].size() == K, n + " graded Hom in all degrees: number of maps"); for (size_t k = 0; k < min(K, md + 1); k++) c.check(rdmat<F>(HA.edata[j][k], c, "map") == all[k][j], n + " graded Hom in all degrees: a map"); } } }
}
template <class Data> DataSet<double> dataset(const Data& x) { bats::Matrix<double> A(x.size(), 1); for (size_t i = 0; i < x.size(); i++) A(i, 0) = x[i]; return DataSet<double>(A); }
static SetDgm set_diagram(const vector<S>& sets, const vector<Arrow>& E) { SetDgm D; for (auto& s : sets) { S t = s; D.add_node(t); } for (auto& e : E) D.add_edge(e.s, e.t, vertex_inclusion_map(sets[e.s], sets[e.t])); return D; }
// the Rips functor (one radius, and one radius per node), homology of Rips diagrams
static void rips(mc::Ctx& c, const vector<S>& sets, const vector<Arrow>& E, const vector<double>& x, double r, const vector<double>& rs, int dmax, bool deep) {
    auto D = set_diagram(sets, E); auto X = dataset(x); L1Dist dist; c.op();
    auto run = [&](const CpxDgm& T, const vector<double>& q, const string& nm) { same_shape(c, D, T, nm); for (size_t i = 0; i < D.nnode(); i++) { auto Y = get_subset(X, D.node[i]); auto Z = RipsComplex<SC>(Y, dist, q[i], (size_t)dmax); same(c, T.node[i], Z, nm); Y.data.free(); } for (size_t j = 0; j < D.nedge(); j++) { auto f = SimplicialMap(T.node[E[j].s], T.node[E[j].t], D.edata[j]); same(c, T.edata[j], f, nm); } };
    vector<double> one(sets.size(), r); auto T = bats::Rips(D, X, dist, r, (size_t)dmax); run(T, one, "Rips"); bool mono = true; for (auto& e : E) mono &= rs[e.s] <= rs[e.t];
    algebra<F2>(c, T, deep); if (deep) { algebra<F3>(c, T, deep); algebra<QQ>(c, T, false); }
    if (mono) { auto U = bats::Rips(D, X, dist, rs, (size_t)dmax); run(U, rs, "Rips(radii)"); algebra<F3>(c, U, false);
        for (size_t k = 0; k < (size_t)dmax; k++) { auto RH = bats::RipsHom(D, X, dist, rs, k, F3()); same_shape(c, D, RH, "RipsHom"); auto C = bats::Chain(bats::Rips(D, X, dist, rs, k + 1), F3()); for (size_t i = 0; i < D.nnode(); i++) { auto d = dense_complex<F3>(C.node[i], c); c.checkf((int)RH.node[i] == hdim<F3>(d[k], k + 1 < d.size() ? d[k + 1] : RM<F3>(d[k].n, 0)), [&] { return "RipsHom: dimension of node " + to_string(i); }); }
            auto HD = bats::Hom(C, k); for (size_t j = 0; j < D.nedge(); j++) { auto m = rdmat<F3>(RH.edata[j], c, "RipsHom map"); c.check(m.rank() == rdmat<F3>(HD.edata[j], c, "Hom map").rank() && (size_t)m.m == RH.node[E[j].t] && (size_t)m.n == RH.node[E[j].s], "RipsHom: map"); } for (size_t a = 0; a < E.size(); a++) for (size_t b = 0; b < E.size(); b++) if (E[a].t == E[b].s) for (size_t e = 0; e < E.size(); e++) if (E[e].s == E[a].s && E[e].t == E[b].t) c.check(rdmat<F3>(RH.edata[b], c, "") * rdmat<F3>(RH.edata[a], c, "") == rdmat<F3>(RH.edata[e], c, ""), "RipsHom: a triangle does not commute"); } }
    else { bool threw = false; try { bats::Rips(D, X, dist, rs, (size_t)dmax); } catch (const std::range_error&) { threw = true; } c.check(threw, "Rips with radii that decrease along an arrow is accepted"); threw = false; try { bats::RipsHom(D, X, dist, rs, 0, F3()); } catch (const std::range_error&) { threw = true; } c.check(threw, "RipsHom with radii that decrease along an arrow is accepted"); }
    X.data.free();
}
static vector<S> choose_sets(mc::Ctx& c, int n, int p) { vector<S> v(n); for (auto& s : v) { int b = c.choose(1 << p); for (int i = 0; i < p; i++) if (b >> i & 1) s.insert(i); } return v; }
static uint64_t hs(const vector<S>& v) { mc::Hash h; for (auto& s : v) h.range(s.begin(), s.end()); return h.h; }
static void showd(mc::Ctx& c, const vector<S>& v, const vector<Arrow>& E) { if (!c.verbose) return; for (auto& s : v) { c << "{"; for (size_t x : s) c << x << ","; c << "} "; } for (auto& e : E) c << e.s << "->" << e.t << " "; }
static const vector<vector<double>> lines3 = {{0, 1, 3}, {0, 2, 1}, {0, 0, 2}}, lines4 = {{0, 1, 2, 4}, {3, 0, 1, 1}};
// the shape: an ordered list of arrows among the allowed pairs, repetitions and loops included
static vector<Arrow> choose_arrows(mc::Ctx& c, const vector<S>& v, int maxe) { vector<Arrow> ok, E; for (int i = 0; i < (int)v.size(); i++) for (int j = 0; j < (int)v.size(); j++) if (includes(v[j].begin(), v[j].end(), v[i].begin(), v[i].end())) ok.push_back({i, j}); while ((int)E.size() < maxe) { int q = c.choose((int)ok.size() + 1); if (q == (int)ok.size()) break; E.push_back(ok[q]); } return E; }
static uint64_t ha(const vector<Arrow>& E) { mc::Hash h; for (auto& e : E) { h(e.s); h(e.t); } return h.h; }
PART("Rips functor on every diagram with up to two nodes") { int n = c.range(1, 2); auto v = choose_sets(c, n, 3); c.shard_here(); auto E = choose_arrows(c, v, c.tier ? 3 : 2);  vector<double> rs(n); for (auto& q : rs) q = c.pick(vector<double>{1, 2}); showd(c, v, E); c.state(mc::mix(mc::mix(hs(v), ha(E)), mc::Hash().range(rs.begin(), rs.end()).h)); if (E.size() > 1) c.interesting(); rips(c, v, E, lines3[c.choose(3)], 1.5, rs, 2, true); }
PART("Rips functor on every diagram with three nodes") { int n = 3; auto v = choose_sets(c, n, c.tier ? 3 : 2); c.shard_here(); auto E = choose_arrows(c, v, 2);  vector<double> rs = c.pick(vector<vector<double>>{{1, 1, 2}, {0, 1, 1}, {1, 2, 3}, {2, 1, 0}}); showd(c, v, E); c.state(mc::mix(mc::mix(hs(v), ha(E)), mc::Hash().range(rs.begin(), rs.end()).h)); if (E.size() > 1) c.interesting(); rips(c, v, E, lines3[c.choose(c.tier ? 3 : 1)], 1, rs, 2, false); }
PART("commuting squares and triangles of inclusions") { int b = c.choose(c.tier ? 256 : 81); S A, B, C, D; if (c.tier) { int p = 4; for (int i = 0; i < p; i++) { int m = b >> (2 * i) & 3; D.insert(i); if (m & 1) B.insert(i); if (m & 2) C.insert(i); if (m == 3) A.insert(i); } } else { int t = b; for (int i = 0; i < 4; i++) { int m = 1 + t % 3; t /= 3; D.insert(i); if (m & 1) B.insert(i); if (m & 2) C.insert(i); if (m == 3) A.insert(i); } } c.shard_here(); if (A.empty() || B.empty() || C.empty()) c.prune(); vector<S> v = {A, B, C, D}; vector<Arrow> E = {{0, 1}, {0, 2}, {1, 3}, {2, 3}}; if (c.flip()) { E.push_back({0, 3}); E.push_back({0, 0}); } if (c.flip()) reverse(E.begin(), E.end()); int w = c.choose(2); double r = c.pick(vector<double>{1, 2, 0}); vector<double> rs = {r, r + 1, r, r + 1}; showd(c, v, E); c.state(mc::mix(mc::mix(hs(v), ha(E)), mc::mix(w, (int)r))); c.interesting(); rips(c, v, E, lines4[w], r, rs, 2, b % 5 == 0 || c.tier); }
// planar points on cycles: nontrivial maps in degree one
PART("diagrams of inclusions of points on a circle") {
    // six points of a regular hexagon: cyclic distance; subsets of the circle as explicit complexes through add
    int b1 = c.choose(64), b2 = c.choose(64); if ((b1 & b2) != b1) c.prune(); c.shard_here(); S A, B; for (int i = 0; i < 6; i++) { if (b1 >> i & 1) A.insert(i); if (b2 >> i & 1) B.insert(i); } if (A.empty()) c.prune(); vector<S> v = {A, B, B}; vector<Arrow> E = {{0, 1}, {1, 2}, {0, 2}, {2, 1}}; auto D = set_diagram(v, E); double r = c.pick(vector<double>{1.1, 1.8}); bats::Matrix<double> M(6, 2); for (int i = 0; i < 6; i++) { M(i, 0) = cos(i * M_PI / 3); M(i, 1) = sin(i * M_PI / 3); } DataSet<double> X(M); c.state(mc::mix(hs(v), (int)(r * 10))); c.interesting(); auto T = bats::Rips(D, X, Euclidean(), r, (size_t)2); same_shape(c, D, T, "Rips"); for (int i = 0; i < 3; i++) { auto Y = get_subset(X, v[i]); same(c, T.node[i], RipsComplex<SC>(Y, Euclidean(), r, (size_t)2), "Rips"); Y.data.free(); } algebra<F2>(c, T, true); algebra<QQ>(c, T, c.tier); M.free(); }
// nerves of diagrams of covers
PART("nerve functor on maps of covers") { int n1 = c.range(1, 3), n2 = c.range(1, 2), p = n1 < 3 ? 3 : 2; if (c.tier) p = 3; Cover A(n1); for (auto& s : A) { int b = c.choose(1 << p); for (int i = 0; i < p; i++) if (b >> i & 1) s.insert(i); } c.shard_here(); Cover B(n2); vector<size_t> f(n1); for (auto& x : f) x = c.choose(n2); for (int i = 0; i < n1; i++) B[f[i]].insert(A[i].begin(), A[i].end()); if (c.flip()) B[0].insert(0); bool loop = c.flip(); c.state(mc::mix(hs(A), mc::Hash().range(f.begin(), f.end())(loop).h)); c << "covers "; showd(c, A, {}); showd(c, B, {}); if (n1 > 1) c.interesting();
    Diagram<Cover, vector<size_t>> D; D.add_node(A); D.add_node(B); if (loop) { vector<size_t> id(n1); iota(id.begin(), id.end(), 0); D.add_edge(0, 0, id); } D.add_edge(0, 1, f); vector<size_t> idb(n2); iota(idb.begin(), idb.end(), 0); D.add_edge(1, 1, idb); D.add_edge(0, 1, f);
    for (size_t md = 1; md <= 2; md++) { auto T = bats::Nerve(D, md); same_shape(c, D, T, "Nerve"); for (int i = 0; i < 2; i++) same(c, T.node[i], bats::Nerve(D.node[i], md), "Nerve"); for (size_t j = 0; j < D.nedge(); j++) same(c, T.edata[j], SimplicialMap(T.node[D.elist[j].src], T.node[D.elist[j].targ], D.edata[j]), "Nerve"); algebra<F3>(c, T, md == 1); algebra<F2>(c, T, false); } }
// the container itself
PART("diagram container histories") { int n = c.range(1, 3); Diagram<int, int> D; vector<int> node; vector<array<int, 3>> edge; bool pre = c.flip(); int m = c.range(0, 2); if (pre) { D = Diagram<int, int>(n, m); node.assign(n, 0); c.check(D.nnode() == (size_t)n && D.nedge() == (size_t)m && D.elist.size() == (size_t)m, "preallocated diagram"); for (int i = 0; i < m; i++) { int s = c.choose(n), t = c.choose(n); D.set_edge(i, s, t, 10 + i); edge.push_back({s, t, 10 + i}); } } c.shard_here();
    for (int step = 0; step < (c.tier ? 5 : 4); step++) { c.op(); int o = c.choose(3); if (o == 0) { int v = step + 1; c.check((step % 2 ? D.add_node(int(v)) : D.add_node(v)) == node.size(), "add_node: index"); node.push_back(v); } else if (o == 1 && node.size()) { int s = c.choose((int)node.size()), t = c.choose((int)node.size()); int v = 20 + step; c.check((step % 2 ? D.add_edge(s, t, int(v)) : D.add_edge(s, t, v)) == edge.size(), "add_edge: index"); edge.push_back({s, t, v}); } else if (o == 2 && node.size()) { int i = c.choose((int)node.size()); D.set_node(i, 50 + step); node[i] = 50 + step; } else break;
        c.check(D.nnode() == node.size() && D.nedge() == edge.size(), "diagram size"); for (size_t i = 0; i < node.size(); i++) c.check(D.node_data(i) == node[i], "diagram node"); for (size_t j = 0; j < edge.size(); j++) c.check((int)D.edge_source(j) == edge[j][0] && (int)D.edge_target(j) == edge[j][1] && D.edge_data(j) == edge[j][2], "diagram edge"); }
    mc::Hash h; for (int v : node) h(v); for (auto& e : edge) { h(e[0]); h(e[1]); h(e[2]); } c.state(h.h); if (edge.size() > 1) c.interesting(); }
// zigzags of subsets of a point cloud
static void zoo(mc::Ctx& c, const vector<double>& x) { int n = x.size(); auto X = dataset(x); L1Dist dist; mc::Hash h; for (double v : x) h((int)v); c.state(h.h); if (n > 2) c.interesting(); size_t i0 = approx_center(X, dist); auto [o, hd] = greedy_landmarks_hausdorff(X, dist, i0);
    auto check = [&](const SetDgm& D, const vector<size_t>& sz, const vector<double>& r, const vector<double>& want, const string& nm) { c.op(); size_t m = sz.size(); c.check(D.nnode() == 2 * m - 1 && D.nedge() == 2 * m - 2 && r.size() == 2 * m - 1, nm + ": shape"); for (size_t i = 0; i < 2 * m - 1; i++) { size_t q = sz[(i + 1) / 2]; S s(o.begin(), o.begin() + q); c.check(D.node[i] == s, nm + ": set of a node"); c.check(r[i] == want[i], nm + ": radius of a node"); } for (size_t e = 0; e < D.nedge(); e++) { size_t s = e % 2 ? e + 1 : e, t = e % 2 ? e : e + 1; c.check(D.elist[e].src == s && D.elist[e].targ == t, nm + ": direction of an arrow"); vector<size_t> a(D.node[s].begin(), D.node[s].end()), b(D.node[t].begin(), D.node[t].end()); c.check(D.edata[e].size() == a.size(), nm + ": size of a map"); for (size_t i = 0; i < a.size(); i++) c.check(b[D.edata[e][i]] == a[i], nm + ": not the inclusion"); } };
    { double rho = 3, eta = 2; auto [D, r] = OscillatingRipsZigzagSets(X, dist, rho, eta); vector<size_t> sz; vector<double> w; for (int i = 0; i < n; i++) { sz.push_back(i + 1); if (i) w.push_back(rho * hd[i - 1]); w.push_back(eta * hd[i]); } check(D, sz, r, w, "OscillatingRipsZigzagSets"); auto T = bats::Rips(D, X, dist, r, (size_t)2); same_shape(c, D, T, "Rips of the oscillating zigzag"); algebra<F2>(c, T, false); bool threw = false; try { OscillatingRipsZigzagSets(X, dist, 2.0, 3.0); } catch (const std::runtime_error&) { threw = true; } c.check(threw, "OscillatingRipsZigzagSets accepts eta > rho"); }
    { double rho = 11, theta = sqrt(1.0 / 3), eta = (3 * rho + 20) / (10 * theta * rho + 20); vector<size_t> idx = {0}; for (int i = 1; i < n; i++) if (!(hd[i] > eta * hd[idx.back()])) idx.push_back(i); auto [D, r] = DiscreteMorozovZigzagSets(X, dist, rho); vector<size_t> sz; vector<double> w; for (size_t i = 0; i < idx.size(); i++) { sz.push_back(idx[i] + 1); if (i) w.push_back(rho * hd[idx[i - 1]]); w.push_back(rho * hd[idx[i]]); } check(D, sz, r, w, "DiscreteMorozovZigzagSets"); auto [T, r2] = DiscreteMorozovZigzag(X, dist, rho, (size_t)2); c.check(r2 == r, "DiscreteMorozovZigzag: radii"); same_shape(c, D, T, "DiscreteMorozovZigzag"); for (size_t i = 0; i < D.nnode(); i++) { auto Y = get_subset(X, D.node[i]); same(c, T.node[i], RipsComplex<SC>(Y, dist, r[i], (size_t)2), "DiscreteMorozovZigzag"); Y.data.free(); } algebra<F3>(c, T, false); } X.data.free(); }
PART("oscillating Rips and Morozov zigzag sets") { int n = c.range(1, c.tier ? 5 : 4); vector<double> x(n); for (auto& v : x) v = c.choose(5); c.shard_here(); zoo(c, x); }
PART("zigzag sets of more points") { int n = c.pick(vector<int>{6, 7, 9}), a = 1 + c.choose(6), m = c.pick(vector<int>{7, 11, 13}), k = c.choose(3); c.shard_here(); vector<double> x; for (int i = 0; i < n; i++) x.push_back(k == 0 ? (a * i) % m : k == 1 ? (a * i * i) % m / 4.0 : i < n / 2 ? a + i * 0.125 : 50 + (i * m) % 9); zoo(c, x); }
// more points: trees, zigzags and grids of subsets of seven points
PART("Rips functors of larger diagrams") { int shape = c.choose(4), gen = c.choose(6); static const vector<vector<double>> L = {{0, 1, 2, 3, 4, 5, 6}, {0, 0.5, 3, 3.5, 6, 9, 1.25}, {5, 1, 4, 1, 3, 9, 2}}; auto& x = L[c.choose(3)]; double r = c.pick(vector<double>{0.5, 1, 2, 3}); int f = c.choose(2); c.shard_here(); auto sub = [&](int k) { S s; for (int i = 0; i < 7; i++) if ((i * (gen + 1) + k * 3 + gen) % (gen % 3 + 2) < 1 + gen % 2) s.insert(i); if (s.empty()) s.insert(k % 7); return s; }; vector<S> v; vector<Arrow> E; auto un = [](S a, const S& b) { a.insert(b.begin(), b.end()); return a; };
    if (shape == 0) { for (int i = 0; i < 4; i++) v.push_back(sub(i)); for (int i = 0; i < 3; i++) { v.push_back(un(v[i], v[i + 1])); E.push_back({i, 4 + i}); E.push_back({i + 1, 4 + i}); } }                      // zigzag of unions, nodes out of order
    else if (shape == 1) { S s = sub(0); for (int i = 0; i < 5; i++) { v.push_back(s); s = un(s, sub(i + 1)); if (i) E.push_back({i - 1, i}); } for (int i = 0; i < 5; i++) for (int j = i + 2; j < 5; j++) E.push_back({i, j}); } // chain with all composites
    else if (shape == 2) { S A = sub(0), B = un(A, sub(1)), C = un(A, sub(2)), D = un(B, C), G = un(D, sub(3)); v = {G, D, C, B, A}; E = {{4, 3}, {4, 2}, {3, 1}, {2, 1}, {1, 0}, {4, 1}, {3, 0}, {0, 0}}; }
    else { S A = sub(0); v = {A, un(A, sub(1)), un(A, sub(2)), un(A, sub(3)), un(A, sub(4))}; for (int i = 4; i > 0; i--) E.push_back({0, i}); }  // star
    vector<double> rs(v.size(), r); for (auto& e : E) if (e.s != e.t) rs[e.t] = max(rs[e.t], rs[e.s] + (e.t % 2 ? 0.5 : 0)); for (int k = 0; k < 6; k++) for (auto& e : E) rs[e.t] = max(rs[e.t], rs[e.s]); showd(c, v, E); c.state(mc::mix(mc::mix(hs(v), ha(E)), mc::mix((int)(r * 10), (int)(x[1] * 10)))); c.interesting(); rips(c, v, E, x, r, rs, 2, f); }
