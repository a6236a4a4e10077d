// Families of larger complexes and filtrations (20 to 150 cells, up to dimension 5) used next to the exhaustive small scopes.
#pragma once
#include "filt.hpp"
namespace bigc {
inline Cells closure(const std::vector<ref::Spx>& top, int nv) { std::set<ref::Spx> S; std::function<void(const ref::Spx&)> add = [&](const ref::Spx& s) { if (s.empty() || !S.insert(s).second) return; for (auto& f : ref::faces(s)) add(f); }; for (int i = 0; i < nv; i++) add({i}); for (auto t : top) { std::sort(t.begin(), t.end()); add(t); } Cells x(S.begin(), S.end()); std::stable_sort(x.begin(), x.end(), [](const ref::Spx& a, const ref::Spx& b) { return a.size() < b.size(); }); return x; }
// quotient of an a x b grid of squares, each cut in two: torus or Klein bottle
inline std::vector<ref::Spx> surface(int a, int b, bool klein) { auto id = [&](int i, int j) { bool flip = klein && (i / a) % 2; int jj = flip ? (2 * b - j) % b : j % b; return (i % a) * b + jj; }; std::vector<ref::Spx> t; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { t.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)}); t.push_back({id(i, j), id(i, j + 1), id(i + 1, j + 1)}); } return t; }
inline const std::vector<ref::Spx>& rp2() { static const std::vector<ref::Spx> R{{0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5}}; return R; }
inline Cells keep(std::vector<ref::Spx> t, int nv, int how) { std::vector<ref::Spx> r; for (size_t i = 0; i < t.size(); i++) if (how == 0 || (how == 1 && i % 5 != 2) || (how == 2 && i % 3 != 1) || (how == 3 && i * 2 < t.size())) r.push_back(t[i]); return closure(r, nv); }
struct C { Cells x; int nv; };
static const int N = 9;
inline C make(int kind, int how) {
    std::vector<ref::Spx> t; auto top = [&](int n, int k) { for (auto& s : ref::all_simplices(n, k)) if ((int)s.size() == k + 1) t.push_back(s); return n; }; int nv = 0;
    switch (kind) {
    case 0: nv = top(7, 3); break;                                    // skeleta of simplices
    case 1: nv = top(6, 4); break;
    case 2: nv = top(9, 1); break;
    case 3: t = surface(3, 3, false); nv = 9; break;
    case 4: t = surface(4, 4, true); nv = 16; break;
    case 5: for (auto s : rp2()) { auto a = s, b = s; a.push_back(6); b.push_back(7); t.push_back(a); t.push_back(b); } nv = 8; break; // suspension of the projective plane
    case 6: case 7: { nv = 10; auto adj = [&](int i, int j) { return kind == 6 ? (i * j + i + j) % 3 != 0 : (j - i) % 5 != 2; }; for (auto& s : ref::all_simplices(nv, 3)) { bool ok = true; for (int a : s) for (int b : s) if (a < b) ok &= adj(a, b); if (ok) t.push_back(s); } break; } // flag complexes
    case 8: t = surface(3, 5, true); for (auto s : rp2()) { for (auto& v : s) v += 14; t.push_back(s); } nv = 20; break; // wedge of a Klein bottle and a projective plane
    }
    return {keep(t, nv, how), nv};
}
// filtration values, monotone along faces
static const int NV = 8;
inline Vals values(const Cells& x, int kind) {
    auto b = ref::by_dim(x); Vals v(b.size()); std::map<ref::Spx, double> f;
    for (size_t k = 0; k < b.size(); k++) for (size_t i = 0; i < b[k].size(); i++) { auto& s = b[k][i]; double w = -1e308; if (k) for (auto& g : ref::faces(s)) w = std::max(w, f[g]);
        switch (kind) {
        case 0: w = 0; break;                                                               // all equal
        case 1: if (!k) w = (s[0] * 7) % 11 - 5.0; break;                                    // lower star, negative values
        case 2: if (!k) w = 0; else if (k == 1) w = ((s[0] * 5 + s[1] * 3) % 13) / 16.0; break; // flag filtration with fractions
        case 3: w = k * 1e3 + (double)(b[k].size() - i); break;                              // reverse order in each dimension
        case 4: w = k * 1e3 + (double)((i * 7919) % b[k].size()); break;                     // shuffled order, with ties
        case 5: if (!k) w = s[0] % 2 ? 1e300 : -1e300; else w += 0; break;                   // huge values
        case 6: w = k ? std::max(w, 1 + 1e-9 * ((i * 31) % 17)) : 1 - 1e-9 * ((i * 13) % 7); break; // values closer than a float can tell apart
        case 7: w = k ? std::max(w, (double)((i * 11) % 5)) : (double)((i * 3) % 4); break;   // many ties across dimensions
        }
        f[s] = w; v[k].push_back(w); }
    return v;
}
}
