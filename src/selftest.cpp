// Cross-checks of the reference models themselves.
#include "mc.hpp"
#include "ref.hpp"
PART("corner ranks = elimination (F3 2x3)") { ref::Mat<ref::Zp<3>> M(2, 3); for (auto& x : M.a) x = c.choose(3); c.shard_here(); auto a = ref::corner_pairs(M), b = ref::reduce_pairs(M); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.check(a == b, "reference pairings disagree"); c.state(M.hash()); }
PART("rank-nullity and inverse (F2 3x3)") { ref::Mat<ref::Zp<2>> M(3, 3); for (auto& x : M.a) x = c.choose(2); c.shard_here(); auto K = M.kernel(); c.check((M * K).iszero() && K.n + M.rank() == 3 && K.rank() == K.n, "kernel"); if (M.invertible()) c.check(M * M.inverse() == ref::Mat<ref::Zp<2>>::eye(3), "inverse"); c.check(M.invertible() == !M.det().zero(), "det"); c.state(M.hash()); }
PART("explorer enumerates exactly the product space") { int n = c.choose(4); int s = 0; for (int i = 0; i < n; i++) { s = 3 * s + c.choose(3); if (i == 0) c.shard_here(); } c.state(n * 1000 + s); }
