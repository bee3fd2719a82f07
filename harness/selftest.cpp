// The exploration kernel checked on systems whose behaviours are known by counting.
#include "mc.hpp"
void mc_register() {
  mc::add("S.count", [] { int n = mc::range(1, 3); for (int i = 0; i < n; ++i) mc::choose(2); mc::op("x"); mc::state(n); });   // 2+4+8 = 14 executions
  mc::add("S.fail", [] { int a = mc::choose(3), b = mc::choose(3); mc::require(!(a == 1 && b == 2), "bad", "found"); });
  mc::add("S.crash", [] { int a = mc::choose(5); if (a == 3) abort(); });
  mc::add("S.prune", [] { int s = 0; for (int i = 0; i < 6; ++i) { s += mc::choose(2); if (!mc::visit(i * 100 + s)) throw mc::Prune{}; } });
}
