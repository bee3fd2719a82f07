#ifndef STORAGE_COMMON_HPP
#define STORAGE_COMMON_HPP
#include "mc.hpp"
#include "grid.hpp"
#include <memory>
using namespace schnek;

template<size_t R> using Idx = Array<int, R>;

template<size_t R> std::string str(const Idx<R> &a) { std::ostringstream o; o << "("; for (size_t i = 0; i < R; ++i) o << (i ? "," : "") << a[i]; o << ")"; return o.str(); }
template<size_t R> Idx<R> mk(const int *v) { Idx<R> a; for (size_t i = 0; i < R; ++i) a[i] = v[i]; return a; }

// the reference enumeration of a box: independent of Range's own iterator
template<size_t R, class F> void forBox(const Idx<R> &lo, const Idx<R> &hi, F f) {
  for (size_t i = 0; i < R; ++i) if (hi[i] < lo[i]) return;
  Idx<R> p = lo;
  for (;;) {
    f((const Idx<R>&)p);
    size_t d = R;
    for (;;) { if (d == 0) return; --d; if (p[d] < hi[d]) { ++p[d]; break; } p[d] = lo[d]; if (d == 0) return; }
  }
}
template<size_t R> long volume(const Idx<R> &lo, const Idx<R> &hi) { long v = 1; for (size_t i = 0; i < R; ++i) v *= std::max(0, hi[i] - lo[i] + 1); return v; }

template<size_t R> size_t cOff(const Idx<R> &lo, const Idx<R> &hi, const Idx<R> &p) { size_t o = 0; for (size_t i = 0; i < R; ++i) o = o * (hi[i] - lo[i] + 1) + (p[i] - lo[i]); return o; }
template<size_t R> size_t fOff(const Idx<R> &lo, const Idx<R> &hi, const Idx<R> &p) { size_t o = 0; for (size_t i = R; i-- > 0;) o = o * (hi[i] - lo[i] + 1) + (p[i] - lo[i]); return o; }

// element type that counts living instances: leaks, double destruction and lost buffers become visible
struct Tracked {
  static long live; int v;
  Tracked() : v(0) { ++live; }
  Tracked(int x) : v(x) { ++live; }
  Tracked(const Tracked &o) : v(o.v) { ++live; }
  Tracked &operator=(const Tracked &o) { v = o.v; return *this; }
  ~Tracked() { --live; }
  operator int() const { return v; }
};
#endif
