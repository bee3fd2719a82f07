// Element addressing (P01), whole-grid operations (P03), index checking (P04), ranges and iteration (P05).
#include "storage_common.hpp"
#include "grid/iteration/range-iteration.hpp"
#include "grid/iteration/kokkos-iteration.hpp"
#include "grid/gridstorage/kokkos-storage.hpp"
#include <memory>
#include <utility>
long Tracked::live = 0;

static void kokkosUp() { static bool up = false; if (!up) { up = true; Kokkos::InitArguments a; a.num_threads = 1; a.disable_warnings = true; Kokkos::initialize(a); } }

template<class T, size_t R> using KStore = KokkosGridStorage<T, R>;

enum Layout { LC, LF, LAny };
template<class G> struct LayoutOf { static const Layout v = LAny; };
template<class T, size_t R, template<size_t> class C> struct LayoutOf<Grid<T, R, C, SingleArrayGridStorage>> { static const Layout v = LC; };
template<class T, size_t R, template<size_t> class C> struct LayoutOf<Grid<T, R, C, SingleArrayGridStorageFortran>> { static const Layout v = LF; };

template<class G, size_t R, size_t... I> auto &callRef(G &g, const Idx<R> &p, std::index_sequence<I...>) { return g(p[I]...); }
template<class G, size_t R, size_t... I> auto callVal(const G &g, const Idx<R> &p, std::index_sequence<I...>) { return g(p[I]...); }

// ---- P01: writing through one form of access and reading through every other one -----------------
template<class G, size_t R> void addressing(const Idx<R> &lo, const Idx<R> &hi, int how) {
  typedef std::make_index_sequence<R> Seq;
  std::unique_ptr<G> gp;
  Range<int, R> rg(lo, hi); Idx<R> size; for (size_t d = 0; d < R; ++d) size[d] = hi[d] - lo[d] + 1;
  bool zero = true; for (size_t d = 0; d < R; ++d) zero &= lo[d] == 0;
  switch (how) {
    case 0: gp.reset(new G(lo, hi)); break;
    case 1: gp.reset(new G()); gp->resize(lo, hi); break;
    case 2: gp.reset(new G(rg)); break;
    case 3: gp.reset(new G(Idx<R>(2))); gp->resize(rg); break;
    case 4: if (!zero) throw mc::Prune{}; gp.reset(new G(size)); break;
    case 5: if (!zero) throw mc::Prune{}; gp.reset(new G()); gp->resize(size); break;
    case 6: { Grid<char, R> o(lo, hi); gp.reset(new G()); gp->resize(o); break; }
  }
  G &g = *gp; const G &c = g;
  mc::op("box " + str<R>(lo) + ".." + str<R>(hi) + " built by method " + std::to_string(how));
  long n = volume<R>(lo, hi);
  for (size_t d = 0; d < R; ++d) MC_REQUIRE(c.getLo(d) == lo[d] && c.getHi(d) == hi[d] && c.getDims(d) == size[d] && c.getLo()[d] == lo[d] && c.getHi()[d] == hi[d] && c.getDims()[d] == size[d], "bounds", "bounds in dimension " << d << ": " << c.getLo(d) << ".." << c.getHi(d));
  int v = 1;
  for (int form = 0; form < 2; ++form) {
    int base = v;
    forBox<R>(lo, hi, [&](const Idx<R> &p) { if (form == 0) g[p] = v++; else callRef(g, p, Seq()) = v++; });
    int w = base;
    forBox<R>(lo, hi, [&](const Idx<R> &p) {
      Array<int, R, ArrayAssertArgCheck> q(p); Idx<R> zeroA(0);
      int a = (int)c[p], b = (int)callVal(c, p, Seq()), e = (int)g[p], f = (int)callRef(g, p, Seq()), h = (int)c.get(p), k = (int)g[q], l = (int)g[p + zeroA], m2 = (int)c[p - zeroA];
      MC_REQUIRE(a == w && b == w && e == w && f == w && h == w && k == w && l == w && m2 == w, "readback", "at " << str<R>(p) << " wrote " << w << " read " << a << "," << b << "," << e << "," << f << "," << h << "," << k << "," << l << "," << m2);
      ++w;
    });
  }
  if constexpr (LayoutOf<G>::v != LAny) {
    MC_REQUIRE((long)c.getSize() == n, "size", "getSize " << c.getSize() << " for " << n << " cells");
    forBox<R>(lo, hi, [&](const Idx<R> &p) {
      size_t want = LayoutOf<G>::v == LC ? cOff<R>(lo, hi, p) : fOff<R>(lo, hi, p);
      size_t got = &g[p] - g.getRawData();
      MC_REQUIRE(got == want, "layout", "element " << str<R>(p) << " stored at offset " << got << ", documented order puts it at " << want);
      for (size_t d = 0; d < R; ++d) if (p[d] < hi[d]) { Idx<R> q = p; q[d]++; MC_REQUIRE(&g[q] - &g[p] == c.stride(d), "stride", "stride(" << d << ")=" << c.stride(d) << " but neighbours are " << (&g[q] - &g[p]) << " apart"); }
    });
    long cnt = 0; for (auto it = g.begin(); it != g.end(); ++it) ++cnt;
    long cnt2 = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) ++cnt2;
    MC_REQUIRE(cnt == n && cnt2 == n, "iterate", "storage iterators visit " << cnt << "/" << cnt2 << " of " << n);
  }
  mc::state(mc::hashStr(str<R>(lo) + str<R>(hi)));
}
template<size_t R> std::pair<Idx<R>, Idx<R>> chooseBox(const std::vector<int> &los, int maxExt, int minExt = 1) {
  Idx<R> lo, hi;
  for (size_t d = 0; d < R; ++d) { lo[d] = mc::pick(los); hi[d] = lo[d] + mc::range(minExt, maxExt) - 1; }
  return {lo, hi};
}
template<class G, size_t R> void addAddressing(const std::string &n) {
  mc::add("P01." + n, [] {
    kokkosUp();
    std::vector<int> los = R <= 2 ? std::vector<int>{-2, 0, 3, 2000000000, -2000000000} : R == 3 ? std::vector<int>{-2, 0, 2000000000} : R == 4 ? std::vector<int>{-1, 2} : std::vector<int>{-1};
    int maxE = R <= 2 ? (mc::thorough() ? 6 : 4) : R <= 4 ? 3 : 2;
    if (R == 4 && mc::thorough()) los = {-2, 0, 2000000000};
    auto b = chooseBox<R>(los, maxE);
    addressing<G, R>(b.first, b.second, mc::choose(R <= 2 ? 7 : R == 3 ? (mc::thorough() ? 7 : 3) : R <= 4 ? 2 : 1));
    mc::sample(str<R>(b.first) + ".." + str<R>(b.second));
  });
}

// ---- P01: grids with more cells than an int can count (only the pages of the cells used are touched) ----
#include <sys/mman.h>
template<class G, size_t R> void addLarge(const std::string &n, const std::vector<Idx<R>> &shapes) {
  mc::add("P01.large." + n, [=] {
    Idx<R> size = mc::pick(shapes), lo, hi; int origin = mc::pick(std::vector<int>{0, -7, 2000000000}); double cells = 1; for (size_t d = 0; d < R; ++d) { if (size[d] > 2147483647L - origin) throw mc::Prune(); lo[d] = origin; hi[d] = origin + size[d] - 1; cells *= size[d]; }
    { void *m = mmap(nullptr, (size_t)(cells * 1.3), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) throw mc::Prune(); munmap(m, (size_t)(cells * 1.3)); }
    mc::op("box " + str<R>(lo) + ".." + str<R>(hi)); std::unique_ptr<G> gp; switch (mc::choose(2)) { case 0: gp.reset(new G(lo, hi)); break; default: gp.reset(new G(Idx<R>(2))); gp->resize(lo, hi); } G &g = *gp; const G &c = g;
    std::vector<Idx<R>> at; Idx<R> k(0); while (true) { Idx<R> p; for (size_t d = 0; d < R; ++d) p[d] = k[d] == 0 ? lo[d] : k[d] == 1 ? lo[d] + 1 : k[d] == 2 ? lo[d] + size[d] / 2 : k[d] == 3 ? hi[d] - 1 : hi[d]; bool seen = false; for (auto &z : at) { bool e = true; for (size_t d = 0; d < R; ++d) e &= z[d] == p[d]; seen |= e; } if (!seen) at.push_back(p); size_t d = 0; while (d < R && ++k[d] == 5) k[d++] = 0; if (d == R) break; }
    typedef std::make_index_sequence<R> Seq; for (size_t q = 0; q < at.size(); ++q) if (q & 1) g[at[q]] = (unsigned char)(q + 1); else callRef(g, at[q], Seq()) = (unsigned char)(q + 1);
    for (size_t q = 0; q < at.size(); ++q) { unsigned char w = (unsigned char)(q + 1); MC_REQUIRE(c[at[q]] == w && callVal(c, at[q], Seq()) == w && g[at[q]] == w && callRef(g, at[q], Seq()) == w && c.get(at[q]) == w, "readback", "at " << str<R>(at[q]) << " wrote " << (int)w << " read " << (int)c[at[q]]);
      if constexpr (LayoutOf<G>::v != LAny) { size_t want = LayoutOf<G>::v == LC ? cOff<R>(lo, hi, at[q]) : fOff<R>(lo, hi, at[q]); MC_REQUIRE((size_t)(&g[at[q]] - g.getRawData()) == want, "layout", "element " << str<R>(at[q]) << " stored at offset " << (&g[at[q]] - g.getRawData()) << ", documented order puts it at " << want); for (size_t d = 0; d < R; ++d) if (at[q][d] < hi[d]) { Idx<R> z = at[q]; z[d]++; MC_REQUIRE(&g[z] - &g[at[q]] == c.stride(d), "stride", "stride(" << d << ")=" << c.stride(d)); } } }
    for (size_t d = 0; d < R; ++d) MC_REQUIRE(c.getLo(d) == lo[d] && c.getHi(d) == hi[d] && c.getDims(d) == size[d], "bounds", "bounds in dimension " << d);
    MC_REQUIRE((double)c.getSize() == cells, "size", "getSize() is " << c.getSize() << " for " << cells << " cells");
    if constexpr (LayoutOf<G>::v != LAny) MC_REQUIRE(g.end() - g.begin() == (ptrdiff_t)cells, "iterate", "storage iterators span " << (g.end() - g.begin()) << " of " << cells); });
}
// ---- P03 -----------------------------------------------------------------------------------------
template<class GA, class GB, size_t R> void addWhole(const std::string &n) {
  mc::add("P03." + n, [] {
    kokkosUp();
    auto b = chooseBox<R>({-1, 2}, R <= 2 ? 4 : 2);
    Idx<R> lo = b.first, hi = b.second;
    bool sameStorage = std::is_same<typename GA::BaseType::StoragePolicyType, typename GB::BaseType::StoragePolicyType>::value;
    int padL = sameStorage ? 0 : mc::choose(2), padH = sameStorage ? 0 : mc::choose(2);
    Idx<R> lo2 = lo, hi2 = hi; for (size_t d = 0; d < R; ++d) { lo2[d] -= padL; hi2[d] += padH; }
    GA a(lo, hi); GB c(lo2, hi2); GA shared(a);
    mc::op("dest " + str<R>(lo) + ".." + str<R>(hi) + " src pad " + std::to_string(padL) + "/" + std::to_string(padH));
    typedef typename GA::value_type T; typedef typename GB::value_type T2;
    a = T(7);
    forBox<R>(lo, hi, [&](const Idx<R> &p) { MC_REQUIRE(a[p] == T(7) && shared[p] == T(7), "fill", "cell " << str<R>(p) << " is " << a[p] << " after filling with 7"); });
    int k = 1; forBox<R>(lo2, hi2, [&](const Idx<R> &p) { c[p] = T2(k); k += 3; });
    k = 100; forBox<R>(lo, hi, [&](const Idx<R> &p) { a[p] = T(k); k += 7; });
    int seq = mc::choose(3);
    if (seq == 0) a += c; else if (seq == 1) a -= c; else { a += c; a -= c; a += c; }
    mc::op(seq == 0 ? "+=" : seq == 1 ? "-=" : "+= -= +=");
    int sgn = seq == 1 ? -1 : 1;
    std::map<std::string, int> cv; k = 1; forBox<R>(lo2, hi2, [&](const Idx<R> &p) { cv[str<R>(p)] = k; MC_REQUIRE(c[p] == T2(k), "source", "source changed at " << str<R>(p)); k += 3; });
    k = 100; forBox<R>(lo, hi, [&](const Idx<R> &p) { T want = T(k) + sgn * T(cv[str<R>(p)]); MC_REQUIRE(a[p] == want && shared[p] == want, "sum", "cell " << str<R>(p) << " = " << a[p] << " expected " << want); k += 7; });
    // a grid combined with itself
    if constexpr (std::is_same<GA, GB>::value) { a += a; k = 100; forBox<R>(lo, hi, [&](const Idx<R> &p) { T want = 2 * (T(k) + sgn * T(cv[str<R>(p)])); MC_REQUIRE(a[p] == want, "self", "cell " << str<R>(p)); k += 7; }); a -= shared; forBox<R>(lo, hi, [&](const Idx<R> &p) { MC_REQUIRE(a[p] == T(0), "self", "g -= alias of g leaves " << a[p]); }); }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi) + str<R>(lo2)));
  });
}

// ---- P04 -----------------------------------------------------------------------------------------
// an index around the box: everything for few dimensions, deviations in up to two dimensions otherwise
template<size_t R> std::pair<Idx<R>, Idx<R>> checkBox(std::vector<int> los, int maxE) { if (R <= 3) return chooseBox<R>(los, maxE); Idx<R> lo, hi; int v = mc::choose(3); for (size_t d = 0; d < R; ++d) { lo[d] = -1 + (int)d % 3; hi[d] = lo[d] + (v == 2 ? 1 : (int)(d + v) % 2); } return {lo, hi}; }
template<size_t R> Idx<R> aroundBox(const Idx<R> &lo, const Idx<R> &hi) { Idx<R> p; if (R <= 3) { for (size_t d = 0; d < R; ++d) p[d] = mc::range(lo[d] - 2, hi[d] + 2); return p; } int base = mc::choose(2); for (size_t d = 0; d < R; ++d) p[d] = base ? hi[d] : lo[d]; size_t d1 = mc::choose(R), d2 = d1 + mc::choose((int)(R - d1)); p[d1] = mc::range(lo[d1] - 1, hi[d1] + 1); if (d2 != d1) p[d2] = mc::flip() ? lo[d2] - 1 : hi[d2] + 1; return p; }
template<template<typename, size_t> class St, size_t R> void addChecks(const std::string &n) {
  mc::add("P04.assert." + n, [] { kokkosUp();
    auto b = checkBox<R>({-1}, 2); Idx<R> lo = b.first, hi = b.second, p = aroundBox<R>(lo, hi);
    bool in = true; for (size_t d = 0; d < R; ++d) in &= p[d] >= lo[d] && p[d] <= hi[d];
    int form = mc::choose(4);
    mc::op("assert-checked box " + str<R>(lo) + ".." + str<R>(hi) + " access " + str<R>(p) + " form " + std::to_string(form));
    auto access = [&]() -> int {
      Grid<int, R, GridAssertCheck, St> g(lo, hi); const auto &c = g; int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { g[q] = k++; });
      typedef std::make_index_sequence<R> Seq;
      switch (form) { case 0: return g[p]; case 1: return c[p]; case 2: return callRef(g, p, Seq()); default: return callVal(c, p, Seq()); }
    };
    int want = 1 + (in ? (int)cOff<R>(lo, hi, p) : 0);
    if (in) { int v = access(); MC_REQUIRE(v == want, "value", "in-range checked access returned " << v << " expected " << want); }
    else { auto r = mc::inChild([&](std::ostream &o) { o << access(); }); MC_REQUIRE(!r.exited && r.sig == 6, "accepted", "out-of-range access was not stopped (result " << r.out << ")"); }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi) + str<R>(p)) + form);
  });
  mc::add("P04.debugInRange." + n, [] { kokkosUp();
    auto b = checkBox<R>({-1, 3}, 3); Idx<R> lo = b.first, hi = b.second;
    Grid<int, R, GridDebugCheck, St> g(lo, hi); int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { g[q] = k++; }); const auto &c = g;
    k = 1; forBox<R>(lo, hi, [&](const Idx<R> &q) { MC_REQUIRE(g[q] == k && c[q] == k, "value", "debug-checked value"); ++k; });
    MC_REQUIRE(!GridDebugCheck<R>::getErrorFlag(), "falseflag", "error flag raised although every access was inside " << str<R>(lo) << ".." << str<R>(hi));
    mc::op("box"); mc::state(mc::hashStr(str<R>(lo) + str<R>(hi)));
  });
  mc::add("P04.debug." + n, [] { kokkosUp();
    auto b = checkBox<R>({-1}, 2); Idx<R> lo = b.first, hi = b.second, p = aroundBox<R>(lo, hi), q;
    for (size_t d = 0; d < R; ++d) { q[d] = std::min(hi[d], std::max(lo[d], p[d])); }
    bool in = str<R>(p) == str<R>(q); if (in) throw mc::Prune{};
    // all forms of access for few dimensions; the flag stays up once raised, so each access has a process of its own
    int form = R <= 2 ? mc::choose(4) : 0; if (R > 2) { for (size_t d = 0; d < R; ++d) form += p[d] + 8; form %= 4; }
    mc::op("debug-checked box " + str<R>(lo) + ".." + str<R>(hi) + " access " + str<R>(p) + " form " + std::to_string(form));
    int info = 0; for (size_t d = 0; d < R; ++d) if (p[d] < lo[d]) info = -(int)d; else if (p[d] > hi[d]) info = (int)d;
    auto r = mc::inChild([&](std::ostream &o) {
      typedef std::make_index_sequence<R> Seq; Grid<int, R, GridDebugCheck, St> g(lo, hi); int k = 1; forBox<R>(lo, hi, [&](const Idx<R> &x) { g[x] = k++; }); const auto &c = g; int want = 1 + (int)cOff<R>(lo, hi, q);
      if (GridDebugCheck<R>::getErrorFlag()) o << "error flag raised although every access was inside; ";
      int v = form == 0 ? g[p] : form == 1 ? c[p] : form == 2 ? callRef(g, p, Seq()) : callVal(c, p, Seq());
      if (v != want) o << "reached " << v << ", the nearest cell holds " << want << "; "; if (!GridDebugCheck<R>::getErrorFlag()) o << "error flag not raised; ";
      auto off = GridDebugCheck<R>::getOffending(); for (size_t d = 0; d < R; ++d) if (off[d] != p[d]) o << "reported index differs from the one used in dimension " << d << "; ";
      if (GridDebugCheck<R>::getErrorInfo() != info) o << "reported dimension " << GridDebugCheck<R>::getErrorInfo() << ", expected " << info << "; ";
      if (form < 2) g[p] = 999; else callRef(g, p, Seq()) = 999; forBox<R>(lo, hi, [&](const Idx<R> &x) { int w = 1 + (int)cOff<R>(lo, hi, x); if (str<R>(x) == str<R>(q)) w = 999; if (g.get(x) != w) o << "writing changed cell " << str<R>(x) << "; "; if (g[x] != w || c[x] != w) o << "reading cell " << str<R>(x) << " afterwards gives another value; "; });
      off = GridDebugCheck<R>::getOffending(); for (size_t d = 0; d < R; ++d) if (off[d] != p[d]) o << "later accesses inside are reported in dimension " << d << "; ";
      // another access outside: the latest one is reported
      Idx<R> p2, q2; for (size_t d = 0; d < R; ++d) { p2[d] = lo[d] + hi[d] - p[d]; q2[d] = std::min(hi[d], std::max(lo[d], p2[d])); } if (g[p2] != g.get(q2)) o << "the second access outside reached another cell; "; off = GridDebugCheck<R>::getOffending(); for (size_t d = 0; d < R; ++d) if (off[d] != p2[d]) o << "second reported index differs from the one used in dimension " << d << "; "; if (!GridDebugCheck<R>::getErrorFlag() || GridDebugCheck<R>::getErrorInfo() != -info) o << "second access reports dimension " << GridDebugCheck<R>::getErrorInfo() << ", expected " << -info << "; ";
    });
    MC_REQUIRE(r.exited && r.code == 0 && r.out.empty(), "debug", "access " << str<R>(p) << ": " << (r.exited ? r.out : "killed by signal " + std::to_string(r.sig)));
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi) + str<R>(p)));
  });
}
template<size_t L> void arrayCheck() {
  mc::add("P04.array" + std::to_string(L), [] {
    int i = mc::range(-1, (int)L + 2); int form = mc::choose(4); bool in = i >= 0 && i < (int)L;
    mc::op("checked array of length " + std::to_string(L) + " index " + std::to_string(i));
    auto access = [&]() -> int { Array<int, L, ArrayAssertArgCheck> a(0); for (size_t k = 0; k < L; ++k) a[k] = 10 + k; const auto &c = a; size_t j = (size_t)(long)i; switch (form) { case 0: return a[j]; case 1: return c[j]; case 2: return a.at(j); default: return c.at(j); } };
    if (in) { int v = access(); MC_REQUIRE(v == 10 + i, "value", "checked array element"); }
    else { auto r = mc::inChild([&](std::ostream &o) { o << access(); }); MC_REQUIRE(!r.exited && r.sig == 6, "accepted", "out-of-range array access was not stopped"); }
    mc::state(i * 10 + form);
  });
}

// ---- P05 -----------------------------------------------------------------------------------------
template<class Rg, class I, size_t... K> void growEach(Rg &r, const I &by, std::index_sequence<K...>) { r.grow(by[K]...); }
template<size_t R> void addRange() {
  std::string n = std::to_string(R) + "d";
  mc::add("P05.iterate." + n, [] {
    kokkosUp();
    auto b = chooseBox<R>(R <= 3 ? std::vector<int>{-1, 0, 2} : R == 4 ? std::vector<int>{-1, 2} : std::vector<int>{-1}, R <= 2 ? 5 : R == 3 ? 3 : 2, R <= 2 ? -1 : R <= 6 ? 0 : 1); Idx<R> lo = b.first, hi = b.second;
    std::vector<std::string> want; forBox<R>(lo, hi, [&](const Idx<R> &p) { want.push_back(str<R>(p)); });
    mc::op("range " + str<R>(lo) + ".." + str<R>(hi));
    Range<int, R> r(lo, hi); size_t k = 0;
    for (auto it = r.begin(); it != r.end(); ++it) { MC_REQUIRE(k < want.size(), "extra", "iterator visits " << str<R>(*it) << " after the last position of the range"); MC_REQUIRE(str<R>(*it) == want[k] && str<R>(it.getPos()) == want[k], "order", "position " << k << " is " << str<R>(*it) << " expected " << want[k]); ++k; }
    MC_REQUIRE(k == want.size(), "missed", "iterator visited " << k << " of " << want.size());
    k = 0; for (const auto &p : r) { MC_REQUIRE(k < want.size() && str<R>(p) == want[k], "order", "range-for"); ++k; } MC_REQUIRE(k == want.size(), "missed", "range-for visited " << k);
    auto it = r.begin(); k = 0; while (it != r.end()) { auto copy(it); auto old = it++; MC_REQUIRE(str<R>(*old) == want[k] && old == copy && !(it == copy), "postfix", "postfix increment/copy of the iterator at " << want[k]); ++copy; MC_REQUIRE(copy == it, "postfix", "copies diverge"); ++k; if (k > want.size()) break; }
    std::vector<std::string> c, f; std::map<std::string, int> kk;
    RangeCIterationPolicy<R>::forEach(r, [&](const Idx<R> &p) { c.push_back(str<R>(p)); });
    MC_REQUIRE(c == want, "cpolicy", "C-order iteration visited " << c.size() << " positions of " << want.size() << " or in another order");
    RangeFortranIterationPolicy<R>::forEach(r, [&](const Idx<R> &p) { f.push_back(str<R>(p)); });
    std::vector<std::string> wf; { Idx<R> l2, h2; for (size_t d = 0; d < R; ++d) { l2[d] = lo[R - 1 - d]; h2[d] = hi[R - 1 - d]; } forBox<R>(l2, h2, [&](const Idx<R> &p) { Idx<R> q; for (size_t d = 0; d < R; ++d) q[d] = p[R - 1 - d]; wf.push_back(str<R>(q)); }); }
    MC_REQUIRE(f == wf, "fpolicy", "Fortran-order iteration visited " << f.size() << " positions of " << wf.size() << " or in another order");
    bool neg = false; for (size_t d = 0; d < R; ++d) neg |= hi[d] < lo[d] - 1;
    if constexpr (R <= 6) if (!neg) {
      typedef std::map<std::string, int> M; M *m = &kk;
      RangeKokkosIterationPolicy<R, Kokkos::Serial>::forEach(r, [m](const Idx<R> &p) { (*m)[str<R>(p)]++; });
      MC_REQUIRE(kk.size() == want.size(), "kokkos", "parallel iteration visited " << kk.size() << " distinct positions of " << want.size());
      for (auto &w : want) MC_REQUIRE(kk[w] == 1, "kokkos", "position " << w << " visited " << kk[w] << " times");
    }
    // a grid of that extent is itself a range
    if (!want.empty()) { Grid<int, R> g(lo, hi); std::vector<std::string> gg; RangeCIterationPolicy<R>::forEach(g.getRange(), [&](const Idx<R> &p) { gg.push_back(str<R>(p)); }); MC_REQUIRE(gg == want, "gridrange", "iterating the range of a grid"); }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi))); mc::sample(str<R>(lo) + ".." + str<R>(hi));
  });
  mc::add("P05.algebra." + n, [] {
    auto b = R <= 4 ? chooseBox<R>({-1, 2}, 3, 0) : chooseBox<R>({-1}, 2, R <= 6 ? 0 : 1); Idx<R> lo = b.first, hi = b.second; Range<int, R> r(lo, hi), r0;
    mc::op("range " + str<R>(lo) + ".." + str<R>(hi));
    Idx<R> p; if (R <= 2) for (size_t d = 0; d < R; ++d) p[d] = mc::range(lo[d] - 2, hi[d] + 2); else { p = lo; size_t d = mc::choose(R); p[d] = mc::range(lo[d] - 2, hi[d] + 2); }
    bool in = true; for (size_t d = 0; d < R; ++d) in &= p[d] >= lo[d] && p[d] <= hi[d];
    MC_REQUIRE(r.inside(p) == in, "inside", "inside" << str<R>(p) << " is " << r.inside(p));
    r0 = r; Range<int, R, ArrayAssertArgCheck> rc(r); for (size_t d = 0; d < R; ++d) MC_REQUIRE(r0.getLo(d) == lo[d] && r0.getHi(d) == hi[d] && rc.getLo(d) == lo[d] && rc.getHi(d) == hi[d] && r0.getLo()[d] == lo[d] && r0.getHi()[d] == hi[d], "copy", "copied range differs");
    int s = mc::range(-1, 2); r0.grow(s); for (size_t d = 0; d < R; ++d) MC_REQUIRE(r0.getLo(d) == lo[d] - s && r0.getHi(d) == hi[d] + s, "grow", "grow(" << s << ") in dimension " << d);
    if constexpr (R >= 2) { Range<int, R> q(r); Idx<R> by; for (size_t d = 0; d < R; ++d) by[d] = d == 0 ? s : 3 + 2 * (int)d; growEach(q, by, std::make_index_sequence<R>()); for (size_t d = 0; d < R; ++d) MC_REQUIRE(q.getLo(d) == lo[d] - by[d] && q.getHi(d) == hi[d] + by[d], "grow", "grow per dimension, dimension " << d); }
    if constexpr (R >= 2) {
      auto pr = r.template project<R - 1>(); for (size_t d = 0; d + 1 < R; ++d) MC_REQUIRE(pr.getLo(d) == lo[d] && pr.getHi(d) == hi[d], "project", "project keeps the first dimensions");
      for (size_t k = 0; k < R; ++k) { auto q = r.projectDim((int)k); for (size_t d = 0; d + 1 < R; ++d) { size_t src = d < k ? d : d + 1; MC_REQUIRE(q.getLo(d) == lo[src] && q.getHi(d) == hi[src], "projectDim", "projectDim(" << k << ")"); } }
    }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi) + str<R>(p)) + s);
  });
}

template<class T, size_t R> using GC = Grid<T, R>;
template<class T, size_t R> using GF = Grid<T, R, GridNoArgCheck, SingleArrayGridStorageFortran>;
template<class T, size_t R> using GL = Grid<T, R, GridNoArgCheck, LazyArrayGridStorage>;
template<class T, size_t R> using GK = Grid<T, R, GridNoArgCheck, KokkosGridStorage>;

#ifndef VP
#define VP 0
#endif
#define ON(n) (VP == 0 || VP == n)
void mc_register() {
#if ON(1)
  addAddressing<GC<int, 1>, 1>("c1"); addAddressing<GC<int, 2>, 2>("c2"); addAddressing<GC<int, 3>, 3>("c3"); addAddressing<GC<int, 4>, 4>("c4"); addAddressing<GC<int, 5>, 5>("c5");
#endif
#if ON(1)
  addAddressing<GC<int, 6>, 6>("c6"); addAddressing<GC<int, 7>, 7>("c7"); addAddressing<GC<int, 8>, 8>("c8"); addAddressing<GC<int, 9>, 9>("c9"); addAddressing<GC<int, 10>, 10>("c10");
#endif
#if ON(1)
  addAddressing<GF<int, 1>, 1>("f1"); addAddressing<GF<int, 2>, 2>("f2"); addAddressing<GF<int, 3>, 3>("f3"); addAddressing<GF<int, 4>, 4>("f4"); addAddressing<GF<int, 5>, 5>("f5"); addAddressing<GF<int, 6>, 6>("f6");
#endif
#if ON(1)
  addAddressing<GL<int, 1>, 1>("lazy1"); addAddressing<GL<int, 2>, 2>("lazy2"); addAddressing<GL<int, 3>, 3>("lazy3");
#endif
#if ON(1)
  addAddressing<GK<int, 1>, 1>("kokkos1"); addAddressing<GK<int, 2>, 2>("kokkos2"); addAddressing<GK<int, 3>, 3>("kokkos3"); addAddressing<GK<int, 4>, 4>("kokkos4");
#endif
#if ON(1)
  { typedef unsigned char uc; std::vector<Idx<2>> s2 = {Idx<2>(46341, 46342), Idx<2>(3, 1000000000), Idx<2>(1000000000, 3), Idx<2>(65537, 65536)}; std::vector<Idx<3>> s3 = {Idx<3>(1300, 1300, 1300), Idx<3>(2, 3, 1000000000), Idx<3>(1000000000, 2, 3), Idx<3>(2, 46341, 46342), Idx<3>(46341, 46342, 2)};
    addLarge<GC<uc, 2>, 2>("c2", s2); addLarge<GF<uc, 2>, 2>("f2", s2); addLarge<GL<uc, 2>, 2>("lazy2", s2); addLarge<GC<uc, 3>, 3>("c3", s3); addLarge<GF<uc, 3>, 3>("f3", s3); }
#endif
#if ON(3)
  addWhole<GC<int, 1>, GC<int, 1>, 1>("c1c1"); addWhole<GC<int, 2>, GC<int, 2>, 2>("c2c2"); addWhole<GC<double, 2>, GF<double, 2>, 2>("c2f2"); addWhole<GF<double, 2>, GC<int, 2>, 2>("f2c2int"); addWhole<GC<int, 3>, GC<int, 3>, 3>("c3c3"); addWhole<GF<int, 3>, GF<int, 3>, 3>("f3f3"); addWhole<GF<int, 3>, GC<int, 3>, 3>("f3c3"); addWhole<GC<int, 2>, GL<int, 2>, 2>("c2lazy2"); addWhole<GL<int, 2>, GL<int, 2>, 2>("lazy2lazy2"); addWhole<GC<long, 2>, GC<int, 2>, 2>("c2longc2int");
#endif
#if ON(4)
  addChecks<SingleArrayGridStorage, 1>("c1"); addChecks<SingleArrayGridStorage, 2>("c2"); addChecks<SingleArrayGridStorage, 3>("c3"); addChecks<SingleArrayGridStorage, 4>("c4"); addChecks<SingleArrayGridStorage, 5>("c5"); addChecks<SingleArrayGridStorage, 7>("c7"); addChecks<SingleArrayGridStorage, 10>("c10"); addChecks<SingleArrayGridStorageFortran, 2>("f2"); addChecks<LazyArrayGridStorage, 2>("lazy2"); addChecks<KokkosGridStorage, 2>("kokkos2");
#endif
#if ON(4)
  arrayCheck<1>(); arrayCheck<2>(); arrayCheck<3>(); arrayCheck<4>(); arrayCheck<5>(); arrayCheck<6>(); arrayCheck<10>(); arrayCheck<17>();
#endif
#if ON(5)
  addRange<1>(); addRange<2>(); addRange<3>(); addRange<4>(); addRange<5>(); addRange<6>(); addRange<7>(); addRange<8>(); addRange<9>(); addRange<10>();
#endif
}
