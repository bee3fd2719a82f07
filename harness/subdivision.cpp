// Domain subdivision: serial (P12), MPI decomposition (P13), ghost exchange (P14), accumulation (P15), buffer
// exchange (P16), reductions and process identity (P17), process grid factorisation (P18), progress (P19).
#include "fakempi.hpp"
#include "grid.hpp"
#include "storage_common.hpp"
#include "util/factor.hpp"
#include "util/databuffer.hpp"
#include "diagnostic/diagnostic.hpp"
#include "parser/parser.hpp"
#include "variables/function_expression.hpp"
#include <cmath>
long Tracked::live = 0;
using fakempi::Options;
#ifndef VP
#define VP 0
#endif
#define ON(n) (VP == 0 || VP == n)

// ---- the reference: all local blocks of the distributed grid, with explicit periodic images ------------------
template<class T, size_t R> struct LBlock {
  Idx<R> ilo, ihi; int delta = 0; std::vector<T> v;             // inner box, ghost width, values of the box with ghosts
  Idx<R> lo() const { Idx<R> x(ilo); for (size_t d = 0; d < R; ++d) x[d] -= delta; return x; }
  Idx<R> hi() const { Idx<R> x(ihi); for (size_t d = 0; d < R; ++d) x[d] += delta; return x; }
  T &at(const Idx<R> &p) { return v[cOff<R>(lo(), hi(), p)]; }
};
template<class T, size_t R> struct Model {
  Idx<R> glo, ghi; std::vector<LBlock<T, R>> b; Model() : glo(0), ghi(0) {}
  int wrap(int x, size_t d) const { int n = ghi[d] - glo[d] + 1; return glo[d] + (((x - glo[d]) % n) + n) % n; }
  // block holding global index g of dimension d in its inner box, in the same row of blocks as b[r]
  int owner(int r, size_t d, int g) const { for (size_t q = 0; q < b.size(); ++q) { bool same = true; for (size_t e = 0; e < R; ++e) if (e != d) same &= b[q].ilo[e] == b[r].ilo[e] && b[q].ihi[e] == b[r].ihi[e]; if (same && b[q].ilo[d] <= g && g <= b[q].ihi[d]) return (int)q; } return -1; }
  void exchange(size_t d) {
    auto old = b;
    for (size_t r = 0; r < b.size(); ++r) forBox<R>(b[r].lo(), b[r].hi(), [&](const Idx<R> &p) { if (p[d] >= b[r].ilo[d] && p[d] <= b[r].ihi[d]) return; Idx<R> q(p); q[d] = wrap(p[d], d); int o = owner((int)r, d, q[d]); MC_REQUIRE(o >= 0, "cover", "no process owns global index " << q[d] << " of dimension " << d); b[r].at(p) = old[o].at(q); });
  }
  void accumulate(size_t d) {
    auto old = b;
    for (size_t r = 0; r < b.size(); ++r) forBox<R>(b[r].lo(), b[r].hi(), [&](const Idx<R> &p) {
      T sum = T(0); int g = wrap(p[d], d);
      for (size_t q = 0; q < b.size(); ++q) { bool same = true; for (size_t e = 0; e < R; ++e) if (e != d) same &= b[q].ilo[e] == b[r].ilo[e] && b[q].ihi[e] == b[r].ihi[e]; if (!same) continue; for (int x = b[q].ilo[d] - b[q].delta; x <= b[q].ihi[d] + b[q].delta; ++x) if (wrap(x, d) == g) { Idx<R> y(p); y[d] = x; sum += old[q].at(y); } }
      b[r].at(p) = sum; });
  }
};
template<class T> T value(int rank, long k, int salt) { uint64_t h = mc::mix(mc::mix(rank + 1, k), salt); if (sizeof(T) == 1) return T(h & 15); if (sizeof(T) == 2) return T(h & 1023); if (sizeof(T) == 4) return T(h & 0xfffff); return T(h & 0xffffffffffULL); }
template<class G, class T, size_t R> void fillLocal(G &g, LBlock<T, R> &b, int rank, int salt) { b.v.assign(volume<R>(b.lo(), b.hi()), T()); long k = 0; forBox<R>(b.lo(), b.hi(), [&](const Idx<R> &p) { T x = value<T>(rank, k++, salt); g[p] = x; b.at(p) = x; }); }
template<class G, class T, size_t R> void compareLocal(const G &g, LBlock<T, R> &b, int rank, const char *what) { forBox<R>(b.lo(), b.hi(), [&](const Idx<R> &p) { MC_REQUIRE(g[p] == b.at(p), what, what << ": process " << rank << " (inner " << str<R>(b.ilo) << ".." << str<R>(b.ihi) << ", ghosts " << b.delta << ") cell " << str<R>(p) << " holds " << +g[p] << " expected " << +b.at(p)); }); }
template<class T> struct IsField { static const bool v = false; };
template<class T, size_t R, template<size_t> class C, template<typename, size_t> class S> struct IsField<Field<T, R, C, S>> { static const bool v = true; };
template<class G, class S, size_t R> std::unique_ptr<G> localGrid(S &s, int delta) {
  if constexpr (IsField<G>::v) { Array<double, R> z(0.0), o(1.0); Range<double, R> dom(z, o); Array<bool, R> st; for (size_t d = 0; d < R; ++d) st[d] = false; return std::unique_ptr<G>(new G(s.getInnerLo(), s.getInnerHi(), s.getInnerExtent(dom), st, delta)); }
  else { (void)delta; return std::unique_ptr<G>(new G(s.getLo(), s.getHi())); }
}

// ---- P12 -----------------------------------------------------------------------------------------
#if ON(12)
template<class G, size_t R> void addSerial(const std::string &n) {
  mc::add("P12.fields." + n, [] {
    typedef typename G::value_type T; int delta = mc::range(0, R <= 2 ? 3 : 2); Idx<R> lo, hi;
    for (size_t d = 0; d < R; ++d) { lo[d] = mc::pick(R == 3 ? std::vector<int>{-2, 3} : std::vector<int>{-2, 0, 3}); int w = mc::range(std::max(1, delta), std::max(1, delta) * 2 + (R == 1 ? 5 : R == 2 ? 2 : 1)); hi[d] = lo[d] + w + 2 * delta - 1; }
    int how = mc::choose(3); SerialSubdivision<G> s; std::unique_ptr<G> tmp;
    if (how == 0) s.init(lo, hi, delta); else if (how == 1) s.init(Range<int, R>(lo, hi), delta); else { bool z = true; for (size_t d = 0; d < R; ++d) z &= lo[d] == 0; if (!z) { G g0; static_cast<typename G::BaseType &>(g0).resize(lo, hi); s.init(g0, delta); } else { Idx<R> size; for (size_t d = 0; d < R; ++d) size[d] = hi[d] + 1; s.init(size, delta); } }
    mc::op("serial domain " + str<R>(lo) + ".." + str<R>(hi) + " delta " + std::to_string(delta)); mc::sample("serial " + str<R>(lo) + ".." + str<R>(hi) + " delta " + std::to_string(delta));
    bool wide = true; Model<T, R> m; m.b.resize(1); m.b[0].delta = delta;
    for (size_t d = 0; d < R; ++d) {
      MC_REQUIRE(s.getLo()[d] == lo[d] && s.getHi()[d] == hi[d] && s.getDomain().getLo(d) == lo[d] && s.getDomain().getHi(d) == hi[d], "domain", "local domain is the global domain");
      MC_REQUIRE(s.getInnerLo()[d] == lo[d] + delta && s.getInnerHi()[d] == hi[d] - delta && s.getInnerDomain().getLo(d) == lo[d] + delta && s.getInnerDomain().getHi(d) == hi[d] - delta, "inner", "inner domain");
      MC_REQUIRE(s.isBoundLo(d) && s.isBoundHi(d), "bound", "the only process is at every bound");
      m.b[0].ilo[d] = m.glo[d] = lo[d] + delta; m.b[0].ihi[d] = m.ghi[d] = hi[d] - delta; wide &= m.ghi[d] - m.glo[d] + 1 >= 2 * delta;
    }
    MC_REQUIRE(s.getDelta() == delta && s.master() && s.procnum() == 0 && s.procCount() == 1 && s.getUniqueId() == 0, "identity", "serial process identity");
    { Array<double, R> a(-1.0), b(7.0); auto e = s.getInnerExtent(Range<double, R>(a, b)); for (size_t d = 0; d < R; ++d) { double dx = 8.0 / (hi[d] - lo[d] + 1); MC_REQUIRE(std::abs(e.getLo()[d] - (-1 + delta * dx)) < 1e-9 && std::abs(e.getHi()[d] - (7 - delta * dx)) < 1e-9, "extent", "inner extent " << e.getLo()[d] << ".." << e.getHi()[d]); } auto z = s.getInnerExtent(b); for (size_t d = 0; d < R; ++d) { double dx = 7.0 / (hi[d] - lo[d] + 1); MC_REQUIRE(std::abs(z.getLo()[d] - delta * dx) < 1e-9 && std::abs(z.getHi()[d] - (7 - delta * dx)) < 1e-9, "extent", "inner extent of a domain from 0: " << z.getLo()[d] << ".." << z.getHi()[d]); } }
    G g; if constexpr (IsField<G>::v) { Array<double, R> z(0.0), o(1.0); Array<bool, R> st; for (size_t d = 0; d < R; ++d) st[d] = d % 2; g.resize(s.getInnerLo(), s.getInnerHi(), Range<double, R>(z, o), st, delta); } else g.resize(lo, hi);
    fillLocal(g, m.b[0], 0, 1);
    for (int k = 0; k < 2; ++k) {
      int o = mc::choose(wide ? 2 * R + 2 : R + 1);
      if (o < (int)R) { s.exchange(g, o); m.exchange(o); mc::op("exchange(" + std::to_string(o) + ")"); compareLocal(g, m.b[0], 0, "exchange"); }
      else if (o == (int)R) { s.exchange(g); for (size_t d = 0; d < R; ++d) m.exchange(d); mc::op("exchange"); compareLocal(g, m.b[0], 0, "exchange"); }
      else if (o == (int)R + 1) { static_cast<DomainSubdivision<G> &>(s).accumulate(g); for (size_t d = 0; d < R; ++d) m.accumulate(d); mc::op("accumulate"); compareLocal(g, m.b[0], 0, "accumulate"); }
      else { s.accumulate(g, o - R - 2); m.accumulate(o - R - 2); mc::op("accumulate(" + std::to_string(o - R - 2) + ")"); compareLocal(g, m.b[0], 0, "accumulate"); }
    }
    mc::state(mc::hashStr(str<R>(lo) + str<R>(hi)) + delta);
  });
}
void addSerialData() {
  typedef Grid<double, 2> G; typedef SerialSubdivision<G>::BufferType B;
  mc::add("P12.buffers", [] {
    SerialSubdivision<G> s; s.init(Idx<2>(0, 0), Idx<2>(5, 5), 1); B a, b; std::vector<unsigned char> ca, cb; bool da = false, db = false; int k = 3;
    for (int step = 0; step < 4; ++step) {
      int o = mc::choose(6); std::vector<int> sizes{1, 4, 0};
      auto refill = [&](B &x, std::vector<unsigned char> &c, int n) { x.resize(Array<int, 1>(n)); c.resize(n); for (int i = 0; i < n; ++i) x(i) = c[i] = (unsigned char)(k += 7); };
      if (o < 3) { refill(a, ca, sizes[o]); da = true; mc::op("fill a[" + std::to_string(sizes[o]) + "]"); }
      else if (o == 3) { refill(b, cb, 3); db = true; mc::op("fill b[3]"); }
      else if (o == 4) { if (!da) { refill(a, ca, 2); da = true; } s.exchangeData(step % 2, step & 1 ? 1 : -1, a, b); cb = ca; db = true; mc::op("exchange a->b"); }
      else { if (!db) { refill(b, cb, 2); db = true; } s.exchangeData(step % 2, 1, b, a); ca = cb; da = true; mc::op("exchange b->a"); }
      if (da) { MC_REQUIRE(a.getDims(0) == (int)ca.size(), "size", "buffer a has " << a.getDims(0) << " bytes expected " << ca.size()); for (size_t i = 0; i < ca.size(); ++i) MC_REQUIRE(a((int)i) == ca[i], "content", "buffer a byte " << i); }
      if (db) { MC_REQUIRE(b.getDims(0) == (int)cb.size(), "size", "buffer b has " << b.getDims(0) << " bytes expected " << cb.size()); for (size_t i = 0; i < cb.size(); ++i) MC_REQUIRE(b((int)i) == cb[i], "content", "buffer b byte " << i); }
    }
    for (int v : {-3, 0, 8}) MC_REQUIRE(s.sumReduce(v) == v && s.avgReduce(v) == v && s.minReduce(v) == v && s.maxReduce(v) == v && s.sumReduce(v + .5) == v + .5 && s.avgReduce(v + .5) == v + .5 && s.minReduce(v + .5) == v + .5 && s.maxReduce(v + .5) == v + .5, "reduce", "serial reduction");
  });
}
#endif

// ---- MPI geometry ---------------------------------------------------------------------------------
template<size_t R> struct Config { int ranks; Idx<R> lo, hi; int delta; int reorder; Config() : ranks(1), lo(0), hi(0), delta(0), reorder(0) {} std::string name() const { return std::to_string(ranks) + " processes on " + str<R>(lo) + ".." + str<R>(hi) + ", ghost width " + std::to_string(delta) + ", rank order " + std::to_string(reorder); } };
template<size_t R> bool feasible(int n, const std::vector<int> &cells, size_t d = 0) { if (d == R) return n == 1; for (int f = 1; f <= n && f <= cells[d]; ++f) if (n % f == 0 && feasible<R>(n / f, cells, d + 1)) return true; return false; }

#if ON(13)
template<size_t R> struct Rec { Idx<R> lo, hi, ilo, ihi; int id, num, count, delta; bool master; std::vector<bool> bl, bh; Range<int, R> gd; Range<double, R> ext, ext0; Range<float, R> extf; };
template<size_t R> void addDecomposition(const std::string &n) {
  mc::add("P13." + n, [] {
    typedef Grid<double, R> G; Config<R> c; bool t = mc::thorough();
    c.ranks = mc::range(1, R == 1 ? (t ? 16 : 9) : R == 2 ? (t ? 18 : 12) : (t ? 16 : 12)); c.delta = mc::range(0, R == 3 ? 2 : 3); c.reorder = mc::choose(c.ranks > 1 ? 3 : 1);
    std::vector<int> sizes = R == 1 ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 23, 40, 1000} : R == 2 ? std::vector<int>{1, 2, 3, 4, 5, 6, 9, 16, 31} : t ? std::vector<int>{1, 2, 3, 5, 12} : std::vector<int>{1, 2, 5, 12};
    std::vector<int> cells(R); for (size_t d = 0; d < R; ++d) { cells[d] = mc::pick(sizes); c.lo[d] = d == 0 ? mc::pick(std::vector<int>{0, -7, 4}) : c.lo[0] == 0 ? 0 : 3 - 5 * (int)d; c.hi[d] = c.lo[d] + cells[d] - 1; }
    if (!feasible<R>(c.ranks, cells)) throw mc::Prune{};           // more processes than the domain can be divided into
    mc::op(c.name()); mc::sample(c.name());
    std::vector<Rec<R>> rec(c.ranks); Options o; o.ranks = c.ranks; o.reorder = c.reorder; o.policy = fakempi::RoundRobin;
    bool again = c.reorder != 1 && c.ranks <= (t ? 99 : 6) && mc::flip();
    int how = 0; bool zero = true; for (size_t d = 0; d < R; ++d) zero &= c.lo[d] == 0; how = zero ? mc::choose(2) : 0;
    Array<double, R> ea, eb, ez, wid; Array<float, R> fa, fb; for (size_t d = 0; d < R; ++d) { ea[d] = -1.0 + d; wid[d] = 2.0 + 1.5 * d; eb[d] = ea[d] + wid[d] * cells[d]; ez[d] = wid[d] * cells[d]; fa[d] = ea[d]; fb[d] = eb[d]; }
    fakempi::run(o, [&](int r) {
      MPICartSubdivision<G> s; Idx<R> size; for (size_t d = 0; d < R; ++d) size[d] = cells[d];
      if (again) { Idx<R> l(c.lo), h(c.hi); for (size_t d = 0; d < R; ++d) { l[d] -= 2; h[d] += (int)(3 * d) + 1; } s.init(l, h, c.delta + 1); }   // an earlier initialisation leaves nothing behind
      if (how == 0) { if (r % 2 || c.reorder) s.init(c.lo, c.hi, c.delta); else if (r % 4) s.init(Range<int, R>(c.lo, c.hi), c.delta); else s.init(G(c.lo, c.hi), c.delta); } else s.init(size, c.delta);
      Rec<R> &x = rec[r]; x.lo = s.getLo(); x.hi = s.getHi(); x.ilo = s.getInnerLo(); x.ihi = s.getInnerHi(); x.id = s.getUniqueId(); x.num = s.procnum(); x.count = s.procCount(); x.master = s.master(); x.gd = s.getGlobalDomain(); x.delta = s.getDelta();
      for (size_t d = 0; d < R; ++d) { x.bl.push_back(s.isBoundLo(d)); x.bh.push_back(s.isBoundHi(d)); }
      x.ext = s.getInnerExtent(Range<double, R>(ea, eb)); x.ext0 = s.getInnerExtent(ez); x.extf = s.getInnerExtent(Range<float, R>(fa, fb));
    });
    MC_REQUIRE(fakempi::unreleased.empty(), "leak", "after the subdivision is gone" << (again ? " (initialised twice):" : ":") << fakempi::unreleased);
    long total = 0, want = 1; for (size_t d = 0; d < R; ++d) want *= cells[d];
    std::set<int> ids, nums; int masters = 0; bool fit = feasible<R>(c.ranks, cells);
    for (int r = 0; r < c.ranks; ++r) {
      Rec<R> &x = rec[r]; long v = 1;
      for (size_t d = 0; d < R; ++d) {
        int w = x.ihi[d] - x.ilo[d] + 1; v *= std::max(0, w);
        MC_REQUIRE(w >= 0, "negative", "process " << r << " has inner range " << x.ilo[d] << ".." << x.ihi[d] << " in dimension " << d);
        MC_REQUIRE(x.lo[d] == x.ilo[d] - c.delta && x.hi[d] == x.ihi[d] + c.delta && x.delta == c.delta, "ghosts", "process " << r << ": local domain is not the inner domain plus ghost cells");
        MC_REQUIRE(x.gd.getLo(d) == c.lo[d] && x.gd.getHi(d) == c.hi[d], "global", "global domain reported as " << x.gd.getLo(d) << ".." << x.gd.getHi(d));
        MC_REQUIRE(x.ilo[d] >= c.lo[d] && x.ihi[d] <= c.hi[d], "outside", "process " << r << " owns cells " << x.ilo[d] << ".." << x.ihi[d] << " outside the global domain");
        if (w > 0) { MC_REQUIRE(x.bl[d] == (x.ilo[d] == c.lo[d]), "bound", "process " << r << " lower bound flag in dimension " << d); MC_REQUIRE(x.bh[d] == (x.ihi[d] == c.hi[d]), "bound", "process " << r << " upper bound flag in dimension " << d); }
        double e0 = wid[d] * (x.ilo[d] - c.lo[d]), e1 = wid[d] * (x.ihi[d] - c.lo[d] + 1);
        MC_REQUIRE(std::abs(x.ext.getLo()[d] - (ea[d] + e0)) < 1e-9 && std::abs(x.ext.getHi()[d] - (ea[d] + e1)) < 1e-9, "extent", "process " << r << " physical extent " << x.ext.getLo()[d] << ".." << x.ext.getHi()[d] << " of cells " << x.ilo[d] << ".." << x.ihi[d]);
        MC_REQUIRE(std::abs(x.ext0.getLo()[d] - e0) < 1e-9 && std::abs(x.ext0.getHi()[d] - e1) < 1e-9, "extent", "process " << r << " physical extent " << x.ext0.getLo()[d] << ".." << x.ext0.getHi()[d] << " of cells " << x.ilo[d] << ".." << x.ihi[d] << " of a domain from 0");
        MC_REQUIRE(std::abs(x.extf.getLo()[d] - (ea[d] + e0)) < 1e-2 && std::abs(x.extf.getHi()[d] - (ea[d] + e1)) < 1e-2, "extent", "process " << r << " physical extent (float) " << x.extf.getLo()[d] << ".." << x.extf.getHi()[d] << " of cells " << x.ilo[d] << ".." << x.ihi[d]);
        for (int q = 0; q < r; ++q) { int wq = rec[q].ihi[d] - rec[q].ilo[d] + 1; MC_REQUIRE(std::abs(w - wq) <= 1, "uneven", "local widths " << w << " and " << wq << " in dimension " << d); }
      }
      if (fit) MC_REQUIRE(v > 0, "empty", "process " << r << " has no cells although " << c.ranks << " processes fit");
      total += v; ids.insert(x.id); nums.insert(x.num); masters += x.master; MC_REQUIRE(x.count == c.ranks && x.num >= 0 && x.num < c.ranks && x.id >= 0 && x.id < c.ranks, "identity", "process " << r << " number " << x.num << " id " << x.id << " of " << x.count);
      MC_REQUIRE(x.master == (x.num == 0), "master", "master flag");
      for (int q = 0; q < r; ++q) { bool dis = v == 0; long vq = 1; for (size_t d = 0; d < R; ++d) { dis |= x.ihi[d] < rec[q].ilo[d] || rec[q].ihi[d] < x.ilo[d]; vq *= std::max(0, rec[q].ihi[d] - rec[q].ilo[d] + 1); } MC_REQUIRE(dis || vq == 0, "overlap", "processes " << q << " and " << r << " own the same cells"); }
    }
    MC_REQUIRE(total == want, "cover", "the processes own " << total << " of " << want << " cells");
    MC_REQUIRE((int)ids.size() == c.ranks && (int)nums.size() == c.ranks && masters == 1, "identity", "ids/numbers/masters not unique");
    // the identifier reflects the location: ascending with the position of the block in row-major order
    if (fit) for (int r = 0; r < c.ranks; ++r) for (int q = 0; q < r; ++q) { int cmp = 0; for (size_t d = 0; d < R && !cmp; ++d) cmp = rec[q].ilo[d] < rec[r].ilo[d] ? -1 : rec[q].ilo[d] > rec[r].ilo[d] ? 1 : 0; MC_REQUIRE((rec[q].id < rec[r].id) == (cmp < 0), "location", "identifier does not reflect the location"); }
    mc::state(mc::hashStr(c.name()));
  });
}
// the diagnostic manager learns from the subdivision which process this is
struct Probe : public IntervalDiagnostic { static std::vector<std::string> log; std::string f; void open(const std::string &x) { log.push_back(x); } }; std::vector<std::string> Probe::log;
struct ProbeMaster : public Probe { bool singleOut() { return true; } };
struct ProbeSim : public Block {};
static void addDiagnosticLink() {
  mc::add("P13.diagnostics", [] {
    Options o; o.ranks = mc::range(1, mc::thorough() ? 14 : 12); o.reorder = mc::choose(o.ranks > 1 ? 3 : 1); o.policy = fakempi::RoundRobin; mc::op(std::to_string(o.ranks) + " processes, rank order " + std::to_string(o.reorder)); mc::step();
    BlockClasses bl; bl.registerBlock("sim").setClass<ProbeSim>(); bl.registerBlock("A").setClass<Probe>(); bl.registerBlock("M").setClass<ProbeMaster>(); bl("sim").addChildren("A")("M");
    Parser P("t", "sim", bl); std::istringstream in("A a { file = \"a#p\"; interval = 1; append = 0; }\nM m { file = \"m#p\"; interval = 1; append = 0; }\n"); registerCMath(P.getFunctionRegistry()); pBlock app = P.parse(in); app->initAll();
    static int step; step = 0; DiagnosticManager::instance().setTimeCounter(&step); std::vector<std::vector<std::string>> got(o.ranks), want(o.ranks);
    fakempi::run(o, [&](int r) {
      MPICartSubdivision<Grid<double, 1>> s; s.init(Array<int, 1>(0), Array<int, 1>(40), 1);
      Probe::log.clear(); DiagnosticManager::instance().execute(); got[r] = Probe::log; want[r].push_back("a" + std::to_string(s.procnum())); if (s.master()) want[r].push_back("m" + std::to_string(s.procnum()));   // no MPI call since init: still this process
    });
    DiagnosticManager::instance().setTimeCounter(nullptr); DiagnosticManager::instance().setMaster(true); DiagnosticManager::instance().setRank(0);
    for (int r = 0; r < o.ranks; ++r) MC_REQUIRE(got[r] == want[r], "diagnostics", "the diagnostics of process " << r << " wrote " << (got[r].empty() ? "nothing" : got[r][0]) << " (" << got[r].size() << " files), expected " << want[r][0] << " (" << want[r].size() << ")");
    mc::state(mc::mix(o.ranks, o.reorder));
  });
}
#endif

// ---- distributed grids ------------------------------------------------------------------------------
enum Op { EX, ACC, EXALL, ACCALL };
template<class G, size_t R> void distributed(const Config<R> &c, const Options &o, const std::vector<std::pair<int, int>> &prog, const char *key) {
  typedef typename G::value_type T; Model<T, R> m; m.glo = c.lo; m.ghi = c.hi; m.b.resize(c.ranks); int at = 0; std::vector<int> started(prog.size(), 0); std::vector<Model<T, R>> stage;
  fakempi::run(o, [&](int r) {
    MPICartSubdivision<G> s; s.init(c.lo, c.hi, c.delta);
    LBlock<T, R> &b = m.b[r]; b.ilo = s.getInnerLo(); b.ihi = s.getInnerHi(); b.delta = c.delta;
    auto g = localGrid<G, MPICartSubdivision<G>, R>(s, c.delta); fillLocal(*g, b, r, 1);
    MPI_Barrier(MPI_COMM_WORLD);                  // every process has registered its block with the reference
    if (stage.empty()) { stage.push_back(m); for (auto &p : prog) { Model<T, R> n = stage.back(); switch (p.first) { case EX: n.exchange(p.second); break; case ACC: n.accumulate(p.second); break; case EXALL: for (size_t d = 0; d < R; ++d) n.exchange(d); break; case ACCALL: for (size_t d = 0; d < R; ++d) n.accumulate(d); } stage.push_back(n); } }
    DomainSubdivision<G> &ds = s;
    for (size_t k = 0; k < prog.size(); ++k) {
      switch (prog[k].first) { case EX: ds.exchange(*g, prog[k].second); break; case ACC: ds.accumulate(*g, prog[k].second); break; case EXALL: ds.exchange(*g); break; case ACCALL: ds.accumulate(*g); }
      compareLocal(*g, stage[k + 1].b[r], r, key);
    }
  });
}
template<size_t R> Config<R> chooseConfig(int maxRanks, std::vector<int> sizes, bool small) {
  Config<R> c; c.ranks = mc::range(1, maxRanks); c.delta = mc::range(small ? 1 : 0, small ? 1 : 2); c.reorder = c.ranks > 2 ? mc::choose(3) : c.ranks == 2 ? mc::choose(2) : 0;
  for (size_t d = 0; d < R; ++d) { c.lo[d] = d == 0 ? mc::pick(std::vector<int>{0, -7}) : c.lo[0] == 0 ? 0 : 3 - 5 * (int)d; c.hi[d] = c.lo[d] + mc::pick(sizes) - 1; }
  return c;
}
// width of the narrowest local block (from the real decomposition)
template<class G, size_t R> int narrowest(const Config<R> &c) { int w = 1 << 30; Options o; o.ranks = c.ranks; o.reorder = c.reorder; fakempi::run(o, [&](int) { MPICartSubdivision<G> s; s.init(c.lo, c.hi, c.delta); for (size_t d = 0; d < R; ++d) w = std::min(w, s.getInnerHi()[d] - s.getInnerLo()[d] + 1); }); return w; }
template<class G, size_t R> void addSweep(const std::string &n, int maxRanks, std::vector<int> sizes, bool acc) {
  mc::add(std::string(acc ? "P15." : "P14.") + "sweep." + n, [=] {
    auto c = chooseConfig<R>(maxRanks, sizes, false); int need = acc ? 2 * c.delta : c.delta; if (need < 1) need = 1; { std::vector<int> cells(R); for (size_t d = 0; d < R; ++d) cells[d] = c.hi[d] - c.lo[d] + 1; if (!feasible<R>(c.ranks, cells)) throw mc::Prune{}; }
    if (narrowest<G, R>(c) < need) throw mc::Prune{};
    Options o; o.ranks = c.ranks; o.reorder = c.reorder; o.rendezvous = mc::flip(); o.policy = o.rendezvous ? fakempi::RunToBlockReverse : fakempi::RoundRobin;
    std::vector<std::pair<int, int>> prog; int k = mc::choose(R > 1 ? R + 1 : 1); if (k == (int)R || R == 1) prog.push_back({acc ? ACCALL : EXALL, 0}); else { prog.push_back({acc ? ACC : EX, k}); prog.push_back({acc ? ACC : EX, (k + 1) % (int)R}); }
    if (R == 1) prog.push_back({acc ? ACC : EX, 0});
    mc::op(c.name()); mc::sample(c.name()); distributed<G, R>(c, o, prog, acc ? "accumulate" : "exchange"); mc::state(mc::hashStr(c.name()) + k);
  });
}
// local grids with more cells than an int can count: only the layers exchanged along the first direction are touched
#if ON(14)
#include <sys/mman.h>
template<size_t R> void addLarge(std::vector<Idx<R>> shapes) {
  mc::add("P14.large." + std::to_string(R), [=] {
    typedef Grid<unsigned char, R> G; Idx<R> size = mc::pick(shapes); int ranks = mc::range(1, 2), delta = mc::range(1, 2); Idx<R> lo(-3), hi; double cells = 1; for (size_t d = 0; d < R; ++d) { hi[d] = lo[d] + size[d] * (d ? 1 : ranks) - 1; cells *= size[d] + 2 * delta; }
    { size_t b = (size_t)(cells * ranks * 1.3); void *m = mmap(nullptr, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) throw mc::Prune(); munmap(m, b); }
    mc::op("box " + str<R>(lo) + ".." + str<R>(hi) + " on " + std::to_string(ranks) + " processes, " + std::to_string(delta) + " ghost cells"); Options o; o.ranks = ranks; o.rendezvous = mc::flip(); o.policy = fakempi::RoundRobin;
    fakempi::run(o, [&](int r) {
      MPICartSubdivision<G> s; s.init(lo, hi, delta); auto outer = s.getDomain(); Idx<R> ol, oh, il, ih; for (size_t d = 0; d < R; ++d) { ol[d] = outer.getLo()[d]; oh[d] = outer.getHi()[d]; il[d] = s.getInnerLo()[d]; ih[d] = s.getInnerHi()[d]; MC_REQUIRE(ol[d] == il[d] - delta && oh[d] == ih[d] + delta, "large", "local domain of process " << r); }
      G g(ol, oh); auto value = [&](Idx<R> p) { long n = hi[0] - lo[0] + 1, i = ((p[0] - lo[0]) % n + n) % n, h = i * 31; for (size_t d = 1; d < R; ++d) h = h * 7 + (p[d] - lo[d] + 10); return (unsigned char)(h % 251 + 1); };
      auto layer = [&](int i, std::function<void(const Idx<R>&)> f) { Idx<R> a(ol), b(oh); a[0] = b[0] = i; forBox<R>(a, b, f); };
      for (int k = 0; k < delta; ++k) { for (int i : {il[0] + k, ih[0] - k}) layer(i, [&](const Idx<R> &p) { g[p] = value(p); }); for (int i : {ol[0] + k, oh[0] - k}) layer(i, [&](const Idx<R> &p) { g[p] = 0; }); }
      s.exchange(g, 0);
      for (int k = 0; k < delta; ++k) for (int i : {il[0] + k, ih[0] - k, ol[0] + k, oh[0] - k}) layer(i, [&](const Idx<R> &p) { if (g[p] != value(p)) mc::fail("large", "cell " + str<R>(p) + " of process " + std::to_string(r) + " is " + std::to_string(g[p]) + ", expected " + std::to_string(value(p))); });
      mc::checked(); });
  });
}
#endif
template<class G, size_t R> void addSchedules(const std::string &pfx, const std::string &n, int ranks, Idx<R> size, int delta, std::vector<std::pair<int, int>> prog) {
  for (int rv = 0; rv < 2; ++rv) mc::add(pfx + "schedules." + n + (rv ? ".synchronous" : ".buffered"), [=] {
    Config<R> c; c.ranks = ranks; c.delta = delta; c.lo = Idx<R>(-2); for (size_t d = 0; d < R; ++d) c.hi[d] = c.lo[d] + size[d] - 1;
    Options o; o.ranks = ranks; o.rendezvous = rv; o.policy = fakempi::AllInterleavings; mc::op(c.name() + (rv ? " synchronous sends" : " buffered sends"));
    distributed<G, R>(c, o, prog, "schedule");
  });
}
template<class T> void addType(const std::string &pfx, const std::string &n, bool acc) {
  mc::add(pfx + "type." + n, [=] { Config<2> c; c.ranks = mc::range(1, 4); c.delta = 1; c.lo = Idx<2>(-1, 2); c.hi = Idx<2>(4, 9); Options o; o.ranks = c.ranks; o.rendezvous = mc::flip(); mc::op("element type, " + c.name()); distributed<Grid<T, 2>, 2>(c, o, {{acc ? ACCALL : EXALL, 0}}, "type"); });
}

// ---- P16 -----------------------------------------------------------------------------------------
#if ON(16)
struct Particle { double x; int id; char tag; };
struct Odd { char c[3]; bool operator==(const Odd &o) const { return !memcmp(c, o.c, 3); } };
template<class T> static T pvalue(int i) { T t; memset(&t, 0, sizeof t); for (size_t k = 0; k < sizeof t; ++k) ((unsigned char *)&t)[k] = (unsigned char)(i * 31 + k * 7 + 1); return t; }
template<class T> static bool eq(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
// packing and walking through a buffer: every length, container of pointers, way of stepping, twice with the same buffer
template<class T> void addPack(const std::string &n) {
  mc::add("P16.pack-" + n, [] {
    DataBuffer<T> b; int max = mc::thorough() ? 8 : 6, rounds = 2;
    for (int round = 0; round < rounds; ++round) {
      int len = mc::choose(max), cont = mc::choose(3), walk = mc::choose(4); std::vector<T> data; for (int i = 0; i < len; ++i) data.push_back(pvalue<T>(i + 40 * round)); std::vector<T> keep(data); mc::op("pack " + std::to_string(len) + " container " + std::to_string(cont) + " walk " + std::to_string(walk)); mc::step();
      std::vector<T *> v; for (auto &x : data) v.push_back(&x); std::list<T *> l(v.begin(), v.end()); std::deque<typename std::vector<T>::iterator> d; for (auto i = data.begin(); i != data.end(); ++i) d.push_back(i);
      if (cont == 0) b.makeBuffer(v); else if (cont == 1) b.makeBuffer(l); else b.makeBuffer(d);
      for (int i = 0; i < len; ++i) { MC_REQUIRE(eq(data[i], keep[i]), "source", "packing changed the source"); data[i] = pvalue<T>(99); }
      MC_REQUIRE(b.getBuffer().getDims(0) == (int)(len * sizeof(T)), "size", "buffer of " << len << " elements of " << sizeof(T) << " bytes has " << b.getBuffer().getDims(0));
      std::vector<T> got; typedef typename DataBuffer<T>::iterator It;
      if (walk == 0) for (It it = b.begin(); it != b.end(); ++it) got.push_back(*it);
      else if (walk == 1) { It it = b.begin(); while (!(it == b.end())) { got.push_back(*it++); if ((int)got.size() > len) break; } }
      else if (walk == 2) { It it; it = b.begin(); for (int i = 0; i < len; ++i) { It old(it); It r = it++; MC_REQUIRE(r == old && !(r != old) && r != it, "post-increment", "it++ does not return the old position"); It q(r); It &pre = ++q; MC_REQUIRE(&pre == &q && q == it, "pre-increment", "++it"); got.push_back(*r.operator->()); } MC_REQUIRE(it == b.end(), "end", "walking " << len << " elements does not reach the end"); }
      else { int i = 0; for (It it = b.begin(); it != b.end(); it++, ++i) { T t = *it; *it = pvalue<T>(70 + i); got.push_back(t); } i = 0; for (It it = b.begin(); it != b.end(); ++it, ++i) MC_REQUIRE(eq(*it, pvalue<T>(70 + i)), "write", "element " << i << " written through an iterator"); }
      MC_REQUIRE((int)got.size() == len, "count", got.size() << " elements in the buffer, packed " << len); for (int i = 0; i < len; ++i) MC_REQUIRE(eq(got[i], keep[i]), "element", "element " << i << " of " << len << " differs");
    }
    mc::state(mc::pathHash());
  });
}
template<size_t R> void addData(const std::string &n, int ranks, Idx<R> size) {
  for (int d1 = 0; d1 < (int)R; ++d1) for (int or1 = -1; or1 <= 1; or1 += 2) mc::add("P16." + n + "/" + std::to_string(d1) + (or1 > 0 ? "+" : "-"), [=] {
    typedef Grid<double, R> G; typedef typename MPICartSubdivision<G>::BufferType B; Options o; o.ranks = ranks; o.rendezvous = mc::flip(); o.reorder = mc::choose(3);
    o.policy = mc::flip() ? fakempi::RunToBlockReverse : fakempi::RoundRobin; std::vector<int> len(ranks); for (auto &l : len) l = mc::pick(std::vector<int>{0, 1, 6}); if (ranks > 4) throw mc::Prune{};
    int d2 = mc::choose(R), or2 = mc::flip() ? 1 : -1; bool reuse = mc::flip();
    { std::ostringstream s; s << "lengths"; for (int l : len) s << " " << l; s << "; dim " << d1 << " " << or1 << " then dim " << d2 << " " << or2 << (reuse ? " reusing the receive buffer" : ""); mc::op(s.str()); mc::sample(s.str()); mc::state(mc::hashStr(s.str())); }
    std::vector<Idx<R>> ilo(ranks), ihi(ranks); std::vector<std::vector<unsigned char>> sent1(ranks), sent2(ranks); Idx<R> lo(-1), hi; for (size_t d = 0; d < R; ++d) hi[d] = lo[d] + size[d] - 1;
    auto neighbour = [&](int r, int d, int orient) { // the process whose block adjoins on the sending side
      int g = orient > 0 ? ilo[r][d] - 1 : ihi[r][d] + 1; if (g < lo[d]) g = hi[d]; if (g > hi[d]) g = lo[d];
      for (int q = 0; q < ranks; ++q) { bool same = ilo[q][d] <= g && g <= ihi[q][d]; for (size_t e = 0; e < R; ++e) if ((int)e != d) same &= ilo[q][e] == ilo[r][e]; if (same) return q; } return -1; };
    fakempi::run(o, [&](int r) {
      MPICartSubdivision<G> s; s.init(lo, hi, 1); ilo[r] = s.getInnerLo(); ihi[r] = s.getInnerHi(); MPI_Barrier(MPI_COMM_WORLD);
      DataBuffer<Particle> in; std::list<Particle> store; std::vector<Particle *> ptrs; for (int i = 0; i < len[r]; ++i) { Particle p; memset(&p, 0, sizeof p); p.x = r * 100 + i; p.id = i * 7 + r; p.tag = 'a' + i; store.push_back(p); } for (auto &p : store) ptrs.push_back(&p);
      in.makeBuffer(ptrs); { long k = 0; auto si = store.begin(); for (auto it = in.begin(); it != in.end(); ++it, ++si) { MC_REQUIRE(k < len[r] && it->x == si->x && (*it).id == si->id && it->tag == si->tag, "pack", "packed element " << k); ++k; } MC_REQUIRE(k == len[r], "pack", "buffer holds " << k << " elements"); }
      auto bytes = [](B &b) { std::vector<unsigned char> v; for (int i = 0; i < b.getDims(0); ++i) v.push_back(b(b.getLo(0) + i)); return v; };
      sent1[r] = bytes(in.getBuffer()); DataBuffer<Particle> out; B &ob = out.getBuffer(); MPI_Barrier(MPI_COMM_WORLD);
      s.exchangeData(d1, or1, in.getBuffer(), ob);
      int q = neighbour(r, d1, or1); MC_REQUIRE(q >= 0, "neighbour", "no neighbour"); MC_REQUIRE(bytes(ob) == sent1[q], "data", "process " << r << " received " << ob.getDims(0) << " bytes that are not what its neighbour " << q << " sent"); MC_REQUIRE(bytes(in.getBuffer()) == sent1[r], "input", "send buffer changed");
      { long k = 0; for (auto it = out.begin(); it != out.end(); ++it) { MC_REQUIRE(k < len[q] && it->x == q * 100 + k && it->id == k * 7 + q && it->tag == 'a' + k, "unpack", "element " << k); ++k; } MC_REQUIRE(k == len[q], "unpack", "received " << k << " elements"); }
      // second exchange with a re-made, longer or shorter send buffer
      std::list<Particle>::iterator drop = store.begin(); std::vector<std::list<Particle>::iterator> its; for (auto it = store.begin(); it != store.end(); ++it) { it->x += 0.5; its.push_back(it); } (void)drop; if (len[r] == 6) its.resize(2);
      in.makeBuffer(its); sent2[r] = bytes(in.getBuffer()); MC_REQUIRE(bytes(ob) == sent1[q], "independent", "refilling the send buffer changed received data");
      MPI_Barrier(MPI_COMM_WORLD); B other; B &ob2 = reuse ? ob : other; s.exchangeData(d2, or2, in.getBuffer(), ob2);
      int q2 = neighbour(r, d2, or2); MC_REQUIRE(bytes(ob2) == sent2[q2], "data", "second exchange: process " << r << " received the wrong bytes"); if (!reuse) MC_REQUIRE(bytes(ob) == sent1[q], "independent", "second exchange changed the first result");
    });
  });
}
#endif

// ---- P17 -----------------------------------------------------------------------------------------
#if ON(17)
void addReductions() {
  for (int n = 1; n <= 5; ++n) mc::add("P17.reduce" + std::to_string(n), [n] {
    std::vector<int> dom = n <= 3 ? std::vector<int>{-7, -2, 0, 3, 10} : n == 4 ? std::vector<int>{-7, -2, 3, 10} : std::vector<int>{-7, 0, 10}; std::vector<int> v(n); for (auto &x : v) x = mc::pick(dom); int order = mc::choose(n > 1 ? 3 : 1);
    { std::ostringstream s; for (int x : v) s << x << " "; mc::op("reduce " + s.str()); mc::sample(s.str()); mc::state(mc::hashStr(s.str()) + order); }
    long sum = 0; int mn = v[0], mx = v[0]; for (int x : v) { sum += x; mn = std::min(mn, x); mx = std::max(mx, x); }
    Options o; o.ranks = n; o.reorder = order; o.policy = fakempi::RoundRobin;
    fakempi::run(o, [&](int r) {
      MPICartSubdivision<Grid<double, 1>> s; s.init(Idx<1>(0), Idx<1>(20), 1); int x = v[r]; double y = x + 0.25;
      MC_REQUIRE(s.sumReduce(x) == sum, "sum", "integer sum"); MC_REQUIRE(s.sumReduce(y) == sum + 0.25 * n, "sum", "sum"); MC_REQUIRE(s.maxReduce(x) == mx && s.maxReduce(y) == mx + 0.25, "max", "maximum"); MC_REQUIRE(s.minReduce(x) == mn && s.minReduce(y) == mn + 0.25, "min", "minimum");
      MC_REQUIRE(std::abs(s.avgReduce(y) - (double(sum) / n + 0.25)) < 1e-12, "avg", "average " << s.avgReduce(y)); MC_REQUIRE(s.avgReduce(x) == int(double(sum) / n), "avg", "integer average " << s.avgReduce(x) << " of sum " << sum);
    });
  });
  for (int n = 2; n <= 4; ++n) mc::add("P17.schedules" + std::to_string(n), [n] {
    Options o; o.ranks = n; o.policy = fakempi::AllInterleavings; long sum = 0; for (int r = 0; r < n; ++r) sum += 3 * r - 2;
    fakempi::run(o, [&](int r) { MPICartSubdivision<Grid<double, 1>> s; s.init(Idx<1>(0), Idx<1>(20), 1); int x = 3 * r - 2; MC_REQUIRE(s.sumReduce(x) == sum, "sum", "integer sum"); MC_REQUIRE(s.maxReduce(double(x)) == 3 * n - 5, "max", "maximum"); MC_REQUIRE(s.minReduce(x) == -2, "min", "minimum"); MC_REQUIRE(std::abs(s.avgReduce(double(x)) - double(sum) / n) < 1e-12, "avg", "average"); });
  });
}
#endif

// ---- P18 -----------------------------------------------------------------------------------------
#if ON(18)
static void best(int n, size_t d, const std::vector<int> &w, double acc, double &b) { if (d + 1 == w.size()) { b = std::min(b, acc + double(n) / w[d]); return; } for (int f = 1; f <= n; ++f) if (n % f == 0) best(n / f, d + 1, w, acc + double(f) / w[d], b); }
void addFactors() {
  for (int nf = 1; nf <= 4; ++nf) mc::add("P18.dims" + std::to_string(nf), [nf] {
    int n = mc::range(1, nf == 1 ? 300 : nf == 2 ? 200 : nf == 3 ? 96 : 48); std::vector<int> dom = nf <= 2 ? std::vector<int>{1, 2, 3, 5, 8, 16, 33, 100, 1000} : nf == 3 ? std::vector<int>{1, 3, 8, 16, 100, 1000} : std::vector<int>{1, 8, 100}; std::vector<int> w(nf); for (auto &x : w) x = mc::pick(dom); std::vector<int> keep(w), f;
    { std::ostringstream s; s << n << " over"; for (int x : w) s << " " << x; mc::op(s.str()); mc::state(mc::hashStr(s.str())); mc::sample(s.str()); }
    int pre = mc::choose(2); if (pre) f.assign(7, 5);
    equalFactors(n, nf, f, w);
    MC_REQUIRE((int)f.size() == nf, "size", "number of factors"); long p = 1; double sum = 0; for (int i = 0; i < nf; ++i) { MC_REQUIRE(f[i] >= 1, "positive", "factor " << f[i]); p *= f[i]; sum += double(f[i]) / w[i]; }
    MC_REQUIRE(p == n, "product", "product " << p << " of " << n); MC_REQUIRE(w == keep, "weights", "weights changed");
    double b = 1e300; best(n, 0, w, 0, b); MC_REQUIRE(sum <= b * (1 + 1e-12), "optimal", "cut surface measure " << sum << " but " << b << " is possible");
  });
}
#endif

// ---- P19 -----------------------------------------------------------------------------------------
#if ON(19)
template<size_t R> void addPrograms(const std::string &n, int ranks, Idx<R> size, int depth) {
  for (int rv = 0; rv < 2; ++rv) mc::add("P19." + n + (rv ? ".synchronous" : ".buffered"), [=] {
    typedef Grid<double, R> G; typedef typename MPICartSubdivision<G>::BufferType B; std::vector<int> prog; int nops = 2 * R + 3; for (int i = 0; i < depth; ++i) prog.push_back(mc::choose(nops));
    { std::ostringstream s; for (int p : prog) s << (p < (int)R ? "exchange " : p < 2 * (int)R ? "accumulate " : p == 2 * (int)R ? "send-up " : p == 2 * (int)R + 1 ? "send-down " : "reduce ") << (p < 2 * (int)R ? std::to_string(p % R) + "; " : "; "); mc::op(s.str()); mc::sample(s.str()); }
    Options o; o.ranks = ranks; o.rendezvous = rv; o.policy = fakempi::AllInterleavings; Idx<R> lo(1), hi; for (size_t d = 0; d < R; ++d) hi[d] = lo[d] + size[d] - 1;
    Model<double, R> m; m.glo = lo; m.ghi = hi; m.b.resize(ranks); Model<double, R> fin; bool have = false;
    uint64_t ph = 5; for (int p : prog) ph = mc::mix(ph, p);
    fakempi::run(o, [&](int r) {
      fakempi::note(ph); MPICartSubdivision<G> s; s.init(lo, hi, 1); LBlock<double, R> &b = m.b[r]; b.ilo = s.getInnerLo(); b.ihi = s.getInnerHi(); b.delta = 1; G g(s.getLo(), s.getHi()); fillLocal(g, b, r, 3);
      MPI_Barrier(MPI_COMM_WORLD);
      if (!have) { have = true; fin = m; for (int p : prog) if (p < (int)R) fin.exchange(p); else if (p < 2 * (int)R) fin.accumulate(p - R); }
      for (size_t k = 0; k < prog.size(); ++k) { int p = prog[k];
        if (p < (int)R) s.exchange(g, p); else if (p < 2 * (int)R) s.accumulate(g, p - R);
        else if (p < 2 * (int)R + 2) { B in, out; in.resize(Array<int, 1>(r + 1)); for (int i = 0; i <= r; ++i) in(i) = (unsigned char)(r * 16 + k); s.exchangeData(k % R, p == 2 * (int)R ? 1 : -1, in, out); MC_REQUIRE(out.getDims(0) >= 1 && out(0) == (unsigned char)((out.getDims(0) - 1) * 16 + k), "data", "process " << r << " received " << int(out(0)) << " in step " << k); }
        else { int v = s.sumReduce(r + 1 + (int)k); MC_REQUIRE(v == ranks * (ranks + 1) / 2 + ranks * (int)k, "reduce", "reduction result " << v << " in step " << k); } }
      compareLocal(g, fin.b[r], r, "result");
    });
  });
}
#endif

void mc_register() {
  bool t = mc::thorough(); (void)t;
#if ON(12)
  addSerialData(); addSerial<Grid<double, 1>, 1>("c1"); addSerial<Grid<long, 2>, 2>("c2"); addSerial<Field<double, 2>, 2>("field2"); addSerial<Grid<int, 2, GridNoArgCheck, SingleArrayGridStorageFortran>, 2>("f2"); addSerial<Grid<double, 3>, 3>("c3");
#endif
#if ON(13)
  addDecomposition<1>("1d"); addDecomposition<2>("2d"); addDecomposition<3>("3d"); addDiagnosticLink();
#endif
#if ON(14) || ON(15)
#if ON(14)
  addLarge<2>({Idx<2>(46341, 46342), Idx<2>(65537, 65536)}); addLarge<3>({Idx<3>(1300, 1300, 1300)});
#endif
  for (int acc = 0; acc < 2; ++acc) if (ON(14) && !acc || ON(15) && acc) { std::string p = acc ? "P15." : "P14."; int one = acc ? ACC : EX, all = acc ? ACCALL : EXALL;
    addSweep<Grid<double, 1>, 1>("1d", t ? 8 : 6, {1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 14, 17, 24}, acc); addSweep<Grid<double, 2>, 2>("2d", t ? 12 : 6, {2, 3, 4, 5, 8, 11}, acc); addSweep<Field<double, 2>, 2>("field2d", t ? 9 : 6, {4, 8, 9}, acc); addSweep<Grid<int, 2, GridNoArgCheck, SingleArrayGridStorageFortran>, 2>("fortran2d", 4, {4, 6}, acc); addSweep<Grid<float, 3>, 3>("3d", t ? 12 : 8, t ? std::vector<int>{2, 4, 5} : std::vector<int>{4, 5}, acc);
    addSchedules<Grid<double, 1>, 1>(p, "1d-1", 1, Idx<1>(5), 1, {{one, 0}, {one, 0}}); addSchedules<Grid<double, 1>, 1>(p, "1d-2", 2, Idx<1>(9), 2, {{one, 0}, {one, 0}}); addSchedules<Grid<double, 1>, 1>(p, "1d-3", 3, Idx<1>(9), 1, {{one, 0}, {one, 0}}); addSchedules<Grid<double, 1>, 1>(p, "1d-4", 4, Idx<1>(12), 1, {{one, 0}}); addSchedules<Grid<double, 2>, 2>(p, "2d-2", 2, Idx<2>(4, 7), 1, {{all, 0}}); addSchedules<Grid<double, 2>, 2>(p, "2d-4", 4, Idx<2>(4, 5), 1, {{all, 0}}); if (t) { addSchedules<Grid<double, 1>, 1>(p, "1d-5", 5, Idx<1>(15), 1, {{one, 0}}); addSchedules<Grid<double, 2>, 2>(p, "2d-6", 6, Idx<2>(4, 6), 1, {{one, 0}}); }
    addType<signed char>(p, "signed char", acc); addType<short>(p, "short", acc); addType<int>(p, "int", acc); addType<long>(p, "long", acc); addType<unsigned char>(p, "unsigned char", acc); addType<unsigned short>(p, "unsigned short", acc); addType<unsigned>(p, "unsigned", acc); addType<unsigned long>(p, "unsigned long", acc); addType<float>(p, "float", acc); addType<double>(p, "double", acc); addType<long double>(p, "long double", acc); }
#endif
#if ON(16)
  addPack<char>("char"); addPack<int>("int"); addPack<double>("double"); addPack<Odd>("odd"); addPack<Particle>("particle");
  addData<1>("1d-1", 1, Idx<1>(4)); addData<1>("1d-2", 2, Idx<1>(5)); addData<1>("1d-3", 3, Idx<1>(7)); addData<2>("2d-2", 2, Idx<2>(4, 7)); addData<2>("2d-4", 4, Idx<2>(4, 5));
#endif
#if ON(17)
  addReductions();
#endif
#if ON(18)
  addFactors();
#endif
#if ON(19)
  addPrograms<1>("1d-1", 1, Idx<1>(4), t ? 3 : 2); addPrograms<1>("1d-2", 2, Idx<1>(6), t ? 3 : 2); addPrograms<1>("1d-3", 3, Idx<1>(7), 2); addPrograms<2>("2d-2", 2, Idx<2>(4, 6), 2); addPrograms<2>("2d-4", 4, Idx<2>(4, 4), 1);
#endif
}
