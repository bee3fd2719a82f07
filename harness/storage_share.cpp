// Histories of grid handles: construct / copy / assign / resize / write / destroy, against a model in which
// a handle is a reference to a shared buffer.
#include "storage_common.hpp"
#include "grid/gridstorage/kokkos-storage.hpp"
long Tracked::live = 0;

template<class G> struct Traits { static const bool exactLive = false, tracked = false; };
template<size_t R> struct Traits<Grid<Tracked, R, GridNoArgCheck, SingleArrayGridStorage>> { static const bool exactLive = true, tracked = true; };
template<size_t R> struct Traits<Grid<Tracked, R, GridNoArgCheck, SingleArrayGridStorageFortran>> { static const bool exactLive = true, tracked = true; };
template<size_t R> struct Traits<Grid<Tracked, R, GridNoArgCheck, LazyArrayGridStorage>> { static const bool exactLive = false, tracked = true; };

template<size_t R> struct Shape { Idx<R> lo, hi; };
template<size_t R> std::vector<Shape<R>> shapes();
template<> std::vector<Shape<1>> shapes<1>() { return { {Idx<1>(-2), Idx<1>(1)}, {Idx<1>(3), Idx<1>(9)} }; }
template<> std::vector<Shape<2>> shapes<2>() { return { {Idx<2>(-1, 2), Idx<2>(0, 4)}, {Idx<2>(4, -2), Idx<2>(6, -1)} }; }
template<> std::vector<Shape<3>> shapes<3>() { return { {Idx<3>(0, -1, 2), Idx<3>(1, 1, 2)}, {Idx<3>(-3, 0, 0), Idx<3>(-3, 1, 3)} }; }

template<size_t R> std::vector<Shape<R>> &current() { static std::vector<Shape<R>> s = shapes<R>(); return s; }

template<class G, size_t R> struct World {
  struct Buf { bool alloc = false; Idx<R> lo, hi; std::vector<int> val; bool defined = false; };
  static const int N = 3;
  std::unique_ptr<G> h[N]; std::shared_ptr<Buf> m[N]; int counter = 1;
  ~World() { for (auto &x : h) x.reset(); }

  void writeAll(int i) {
    Buf &b = *m[i]; b.val.clear(); b.defined = true;
    forBox<R>(b.lo, b.hi, [&](const Idx<R> &p) { int v = counter++; b.val.push_back(v); (*h[i])[p] = v; });
  }
  void check(const char *after) {
    for (int i = 0; i < N; ++i) if (h[i]) {
      Buf &b = *m[i];
      if (!b.alloc) continue;
      const G &g = *h[i];
      for (size_t d = 0; d < R; ++d) {
        MC_REQUIRE(g.getLo()[d] == b.lo[d] && g.getHi()[d] == b.hi[d], "bounds", "handle " << i << " reports bounds " << str<R>(g.getLo()) << ".." << str<R>(g.getHi()) << " but the shared buffer was last sized " << str<R>(b.lo) << ".." << str<R>(b.hi) << " (after " << after << ")");
        MC_REQUIRE(g.getDims()[d] == b.hi[d] - b.lo[d] + 1 && g.getLo(d) == b.lo[d] && g.getHi(d) == b.hi[d] && g.getDims(d) == b.hi[d] - b.lo[d] + 1, "dims", "handle " << i << " dimensions wrong after " << after);
        MC_REQUIRE(g.getRange().getLo(d) == b.lo[d] && g.getRange().getHi(d) == b.hi[d], "range", "handle " << i << " range wrong after " << after);
      }
      if constexpr (Traits<G>::tracked) MC_REQUIRE((long)g.getSize() == volume<R>(b.lo, b.hi), "size", "handle " << i << " size " << g.getSize() << " after " << after);
      if (b.defined) {
        size_t k = 0;
        forBox<R>(b.lo, b.hi, [&](const Idx<R> &p) {
          int got = (int)g[p]; int got2 = (int)(*h[i])[p];
          MC_REQUIRE(got == b.val[k] && got2 == b.val[k], "content", "handle " << i << " reads " << got << "/" << got2 << " at " << str<R>(p) << ", expected " << b.val[k] << " (after " << after << ")");
          ++k;
        });
      }
    }
    if constexpr (Traits<G>::tracked) {
      std::set<Buf*> bs; long need = 0; for (int i = 0; i < N; ++i) if (h[i] && m[i]->alloc && bs.insert(m[i].get()).second) need += volume<R>(m[i]->lo, m[i]->hi);
      if (Traits<G>::exactLive) MC_REQUIRE(Tracked::live == need, "leak", "living elements " << Tracked::live << ", live buffers hold " << need << " (after " << after << ")");
      else MC_REQUIRE(Tracked::live >= need, "short", "living elements " << Tracked::live << " < " << need);
      if (bs.empty() && need == 0) { bool anyLive = false; for (auto &x : h) anyLive |= (bool)x; if (!anyLive) MC_REQUIRE(Tracked::live == 0, "leak", "all handles destroyed but " << Tracked::live << " elements live"); }
    }
    // identity: handles alias exactly when the model says so (distinct live buffers never overlap)
    if constexpr (Traits<G>::tracked) for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) if (h[i] && h[j] && m[i]->alloc && m[j]->alloc)
      MC_REQUIRE((h[i]->getRawData() == h[j]->getRawData()) == (m[i] == m[j]), "alias", "handles " << i << "," << j << " aliasing wrong after " << after);
  }
  uint64_t abstractState() {
    uint64_t s = 7; std::map<Buf*, int> id;
    for (int i = 0; i < N; ++i) { if (!h[i]) { s = mc::mix(s, 1); continue; } int k = id.insert({m[i].get(), (int)id.size()}).first->second; s = mc::mix(s, 10 + k); s = mc::mix(s, m[i]->alloc ? 5 + m[i]->lo[0] + 100 * m[i]->hi[0] : 2); s = mc::mix(s, m[i]->defined); }
    return s;
  }
  static constexpr bool hasDefault = true;

  // one operation; returns false when the execution should stop
  void step() {
    const auto &sh = current<R>();
    struct Op { int k, i, j; };
    std::vector<Op> ops; bool freshUsed = false;
    for (int i = 0; i < N; ++i) {
      if (!h[i]) {
        if (freshUsed) continue; freshUsed = true;   // dead handles are symmetric
        ops.push_back({0, i, 0}); for (int q = 0; q < (int)sh.size(); ++q) ops.push_back({1, i, q});
        for (int j = 0; j < N; ++j) if (h[j]) ops.push_back({2, i, j});
      } else {
        for (int j = 0; j < N; ++j) if (h[j]) ops.push_back({3, i, j});
        for (int q = 0; q < (int)sh.size(); ++q) ops.push_back({4, i, q});
        if (m[i]->alloc) ops.push_back({5, i, 0});
        ops.push_back({6, i, 0});
      }
    }
    Op o = ops[mc::choose((int)ops.size())];
    std::ostringstream d;
    switch (o.k) {
      case 0: d << "h" << o.i << "=new Grid()"; h[o.i].reset(new G()); m[o.i] = std::make_shared<Buf>(); break;
      case 1: d << "h" << o.i << "=new Grid" << str<R>(sh[o.j].lo) << str<R>(sh[o.j].hi); h[o.i].reset(new G(sh[o.j].lo, sh[o.j].hi)); m[o.i] = std::make_shared<Buf>(); m[o.i]->alloc = true; m[o.i]->lo = sh[o.j].lo; m[o.i]->hi = sh[o.j].hi; mc::op(d.str()); writeAll(o.i); break;
      case 2: d << "h" << o.i << "=copy(h" << o.j << ")"; h[o.i].reset(new G(*h[o.j])); m[o.i] = m[o.j]; break;
      case 3: d << "h" << o.i << "=assign h" << o.j; *h[o.i] = *h[o.j]; m[o.i] = m[o.j]; break;
      case 4: d << "h" << o.i << ".resize" << str<R>(sh[o.j].lo) << str<R>(sh[o.j].hi); mc::op(d.str()); if (o.j % 2) h[o.i]->resize(sh[o.j].lo, sh[o.j].hi); else h[o.i]->resize(Range<int, R>(sh[o.j].lo, sh[o.j].hi)); m[o.i]->alloc = true; m[o.i]->lo = sh[o.j].lo; m[o.i]->hi = sh[o.j].hi; m[o.i]->defined = false; check("resize"); writeAll(o.i); break;
      case 5: d << "write h" << o.i; writeAll(o.i); break;
      case 6: d << "delete h" << o.i; h[o.i].reset(); m[o.i].reset(); break;
    }
    if (o.k != 1 && o.k != 4) mc::op(d.str());
    check(d.str().c_str());
    mc::state(abstractState());
  }
};

struct KokkosOnce { KokkosOnce() { Kokkos::InitArguments a; a.num_threads = 1; a.disable_warnings = true; Kokkos::initialize(a); } };
template<class G, size_t R> void history(int depth, int first) {
  if constexpr (!Traits<G>::tracked) static KokkosOnce once;
  Tracked::live = 0;
  {
    World<G, R> w; const auto &sh = current<R>();
    if (first == 0) { w.h[0].reset(new G(sh[0].lo, sh[0].hi)); w.m[0] = std::make_shared<typename World<G, R>::Buf>(); w.m[0]->alloc = true; w.m[0]->lo = sh[0].lo; w.m[0]->hi = sh[0].hi; w.writeAll(0); mc::op("h0=new Grid(A)"); }
    else { w.h[0].reset(new G()); w.m[0] = std::make_shared<typename World<G, R>::Buf>(); mc::op("h0=new Grid()"); }
    w.check("start");
    for (int i = 0; i < depth; ++i) w.step();
  }
  if (Traits<G>::tracked) MC_REQUIRE(Tracked::live == 0, "leak", "all handles destroyed but " << Tracked::live << " elements live");
}

// lazy storage: long resize histories around the grow / shrink thresholds
void lazyLong() {
  typedef Grid<Tracked, 1, GridNoArgCheck, LazyArrayGridStorage> G;
  Tracked::live = 0;
  {
    G a; G b;
    std::vector<int> sizes = {0, 1, 3, 40, 150, 500};
    int s1 = mc::pick(sizes), s2 = mc::pick(sizes), s3 = mc::pick(sizes);
    int n1 = mc::pick(std::vector<int>{1, 2, 30}), n2 = mc::pick(std::vector<int>{1, 5, 60, 400});
    int how = mc::choose(3);
    std::ostringstream d; d << "lazy sizes " << s1 << "x" << n1 << "," << s2 << "x" << n2 << "," << s3 << " share=" << how; mc::op(d.str());
    auto fillCheck = [&](G &w, G &r, int s) {
      for (int i = 0; i < s; ++i) w(i - 1) = i + 7;
      MC_REQUIRE(w.getSize() == s && r.getSize() == s, "size", "lazy size " << w.getSize() << "/" << r.getSize() << " expected " << s);
      MC_REQUIRE(r.getLo()[0] == -1 && r.getHi()[0] == s - 2 && r.getDims()[0] == s, "bounds", "lazy bounds wrong");
      for (int i = 0; i < s; ++i) MC_REQUIRE((int)r(i - 1) == i + 7, "content", "lazy content at " << i);
      MC_REQUIRE(Tracked::live >= s, "short", "lazy buffer too short");
    };
    auto rs = [&](G &g, int s) { g.resize(Idx<1>(-1), Idx<1>(s - 2)); };
    if (how == 1) { rs(b, 300); b = a; }
    if (how == 2) b = a;
    G &w = a; G &r = how ? b : a; G &z = how ? b : a;
    for (int i = 0; i < n1; ++i) { rs(a, s1); fillCheck(w, r, s1); }
    for (int i = 0; i < n2; ++i) { rs((how && i % 2) ? z : a, s2); if (i < 3 || i + 3 > n2 || i % 37 == 0) fillCheck(i % 3 ? w : r, i % 2 ? w : r, s2); }
    rs(z, s3); fillCheck(w, r, s3); fillCheck(r, w, s3);
    mc::step(n1 + n2 + 1);
  }
  MC_REQUIRE(Tracked::live == 0, "leak", "lazy: elements live at end " << Tracked::live);
}

template<class G, size_t R> void reg(const std::string &name, int depth) {
  for (int f = 0; f < 2; ++f) mc::add(name + (f ? "/from-empty" : "/from-sized"), [=] { history<G, R>(depth - (f ? 1 : 0), f); });
}
void mc_register() {
  bool t = mc::thorough();
  reg<Grid<Tracked, 2, GridNoArgCheck, SingleArrayGridStorage>, 2>("c-order rank2", t ? 6 : 5);
  reg<Grid<Tracked, 2, GridNoArgCheck, SingleArrayGridStorageFortran>, 2>("fortran rank2", t ? 6 : 5);
  reg<Grid<Tracked, 1, GridNoArgCheck, SingleArrayGridStorage>, 1>("c-order rank1", t ? 5 : 4);
  reg<Grid<Tracked, 3, GridNoArgCheck, SingleArrayGridStorage>, 3>("c-order rank3", t ? 5 : 4);
  reg<Grid<Tracked, 3, GridNoArgCheck, SingleArrayGridStorageFortran>, 3>("fortran rank3", t ? 5 : 4);
  reg<Grid<Tracked, 2, GridNoArgCheck, LazyArrayGridStorage>, 2>("lazy rank2", t ? 6 : 5);
  reg<Grid<double, 2, GridNoArgCheck, KokkosDefaultGridStorage>, 2>("kokkos rank2", t ? 5 : 4);
  for (int f = 0; f < 2; ++f) mc::add(std::string("lazy graded sizes") + (f ? "/from-empty" : "/from-sized"), [=] {
    auto &sh = current<1>(); sh.clear(); for (int n : {3, 4, 5, 7, 12, 30}) sh.push_back({Idx<1>(n % 5 - 2), Idx<1>(n % 5 - 3 + n)});
    history<Grid<Tracked, 1, GridNoArgCheck, LazyArrayGridStorage>, 1>(t ? 5 : 4, f); sh = shapes<1>(); });
  mc::add("lazy/long-resize-histories", lazyLong);
}
