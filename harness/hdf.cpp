// HDF5 output and input of distributed grids (P31), on simulated processes and a simulated parallel HDF5.
#include "deck_common.hpp"
#include "diagnostic/hdfdiagnostic.hpp"
#include "fakeh5.hpp"
#include "fakempi.hpp"
#include <memory>
using fakeh5::disk;
template<size_t R> using Idx = Array<int, R>;
template<size_t R> std::string str(const Idx<R> &p) { std::ostringstream o; o << "("; for (size_t i = 0; i < R; ++i) o << (i ? "," : "") << p[i]; o << ")"; return o.str(); }
template<size_t R, class F> void forBox(const Idx<R> &lo, const Idx<R> &hi, F f) { for (size_t i = 0; i < R; ++i) if (hi[i] < lo[i]) return; Idx<R> p = lo; while (true) { f(p); size_t i = R; while (i > 0) { --i; if (++p[i] <= hi[i]) break; p[i] = lo[i]; if (i == 0) return; } } }
// what every cell of the simulation domain holds in output number `set`
template<size_t R> double value(const Idx<R> &p, int set) { double v = 1000 * set + 0.5; for (size_t i = 0; i < R; ++i) v = v * (i == 0 ? 1 : 13) + p[i] + 3; return v; }
template<class T> double rounded(double v) { return (double)(T)v; }
static int typeOf(int *) { return (int)H5T_NATIVE_INT; } static int typeOf(float *) { return (int)H5T_NATIVE_FLOAT; } static int typeOf(double *) { return (int)H5T_NATIVE_DOUBLE; }

// a distribution of a box over n processes: cuts along one dimension, or a 2x2 pattern
template<size_t R> struct Part { std::vector<Idx<R>> lo, hi; Idx<R> glo, ghi; };
template<size_t R> Part<R> choosePart(int n, int maxE) {
  Part<R> p; static const int LO[] = {0, -2, 3}; int l = mc::choose(3); std::vector<int> grid(R, 1); if (n > 1) { int k = mc::choose((int)R + (n == 4 && R > 1 ? 1 : 0)); if (k < (int)R) grid[k] = n; else { grid[0] = 2; grid[R - 1] = 2; } }
  std::vector<std::vector<int>> cut(R); for (size_t d = 0; d < R; ++d) { cut[d].push_back(LO[(l + d) % 3]); for (int i = 0; i < grid[d]; ++i) cut[d].push_back(cut[d].back() + 1 + mc::choose(grid[d] > 1 ? 2 : maxE)); p.glo[d] = cut[d][0]; p.ghi[d] = cut[d].back() - 1; }
  for (int r = 0; r < n; ++r) { Idx<R> lo, hi; int q = r; for (size_t d = R; d-- > 0;) { int c = q % grid[d]; q /= grid[d]; lo[d] = cut[d][c]; hi[d] = cut[d][c + 1] - 1; } p.lo.push_back(lo); p.hi.push_back(hi); }
  return p;
}
template<class F, size_t R> struct Maker;
template<class T, size_t R, template<typename, size_t> class St> struct Maker<Grid<T, R, GridNoArgCheck, St>, R> { static const bool ghosts = false; static void make(Grid<T, R, GridNoArgCheck, St> &g, const Idx<R> &lo, const Idx<R> &hi, int) { g.resize(lo, hi); } };
template<class T, size_t R, template<typename, size_t> class St> struct Maker<Field<T, R, GridNoArgCheck, St>, R> { static const bool ghosts = true; static void make(Field<T, R, GridNoArgCheck, St> &g, const Idx<R> &lo, const Idx<R> &hi, int gh) { Array<double, R> a(0.0), b(1.0); Array<bool, R> s(false); g.resize(lo, hi, Range<double, R>(a, b), s, gh); } };
template<class F, size_t R> void paint(F &g, const Idx<R> &lo, const Idx<R> &hi, int set) { typedef typename F::value_type T; for (auto &v : g) v = T(-77); forBox<R>(lo, hi, [&](const Idx<R> &p) { g.get(p) = T(value<R>(p, set)); }); }
// the named dataset holds exactly the global grid
template<class T, size_t R> void checkSet(const std::string &file, const std::string &name, const Idx<R> &glo, const Idx<R> &ghi, int set, const std::string &what) {
  auto f = disk.find(file); MC_REQUIRE(f != disk.end(), "file", "file " << file << " does not exist " << what); auto d = f->second.sets.find(name); std::string have; for (auto &x : f->second.sets) have += " " + x.first; MC_REQUIRE(d != f->second.sets.end(), "dataset", "dataset " << name << " missing in " << file << " which holds" << have << " " << what);
  auto &s = d->second; MC_REQUIRE(s.type == typeOf((T *)nullptr), "type", "dataset " << name << " has type " << s.type << " " << what); MC_REQUIRE(s.dims.size() == R, "dims", "dataset has rank " << s.dims.size() << " " << what); for (size_t i = 0; i < R; ++i) MC_REQUIRE(s.dims[i] == (hsize_t)(ghi[i] - glo[i] + 1), "dims", "extent " << i << " of " << name << " is " << s.dims[i] << " " << what);
  size_t k = 0; forBox<R>(glo, ghi, [&](const Idx<R> &p) { MC_REQUIRE(s.data[k] == rounded<T>(value<R>(p, set)), "data", "cell " << str<R>(p) << " of " << name << " in the file is " << s.data[k] << ", expected " << rounded<T>(value<R>(p, set)) << " " << what); ++k; });
}
template<class T, size_t R> void checkSets(const std::string &file, const std::vector<std::string> &names, const Idx<R> &glo, const Idx<R> &ghi, const std::string &what) { for (size_t i = 0; i < names.size(); ++i) checkSet<T, R>(file, names[i], glo, ghi, (int)i, what); MC_REQUIRE(disk[file].sets.size() == names.size(), "extra", "file holds " << disk[file].sets.size() << " datasets, expected " << names.size() << " " << what); }
static void closed(const std::string &what) { std::string l = fakeh5::leaks(); for (auto &f : disk) if (f.second.open) l += " file " + f.first + " was not closed;"; l += fakempi::unreleased; MC_REQUIRE(l.empty(), "leak", "after the run:" << l << " " << what); }
static fakempi::Options options(int n, bool all) { fakempi::Options o; o.ranks = n; o.policy = all ? fakempi::AllInterleavings : std::vector<fakempi::Policy>{fakempi::RunToBlock, fakempi::RunToBlockReverse, fakempi::RoundRobin}[n > 1 ? mc::choose(3) : 0]; return o; }

template<class F, size_t R> void addStream(const std::string &tag) {
  typedef typename F::value_type T; bool t = mc::thorough();
  // writing by n processes, reading back by m processes with another distribution
  for (int n = 1; n <= (t ? 4 : 3); ++n) for (int all = 0; all < (n == 2 ? 2 : 1); ++all) mc::add("P31.roundtrip/" + tag + "/" + std::to_string(n) + (all ? "/interleaved" : ""), [=] {
    fakeh5::reset(); auto part = choosePart<R>(n, R == 3 ? 2 : 3); int gh = Maker<F, R>::ghosts ? mc::choose(3) : 0, gaps = all ? 0 : mc::choose(2); auto o = options(n, all); std::string what = tag + " on " + std::to_string(n) + " processes, domain " + str<R>(part.glo) + ".." + str<R>(part.ghi) + " ghosts " + std::to_string(gh); mc::op(what); int nsets = all ? 1 : 2, named = mc::choose(3), withAttr = t || R * n < 3 ? mc::choose(3) : named; double a1 = 2.5; const int a2[3] = {4, -5, 6}; std::vector<std::string> names;
    for (int s = 0; s < nsets; ++s) names.push_back(named == 0 ? "data" + std::to_string(s) : named == 1 ? (s ? "E" + std::to_string(s) : "E") : "set" + std::to_string(s));
    fakempi::run(o, [&](int r) { HdfOStream out; MC_REQUIRE(!out.good(), "good", "a new stream claims an open file"); out.open("f.h5"); MC_REQUIRE(out.good(), "good", "open stream not good"); GridContainer<F> c; Maker<F, R>::make(c.grid, part.lo[r], part.hi[r], gh); c.local_min = part.lo[r]; c.local_max = part.hi[r]; c.global_min = part.glo; c.global_max = part.ghi; if (named == 1) out.setBlockName("E");
      for (int s = 0; s < nsets; ++s) { if (named == 2) out.setBlockName("set" + std::to_string(s)); auto at = std::make_shared<HdfAttributes>(); if (withAttr) { at->set("amount", a1); if (withAttr > 1) at->set("shape", (const int *)a2, 3); } out.setAttributes(at); paint<F, R>(c.grid, part.lo[r], part.hi[r], s); out.writeGrid(c); } out.close(); MC_REQUIRE(!out.good(), "good", "closed stream still good"); });
    closed(what); checkSets<T, R>("f.h5", names, part.glo, part.ghi, what); for (auto &s : disk["f.h5"].sets) { auto &A = s.second.attrs; MC_REQUIRE((int)A.size() == withAttr, "attributes", A.size() << " attributes, expected " << withAttr << " " << what); if (withAttr) MC_REQUIRE(A.count("amount") && A["amount"].data == std::vector<double>{2.5} && A["amount"].type == (int)H5T_NATIVE_DOUBLE, "attributes", "attribute 'amount' wrong " << what); if (withAttr > 1) MC_REQUIRE(A.count("shape") && A["shape"].data == (std::vector<double>{4, -5, 6}) && A["shape"].type == (int)H5T_NATIVE_INT, "attributes", "attribute 'shape' wrong " << what); }
    // read back on another number of processes, over the same global box cut along the first dimension
    int ext = part.ghi[0] - part.glo[0] + 1, m = all ? 1 : 1 + mc::choose(std::min(ext, 2)); auto o2 = o; o2.ranks = m; o2.policy = fakempi::RoundRobin; int first = 1 + (m > 1 ? mc::choose(ext - 1) : 0);
    if (!all) fakempi::run(o2, [&](int r) { HdfIStream in; in.open("f.h5"); Idx<R> lo = part.glo, hi = part.ghi; if (m == 2) { if (r == 0) hi[0] = lo[0] + first - 1; else lo[0] = lo[0] + first; } if (gaps) lo = hi; GridContainer<F> c; Maker<F, R>::make(c.grid, lo, hi, gh); c.local_min = lo; c.local_max = hi; c.global_min = part.glo; c.global_max = part.ghi; if (named == 1) in.setBlockName("E");
      for (int s = 0; s < nsets; ++s) { if (named == 2) in.setBlockName("set" + std::to_string(s)); for (auto &v : c.grid) v = T(-99); in.readGrid(c); forBox<R>(c.grid.getLo(), c.grid.getHi(), [&](const Idx<R> &p) { bool inside = true; for (size_t i = 0; i < R; ++i) inside &= p[i] >= lo[i] && p[i] <= hi[i]; T want = inside ? T(value<R>(p, s)) : T(-99); MC_REQUIRE(c.grid.get(p) == want, "read", "cell " << str<R>(p) << " read back as " << c.grid.get(p) << ", expected " << want << " set " << s << " " << what); }); } in.close(); });
    closed(what + " after reading"); mc::state(mc::hashStr(what) + named * 9 + withAttr * 3 + gaps); });
}
// a stream used repeatedly: reopened with and without close, with changing sets of participating processes
static void addHistory() {
  bool t = mc::thorough(); typedef Grid<double, 1> F; 
  for (int n = 1; n <= 3; ++n) mc::add("P31.streams/" + std::to_string(n), [=] {
    fakeh5::reset(); auto o = options(n, false); int steps = t ? 5 : 4; std::vector<int> act, acts, files; std::string what; int active = (1 << n) - 1;
    for (int k = 0; k < steps; ++k) { int a = mc::choose(n > 1 ? 4 : 3); acts.push_back(a); files.push_back(a == 0 ? mc::choose(2) : 0); if (a == 3) { active = 1 + mc::choose((1 << n) - 1); } act.push_back(active); what += a == 0 ? " open f" + std::to_string(files.back()) : a == 1 ? " write" : a == 2 ? " close" : " active " + std::to_string(active); } mc::op(what);
    std::map<std::string, std::vector<std::string>> want; std::map<std::string, std::vector<std::pair<int, int>>> tag; std::map<std::string, int> mask; std::string open; int count = 0, openMask = 0, cur = (1 << n) - 1; bool bad = false;
    for (int k = 0; k < steps; ++k) { std::string f = "f" + std::to_string(files[k]); if (acts[k] == 0) { open = f; openMask = cur; count = 0; want[f].clear(); tag[f].clear(); mask[f] = openMask; } else if (acts[k] == 1) { if (!open.empty()) { want[open].push_back("data" + std::to_string(count++)); tag[open].push_back({k, 0}); } else bad = true; } else if (acts[k] == 2) open.clear(); else { if (!open.empty()) bad = true; cur = act[k]; } }
    if (bad) return;         // writing without a file, or changing the participants of an open file, is not meaningful
    fakempi::run(o, [&](int r) { { HdfOStream out; GridContainer<F> c; int who = (1 << n) - 1; for (int k = 0; k < steps; ++k) { if (acts[k] == 3) { who = act[k]; out.setActive(who >> r & 1); } else if (acts[k] == 0) out.open(("f" + std::to_string(files[k])).c_str()); else if (acts[k] == 2) out.close(); else { int before = 0, total = 0; for (int q = 0; q < n; ++q) if (who >> q & 1) { if (q < r) ++before; ++total; } Idx<1> lo(2 * before), hi(2 * before + 1), gl(0), gh(2 * total - 1); c.grid.resize(lo, hi); c.local_min = lo; c.local_max = hi; c.global_min = gl; c.global_max = gh; paint<F, 1>(c.grid, lo, hi, k); out.writeGrid(c); } } if (n == 1 || !mc::inReplay()) {} out.close(); } });
    closed(what); for (auto &w : want) { int total = 0; for (int q = 0; q < n; ++q) total += mask[w.first] >> q & 1; for (size_t i = 0; i < w.second.size(); ++i) checkSet<double, 1>(w.first, w.second[i], Idx<1>(0), Idx<1>(2 * total - 1), tag[w.first][i].first, what); MC_REQUIRE(disk[w.first].sets.size() == w.second.size(), "extra", w.first << " holds " << disk[w.first].sets.size() << " datasets, expected " << w.second.size() << what); }
    MC_REQUIRE(disk.size() == want.size(), "extra", disk.size() << " files, expected " << want.size() << what);
    // the same participants read everything back with one input stream, files in turn
    for (auto &w : want) if (w.second.size()) { int m = mask[w.first]; fakempi::run(o, [&](int r) { HdfIStream in; in.setActive(m >> r & 1); GridContainer<F> c; int before = 0, total = 0; for (int q = 0; q < n; ++q) if (m >> q & 1) { if (q < r) ++before; ++total; } Idx<1> lo(2 * before), hi(2 * before + 1); c.grid.resize(lo, hi); c.local_min = lo; c.local_max = hi; c.global_min = Idx<1>(0); c.global_max = Idx<1>(2 * total - 1); for (int rep = 0; rep < 2; ++rep) { in.open(w.first.c_str()); for (size_t i = 0; i < w.second.size(); ++i) { for (auto &v : c.grid) v = -1; in.readGrid(c); forBox<1>(lo, hi, [&](const Idx<1> &p) { double e = m >> r & 1 ? value<1>(p, tag[w.first][i].first) : -1; MC_REQUIRE(c.grid.get(p) == e, "read", "read " << c.grid.get(p) << " expected " << e << what); }); } if (rep == 1) in.close(); } in.close(); }); closed(what + " after reading"); }
    mc::state(mc::hashStr(what) + n); });
}
// streams made in every way: opened by the constructor, copied or assigned from a fresh or an already used stream
static void addConstruction() {
  typedef Grid<double, 1> F;
  for (int n = 1; n <= 3; ++n) mc::add("P31.construct/" + std::to_string(n), [=] {
    static const char *HOW[] = {"constructor with a name", "default constructor", "copy of a fresh stream", "copy of a used stream", "assigned a fresh stream", "assigned a used stream", "used stream assigned a fresh stream"};
    fakeh5::reset(); auto o = options(n, false); int how = mc::choose(7), rhow = mc::choose(7), nsets = 1 + mc::choose(2), named = mc::choose(2), mask = (1 << n) - 1 - (n > 1 ? mc::choose(2) << (n - 2) : 0), m = 0; for (int q = 0; q < n; ++q) m += mask >> q & 1; std::string what = std::string(" writing: ") + HOW[how] + ", reading: " + HOW[rhow] + (named ? ", named" : "") + " on " + std::to_string(m) + " of " + std::to_string(n) + " processes"; mc::op(what); mc::state(mc::hashStr(what) + nsets); if (m < n && (how == 0 || rhow == 0)) throw mc::Prune{};
    auto rank = [&](int r) { int b = 0; for (int q = 0; q < r; ++q) b += mask >> q & 1; return b; };
    std::vector<std::string> names; for (int k = 0; k < nsets; ++k) names.push_back(named ? "N" + std::to_string(k) : "data" + std::to_string(k));
    auto box = [&](GridContainer<F> &c, int r) { Idx<1> lo(3 * r - 1), hi(3 * r + 1); c.grid.resize(lo, hi); c.local_min = lo; c.local_max = hi; c.global_min = Idx<1>(-1); c.global_max = Idx<1>(3 * m - 2); };
    fakempi::run(o, [&](int r) { GridContainer<F> c; box(c, rank(r)); bool on = mask >> r & 1; paint<F, 1>(c.grid, c.local_min, c.local_max, 9); std::unique_ptr<HdfOStream> out; HdfOStream fresh, used; if (m < n) { fresh.setActive(on); used.setActive(on); } if (how == 3 || how >= 5) { used.open("other.h5"); used.writeGrid(c); used.close(); }
      switch (how) { case 0: out.reset(new HdfOStream("f.h5")); break; case 1: case 4: case 5: out.reset(new HdfOStream); break; case 2: out.reset(new HdfOStream(fresh)); break; case 3: out.reset(new HdfOStream(used)); break; default: out.reset(new HdfOStream(used)); } if (how == 4 || how == 6) static_cast<HdfStream &>(*out) = fresh; if (how == 5) static_cast<HdfStream &>(*out) = used;
      if (how == 1 && m < n) out->setActive(on); if (how) out->open("f.h5"); MC_REQUIRE(out->good() == on, "good", "stream not good after opening" << what); for (int k = 0; k < nsets; ++k) { if (named) out->setBlockName(names[k]); paint<F, 1>(c.grid, c.local_min, c.local_max, k); out->writeGrid(c); } if (r % 2 == 0) out->close(); out.reset(); });
    closed(what); checkSets<double, 1>("f.h5", names, Idx<1>(-1), Idx<1>(3 * m - 2), what);
    fakempi::run(o, [&](int r) { GridContainer<F> c; box(c, rank(r)); bool on = mask >> r & 1; std::unique_ptr<HdfIStream> in; HdfIStream fresh, used; if (m < n) { fresh.setActive(on); used.setActive(on); } if (rhow == 3 || rhow >= 5) { used.open("f.h5"); if (named) used.setBlockName(names[0]); used.readGrid(c); used.close(); }
      switch (rhow) { case 0: in.reset(new HdfIStream("f.h5")); break; case 1: case 4: case 5: in.reset(new HdfIStream); break; case 2: in.reset(new HdfIStream(fresh)); break; case 3: in.reset(new HdfIStream(used)); break; default: in.reset(new HdfIStream(used)); } if (rhow == 4 || rhow == 6) static_cast<HdfStream &>(*in) = fresh; if (rhow == 5) static_cast<HdfStream &>(*in) = used;
      if (rhow == 1 && m < n) in->setActive(on); if (rhow) in->open("f.h5"); MC_REQUIRE(in->good() == on, "good", "stream not good after opening" << what); for (int k = 0; k < nsets; ++k) { if (named) in->setBlockName(names[k]); for (auto &v : c.grid) v = -1; in->readGrid(c); forBox<1>(c.local_min, c.local_max, [&](const Idx<1> &p) { double e = on ? value<1>(p, k) : -1; MC_REQUIRE(c.grid.get(p) == e, "read", "read " << c.grid.get(p) << " expected " << e << what); }); } if (r % 2) in->close(); in.reset(); });
    closed(what + " after reading"); });
}
// diagnostics and readers as blocks
typedef Field<double, 2> DF;
struct HSim : public schnek::Block { DF f; Idx<2> glo, ghi; void setup(const Idx<2> &lo, const Idx<2> &hi, int gh) { Maker<DF, 2>::make(f, lo, hi, gh); } void registerData() { addData("field", f); } static HSim *last[8]; HSim() { last[fakempi::me()] = this; const auto &p = parts[0]; int r = fakempi::me(); glo = p.glo; ghi = p.ghi; setup(p.lo[r], p.hi[r], ghost); } static std::vector<Part<2>> parts; static int ghost; };
HSim *HSim::last[8]; std::vector<Part<2>> HSim::parts; int HSim::ghost;
struct HDiag : public HDFGridDiagnostic<DF, IntervalDiagnostic> { Idx<2> getGlobalMin() { return HSim::parts[0].glo; } Idx<2> getGlobalMax() { return HSim::parts[0].ghi; } static int attr; double amount = 0; static HDiag *last[8]; HDiag() { last[fakempi::me()] = this; } pHdfAttributes getAttributes() { auto a = std::make_shared<HdfAttributes>(); double v = 0.5 + amount; if (attr) a->set("amount", v); amount += 1; return a; } std::string getDatasetName() { return name.empty() ? HDFGridDiagnostic<DF, IntervalDiagnostic>::getDatasetName() : name; } static std::string name; using HDFGridDiagnostic<DF, IntervalDiagnostic>::open; using HDFGridDiagnostic<DF, IntervalDiagnostic>::write; using HDFGridDiagnostic<DF, IntervalDiagnostic>::close; };
int HDiag::attr; HDiag *HDiag::last[8]; std::string HDiag::name;
struct HRead : public HDFGridReader<DF> { static HRead *last[8]; HRead() { last[fakempi::me()] = this; } Idx<2> getGlobalMin() { return HSim::parts[0].glo; } Idx<2> getGlobalMax() { return HSim::parts[0].ghi; } std::string getDatasetName() { return name.empty() ? HDFGridReader<DF>::getDatasetName() : name; } static std::string name; using HDFGridReader<DF>::execute; };
HRead *HRead::last[8]; std::string HRead::name;
static pBlock build(const std::string &deck) { BlockClasses bc(false); bc.registerBlock("Sim").setClass<HSim>(); bc.registerBlock("D").setClass<HDiag>(); bc.registerBlock("R").setClass<HRead>(); pBlock a; { Parser P("sim", "Sim", bc); std::istringstream is(deck); a = P.parse(is, "the file"); } a->initAll(); return a; }
static void addBlocks() {
  bool t = mc::thorough();
  // one process, driven by the diagnostic manager
  mc::add("P31.manager", [=] {
    fakeh5::reset(); HSim::parts = {choosePart<2>(1, 2)}; HSim::ghost = mc::choose(2); HDiag::attr = mc::choose(2); HDiag::name = mc::choose(2) ? "Ez" : ""; bool append = mc::flip(); int iv = 1 + mc::choose(2), steps = 1 + mc::choose(4); std::string deck = std::string("D out { file = \"") + (append ? "o.h5" : "o#t.h5") + "\"; field = \"field\"; interval = " + std::to_string(iv) + ";" + (append ? " append = 1;" : "") + " }\n"; std::string what = deck + std::to_string(steps) + " steps"; mc::op(what); auto o = options(1, false);
    std::map<std::string, std::vector<int>> want; auto &p = HSim::parts[0];
    fakempi::run(o, [&](int) { int step = 0; { pBlock app = build(deck); HSim &s = *HSim::last[0]; auto &M = DiagnosticManager::instance(); M.setMaster(true); M.setRank(0); M.setTimeCounter(&step); for (; step < steps; ++step) { paint<DF, 2>(s.f, p.lo[0], p.hi[0], step); M.execute(); if (step % iv == 0) want[append ? "o.h5" : "o" + std::to_string(step) + ".h5"].push_back(step); } } DiagnosticManager::instance().setTimeCounter(nullptr); });
    closed(what); MC_REQUIRE(disk.size() == want.size(), "files", disk.size() << " files, expected " << want.size() << "\n" << what); std::string base = HDiag::name.empty() ? "data" : HDiag::name;
    for (auto &w : want) { MC_REQUIRE(disk[w.first].sets.size() == w.second.size(), "extra", w.first << " holds " << disk[w.first].sets.size() << " datasets, expected " << w.second.size() << "\n" << what); for (size_t i = 0; i < w.second.size(); ++i) { std::string nm = base + (i ? std::to_string(i) : ""); checkSet<double, 2>(w.first, nm, p.glo, p.ghi, w.second[i], what); auto &A = disk[w.first].sets[nm].attrs; MC_REQUIRE((int)A.size() == HDiag::attr, "attributes", "number of attributes"); if (HDiag::attr) MC_REQUIRE(A["amount"].data[0] == 0.5 + (append ? (double)i : (double)(w.second[i] / iv)), "attributes", "attribute is " << A["amount"].data[0] << "\n" << what); } }
    mc::state(mc::hashStr(what) + HDiag::attr); });
  // several processes: diagnostic blocks write, reader blocks read
  for (int n = 1; n <= (t ? 4 : 3); ++n) mc::add("P31.blocks/" + std::to_string(n), [=] {
    fakeh5::reset(); HSim::parts = {choosePart<2>(n, 2)}; HSim::ghost = mc::choose(3); HDiag::attr = mc::choose(2); HDiag::name = HRead::name = mc::choose(2) ? "Ez" : ""; int outputs = 1 + mc::choose(3); bool append = mc::flip(); auto &p = HSim::parts[0]; std::string what = "blocks on " + std::to_string(n) + " processes, " + std::to_string(outputs) + (append ? " appended" : " separate") + " outputs, domain " + str<2>(p.glo) + ".." + str<2>(p.ghi); mc::op(what); auto o = options(n, false);
    std::string deck = "D out { file = \"o#t.h5\"; field = \"field\"; }\nR in { file = \"o0.h5\"; field = \"field\"; }\n";
    fakempi::run(o, [&](int r) { pBlock app = build(deck); HSim &s = *HSim::last[r]; HDiag &d = *HDiag::last[r]; for (int k = 0; k < outputs; ++k) { paint<DF, 2>(s.f, p.lo[r], p.hi[r], k); if (!append || k == 0) d.open("o" + std::to_string(k) + ".h5"); d.write(); if (!append || k == outputs - 1) d.close(); }
      for (auto &v : s.f) v = -5; HRead::last[r]->execute(); forBox<2>(s.f.getLo(), s.f.getHi(), [&](const Idx<2> &q) { bool in = q[0] >= p.lo[r][0] && q[1] >= p.lo[r][1] && q[0] <= p.hi[r][0] && q[1] <= p.hi[r][1]; double e = in ? value<2>(q, 0) : -5; MC_REQUIRE(s.f.get(q) == e, "read", "cell " << str<2>(q) << " is " << s.f.get(q) << " after reading, expected " << e << " " << what); }); });
    closed(what); std::string base = HDiag::name.empty() ? "data" : HDiag::name; MC_REQUIRE(disk.size() == (append ? 1u : outputs), "files", disk.size() << " files " << what); for (int k = 0; k < outputs; ++k) { std::string f = append ? "o0.h5" : "o" + std::to_string(k) + ".h5", nm = base + (append && k ? std::to_string(k) : ""); checkSet<double, 2>(f, nm, p.glo, p.ghi, k, what); auto &A = disk[f].sets[nm].attrs; MC_REQUIRE((int)A.size() == HDiag::attr && (!HDiag::attr || A["amount"].data[0] == 0.5 + k), "attributes", "attributes of output " << k << " " << what); }
    mc::state(mc::hashStr(what) + HSim::ghost * 4 + HDiag::attr * 2 + HDiag::name.size()); });
}
void mc_register() {
  addStream<Grid<double, 1>, 1>("g1d"); addStream<Field<double, 1>, 1>("f1d"); addStream<Field<float, 2>, 2>("f2f"); addStream<Grid<int, 2>, 2>("g2i"); addStream<Field<double, 3>, 3>("f3d"); addStream<Grid<double, 2, GridNoArgCheck, LazyArrayGridStorage>, 2>("l2d");
  addStream<Field<double, 2, GridNoArgCheck, SingleArrayGridStorageFortran>, 2>("o2d");
  addHistory(); addConstruction(); addBlocks();
}
