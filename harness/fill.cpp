// Filling fields from setup file expressions (P11).
#include "deck_common.hpp"
#include "grid/field.hpp"
#include "tools/fieldtools.hpp"
#include <cmath>
#include <functional>
typedef std::vector<std::string> Toks;
typedef std::function<double(const std::vector<double>&)> Fn;

template<size_t R> struct FillBlock : public schnek::Block {
  Array<double, R> x; Array<pParameter, R> xp; double f = 0, g = 0; int h = 0, time = 0; double amp = 0; pParameter pf, pg, ph, pt;
  static FillBlock *last; FillBlock() : x(0.0) { last = this; }
  void initParameters(BlockParameters &p) { p.addParameter("amp", &amp, 1.5); pt = p.addParameter("time", &time, BlockParameters::readonly); xp = p.addArrayParameter("", x, BlockParameters::readonly); pf = p.addParameter("F", &f, -1.0); pg = p.addParameter("G", &g, -2.0); ph = p.addParameter("H", &h, -3); }
  pBlockVariables vars() { return getVariables(); }
};
template<size_t R> FillBlock<R> *FillBlock<R>::last = nullptr;

// the expressions: what stands in the file, and the value at a position (time is the last component)
struct Formula { std::string deck; Fn f, g, h; };
template<size_t R> static const std::vector<Formula> &formulas() {
  auto c = [](double v) { return Fn([=](const std::vector<double>&) { return v; }); }; auto X = [](const std::vector<double> &p) { return p[0]; }; auto Y = [](const std::vector<double> &p) { return p[R > 1 ? 1 : 0]; }; auto Z = [](const std::vector<double> &p) { return p[R - 1]; }; auto T = [](const std::vector<double> &p) { return p.back(); };
  static const std::string y = R > 1 ? "y" : "x", z = R > 2 ? "z" : y;
  static const std::vector<Formula> v = {
    {"F = x;", Fn(X), c(-2), c(-3)},
    {"F = " + z + "*10 - x;", [=](const std::vector<double> &p) { return Z(p) * 10 - X(p); }, c(-2), c(-3)},
    {"int unused = 1;", c(-1), c(-2), c(-3)},
    {"F = 7; G = 2*x + 1;", c(7), [=](const std::vector<double> &p) { return 2 * X(p) + 1; }, c(-3)},
    {"float r = x*x + " + y + ";\nfloat s = amp*r - " + z + ";\nF = s*r + time;\nG = r + F;\nH = 2*time + 1;\namp = 3;", [=](const std::vector<double> &p) { double r = X(p) * X(p) + Y(p), s = 3 * r - Z(p); return s * r + T(p); }, [=](const std::vector<double> &p) { double r = X(p) * X(p) + Y(p), s = 3 * r - Z(p); return r + s * r + T(p); }, [=](const std::vector<double> &p) { return 2 * T(p) + 1; }},
    {"Group a {\n float u = x - 2*" + y + ";\n Group b { float w = u*u + time; }\n}\nG = a:b:w;\nF = a:u + 1;\n", [=](const std::vector<double> &p) { return X(p) - 2 * Y(p) + 1; }, [=](const std::vector<double> &p) { double u = X(p) - 2 * Y(p); return u * u + T(p); }, c(-3)},
    {"H = time; G = F;\n", c(-1), c(-1), Fn(T)},
    {"H = 16*(x + 1000) + 0.25 + time;\nF = H - time;", [=](const std::vector<double> &p) { return std::floor(16 * (X(p) + 1000) + 0.25); }, c(-2), [=](const std::vector<double> &p) { return std::floor(16 * (X(p) + 1000) + 0.25) + T(p); }},
  };
  return v;
}
template<size_t R> struct Geo { Array<int, R> lo, hi; Array<double, R> dlo, dhi; Array<bool, R> st; int ghost; };
template<size_t R> static Geo<R> pickGeo(bool t, int first) {
  Geo<R> g; static const int LO[] = {0, -2, 3}; static const double DL[] = {0, -1, 2.5}, DS[] = {1, 4, 0.75}; int which = first; g.ghost = mc::choose(t ? 4 : R == 3 ? 2 : 3); for (size_t i = 0; i < R; ++i) { int n = 1 + mc::choose(R == 1 ? (t ? 7 : 5) : R == 2 ? 3 : 2); int l = LO[(which + i) % 3]; g.lo[i] = l; g.hi[i] = l + n - 1; g.dlo[i] = DL[(which + 2 * i) % 3]; g.dhi[i] = g.dlo[i] + DS[(which + i) % 3]; g.st[i] = mc::flip(); } return g;
}
template<class F, size_t R> static void make(F &f, const Geo<R> &g) { f.resize(g.lo, g.hi, Range<double, R>(g.dlo, g.dhi), g.st, g.ghost); for (auto &v : f) v = 424242; }
template<class F, size_t R> static void check(F &f, const Geo<R> &g, const Fn &fn, bool filled, double time, const std::string &what) {
  Array<int, R> lo = g.lo, hi = g.hi; for (size_t i = 0; i < R; ++i) { lo[i] -= g.ghost; hi[i] += g.ghost; MC_REQUIRE(f.getLo()[i] == lo[i] && f.getHi()[i] == hi[i], "bounds", "bounds changed by filling " << what); }
  Array<int, R> p = lo; while (true) {
    std::vector<double> pos(R + 1); pos[R] = time; std::ostringstream at; for (size_t i = 0; i < R; ++i) { pos[i] = g.dlo[i] + (p[i] - g.lo[i] + (g.st[i] ? 0.5 : 0.0)) * (g.dhi[i] - g.dlo[i]) / (g.hi[i] - g.lo[i] + 1); at << p[i] << " "; }
    double want = filled ? fn(pos) : 424242, got = f.get(p), tol = std::is_same<typename F::value_type, int>::value ? 0.5 : 1e-9 * (1 + std::fabs(want)); MC_REQUIRE(std::fabs(got - want) <= tol, "value", "grid point " << at.str() << "holds " << got << ", expected " << want << " " << what);
    size_t i = 0; for (; i < R; ++i) { if (++p[i] <= hi[i]) break; p[i] = lo[i]; } if (i == R) break; }
}
template<size_t R> struct Sim { BlockClasses bc; pBlock app; FillBlock<R> *b; pDependencyMap dm; std::unique_ptr<DependencyUpdater> u; bool withTime;
  Sim(const std::string &deck) : bc(false) { bc.registerBlock("Sim").template setClass<FillBlock<R>>(); { Parser P("sim", "Sim", bc); std::istringstream is(deck); app = P.parse(is, "the file"); } app->initAll(); b = FillBlock<R>::last; dm = pDependencyMap(new DependencyMap(b->vars())); u.reset(new DependencyUpdater(dm)); u->addIndependentArray(b->xp); u->addIndependent(b->pt); } };

template<size_t R, template<typename, size_t> class St> static void addRank(const std::string &tag) {
  bool t = mc::thorough(); auto &fs = formulas<R>();
  typedef Field<double, R, GridNoArgCheck, St> DF; typedef Field<int, R, GridNoArgCheck, St> IF;
  // one call for one field: every geometry, every expression, each of the three quantities; the same updater afterwards for another field
  for (size_t k = 0; k < fs.size(); ++k) for (int first = 0; first < 3; ++first) mc::add("P11.fill/" + tag + "/" + std::to_string(k) + "." + std::to_string(first), [=] {
    auto &F = formulas<R>()[k]; Geo<R> g = pickGeo<R>(t, first); Sim<R> s(F.deck); mc::op(F.deck); int n = 0; s.b->time = 2; DF d; IF h; make(d, g); make(h, g); int which = mc::choose(3);
    std::string what = "after filling with quantity " + std::to_string(which) + "\n" + F.deck;
    auto fill = [&](int w) { mc::step(); if (w == 0) fill_field(d, s.b->x, s.b->f, *s.u, s.b->pf); else if (w == 1) fill_field(d, s.b->x, s.b->g, *s.u, s.b->pg); else fill_field(h, s.b->x, s.b->h, *s.u, s.b->ph); };
    fill(which); bool dd = which < 2, hh = which == 2; Fn cur = which == 0 ? F.f : F.g; check(d, g, cur, dd, 2, what); check(h, g, F.h, hh, 2, what);
    int again = mc::choose(3); s.b->time = 5; fill(again); n = 5; if (again < 2) { dd = true; cur = again == 0 ? F.f : F.g; check(d, g, cur, true, n, what + " then " + std::to_string(again)); check(h, g, F.h, hh, 2, what); } else { check(h, g, F.h, true, n, what + " then " + std::to_string(again)); check(d, g, cur, dd, 2, what); }
    mc::state(mc::mix(mc::mix(k * 9 + which * 3 + again, mc::hashStr(tag)), mc::mix(g.ghost, g.hi[0] * 64 + g.hi[R - 1] * 8 + g.st[0] + 2 * g.st[R - 1]))); });
  // field fillers: any number of fields and fillers, any order of use
  for (size_t k = 0; k < fs.size(); ++k) mc::add("P11.filler/" + tag + "/" + std::to_string(k), [=] {
    auto &F = formulas<R>()[k]; Sim<R> s(F.deck); mc::op(F.deck); s.u->addDependent(s.b->pf); s.u->addDependent(s.b->pg); s.u->addDependent(s.b->ph);
    DF d[3]; IF h[2]; Geo<R> gd[3], gh[2]; auto geo = [](int v) { Geo<R> g; for (size_t i = 0; i < R; ++i) { g.lo[i] = -v; g.hi[i] = 1 + (int)i - v; g.dlo[i] = v; g.dhi[i] = v + 2 + (int)i; g.st[i] = (v + i) % 2; } g.ghost = v % 3; return g; }; for (int i = 0; i < 3; ++i) { gd[i] = geo(i); make(d[i], gd[i]); } for (int i = 0; i < 2; ++i) { gh[i] = geo(i + 1); make(h[i], gh[i]); }
    struct Target { bool isInt; int idx; int q; }; std::vector<Target> reg[2]; FieldFiller ff[2]; struct Last { bool filled = false; int q = 0; double time = 0; } ld[3], lh[2]; s.b->time = 1; int n = t ? R == 3 ? 5 : 6 : R == 3 ? 4 : 5;
    for (int step = 0; step < n; ++step) { int a = mc::choose(4), w = a == 3 ? 0 : mc::choose(2); mc::step(); s.b->time = step;
      if (a == 0) { auto ad = ff[w].set(s.b->x, *s.u); ad(d[step % 3], s.b->f); reg[w].push_back({false, step % 3, 0}); mc::op("add one field"); }
      else if (a == 1) { ff[w].set(s.b->x, *s.u)(d[(step + 1) % 3], s.b->g)(h[step % 2], s.b->h); reg[w].push_back({false, (step + 1) % 3, 1}); reg[w].push_back({true, step % 2, 2}); mc::op("add two fields"); }
      else if (a == 2) { ff[w].fillFields(); mc::op("fill " + std::to_string(w)); for (auto &r : reg[w]) { Last &l = r.isInt ? lh[r.idx] : ld[r.idx]; l.filled = true; l.q = r.q; l.time = step; } }
      else { ff[0].clear(); reg[0].clear(); mc::op("clear"); }
      if (a == 2 || step == n - 1) { for (int i = 0; i < 3; ++i) check(d[i], gd[i], ld[i].q == 0 ? F.f : F.g, ld[i].filled, ld[i].time, "field " + std::to_string(i) + "\n" + F.deck); for (int i = 0; i < 2; ++i) check(h[i], gh[i], F.h, lh[i].filled, lh[i].time, "int field " + std::to_string(i) + "\n" + F.deck); } }
    mc::state(mc::mix(mc::mix(reg[0].size() * 8 + reg[1].size(), k), mc::hashStr(tag))); });
}
void mc_register() {
  addRank<1, SingleArrayGridStorage>("1C"); addRank<2, SingleArrayGridStorage>("2C"); addRank<3, SingleArrayGridStorage>("3C"); addRank<2, SingleArrayGridStorageFortran>("2F"); addRank<3, LazyArrayGridStorage>("3L");
}
