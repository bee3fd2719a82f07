// P34: elementary helper functions - random numbers (the values of rand() are chosen by the explorer), minimum, maximum,
// sign, vector product, running sums, averages, unique identifiers, single instances
#include "mc.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
#include <memory>
#include <set>
#include <list>
#include <algo.hpp>
#include <functions.hpp>
#include <grid/array.hpp>
#include <util/algohelper.hpp>
#include <util/singleton.hpp>
#include <util/unique.hpp>
using namespace schnek;

// ---- the environment: every value the generator of the C library can deliver -----------------------
static const int NEAR[] = {0, 1, 2, RAND_MAX / 3, RAND_MAX / 2 - 1, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX / 3 * 2, RAND_MAX - 2, RAND_MAX - 1, RAND_MAX};
static std::vector<int> drawn; static int draws(0), grid(0);
static int nextRand() {
  int v; if (drawn.size() > 12) v = 0; else if (grid) { int i = mc::choose(grid + 1); v = i == grid ? RAND_MAX : (int)((double(RAND_MAX) + 1) / grid * i); } else { int i = mc::choose((int)(sizeof NEAR / sizeof *NEAR)); v = NEAR[i]; }
  drawn.push_back(v); ++draws; return v;
}
extern "C" int rand() { return nextRand(); }
extern "C" long random() { return nextRand(); }
static std::string drawnStr() { std::string s; for (int v : drawn) s += " " + std::to_string(v); return s; }
// the delivered number agrees with one of the values drawn as its leading digits
static bool leads(double u) { for (int v : drawn) if (std::fabs(u - v / (double(RAND_MAX) + 1)) < 1e-8) return true; return drawn.empty(); }
struct Id1 : Unique<Id1> {}; struct Id2 : Unique<Id2> {};
struct One : Singleton<One> { static int made; int v = 0; One() { ++made; } friend class Singleton<One>; }; int One::made = 0;
struct Two : Singleton<Two> { int v = 5; friend class Singleton<Two>; };
template<class T> static void elementary(const std::string &n, const std::vector<T> &dom) {
  mc::add("P34.elementary-" + n, [dom] {
    T a = mc::pick(dom), b = mc::pick(dom); { std::ostringstream o; o << a << ", " << b; mc::op(o.str()); mc::sample(o.str()); mc::state(mc::hashStr(o.str())); }
    T lo = b < a ? b : a, hi = b < a ? a : b; MC_REQUIRE(schnek::min(a, b) == lo && schnek::max(a, b) == hi, "minmax", "min/max of " << a << " and " << b << " = " << schnek::min(a, b) << "/" << schnek::max(a, b));
    MC_REQUIRE(signum(a) == (a < T(0) ? -1 : 1), "signum", "signum(" << a << ") = " << signum(a)); MC_REQUIRE(signum0(a) == (a < T(0) ? -1 : a == T(0) ? 0 : 1), "signum", "signum0(" << a << ") = " << signum0(a));
    calcsum<T> s, z(s); s(a); calcsum<T> t(s); s(b); MC_REQUIRE(s.result() == T(a + b) && t.result() == a && z.result() == T(0), "sum", "running sum of " << a << " and " << b << " = " << s.result()); t(b); MC_REQUIRE(t.result() == s.result(), "sum", "copied running sum"); t = std::for_each(dom.begin(), dom.begin() + 3, calcsum<T>()); MC_REQUIRE(t.result() == T(T(dom[0] + dom[1]) + dom[2]), "sum", "sum over a sequence");
  });
  mc::add("P34.cross-" + n, [dom] {
    Array<T, 3> a, b, r; for (int i = 0; i < 3; ++i) { a[i] = dom[mc::choose(3)]; b[i] = dom[1 + mc::choose(3)]; r[i] = T(77); } { std::ostringstream o; o << a[0] << "," << a[1] << "," << a[2] << " x " << b[0] << "," << b[1] << "," << b[2]; mc::op(o.str()); mc::state(mc::hashStr(o.str())); }
    Array<T, 3> a0(a), b0(b); crossProduct(r, a, b); for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; T w = a0[j] * b0[k] - a0[k] * b0[j]; MC_REQUIRE(r[i] == w, "cross", "component " << i << " of the vector product = " << r[i] << " expected " << w); MC_REQUIRE(a[i] == a0[i] && b[i] == b0[i], "cross", "operand changed"); }
  });
}
// the average of every sequence of up to four values, over contiguous and linked ranges and over a part of a range
template<class T> static void average(const std::string &n, const std::vector<T> &dom) {
  mc::add("P34.mean-" + n, [dom] {
    int k = 1 + mc::choose(4), skip = mc::choose(2); std::vector<T> v; for (int i = 0; i < skip; ++i) v.push_back(T(77)); T sum(0); std::ostringstream o; for (int i = 0; i < k; ++i) { v.push_back(mc::pick(dom)); sum += v.back(); o << " " << v.back(); } v.push_back(T(99));
    std::list<T> l(v.begin(), v.end()); std::vector<T> v0(v); mc::op("mean of" + o.str()); mc::sample("mean of" + o.str()); mc::state(mc::hashStr(o.str() + (skip ? "s" : "")));
    typename std::list<T>::iterator b = l.begin(), e = l.end(); if (skip) ++b; --e; T w = T(double(sum) / k), g = schnek::mean(v.begin() + skip, v.end() - 1), h = schnek::mean(b, e);
    double eps = std::is_integral<T>::value ? 0 : 1e-9; MC_REQUIRE(std::fabs(double(g) - w) <= eps && std::fabs(double(h) - w) <= eps, "mean", "mean of" << o.str() << " = " << g << " / " << h << ", expected " << w); MC_REQUIRE(v == v0, "changed", "averaging changed the values");
  });
}
void mc_register() {
  mc::add("P34.drand", [] {
    drawn.clear(); grid = 0; double u = drand(); mc::op("drand with random values" + drawnStr()); mc::state(mc::hashStr(drawnStr()));
    MC_REQUIRE(u >= 0 && u <= 1, "unit", "drand() = 1 + " << u - 1 << " is not between 0 and 1"); MC_REQUIRE(leads(u), "uniform", "drand() = " << u << " does not follow the generator");
  });
  mc::add("P34.irand", [] {
    static const int R[] = {1, 2, 3, 7, 10, 1000, 1 << 20, INT_MAX}; drawn.clear(); grid = 0; int range = R[mc::choose(8)], v = irand(range); mc::op("irand(" + std::to_string(range) + ") with random values" + drawnStr()); mc::state(mc::hashStr(drawnStr()) + range);
    MC_REQUIRE(v >= 0 && v < range, "range", "irand(" << range << ") = " << v);
    if (range < 1001 && !drawn.empty()) { bool near = false; for (int d : drawn) near |= std::fabs(d / (double(RAND_MAX) + 1) * range - v - .5) < .5 + 1e-4; MC_REQUIRE(near, "uniform", "irand(" << range << ") = " << v << " does not follow the generator"); }
  });
  // every value occurs, all equally often up to the resolution of the enumeration
  mc::add("P34.values", [] {
    grid = 24; int range = 1 + mc::choose(8); drawn.clear(); int v = irand(range); mc::op("irand(" + std::to_string(range) + ") with random values" + drawnStr()); MC_REQUIRE(v >= 0 && v < range, "range", "irand(" << range << ") = " << v); mc::state(range * 100 + v); if (drawn.empty()) return;
    bool ok = false; for (int d : drawn) { int w = std::min(range - 1, int(d / (double(RAND_MAX) + 1) * range)); ok |= v == w || (d && v == std::min(range - 1, int((d + 1.) / (double(RAND_MAX) + 1) * range))); } MC_REQUIRE(ok, "uniform", "irand(" << range << ") = " << v);
  });
  elementary<int>("int", {0, 1, -1, 5, -7, 1000, -1000}); elementary<double>("double", {0., 1.5, -1., .25, -1e-300, 1e30, -7.}); elementary<long>("long", {0, 1, -1, 5, -7, 1L << 33, -(1L << 33)}); elementary<float>("float", {0.f, 1.5f, -1.f, .25f, -7.f});
  average<int>("int", {0, 1, -1, 7, 1000}); average<double>("double", {0., 1.5, -1., .25, 1e6});
  // identifiers: never the same twice in the life of the program, independent for each class
  mc::add("P34.unique", [] {
    static std::set<long> seen1, seen2; std::vector<std::unique_ptr<Id1>> a; std::vector<std::unique_ptr<Id2>> b; std::vector<long> ia, ib;
    for (int i = 0; i < 6; ++i) { int o = mc::choose(4); mc::op(o == 0 ? "create first" : o == 1 ? "create second" : o == 2 ? "destroy first" : "destroy second");
      if (o == 0) { a.emplace_back(new Id1); ia.push_back(a.back()->getId()); MC_REQUIRE(seen1.insert(ia.back()).second, "repeated", "identifier " << ia.back() << " was given twice"); }
      else if (o == 1) { b.emplace_back(new Id2); ib.push_back(b.back()->getId()); MC_REQUIRE(seen2.insert(ib.back()).second, "repeated", "identifier " << ib.back() << " was given twice"); }
      else if (o == 2) { if (a.empty()) throw mc::Prune{}; a.pop_back(); ia.pop_back(); } else { if (b.empty()) throw mc::Prune{}; b.pop_back(); ib.pop_back(); }
      for (size_t k = 0; k < a.size(); ++k) MC_REQUIRE(a[k]->getId() == ia[k], "changed", "identifier changed"); for (size_t k = 0; k < b.size(); ++k) MC_REQUIRE(b[k]->getId() == ib[k], "changed", "identifier changed"); }
    mc::state(mc::pathHash());
  });
  mc::add("P34.single", [] { One *first = &One::instance(); int v = first->v; for (int i = 0; i < 4; ++i) { if (mc::flip()) { mc::op("write"); One::instance().v = ++v; } else { mc::op("other"); Two::instance().v++; } MC_REQUIRE(&One::instance() == first && One::made == 1 && One::instance().v == v && (void *)&Two::instance() != (void *)first, "instance", "the single instance was replaced or changed"); } mc::state(mc::pathHash()); });
}
