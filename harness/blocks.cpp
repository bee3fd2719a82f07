// Simulation blocks: parameter updates (P24), parameters (P25), life cycle (P27), block structure (P28), shared data (P29).
#include "deck_common.hpp"
#include "variables/blockcontainer.hpp"
using ref::Val;
typedef std::vector<std::string> Toks;
static ref::pVar extVar(int type, std::function<Val()> f) { auto v = std::make_shared<ref::Var>(); v->type = type; v->fixed = false; v->readonly = true; v->ex = ref::Interp::mk(ref::Ex::EXT, type); v->ex->ext = f; return v; }
static ref::pVar plainVar(Val x, bool init = true, bool ro = false) { auto v = std::make_shared<ref::Var>(); v->type = x.index(); v->val = x; v->readonly = ro; v->initialised = init; return v; }

#if ON(24)
static int tickValue = 0; static int tickf() { return tickValue; } static double trackf(double a) { return a; } static double twof(double a, double b) { return a + 10 * b; }
struct Upd : public schnek::Block {
  static Upd *last; double x, y; int i; double v[5]; int w; std::string s; pParameter px, py, pi, pv[5], pw, ps;
  Upd() { last = this; }
  void initParameters(BlockParameters &p) {
    px = p.addParameter("x", &x, 1.0, BlockParameters::readonly); py = p.addParameter("y", &y, 2.0, BlockParameters::readonly); pi = p.addParameter("i", &i, 3, BlockParameters::readonly);
    for (int k = 0; k < 5; ++k) pv[k] = p.addParameter("v" + std::to_string(k), &v[k], 0.25); pw = p.addParameter("w", &w, 0); ps = p.addParameter("s", &s, std::string("none"));
  }
};
Upd *Upd::last = nullptr;
struct UpdRun {
  double x = 1, y = 2; int i = 3; ref::Interp in; pBlock app; Upd *b = nullptr; std::string deck;
  bool parse(const std::string &d) {
    deck = d; tickValue = 0; in.root.name = "sim"; in.root.cls = "Sim"; in.root.vars["x"] = extVar(1, [this] { return Val(x); }); in.root.vars["y"] = extVar(1, [this] { return Val(y); }); in.root.vars["i"] = extVar(0, [this] { return Val(i); });
    for (int k = 0; k < 5; ++k) in.root.vars["v" + std::to_string(k)] = plainVar(0.25); in.root.vars["w"] = plainVar(0); in.root.vars["s"] = plainVar(std::string("none"));
    in.funcs["tick"] = {{}, 0, [](const std::vector<Val> &) -> Val { return tickValue; }, true}; in.funcs["same"] = {{1}, 1, [](const std::vector<Val> &a) -> Val { return a[0]; }, false}; in.funcs["two"] = {{1, 1}, 1, [](const std::vector<Val> &a) -> Val { return twof(std::get<1>(a[0]), std::get<1>(a[1])); }, false};
    mc::op(d); auto r = in.run(d); Upd::last = nullptr; BlockClasses bc(false); bc.registerBlock("Sim").setClass<Upd>(); Parser P("sim", "Sim", bc); P.getFunctionRegistry().registerFunction("tick", tickf, true); P.getFunctionRegistry().registerFunction("same", trackf); P.getFunctionRegistry().registerFunction("two", twof); std::istringstream is(d);
    Outcome o = guarded([&] { app = P.parse(is, "the file"); app->evaluateParameters(); }); compareVerdict(d, o, r); mc::state(mc::hashStr(d)); b = Upd::last; return r.kind == 0;
  }
  Val member(int k) { return k < 5 ? Val(b->v[k]) : k == 5 ? Val(b->w) : Val(b->s); }
  pParameter par(int k) { return k < 5 ? b->pv[k] : k == 5 ? b->pw : b->ps; }
  Val want(int k) { return in.root.vars[k < 5 ? "v" + std::to_string(k) : k == 5 ? "w" : "s"]->get(); }
  void check(int k, const std::string &when) { Val g = member(k), e = want(k); MC_REQUIRE(ref::same(g, e), "value", "dependent " << k << " is " << ref::show(g) << ", expected " << ref::show(e) << " " << when << ", x=" << x << " y=" << y << " i=" << i << " tick=" << tickValue << "\n" << deck); MC_REQUIRE(b->x == x && b->y == y && b->i == i, "independent", "an update changed an independent variable " << when << ": x=" << b->x << " (" << x << ") y=" << b->y << " (" << y << ") i=" << b->i << " (" << i << ")\n" << deck); }
  void set(int which, double val) { if (which == 0) b->x = x = val; else if (which == 1) b->y = y = val; else b->i = i = (int)val; }
};
// the same through array parameters, registered as a whole
template<size_t R> struct UpdArr : public schnek::Block { static UpdArr *last; schnek::Array<double, R> x, v; schnek::Array<int, R> n; schnek::Array<pParameter, R> px, pv, pn; UpdArr() { last = this; }
  void initParameters(BlockParameters &p) { px = p.addArrayParameter("x", x, 1.0, BlockParameters::readonly); pv = p.addArrayParameter("v", v, 0.5); pn = p.addArrayParameter("n", n, 7, BlockParameters::readwrite, "abcd"); } };
template<size_t R> UpdArr<R> *UpdArr<R>::last = nullptr;
template<size_t R> static void arrays() {
  static const char *X = "xyzu", *N = "abcd"; int a[R], b[R]; std::string d = "int other = 1;\n", e; for (size_t k = 0; k < R; ++k) { a[k] = mc::choose(R + 1); b[k] = mc::choose(R + 1); if (a[k] < (int)R) d += std::string("v") + X[k] + " = 10*x" + X[a[k]] + " + " + std::to_string(k) + ";\n"; if (b[k] < (int)R) e += std::string("n") + N[k] + " = v" + X[b[k]] + ";\n"; } d += e;
  mc::op(d); BlockClasses bc(false); bc.registerBlock("Sim").template setClass<UpdArr<R>>(); Parser P("sim", "Sim", bc); std::istringstream is(d); pBlock app = P.parse(is, "the file"); app->evaluateParameters(); auto *bl = UpdArr<R>::last; mc::state(mc::hashStr(d));
  pDependencyMap dm(new DependencyMap(app->getVariables())), dm2(new DependencyMap(app->getVariables())); DependencyUpdater u(dm), u2(dm2); u.addIndependentArray(bl->px); u2.addIndependentArray(bl->px); bool split = mc::flip(); u.addDependentArray(bl->pv); (split ? u2 : u).addDependentArray(bl->pn);
  for (int round = 0; round < 3; ++round) { mc::step(); double xs[R]; for (size_t k = 0; k < R; ++k) bl->x[k] = xs[k] = round * 1.25 + k * 0.5; u.update(); if (split) u2.update();
    auto v = [&](int k) { return a[k] < (int)R ? 10 * xs[a[k]] + k : 0.5; };
    for (size_t k = 0; k < R; ++k) { MC_REQUIRE(bl->x[k] == xs[k], "independent", "component " << k << " of the independent array was changed\n" << d); MC_REQUIRE(bl->v[k] == v(k), "value", "component v" << k << " is " << bl->v[k] << ", expected " << v(k) << "\n" << d); int n = b[k] < (int)R ? (int)v(b[k]) : 7; MC_REQUIRE(bl->n[k] == n, "value", "component n" << k << " is " << bl->n[k] << ", expected " << n << "\n" << d); } }
}
// change the independent variables step by step and update after each change
static void updates(UpdRun &r, int nv, int dep, int indep, bool late) {
  pDependencyMap dm(new DependencyMap(r.app->getVariables())); DependencyUpdater u(dm);
  auto ind = [&] { if (indep & 1) u.addIndependent(r.b->px); if (indep & 2) u.addIndependent(r.b->py); if (indep & 4) u.addIndependent(r.b->pi); };
  if (!late) ind(); std::vector<int> ds; for (int k = 0; k < 7; ++k) if (dep & (1 << k)) ds.push_back(k);
  for (size_t q = 0; q < ds.size(); ++q) { u.addDependent(r.par(ds[q])); if (late && q == 0) u.update(); } if (late) ind();
  u.update(); for (int k : ds) r.check(k, "after the first update");
  double val[3] = {1, 2, 3}; int st = 0;
  for (int round = 0; round < 2; ++round) for (int w = 0; w < 3; ++w) if (indep & (1 << w)) { val[w] = val[w] * 2 - 7 + w + round; r.set(w, val[w]); tickValue += 5; u.update(); for (int k : ds) r.check(k, "after update " + std::to_string(++st)); }
  tickValue += 7; for (int w = 0; w < 3; ++w) if (indep & (1 << w)) r.set(w, val[w] = 10 + w); u.update(); for (int k : ds) r.check(k, "after changing all");
  u.clearDependent(); if (!ds.empty()) { u.addDependent(r.par(ds[0])); for (int k = 0; k < 5; ++k) if (k != ds[0]) r.b->v[k] = 1234.5 + k; r.set(indep & 1 ? 0 : indep & 2 ? 1 : 2, -4); u.update(); r.check(ds[0], "after clearing the dependents"); for (int k = 0; k < 5; ++k) if (k != ds[0]) MC_REQUIRE(r.b->v[k] == 1234.5 + k, "cleared", "the parameter v" << k << ", which is no longer a dependent, was changed by an update\n" << r.deck); }
}
#endif
#if ON(25)
struct Pars : public schnek::Block {
  static std::vector<Pars*> all; int ni, di, roi; double nf, df, rof; std::string nstr, ds, ros; schnek::Array<double, 3> pos; schnek::Array<int, 2> sz; schnek::Array<double, 2> same; static int mask;
  Pars() { all.push_back(this); ni = -77; nf = -77; nstr = "unset"; di = -77; df = -77; ds = "unset"; pos = -77.0; sz = -77; same = -77.; roi = 11; rof = 1.25; ros = "ro"; }
  void initParameters(BlockParameters &p) {
    if (mask & 1) { p.addParameter("ni", &ni); p.addParameter("nf", &nf); p.addParameter("ns", &nstr); }
    if (mask & 2) { p.addParameter("di", &di, 5); p.addParameter("df", &df, 0.5); p.addParameter("ds", &ds, std::string("dflt")); }
    if (mask & 4) { p.addParameter("roi", &roi, BlockParameters::readonly); p.addParameter("rof", &rof, 2.5, BlockParameters::readonly); p.addParameter("ros", &ros, std::string("RO"), BlockParameters::readonly); }
    if (mask & 8) { p.addConstant("ci", 42); p.addConstant("cf", 6.5); p.addConstant("cs", std::string("const")); }
    if (mask & 16) { p.addArrayParameter("pos", pos); p.addArrayParameter("sz", sz, 9, BlockParameters::readwrite, "ab"); p.addArrayParameter("same", same, schnek::Array<double, 2>(1.5, 2.5)); }
  }
};
std::vector<Pars*> Pars::all; int Pars::mask = 31;
static void declare(ref::Blk &b, int mask) {
  auto &v = b.vars; if (mask & 1) { v["ni"] = plainVar(0, false); v["nf"] = plainVar(0.0, false); v["ns"] = plainVar(std::string(), false); }
  if (mask & 2) { v["di"] = plainVar(5); v["df"] = plainVar(0.5); v["ds"] = plainVar(std::string("dflt")); }
  if (mask & 4) { v["roi"] = extVar(0, [] { return Val(11); }); v["rof"] = extVar(1, [] { return Val(2.5); }); v["ros"] = extVar(2, [] { return Val(std::string("RO")); }); }
  if (mask & 8) { v["ci"] = plainVar(42, true, true); v["cf"] = plainVar(6.5, true, true); v["cs"] = plainVar(std::string("const"), true, true); }
  if (mask & 16) { for (const char *n : {"posx", "posy", "posz"}) v[n] = plainVar(0.0, false); v["sza"] = plainVar(9); v["szb"] = plainVar(9); v["samex"] = plainVar(1.5); v["samey"] = plainVar(2.5); }
}
static void parameters(const std::string &deck, int mask) {
  mc::op(deck); Pars::all.clear(); Pars::mask = mask; ref::Interp in; in.root.name = "sim"; in.root.cls = "Sim"; declare(in.root, mask); std::vector<ref::Blk*> blks = {&in.root}; in.onBlock = [&](ref::Blk &b) { if (b.cls == "P") { declare(b, mask); blks.push_back(&b); } };
  auto r = in.run(deck); BlockClasses bc(false); bc.registerBlock("Sim").setClass<Pars>(); bc.registerBlock("P").setClass<Pars>(); Parser Q("sim", "Sim", bc); std::istringstream is(deck); pBlock app; Outcome o = guarded([&] { app = Q.parse(is, "the file"); });
  compareVerdict(deck, o, r); mc::state(mc::hashStr(deck)); if (r.kind) return;
  compareTree(deck, Q.getVariableStorage().getRootBlock(), in.root);
  std::set<std::string> missing; bool fails = false; for (auto *b : blks) { for (auto &kv : b->vars) { if (!kv.second->initialised) missing.insert(kv.first); try { if (kv.second->initialised) kv.second->get(); } catch (ref::EvalError &) { fails = true; } } }
  std::string which; Outcome e; try { e = guarded([&] { try { app->evaluateParameters(); } catch (VariableNotInitialisedException &x) { which = x.getVarName(); throw; } }); } catch (...) { e.kind = Outcome::Other; }
  if (!missing.empty() || fails) { MC_REQUIRE(e.kind == Outcome::Eval, "missing", "a required parameter is missing, but evaluation gives: " << show(e) << "\n" << deck); if (!fails) MC_REQUIRE(missing.count(which), "missing-name", "the error names '" << which << "', which is not missing\n" << deck); return; }
  MC_REQUIRE(e.kind == Outcome::Ok, "evaluate", "evaluating the parameters fails: " << show(e) << "\n" << deck); MC_REQUIRE(Pars::all.size() == blks.size(), "blocks", "number of blocks " << deck);
  for (size_t k = 0; k < blks.size(); ++k) {
    Pars &p = *Pars::all[k]; std::map<std::string, Val> got; if (mask & 1) { got["ni"] = p.ni; got["nf"] = p.nf; got["ns"] = p.nstr; } if (mask & 2) { got["di"] = p.di; got["df"] = p.df; got["ds"] = p.ds; } if (mask & 16) { got["posx"] = p.pos[0]; got["posy"] = p.pos[1]; got["posz"] = p.pos[2]; got["sza"] = p.sz[0]; got["szb"] = p.sz[1]; got["samex"] = p.same[0]; got["samey"] = p.same[1]; }
    for (auto &g : got) { Val w = blks[k]->vars[g.first]->get(); MC_REQUIRE(ref::same(g.second, w), "value", "member for parameter " << g.first << " of block " << k << " is " << ref::show(g.second) << ", expected " << ref::show(w) << "\n" << deck); }
    if (mask & 4) MC_REQUIRE(p.roi == 11 && p.rof == 2.5 && p.ros == "RO", "readonly", "evaluation changed a read-only member\n" << deck);
    if (!(mask & 1)) MC_REQUIRE(p.ni == -77 && p.nf == -77 && p.nstr == "unset", "untouched", "evaluation changed a member that is no parameter");
  }
}
#endif
#if ON(25)
// array parameters: every way of giving defaults, permissions, suffixes, rank and element type; every subset of components assigned
template<class T> T avalue(int i); template<> int avalue<int>(int i) { return 10 + 3 * i; } template<> double avalue<double>(int i) { return 10.25 + 3 * i; } template<> std::string avalue<std::string>(int i) { return "v" + std::to_string(i); }
static std::string lit(int i) { return std::to_string(i); } static std::string lit(double d) { std::ostringstream o; o << d; return o.str(); } static std::string lit(std::string x) { return "\"" + x + "\""; }
template<class T, size_t R> struct ArrBlock : public schnek::Block {
  static ArrBlock *last; static int dflt, perm, ext; schnek::Array<T, R> v; schnek::Array<pParameter, R> pars; T probe; pParameter pp; ArrBlock() { last = this; for (size_t i = 0; i < R; ++i) v[i] = avalue<T>(50 + i); }
  void initParameters(BlockParameters &p) {
    auto pm = perm ? BlockParameters::readonly : BlockParameters::readwrite; schnek::Array<T, R> d; for (size_t i = 0; i < R; ++i) d[i] = avalue<T>(20 + i);
    if (ext) { std::string x = "pqrs"; if (dflt == 0) pars = p.addArrayParameter("v", v, pm, x); else if (dflt == 1) pars = p.addArrayParameter("v", v, avalue<T>(30), pm, x); else pars = p.addArrayParameter("v", v, d, pm, x); }
    else { if (dflt == 0) pars = p.addArrayParameter("v", v, pm); else if (dflt == 1) pars = p.addArrayParameter("v", v, avalue<T>(30), pm); else pars = p.addArrayParameter("v", v, d, pm); }
    pp = p.addParameter("probe", &probe, avalue<T>(0));
  }
};
template<class T, size_t R> ArrBlock<T, R> *ArrBlock<T, R>::last = nullptr; template<class T, size_t R> int ArrBlock<T, R>::dflt = 0; template<class T, size_t R> int ArrBlock<T, R>::perm = 0; template<class T, size_t R> int ArrBlock<T, R>::ext = 0;
template<class T, size_t R> void arrays(const std::string &tn) {
  for (int dflt = 0; dflt < 3; ++dflt) for (int perm = 0; perm < 2; ++perm) for (int ext = 0; ext < 2; ++ext) mc::add("P25.array/" + tn + std::to_string(R) + "/" + std::to_string(dflt) + std::to_string(perm) + std::to_string(ext), [=] {
    typedef ArrBlock<T, R> B; B::dflt = dflt; B::perm = perm; B::ext = ext; std::string suf = ext ? "pqrs" : "xyzu"; int set = mc::choose(1 << R), probe = mc::choose((int)R + 1); std::string d; for (size_t i = 0; i < R; ++i) if (set >> i & 1) d += "v" + std::string(1, suf[i]) + " = " + lit(avalue<T>(i)) + ";\n"; if (probe < (int)R) d += "probe = v" + std::string(1, suf[probe]) + ";\n"; d += "int z = 1;"; mc::op(d);
    BlockClasses bc(false); bc.registerBlock("Sim").template setClass<B>(); Parser P("sim", "Sim", bc); std::istringstream is(d); pBlock app; Outcome o = guarded([&] { app = P.parse(is, "the file"); }); mc::state(mc::hashStr(d) + dflt * 4 + perm * 2 + ext);
    if (perm && set) { MC_REQUIRE(o.kind == Outcome::Parse, "readonly", "assigning a component of a read-only array gives " << show(o) << "\n" << d); return; } MC_REQUIRE(o.kind == Outcome::Ok, "accepted", show(o) << "\n" << d);
    auto want = [&](size_t i) { return set >> i & 1 ? avalue<T>(i) : dflt == 1 ? avalue<T>(30) : dflt == 2 ? avalue<T>(20 + i) : avalue<T>(50 + i); }; Outcome e; bool other = false; try { e = guarded([&] { app->evaluateParameters(); }); } catch (...) { other = true; }
    bool missing = !perm && dflt == 0 && set != (1 << R) - 1; if (missing) { MC_REQUIRE(!other && e.kind == Outcome::Eval, "missing", "a component without value is not reported: " << show(e) << "\n" << d); return; } MC_REQUIRE(!other && e.kind == Outcome::Ok, "evaluate", show(e) << "\n" << d);
    for (size_t i = 0; i < R; ++i) MC_REQUIRE(B::last->v[i] == want(i), "component", "component " << i << " is " << B::last->v[i] << ", expected " << want(i) << "\n" << d); if (probe < (int)R) MC_REQUIRE(B::last->probe == want(probe), "probe", "a parameter defined by component " << probe << " is " << B::last->probe << ", expected " << want(probe) << "\n" << d);
    // the parameters returned belong to the components in order
    auto vars = B::last->getLocalVariables(); for (size_t i = 0; i < R; ++i) MC_REQUIRE(B::last->pars[i] && B::last->pars[i]->getVariable()->getId() == vars->getVariable("v" + std::string(1, suf[i]))->getId(), "handle", "parameter handle " << i);
    if (perm) { pDependencyMap dm(new DependencyMap(app->getVariables())); DependencyUpdater u(dm); for (size_t i = 0; i < R; ++i) u.addIndependent(B::last->pars[i]); u.addDependent(B::last->pp); for (size_t i = 0; i < R; ++i) { B::last->v[i] = avalue<T>(70 + i); u.update(); if (probe < (int)R) MC_REQUIRE(B::last->probe == (probe <= (int)i ? avalue<T>(70 + probe) : want(probe)), "follow", "a parameter defined by component " << probe << " does not follow it\n" << d); } } });
}
#endif
#if ON(27) || ON(28) || ON(29)
// all ordered trees: parent[i] < i, children of a node in index order
static std::vector<int> tree(int n) { std::vector<int> p(n, -1); std::vector<int> path = {0}; for (int i = 1; i < n; ++i) { int k = mc::choose((int)path.size()); p[i] = path[k]; path.resize(k + 1); path.push_back(i); } return p; }
static std::string deckOf(const std::vector<int> &p, int node, const std::function<std::string(int)> &head, const std::function<std::string(int)> &body) { std::string s = node ? head(node) + " {\n" : ""; s += body(node); for (size_t i = node + 1; i < p.size(); ++i) if (p[i] == node) s += deckOf(p, i, head, body); return s + (node ? "}\n" : ""); }
#endif
#if ON(27)
static std::vector<std::string> evlog; static bool lateData;
struct Life : public schnek::Block {
  static std::map<std::string, Life*> by; int a; int own; int *seen[4]; Life() : a(-1), own(0) {}
  void initParameters(BlockParameters &p) { by[getName()] = this; p.addParameter("a", &a, 0); evlog.push_back(getName() + " initParameters"); }
  void ev(const char *w) { evlog.push_back(getName() + " " + w + " a=" + std::to_string(a)); }
  void registerData() { ev("registerData"); addData("d" + getName(), own); }
  void look(const char *w) { for (auto &b : by) { if (by.size() > 20 && b.second != this) continue; int *p = nullptr; try { retrieveData("d" + b.first, p); } catch (SchnekException &) {} MC_REQUIRE(p == &b.second->own, "data", "in " << w << " of " << getName() << " the data of " << b.first << " is not available"); } }
  void preInit() { ev("preInit"); look("preInit"); } void init() { ev("init"); look("init"); } void postInit() { ev("postInit"); look("postInit"); }
};
std::map<std::string, Life*> Life::by;
#endif
#if ON(28)
static int aliveBlocks = 0;
struct AnyBlock { AnyBlock() { ++aliveBlocks; } virtual ~AnyBlock() { --aliveBlocks; } virtual std::string nm() = 0; virtual std::list<pBlock> kids() = 0; virtual Toks listed() = 0; };
struct KA; struct KB; static std::vector<AnyBlock*> made; static std::vector<schnek::Block*> madeBlocks; static std::vector<std::string> madeNames;
struct Root : public schnek::Block, public BlockContainer<KA>, public BlockContainer<KB>, public AnyBlock { Root() { made.push_back(this); madeBlocks.push_back(this); } std::string nm() { return getName(); } std::list<pBlock> kids() { return getChildren(); } Toks listed(); };
struct KA : public ChildBlock<KA>, public BlockContainer<KB>, public AnyBlock { KA() { made.push_back(this); madeBlocks.push_back(this); } std::string nm() { return getName(); } std::list<pBlock> kids() { return getChildren(); } Toks listed(); };
struct KB : public ChildBlock<KB>, public BlockContainer<KA>, public AnyBlock { KB() { made.push_back(this); madeBlocks.push_back(this); } std::string nm() { return getName(); } std::list<pBlock> kids() { return getChildren(); } Toks listed(); };
struct KA2 : public KA {};
template<class C, class O> static void lst(O *o, const char *tag, Toks &out, std::function<size_t()> num, std::function<typename BlockContainer<C>::iterator_range()> rng) { size_t n = 0; for (auto c : rng()) { out.push_back(std::string(tag) + c->getName()); ++n; } MC_REQUIRE(num() == n, "container-count", "numChildren() is " << num() << " for " << n << " children"); }
Toks Root::listed() { Toks t; lst<KA>(this, "A:", t, [this] { return BlockContainer<KA>::numChildren(); }, [this] { return BlockContainer<KA>::childBlocks(); }); lst<KB>(this, "B:", t, [this] { return BlockContainer<KB>::numChildren(); }, [this] { return BlockContainer<KB>::childBlocks(); }); return t; }
Toks KA::listed() { Toks t; lst<KB>(this, "B:", t, [this] { return BlockContainer<KB>::numChildren(); }, [this] { return BlockContainer<KB>::childBlocks(); }); return t; }
Toks KB::listed() { Toks t; lst<KA>(this, "A:", t, [this] { return BlockContainer<KA>::numChildren(); }, [this] { return BlockContainer<KA>::childBlocks(); }); return t; }
#endif
#if ON(29)
struct Share : public schnek::Block { static std::vector<Share*> all; int i1, i2; double d; int *pp; std::shared_ptr<int> sp; Share() { all.push_back(this); pp = &i2; } };
std::vector<Share*> Share::all;
struct Entry { int node; std::string key; int kind; };     // kind 0: int, 1: pointer to int
struct Look { enum { None, One, Many } r; int node; };
static Look refFind(const std::vector<int> &par, const Toks &names, const std::vector<Entry> &es, int kind, int n, const std::string &key, bool up) {
  for (auto &e : es) if (e.node == n && e.key == key && e.kind == kind) return {Look::One, n};
  auto dot = key.find('.'); if (dot != std::string::npos) { int c = 0; Look f{Look::None, -1}; for (size_t k = n + 1; k < par.size(); ++k) if (par[k] == n && names[k] == key.substr(0, dot)) { Look l = refFind(par, names, es, kind, k, key.substr(dot + 1), false); if (l.r == Look::Many) return l; if (l.r == Look::One) { ++c; f = l; } } if (c > 1) return {Look::Many, -1}; if (c == 1) return f; }
  if (up && par[n] >= 0) return refFind(par, names, es, kind, par[n], key, true);
  int c = 0; Look f{Look::None, -1}; for (size_t k = n + 1; k < par.size(); ++k) if (par[k] == n) { Look l = refFind(par, names, es, kind, k, key, false); if (l.r == Look::Many) return l; if (l.r == Look::One) { ++c; f = l; } }
  if (c > 1) return {Look::Many, -1}; return f;
}
static std::string wrapped(const std::vector<int> &p, const Toks &names, int node) { std::string s = node ? "Group g" + std::to_string(node) + " {\nS " + names[node] + " {\n" : ""; for (size_t i = node + 1; i < p.size(); ++i) if (p[i] == node) s += wrapped(p, names, i); return s + (node ? "}\n}\n" : ""); }
static void sharing(const std::vector<int> &par, const Toks &names, const std::vector<Entry> &es, const Toks &keys, bool wrap = false) {   // wrap: blocks inside blocks without implementation, so that children may share a name
  int n = par.size(); Share::all.clear(); std::string deck = wrap ? wrapped(par, names, 0) : deckOf(par, 0, [&](int i) { return "S " + names[i]; }, [](int i) { return std::string(); }); BlockClasses bc(false); bc.registerBlock("Sim").setClass<Share>(); bc.registerBlock("S").setClass<Share>(); Parser P("sim", "Sim", bc); pBlock app;
  std::ostringstream what; what << deck; for (auto &e : es) what << " " << names[e.node] << "#" << e.node << ":" << e.key << (e.kind ? "*" : ""); mc::op(what.str());
  if (n == 1) deck = "int dummy = 0;"; std::istringstream is(deck); app = P.parse(is); MC_REQUIRE((int)Share::all.size() == n, "blocks", "number of blocks");
  for (auto &e : es) { if (e.kind) Share::all[e.node]->addData(e.key, Share::all[e.node]->pp); else Share::all[e.node]->addData(e.key, Share::all[e.node]->i1); }
  mc::state(mc::hashStr(what.str()));
  for (int from = 0; from < n; ++from) for (auto &key : keys) {
    std::ostringstream at; at << "key '" << key << "' from " << names[from] << "#" << from << " in " << what.str();
    { Look w = refFind(par, names, es, 1, from, key, true); if (w.r == Look::None) w = refFind(par, names, es, 0, from, key, true), w.node = w.r == Look::One ? w.node : -1; bool viaPtr = refFind(par, names, es, 1, from, key, true).r == Look::One;
      int *p = nullptr; int res = 1; try { Share::all[from]->retrieveData(key, p); } catch (DuplicateVariableException &) { res = 2; } catch (VariableNotFoundException &) { res = 0; }
      MC_REQUIRE(res == (w.r == Look::None ? 0 : w.r == Look::Many ? 2 : 1), "outcome", (res == 0 ? "not found: " : res == 1 ? "found: " : "ambiguous: ") << at.str());
      if (res == 1) MC_REQUIRE(p == (viaPtr ? &Share::all[w.node]->i2 : &Share::all[w.node]->i1), "which", "wrong object returned for " << at.str()); }
    { Look w = refFind(par, names, es, 0, from, key, true); for (int k = 0; k < n; ++k) Share::all[k]->i1 = 100 + k; int v = -1, res = 1; try { Share::all[from]->retrieveData(key, v); } catch (DuplicateVariableException &) { res = 2; } catch (VariableNotFoundException &) { res = 0; }
      MC_REQUIRE(res == (w.r == Look::None ? 0 : w.r == Look::Many ? 2 : 1), "outcome", (res == 0 ? "not found (by value): " : res == 1 ? "found (by value): " : "ambiguous (by value): ") << at.str()); if (res == 1) MC_REQUIRE(v == 100 + w.node, "which", "wrong value " << v << " for " << at.str()); }
    { double *p = nullptr; bool found = true; try { Share::all[from]->retrieveData(key, p); } catch (VariableNotFoundException &) { found = false; } MC_REQUIRE(!found, "type", "data of another type returned for " << at.str()); }
  }
}
#endif
void mc_register() {
  bool t = mc::thorough(); (void)t;
#if ON(24)
  // every dependency graph over three variables, every order of definition, every choice of dependents and independents
  static const std::vector<Toks> EXPR = {{"x", "y + 1", "v1 + 1", "v2*2", "v1 - v2", "tick()", "1.5", "x*v2", "v1 + y"}, {"y", "x - 2", "v0 + 1", "v2*2", "v0 - v2", "v2 + tick()", "2.5", "i*v2", "v0 + v0"}, {"x + y", "i", "v0 + 1", "v1*2", "v0 - v1", "same(v0)", "3.5", "y*v1", "same(v0 + tick())"}};
  static const std::vector<std::vector<int>> PERM = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}};
  for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) mc::add("P24.graph/" + std::to_string(a) + std::to_string(b), [=] {
    int c = mc::choose(9); const auto &perm = PERM[mc::choose(6)]; const std::string e[3] = {EXPR[0][a], EXPR[1][b], EXPR[2][c]}; std::string d = "v0 = x; v1 = x; v2 = x;\n"; for (int k : perm) d += "v" + std::to_string(k) + " = " + e[k] + ";\n";
    int dep = 1 + mc::choose(7), mode = mc::choose(t ? 8 : 3); UpdRun r; if (!r.parse(d)) return; static const int IND[] = {7, 1, 6, 2, 4, 3, 5, 7}; updates(r, 3, dep, IND[mode], mode == 7 || mode == 2); });
  // longer chains through local variables, blocks, conversions, functions; dependents of every type
  static const Toks L = {"float l0 = x;", "float l0 = y*2;", "int l0 = i;", "float l1 = l0 + 1;", "float l1 = same(l0) - y;", "string l1 = l0;", "B b { float z = l0 - x; float u = z*z; }", "float l2 = b:u + l0;", "v0 = l1;", "v0 = l0;", "v1 = v0 + l0;", "v1 = b:z;", "w = v0;", "w = l0 + i;", "s = v0;", "s = \"a\" + w;", "v2 = w;", "v3 = v1 - v2;", "v2 = tick();", "v0 = v2 + 1;"};
  for (size_t f = 0; f < 3; ++f) for (size_t g = 3; g < 10; ++g) mc::add("P24.chain/" + std::to_string(f) + "." + std::to_string(g), [=] {
    std::string d = L[f] + "\n" + L[g] + "\n"; size_t last = g; int n = t ? 5 : 4; for (int k = 0; k < n; ++k) { int c = mc::choose((int)(L.size() - last)); if (c == 0) break; last += c; d += L[last] + "\n"; }
    int indep = mc::pick(std::vector<int>{7, 1, 6}); UpdRun r; if (!r.parse(d)) return; updates(r, 4, 127, indep, mc::flip()); });
  // every way a definition can mention what it depends on: each variable only reachable through one place of the formula
  static const Toks TM = {"p", "q", "r", "2.5", "p*q", "q*p", "(q - p)", "-(r + q)", "two(p, q)", "two(1.5, r)", "same(q)", "q^2", "p*(q + r)", "b:z", "p*b:z"};
  for (size_t f = 0; f < TM.size(); ++f) mc::add("P24.formula/" + std::to_string(f), [=] {
    std::string e = TM[f]; int n = 1 + mc::choose(2); for (int k = 0; k < n; ++k) { std::string o = mc::pick(Toks{" + ", " - ", "*"}); e += o + mc::pick(TM); }
    int kind = mc::choose(t ? 4 : 2); std::string d = "float p = x + 1; float q = y*2; int r = i; B b { float z = x - y; }\n" + std::string(kind == 0 ? "v0 = " + e + ";" : kind == 1 ? "float l = " + e + "; v0 = l + 1;" : kind == 2 ? "v0 = two(1, " + e + ");" : "v1 = " + e + "; v0 = v1*2;");
    UpdRun r; if (!r.parse(d)) return; updates(r, 1, 1, 7, mc::flip()); });
  // histories of registrations, changes and updates
  static const Toks DK = {"v0 = x + y; v1 = v0*i; v2 = x; v3 = 4.5; w = v1; s = v2;", "float l = x - i; v0 = l*l; v1 = y; v2 = v0 + v1; v3 = tick() + l; w = i; s = l;", "v3 = x; v2 = v3 + 1; v1 = v2 + 1; v0 = v1 + y; w = v0; s = tick();"};
  for (int k = 0; k < 3; ++k) for (int first = 0; first < 9; ++first) mc::add("P24.history/" + std::to_string(k) + std::to_string(first), [=] {
    UpdRun r; r.parse(DK[k]); pDependencyMap dm(new DependencyMap(r.app->getVariables())); DependencyUpdater u(dm), u2(dm); std::set<int> ds; for (auto p : {r.b->px, r.b->py, r.b->pi}) u2.addIndependent(p); for (int q = 0; q < 7; ++q) u2.addDependent(r.par(q));
    int reg = 0; bool clean[3] = {true, true, true}; int depth = t ? 6 : k == 1 ? 5 : 4; int cnt = 0;
    for (int s = 0; s < depth; ++s) { int op = s == 0 ? first : mc::choose(9); ++cnt; mc::step();
      switch (op) { case 0: case 1: case 2: { mc::op("independent " + std::to_string(op)); reg |= 1 << op; u.addIndependent(op == 0 ? r.b->px : op == 1 ? r.b->py : r.b->pi); break; }
        case 3: case 4: { int q = op == 3 ? mc::choose(3) : 4 + mc::choose(2); if (op == 4) ++q; mc::op("dependent " + std::to_string(q)); u.addDependent(r.par(q)); ds.insert(q); break; }
        case 5: { int w = mc::choose(3); mc::op("change " + std::to_string(w)); r.set(w, 20 + cnt * 3 + w); tickValue += 3; clean[w] = false; break; }
        case 6: { mc::op("update"); u.update(); bool ok = true; for (int w = 0; w < 3; ++w) if (!clean[w] && !(reg & (1 << w))) ok = false; if (ok) for (int q : ds) if (!r.in.root.vars[q < 5 ? "v" + std::to_string(q) : q == 5 ? "w" : "s"]->fixed) r.check(q, "in a history"); break; }
        case 7: { mc::op("updateAll"); dm->updateAll(); clean[0] = clean[1] = clean[2] = true; break; }
        case 8: { if (mc::flip()) { mc::op("other updater"); u2.update(); for (int q = 0; q < 7; ++q) r.check(q, "by the other updater"); clean[0] = clean[1] = clean[2] = true; } else { mc::op("clear dependents"); u.clearDependent(); ds.clear(); } break; } } } });
  mc::add("P24.arrays/1", [] { arrays<1>(); }); mc::add("P24.arrays/2", [] { arrays<2>(); }); mc::add("P24.arrays/3", [] { arrays<3>(); });
  mc::add("P24.recreate", [=] { UpdRun r; r.parse(DK[mc::choose(3)]); pDependencyMap dm(new DependencyMap(r.app->getVariables())); int n = mc::choose(3); for (int q = 0; q < n; ++q) dm->recreate(); DependencyUpdater u(dm); for (auto p : {r.b->px, r.b->py, r.b->pi}) u.addIndependent(p); for (int q = 0; q < 7; ++q) u.addDependent(r.par(q)); if (mc::flip()) dm->updateAll(); r.set(mc::choose(3), 33); tickValue = 9; u.update(); for (int q = 0; q < 7; ++q) r.check(q, "after recreating the map"); });
#endif
#if ON(25)
  static const Toks A = {"ni = 3;", "ni = 2.75;", "nf = 1;", "nf = rof*2;", "ns = \"t\";", "ns = ci;", "di = ci - 40;", "df = cf;", "df = di;", "ds = cs;", "ds = \"x\" + di;", "roi = 3;", "rof = 1.0;", "rof = 2*rof;", "roi = roi;", "ros = ros;", "cf = rof;", "ci = roi;", "ci = 1;", "cs = \"n\";", "ni = roi + 1;", "ns = ros;", "posx = 1; posy = 2.5; posz = rof;", "posx = 4.5;", "sza = 4;", "szb = sza + roi;", "samey = posx;", "ni = \"17\";", "di = \"bad\";", "int loc = di + 1; di = loc*2;", "nf = ni;"};
  for (size_t f = 0; f < A.size(); ++f) mc::add("P25.assign/" + std::to_string(f), [=] { std::string d = A[f] + "\n"; int n = mc::choose(t ? 4 : 3); for (int i = 0; i < n; ++i) d += mc::pick(A) + "\n"; parameters(d, mc::choose(2) ? 31 : 30); });
  // conversion of every kind of value to every type of parameter, as a literal, computed, and at evaluation time
  mc::add("P25.convert", [=] { static const Toks V = {"0", "7", "-1", "-2000000000", "2147483647", "0.5", "-0.5", "1.5", "-1.5", "2.75", "-2.75", "-3.0", "1.9999999", "-1.9999999", "123456.75", "-1e-9", "2e9", "\"17\"", "\"-3\"", "\"2.5\"", "\"-2.5\"", "\"abc\"", "\"\""}, TG = {"ni", "di", "nf", "df", "ns", "ds", "posx", "sza"}, W = {"%", "(%)", "% + 0", "% + 0.0", "0*roi + %", "0*rof + %", "% + \"\"", "ros + %", "floor(rof)*0 + %"};
    std::string tg = mc::pick(TG), v = mc::pick(V), w = mc::pick(W); size_t at = w.find('%'); parameters(tg + " = " + w.substr(0, at) + v + w.substr(at + 1) + ";\n", 30 | (tg[0] == 'n')); });
  // required parameters: every subset given, in the root and in child blocks
  mc::add("P25.required", [=] { static const Toks R = {"ni = 1;", "nf = 2.5;", "ns = \"q\";", "posx = 1.0;", "posy = 2;", "posz = 3.0;"}; std::string d, e; for (auto &r : R) if (mc::flip()) d += r + "\n"; int k = mc::choose(7); for (int i = 0; i < 6; ++i) if (i != k) e += R[i] + "\n"; switch (mc::choose(3)) { case 0: parameters(d + "int z = 1;", 31); break; case 1: parameters(e + "P a {\n" + d + "}\n", 31); break; default: parameters(e + "P a { " + e + "}\nP b {\n" + d + "P c { " + e + " } }\n", 31); } });
  // parameters of nested blocks hide those of the enclosing blocks; paths reach them from outside
  static const Toks N = {"P a {", "P b {", "Q g {", "}", "di = 8;", "df = di;", "di = di + 1;", "df = a:df;", "a:di = 77;", "int loc = 4;", "df = loc;", "a:b:di = di;"};
  for (size_t f = 0; f < N.size(); ++f) for (size_t g = 0; g < N.size(); ++g) mc::add("P25.nested/" + std::to_string(f) + "." + std::to_string(g), [=] { std::string d; int open = 0; auto st = [&](int i) { d += N[i] + "\n"; if (i < 3) ++open; if (i == 3) --open; return open >= 0; }; if (!st(f) || !st(g)) return; int n = mc::choose(t ? 4 : 3); for (int i = 0; i < n; ++i) if (!st(mc::choose((int)N.size()))) return; parameters(d + std::string(open, '}'), 30); });
  arrays<int, 1>("int"); arrays<int, 3>("int"); arrays<double, 2>("double"); arrays<double, 4>("double"); arrays<std::string, 2>("string");
  mc::add("P25.duplicate", [=] {   // a name can be registered once per block
    BlockParameters bp; pBlockVariables up(new BlockVariables("u", "U", pBlockVariables())), bv(new BlockVariables("b", "B", up)); BlockParameters ub; ub.setContext(up); bp.setContext(bv); static double x[8], ux; static Array<double, 2> v[4]; ub.addParameter("ax", &ux, 9.0);
    std::map<std::string, double> first; std::string log; for (int k = 0; k < 3; ++k) { int kind = mc::choose(5); std::string nm = mc::flip() ? "ax" : "b"; double val = 10 * (k + 1); x[k] = -1; v[k] = -1.0; log += nm + " as " + std::to_string(kind) + "; "; mc::op("register " + nm + " as " + std::to_string(kind)); mc::step();
      Toks names = {nm}; if (kind == 4) names = {"ax", "ay"}; bool dup = false; for (auto &m : names) dup |= first.count(m) > 0; bool threw = false;
      try { switch (kind) { case 0: bp.addParameter(nm, x + k, val); break; case 1: bp.addParameter(nm, x + k, val, BlockParameters::readonly); break; case 2: bp.addConstant(nm, val); break; case 3: { pParametersGroup g(new ParametersGroup()); bp.addParameter(nm, x + k, g, true, val); break; } default: { Array<double, 2> d(val, val + 1); bp.addArrayParameter("a", v[k], d); } } } catch (DuplicateVariableException &) { threw = true; }
      MC_REQUIRE(threw == dup, "duplicate", "registering " << log << (threw ? "is refused" : "is accepted although the name is taken")); double add = 0; for (auto &m : names) { if (!first.count(m)) { if (dup) return; first[m] = val + add; } add += 1; }   // (an array that is refused half way: no statement)
    }
    bp.evaluate(); for (auto &f : first) { pVariable w = bv->getVariable(f.first); double got = boost::get<double>(w->isConstant() ? w->getValue() : w->evaluateExpression()); MC_REQUIRE(got == f.second, "value", "after " << log << "the parameter " << f.first << " is " << got << " expected " << f.second); } mc::state(mc::hashStr(log)); });
  mc::add("P25.group", [=] {   // parameter groups
    Pars::all.clear(); Pars::mask = 31; BlockParameters bp; pBlockVariables bv(new BlockVariables("b", "B", pBlockVariables())); bp.setContext(bv); double a, b, c, d; pParameter p[4] = {bp.addParameter("a", &a), bp.addParameter("b", &b), bp.addParameter("c", &c), bp.addParameter("d", &d)};
    ParametersGroup g; int in = mc::choose(16), ask = mc::choose(16); for (int i = 0; i < 4; ++i) if (in >> i & 1) { if (mc::flip()) g.add(p[i]); else g.add(p[i]->getVariable()); }
    int assigned = mc::choose(16); for (int i = 0; i < 4; ++i) if (assigned >> i & 1) { mc::step(); if (i % 2) *p[i]->getVariable() = Variable(4.5); else *p[i]->getVariable() = Variable(pFloatExpression(new Value<double>(2.5))); }   // as the setup file does
    std::set<long> ids, rest; for (int i = 0; i < 4; ++i) { MC_REQUIRE(g.isElement(p[i]) == (bool)(in >> i & 1) && g.isElement(p[i]->getVariable()) == (bool)(in >> i & 1), "element", "membership of parameter " << i << " of group " << in << " after assigning " << assigned); if (ask >> i & 1) { ids.insert(p[i]->getVariable()->getId()); if (!(in >> i & 1)) rest.insert(p[i]->getVariable()->getId()); } }
    bool has = g.hasElements(ids); MC_REQUIRE(has == rest.empty() && ids == rest, "has-elements", "hasElements for group " << in << " and set " << ask); mc::state((in * 16 + ask) * 16 + assigned); });
#endif
#if ON(27)
  for (int n = 1; n <= (t ? 7 : 6); ++n) for (int withLocal = 0; withLocal < 2; ++withLocal) mc::add("P27.tree" + std::to_string(n) + (withLocal ? "/plain" : "/all"), [=] {
    std::vector<int> p = tree(n); std::vector<bool> real(n, true); if (withLocal) for (int i = 1; i < n; ++i) real[i] = mc::flip(); int from = mc::choose(n); if (!real[from]) return; int given = mc::choose(2);
    auto nm = [](int i) { return i ? "n" + std::to_string(i) : std::string("sim"); };
    std::string deck = deckOf(p, 0, [&](int i) { return (real[i] ? "L " : "Group ") + nm(i); }, [&](int i) { return real[i] && given ? "a = " + std::to_string(10 + i) + ";\n" : std::string(""); }); if (deck.empty()) deck = "int z = 1;"; mc::op(deck + "initAll on " + nm(from));
    evlog.clear(); Life::by.clear(); BlockClasses bc(false); bc.registerBlock("Sim").setClass<Life>(); bc.registerBlock("L").setClass<Life>(); Parser P("sim", "Sim", bc); std::istringstream is(deck); pBlock app = P.parse(is); Life::by[from ? nm(from) : "sim"]->initAll();
    Toks want; for (int i = 0; i < n; ++i) if (real[i]) want.push_back(nm(i) + " initParameters"); for (const char *w : {"registerData", "preInit", "init", "postInit"}) for (int i = 0; i < n; ++i) if (real[i]) want.push_back(nm(i) + " " + w + " a=" + std::to_string(given ? 10 + i : 0));
    std::string diff; for (size_t i = 0; i < std::max(want.size(), evlog.size()); ++i) { std::string a = i < evlog.size() ? evlog[i] : "(nothing)", b = i < want.size() ? want[i] : "(nothing)"; if (a != b) { diff = "call " + std::to_string(i) + " is '" + a + "', expected '" + b + "'"; break; } }
    MC_REQUIRE(diff.empty(), "order", diff << "\n" << deck << "initAll on " << nm(from)); mc::state(mc::hashStr(deck + nm(from))); });
  // no limit on the depth, the number of children or the size of the file
  mc::add("P27.long", [=] {
    static const std::vector<int> NS = {2, 7, 30, 99, 100, 101, 102, 150, 260}; int n = mc::pick(NS), kind = mc::choose(3); std::vector<int> p(n, -1); for (int i = 1; i < n; ++i) p[i] = kind == 0 ? i - 1 : kind == 1 ? 0 : i % 2 ? i - (i > 1 ? 2 : 1) : i - 1; auto nm = [](int i) { return i ? "n" + std::to_string(i) : std::string("sim"); };
    std::vector<std::vector<int>> kids(n); for (int i = 1; i < n; ++i) kids[p[i]].push_back(i); std::string deck; std::vector<int> order; std::function<void(int)> out = [&](int i) { order.push_back(i); if (i) deck += "L " + nm(i) + " {\na = " + std::to_string(10 + i) + ";\n"; for (int k : kids[i]) out(k); if (i) deck += "}\n"; }; out(0); mc::op("shape " + std::to_string(kind) + " with " + std::to_string(n) + " blocks");
    evlog.clear(); Life::by.clear(); BlockClasses bc(false); bc.registerBlock("Sim").setClass<Life>(); bc.registerBlock("L").setClass<Life>(); Parser P("sim", "Sim", bc); std::istringstream is("a = 10;\n" + deck); pBlock app = P.parse(is); app->initAll();
    std::vector<std::string> want; for (int i : order) want.push_back(nm(i) + " initParameters"); for (const char *w : {"registerData", "preInit", "init", "postInit"}) for (int i : order) want.push_back(nm(i) + " " + w + " a=" + std::to_string(10 + i));
    for (size_t i = 0; i < std::max(want.size(), evlog.size()); ++i) { std::string x = i < evlog.size() ? evlog[i] : "(nothing)", y = i < want.size() ? want[i] : "(nothing)"; MC_REQUIRE(x == y, "order", "call " << i << " is '" << x << "', expected '" << y << "' in shape " << kind << " with " << n << " blocks"); } mc::state(n * 3 + kind); });
#endif
#if ON(28)
  // block trees with and without block classes: objects, parents, children and containers follow the file
  for (int n = 2; n <= (t ? 6 : 5); ++n) for (int rootReal = 0; rootReal < 2; ++rootReal) for (int k1 = 0; k1 < 4; ++k1) mc::add("P28.tree" + std::to_string(n) + (rootReal ? "/root" : "/noroot") + "/" + std::to_string(k1), [=] {
    std::vector<int> p = tree(n); std::vector<int> kind(n, 0); kind[1] = k1; for (int i = 2; i < n; ++i) kind[i] = mc::choose(4); static const char *CL[] = {"KA", "KB", "Group", "KA2"}; bool unnamed = mc::flip();
    auto nm = [&](int i) { return i == 0 ? std::string("sim") : unnamed ? std::string(CL[kind[i]]) : "n" + std::to_string(i); }; std::string deck = deckOf(p, 0, [&](int i) { return unnamed ? std::string(CL[kind[i]]) : CL[kind[i]] + (" " + nm(i)); }, [](int) { return std::string(); }); mc::op(deck);
    for (int i = 1; i < n; ++i) for (int j = i + 1; j < n; ++j) if (p[i] == p[j] && nm(i) == nm(j)) return;      // duplicate names are another scenario
    if (!rootReal) { int tops = 0; for (int i = 1; i < n; ++i) if (kind[i] != 2) { int a = p[i]; while (a > 0 && kind[a] == 2) a = p[a]; if (a <= 0) ++tops; } if (tops > 1) return; }   // without a root object only one outermost block is meaningful
    made.clear(); madeBlocks.clear(); BlockClasses bc(false); if (rootReal) bc.registerBlock("Sim").setClass<Root>(); bc.registerBlock("KA").setClass<KA>(); bc.registerBlock("KB").setClass<KB>(); bc.registerBlock("KA2").setClass<KA2>(); int before = aliveBlocks; pBlock app; { Parser P("sim", "Sim", bc); std::istringstream is(deck); app = P.parse(is, "the file"); }
    auto real = [&](int i) { return i == 0 ? rootReal == 1 : kind[i] != 2; }; std::vector<int> idx; for (int i = 0; i < n; ++i) if (real(i)) idx.push_back(i);
    MC_REQUIRE(made.size() == idx.size(), "created", made.size() << " blocks were created, expected " << idx.size() << "\n" << deck); mc::state(mc::hashStr(deck + (rootReal ? "r" : "n")));
    if (idx.empty()) { MC_REQUIRE(!app, "root", "a root block without class is an object"); return; } MC_REQUIRE(app.get() == madeBlocks[0], "root", "parse() does not return the outermost first block\n" << deck);
    std::map<int, int> pos; for (size_t k = 0; k < idx.size(); ++k) pos[idx[k]] = k; app->initAll();
    for (size_t k = 0; k < idx.size(); ++k) {
      int i = idx[k], a = p[i]; while (a >= 0 && !real(a)) a = p[a]; MC_REQUIRE(made[k]->nm() == nm(i), "name", "block " << i << " is called '" << made[k]->nm() << "'\n" << deck);
      schnek::Block *par = madeBlocks[k]->getParent().get(); MC_REQUIRE(par == (i == 0 || a < 0 ? nullptr : madeBlocks[pos[a]]), "parent", "wrong parent of " << nm(i) << "\n" << deck);
      std::vector<int> kids; for (int j = i + 1; j < n; ++j) if (real(j)) { int b = p[j]; while (b >= 0 && !real(b)) b = p[b]; if (b == i) kids.push_back(j); }
      auto ch = made[k]->kids(); MC_REQUIRE(ch.size() == kids.size(), "children", nm(i) << " has " << ch.size() << " children, expected " << kids.size() << "\n" << deck); size_t q = 0; for (auto &c : ch) MC_REQUIRE(c.get() == madeBlocks[pos[kids[q++]]], "children", "wrong order of the children of " << nm(i) << "\n" << deck);
      bool root = (schnek::Block*)app.get() == madeBlocks[k]; bool inTree = root; for (schnek::Block *x = madeBlocks[k]; x; x = x->getParent().get()) if (x == app.get()) inTree = true;
      if (inTree) { Toks want; bool takesA = i == 0 || kind[i] == 1, takesB = i == 0 || kind[i] == 0 || kind[i] == 3; if (takesA) for (int j : kids) if (kind[j] == 0 || kind[j] == 3) want.push_back("A:" + nm(j)); if (takesB) for (int j : kids) if (kind[j] == 1) want.push_back("B:" + nm(j)); MC_REQUIRE(made[k]->listed() == want, "container", "container of " << nm(i) << " does not list its children of that type in order\n" << deck); }
      MC_REQUIRE(madeBlocks[k]->getLocalVariables()->getBlockName() == nm(i), "context", "block " << nm(i) << " is attached to the variables of " << madeBlocks[k]->getLocalVariables()->getBlockName());
    }
    MC_REQUIRE(aliveBlocks == before + (int)idx.size(), "alive", "blocks were destroyed while the simulation is in use\n" << deck); app.reset(); MC_REQUIRE(aliveBlocks == before, "destroyed", aliveBlocks - before << " of " << idx.size() << " blocks still exist after the simulation was released\n" << deck); });
  // which classes may be nested in which: every relation over the root and two classes, every nesting
  for (int m = 0; m < 64; ++m) mc::add("P28.allowed/" + std::to_string(m), [=] {
    ref::Interp in; in.restricted = true; in.root.name = "sim"; in.root.cls = "Sim"; BlockClasses bc; static const char *C[] = {"Sim", "KA", "KB"}; bool reg = mc::flip(); for (int a = 0; a < 3; ++a) { if (reg || a == 0) { bc.registerBlock(C[a]); } in.allowed[C[a]]; }
    if (reg) { bc("KA").setClass<KA>(); bc("KB").setClass<KB>(); bc("Sim").setClass<Root>(); } for (int a = 0; a < 3; ++a) for (int b = 0; b < 2; ++b) if (m >> (a * 2 + b) & 1) { bc(C[a]).addChildren(C[b + 1]); in.allowed[C[a]].insert(C[b + 1]); }
    std::string d; int open = 0, n = 0; static const Toks S = {"KA {\n", "KB {\n", "KA x {\n", "KX {\n", "}\n"}; for (int k = 0; k < (t ? 5 : 4); ++k) { int c = mc::choose(6); if (c == 5) break; if (c == 4) { if (!open) return; --open; } else ++open; d += S[c]; } if (d.empty()) return; d += std::string(open, '}'); mc::op(d);
    made.clear(); madeBlocks.clear(); auto r = in.run(d); Parser P("sim", "Sim", bc); std::istringstream is(d); Outcome o = guarded([&] { P.parse(is, "the file"); }); compareVerdict(d, o, r); if (!r.kind) compareTree(d, P.getVariableStorage().getRootBlock(), in.root); mc::state(mc::hashStr(d) + m); });
  mc::add("P28.registry", [=] {   // chained registration of allowed children
    BlockClasses bc; std::set<std::string> want; static const Toks C = {"A", "B", "C", "D"}; bc.registerBlock("R"); std::string a = mc::pick(C), b = mc::pick(C), c = mc::pick(C); switch (mc::choose(3)) { case 0: bc("R").addChildren(a)(b)(c); want = {a, b, c}; break; case 1: bc("R").addChildren(a); bc("R").addChildren(b)(c); want = {a, b, c}; break; default: bc("R").addChildren(a)(b); bc("S").addChildren(c); want = {a, b}; } BlockClasses copy(bc); for (auto &x : C) MC_REQUIRE(bc.hasChild("R", x) == (bool)want.count(x) && copy.hasChild("R", x) == (bool)want.count(x), "registry", "child " << x); });
#endif
#if ON(29)
  for (int n = 1; n <= 4; ++n) for (int style = 0; style < 4; ++style) mc::add("P29.tree" + std::to_string(n) + "/" + std::to_string(style), [=] {
    // every tree, every set of blocks exporting the key, block names that are all different / repeat in different places
    std::vector<int> p = tree(n); Toks names(n); names[0] = "sim"; for (int i = 1; i < n; ++i) names[i] = style == 0 ? std::string(1, 'a' + i - 1) : mc::flip() ? "a" : "b"; for (int i = 1; i < n; ++i) for (int j = i + 1; j < n; ++j) if (style != 3 && p[i] == p[j] && names[i] == names[j]) return;
    std::vector<Entry> es; for (int i = 0; i < n; ++i) { int c = mc::choose(style == 2 ? 4 : 3); if (c == 1) es.push_back({i, "k", 0}); if (c == 2) es.push_back({i, "k", 1}); if (c == 3) { es.push_back({i, "k", 0}); es.push_back({i, "a.k", 0}); } }
    sharing(p, names, es, {"k", "a.k", "b.k", "c.k", "a.b.k", "b.a.k", "a.a.k", "a.b.c.k", "q", "a.q", "q.k", "", ".k", "sim.k"}, style == 3); });
  for (int d0 = 0; d0 < 3; ++d0) mc::add("P29.deep/" + std::to_string(d0), [=] { int n = t ? 6 : 5; std::vector<int> p = tree(n); Toks names(n); names[0] = "sim"; std::vector<int> ix(n); for (int i = 1; i < n; ++i) { int r = 0; for (int j = 1; j < i; ++j) if (p[j] == p[i]) ++r; names[i] = std::string(1, 'a' + r); } std::vector<Entry> es; for (int i = 0; i < n; ++i) { int c = i == 0 ? d0 : mc::choose(2); if (c == 1) es.push_back({i, "k", 0}); if (c == 2) es.push_back({i, "k", 1}); } sharing(p, names, es, {"k", "a.k", "b.k", "a.a.k", "a.b.k", "b.a.k", "a.a.a.k", "c.a.k", "b.b.a.k"}); });
  // several simulations in one program keep their data apart; a key can be exported again with another object
  mc::add("P29.separate", [=] { std::vector<pBlock> apps; Share::all.clear(); std::vector<int*> want; std::string log;
    for (int s = 0; s < 3; ++s) { BlockClasses bc(false); bc.registerBlock("Sim").setClass<Share>(); bc.registerBlock("S").setClass<Share>(); Parser P("sim", "Sim", bc); std::istringstream is("S a { } S b { }"); apps.push_back(P.parse(is)); want.push_back(nullptr); }
    for (int k = 0; k < (t ? 4 : 3); ++k) { int s = mc::choose(4); if (s == 3) continue; Share *b = Share::all[s * 3 + 1]; want[s] = mc::flip() ? &b->i1 : &b->i2; b->addData("k", *want[s]); log += " simulation " + std::to_string(s) + " exports object " + std::to_string(want[s] == &b->i1 ? 1 : 2) + ";"; mc::op(log); mc::step();
      for (int q = 0; q < 3; ++q) for (int from = 0; from < 3; ++from) { int *p = nullptr; try { Share::all[q * 3 + from]->retrieveData("k", p); } catch (VariableNotFoundException &) { p = nullptr; } MC_REQUIRE(p == want[q], "separate", "simulation " << q << " block " << from << " gets " << (p ? "another object than the one exported last" : "nothing") << " after" << log); } }
    mc::state(mc::hashStr(log)); });
#endif
}
