// Expressions in setup files (P20) and functions (P26), against the reference interpreter.
#include "deck_common.hpp"

struct Sim : public Block {
  static Sim *last; double x, of; int xi, oi; std::string xs, os; pParameter px, pxi, pxs, pof, poi, pos; static double x0; static int xi0; static std::string xs0;
  Sim() { last = this; }
  void initParameters(BlockParameters &p) {
    px = p.addParameter("x", &x, x0, BlockParameters::readonly); pxi = p.addParameter("xi", &xi, xi0, BlockParameters::readonly); pxs = p.addParameter("xs", &xs, xs0, BlockParameters::readonly);
    p.addConstant("n", 5);
    pof = p.addParameter("of", &of, 0.0); poi = p.addParameter("oi", &oi, 0); pos = p.addParameter("os", &os, std::string());
  }
};
Sim *Sim::last = nullptr; double Sim::x0 = 0; int Sim::xi0 = 0; std::string Sim::xs0;

static int calls = 0;
static int addmul(int a, int b) { return a + 10 * b; }
static double mix3(double a, int b, double c) { return a + 10 * b + 100 * c; }
static std::string join(std::string a, int b, std::string c) { std::ostringstream o; o << a << "|" << b << "|" << c; return o.str(); }
static double half(int a) { return a / 2.0; }
static int len(std::string s) { return (int)s.size(); }
static double zero() { return 4.25; }
static int tick(int a) { return a + 1000 * ++calls; }
static double four(double a, double b, double c, double d) { return a + 10 * b + 100 * c + 1000 * d; }

static ref::pVar ext(int type, std::function<ref::Val()> f) { auto v = std::make_shared<ref::Var>(); v->type = type; v->fixed = false; v->readonly = true; v->ex = ref::Interp::mk(ref::Ex::EXT, type); v->ex->ext = f; return v; }
static ref::pVar cst(ref::Val x, bool ro) { auto v = std::make_shared<ref::Var>(); v->type = x.index(); v->val = x; v->readonly = ro; return v; }
using ref::Val;
static int I(const Val &v) { return std::get<0>(v); } static double F(const Val &v) { return std::get<1>(v); } static std::string S(const Val &v) { return std::get<2>(v); }

struct Run {
  ref::Interp in; double x = 1.5; int xi = -3; std::string xs = "s";
  Run() {
    in.root.name = "sim"; in.root.cls = "Sim";
    in.root.vars["x"] = ext(1, [this] { return x; }); in.root.vars["xi"] = ext(0, [this] { return xi; }); in.root.vars["xs"] = ext(2, [this] { return xs; });
    in.root.vars["n"] = cst(5, true); in.root.vars["of"] = cst(0.0, false); in.root.vars["oi"] = cst(0, false); in.root.vars["os"] = cst(std::string(), false);
#if ON(26)
    auto &f = in.funcs;
    f["addmul"] = {{0, 0}, 0, [](const std::vector<Val> &a) -> Val { return addmul(I(a[0]), I(a[1])); }, false};
    f["mix3"] = {{1, 0, 1}, 1, [](const std::vector<Val> &a) -> Val { return mix3(F(a[0]), I(a[1]), F(a[2])); }, false};
    f["join"] = {{2, 0, 2}, 2, [](const std::vector<Val> &a) -> Val { return join(S(a[0]), I(a[1]), S(a[2])); }, false};
    f["half"] = {{0}, 1, [](const std::vector<Val> &a) -> Val { return half(I(a[0])); }, false};
    f["len"] = {{2}, 0, [](const std::vector<Val> &a) -> Val { return len(S(a[0])); }, false};
    f["zero"] = {{}, 1, [](const std::vector<Val> &a) -> Val { return zero(); }, false};
    f["four"] = {{1, 1, 1, 1}, 1, [](const std::vector<Val> &a) -> Val { return four(F(a[0]), F(a[1]), F(a[2]), F(a[3])); }, false};
#endif
  }
  static void functions(FunctionRegistry &r) {
#if ON(26)
    r.registerFunction("addmul", addmul); r.registerFunction("mix3", mix3); r.registerFunction("join", join); r.registerFunction("half", half); r.registerFunction("len", len); r.registerFunction("zero", zero); r.registerFunction("four", four);
#endif
  }
  // evaluates one expression: immediately when it is constant, and for every given value of the independent variables otherwise
  void expression(const std::string &e, int type = -1) {
    if (type < 0) { ref::Interp probe; probe.root.vars = in.root.vars; probe.funcs = in.funcs; probe.t = ref::scan(e); probe.p = 0; type = probe.expr()->type; }
    std::string tgt = type == 0 ? "oi" : type == 1 ? "of" : "os", deck = tgt + " = " + e + ";"; mc::op(deck);
    Sim::x0 = x; Sim::xi0 = xi; Sim::xs0 = xs; Sim::last = nullptr;
    auto r = in.run(deck);
    BlockClasses bc; bc.registerBlock("Sim").setClass<Sim>(); Parser P("sim", "Sim", bc); functions(P.getFunctionRegistry()); std::istringstream is(deck); pBlock app;
    Outcome o = guarded([&] { app = P.parse(is, "the file"); });
    compareVerdict(deck, o, r); if (r.kind) return;
    ref::Var &v = *in.root.vars[tgt]; Sim &s = *Sim::last;
    auto same = [&](const char *when, std::function<void()> act) {
      Val want; bool err = false; try { want = v.get(); } catch (ref::EvalError &) { err = true; }
      Outcome q = guarded(act); std::ostringstream at; at << " (" << when << ", x=" << x << " xi=" << xi << " xs=" << xs << ")";
      if (err) { MC_REQUIRE(q.kind == Outcome::Eval, "eval-error", deck << " should fail to evaluate" << at.str() << " but: " << show(q)); return; }
      MC_REQUIRE(q.kind == Outcome::Ok, "eval", deck << " cannot be evaluated" << at.str() << ": " << show(q));
      Val got = type == 0 ? Val(s.oi) : type == 1 ? Val(s.of) : Val(s.os);
      MC_REQUIRE(ref::same(got, want), "value", deck << " gives " << ref::show(got) << ", expected " << ref::show(want) << at.str());
    };
    same("initial", [&] { app->evaluateParameters(); });
    if (!v.fixed) {
      pDependencyMap dm(new DependencyMap(app->getVariables())); DependencyUpdater up(dm);
      up.addIndependent(s.px); up.addIndependent(s.pxi); up.addIndependent(s.pxs); up.addDependent(type == 0 ? s.poi : type == 1 ? s.pof : s.pos);
      const struct { double x; int xi; const char *xs; } vals[] = {{-0.25, 7, ""}, {0.0, 0, "12"}, {3.0, 2, "b c"}};
      for (auto &q : vals) { s.x = x = q.x; s.xi = xi = q.xi; s.xs = xs = q.xs; same("updated", [&] { up.update(); }); }
    }
    mc::state(mc::hashStr(deck)); mc::sample(deck);
  }
};

static std::string paren(std::vector<std::string> a, std::vector<std::string> op, int i, int j) {
  std::string s; for (size_t k = 0; k < a.size(); ++k) { if (k) s += op[k - 1]; if ((int)k == i) s += "("; s += a[k]; if ((int)k == j) s += ")"; } return s;
}
static void chain(int n, const std::vector<std::string> &alpha, const std::vector<std::string> &ops, bool sign, bool brackets, int first) {
  std::vector<std::string> a, o; a.push_back(alpha[first]); for (int i = 1; i < n; ++i) { o.push_back(mc::pick(ops)); a.push_back(mc::pick(alpha)); }
  int i = -1, j = -1; if (brackets) { std::vector<std::pair<int, int>> iv = {{-1, -1}}; for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) if (q - p < n - 1) iv.push_back({p, q}); auto c = mc::pick(iv); i = c.first; j = c.second; }
  std::string e = paren(a, o, i, j); if (sign) { if (mc::flip()) e = "-" + e; }
  Run().expression(e);
}
void mc_register() {
  bool t = mc::thorough(); (void)t;
#if ON(20)
  const std::vector<std::string> full = {"2", "7", "0.5", "x", "xi", "n", "3^2", "x^-2", "(1-4)"}, few = {"2", "0.5", "7", "xi"}, four = {"+", "-", "*", "/"};
  for (int n = 1; n <= 3; ++n) for (size_t f = 0; f < full.size(); ++f) mc::add("P20.chain" + std::to_string(n) + "/" + full[f], [=] { chain(n, full, four, true, true, f); });
  for (size_t f = 0; f < few.size(); ++f) mc::add("P20.chain4/" + few[f], [=] { chain(4, few, four, t, true, f); });
  const std::vector<std::string> two = {"2.0", "3", "n"};
  for (size_t f = 0; f < two.size(); ++f) { mc::add("P20.add5/" + two[f], [=] { chain(5, two, {"+", "-"}, false, true, f); }); mc::add("P20.mul5/" + two[f], [=] { chain(5, two, {"*", "/"}, false, true, f); }); }
  if (t) { const std::vector<std::string> six = {"2", "0.5", "7", "xi", "x", "3^2"}; for (size_t f = 0; f < six.size(); ++f) mc::add("P20.deep4/" + six[f], [=] { chain(4, six, four, true, true, f); });
    for (size_t f = 0; f < two.size(); ++f) { mc::add("P20.add6/" + two[f], [=] { chain(6, two, {"+", "-"}, true, true, f); }); mc::add("P20.mix5/" + two[f], [=] { chain(5, two, four, false, true, f); }); } }
  const std::vector<std::string> str = {"\"a\"", "2", "0.5", "xs", "xi", "n", "(1+2)", "'q\"r'"};
  for (int n = 1; n <= (t ? 5 : 4); ++n) for (size_t f = 0; f < str.size(); ++f) if (n > 1 || f != 99) mc::add("P20.string" + std::to_string(n) + "/" + std::to_string(f), [=] { chain(n, str, {"+"}, false, n < 4, f); });
  const std::vector<std::string> base = {"2", "0.5", "x", "xi", "n", "(2)", "(-2)", "(x+1)"};
  for (size_t f = 0; f < base.size(); ++f) mc::add("P20.power/" + base[f], [=] { std::string s = mc::flip() ? "-" : ""; s += base[f] + "^" + mc::pick(std::vector<std::string>{"", "-", "+"}) + mc::pick(base); std::string post = mc::pick(std::vector<std::string>{"", "*3", "-3", "/2", "*2^2", "+0.5"}), pre = s[0] == '-' ? "" : mc::pick(std::vector<std::string>{"", "3*", "3-", "7/", "2^2*", "2.0-"}); Run().expression(pre + s + post); });
  mc::add("P20.extreme", [=] {   // results at the ends of the int range
    static const std::vector<std::pair<std::string, long long>> E = {{"(0-2147483647-1)", -2147483648LL}, {"(-2147483647)", -2147483647LL}, {"(-2)", -2}, {"(-1)", -1}, {"0", 0}, {"1", 1}, {"2", 2}, {"2147483647", 2147483647LL}};
    auto a = mc::pick(E), b = mc::pick(E); std::string o = mc::pick(four), lead = mc::pick(std::vector<std::string>{"", "0*xi + ", "0*x + "});
    long long r = o == "+" ? a.second + b.second : o == "-" ? a.second - b.second : o == "*" ? a.second * b.second : 0; if (r < -2147483648LL || r > 2147483647LL) throw mc::Prune();   // not representable: no promise
    Run().expression(lead + a.first + o + b.first); });
  mc::add("P20.nested", [=] {   // brackets inside brackets, signs inside brackets
    std::string a = mc::pick(std::vector<std::string>{"7", "x", "0.5"}), o1 = mc::pick(four), b = mc::pick(std::vector<std::string>{"2", "xi"}), o2 = mc::pick(four), c = mc::pick(std::vector<std::string>{"3", "1.5"}), o3 = mc::pick(four), d = mc::pick(std::vector<std::string>{"4", "n"});
    std::string s1 = mc::flip() ? "-" : "", s2 = mc::flip() ? "-" : "";
    switch (mc::choose(4)) { case 0: Run().expression(a + o1 + "(" + s1 + b + o2 + "(" + s2 + c + o3 + d + "))"); break; case 1: Run().expression("((" + s1 + a + o1 + b + ")" + o2 + c + ")" + o3 + d); break; case 2: Run().expression("(" + s1 + a + o1 + b + ")" + o2 + "(" + s2 + c + o3 + d + ")"); break; default: Run().expression("(((" + a + ")))" + o1 + "(" + s1 + b + ")" + o2 + "((" + s2 + c + "))" + o3 + d); } });
  mc::add("P20.long", [=] {   // no limit on the length or depth of an expression
    int n = mc::choose(t ? 600 : 160) + 1, kind = mc::choose(7); std::string e;
    switch (kind) {
      case 0: case 1: case 2: case 3: for (int i = 0; i < n; ++i) e += std::string(i ? (kind == 0 ? "+" : kind == 1 ? "-" : kind == 2 ? "*" : i % 3 ? "-" : "+") : "") + (kind == 2 ? "1" : kind == 3 && i % 5 == 4 ? "0.5*3" : kind == 3 && i % 7 == 3 ? "xi" : std::to_string(i % 9)); break;
      case 4: e = std::string(n, '(') + "7-2" + std::string(n, ')') + "-1"; break;
      case 5: for (int i = 0; i < n; ++i) e += "2-("; e += "x"; e += std::string(n, ')'); break;
      default: for (int i = 0; i < n; ++i) e += "3.5-"; e += "n-1-1"; }
    Run().expression(e); });
  for (int ty = 0; ty < 3; ++ty) mc::add("P20.literals/" + std::to_string(ty), [=] {   // every spelling of a number and every target type
    static const std::vector<std::string> lit = {"0", "1", "10", "007", "2147483647", "1.", ".5", "1.5", "1e3", "1E3", "1e+3", "1e-3", "1.e2", "1.25e-2", ".5e1", "2147483648", "99999999999", "1e308", "\"12\"", "\"-3\"", "\"1.5\"", "\"1e2\"", "\"\"", "\"abc\"", "\" 1\"", "'12'", "0x10", "1e", "1.2.3", "1..2", "-2147483647", "-5", "-0.5", "+7"};
    std::string l = mc::pick(lit); Run r; std::string deck = std::string(ty == 0 ? "oi" : ty == 1 ? "of" : "os") + " = " + l + ";"; bool syn = false; try { ref::Interp q; auto rr = q.run("a = " + l + ";"); syn = rr.kind == ref::Interp::Result::Syntax || rr.kind == ref::Interp::Result::Scan; } catch (...) {}
    if (!syn || true) r.expression(l, ty); });
#endif
#if ON(26)
  mc::add("P26.arguments", [=] {   // every argument type in every position
    static const std::vector<std::string> arg = {"2", "-1", "2.75", "-2.75", "(x-4.6)", "x", "xi", "xs", "\"4\"", "\"q\"", "n*2", "half(3)", "len(\"abc\")", "zero()", "(1+2.5)"};
    switch (mc::choose(4)) { case 0: Run().expression("addmul(" + mc::pick(arg) + "," + mc::pick(arg) + ")"); break; case 1: Run().expression("half(" + mc::pick(arg) + ")"); break; case 2: Run().expression("len(" + mc::pick(arg) + ")"); break; default: Run().expression("zero()"); } });
  for (int f = 0; f < 2; ++f) for (int a0 = 0; a0 < 8; ++a0) mc::add("P26.three/" + std::to_string(f) + std::to_string(a0), [=] {
    static const std::vector<std::string> arg = {"2", "2.75", "x", "xi", "xs", "\"4\"", "half(n)", "addmul(1,2)"}; Run().expression(std::string(f ? "mix3(" : "join(") + arg[a0] + "," + mc::pick(arg) + "," + mc::pick(arg) + ")" + mc::pick(std::vector<std::string>{"", "+1", "+2.5"})); });
  mc::add("P26.counts", [=] {     // wrong number of arguments, unknown functions
    std::string f = mc::pick(std::vector<std::string>{"addmul", "mix3", "join", "half", "len", "zero", "four", "nosuch"}); int n = mc::choose(6); std::string s = f + "("; for (int i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(i + 1); s += ")";
    static const std::map<std::string, int> ret = {{"addmul", 0}, {"mix3", 1}, {"join", 2}, {"half", 1}, {"len", 0}, {"zero", 1}, {"four", 1}, {"nosuch", 1}}; Run().expression(s, ret.at(f)); });
  mc::add("P26.nesting", [=] {
    static const std::vector<std::string> leaf = {"1", "x", "xi", "n"}; static const std::vector<std::string> fn = {"addmul", "four2", "half", "plain"};
    std::function<std::string(int)> g = [&](int d) -> std::string { if (d == 0) return mc::pick(leaf); switch (mc::choose(4)) { case 0: return "addmul(" + g(d - 1) + "," + mc::pick(leaf) + ")"; case 1: return "addmul(" + mc::pick(leaf) + "," + g(d - 1) + ")"; case 2: return "half(" + g(d - 1) + ")"; default: return "four(" + mc::pick(leaf) + ",2," + g(d - 1) + ",xi)"; } };
    Run().expression(g(t ? 3 : 2)); });
  mc::add("P26.always", [=] {     // functions that must be re-evaluated at every update
    std::string e = mc::pick(std::vector<std::string>{"tick(1)", "tick(xi)", "2*tick(n)", "tick(1)-xi", "half(tick(2))", "tick(tick(1))", "oi2+1"}); std::string deck = "int oi2 = tick(3);\noi = " + e + ";"; mc::op(deck);
    int per = e == "tick(tick(1))" ? 2 : 1; (void)per;
    BlockClasses bc; bc.registerBlock("Sim").setClass<Sim>(); Parser P("sim", "Sim", bc); Run::functions(P.getFunctionRegistry()); P.getFunctionRegistry().registerFunction("tick", tick, true); Sim::x0 = 0; Sim::xi0 = 3; std::istringstream is(deck); pBlock app = P.parse(is, "f"); app->evaluateParameters(); Sim &s = *Sim::last;
    MC_REQUIRE(!s.poi->getVariable()->isConstant(), "constant", "an always-updated function was treated as constant in " << e);
    pDependencyMap dm(new DependencyMap(app->getVariables())); DependencyUpdater up(dm); if (mc::flip()) up.addIndependent(s.pxi); up.addDependent(s.poi);
    std::set<int> seen; for (int k = 0; k < 4; ++k) { int c0 = calls; up.update(); MC_REQUIRE(calls > c0, "not-called", "the function was not called again by update " << k << " for " << e); MC_REQUIRE(seen.insert(s.oi).second, "stale", "update " << k << " left the old value " << s.oi << " for " << e); }
    calls = 0; });
  mc::add("P26.replace", [=] {    // histories of registrations on two parsers: the last function registered under a name is the one called, each parser has its own
    BlockClasses bc; bc.registerBlock("Sim").setClass<Sim>(); Parser P0("sim", "Sim", bc), P1("sim", "Sim", bc); Parser *P[2] = {&P0, &P1}; std::map<std::string, int> last[2]; std::string log;
    static int (*const F[3])(int) = {[](int a) { return a + 100; }, [](int a) { return a + 200; }, [](int a) { return 3 * a; }}; static double (*const G)(double) = [](double a) { return a * 0.5; };
    int n = mc::choose(4) + 1; for (int k = 0; k < n; ++k) { int w = mc::choose(2), op = mc::choose(4); std::string nm = mc::choose(2) ? "exp" : "ff"; log += " parser" + std::to_string(w); mc::step();
      if (op < 3) { int f = op == 2 ? 2 : op; P[w]->getFunctionRegistry().registerFunction(nm, F[f]); last[w][nm] = f; log += " " + nm + "=f" + std::to_string(f); }
      else if (nm == "ff") { P[w]->getFunctionRegistry().registerFunction(nm, G); last[w][nm] = 3; log += " ff=g"; } else { registerCMath(P[w]->getFunctionRegistry()); last[w]["exp"] = 4; log += " cmath"; } }
    mc::op(log); for (int w = 0; w < 2; ++w) for (const char *nm : {"ff", "exp"}) { Sim::x0 = 0; Sim::xi0 = 7; std::istringstream is(std::string("of = ") + nm + "(xi);"); pBlock app; Outcome o = guarded([&] { ParserSettings st("sim", "Sim"); st.addBlockClass("Sim").setClass<Sim>(); st.funcReg = P[w]->getFunctionRegistry(); st.registerFunction("other", F[0]); Parser Q1(VariableStorage("sim", "Sim"), P[w]->getFunctionRegistry(), bc), Q2(st); app = (n & 1 ? Q1 : Q2).parse(is, "f"); app->evaluateParameters(); });
      if (!last[w].count(nm)) { MC_REQUIRE(o.kind != Outcome::Ok, "registry", "parser " << w << " knows the function " << nm << " that was not registered with it; registered:" << log); continue; }
      MC_REQUIRE(o.kind == Outcome::Ok, "registry", "parser " << w << " fails with " << show(o) << " calling " << nm << "; registered:" << log); int f = last[w][nm]; double want = f < 3 ? F[f](7) : f == 3 ? 3.5 : exp(7.0); double got = Sim::last->of;
      MC_REQUIRE(std::fabs(got - want) <= 1e-12 * want, "registry", "parser " << w << ": " << nm << "(7) is " << got << ", expected " << want << "; registered:" << log); } });
  mc::add("P26.library", [=] {    // every function registered by the library, each argument order
    struct L { const char *n; std::vector<int> a; std::function<double(double, double, double)> f; };
    static const std::vector<L> lib = {
      {"cos", {1}, [](double a, double, double) { return cos(a); }}, {"sin", {1}, [](double a, double, double) { return sin(a); }}, {"tan", {1}, [](double a, double, double) { return tan(a); }}, {"acos", {1}, [](double a, double, double) { return acos(a); }}, {"asin", {1}, [](double a, double, double) { return asin(a); }}, {"atan", {1}, [](double a, double, double) { return atan(a); }}, {"atan2", {1, 1}, [](double a, double b, double) { return atan2(a, b); }},
      {"cosh", {1}, [](double a, double, double) { return cosh(a); }}, {"sinh", {1}, [](double a, double, double) { return sinh(a); }}, {"tanh", {1}, [](double a, double, double) { return tanh(a); }}, {"exp", {1}, [](double a, double, double) { return exp(a); }}, {"ldexp", {1, 0}, [](double a, double b, double) { return ldexp(a, (int)b); }}, {"log", {1}, [](double a, double, double) { return log(a); }}, {"log10", {1}, [](double a, double, double) { return log10(a); }},
      {"pow", {1, 1}, [](double a, double b, double) { return pow(a, b); }}, {"sqrt", {1}, [](double a, double, double) { return sqrt(a); }}, {"ceil", {1}, [](double a, double, double) { return ceil(a); }}, {"fabs", {1}, [](double a, double, double) { return fabs(a); }}, {"floor", {1}, [](double a, double, double) { return floor(a); }}, {"fmod", {1, 1}, [](double a, double b, double) { return fmod(a, b); }},
      {"min", {1, 1}, [](double a, double b, double) { return std::min(a, b); }}, {"max", {1, 1}, [](double a, double b, double) { return std::max(a, b); }}, {"minI", {0, 0}, [](double a, double b, double) { return std::min((int)a, (int)b); }}, {"maxI", {0, 0}, [](double a, double b, double) { return std::max((int)a, (int)b); }},
      {"gamma", {1}, [](double a, double, double) { return tgamma(a); }}, {"lgamma", {1}, [](double a, double, double) { return lgamma(a); }}, {"digamma", {1}, [](double a, double, double) { double s = 0; while (a < 30) { s -= 1 / a; a += 1; } double b = 1 / (a * a); return s + log(a) - 0.5 / a - b * (1.0 / 12 - b * (1.0 / 120 - b * (1.0 / 252 - b / 240))); }},
      {"besselj", {0, 1}, [](double n, double x, double) { return jn((int)n, x); }}, {"bessely", {0, 1}, [](double n, double x, double) { return yn((int)n, x); }}, {"normal", {1, 1, 1}, [](double x, double s, double m) { return exp(-(x - m) * (x - m) / (2 * s * s)); }}};
    const L &l = lib[mc::choose((int)lib.size())]; static const std::vector<double> v = {0.25, 0.75, 1, 2, 3.5, -0.75, -2.5, 0}; static const std::set<std::string> positive = {"gamma", "lgamma", "digamma", "besselj", "bessely", "log", "log10", "sqrt", "normal"}; double a[3] = {0, 0, 0}; std::ostringstream d; d << "of = " << l.n << "(";
    bool viaX = mc::flip(); for (size_t i = 0; i < l.a.size(); ++i) { a[i] = mc::pick(v); if (l.a[i] == 0) a[i] = (int)a[i]; d << (i ? "," : ""); if (viaX && i == 0) d << "x"; else d << (l.a[i] == 0 && a[i] < 0 ? a[i] - 0.25 : a[i]); } d << ");"; mc::op(d.str());
    if (l.n == std::string("acos") || l.n == std::string("asin")) if (std::fabs(a[0]) > 1) return;
    if (positive.count(l.n)) for (size_t i = 0; i < l.a.size(); ++i) if (a[i] < 0 || (a[i] == 0 && !(l.a[i] == 0))) return;
    if (l.n == std::string("pow") && a[0] <= 0) return; if (l.n == std::string("fmod") && a[1] == 0) return;
    double want = l.f(a[0], a[1], a[2]);
    BlockClasses bc; bc.registerBlock("Sim").setClass<Sim>(); Parser P("sim", "Sim", bc); if (mc::flip()) registerAllFunctions(P.getFunctionRegistry()); else { registerCMath(P.getFunctionRegistry()); registerUtilityFunctions(P.getFunctionRegistry()); registerSpecialFunctions(P.getFunctionRegistry()); }
    Sim::x0 = a[0]; Sim::xi0 = 0; std::istringstream is(d.str()); pBlock app; Outcome o = guarded([&] { app = P.parse(is, "f"); app->evaluateParameters(); });
    MC_REQUIRE(o.kind == Outcome::Ok, "library", d.str() << " fails: " << show(o)); double got = Sim::last->of;
    MC_REQUIRE(std::isinf(want) ? got == want : std::fabs(got - want) <= 1e-10 * (1 + std::fabs(want)), "library", d.str() << " with x=" << a[0] << " gives " << got << ", expected " << want); });
#endif
}
