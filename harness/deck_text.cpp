// Setup files as text: layout (P21), malformed files (P22), scoping and assignment (P23), against the reference interpreter.
#include "deck_common.hpp"
using ref::Val;
struct World {
  ref::Interp in; VariableStorage vs; FunctionRegistry fr; double t = 0.5; int k = 3;
  World() : vs("sim", "Sim") {
    in.root.name = "sim"; in.root.cls = "Sim"; addExt(1, "t"); addExt(0, "k");
    auto ro = std::make_shared<ref::Var>(); ro->type = 0; ro->val = 4; ro->readonly = true; in.root.vars["ro"] = ro; vs.getRootBlock()->addVariable("ro", pVariable(new Variable(4, true, true)));
    in.funcs["sq"] = {{1}, 1, [](const std::vector<Val> &a) -> Val { return std::get<1>(a[0]) * std::get<1>(a[0]); }, false}; fr.registerFunction("sq", +[](double a) { return a * a; });
  }
  void addExt(int type, const std::string &n) {
    auto v = std::make_shared<ref::Var>(); v->type = type; v->fixed = false; v->readonly = true; v->ex = ref::Interp::mk(ref::Ex::EXT, type); if (type == 1) v->ex->ext = [this] { return Val(t); }; else v->ex->ext = [this] { return Val(k); }; in.root.vars[n] = v;
    pVariable lv; if (type == 1) lv = pVariable(new Variable(pFloatExpression(new ExternalValue<double>(&t)), true, true)); else lv = pVariable(new Variable(pIntExpression(new ExternalValue<int>(&k)), true, true)); vs.getRootBlock()->addVariable(n, lv);
  }
  ref::Interp::Result parse(const std::string &deck) {
    auto r = in.run(deck); std::istringstream is(deck); Parser P(vs, fr); Outcome o = guarded([&] { P.parse(is, "the file"); });
    compareVerdict(deck, o, r); if (r.kind == 0) compareTree(deck, vs.getRootBlock(), in.root); return r;
  }
};
// blocks of memory in use; a deck that is parsed and dropped again leaves none behind (what the first use of a library facility keeps for later is seen once only)
static long liveBlocks = 0;
#if VP == 22
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static int hooked = __sanitizer_install_malloc_and_free_hooks([](const volatile void *p, size_t) { if (p) ++liveBlocks; }, [](const volatile void *p) { if (p) --liveBlocks; });
#endif
static bool selfRef;   // the deck contains a definition that refers to itself: its variables keep each other alive
static ref::Interp::Result once(const std::string &deck) { World w; auto r = w.parse(deck); selfRef = w.in.circular(); ref::Interp::walk(w.in.root, [](ref::Blk &, const std::string &, ref::Var &v) { v.ex.reset(); }); return r; }
static ref::Interp::Result both(const std::string &deck) {
  long a = liveBlocks; auto r = once(deck); if (liveBlocks == a + (r.what.capacity() > 15) || selfRef) return r;
  for (int i = 0; i < 3; ++i) { a = liveBlocks; { auto q = once(deck); } if (liveBlocks == a) return r; }
  MC_REQUIRE(false, "memory", "parsing and dropping this deck loses " << liveBlocks - a << " blocks of memory each time:\n" << deck); return r;
}

typedef std::vector<std::string> Toks;
static std::string join(const Toks &t, const std::string &sep) { std::string s; for (auto &x : t) s += x + sep; return s; }
static const Toks D1 = {"int", "a", "=", "12", ";", "float", "bb", "=", "1.5e1", "-", "a", "/", "5", ",", "c", "=", "t", "*", "(", "a", "+", "2.", ")", ";", "string", "s", "=", "\"x y\"", "+", "'q'", ";",
  "Blk", "one", "{", "float", "a", "=", "-", "sq", "(", "bb", ")", "^", "2", ";", "Sub", "{", "int", "z", "=", "k", ";", "}", "}", "bb", "=", "one:Sub:z", "+", "one:a", ";", "s", "=", "a", ";"};
static const Toks D2 = {"int", "i1", "=", "7", ";", "i1", "=", "i1", "+", "1.75", ";", "B", "x", "{", "i1", "=", "2", ";", "}"};
static bool wordy(char c) { return isalnum((unsigned char)c) || c == '_' || c == ':' || c == '.'; }
// may two tokens be written without anything between them?
static bool glue(const std::string &a, const std::string &b) { char x = a.back(), y = b[0]; if (wordy(x) && wordy(y)) return false; if (x == '/' && (y == '/' || y == '*')) return false; return true; }
// the trees of two reference runs agree (the reference is not confused by the layout either)
static void sameRef(ref::Blk &a, ref::Blk &b) { bool ok = a.name == b.name && a.cls == b.cls && a.vars.size() == b.vars.size() && a.children.size() == b.children.size(); for (auto &v : a.vars) { auto it = b.vars.find(v.first); ok = ok && it != b.vars.end() && it->second->fixed == v.second->fixed && ref::same(it->second->get(), v.second->get()); } MC_REQUIRE(ok, "reference", "layout changed the reference result"); auto i = b.children.begin(); for (auto &c : a.children) sameRef(*c, **i++); }
static void layout(const Toks &base, const std::string &text) { World w; auto r = w.parse(text); MC_REQUIRE(r.kind == 0, "reference", "reference rejects " << text); ref::Interp q; World w2; w2.in.run(join(base, " ")); sameRef(w.in.root, w2.in.root); mc::state(mc::hashStr(text)); mc::sample(text); }
static const Toks SEP = {" ", "\n", "\t", "\r\n", "/**/", "/* x * / \" ' // */", "// c ' \" /*\n", "//\n", "\x01", "\xc3\xa9", "  \n\n ", "/***/", "/*\n*/\n", " // a\n // b\n", ""};

void mc_register() {
  bool t = mc::thorough(); (void)t;
#if ON(21)
  for (int s = 0; s < (int)SEP.size(); ++s) {
    mc::add("P21.gap/" + std::to_string(s), [=] {       // one separator between every pair of tokens / at one position only
      const Toks &b = mc::flip() ? D1 : D2; int at = mc::choose((int)b.size() + 2) - 1; std::string text; for (int i = 0; i <= (int)b.size(); ++i) { std::string sep = at == -1 || at == i ? SEP[s] : " "; if (sep.empty() && i > 0 && i < (int)b.size() && !glue(b[i - 1], b[i])) sep = " "; if (!sep.empty() && sep[0] == 0x2f && i > 0 && b[i - 1] == "/") sep = " " + sep; text += sep; if (i < (int)b.size()) text += b[i]; } mc::op(text); layout(b, text); });
    mc::add("P21.gap2/" + std::to_string(s), [=] {      // two different separators at two positions
      const Toks &b = D2; int n = b.size(), i1 = mc::choose(n + 1), i2 = mc::choose(n + 1); std::string s2 = mc::pick(SEP), text; for (int i = 0; i <= n; ++i) { std::string sep = i == i1 ? SEP[s] : i == i2 ? s2 : " "; if (i == i1 && i == i2) sep = SEP[s] + s2; if (sep.empty() && i > 0 && i < n && !glue(b[i - 1], b[i])) sep = " "; text += sep; if (i < n) text += b[i]; } mc::op(text); layout(b, text); });
  }
  mc::add("P21.tight", [=] { const Toks &b = mc::flip() ? D1 : D2; std::string text; for (size_t i = 0; i < b.size(); ++i) { if (i && !glue(b[i - 1], b[i])) text += mc::flip() ? " " : "\n"; text += b[i]; if (text.size() > (t ? 200 : 90) && i + 1 < b.size() && b[i] == ";") { for (size_t j = i + 1; j < b.size(); ++j) text += " " + b[j]; break; } } mc::op(text); layout(b, text); });
  // tokens at every position relative to the read buffer: padding of every length up to a few buffers, and around powers of two
  auto pads = [t] { std::vector<int> v; for (int i = 0; i <= 420; ++i) v.push_back(i); for (int k = 9; k <= (t ? 15 : 13); ++k) for (int i = -40; i <= 2; ++i) v.push_back((1 << k) + i * 9); return v; };
  for (int kind = 0; kind < 6; ++kind) mc::add("P21.offset/" + std::to_string(kind), [=] {
    static const std::vector<int> P = pads(); int n = mc::pick(P); const Toks &b = D1; std::string pad;
    switch (kind) { case 0: pad = std::string(n, ' '); break; case 1: pad = std::string(n, '\n'); break; case 2: pad = "/*" + std::string(n, '*') + "*/"; break; case 3: pad = "//" + std::string(n, 'x') + "\n"; break; case 4: for (int i = 0; i < n; ++i) pad += i % 3 ? "\n" : "\t"; break; default: pad = "/*"; for (int i = 0; i < n; ++i) pad += i % 2 ? "/" : "\n"; pad += " */"; }
    std::string text = pad + join(b, " "); mc::op("padding " + std::to_string(n)); layout(b, text); });
  for (int kind = 0; kind < 8; ++kind) mc::add("P21.length/" + std::to_string(kind), [=] {   // tokens of every length
    static const std::vector<int> P = pads(); int n = mc::pick(P); if (n == 0) n = 1; int off = mc::choose(3) * 50; std::string x = std::string(off, ' '), big(n, 'a'); for (int i = 0; i < n; ++i) big[i] = 'a' + (i * 7 + i / 26) % 26;
    switch (kind) {
      case 0: x += "string s = \"" + big + "\"; int e = 1;"; break; case 1: x += "string s = '" + big + "'; int e = 1;"; break;
      case 2: { std::string id = "v" + big; x += "int " + id + " = 3; int e = " + id + " + 1;"; break; }
      case 3: x += "int e = " + std::string(n, '0') + "17;"; break; case 4: x += "float e = 0." + std::string(n, '0') + "5 + 1.;"; break;
      case 5: { std::string id = "B" + big; x += "Cls " + id + " { int q = 4; } int e = " + id + ":q;"; break; }
      case 6: { std::string esc; for (int i = 0; i < n; ++i) esc += i % 2 ? "\\\"" : "\n"; x += "string s = \"" + esc + "\"; int e = 1;"; break; }
      default: { x += "int e = 1"; for (int i = 0; i < n && i < 3000; ++i) x += i % 4 ? " " : "\n"; x += ";"; } }
    mc::op("length " + std::to_string(n) + " offset " + std::to_string(off)); auto r = both(x); MC_REQUIRE(r.kind == 0, "reference", "reference rejects a long token"); mc::state(mc::hashStr(x)); });
  for (int q = 0; q < 2; ++q) for (int c0 = 0; c0 < 8; ++c0) mc::add("P21.strings/" + std::to_string(q) + std::to_string(c0), [=] {   // all short string contents
    static const std::string al = "a\"'\\\n /*"; std::string s(1, al[c0]); int n = mc::choose(t ? 5 : 4); for (int i = 0; i < n; ++i) s += al[mc::choose((int)al.size())];
    std::string d = std::string("string s = ") + (q ? "'" : "\"") + s + (q ? "'" : "\"") + ";\nint e = 1;"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  mc::add("P21.comments", [=] {      // all short comment contents
    static const std::string al = "*/\n\"a "; std::string s; int n = mc::choose(t ? 7 : 6); for (int i = 0; i < n; ++i) s += al[mc::choose((int)al.size())]; std::string d = "int a = 1;" + std::string(mc::flip() ? "/*" : "//") + s + mc::pick(Toks{"*/", "\n", "*/\n"}) + "int b = 2;"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  mc::add("P21.words", [=] {         // keywords, identifiers that start like keywords, numbers next to letters
    static const Toks w = {"int", "integer", "integers", "in", "intx", "int1", "float", "floats", "double", "dou", "real", "reals", "string", "strings", "e1", "E", "_", "_1", "e", "d", "r", "a:b", "a:", "x1y2"}; std::string a = mc::pick(w), b = mc::pick(w); std::string d = mc::choose(2) ? "int " + a + " = 3;" + b + " = 4;" : a + " v = 2; " + b + " u {}"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  mc::add("P21.numbers", [=] {       // all short strings over number characters, as a literal
    static const std::string al = "01.eE+-x"; std::string s; int n = mc::choose(t ? 6 : 5) + 1; for (int i = 0; i < n; ++i) s += al[mc::choose((int)al.size())]; std::string d = "float v = 0.5; v = " + s + ";"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
#endif
#if ON(22)
  static const Toks KINDS = {"int", "float", "string", "a", "zz", "one:a", "3", "2.5", "\"str\"", "=", "{", "}", "(", ")", ";", ",", "+", "-", "*", "/", "^", "ro", "t", "sq", "99999999999"};
  for (int which = 0; which < 2; ++which) {
    const Toks &b = which ? D2 : D1; std::string w = std::to_string(which);
    auto run = [](const Toks &x, int style) { std::string d = style ? join(x, "\n") : join(x, " "); mc::op(d); both(d); mc::state(mc::hashStr(d)); };
    mc::add("P22.delete/" + w, [=] { Toks x = b; x.erase(x.begin() + mc::choose((int)x.size())); if (mc::flip()) x.erase(x.begin() + mc::choose((int)x.size())); run(x, mc::choose(2)); });
    mc::add("P22.duplicate/" + w, [=] { Toks x = b; int i = mc::choose((int)x.size()); x.insert(x.begin() + mc::choose((int)x.size()), b[i]); run(x, mc::choose(2)); });
    mc::add("P22.swap/" + w, [=] { Toks x = b; std::swap(x[mc::choose((int)x.size())], x[mc::choose((int)x.size())]); run(x, mc::choose(2)); });
    mc::add("P22.replace/" + w, [=] { Toks x = b; x[mc::choose((int)x.size())] = mc::pick(KINDS); run(x, mc::choose(2)); });
    mc::add("P22.insert/" + w, [=] { Toks x = b; x.insert(x.begin() + mc::choose((int)x.size() + 1), mc::pick(KINDS)); run(x, mc::choose(2)); });
    mc::add("P22.truncate/" + w, [=] { std::string s = join(b, mc::flip() ? "\n" : " "); s.resize(mc::choose((int)s.size())); s += mc::pick(Toks{"", "\n", "//", "/*", "\"", "'"}); mc::op(s); both(s); mc::state(mc::hashStr(s)); });
    mc::add("P22.bytes/" + w, [=] { std::string s = join(b, "\n"); int i = mc::choose((int)s.size() + 1); char c = (char)mc::choose(256); if (mc::flip() && i < (int)s.size()) s[i] = c; else s.insert(i, 1, c); mc::op(s); both(s); mc::state(mc::hashStr(s)); });
  }
  mc::add("P22.replace2", [=] { Toks x = D2; x[mc::choose((int)x.size())] = mc::pick(KINDS); x[mc::choose((int)x.size())] = mc::pick(KINDS); std::string d = join(x, "\n"); mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  static const Toks SM = {"int", "a", "b", "=", "1", ";", "{", "}", "(", ")", "+", ","};
  for (size_t f = 0; f < SM.size(); ++f) mc::add("P22.sequences/" + SM[f], [=] {   // all token sequences
    std::string d = SM[f]; int n = mc::choose(t ? 6 : 5); for (int i = 0; i < n; ++i) d += "\n" + mc::pick(SM); mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  for (size_t f = 0; f < SM.size(); ++f) mc::add("P22.assign/" + SM[f], [=] {      // all token sequences as the right hand side of an assignment
    std::string d = "int a = 1; a =\n" + SM[f]; int n = mc::choose(t ? 6 : 5); for (int i = 0; i < n; ++i) d += "\n" + mc::pick(SM); d += ";"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  static const Toks ST = {"int a = 1;", "int a = 1.5;", "int a, b;", "int a = 1, b = a;", "int a = 1, b = 2;", "a = 2;", "a = \"x\";", "a = t;", "b = q;", "ro = 1;", "t = 1.0;", "B x {", "B {", "}", "x:a = 3;", "a = a + 1;", "b = a;", "string s = \"5\";", "a = s;", "a = 1/0;", "b = sq(1,2);", "b = nofunc(1);", ";", "int c = x:a;", "a b;"};
  for (size_t f = 0; f < ST.size(); ++f) mc::add("P22.statements/" + std::to_string(f), [=] {   // sequences of right and wrong statements, one per line
    std::string d = ST[f] + "\n"; int n = mc::choose(t ? 4 : 3); for (int i = 0; i < n; ++i) d += mc::pick(ST) + "\n"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  for (size_t f = 0; f < ST.size(); ++f) mc::add("P22.spread/" + std::to_string(f), [=] {   // the same, every token on a line of its own
    auto spread = [](const std::string &x) { std::string r; for (char c : x) r += c == ' ' ? '\n' : c; return r + "\n"; };
    std::string d = spread(ST[f]); int n = mc::choose(t ? 4 : 3); for (int i = 0; i < n; ++i) d += spread(mc::pick(ST)); mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  mc::add("P22.empty", [=] { std::string d = mc::pick(Toks{"", " ", "\n", "// nothing", "// nothing\n", "/* nothing */", "/*", "//", "\"", "'", ";", "{", "}"}); mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  // an error in the n-th line of a longer file is reported with that line, whatever the lines before contain
  for (int k = 0; k < 6; ++k) mc::add("P22.line/" + std::to_string(k), [=] {
    static const Toks L = {"int v# = #;\n", "// comment #\n", "/* two\nlines */\n", "string s# = \"a\nb\";\n", "\n\n", "B b# {\nint q = #; }\n", "int w# = /* c\n */ #;\r\n", "string r# = 'x\\\ny';\n"}; std::string d; int n = mc::choose(t ? 5 : 4); for (int i = 0; i < n; ++i) { std::string l = mc::pick(L); size_t q; while ((q = l.find('#')) != std::string::npos) l.replace(q, 1, std::to_string(i + 1)); d += l; }
    d += Toks{"int x = y;\nint u = 1;\n", "x = 1;\n", "int x 3;\n", "float x =\n3;\n", "int ok = 1; $\n", "ro = 3;\n"}[k]; d += "int last = 5;\n"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
#endif
#if ON(23)
  // all statement sequences over declarations, assignments and block structure; compares every variable of the resulting tree
  struct Al { const char *n; Toks s; int depth, deep; };
  static const std::vector<Al> AL = {
    {"scope", {"int a = 1;", "int a = 2;", "float a = t;", "int b = a + 10;", "a = 5;", "a = b;", "A n {", "B m {", "}", "int c = n:a;", "n:a = 7;", "int d = m:n:a;"}, 5, 6},
    {"types", {"int i = 3;", "float f = 2.75;", "string s = \"41\";", "i = f;", "f = i;", "s = f;", "i = s;", "f = s;", "s = i;", "f = t;", "i = t*2;", "s = \"x\";", "s = k;"}, 4, 5},
    {"defer", {"float a = t;", "float b = a*2;", "float a = 1.0;", "a = 3.0;", "b = a + t;", "a = t*t;", "b = a;", "a = b + 1;", "int c = k;", "a = c;", "float c = b;", "c = a + b;"}, 5, 6},
    {"blocks", {"A x {", "A y {", "B x {", "A {", "B {", "}", "int v = 1;", "v = v + 1;", "int w = x:v;", "x:v = 9;", "int u = y:x:v;", "A:v = 3;"}, 5, 6},
    {"lists", {"int a = 1, b = 2;", "int a = 1, a = 2;", "float c = 1.5, d = t, e = c;", "float c = 1.5;", "float d = c, e = 2.0;", "int b = a, c = a;", "string s = \"p\", r = s;", "float x = 1.0, y = 2;", "A n {", "}", "a = 4;", "d = c;"}, 4, 5},
    {"fixed", {"ro = 5;", "ro = t;", "ro = k;", "ro = ro;", "t = 1.0;", "t = t;", "t = k;", "k = 2;", "k = t*2;", "int a = ro;", "float a = t;", "a = ro + k;", "A n {", "}", "int ro = 3;", "float t = 2.0;", "ro = a;", "t = a;"}, 4, 5},
  };
  for (auto &al : AL) for (size_t f = 0; f < al.s.size(); ++f) for (size_t g = 0; g < al.s.size(); ++g) mc::add(std::string("P23.") + al.n + "/" + std::to_string(f) + "." + std::to_string(g), [=] {
    // sequences that contain an error stop there, so extensions of a failing prefix are pruned
    std::string d; int n = t ? al.deep : al.depth; auto st = [&](size_t i) { d += al.s[i] + "\n"; std::string close; ref::Interp::Result r; { World q; r = q.in.run(d); for (ref::Blk *c = q.in.cur; c != &q.in.root; c = c->parent) close += "}"; } mc::op(d + close); r = both(d + close); mc::state(mc::hashStr(d + close)); return r.kind == 0 || r.kind == ref::Interp::Result::Eval && r.what == "circular"; };
    if (!st(f)) return; if (!st(g)) return; for (int i = 2; i < n; ++i) { int c = mc::choose((int)al.s.size() + 1); if (c == 0) return; if (!st(c - 1)) return; } });
  // every declared type with every kind of initialiser (constant, variable and deferred, of every type), as the first, second and third of a list, and assignments of each of them
  for (int ty = 0; ty < 3; ++ty) mc::add("P23.declare/" + std::to_string(ty), [=] {
    static const Toks TY = {"int", "float", "string"}, EX = {"1", "1.5", "\"5\"", "\"q\"", "'7.5'", "-2", "-0.5", "i", "f", "s", "k", "t", "u", "i+1", "i*0.5", "f+i", "k*2", "k*0.5", "t+k", "t*t", "\"a\"+1", "s+f", "\"n\"+k", "u+i", "2^2", "2.0^2", "(1)", "(t)", "(s)", "ro", "1/3", "1.0/3"};
    const std::string pre = "int i = 3; float f = 2.75; string s = \"41\"; string u = \"r\" + k;\n"; int n = 1 + mc::choose(t ? 3 : 2); std::string d = pre + TY[ty] + " ";
    for (int j = 0; j < n; ++j) d += std::string(j ? ", v" : "v") + std::to_string(j) + " = " + mc::pick(EX); d += ";";
    mc::op(d); auto r = both(d); mc::state(mc::hashStr(d)); if (r.kind || n > 1) return; d += " v0 = " + mc::pick(EX) + ";"; mc::op(d); both(d); mc::state(mc::hashStr(d)); });
  // deferred values follow the independent variables after every re-evaluation of the whole tree
  mc::add("P23.update", [=] {
    static const Toks ST = {"float a = t*2;\n", "float a = 1.5;\n", "int b = k - 1;\n", "float c = a + b;\n", "B x { float d = a - t; float a = 100.0; }\n", "a = b;\n", "string s = b;\n", "string s = \"v\" + b;\n", "float e = x:d;\n", "c = x:d + x:a;\n"};
    std::string d; int n = 1 + mc::choose(t ? 6 : 5); int last = -1; for (int i = 0; i < n; ++i) { last += 1 + mc::choose((int)ST.size() - last - 1 > 0 ? (int)ST.size() - last - 1 : 1); if (last >= (int)ST.size()) return; d += ST[last]; }
    mc::op(d); World w; auto r = w.parse(d); if (r.kind) return; mc::state(mc::hashStr(d)); DependencyMap dm(w.vs.getRootBlock());
    for (int i = 0; i < 3; ++i) { w.t = i * 1.25 - 1; w.k = 5 - 3 * i; dm.updateAll(); compareTree(d, w.vs.getRootBlock(), w.in.root); } });
  // the tree built by the program: all histories of blocks, variables and cursor movements
  for (int f0 = 0; f0 < 6; ++f0) for (int f1 = 0; f1 < 7; ++f1) mc::add("P23.storage/" + std::to_string(f0) + std::to_string(f1), [=] {
    struct N { std::string name; N *up; std::map<std::string, int> vars; std::vector<std::unique_ptr<N>> kids; pBlockVariables real; N *kid(const std::string &n) { for (auto &k : kids) if (k->name == n) return k.get(); return nullptr; } };
    N root{"root", nullptr, {}, {}, {}}; N *cur = &root; VariableStorage first("root", "R"), copy(first); VariableStorage *vs = &first; root.real = first.getRootBlock(); int cnt = 0; std::string log; std::map<int, pVariable> made; std::vector<N*> all{&root};
    N *curOther = nullptr; bool copied = false;
    int n = t ? 7 : 5; for (int k = 0; k < n; ++k) { int op = k == 0 ? f0 : k == 1 ? f1 : mc::choose(7); mc::step(); bool threw = false;
      switch (op) {
        case 0: case 1: { std::string nm = op ? "b" : "a"; log += " block " + nm; pBlockVariables b; try { b = vs->createBlock(nm, "C" + nm); } catch (DuplicateBlockException &) { threw = true; } MC_REQUIRE(threw == (bool)cur->kid(nm), "storage", "a second block of one name" << (threw ? " reported wrongly" : " accepted") << " after" << log);
          if (!threw) { cur->kids.emplace_back(new N{nm, cur, {}, {}, b}); cur = cur->kids.back().get(); all.push_back(cur); MC_REQUIRE(b == vs->getCurrentBlock() && b->getBlockName() == nm && b->getClassName() == "C" + nm, "storage", "wrong current block after" << log); } break; }
        case 2: log += " up"; vs->cursorUp(); if (cur->up) cur = cur->up; break;
        case 3: log += " reset"; vs->resetCursor(); cur = &root; break;
        case 4: case 5: { std::string nm = op == 4 ? "x" : "a"; log += " var " + nm; pVariable v(new Variable(++cnt)); try { vs->addVariable(nm, v); } catch (DuplicateVariableException &) { threw = true; } MC_REQUIRE(threw == (cur->vars.count(nm) > 0), "storage", "a second variable of one name" << (threw ? " reported wrongly" : " accepted") << " after" << log); if (!threw) { cur->vars[nm] = cnt; made[cnt] = v; } break; }
        default: if (copied) { log += " other handle"; std::swap(cur, curOther); vs = vs == &first ? &copy : &first; } else { log += " copy"; copied = true; copy.~VariableStorage(); new (&copy) VariableStorage(first); curOther = cur; } }
      MC_REQUIRE(vs->getCurrentBlock() == cur->real && vs->getRootBlock() == root.real, "storage", "the cursor is at the wrong block after" << log); }
    mc::op(log); static const Toks names = {"x", "a", "b", "a:x", "b:x", "a:a", "a:b:x", "b:a:a", "a:a:x", "b:b", "a:a:a:x"};
    for (N *b : all) { MC_REQUIRE((b->up ? b->up->real : pBlockVariables()) == b->real->getParent() && b->real->getChildren().size() == b->kids.size() && b->real->getVariables().size() == b->vars.size(), "storage", "parent, number of children or of variables of " << b->name << " after" << log); { auto it = b->kids.begin(); for (auto &c : b->real->getChildren()) MC_REQUIRE(c == (*it++)->real, "storage", "children of " << b->name << " after" << log); }
      for (auto &nm : names) { std::vector<std::string> path; std::istringstream is(nm); std::string part; while (std::getline(is, part, ':')) path.push_back(part);
        int want = 0; for (N *c = b; c; c = c->up) { if (path.size() == 1) { if (c->vars.count(nm)) { want = c->vars[nm]; break; } } else if (N *d = c->kid(path[0])) { for (size_t q = 1; d && q + 1 < path.size(); ++q) d = d->kid(path[q]); if (d && d->vars.count(path.back())) want = d->vars[path.back()]; break; } }
        pVariable got; try { got = b->real->getVariable(nm); } catch (VariableNotFoundException &) {} MC_REQUIRE(got == (want ? made[want] : pVariable()), "storage", nm << " from " << b->name << (got ? " denotes another variable" : " not found") << " after" << log); MC_REQUIRE(b->real->exists(nm) == (want > 0), "storage", "exists(" << nm << ") from " << b->name << " after" << log); } } });
  // exists() agrees with the lookup, from every block of the tree
  mc::add("P23.exists", [=] {
    static const Toks D = {"int a = 1; A n { int b = 2; B m { int c = 3; A n { int a = 4; } } B p { int b = 5; } } B m { int z = 6; }", "A n { A n { A n { int a = 1; } int b = 2; } }", "int a = 1; A x { } A y { int a = 2; A x { int c = 1; } }"};
    static const Toks N = {"a", "b", "c", "z", "q", "n:b", "n:m:c", "m:c", "n:n:a", "m:z", "n:a", "p:b", "n:p:b", "x:a", "y:a", "y:x:c", "x:c", "n:m:n:a", "m:n:a", "y:x:a"};
    std::string d = mc::pick(D); World w; w.parse(d); std::string n = mc::pick(N); mc::op(d + " ? " + n);
    std::function<void(pBlockVariables, ref::Blk&)> go = [&](pBlockVariables b, ref::Blk &r) { ref::pVar want = ref::find(&r, n); bool found = true; pVariable v; try { v = b->getVariable(n); } catch (VariableNotFoundException &) { found = false; } MC_REQUIRE(found == (bool)want, "lookup", n << " from " << r.name << (found ? " found" : " not found") << " in " << d); MC_REQUIRE(b->exists(n) == (bool)want, "exists", "exists(" << n << ") from " << r.name << " in " << d); if (want) MC_REQUIRE(ref::same(toRef(v->getValue()), want->get()), "lookup", n << " from " << r.name << " finds another variable in " << d); auto i = b->getChildren().begin(); for (auto &c : r.children) go(*i++, *c); };
    go(w.vs.getRootBlock(), w.in.root); });
#endif
}
