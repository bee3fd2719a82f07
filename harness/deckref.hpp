// Reference interpreter for setup files, written from the manual and the grammar description, independent of the
// library: scanner, syntax, scoping, type promotion, immediate evaluation of constants, deferred evaluation otherwise.
#ifndef VERIF_DECKREF_HPP
#define VERIF_DECKREF_HPP
#include <limits>
#include <cctype>
#include <climits>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <variant>
#include <vector>
#include <boost/lexical_cast.hpp>
namespace ref {
typedef std::variant<int, double, std::string> Val;   // index 0,1,2 = int, float, string
inline std::string show(const Val &v) { if (v.index() == 0) return "int " + std::to_string(std::get<0>(v)); if (v.index() == 1) { char b[64]; snprintf(b, 64, "float %.17g", std::get<1>(v)); return b; } return "string \"" + std::get<2>(v) + "\""; }
inline bool same(const Val &a, const Val &b) { if (a.index() != b.index()) return false; if (a.index() == 1) { double x = std::get<1>(a), y = std::get<1>(b); return x == y || (x != x && y != y); } return a == b; }

enum K { END, ID, INT, FLT, STR, TYPE, EQ, LB, RB, LP, RP, SEMI, COMMA, PLUS, MINUS, TIMES, DIV, POW };
struct Tok { K k; std::string s; int line; };
struct SyntaxError { int tok, line; };            // tok = index of the offending token (tokens.size() at the end of input)
struct SemanticError { int line; std::string what; };
struct EvalError { std::string what; };           // errors that are evaluation errors in the library
struct ScanError { int line, first; };

inline std::vector<Tok> scan(const std::string &in) {
  std::vector<Tok> out; size_t i = 0; int line = 1; auto al = [](char c) { return isalpha((unsigned char)c) || c == '_'; }; auto dg = [](char c) { return c >= '0' && c <= '9'; };
  while (i < in.size()) {
    unsigned char c = in[i];
    if (c < 0x21 || c > 0x7e) { if (c == '\n') ++line; ++i; continue; }
    if (c == '/' && i + 1 < in.size() && in[i + 1] == '/') { while (i < in.size() && in[i] != '\n') ++i; continue; }
    if (c == '/' && i + 1 < in.size() && in[i + 1] == '*') { size_t e = in.find("*/", i + 2); if (e == std::string::npos) { int f = line; for (; i < in.size(); ++i) if (in[i] == '\n') ++line; throw ScanError{line, f}; } for (; i < e + 2; ++i) if (in[i] == '\n') ++line; continue; }
    if (c == '"' || c == '\'') {
      // longest match: the literal ends at the first unescaped quote of the same kind
      size_t j = i + 1; int l = line; while (j < in.size() && in[j] != (char)c) { if (in[j] == '\n') ++l; if (in[j] == '\\') { ++j; if (j < in.size() && in[j] == '\n') ++l; } ++j; }
      if (j >= in.size()) throw ScanError{l, line};
      line = l; out.push_back({STR, in.substr(i + 1, j - i - 1), line}); i = j + 1; continue;
    }
    if (al(c)) {
      size_t j = i; while (j < in.size() && (al(in[j]) || dg(in[j]) || in[j] == ':')) ++j; std::string w = in.substr(i, j - i); i = j;
      if (w == "int" || w == "integer") out.push_back({TYPE, "int", line}); else if (w == "float" || w == "double" || w == "real") out.push_back({TYPE, "float", line}); else if (w == "string") out.push_back({TYPE, "string", line}); else out.push_back({ID, w, line});
      continue;
    }
    if (dg(c) || (c == '.')) {
      size_t j = i; bool flt = false; while (j < in.size() && dg(in[j])) ++j;
      auto expo = [&](size_t p) -> size_t { if (p < in.size() && (in[p] == 'e' || in[p] == 'E')) { size_t q = p + 1; if (q < in.size() && (in[q] == '+' || in[q] == '-')) ++q; if (q < in.size() && dg(in[q])) { while (q < in.size() && dg(in[q])) ++q; return q; } } return p; };
      if (j < in.size() && in[j] == '.') { flt = true; ++j; while (j < in.size() && dg(in[j])) ++j; j = expo(j); }
      else { size_t q = expo(j); if (q != j) { flt = true; j = q; } }
      out.push_back({flt ? FLT : INT, in.substr(i, j - i), line}); i = j; continue;
    }
    static const std::map<char, K> sym = {{'=', EQ}, {'{', LB}, {'}', RB}, {'(', LP}, {')', RP}, {';', SEMI}, {',', COMMA}, {'+', PLUS}, {'-', MINUS}, {'*', TIMES}, {'/', DIV}, {'^', POW}};
    auto it = sym.find((char)c); if (it == sym.end()) throw ScanError{line, line};
    out.push_back({it->second, std::string(1, c), line}); ++i;
  }
  return out;
}

inline Val cast(const Val &v, int type) {
  if ((int)v.index() == type) return v;
  if (type == 0) { if (v.index() == 1) return (int)std::get<1>(v); try { return boost::lexical_cast<int>(std::get<2>(v)); } catch (boost::bad_lexical_cast &) { throw EvalError{"conversion to int"}; } }
  if (type == 1) { if (v.index() == 0) return (double)std::get<0>(v); try { return boost::lexical_cast<double>(std::get<2>(v)); } catch (boost::bad_lexical_cast &) { throw EvalError{"conversion to float"}; } }
  if (v.index() == 0) return boost::lexical_cast<std::string>(std::get<0>(v));
  return boost::lexical_cast<std::string>(std::get<1>(v));
}
struct Var; typedef std::shared_ptr<Var> pVar; struct Ex; typedef std::shared_ptr<Ex> pEx;
struct Func { std::vector<int> args; int ret; std::function<Val(const std::vector<Val>&)> f; bool always; };
struct Ex {
  enum Kind { LIT, REF, EXT, NEG, ADD, MUL, EXPO, CALL, CAST } kind; int type;
  Val lit; pVar var; std::function<Val()> ext; std::vector<std::pair<K, pEx>> ops; const Func *fn = nullptr; std::string text;
  Val eval(); bool constant(); void deps(std::set<Var*> &d);
};
struct Var { int type; bool fixed = true, initialised = true, readonly = false; Val val; pEx ex; bool busy = false;
  Val get() { if (fixed) return val; if (busy) throw EvalError{"circular"}; busy = true; try { Val v = ex->eval(); busy = false; return v; } catch (...) { busy = false; throw; } } };
inline Val arith(K o, const Val &a, const Val &b, int type) {
  if (type == 2) return o == PLUS ? Val(std::get<2>(a) + std::get<2>(b)) : Val(std::string());
  if (type == 1) { double x = std::get<1>(a), y = std::get<1>(b); return o == PLUS ? x + y : o == MINUS ? x - y : o == TIMES ? x * y : x / y; }
  int x = std::get<0>(a), y = std::get<0>(b);
  if (o == DIV) { if (y == 0) throw EvalError{"division by zero"}; if (y == -1 && x == std::numeric_limits<int>::min()) throw EvalError{"overflow"}; return x / y; }
  return o == PLUS ? x + y : o == MINUS ? x - y : x * y;
}
inline Val Ex::eval() {
  switch (kind) {
    case LIT: return lit; case REF: return var->get(); case EXT: return ext();
    case NEG: { Val v = ops[0].second->eval(); if (v.index() == 0) return -std::get<0>(v); if (v.index() == 1) return -std::get<1>(v); return std::string(); }
    case CAST: return cast(ops[0].second->eval(), type);
    case ADD: case MUL: { Val a = cast(ops[0].second->eval(), type); for (size_t i = 1; i < ops.size(); ++i) a = arith(ops[i].first, a, cast(ops[i].second->eval(), type), type); return a; }
    case EXPO: { Val a = cast(ops[0].second->eval(), type), b = cast(ops[1].second->eval(), type); if (type == 2) return std::string(); if (type == 1) return std::pow(std::get<1>(a), std::get<1>(b)); return (int)std::pow((double)std::get<0>(a), (double)std::get<0>(b)); }
    case CALL: { std::vector<Val> v; for (size_t i = 0; i < ops.size(); ++i) v.push_back(cast(ops[i].second->eval(), fn->args[i])); return fn->f(v); }
  }
  return 0;
}
inline bool Ex::constant() {
  if (kind == LIT) return true; if (kind == EXT) return false; if (kind == REF) return var->fixed; if (kind == CALL && fn->always) return false;
  for (auto &o : ops) if (!o.second->constant()) return false; return true;
}
inline void Ex::deps(std::set<Var*> &d) { if (kind == REF) d.insert(var.get()); for (auto &o : ops) o.second->deps(d); }

struct Blk { std::string name, cls; Blk *parent = nullptr; std::list<std::unique_ptr<Blk>> children; std::map<std::string, pVar> vars; };
inline pVar lookup(Blk *b, std::vector<std::string> path, bool up) {
  if (path.size() > 1) { for (auto &c : b->children) if (c->name == path[0]) return lookup(c.get(), std::vector<std::string>(path.begin() + 1, path.end()), false); }
  else { auto it = b->vars.find(path[0]); if (it != b->vars.end()) return it->second; }
  return up && b->parent ? lookup(b->parent, path, true) : nullptr;
}
inline pVar find(Blk *b, const std::string &n) { std::vector<std::string> p(1); for (char c : n) if (c == ':') p.push_back(""); else p.back() += c; return lookup(b, p, true); }

// Interprets a whole deck.  Syntax is decided first (for the complete token list), then statements are executed in order.
struct Interp {
  Blk root; Blk *cur = &root; std::map<std::string, Func> funcs; bool restricted = false; std::map<std::string, std::set<std::string>> allowed;
  std::function<void(Blk&)> onBlock;               // adds the parameters of a block when it is opened
  std::function<bool(const std::string &)> known = [](const std::string &) { return true; };
  std::vector<Tok> t; size_t p = 0;
  struct Result { enum { Ok, Syntax, Semantic, Eval, Scan } kind = Ok; int line = 0; int firstLine = 0; std::string what; bool unclosed = false; };

  K peek(size_t o = 0) const { return p + o < t.size() ? t[p + o].k : END; }
  [[noreturn]] void bad() { throw SyntaxError{(int)p, p < t.size() ? t[p].line : (t.empty() ? 1 : t.back().line)}; }
  void need(K k) { if (peek() != k) bad(); ++p; }
  // --- syntax only (recursive descent over the documented grammar) -------------------------------------
  void synExpr() { if (peek() == PLUS || peek() == MINUS) ++p; synTerm(); while (peek() == PLUS || peek() == MINUS) { ++p; synTerm(); } }
  void synTerm() { synPow(); while (peek() == TIMES || peek() == DIV) { ++p; synPow(); } }
  void synPow() { synAtom(); if (peek() == POW) { ++p; if (peek() == PLUS || peek() == MINUS) ++p; synAtom(); } }
  void synAtom() {
    switch (peek()) { case INT: case FLT: case STR: ++p; return;
      case LP: ++p; synExpr(); need(RP); return;
      case ID: ++p; if (peek() == LP) { ++p; if (peek() == RP) { ++p; return; } synExpr(); while (peek() == COMMA) { ++p; synExpr(); } need(RP); } return;
      default: bad(); } }
  void synStatement() {
    if (peek() == TYPE) { ++p; for (;;) { need(ID); if (peek() == EQ) { ++p; synExpr(); } if (peek() == COMMA) { ++p; continue; } need(SEMI); return; } }
    if (peek() == RB) { ++p; return; }
    if (peek() == ID) { ++p; if (peek() == EQ) { ++p; synExpr(); need(SEMI); return; } if (peek() == LB) { ++p; return; } if (peek() == ID) { ++p; need(LB); return; } bad(); }
    bad();
  }
  // --- semantics -----------------------------------------------------------------------------------------
  static pEx mk(Ex::Kind k, int type) { auto e = std::make_shared<Ex>(); e->kind = k; e->type = type; return e; }
  pEx expr() {
    bool neg = false; if (peek() == PLUS || peek() == MINUS) { neg = peek() == MINUS; ++p; }
    pEx a = term(); if (neg) { auto n = mk(Ex::NEG, a->type); n->ops.push_back({PLUS, a}); a = n; }
    if (peek() != PLUS && peek() != MINUS) return a;
    auto c = mk(Ex::ADD, a->type); c->ops.push_back({PLUS, a});
    while (peek() == PLUS || peek() == MINUS) { K o = peek(); ++p; pEx b = term(); c->ops.push_back({o, b}); c->type = std::max(c->type, b->type); }
    return c;
  }
  pEx term() {
    pEx a = power(); if (peek() != TIMES && peek() != DIV) return a;
    auto c = mk(Ex::MUL, a->type); c->ops.push_back({TIMES, a});
    while (peek() == TIMES || peek() == DIV) { K o = peek(); ++p; pEx b = power(); c->ops.push_back({o, b}); c->type = std::max(c->type, b->type); }
    return c;
  }
  pEx power() {
    pEx a = atom(); if (peek() != POW) return a; ++p; bool neg = false; if (peek() == PLUS || peek() == MINUS) { neg = peek() == MINUS; ++p; }
    pEx b = atom(); if (neg) { auto n = mk(Ex::NEG, b->type); n->ops.push_back({PLUS, b}); b = n; }
    auto c = mk(Ex::EXPO, std::max(a->type, b->type)); c->ops = {{PLUS, a}, {PLUS, b}}; return c;
  }
  pEx atom() {
    Tok k = t[p++];
    if (k.k == INT) { auto e = mk(Ex::LIT, 0); try { e->lit = boost::lexical_cast<int>(k.s); } catch (boost::bad_lexical_cast &) { throw SemanticError{k.line, "integer out of range"}; } return e; }
    if (k.k == FLT) { auto e = mk(Ex::LIT, 1); try { e->lit = boost::lexical_cast<double>(k.s); } catch (boost::bad_lexical_cast &) { throw SemanticError{k.line, "not a number"}; } return e; }
    if (k.k == STR) { auto e = mk(Ex::LIT, 2); e->lit = k.s; return e; }
    if (k.k == LP) { pEx e = expr(); ++p; auto c = mk(Ex::CAST, e->type); c->ops = {{PLUS, e}}; return c; }
    if (peek() == LP) {
      ++p; std::vector<pEx> args; if (peek() != RP) { args.push_back(expr()); while (peek() == COMMA) { ++p; args.push_back(expr()); } } ++p;
      auto it = funcs.find(k.s); if (it == funcs.end()) throw EvalError{"function " + k.s}; if (it->second.args.size() != args.size()) throw EvalError{"arguments of " + k.s};
      auto e = mk(Ex::CALL, it->second.ret); e->fn = &it->second; for (auto &a : args) e->ops.push_back({PLUS, a}); return e;
    }
    pVar v = find(cur, k.s); if (!v) throw SemanticError{k.line, "undefined " + k.s};
    auto e = mk(Ex::REF, v->type); e->var = v; return e;
  }
  void store(pVar v, pEx e) { if (e->constant()) { v->val = e->eval(); v->fixed = true; } else { v->fixed = false; v->ex = e; } }
  void statement() {
    if (peek() == TYPE) {
      Tok ty = t[p++]; int type = ty.s == "int" ? 0 : ty.s == "float" ? 1 : 2;
      struct D { Tok id; pEx e; }; std::vector<D> ds;
      for (;;) { D d; d.id = t[p++]; if (peek() == EQ) { ++p; d.e = expr(); } ds.push_back(d); if (peek() == COMMA) { ++p; continue; } ++p; break; }
      for (size_t i = ds.size(); i-- > 0;) {       // the declarations of a list are independent of each other
        D &d = ds[i]; if (!d.e) throw SemanticError{d.id.line, "uninitialised"};
        auto v = std::make_shared<Var>(); v->type = d.e->type; store(v, d.e);
        if (d.e->type != type) throw SemanticError{ty.line, "type"};
        if (cur->vars.count(d.id.s)) throw SemanticError{d.id.line, "redeclaration"};
        cur->vars[d.id.s] = v;
      }
      return;
    }
    if (peek() == RB) { if (!cur->parent) throw SemanticError{t[p].line, "extra }"}; ++p; cur = cur->parent; return; }
    Tok id = t[p++];
    if (peek() == EQ) {
      ++p; pEx e = expr(); ++p; pVar v = find(cur, id.s); if (!v) throw SemanticError{id.line, "undeclared"};
      pEx c = e; if (e->type != v->type) { c = mk(Ex::CAST, v->type); c->ops = {{PLUS, e}}; }
      if (c->constant()) { Val x = c->eval(); if (v->readonly) throw SemanticError{id.line, "readonly"}; v->val = x; v->fixed = true; v->initialised = true; }
      else { if (v->readonly) throw SemanticError{id.line, "readonly"}; v->fixed = false; v->ex = c; v->initialised = true; }
      return;
    }
    Tok name = id; if (peek() == ID) name = t[p++]; ++p;
    if (restricted) { if (!allowed.count(cur->cls)) throw SemanticError{name.line, "unknown class"}; if (!allowed[cur->cls].count(id.s)) throw SemanticError{name.line, "not allowed"}; }
    for (auto &c : cur->children) if (c->name == name.s) throw SemanticError{name.line, "duplicate block"};
    auto b = std::make_unique<Blk>(); b->name = name.s; b->cls = id.s; b->parent = cur; cur->children.push_back(std::move(b)); cur = cur->children.back().get(); allowed[id.s];
    if (onBlock) onBlock(*cur);
  }
  static void walk(Blk &b, const std::function<void(Blk&, const std::string &, Var&)> &f) { for (auto &v : b.vars) f(b, v.first, *v.second); for (auto &c : b.children) walk(*c, f); }
  bool circular() {
    std::map<Var*, int> st; bool cyc = false; std::function<void(Var*)> go = [&](Var *v) { if (v->fixed) return; if (st[v] == 1) { cyc = true; return; } if (st[v] == 2) return; st[v] = 1; std::set<Var*> d; v->ex->deps(d); for (Var *w : d) go(w); st[v] = 2; };
    walk(root, [&](Blk &, const std::string &, Var &v) { go(&v); }); return cyc;
  }
  Result run(const std::string &text) {
    Result r; int scanErr = -1; std::string src = text;
    try { t = scan(src); } catch (ScanError &e) { r.kind = Result::Scan; r.line = e.line; r.firstLine = e.first; return r; }
    std::vector<size_t> starts; int synTok = -1, synLine = 0; p = 0;
    try { if (t.empty()) bad(); while (p < t.size()) { starts.push_back(p); synStatement(); } } catch (SyntaxError &e) { synTok = e.tok; synLine = e.line; }
    size_t n = starts.size() - (synTok >= 0 && !starts.empty() ? 1 : 0);
    try { for (size_t i = 0; i < n; ++i) { p = starts[i]; r.firstLine = t[p].line; statement(); } }
    catch (SemanticError &e) { r.kind = Result::Semantic; r.line = e.line; r.what = e.what; return r; }
    catch (EvalError &e) { r.kind = Result::Eval; r.what = e.what; return r; }
    if (synTok >= 0) { r.kind = Result::Syntax; r.line = synLine; r.firstLine = starts.empty() ? synLine : t[starts.back()].line; return r; }
    if (cur != &root) { r.kind = Result::Syntax; r.unclosed = true; r.line = t.back().line; r.firstLine = r.line; return r; }
    if (circular()) { r.kind = Result::Eval; r.what = "circular"; return r; }
    return r;
  }
};
} // namespace ref
#endif
