// Runs a setup file through the library and through the reference interpreter and compares everything observable.
#ifndef VERIF_DECK_COMMON_HPP
#define VERIF_DECK_COMMON_HPP
#include "mc.hpp"
#include "deckref.hpp"
#include "parser/parser.hpp"
#include "parser/parsertoken.hpp"
#include "variables/block.hpp"
#include "variables/blockclasses.hpp"
#include "variables/blockparameters.hpp"
#include "variables/dependencies.hpp"
#include "variables/function_expression.hpp"
#include "variables/variables.hpp"
#include <sstream>
using namespace schnek;
#ifndef VP
#define VP 0
#endif
#define ON(n) (VP == 0 || VP == n)

inline ref::Val toRef(const ValueVariant &v) { if (auto p = boost::get<int>(&v)) return *p; if (auto p = boost::get<double>(&v)) return *p; return boost::get<std::string>(v); }

// what the library reports for a deck
struct Outcome { enum Kind { Ok, Parse, Eval, Other } kind = Ok; int line = -1; std::string file, msg; };
inline std::string show(const Outcome &o) { std::ostringstream s; static const char *n[] = {"accepted", "ParserError", "EvaluationException", "other exception"}; s << n[o.kind]; if (o.kind == Outcome::Parse) s << " line " << o.line << " in '" << o.file << "'"; if (!o.msg.empty()) s << " (" << o.msg << ")"; return s.str(); }
template<class F> Outcome guarded(F f) {
  Outcome o;
  try { f(); }
  catch (ParserError &e) { o.kind = Outcome::Parse; o.line = e.getLine(); o.file = e.getFilename(); o.msg = e.message; }
  catch (EvaluationException &e) { o.kind = Outcome::Eval; o.msg = e.getMessage(); }
  catch (SchnekException &e) { o.kind = Outcome::Other; o.msg = "SchnekException"; }
  catch (std::exception &e) { o.kind = Outcome::Other; o.msg = e.what(); }
  return o;
}
inline std::string show(const ref::Interp::Result &r) { static const char *n[] = {"accepted", "syntax error", "semantic error", "evaluation error", "invalid character/unterminated"}; std::ostringstream s; s << n[r.kind]; if (r.kind) s << " line " << r.line << " " << r.what; return s.str(); }

// compares the verdict on a deck; the reported line must be that of the offending token
inline void compareVerdict(const std::string &deck, const Outcome &o, const ref::Interp::Result &r) {
  using R = ref::Interp::Result;
  std::ostringstream info; info << "deck:\n" << deck << "\n--- library: " << show(o) << "; expected: " << show(r);
  MC_REQUIRE(o.kind != Outcome::Other, "exception-type", "unexpected exception type. " << info.str());
  if (r.kind == R::Ok) MC_REQUIRE(o.kind == Outcome::Ok, "valid-rejected", "a valid setup file is rejected. " << info.str());
  else MC_REQUIRE(o.kind != Outcome::Ok, "invalid-accepted", "an invalid setup file is accepted. " << info.str());
  if (o.kind == Outcome::Parse) {
    MC_REQUIRE(o.file == "the file", "file", "wrong file name in the error. " << info.str());
    if (r.kind == R::Semantic) MC_REQUIRE(o.line == r.line, "line", "wrong line in the error. " << info.str());
    // a statement with a syntax error may also contain another error before it
    if (r.kind == R::Syntax) MC_REQUIRE(o.line >= r.firstLine && o.line <= r.line && (o.line == r.line || o.msg.find("Syntax") == std::string::npos), "line", "wrong line in the error. " << info.str());
    if (r.kind == R::Scan) MC_REQUIRE(o.line >= r.firstLine && o.line <= r.line, "line", "wrong line in the error. " << info.str());
  }
  if (r.kind == R::Scan) MC_REQUIRE(o.kind == Outcome::Parse, "error-kind", "expected a ParserError. " << info.str());
  if (r.kind == R::Semantic) MC_REQUIRE(o.kind == Outcome::Parse, "error-kind", "expected a ParserError. " << info.str());
  if (r.kind == R::Eval) MC_REQUIRE(o.kind == Outcome::Eval, "error-kind", "expected an EvaluationException. " << info.str());
}
// all variables of the tree: same names, types, constancy and (evaluated) values
inline void compareTree(const std::string &deck, pBlockVariables b, ref::Blk &r, bool values = true) {
  std::ostringstream where; where << " in block '" << r.name << "' of deck:\n" << deck;
  MC_REQUIRE(b->getBlockName() == r.name && b->getClassName() == r.cls, "block", "block named " << b->getBlockName() << "/" << b->getClassName() << where.str());
  MC_REQUIRE(b->getVariables().size() == r.vars.size(), "variables", b->getVariables().size() << " variables, expected " << r.vars.size() << where.str());
  for (auto &kv : r.vars) {
    auto it = b->getVariables().find(kv.first); MC_REQUIRE(it != b->getVariables().end(), "variables", "variable " << kv.first << " missing" << where.str());
    ref::Var &v = *kv.second; Variable &lv = *it->second;
    MC_REQUIRE((int)lv.getType() == v.type, "type", "variable " << kv.first << " has type " << lv.getType() << where.str());
    MC_REQUIRE(lv.isConstant() == v.fixed && lv.isReadOnly() == v.readonly && lv.isInitialised() == v.initialised, "flags", "variable " << kv.first << " constant/readonly/initialised " << lv.isConstant() << lv.isReadOnly() << lv.isInitialised() << where.str());
    if (values && v.initialised) {
      ref::Val want; bool err = false; try { want = v.get(); } catch (ref::EvalError &) { err = true; }
      if (!err) { ref::Val got = toRef(lv.getValue()); MC_REQUIRE(ref::same(got, want), "value", "variable " << kv.first << " is " << ref::show(got) << ", expected " << ref::show(want) << where.str()); }
    }
  }
  MC_REQUIRE(b->getChildren().size() == r.children.size(), "children", b->getChildren().size() << " child blocks, expected " << r.children.size() << where.str());
  auto it = b->getChildren().begin(); for (auto &c : r.children) compareTree(deck, *it++, *c, values);
}
#endif
