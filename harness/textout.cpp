// P32: literature references (BibTeX and information output)      P33: text output of arrays and grids, mean
#include "mc.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#if VP == 32
#include <tools/literature.hpp>
using namespace schnek;
typedef LiteratureReference Ref;
typedef std::map<std::string, std::string> Fields;
struct Entry { std::string type, key; Fields f; bool operator==(const Entry &o) const { return type == o.type && key == o.key && f == o.f; } };
static std::string show(const Entry &e) { std::string s = "@" + e.type + "{" + e.key; for (auto &p : e.f) s += ", " + p.first + "={" + p.second + "}"; return s + "}"; }

// ---- a small, layout independent BibTeX reader ----------------------------------------------------
struct Bib {
  std::string t; size_t i = 0;
  [[noreturn]] void bad(const std::string &m) { mc::fail("bibtex-syntax", m + " at offset " + std::to_string(i) + " of:\n" + t); }
  void ws() { while (i < t.size() && isspace((unsigned char)t[i])) ++i; }
  bool is(char c) { ws(); if (i < t.size() && t[i] == c) { ++i; return true; } return false; }
  void need(char c) { if (!is(c)) bad(std::string("expected '") + c + "'"); }
  std::string word(const char *stop) { ws(); size_t a = i; while (i < t.size() && !strchr(stop, t[i])) ++i; size_t b = i; while (b > a && isspace((unsigned char)t[b - 1])) --b; return t.substr(a, b - a); }
  std::string braced() { need('{'); size_t a = i; int d = 1; while (i < t.size()) { if (t[i] == '{') ++d; else if (t[i] == '}' && --d == 0) return t.substr(a, i++ - a); ++i; } bad("unbalanced braces"); }
  std::vector<Entry> all() {
    std::vector<Entry> r;
    while (true) {
      ws(); if (i >= t.size()) return r;
      need('@'); Entry e; e.type = word("{"); need('{'); e.key = word(",}");
      while (is(',')) { ws(); if (i < t.size() && t[i] == '}') break; std::string n = word("="); need('='); std::string v = braced(); if (!e.f.insert({n, v}).second) bad("field " + n + " twice"); }
      need('}'); r.push_back(e);
    }
  }
};
static std::vector<Entry> parse(const std::string &s) { Bib b; b.t = s; return b.all(); }

// ---- the documented constructors -------------------------------------------------------------------
typedef std::vector<std::string> V;
struct Kind { const char *type; V args; int required; std::function<std::shared_ptr<Ref>(const std::string &, const V &, int)> make; };
template<class L, size_t... I> static std::shared_ptr<Ref> call(const std::string &k, const V &v, std::index_sequence<I...>) { return std::make_shared<L>(k, v[I]...); }
template<class L, size_t N, size_t M> struct Maker {      // call with n arguments, N <= n <= M
  static std::shared_ptr<Ref> go(const std::string &k, const V &v, int n) { if (n == (int)N) return call<L>(k, v, std::make_index_sequence<N>()); return Maker<L, N + 1, M>::go(k, v, n); }
};
template<class L, size_t M> struct Maker<L, M, M> { static std::shared_ptr<Ref> go(const std::string &k, const V &v, int) { return call<L>(k, v, std::make_index_sequence<M>()); } };
template<class L, size_t N, size_t M> static Kind kind(const char *t, const char *a) { V v; std::istringstream s(a); std::string w; while (s >> w) v.push_back(w); if (v.size() != M) abort(); return Kind{t, v, (int)N, &Maker<L, N, M>::go}; }
static const std::vector<Kind> &kinds() {
  static std::vector<Kind> k = {
    kind<LiteratureArticle, 4, 10>("article", "author title journal year volume pages number month note key"),
    kind<LiteratureBook, 5, 13>("book", "author editor title publisher year volume number series address edition month note key"),
    kind<LiteratureBooklet, 1, 8>("booklet", "title author howpublished address month year note key"),
    kind<LiteratureInBook, 7, 16>("inbook", "author editor title chapter pages publisher year volume number series type address edition month note key"),
    kind<LiteratureInCollection, 5, 17>("incollection", "author title booktitle publisher year editor volume number series type chapter pages address edition month note key"),
    kind<LiteratureInProceedings, 4, 15>("inproceedings", "author title booktitle year editor volume number series pages address month organization publisher note key"),
    kind<LiteratureProceedings, 2, 12>("proceedings", "title year editor volume number series address month organization publisher note key"),
    kind<LiteraturePhdThesis, 4, 9>("phdthesis", "author title school year type address month note key"),
    kind<LiteratureMastersThesis, 4, 9>("mastersthesis", "author title school year type address month note key"),
    kind<LiteratureManual, 1, 9>("manual", "title author organization address edition year publisher note key"),
    kind<LiteratureTechReport, 4, 10>("techreport", "author title institution year type number address month note key"),
    kind<LiteratureMisc, 2, 7>("misc", "author title howpublished month year note key"),
    kind<LiteratureUnpublished, 4, 6>("unpublished", "author title note year month key"),
  };
  return k;
}
struct Acc { const char *name; void (Ref::*set)(std::string); std::string (Ref::*get)() const; };
#define A(n, N) {#n, &Ref::set##N, &Ref::get##N}
static const std::vector<Acc> &accs() {
  static std::vector<Acc> a = {A(address, Address), A(annote, Annote), A(author, Author), A(booktitle, Booktitle), A(chapter, Chapter), A(crossref, Crossref), A(edition, Edition), A(editor, Editor), A(eprint, Eprint),
    A(howpublished, Howpublished), A(institution, Institution), A(journal, Journal), A(key, Key), A(month, Month), A(note, Note), A(number, Number), A(organization, Organization), A(pages, Pages), A(publisher, Publisher),
    A(school, School), A(series, Series), A(title, Title), A(type, Type), A(url, Url), A(doi, Doi), A(volume, Volume), A(year, Year)};
  return a;
}
static std::string text(const Ref &r) { std::ostringstream o; o << r; return o.str(); }
static void checkRef(const Ref &r, const Entry &want, const char *how) {
  std::vector<Entry> got = parse(text(r));
  MC_REQUIRE(got.size() == 1 && got[0] == want, std::string("entry-") + how, "written as " << (got.empty() ? "nothing" : show(got[0])) << ", expected " << show(want));
  for (auto &a : accs()) { auto it = want.f.find(a.name); std::string w = it == want.f.end() ? "" : it->second; MC_REQUIRE((r.*a.get)() == w, std::string("field-") + how, "field " << a.name << " is '" << (r.*a.get)() << "', expected '" << w << "'"); }
  MC_REQUIRE(r.getBibKey() == want.key, std::string("key-") + how, "key " << r.getBibKey()); MC_REQUIRE(r.getPublicationTypeString() == want.type, std::string("type-") + how, "type " << r.getPublicationTypeString());
}
// every way in which a reference is handed on
static void allWays(const std::shared_ptr<Ref> &r, const Entry &want, int n) {
  checkRef(*r, want, "constructed");
  Ref c(*r); checkRef(c, want, "copied");
  Ref full("other"); for (auto &a : accs()) (full.*a.set)("old"); full.setPublicationType(want.type == "book" ? Ref::misc : Ref::book);
  full = *r; checkRef(full, want, "assigned"); checkRef(*r, want, "assigned-from");
  mc::state(mc::hashStr(show(want)) + n);
}
static std::string val(const std::string &f) { return "The {" + f + "}, 1--2 = \"x\""; }

// ---- reading the information file ------------------------------------------------------------------
typedef std::map<std::string, std::multiset<std::string>> Info;
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static Info readInfo(const std::string &t, const std::string &bib, const std::string &title, const std::string &sub) {
  auto pos = [&](const std::string &w, size_t from) { size_t p = t.find(w, from); MC_REQUIRE(p != std::string::npos, "information-structure", w << " missing from offset " << from << " in\n" << t); return p; };
  size_t p = pos("\\documentclass", 0); p = pos("\\begin{document}", p); p = pos(title, p); p = pos(sub, p + title.size()); size_t a = pos("\\begin{itemize}", p + sub.size()), b = pos("\\end{itemize}", a); p = pos("\\bibliography{" + bib + "}", b); pos("\\end{document}", p);
  std::string body = t.substr(a + 15, b - a - 15); Info r; size_t i = body.find("\\item");
  MC_REQUIRE(trim(body.substr(0, std::min(i, body.size()))).empty(), "information-structure", "text before the first item in\n" << t);
  while (i != std::string::npos) {
    size_t e = body.find("\\item", i + 5); std::string it = body.substr(i + 5, e == std::string::npos ? e : e - i - 5); i = e;
    size_t c = it.find("\\cite{"); MC_REQUIRE(c != std::string::npos, "information-structure", "item without citation in\n" << t);
    size_t ce = it.find('}', c); std::string key = it.substr(c + 6, ce - c - 6);
    MC_REQUIRE(trim(it.substr(ce + 1)).empty(), "information-structure", "text after citation in\n" << t); MC_REQUIRE(!r.count(key), "cited-twice", key << " has two items in\n" << t);
    std::istringstream l(it.substr(0, c)); std::string line; auto &s = r[key]; while (std::getline(l, line)) if (!trim(line).empty()) s.insert(trim(line));
  }
  return r;
}
struct Added { std::string desc, key; int kind; std::string variant; };
static Entry entryOf(const Added &a) { Entry e; e.type = kinds()[a.kind].type; e.key = a.key; for (auto &f : kinds()[a.kind].args) e.f[f] = val(f + a.variant); return e; }
static std::shared_ptr<Ref> refOf(const Added &a) { V v; for (auto &f : kinds()[a.kind].args) v.push_back(val(f + a.variant)); return kinds()[a.kind].make(a.key, v, (int)v.size()); }
static const char *OWN = "Schmitz2018";
struct Oracle {
  std::map<std::string, Entry> bib; Info info; Entry own;
  void add(const Added &a) { if (!info.count(a.key)) bib[a.key] = entryOf(a); if (!info[a.key].count(a.desc)) info[a.key].insert(a.desc); }
};
static void checkManager(Oracle &o, const std::string &bibfile, const std::string &title, const std::string &sub) {
  LiteratureManager &m = LiteratureManager::instance();
  std::ostringstream b, i; m.writeBibTex(b); m.writeInformation(i, bibfile);
  std::map<std::string, Entry> got; for (auto &e : parse(b.str())) MC_REQUIRE(got.insert({e.key, e}).second, "bibtex-twice", e.key << " has two entries in\n" << b.str());
  for (auto &p : o.bib) { MC_REQUIRE(got.count(p.first), "bibtex-missing", p.first << " has no entry in\n" << b.str()); MC_REQUIRE(got[p.first] == p.second, "bibtex-entry", "entry is " << show(got[p.first]) << ", added was " << show(p.second)); }
  MC_REQUIRE(got.size() == o.bib.size(), "bibtex-extra", "entries nobody added in\n" << b.str());
  Info inf = readInfo(i.str(), bibfile, title, sub);
  for (auto &p : o.info) { MC_REQUIRE(inf.count(p.first), "information-missing", p.first << " not cited in\n" << i.str()); MC_REQUIRE(inf[p.first] == p.second, "information-descriptions", "descriptions of " << p.first << " differ in\n" << i.str()); }
  MC_REQUIRE(inf.size() == o.info.size(), "information-extra", "items nobody added in\n" << i.str());
}
static void run(std::function<void()> f) {      // the manager is one object per program: every history gets a program of its own
  mc::ChildResult r = mc::inChild([&](std::ostream &out) { try { f(); out << "ok"; } catch (mc::Violation &v) { out << v.key << "\n" << v.msg; } });
  if (r.out == "ok") { mc::checked(); return; }
  size_t n = r.out.find('\n'); if (n == std::string::npos) mc::fail("stopped", "the program stopped (signal " + std::to_string(r.sig) + ")"); mc::fail(r.out.substr(0, n), r.out.substr(n + 1));
}
static Oracle start() {
  // what the manager knows initially: the reference to the library itself
  Oracle o; std::ostringstream b, i; LiteratureManager::instance().writeBibTex(b); LiteratureManager::instance().writeInformation(i, "refs");
  std::vector<Entry> e = parse(b.str()); MC_REQUIRE(e.size() == 1 && e[0].key == OWN && e[0].type == "article" && e[0].f.count("author") && e[0].f.count("title") && e[0].f.count("journal") && e[0].f.count("year"), "own-reference", "the library's own reference is wrong: " << b.str());
  o.bib[OWN] = e[0]; o.info = readInfo(i.str(), "refs", LiteratureManager::instance().getTitle(), LiteratureManager::instance().getSubtitle()); MC_REQUIRE(o.info.size() == 1 && o.info.count(OWN), "own-reference", i.str()); return o;
}
void mc_register() {
  for (size_t k = 0; k < kinds().size(); ++k) {
    mc::add(std::string("P32.fields.") + kinds()[k].type, [k] {          // all subsets of the arguments, all numbers of arguments
      const Kind &K = kinds()[k]; int n = (int)K.args.size(), given = K.required + mc::choose(n - K.required + 1);
      int bits = given; unsigned sub;
      if (mc::thorough() || bits <= 13) sub = (unsigned)mc::choose(1 << bits);
      else { sub = (unsigned)mc::choose(1 << 10); int sh = mc::choose(bits - 9); bool inv = mc::flip(); sub <<= sh; if (inv) sub = ~sub & ((1u << bits) - 1); }
      V v; Entry e; e.type = K.type; e.key = "Key2024"; for (int i = 0; i < given; ++i) { if (sub >> i & 1) { v.push_back(val(K.args[i])); e.f[K.args[i]] = v.back(); } else v.push_back(""); }
      mc::step(); mc::op(std::string(K.type) + " with " + std::to_string(given) + " arguments: " + show(e)); allWays(K.make(e.key, v, given), e, 0);
    });
  }
  for (int len = 1; len <= (mc::thorough() ? 3 : 2); ++len) mc::add("P32.setters." + std::to_string(len), [len] {
    std::shared_ptr<Ref> r; Entry e; e.key = "K";
    int start = mc::choose(3); if (start == 0) { r = std::make_shared<Ref>("K"); r->setPublicationType(Ref::misc); e.type = "misc"; } else { const Kind &K = kinds()[start == 1 ? 4 : 7]; V v; for (auto &a : K.args) { v.push_back(val(a)); e.f[a] = val(a); } r = K.make("K", v, (int)v.size()); e.type = K.type; }
    for (int i = 0; i < len; ++i) { int f = mc::choose((int)accs().size()), w = mc::choose(2 + (len < 3)); std::string s = w == 0 ? "" : w == 1 ? "value a" : "b"; mc::op(std::string("set ") + accs()[f].name + " to '" + s + "'"); ((*r).*accs()[f].set)(s); mc::step(); if (s == "") e.f.erase(accs()[f].name); else e.f[accs()[f].name] = s; }
    allWays(r, e, 1);
  });
  mc::add("P32.types", [] {      // every publication type set on a reference of every type
    static const char *n[] = {"article", "book", "booklet", "inbook", "incollection", "inproceedings", "manual", "mastersthesis", "misc", "phdthesis", "proceedings", "techreport", "unpublished"};
    static const Ref::PublicationType t[] = {Ref::article, Ref::book, Ref::booklet, Ref::inbook, Ref::incollection, Ref::inproceedings, Ref::manual, Ref::mastersthesis, Ref::misc, Ref::phdthesis, Ref::proceedings, Ref::techreport, Ref::unpublished};
    int k = mc::choose((int)kinds().size()), to = mc::choose(13); const Kind &K = kinds()[k]; V v; Entry e; e.key = "K"; for (auto &a : K.args) { v.push_back(val(a)); e.f[a] = val(a); }
    auto r = K.make("K", v, (int)v.size()); e.type = K.type; allWays(r, e, 2); r->setPublicationType(t[to]); e.type = n[to]; mc::step(); MC_REQUIRE(r->getPublicationType() == t[to], "type-set", "type is not the one set"); allWays(r, e, 3);
  });
  mc::add("P32.plain", [] {      // a reference whose type was never set behaves the same on all paths: same text everywhere
    bool withKey = mc::flip(); mc::step(); auto text2 = [&] { Ref r = withKey ? Ref("K") : Ref(); return text(r); };
    std::vector<Entry> first = parse(text2()); for (int fill = 0; fill < 4; ++fill) { alignas(Ref) unsigned char mem[sizeof(Ref)]; memset(mem, fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 1 : 4, sizeof mem); Ref *r = withKey ? new (mem) Ref("K") : new (mem) Ref(); std::vector<Entry> e = parse(text(*r)); r->~Ref(); MC_REQUIRE(e.size() == 1 && e == first, "plain-type", "a plain reference is written as " << show(e[0]) << " or as " << show(first[0]) << " depending on the memory it is created in"); }
  });
  int L = mc::thorough() ? 4 : 3;
  for (int first = 0; first < 8; ++first) mc::add("P32.history." + std::to_string(first), [L, first] {
    // all sequences of additions over keys x descriptions x contents, everything written after every step
    static const std::vector<std::string> keys = {"Alpha1", "Beta2", "alpha1", OWN}; static const std::vector<std::string> descs = {"Solves the {first} thing.", "Another method"};
    std::vector<Added> seq;
    for (int i = 0; i < L; ++i) { int c = i == 0 ? first * 2 + mc::choose(2) : mc::choose(17); if (c == 16) break; Added a; a.key = keys[c % 4]; a.desc = descs[(c / 4) % 2]; a.kind = c / 8 ? 9 : 0; a.variant = c / 8 ? " v2" : ""; seq.push_back(a); mc::op("add " + a.key + " (" + kinds()[a.kind].type + ") described as '" + a.desc + "'"); mc::step(); }
    run([&] { Oracle o = start(); std::string t = LiteratureManager::instance().getTitle(), s = LiteratureManager::instance().getSubtitle(); for (auto &a : seq) { LiteratureManager::instance().addReference(a.desc, *refOf(a)); o.add(a); checkManager(o, "refs", t, s); } checkManager(o, "other", t, s); });
    uint64_t h = 7; for (auto &a : seq) h = mc::mix(h, mc::hashStr(a.key + a.desc + a.variant)); mc::state(h);
  });
  mc::add("P32.manykinds", [] {      // all pairs (thorough triples) of kinds, in all orders, one key each
    int n = mc::thorough() ? 3 : 2; std::vector<Added> seq; for (int i = 0; i < n; ++i) { Added a; a.kind = mc::choose((int)kinds().size()); a.key = "Key" + std::to_string((i * 7 + 3) % 5); a.desc = "use " + std::to_string(i); seq.push_back(a); mc::step(); }
    run([&] { Oracle o = start(); for (auto &a : seq) { auto r = refOf(a); LiteratureManager::instance().addReference(a.desc, *r); r->setTitle("changed afterwards"); o.add(a); } checkManager(o, "refs", LiteratureManager::instance().getTitle(), LiteratureManager::instance().getSubtitle()); });
  });
  mc::add("P32.title", [] {
    int t1 = mc::choose(3), s1 = mc::choose(3), t2 = mc::choose(3), s2 = mc::choose(3), when = mc::choose(3); mc::step(4);
    static const char *T[] = {0, "My Methods", "Used {here}"}, *S[] = {0, "They were used", "See below:"};
    run([&] { Oracle o = start(); LiteratureManager &m = LiteratureManager::instance(); std::string t = m.getTitle(), s = m.getSubtitle(); auto set = [&](int a, int b) { if (a) m.setTitle(t = T[a]); if (b) m.setSubtitle(s = S[b]); };
      if (when == 0) { Added a{"desc", "K1", 2, ""}; m.addReference(a.desc, *refOf(a)); o.add(a); } set(t1, s1); checkManager(o, "refs", t, s); if (when == 1) { Added a{"desc", "K1", 2, ""}; m.addReference(a.desc, *refOf(a)); o.add(a); } set(t2, s2); checkManager(o, "b", t, s);
      MC_REQUIRE(m.getTitle() == t && m.getSubtitle() == s, "title-value", "title or subtitle is not the last one set"); MC_REQUIRE(&m == &LiteratureManager::instance(), "singleton", "instance() returned different objects"); });
  });
}
#endif
#if VP == 33
#include <algo.hpp>
#include <datastream.hpp>
#include <grid/array.hpp>
#include <grid/field.hpp>
#include <grid/grid.hpp>
#include <grid.hpp>
#include <grid/gridstorage/kokkos-storage.hpp>
using namespace schnek;
// expected text of a grid, from the documentation: elements separated by spaces, first index fastest, a newline
// after each row (rank > 1), another one after each 2-d slice (rank > 2); nothing at all for an empty grid
template<class T, size_t R, class F> static std::string want(const Array<int, R> &lo, const Array<int, R> &hi, F value, const std::function<void(std::ostream &)> &fmt) {
  std::ostringstream o; fmt(o); for (size_t d = 0; d < R; ++d) if (lo[d] > hi[d]) return "";
  Array<int, R> i; for (size_t d = 0; d < R; ++d) i[d] = lo[d];
  while (true) {
    if (i[0] != lo[0]) o << " "; o << value(i);
    size_t d = 0; while (d < R) { bool last = i[d] == hi[d]; if (last && d == 0 && R > 1) o << "\n"; if (last && d == 1 && R > 2) o << "\n"; if (!last) { ++i[d]; break; } i[d] = lo[d]; ++d; }
    if (d == R) return o.str();
  }
}
template<class T> static T cell(int n) { return T(n); }
template<> double cell<double>(int n) { return n * 0.37 - 3; }
template<class G, class T, size_t R> static void grid(const char *name, int maxExt) {
  mc::add(std::string("P33.") + name + "." + std::to_string(R), [maxExt] {
    typedef typename G::IndexType I; Array<int, R> lo, hi; I glo, ghi;
    static const int L[] = {0, -2, 3};
    for (size_t d = 0; d < R; ++d) { lo[d] = L[mc::choose(R <= 3 ? 3 : d == 0 ? 2 : 1)]; hi[d] = lo[d] + mc::choose(maxExt + 1) - 1; glo[d] = lo[d]; ghi[d] = hi[d]; }
    int f = mc::choose(3); auto fmt = [f](std::ostream &o) { if (f == 1) o.precision(3); if (f == 2) { o.setf(std::ios::scientific, std::ios::floatfield); o.precision(2); } };
    bool reused = mc::flip(); mc::step();
    std::unique_ptr<G> g; if (reused) { I a, b; for (size_t d = 0; d < R; ++d) { a[d] = -1; b[d] = 1; } g.reset(new G(a, b)); typename G::storage_iterator it = g->begin(); for (; it != g->end(); ++it) *it = T(9); g->resize(glo, ghi); } else g.reset(new G(glo, ghi));
    bool empty = false; size_t cells = 1; for (size_t d = 0; d < R; ++d) { if (lo[d] > hi[d]) empty = true; cells *= hi[d] - lo[d] + 1; }
    auto value = [&](const Array<int, R> &i) { int n = 0; for (size_t d = 0; d < R; ++d) n = n * 7 + (i[d] - lo[d] + 1) * (d + 1); return cell<T>(n % 97 - 20); };
    if (!empty) { Array<int, R> i(lo); while (true) { I gi; for (size_t d = 0; d < R; ++d) gi[d] = i[d]; (*g)[gi] = value(i); size_t d = 0; while (d < R) { if (i[d] < hi[d]) { ++i[d]; break; } i[d] = lo[d]; ++d; } if (d == R) break; } }
    std::ostringstream o; fmt(o); o << *g; std::string w = want<T, R>(lo, hi, value, fmt);
    mc::state(mc::hashStr(w));
    MC_REQUIRE(o.str() == w, "grid-text", "written\n" << o.str() << "\nexpected\n" << w);
    std::ostringstream o2; fmt(o2); const G &cg = *g; o2 << "[" << cg << "]"; MC_REQUIRE(o2.str() == "[" + w + "]", "grid-text-chained", "written\n" << o2.str() << "\nexpected\n[" << w << "]");
    // reading the numbers back restores the values (ints and exactly representable ones)
    std::istringstream in(o.str()); T v; size_t n = 0; while (in >> v) ++n; MC_REQUIRE(n == (empty ? 0 : cells), "grid-count", n << " values written for " << cells << " cells");
  });
}
template<class T, size_t N> static void array(const char *name) {
  mc::add(std::string("P33.array.") + name + std::to_string(N), [] {
    Array<T, N> a; std::ostringstream w; for (size_t i = 0; i < N; ++i) { static const int V[] = {0, -7, 12}; a[i] = cell<T>(V[mc::choose(N <= 5 ? 3 : 2)]); w << (i ? " " : "") << a[i]; }
    mc::step(); std::ostringstream o; o << a; mc::state(mc::hashStr(o.str())); MC_REQUIRE(o.str() == w.str(), "array-text", "written '" << o.str() << "', expected '" << w.str() << "'");
  });
}
template<class C, class T> static void means(const char *name) {
  mc::add(std::string("P33.mean.") + name, [] {
    static const int V[] = {0, 1, -4, 6}; C c; int n = 1 + mc::choose(mc::thorough() ? 7 : 5); long sum = 0; for (int i = 0; i < n; ++i) { int v = V[mc::choose(4)]; sum += v; c.push_back(T(v)); }
    mc::step(); T m = mean(c.begin(), c.end()); double w = double(sum) / n; mc::state(mc::mix(sum, n));
    T wt = T(w); MC_REQUIRE(m == wt || (m - wt < 1e-5 && wt - m < 1e-5), "mean", "mean of " << n << " values with sum " << sum << " is " << m << ", expected " << wt);
  });
}
// fields are written with their ghost cells; grids of other storages like any grid
template<size_t R> static void field(int maxExt) {
  mc::add("P33.field." + std::to_string(R), [maxExt] {
    typedef Field<double, R> F; typename F::IndexType lo, hi; Array<double, R> plo, phi; Array<bool, R> st; Array<int, R> a, b; int ghost = mc::choose(3);
    for (size_t d = 0; d < R; ++d) { lo[d] = mc::choose(2) * 3 - 1; hi[d] = lo[d] + mc::choose(maxExt); plo[d] = 0; phi[d] = 1; st[d] = mc::flip(); a[d] = lo[d] - ghost; b[d] = hi[d] + ghost; }
    F f(lo, hi, Range<double, R>(plo, phi), st, ghost); mc::step();
    auto value = [&](const Array<int, R> &i) { int n = 0; for (size_t d = 0; d < R; ++d) n = n * 11 + i[d] - a[d] + 1; return n * 0.25; };
    Array<int, R> i(a); while (true) { typename F::IndexType gi; for (size_t d = 0; d < R; ++d) gi[d] = i[d]; f[gi] = value(i); size_t d = 0; while (d < R) { if (i[d] < b[d]) { ++i[d]; break; } i[d] = a[d]; ++d; } if (d == R) break; }
    std::ostringstream o; o << f; std::string w = want<double, R>(a, b, value, [](std::ostream &) {}); mc::state(mc::hashStr(w)); MC_REQUIRE(o.str() == w, "field-text", "written\n" << o.str() << "\nexpected\n" << w);
  });
}
static void kokkosUp() { static bool up = false; if (!up) { up = true; Kokkos::InitArguments a; a.num_threads = 1; a.disable_warnings = true; Kokkos::initialize(a); } }
template<class T, size_t R> using GK = Grid<T, R, GridNoArgCheck, KokkosGridStorage>;
template<size_t R> static void kgrid() {
  mc::add("P33.kokkos." + std::to_string(R), [] {
    kokkosUp(); typename GK<int, R>::IndexType lo, hi; Array<int, R> a, b; for (size_t d = 0; d < R; ++d) { a[d] = lo[d] = mc::choose(2) * 3 - 1; b[d] = hi[d] = lo[d] + mc::choose(3); }
    GK<int, R> g(lo, hi); mc::step(); auto value = [&](const Array<int, R> &i) { int n = 0; for (size_t d = 0; d < R; ++d) n = n * 5 + i[d] - a[d] + 1; return n; };
    Array<int, R> i(a); while (true) { typename GK<int, R>::IndexType gi; for (size_t d = 0; d < R; ++d) gi[d] = i[d]; g[gi] = value(i); size_t d = 0; while (d < R) { if (i[d] < b[d]) { ++i[d]; break; } i[d] = a[d]; ++d; } if (d == R) break; }
    std::ostringstream o; o << g; std::string w = want<int, R>(a, b, value, [](std::ostream &) {}); mc::state(mc::hashStr(w)); MC_REQUIRE(o.str() == w, "kokkos-text", "written\n" << o.str() << "\nexpected\n" << w);
  });
}
template<class T, size_t R> using GLz = Grid<T, R, GridNoArgCheck, LazyArrayGridStorage>;
void mc_register() {
  int t = mc::thorough();
  field<1>(4); field<2>(3); field<3>(2 + t); kgrid<1>(); kgrid<2>(); kgrid<3>();
  grid<GLz<int, 1>, int, 1>("lazy", 6); grid<GLz<int, 2>, int, 2>("lazy", 4); grid<GLz<int, 3>, int, 3>("lazy", 2 + t);
  grid<Grid<int, 1>, int, 1>("grid", 8 + t); grid<Grid<int, 2>, int, 2>("grid", 6 + t); grid<Grid<int, 3>, int, 3>("grid", 4 + t); grid<Grid<int, 4>, int, 4>("grid", 3 + t); grid<Grid<int, 5>, int, 5>("grid", 3 + t);
  grid<Grid<double, 1>, double, 1>("double", 6 + t); grid<Grid<double, 2>, double, 2>("double", 3 + t); grid<Grid<double, 3>, double, 3>("double", 2 + t); grid<Grid<double, 4>, double, 4>("double", 2); grid<Grid<double, 5>, double, 5>("double", 2);
  grid<Grid<int, 1, GridAssertCheck>, int, 1>("checked", 6); grid<Grid<int, 2, GridAssertCheck>, int, 2>("checked", 3 + t); grid<Grid<int, 3, GridAssertCheck>, int, 3>("checked", 2 + t); grid<Grid<int, 4, GridAssertCheck>, int, 4>("checked", 2); grid<Grid<int, 5, GridAssertCheck>, int, 5>("checked", 2);
  grid<Grid<int, 2, GridNoArgCheck, SingleArrayGridStorageFortran>, int, 2>("fortran", 3 + t); grid<Grid<int, 3, GridNoArgCheck, SingleArrayGridStorageFortran>, int, 3>("fortran", 2 + t); grid<Grid<int, 4, GridNoArgCheck, SingleArrayGridStorageFortran>, int, 4>("fortran", 2); grid<Grid<int, 5, GridNoArgCheck, SingleArrayGridStorageFortran>, int, 5>("fortran", 2);
  array<int, 1>("int"); array<int, 2>("int"); array<int, 3>("int"); array<int, 5>("int"); array<int, 10>("int"); array<double, 1>("double"); array<double, 3>("double"); array<double, 4>("double");
  means<std::vector<double>, double>("vector"); means<std::list<float>, float>("list"); means<std::deque<int>, int>("deque");
}
#endif
