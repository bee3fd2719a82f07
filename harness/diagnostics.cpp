// Diagnostic output: which diagnostic writes when, into which file (P30).
#include "deck_common.hpp"
#include "diagnostic/diagnostic.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <memory>
typedef std::vector<std::string> Toks;
static Toks evlog;
static std::string num(double d) { std::ostringstream o; o << d; return o.str(); }

// diagnostics that record what they are asked to do
struct IDiag : public IntervalDiagnostic { bool single = false; bool singleOut() { return single; } void open(const std::string &f) { evlog.push_back(getName() + " open " + f); } void write() { evlog.push_back(getName() + " write"); } void close() { evlog.push_back(getName() + " close"); } };
struct TDiag : public DeltaTimeDiagnostic { bool single = false; bool singleOut() { return single; } void open(const std::string &f) { evlog.push_back(getName() + " open " + f); } void write() { evlog.push_back(getName() + " write"); } void close() { evlog.push_back(getName() + " close"); } };
struct ISingle : public IDiag { ISingle() { single = true; } }; struct TSingle : public TDiag { TSingle() { single = true; } };
struct SimBlock : public schnek::Block { std::list<pBlock> kids() { return getChildren(); } };

// what they have to do
struct RefDiag {
  std::string name, file; bool timed, append, single; int interval = 100; double dt = 1, next = 0; int count = 0; bool opened = false;
  std::string fill(int rank, int n) const { std::string r; for (size_t i = 0; i < file.size(); ++i) { if (file.compare(i, 2, "#p") == 0) { r += std::to_string(rank); ++i; } else if (file.compare(i, 2, "#t") == 0) { r += n < 0 ? std::string("final") : std::to_string(n); ++i; } else r += file[i]; } return r; }
  void run(bool master, int rank, int step, double time, Toks &out) {
    if (timed ? time < next : !(step < 0 || step % interval == 0)) return; int n = timed ? count : step; next += dt; ++count; if (single && !master) return; // every process keeps the same schedule
    if (!append || !opened) out.push_back(name + " open " + fill(rank, n)); opened = true; out.push_back(name + " write"); if (!append) out.push_back(name + " close");
  }
};
struct Setup { std::string deck; std::vector<RefDiag> ref; };
static Setup make(int kinds, int form, const std::string &pattern, const std::vector<int> &intervals, const std::vector<double> &dts) {
  // kinds: diagnostics as base 5 digits: 1 interval, 2 timed, 3 and 4 the same with output on the master process only
  Setup s; int k = 0; for (int m = kinds; m; m /= 5, ++k) { int kind = m % 5; if (!kind) continue; static const char *CL[] = {"", "ID", "TD", "IS", "TS"}; RefDiag d; d.name = "d" + std::to_string(k); d.timed = kind == 2 || kind == 4; d.single = kind >= 3; d.append = form >> k & 1; d.file = (d.append ? std::string("app_#p") : pattern) + std::to_string(k);
    s.deck += std::string(CL[kind]) + " " + d.name + " {\n file = \"" + d.file + "\";\n"; if (d.append) s.deck += form & 64 ? " append = -2;\n" : " append = 1;\n"; else if (form & 16) s.deck += " append = 0;\n";
    if (d.timed) { double v = dts[k % dts.size()]; if (v > 0) { d.dt = v; s.deck += " deltaTime = " + num(v) + ";\n"; } if (form >> 5 & 1) { d.next = form & 64 ? -0.75 : 0.5; s.deck += " delay = " + num(d.next) + ";\n"; } } else { int v = intervals[k % intervals.size()]; if (v > 0) { d.interval = v; s.deck += " interval = " + std::to_string(v) + ";\n"; } }
    s.deck += "}\n"; s.ref.push_back(d); }
  return s;
}
static pBlock build(const std::string &deck) { BlockClasses bc(false); bc.registerBlock("Sim").setClass<SimBlock>(); bc.registerBlock("ID").setClass<IDiag>(); bc.registerBlock("TD").setClass<TDiag>(); bc.registerBlock("IS").setClass<ISingle>(); bc.registerBlock("TS").setClass<TSingle>(); Parser P("sim", "Sim", bc); std::istringstream is(deck); pBlock a = P.parse(is, "the file"); a->initAll(); return a; }
struct SimHolder { pBlock app; explicit SimHolder(const std::string &d) : app(build(d)) {} };
// what a diagnostic says about itself
static void announced(const pBlock &app, const std::vector<RefDiag> &ref) { auto it = dynamic_cast<SimBlock &>(*app).kids(); MC_REQUIRE(it.size() == ref.size(), "diagnostics", it.size() << " diagnostics, expected " << ref.size()); for (auto &b : it) for (auto &r : ref) if (b->getName() == r.name) { if (r.timed) { auto &d = dynamic_cast<DeltaTimeDiagnostic &>(*b); MC_REQUIRE(d.getDeltaTime() == r.dt && d.getNextOutput() == r.next, "announced", r.name << " says next output at " << d.getNextOutput() << " every " << d.getDeltaTime() << ", expected " << r.next << " every " << r.dt); } else { auto &d = dynamic_cast<IntervalDiagnostic &>(*b); MC_REQUIRE(d.getInterval() == r.interval, "announced", r.name << " says interval " << d.getInterval() << ", expected " << r.interval); } } }
static void expect(std::vector<RefDiag> &ref, bool master, int rank, int step, double time, const std::string &what) {
  Toks want; for (auto &d : ref) if (!d.timed) d.run(master, rank, step, time, want); for (auto &d : ref) if (d.timed) d.run(master, rank, step, time, want);
  // the order between different diagnostics is not prescribed
  std::map<std::string, Toks> g, w; for (auto &e : evlog) g[e.substr(0, e.find(' '))].push_back(e); for (auto &e : want) w[e.substr(0, e.find(' '))].push_back(e); auto show = [](const Toks &t) { std::string s; for (auto &e : t) s += "[" + e + "]"; return s; };
  MC_REQUIRE(g == w, "events", "at step " << step << " time " << time << " rank " << rank << (master ? " (master)" : "") << ": " << show(evlog) << ", expected " << show(want) << "\n" << what); evlog.clear();
}
static void reset() { evlog.clear(); }

struct TextSim : public schnek::Block { std::shared_ptr<int> v; TextSim() : v(new int(0)) {} void registerData() { addData("val", v); addData("other", v); } std::list<pBlock> kids() { return getChildren(); } };
typedef SimpleFileDiagnostic<int, std::shared_ptr<int>, IntervalDiagnostic> FD0; struct FD : public FD0 { static bool derived; static std::shared_ptr<int> own; bool isDerived() { return derived; } void init() { FD0::init(); if (derived) field = own; } }; bool FD::derived; std::shared_ptr<int> FD::own; typedef SimpleFileDiagnostic<int, std::shared_ptr<int>, DeltaTimeDiagnostic> TD;
void mc_register() {
  bool t = mc::thorough();
  // step histories: all kinds of diagnostics, all start steps, repeated, skipped and final executions
  static const std::vector<std::string> PAT = {"f#t", "f", "r#p_s#t", "#t#p"};
  for (int kinds : {1, 2, 3, 4, 6, 7, 11, 12, 16, 17, 8, 9, 19, 24, 31, 37, 44}) for (int form : {0, 1, 2, 3, 16, 32, 35, 99}) mc::add("P30.history/" + std::to_string(kinds) + "." + std::to_string(form), [=] {
    bool all = t || form == 0; Setup s = make(kinds, form, all ? mc::pick(PAT) : PAT[2], mc::pick(std::vector<std::vector<int>>{{1, 3}, {2, 0}, {3, 2}}), mc::pick(std::vector<std::vector<double>>{{0.5, 1}, {0.25, 0}})); mc::op(s.deck); reset(); SimHolder h(s.deck); auto ref = s.ref;
    auto &M = DiagnosticManager::instance(); int step = mc::choose(2); double time = mc::choose(2) * 0.5; bool master = mc::flip(); int rank = mc::pick(t ? std::vector<int>{0, 1, 13} : std::vector<int>{0, 13}); M.setMaster(master); M.setRank(rank); if (t ? mc::flip() : step == 0) { M.setTimeCounter(&step); M.setPhysicalTime(&time); } else { M.setPhysicalTime(&time); M.setTimeCounter(&step); }
    int n = t ? 5 : form == 3 || form == 99 ? 4 : 3; for (int k = 0; k < n; ++k) { M.execute(); mc::step(); mc::op("execute at step " + std::to_string(step) + " time " + num(time)); expect(ref, master, rank, step, time, s.deck); if (k == 1) announced(h.app, ref); int a = mc::choose(4); if (a == 0) { ++step; time += 0.25; } else if (a == 1) { } else if (a == 2) { step += 2; time += 0.75; } else { step = all ? mc::pick(std::vector<int>{-1, -5}) : -2; time += 1.25; M.execute(); mc::step(); expect(ref, master, rank, step, time, s.deck); break; } mc::state(mc::mix(mc::hashStr(s.deck), step * 100 + (int)(time * 4))); } });
  // long runs with every interval / time distance
  for (int iv = 1; iv <= (t ? 14 : 9); ++iv) mc::add("P30.interval/" + std::to_string(iv), [=] { int append = mc::choose(2); Setup s = make(1, append, "o#t", {iv}, {1}); mc::op(s.deck); reset(); SimHolder h(s.deck); auto ref = s.ref; int step = mc::choose(2 * iv + 1), inc = 1 + mc::choose(3); auto &M = DiagnosticManager::instance(); M.setMaster(true); M.setRank(0); M.setTimeCounter(&step); for (int k = 0; k < 40; ++k, step += inc) { M.execute(); mc::step(); expect(ref, true, 0, step, 0, s.deck); mc::state(mc::mix(step, iv * 2 + append)); } });
  static const std::vector<double> D = {0.125, 0.1, 0.2, 0.3, 0.5, 1.0 / 3, 0.7, 1, 1.5, 2.25};
  for (size_t di = 0; di < D.size(); ++di) mc::add("P30.deltatime/" + std::to_string(di), [=] { int form = mc::choose(2) | (mc::choose(2) << 5); Setup s = make(2, form, "o#t", {1}, {D[di]}); mc::op(s.deck); reset(); SimHolder h(s.deck); auto ref = s.ref; ref[0].dt = strtod(num(D[di]).c_str(), 0); double time = mc::pick(std::vector<double>{0, 0.05, 0.5, 3}), inc = mc::pick(D); auto &M = DiagnosticManager::instance(); M.setMaster(true); M.setRank(0); M.setPhysicalTime(&time); for (int k = 0; k < 60; ++k, time += inc) { M.execute(); mc::step(); expect(ref, true, 0, -5, time, s.deck); mc::state(mc::mix((uint64_t)(time * 1e6), di)); } });
  // adjusting the time step: never longer than asked, never past the next output of any diagnostic, and not shorter than necessary; following it hits every output time
  for (size_t a = 0; a < D.size(); ++a) mc::add("P30.adjust/" + std::to_string(a), [=] {
    double d2 = mc::pick(D), base = mc::pick(D); int form = mc::choose(2) << 5, kinds = mc::pick(std::vector<int>{2, 4, 12, 14, 11, 7}); bool master = mc::flip(); Setup s = make(kinds, form, "o#t", {3}, {D[a], d2}); mc::op(s.deck + "base step " + num(base)); reset(); SimHolder h(s.deck); auto ref = s.ref; for (auto &r : ref) if (r.timed) r.dt = strtod(num(r.dt).c_str(), 0);
    int step = 0; double time = 0; auto &M = DiagnosticManager::instance(); M.setMaster(master); M.setRank(0); M.setTimeCounter(&step); M.setPhysicalTime(&time); if (mc::flip()) { M.execute(); expect(ref, master, 0, 0, 0, s.deck); }
    for (int k = 0; k < 30; ++k) { double want = base; for (auto &r : ref) if (r.timed && r.next > time) want = std::min(want, r.next - time); double got = M.adjustDeltaT(base); mc::step(); MC_REQUIRE(got == want, "adjust", "adjusted step " << got << ", expected " << want << " at time " << time << (master ? "\n" : " on a process that is not the master\n") << s.deck);
      ++step; time += got; M.execute(); expect(ref, master, 0, step, time, s.deck); mc::state(mc::mix((uint64_t)(time * 1e6), a)); } });
  // missing time sources are reported, whatever diagnostics exist
  mc::add("P30.notime", [=] { int kinds = mc::pick(std::vector<int>{0, 1, 2, 7, 11}), have = mc::choose(4), how = mc::choose(2), adj = mc::choose(2); auto r = mc::inChild([&](std::ostream &o) { Setup s = make(kinds, 0, "o#t", {1}, {1}); if (s.deck.empty()) s.deck = "int z = 1;"; reset(); SimHolder h(s.deck); int step = 0; double time = 0; auto &M = DiagnosticManager::instance(); M.setTimeCounter(nullptr); M.setPhysicalTime(nullptr); if (how) { if (have & 1) M.setTimeCounter(&step); if (have & 2) M.setPhysicalTime(&time); } else { if (have & 2) M.setPhysicalTime(&time); if (have & 1) M.setTimeCounter(&step); } bool th = false; try { if (adj) M.adjustDeltaT(1.0); else M.execute(); } catch (SchnekException &) { th = true; } catch (VariableNotInitialisedException &) { th = true; } o << (th ? "reported" : "ran"); });
    bool iv = kinds == 1 || kinds == 7 || kinds == 11, td = kinds == 2 || kinds == 7 || kinds == 11; bool bad = adj ? td && !(have & 2) : !have || (iv && !(have & 1)) || (td && !(have & 2)); mc::state(kinds * 16 + have * 4 + how * 2 + adj); MC_REQUIRE(r.exited && r.code == 0 && r.out == (bad ? "reported" : "ran"), "missing-time", "diagnostics " << kinds << ", time sources " << have << ": " << (r.exited ? r.out : "killed by signal " + std::to_string(r.sig)) << ", expected " << (bad ? "an error" : "no error")); });
  // the latest time sources, master flag and process number are the ones that count
  for (int kinds : {7, 11, 19, 24}) mc::add("P30.sources/" + std::to_string(kinds), [=] {
    Setup s = make(kinds, 0, "o#t_#p", {2, 3}, {0.5, 1}); mc::op(s.deck); reset(); SimHolder h(s.deck); auto ref = s.ref; auto &M = DiagnosticManager::instance(); int step[2] = {0, 3}; double time[2] = {0, 2.5}; int cs = 0, ct = 0, rank = 0; bool master = true; M.setMaster(true); M.setRank(0); M.setTimeCounter(step); M.setPhysicalTime(time);
    for (int k = 0; k < (t ? 6 : 5); ++k) { int a = mc::choose(6); mc::step(); switch (a) { case 0: cs = !cs; M.setTimeCounter(step + cs); mc::op("other step counter"); break; case 1: ct = !ct; M.setPhysicalTime(time + ct); mc::op("other time"); break; case 2: master = !master; M.setMaster(master); mc::op("setMaster"); break; case 3: rank += 2; M.setRank(rank); mc::op("setRank"); break; case 4: for (int i = 0; i < 2; ++i) { ++step[i]; time[i] += 0.5; } mc::op("advance"); break; }
      M.execute(); expect(ref, master, rank, step[cs], time[ct], s.deck); double want = 4; for (auto &r : ref) if (r.timed && r.next > time[ct]) want = std::min(want, r.next - time[ct]); announced(h.app, ref); double got = M.adjustDeltaT(4); MC_REQUIRE(got == want, "adjust", "adjusted step " << got << ", expected " << want << " at time " << time[ct] << "\n" << s.deck); mc::state(mc::mix(step[cs] * 100 + (int)(time[ct] * 4), cs + 2 * ct + 4 * master + 8 * rank)); } });
  // several simulations one after the other or at once: only diagnostics that exist are executed
  for (int first = 0; first < 4; ++first) mc::add("P30.lifetime/" + std::to_string(first), [=] {
    std::vector<std::unique_ptr<IDiag>> is; std::vector<std::unique_ptr<TDiag>> ds; int step = 1; double time = 10; auto &M = DiagnosticManager::instance(); M.setMaster(true); M.setRank(0); M.setTimeCounter(&step); M.setPhysicalTime(&time); reset(); int n = t ? 7 : 6, id = 0; std::set<std::string> live;
    for (int k = 0; k < n; ++k) { int a = k == 0 ? first : mc::choose(4); mc::step(); switch (a) { case 0: { mc::op("create interval"); is.emplace_back(new IDiag); std::string nm = "i" + std::to_string(id++); is.back()->setName(nm); live.insert(nm); break; } case 1: { mc::op("create timed"); ds.emplace_back(new TDiag); std::string nm = "t" + std::to_string(id++); ds.back()->setName(nm); live.insert(nm); break; }
        case 2: { if (is.empty() && ds.empty()) return; int w = mc::choose((int)(is.size() + ds.size())); mc::op("destroy " + std::to_string(w)); if (w < (int)is.size()) { live.erase(is[w]->getName()); is.erase(is.begin() + w); } else { w -= is.size(); live.erase(ds[w]->getName()); ds.erase(ds.begin() + w); } break; }
        case 3: { mc::op("execute"); evlog.clear(); step = 0; M.execute(); std::map<std::string, int> c; for (auto &e : evlog) if (e.find(" write") != std::string::npos) ++c[e.substr(0, e.find(' '))]; MC_REQUIRE(c.size() == live.size(), "executed", c.size() << " diagnostics were executed, " << live.size() << " exist"); for (auto &l : live) MC_REQUIRE(c[l] == 1, "executed", "diagnostic " << l << " was executed " << c[l] << " times"); break; } } }
    mc::state(mc::hashStr(std::to_string(is.size()) + "." + std::to_string(ds.size()))); });
  // files written by the text diagnostic hold the value at the time of each output and are complete when the simulation has been destroyed
  mc::add("P30.text", [=] {
    int append = mc::choose(2), iv = 1 + mc::choose(3), start = mc::choose(2), again = mc::choose(2), timed = mc::choose(2), single = mc::choose(2), master = mc::choose(2), nsteps = 1 + mc::choose(5); FD::derived = !timed && mc::flip(); char tmpl[] = "/tmp/vp30XXXXXX"; std::string dir = mkdtemp(tmpl); struct Clean { std::string d; ~Clean() { std::string c = "rm -rf " + d; if (d.compare(0, 9, "/tmp/vp30") == 0) if (system(c.c_str())) {} } } clean{dir};
    std::map<std::string, std::string> want, got; std::string deck = std::string(timed ? "T" : "F") + " d { file = \"" + dir + "/" + (append ? "out" : "out#t") + "\"; field = \"" + (FD::derived ? "made" : "val") + "\"; " + (timed ? "deltaTime = " + std::to_string(iv) + ".0;" : "interval = " + std::to_string(iv) + ";") + (append ? " append = 1;" : "") + " }"; mc::op(deck);
    { BlockClasses bc(false); bc.registerBlock("Sim").setClass<TextSim>(); bc.registerBlock("F").setClass<FD>(); bc.registerBlock("T").setClass<TD>(); pBlock app; { Parser P("sim", "Sim", bc); std::istringstream is(deck); app = P.parse(is); } FD::own.reset(new int(0)); app->initAll(); TextSim &sim = dynamic_cast<TextSim&>(*app); if (FD::derived) sim.v = FD::own; { pBlock child = sim.kids().front(); if (timed) dynamic_cast<TD&>(*child).setSingleOut(single); else dynamic_cast<FD&>(*child).setSingleOut(single); }
      int step = start; double time = start; auto &M = DiagnosticManager::instance(); M.setMaster(master); M.setRank(master ? 0 : 1); M.setTimeCounter(&step); M.setPhysicalTime(&time); int count = 0; double next = 0; bool skip = single && !master;
      for (int k = 0; k < nsteps; ++k) { for (int q = 0; q <= (k == 0 ? again : 0); ++q) { *sim.v = 1000 + k * 7 + q; M.execute(); mc::step(); bool due = timed ? time >= next : step % iv == 0; if (due && !skip) { std::string f = append ? "out" : "out" + std::to_string(timed ? count : step); if (append) want[f] += std::to_string(*sim.v); else want[f] = std::to_string(*sim.v); } if (due) { ++count; next += iv; } } ++step; time += 1; }
      M.setTimeCounter(nullptr); M.setPhysicalTime(nullptr); }
    for (int k = -1; k < 30; ++k) { std::string f = k < 0 ? "out" : "out" + std::to_string(k); std::ifstream in(dir + "/" + f); if (in) { std::ostringstream o; o << in.rdbuf(); got[f] = o.str(); } } std::ostringstream d; for (auto &w : want) d << " expected " << w.first << "='" << w.second << "'"; for (auto &g : got) d << " found " << g.first << "='" << g.second << "'"; mc::state(mc::hashStr(d.str())); MC_REQUIRE(got == want, "file", "files differ:" << d.str() << "\n" << deck); });
  // names for diagnostics that make their own: process and step or time
  mc::add("P30.filename", [=] {
    struct Namer : public IntervalDiagnostic { void pattern(const std::string &p) { fname = p; } std::string at(int r, int n) { return parsedFileName(r, n); } std::string at(int r, double n) { return parsedFileName(r, n); } } nm; static const char *PIECE[] = {"", "x", "#p", "#t", "#", "t_p"};
    std::string p; int np = 0, nt = 0; for (int i = 0; i < 4; ++i) { int k = mc::choose(6); if ((k == 2 && np++) || (k == 3 && nt++)) throw mc::Prune{}; if (k > 3 && p.size() && p.back() == '#') throw mc::Prune{}; p += PIECE[k]; } RefDiag ref; ref.file = p; nm.pattern(p); mc::op("file name pattern " + p); mc::state(mc::hashStr(p));
    for (int r : {0, 7, 12}) { for (int n : {0, 5, 1234567, -1}) { mc::step(); MC_REQUIRE(nm.at(r, n) == ref.fill(r, n), "filename", "pattern " << p << " process " << r << " step " << n << " gives " << nm.at(r, n)); }
      for (double t : {0., 2., 1024.}) { mc::step(); MC_REQUIRE(nm.at(r, t) == ref.fill(r, (int)t), "filename", "pattern " << p << " process " << r << " time " << t << " gives " << nm.at(r, t)); } MC_REQUIRE(nm.at(r, .5) == [&] { std::string w = ref.fill(r, 987654321); size_t q = w.find("987654321"); if (q != std::string::npos) w.replace(q, 9, "0.5"); return w; }(), "filename", "time 0.5 gives " << nm.at(r, .5)); } });
}
