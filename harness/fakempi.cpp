#include "fakempi.hpp"
#include "fake/mpi.h"
#include <algorithm>
#include <deque>
#include <exception>
#include <list>
#include <memory>
#include <sys/mman.h>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif
#include <cxxabi.h>

struct Msg { int src, tag; MPI_Datatype type; int count; const void *buf; std::vector<char> data; bool copied = false, matched = false; uint64_t seq; };
struct FakeReq { bool send = false, done = false; int src = 0, tag = 0, count = 0; MPI_Datatype type = 0; void *buf = nullptr; MPI_Status st{}; std::shared_ptr<Msg> msg; };
struct Coll { std::string kind; int arrived = 0, left = 0; std::vector<std::vector<char>> in; std::vector<bool> here; std::vector<char> out; std::vector<FakeComm *> comms; std::vector<std::vector<int>> meta; };
struct FakeComm { // one object per rank and communicator; the shared part is Body
  struct Body { std::vector<int> world; /* member -> world rank */ std::vector<int> dims, periods; std::vector<std::list<std::shared_ptr<Msg>>> sends; std::vector<std::list<std::shared_ptr<FakeReq>>> recvs; std::map<uint64_t, Coll> colls; int id; };
  std::shared_ptr<Body> b; int rank; uint64_t collSeq = 0;
};
struct FakeGroup { std::vector<int> world; static int live; FakeGroup(std::vector<int> w = {}) : world(w) { ++live; } ~FakeGroup() { --live; } }; int FakeGroup::live = 0;
struct FakeInfo { static int live; FakeInfo() { ++live; } ~FakeInfo() { --live; } }; int FakeInfo::live = 0;

namespace {
struct Abort {};
struct Fiber { ucontext_t ctx; char *stack = nullptr; bool done = true; std::function<bool()> ready; std::string doing; uint64_t hist = 0; std::vector<std::unique_ptr<FakeComm>> comms; std::vector<std::shared_ptr<FakeReq>> reqs; FakeComm *world = nullptr, *self = nullptr; void *fakeStack = nullptr; char exc[64]; };
const size_t STACK = 1 << 20;
std::vector<Fiber *> pool; int cur = -1, nr = 0; bool aborting = false, active = false; ucontext_t mainCtx; fakempi::Options opt; std::function<void(int)> body; bool failed = false; mc::Violation viol; std::exception_ptr other; uint64_t msgSeq = 0; int commId = 0;
std::vector<std::shared_ptr<FakeComm::Body>> bodies;
const void *mainBottom = nullptr; size_t mainSize = 0; void *mainFake = nullptr;

size_t excSize() { return sizeof(void *) * 2; }
void switchToMain() {
  Fiber &f = *pool[cur];
  memcpy(f.exc, (void *)abi::__cxa_get_globals(), excSize());
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(f.done ? nullptr : &f.fakeStack, mainBottom, mainSize);
#endif
  int me = cur; swapcontext(&f.ctx, &mainCtx);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(pool[me]->fakeStack, &mainBottom, &mainSize);
#endif
}
void entry(unsigned lo, unsigned hi) {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(nullptr, &mainBottom, &mainSize);
#endif
  int r = (int)lo;
  try { if (!aborting) body(r); }
  catch (const Abort &) {}
  catch (const mc::Violation &v) { if (!failed) { failed = true; viol = mc::Violation{v.key, "rank " + std::to_string(r) + ": " + v.msg}; } }
  catch (const std::exception &e) { if (!failed) { failed = true; viol = mc::Violation{"uncaught-exception", "rank " + std::to_string(r) + " threw " + e.what()}; } }
  catch (...) { if (!failed) { failed = true; viol = mc::Violation{"uncaught-exception", "rank " + std::to_string(r) + " threw"}; } }
  pool[r]->done = true; pool[r]->doing = "finished";
  switchToMain();
  abort();
}
void resume(int r) {
  Fiber &f = *pool[r]; cur = r; char save[64];
  memcpy(save, (void *)abi::__cxa_get_globals(), excSize()); memcpy((void *)abi::__cxa_get_globals(), f.exc, excSize());
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(&mainFake, f.stack, STACK);
#endif
  swapcontext(&mainCtx, &f.ctx);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
#endif
  memcpy((void *)abi::__cxa_get_globals(), save, excSize());
  cur = -1;
}
// a rank gives up control until ready() holds and the scheduler picks it
void point(const std::string &what, std::function<bool()> ready) {
  if (!active || cur < 0) mc::fail("mpi-misuse", "communication outside of a running rank: " + what);
  if (aborting) { if (std::uncaught_exceptions() > 0) return; throw Abort{}; }
  Fiber &f = *pool[cur]; f.doing = what; f.ready = std::move(ready);
  switchToMain();
  f.ready = nullptr;
  if (aborting) { if (std::uncaught_exceptions() > 0) return; throw Abort{}; }
}
void point(const std::string &what) { point(what, [] { return true; }); }
void hist(uint64_t v) { pool[cur]->hist = mc::mix(pool[cur]->hist, v); }
uint64_t hashBytes(const void *p, size_t n) { uint64_t h = 99; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL; return h; }
FakeComm *newComm(int worldRank, std::shared_ptr<FakeComm::Body> b) { auto *c = new FakeComm; c->b = b; c->rank = (int)(std::find(b->world.begin(), b->world.end(), worldRank) - b->world.begin()); pool[worldRank]->comms.emplace_back(c); return c; }
std::shared_ptr<FakeComm::Body> newBody(std::vector<int> world) { auto b = std::make_shared<FakeComm::Body>(); b->world = world; b->sends.resize(world.size()); b->recvs.resize(world.size()); b->id = commId++; bodies.push_back(b); return b; }
void valid(MPI_Comm c, const char *f) { if (!c) mc::fail("mpi-misuse", std::string(f) + " on a null communicator"); bool mine = false; for (auto &x : pool[cur]->comms) mine |= x.get() == c; if (!mine) mc::fail("mpi-misuse", std::string(f) + " on a freed or foreign communicator"); }
int tsize(MPI_Datatype t) {
  switch (t) { case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4; case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: return 8; case MPI_LONG_DOUBLE: return sizeof(long double); }
  mc::fail("mpi-misuse", "invalid datatype " + std::to_string(t));
}
size_t dataSize(MPI_Datatype t, int n) { if (t == MPI_LONG_DOUBLE) return (size_t)n * 16; return (size_t)n * tsize(t); }
void deliver(FakeReq &r, Msg &m, int dst) {
  if (m.type != r.type && m.type != MPI_BYTE && r.type != MPI_BYTE) mc::fail("mpi-type", "message of datatype " + std::to_string(m.type) + " received as datatype " + std::to_string(r.type));
  if (dataSize(m.type, m.count) > dataSize(r.type, r.count)) mc::fail("mpi-truncate", "message of " + std::to_string(m.count) + " elements received into a buffer for " + std::to_string(r.count));
  size_t n = dataSize(m.type, m.count); const void *src = m.copied ? (const void *)m.data.data() : m.buf;
  if (n) memcpy(r.buf, src, n);
  m.matched = true; r.done = true; r.st = MPI_Status{m.src, m.tag, MPI_SUCCESS, (int)n};
  (void)dst;
}
bool fits(const FakeReq &r, const Msg &m) { return (r.src == MPI_ANY_SOURCE || r.src == m.src) && (r.tag == MPI_ANY_TAG || r.tag == m.tag); }
std::shared_ptr<Msg> postSend(const void *buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync) {
  auto m = std::make_shared<Msg>(); m->src = c->rank; m->tag = tag; m->type = t; m->count = n; m->buf = buf; m->seq = msgSeq++;
  if (n < 0) mc::fail("mpi-misuse", "negative count");
  if (dst == MPI_PROC_NULL) { m->matched = true; return m; }
  if (dst < 0 || dst >= (int)c->b->world.size()) mc::fail("mpi-misuse", "message to invalid rank " + std::to_string(dst));
  size_t sz = dataSize(t, n);
  if (!opt.rendezvous && !sync) { m->data.assign((const char *)buf, (const char *)buf + sz); m->copied = true; }
  auto &rq = c->b->recvs[dst];
  for (auto it = rq.begin(); it != rq.end(); ++it) if (fits(**it, *m)) { auto r = *it; rq.erase(it); deliver(*r, *m, dst); r->msg = m; return m; }
  c->b->sends[dst].push_back(m); return m;
}
std::shared_ptr<FakeReq> postRecv(void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm c) {
  auto r = std::make_shared<FakeReq>(); r->src = src; r->tag = tag; r->count = n; r->type = t; r->buf = buf;
  if (n < 0) mc::fail("mpi-misuse", "negative count");
  if (src == MPI_PROC_NULL) { r->done = true; r->st = MPI_Status{MPI_PROC_NULL, MPI_ANY_TAG, 0, 0}; return r; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->b->world.size())) mc::fail("mpi-misuse", "receive from invalid rank " + std::to_string(src));
  auto &sq = c->b->sends[c->rank]; std::vector<std::list<std::shared_ptr<Msg>>::iterator> cand; std::set<int> srcs;
  for (auto it = sq.begin(); it != sq.end(); ++it) if (fits(*r, **it) && srcs.insert((*it)->src).second) cand.push_back(it);
  if (!cand.empty()) { auto it = cand[cand.size() > 1 ? mc::choose((int)cand.size()) : 0]; auto m = *it; sq.erase(it); deliver(*r, *m, c->rank); r->msg = m; return r; }
  c->b->recvs[c->rank].push_back(r); return r;
}
void received(const FakeReq &r) { hist(mc::mix(r.st.MPI_SOURCE + 7, mc::mix(r.st.MPI_TAG, hashBytes(r.buf, r.st.bytes)))); }
std::string where(const char *f, MPI_Comm c, int peer, int n) { return std::string(f) + "(peer " + std::to_string(peer) + ", count " + std::to_string(n) + ", comm " + std::to_string(c->b->id) + ")"; }

template<class T> void comb(T *a, const T *b, int n, MPI_Op op) {
  for (int i = 0; i < n; ++i) switch (op) { case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_MAX: a[i] = std::max(a[i], b[i]); break; case MPI_MIN: a[i] = std::min(a[i], b[i]); break; case MPI_PROD: a[i] = a[i] * b[i]; break; case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; default: mc::fail("mpi-misuse", "reduction operator"); }
}
void combine(void *a, const void *b, int n, MPI_Datatype t, MPI_Op op) {
  switch (t) { case MPI_CHAR: case MPI_SIGNED_CHAR: comb((signed char *)a, (const signed char *)b, n, op); break; case MPI_UNSIGNED_CHAR: comb((unsigned char *)a, (const unsigned char *)b, n, op); break; case MPI_SHORT: comb((short *)a, (const short *)b, n, op); break; case MPI_UNSIGNED_SHORT: comb((unsigned short *)a, (const unsigned short *)b, n, op); break; case MPI_INT: comb((int *)a, (const int *)b, n, op); break; case MPI_UNSIGNED: comb((unsigned *)a, (const unsigned *)b, n, op); break; case MPI_LONG: case MPI_LONG_LONG: comb((long *)a, (const long *)b, n, op); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: comb((unsigned long *)a, (const unsigned long *)b, n, op); break; case MPI_FLOAT: comb((float *)a, (const float *)b, n, op); break; case MPI_DOUBLE: comb((double *)a, (const double *)b, n, op); break; case MPI_LONG_DOUBLE: comb((long double *)a, (const long double *)b, n, op); break; default: mc::fail("mpi-misuse", "reduction datatype"); }
}
// a collective: every member deposits its contribution and waits for all others
Coll &collective(MPI_Comm c, const std::string &kind, const void *in, size_t bytes, std::vector<int> meta = {}, std::function<void(Coll &)> complete = nullptr) {
  point(kind); valid(c, kind.c_str());
  uint64_t s = c->collSeq++; Coll &k = c->b->colls[s]; size_t n = c->b->world.size();
  if (k.kind.empty()) { k.kind = kind; k.in.resize(n); k.here.resize(n); k.meta.resize(n); k.comms.resize(n); }
  if (k.kind != kind) mc::fail("mpi-collective", "members of a communicator call different collectives: " + k.kind + " and " + kind);
  k.in[c->rank].assign((const char *)in, (const char *)in + bytes); k.meta[c->rank] = meta; k.here[c->rank] = true; ++k.arrived; hist(mc::hashStr(kind));
  if (k.arrived == (int)n) { if (complete) complete(k); }
  else point(kind + " (waiting for the other ranks)", [&k, n] { return k.arrived == (int)n; });
  return k;
}
} // namespace

namespace fakempi {
std::string unreleased;
// used by the simulated HDF5: a collective call with a description on which all ranks have to agree
void collectiveCall(MPI_Comm c, const std::string &what, std::function<void()> complete) { collective(c, what, "", 0, {}, [complete](Coll &) { if (complete) complete(); }); }
int me() { return cur; }
void note(uint64_t h) { if (cur >= 0) hist(h); }
void run(const Options &o, std::function<void(int)> b) {
  if (active) mc::fail("harness", "nested simulation");
  opt = o; body = b; nr = o.ranks; aborting = failed = false; msgSeq = 0; commId = 0; bodies.clear();
  while ((int)pool.size() < nr) { Fiber *f = new Fiber; f->stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (f->stack == MAP_FAILED) { perror("mmap"); abort(); } pool.push_back(f); }
  std::vector<int> all(nr); for (int i = 0; i < nr; ++i) all[i] = i;
  auto wb = newBody(all);
  for (int i = 0; i < nr; ++i) {
    Fiber &f = *pool[i]; f.done = false; f.ready = [] { return true; }; f.doing = "start"; f.hist = i + 1; f.comms.clear(); f.reqs.clear(); memset(f.exc, 0, sizeof f.exc); f.fakeStack = nullptr;
    f.world = newComm(i, wb); f.self = nullptr;
    getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr; makecontext(&f.ctx, (void (*)())entry, 2, (unsigned)i, 0u);
  }
  active = true; const uint64_t salt = mc::pathHash(); int last = -1; bool pruned = false; uint64_t steps = 0;
  for (;;) {
    std::vector<int> en; bool alldone = true;
    for (int i = 0; i < nr; ++i) if (!pool[i]->done) { alldone = false; if (pool[i]->ready && pool[i]->ready()) en.push_back(i); }
    if (alldone || failed) break;
    if (en.empty()) { failed = true; std::ostringstream s; s << "deadlock (" << (opt.rendezvous ? "synchronous" : "buffered") << " sends):"; for (int i = 0; i < nr; ++i) s << " rank " << i << ": " << pool[i]->doing << ";"; viol = mc::Violation{"deadlock", s.str()}; break; }
    int r = en[0];
    if (opt.policy == AllInterleavings) {
      if (en.size() > 1) {
        if (opt.prune) { uint64_t h = salt; for (int i = 0; i < nr; ++i) { h = mc::mix(h, pool[i]->hist); h = mc::mix(h, pool[i]->done); h = mc::mix(h, mc::hashStr(pool[i]->doing)); } if (!mc::visit(h)) { pruned = true; break; } }
        r = en[mc::choose((int)en.size())];
      }
    } else if (opt.policy == RunToBlock) { for (int x : en) if (x == last) r = x; }
    else if (opt.policy == RunToBlockReverse) { r = en.back(); for (int x : en) if (x == last) r = x; }
    else { r = en[0]; for (int x : en) if (x > last) { r = x; break; } }
    last = r; ++steps; mc::step(); resume(r);
  }
  // unwind whatever is left
  aborting = true; for (int i = 0; i < nr; ++i) { int guard = 0; while (!pool[i]->done && guard++ < 1000) resume(i); }
  std::string left; if (!failed && !pruned) for (auto &x : bodies) for (size_t d = 0; d < x->sends.size(); ++d) { if (!x->sends[d].empty()) left += " a message for rank " + std::to_string(d) + " was never received;"; if (!x->recvs[d].empty()) left += " a receive of rank " + std::to_string(d) + " was never matched;"; }
  unreleased.clear(); for (int i = 0; i < nr; ++i) for (auto &c : pool[i]->comms) if (c.get() != pool[i]->world && c.get() != pool[i]->self) { unreleased += " a communicator of process " + std::to_string(i) + " was not freed;"; break; }
  if (FakeGroup::live > 0) unreleased += " a group was not freed;"; if (FakeInfo::live > 0) unreleased += " an info object was not freed;"; FakeGroup::live = FakeInfo::live = 0;
  active = false; for (int i = 0; i < nr; ++i) { pool[i]->comms.clear(); pool[i]->reqs.clear(); } bodies.clear(); body = nullptr;
  if (failed) throw viol;
  if (!left.empty()) mc::fail("mpi-leftover", left);
  if (pruned) throw mc::Prune{};
}
} // namespace fakempi

MPI_Comm fakempi_world() { return cur >= 0 ? pool[cur]->world : nullptr; }
MPI_Comm fakempi_self() { if (cur < 0) return nullptr; if (!pool[cur]->self) pool[cur]->self = newComm(cur, newBody({cur})); return pool[cur]->self; }
int MPI_Init(int *, char ***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int) { mc::fail("mpi-abort", "MPI_Abort called"); }
double MPI_Wtime() { return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { valid(c, "MPI_Comm_size"); *n = (int)c->b->world.size(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { valid(c, "MPI_Comm_rank"); *r = c->rank; return 0; }
int MPI_Comm_free(MPI_Comm *c) { if (aborting || !active) { *c = nullptr; return 0; } valid(*c, "MPI_Comm_free"); auto &v = pool[cur]->comms; for (auto it = v.begin(); it != v.end(); ++it) if (it->get() == *c) { v.erase(it); break; } *c = nullptr; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { Coll &k = collective(c, "MPI_Comm_dup", "", 0, {}, [c](Coll &k) { auto b = newBody(c->b->world); b->dims = c->b->dims; b->periods = c->b->periods; for (size_t i = 0; i < b->world.size(); ++i) k.comms[i] = newComm(b->world[i], b); }); *o = k.comms[c->rank]; return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
  Coll &k = collective(c, "MPI_Comm_split", "", 0, {color, key}, [c](Coll &k) { std::map<int, std::vector<std::pair<int, int>>> g; for (size_t i = 0; i < k.meta.size(); ++i) if (k.meta[i][0] != MPI_UNDEFINED) g[k.meta[i][0]].push_back({k.meta[i][1], (int)i}); for (auto &x : g) { std::sort(x.second.begin(), x.second.end()); std::vector<int> w; for (auto &y : x.second) w.push_back(c->b->world[y.second]); auto b = newBody(w); for (auto &y : x.second) k.comms[y.second] = newComm(c->b->world[y.second], b); } });
  *o = k.comms[c->rank]; return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { valid(c, "MPI_Comm_group"); *g = new FakeGroup{c->b->world}; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { auto *x = new FakeGroup; for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)g->world.size()) mc::fail("mpi-misuse", "MPI_Group_incl rank"); x->world.push_back(g->world[r[i]]); } *o = x; return 0; }
int MPI_Group_free(MPI_Group *g) { delete *g; *g = nullptr; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) {
  Coll &k = collective(c, "MPI_Comm_create", "", 0, g->world, [c](Coll &k) { for (auto &m : k.meta) if (m != k.meta[0]) mc::fail("mpi-collective", "MPI_Comm_create with different groups"); auto b = newBody(k.meta[0]); for (size_t i = 0; i < c->b->world.size(); ++i) if (std::find(b->world.begin(), b->world.end(), c->b->world[i]) != b->world.end()) k.comms[i] = newComm(c->b->world[i], b); });
  *o = k.comms[c->rank]; return 0;
}
int MPI_Cart_create(MPI_Comm c, int nd, const int *dims, const int *per, int reorder, MPI_Comm *o) {
  std::vector<int> meta{nd, reorder}; for (int i = 0; i < nd; ++i) meta.push_back(dims[i]); for (int i = 0; i < nd; ++i) meta.push_back(per[i] ? 1 : 0);
  long prod = 1; for (int i = 0; i < nd; ++i) { if (dims[i] <= 0) mc::fail("mpi-misuse", "MPI_Cart_create with dimension " + std::to_string(dims[i])); prod *= dims[i]; }
  if (prod > (long)c->b->world.size()) mc::fail("mpi-misuse", "MPI_Cart_create for more processes than there are");
  Coll &k = collective(c, "MPI_Cart_create", "", 0, meta, [&](Coll &k) {
    for (auto &m : k.meta) if (m != k.meta[0]) mc::fail("mpi-collective", "ranks create different Cartesian topologies");
    std::vector<int> w(c->b->world.begin(), c->b->world.begin() + prod); if (reorder) { if (opt.reorder == 1) std::reverse(w.begin(), w.end()); if (opt.reorder == 2) std::rotate(w.begin(), w.begin() + 1 % w.size(), w.end()); }
    auto b = newBody(w); b->dims.assign(dims, dims + nd); b->periods.assign(per, per + nd);
    for (size_t i = 0; i < c->b->world.size(); ++i) k.comms[i] = std::find(w.begin(), w.end(), c->b->world[i]) == w.end() ? nullptr : newComm(c->b->world[i], b);
  });
  *o = k.comms[c->rank]; return 0;
}
static void cartCoords(FakeComm::Body &b, int r, int *x) { for (int i = (int)b.dims.size() - 1; i >= 0; --i) { x[i] = r % b.dims[i]; r /= b.dims[i]; } }
static int cartRank(FakeComm::Body &b, const int *x) { int r = 0; for (size_t i = 0; i < b.dims.size(); ++i) { int v = x[i]; if (v < 0 || v >= b.dims[i]) { if (!b.periods[i]) return MPI_PROC_NULL; v = ((v % b.dims[i]) + b.dims[i]) % b.dims[i]; } r = r * b.dims[i] + v; } return r; }
int MPI_Cart_coords(MPI_Comm c, int r, int nd, int *x) { valid(c, "MPI_Cart_coords"); if (c->b->dims.empty() || nd < (int)c->b->dims.size() || r < 0 || r >= (int)c->b->world.size()) mc::fail("mpi-misuse", "MPI_Cart_coords"); cartCoords(*c->b, r, x); return 0; }
int MPI_Cart_rank(MPI_Comm c, const int *x, int *r) { valid(c, "MPI_Cart_rank"); *r = cartRank(*c->b, x); return 0; }
int MPI_Cart_get(MPI_Comm c, int nd, int *d, int *p, int *x) { valid(c, "MPI_Cart_get"); for (int i = 0; i < nd; ++i) { d[i] = c->b->dims[i]; p[i] = c->b->periods[i]; } cartCoords(*c->b, c->rank, x); return 0; }
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int *src, int *dst) { valid(c, "MPI_Cart_shift"); if (dir < 0 || dir >= (int)c->b->dims.size()) mc::fail("mpi-misuse", "MPI_Cart_shift direction"); int x[16]; cartCoords(*c->b, c->rank, x); int v = x[dir]; x[dir] = v - disp; *src = cartRank(*c->b, x); x[dir] = v + disp; *dst = cartRank(*c->b, x); return 0; }
int MPI_Dims_create(int n, int nd, int *d) { for (int i = 0; i < nd; ++i) if (d[i] == 0) { d[i] = 1; } int k = 0; for (int p = 2; n > 1;) if (n % p == 0) { d[k++ % nd] *= p; n /= p; } else ++p; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = s->bytes / (int)dataSize(t, 1); return 0; }
static void fin(MPI_Status *st, FakeReq &r) { if (st) *st = r.st; if (r.st.MPI_SOURCE != MPI_PROC_NULL) received(r); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { point("MPI_Send"); valid(c, "MPI_Send"); hist(mc::mix(101, d)); auto m = postSend(b, n, t, d, tag, c, false); if (opt.rendezvous && !m->matched) point(where("MPI_Send", c, d, n), [m] { return m->matched; }); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { point("MPI_Ssend"); valid(c, "MPI_Ssend"); hist(mc::mix(102, d)); auto m = postSend(b, n, t, d, tag, c, true); if (!m->matched) point(where("MPI_Ssend", c, d, n), [m] { return m->matched; }); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { point("MPI_Recv"); valid(c, "MPI_Recv"); hist(103); auto r = postRecv(b, n, t, s, tag, c); if (!r->done) point(where("MPI_Recv", c, s, n), [r] { return r->done; }); fin(st, *r); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  point("MPI_Sendrecv"); valid(c, "MPI_Sendrecv"); hist(mc::mix(104, d));
  { const char *a = (const char *)sb, *z = (const char *)rb; if (sn > 0 && rn > 0 && a < z + dataSize(rt, rn) && z < a + dataSize(stp, sn)) mc::fail("mpi-misuse", "MPI_Sendrecv with overlapping buffers"); }
  auto m = postSend(sb, sn, stp, d, stag, c, false); auto r = postRecv(rb, rn, rt, s, rtag, c);
  if (!(r->done && (!opt.rendezvous || m->matched))) point("MPI_Sendrecv(to " + std::to_string(d) + ", from " + std::to_string(s) + ", count " + std::to_string(sn) + "/" + std::to_string(rn) + ")", [m, r] { return r->done && (!opt.rendezvous || m->matched); });
  fin(st, *r); return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) { std::vector<char> tmp((const char *)b, (const char *)b + dataSize(t, n)); return MPI_Sendrecv(tmp.data(), n, t, d, stag, b, n, t, s, rtag, c, st); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { point("MPI_Isend"); valid(c, "MPI_Isend"); hist(mc::mix(105, d)); auto r = std::make_shared<FakeReq>(); r->send = true; r->msg = postSend(b, n, t, d, tag, c, false); pool[cur]->reqs.push_back(r); *q = r.get(); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { point("MPI_Irecv"); valid(c, "MPI_Irecv"); hist(106); auto r = postRecv(b, n, t, s, tag, c); pool[cur]->reqs.push_back(r); *q = r.get(); return 0; }
static bool reqDone(FakeReq *r) { return r->send ? (!opt.rendezvous || r->msg->matched) : r->done; }
static void retire(MPI_Request *q, MPI_Status *st) { FakeReq *r = *q; if (!r->send) fin(st, *r); else if (st) *st = MPI_Status{}; auto &v = pool[cur]->reqs; for (auto it = v.begin(); it != v.end(); ++it) if (it->get() == r) { v.erase(it); break; } *q = MPI_REQUEST_NULL; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { if (!*q) return 0; FakeReq *r = *q; point(r->send ? "MPI_Wait (send)" : "MPI_Wait (receive)", [r] { return reqDone(r); }); retire(q, st); return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { std::vector<FakeReq *> v; for (int i = 0; i < n; ++i) if (q[i]) v.push_back(q[i]); point("MPI_Waitall", [v] { for (auto *r : v) if (!reqDone(r)) return false; return true; }); for (int i = 0; i < n; ++i) if (q[i]) retire(&q[i], st ? st + i : nullptr); return 0; }
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) { std::vector<FakeReq *> v(q, q + n); bool any = false; for (auto *r : v) any |= r != nullptr; if (!any) { *idx = MPI_UNDEFINED; return 0; } point("MPI_Waitany", [v] { for (auto *r : v) if (r && reqDone(r)) return true; return false; }); std::vector<int> rdy; for (int i = 0; i < n; ++i) if (q[i] && reqDone(q[i])) rdy.push_back(i); *idx = rdy[rdy.size() > 1 ? mc::choose((int)rdy.size()) : 0]; hist(*idx); retire(&q[*idx], st); return 0; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) { point("MPI_Test"); if (!*q) { *flag = 1; return 0; } *flag = reqDone(*q); hist(*flag); if (*flag) retire(q, st); return 0; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { FakeReq f; f.src = s; f.tag = tag; int me = c->rank; auto b = c->b; point("MPI_Probe", [b, me, f] { for (auto &m : b->sends[me]) if (fits(f, *m)) return true; return false; }); for (auto &m : b->sends[me]) if (fits(f, *m)) { if (st) *st = MPI_Status{m->src, m->tag, 0, (int)dataSize(m->type, m->count)}; hist(m->src); break; } return 0; }
int MPI_Barrier(MPI_Comm c) { collective(c, "MPI_Barrier", "", 0); return 0; }
static void sameMeta(Coll &k) { for (auto &m : k.meta) if (m != k.meta[0]) mc::fail("mpi-collective", k.kind + ": ranks disagree on count, datatype, operator or root"); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { Coll &k = collective(c, "MPI_Bcast", b, dataSize(t, n), {n, t, root}, sameMeta); if (c->rank != root) memcpy(b, k.in[root].data(), dataSize(t, n)); hist(hashBytes(b, dataSize(t, n))); return 0; }
static void reduceAll(Coll &k) { sameMeta(k); k.out = k.in[0]; for (size_t i = 1; i < k.in.size(); ++i) combine(k.out.data(), k.in[i].data(), k.meta[0][0], k.meta[0][1], k.meta[0][2]); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Coll &k = collective(c, "MPI_Allreduce", s == MPI_IN_PLACE ? r : s, dataSize(t, n), {n, t, op}, reduceAll); memcpy(r, k.out.data(), dataSize(t, n)); hist(hashBytes(r, dataSize(t, n))); return 0; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { Coll &k = collective(c, "MPI_Reduce", s == MPI_IN_PLACE ? r : s, dataSize(t, n), {n, t, op, root}, reduceAll); if (c->rank == root) { memcpy(r, k.out.data(), dataSize(t, n)); hist(hashBytes(r, dataSize(t, n))); } return 0; }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Coll &k = collective(c, "MPI_Scan", s, dataSize(t, n), {n, t, op}, sameMeta); std::vector<char> a = k.in[0]; for (int i = 1; i <= c->rank; ++i) combine(a.data(), k.in[i].data(), n, t, op); memcpy(r, a.data(), a.size()); hist(hashBytes(r, a.size())); return 0; }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { Coll &k = collective(c, "MPI_Gather", s, dataSize(t, n), {n, t, root}, sameMeta); if (c->rank == root) { size_t o = 0; for (auto &x : k.in) { memcpy((char *)r + o, x.data(), x.size()); o += dataSize(rt, rn); } hist(hashBytes(r, o)); } return 0; }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { Coll &k = collective(c, "MPI_Allgather", s, dataSize(t, n), {n, t}, sameMeta); size_t o = 0; for (auto &x : k.in) { memcpy((char *)r + o, x.data(), x.size()); o += dataSize(rt, rn); } hist(hashBytes(r, o)); return 0; }
int MPI_Info_create(MPI_Info *i) { *i = new FakeInfo; return 0; }
int MPI_Info_set(MPI_Info, const char *, const char *) { return 0; }
int MPI_Info_free(MPI_Info *i) { delete *i; *i = nullptr; return 0; }
