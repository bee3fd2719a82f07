#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0:detect_stack_use_after_return=0"; }

namespace mc {
namespace {
const int MAXC = 4096, MSG = 6000, MAXV = 12;
struct Shared {
  volatile uint64_t execs, steps, checks, states, pruned, maxDepth;
  volatile int done;            // 1: complete choice tree explored
  volatile int nchoice; volatile int choices[MAXC];
  volatile int opsLen; char ops[MSG];
  volatile int nviol; struct { char key[200]; char msg[MSG]; char ops[MSG]; int n; int c[MAXC]; } viol[MAXV];
  volatile uint64_t suppressed;
  volatile int nsamples; char samples[6][400];
};
Shared *sh = nullptr;
struct Scen { std::string name; std::function<void()> body; };
std::vector<Scen> scens;
std::vector<int> path, arity; size_t pos = 0, replayLen = 0;
bool thoroughFlag = false, replayFlag = false;
std::unordered_set<uint64_t> seen;
std::map<std::string,int> keyCount;

void recordViolation(const std::string &key, const std::string &msg) {
  if (replayFlag) { fprintf(stderr, "VIOLATED [%s]: %s\n", key.c_str(), msg.c_str()); }
  if (keyCount[key]++ > 0) { sh->suppressed = sh->suppressed + 1; return; }
  int i = sh->nviol; if (i >= MAXV) { sh->suppressed = sh->suppressed + 1; return; }
  snprintf(sh->viol[i].key, sizeof sh->viol[i].key, "%s", key.c_str());
  snprintf(sh->viol[i].msg, sizeof sh->viol[i].msg, "%s", msg.c_str());
  memcpy(sh->viol[i].ops, sh->ops, MSG);
  sh->viol[i].n = (int)std::min(pos, (size_t)MAXC);
  for (int k = 0; k < sh->viol[i].n; ++k) sh->viol[i].c[k] = path[k];
  sh->nviol = i + 1;
}
} // namespace

int execTimeout = 60;
bool thorough() { return thoroughFlag; }
bool inReplay() { return replayFlag; }

int choose(int n) {
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
  int v;
  if (pos < path.size()) {
    if (!replayFlag && arity[pos] != n) { fprintf(stderr, "mc: nondeterministic scenario: arity %d vs %d at %zu\n", arity[pos], n, pos); _exit(97); }
    v = path[pos];
  }
  else { path.push_back(0); arity.push_back(n); v = 0; }
  if (pos < (size_t)MAXC) { sh->choices[pos] = v; sh->nchoice = (int)pos + 1; }
  ++pos;
  return v;
}
uint64_t pathHash() { uint64_t h = 17; for (size_t i = 0; i < pos && i < path.size(); ++i) h = mix(h, path[i] + 1); return h; }
int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
void op(const std::string &s) {
  sh->steps = sh->steps + 1;
  if (replayFlag) fprintf(stderr, "  op: %s\n", s.c_str());
  int l = sh->opsLen; int room = MSG - 2 - l; if (room <= 4) return;
  int n = snprintf(sh->ops + l, room, "%s%s", l ? "; " : "", s.c_str());
  sh->opsLen = l + std::min(n, room - 1);
}
void checked(uint64_t n) { sh->checks = sh->checks + n; }
void step(uint64_t n) { sh->steps = sh->steps + n; }
bool visit(uint64_t h) { if (replayFlag || pos < replayLen) return true; /* still replaying the prefix: entered (and recorded) by an earlier execution */ bool fresh = seen.insert(h).second; if (fresh) sh->states = sh->states + 1; else sh->pruned = sh->pruned + 1; return fresh; }
void state(uint64_t h) { if (seen.size() < 4000000 && seen.insert(h).second) sh->states = sh->states + 1; }
void sample(const std::string &s) { int i = sh->nsamples; if (i >= 6) return; snprintf(sh->samples[i], 400, "%s", s.c_str()); sh->nsamples = i + 1; }
void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
void add(const std::string &name, std::function<void()> body) { scens.push_back({name, std::move(body)}); }
Reg::Reg(const std::string &name, std::function<void()> body, int) { add(name, std::move(body)); }

ChildResult inChild(std::function<void(std::ostream&)> f, int timeoutSec) {
  int fd[2]; if (pipe(fd)) abort();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); abort(); }
  if (p == 0) {
    close(fd[0]);
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGABRT, SIG_DFL);
    std::ostringstream o; int code = 0;
    try { f(o); } catch (const Violation &v) { o << "VIOL " << v.key << " " << v.msg; code = 3; } catch (const std::exception &e) { o << "EXC " << e.what(); code = 4; } catch (...) { o << "EXC?"; code = 4; }
    std::string s = o.str(); size_t off = 0; while (off < s.size()) { ssize_t k = write(fd[1], s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
    _exit(code);
  }
  close(fd[1]);
  ChildResult r{false, 0, 0, "", false};
  time_t t0 = time(nullptr); char buf[4096];
  for (;;) {
    struct pollfd pf = {fd[0], POLLIN, 0}; int k = poll(&pf, 1, 500);
    if (k > 0) { ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) break; r.out.append(buf, n); }
    if (time(nullptr) - t0 > timeoutSec) { r.timedOut = true; kill(p, SIGKILL); break; }
  }
  close(fd[0]);
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.exited = WIFEXITED(st); if (r.exited) r.code = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
  return r;
}

namespace {
void runScenario(Scen &s) {
  path.clear(); arity.clear(); seen.clear(); keyCount.clear();
  for (;;) {
    pos = 0; replayLen = path.size(); sh->nchoice = 0; sh->opsLen = 0; sh->ops[0] = 0;
    try { s.body(); }
    catch (const Prune &) {}
    catch (const Violation &v) { recordViolation(v.key, v.msg); }
    catch (const std::exception &e) { recordViolation("uncaught-exception", std::string("unexpected exception: ") + e.what()); }
    catch (...) { recordViolation("uncaught-exception", "unexpected exception of unknown type"); }
    sh->execs = sh->execs + 1; if (pos > sh->maxDepth) sh->maxDepth = pos;
    path.resize(pos); arity.resize(pos);
    while (!path.empty() && path.back() + 1 >= arity.back()) { path.pop_back(); arity.pop_back(); }
    if (path.empty()) break;
    ++path.back();
    if (sh->nviol >= MAXV) break;
  }
  sh->done = 1;
}
std::string esc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
std::string tailOf(const std::string &fn) {
  FILE *f = fopen(fn.c_str(), "r"); if (!f) return ""; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
  size_t p = s.find("ERROR: AddressSanitizer"); if (p != std::string::npos) s = s.substr(p);
  if (s.size() > 1200) s = s.substr(0, 1200);
  return s;
}
} // namespace
} // namespace mc

using namespace mc;
int main(int argc, char **argv) {
  std::string outFile, only, replay, prefix; int jobs = 8, execTimeoutOverride = 0; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") thoroughFlag = true;
    else if (a == "--out") outFile = argv[++i];
    else if (a == "--scenario") only = argv[++i];
    else if (a == "--prefix") prefix = argv[++i];
    else if (a == "--timeout") execTimeoutOverride = atoi(argv[++i]);
    else if (a == "--replay") { replayFlag = true; replay = argv[++i]; }
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--list") list = true;
  }
  mc_register();
  if (execTimeoutOverride) execTimeout = execTimeoutOverride;
  if (list) { for (auto &s : scens) printf("%s\n", s.name.c_str()); return 0; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  size_t n = scens.size();
  if (replayFlag) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto &s : scens) if (s.name == only) {
      std::stringstream ss(replay); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) { path.push_back(atoi(t.c_str())); arity.push_back(1 << 30); }
      fprintf(stderr, "replaying %s\n", only.c_str()); alarm(execTimeout);
      try { s.body(); fprintf(stderr, "execution finished without a violation\n"); return 0; }
      catch (const Prune &) { return 0; }
      catch (const Violation &v) { fprintf(stderr, "VIOLATED [%s]: %s\n", v.key.c_str(), v.msg.c_str()); return 1; }
      catch (const std::exception &e) { fprintf(stderr, "VIOLATED: unexpected exception %s\n", e.what()); return 1; }
    }
    fprintf(stderr, "no such scenario\n"); return 2;
  }
  std::vector<Shared *> shared(n, nullptr); std::vector<pid_t> pid(n, -1); std::vector<int> status(n, 0); std::vector<bool> hung(n, false), ran(n, false), fat(n, false); std::vector<long> rss(n, 0);
  const long rssLimit = thoroughFlag ? 12000 : 3000; // MB; a worker that needs more does not come to an end on its input
  auto rssOf = [](pid_t p) { char f[64]; snprintf(f, sizeof f, "/proc/%d/statm", (int)p); FILE *h = fopen(f, "r"); long a = 0, b = 0; if (h) { if (fscanf(h, "%ld %ld", &a, &b) != 2) b = 0; fclose(h); } return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024; };
  std::vector<uint64_t> lastExec(n, 0); std::vector<double> lastT(n, 0); std::vector<std::string> errf(n);
  auto now = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
  size_t next = 0; int running = 0; double t0 = now(), lastLook = t0;
  std::string tmp = outFile.empty() ? std::string("/tmp/mc") : outFile;
  while (next < n || running > 0) {
    while (next < n && running < jobs) {
      size_t i = next++;
      if (!only.empty() && scens[i].name != only) continue;
      if (scens[i].name.compare(0, prefix.size(), prefix) != 0) continue;
      shared[i] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (shared[i] == MAP_FAILED) { perror("mmap"); return 3; }
      ran[i] = true; lastT[i] = now(); errf[i] = tmp + "." + std::to_string(i) + ".err";
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        sh = shared[i];
        int e = open(errf[i].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (e >= 0) dup2(e, 2);
        int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 1);
        runScenario(scens[i]); _exit(0);
      }
      if (p < 0) { perror("fork"); return 3; }
      pid[i] = p; ++running;
    }
    bool any = false, look = now() - lastLook > 0.05; if (look) lastLook = now();
    for (size_t i = 0; i < n; ++i) if (pid[i] > 0) {
      int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
      if (r == pid[i]) { status[i] = st; pid[i] = -1; --running; any = true; continue; }
      double t = now();
      if (shared[i]->execs != lastExec[i]) { lastExec[i] = shared[i]->execs; lastT[i] = t; }
      else if (t - lastT[i] > execTimeout) { hung[i] = true; kill(pid[i], SIGKILL); next = n; }
      if (look) { long m = rssOf(pid[i]); if (m > rss[i]) rss[i] = m; if (m > rssLimit && !hung[i]) { fat[i] = true; kill(pid[i], SIGKILL); next = n; } }
    }
    if (!any) usleep(2000);
  }
  std::ostringstream o; bool viol = false, infra = false;
  o << "{\"wall_s\":" << now() - t0 << ",\"scenarios\":[";
  bool first = true; std::ostringstream vs; bool vfirst = true;
  for (size_t i = 0; i < n; ++i) if (ran[i]) {
    Shared *s = shared[i];
    bool crashed = !(WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == 0);
    if (WIFEXITED(status[i]) && WEXITSTATUS(status[i]) == 97) { infra = true; fprintf(stderr, "%s", tailOf(errf[i]).c_str()); }
    else if (!hung[i] && !fat[i] && WIFSIGNALED(status[i]) && WTERMSIG(status[i]) == SIGKILL) { infra = true; fprintf(stderr, "scenario %s: killed from outside\n", scens[i].name.c_str()); }
    else if (crashed || hung[i]) {
      int k = s->nviol; if (k >= MAXV) k = MAXV - 1; else s->nviol = k + 1;
      std::ostringstream m;
      if (hung[i]) m << "no progress for " << execTimeout << " s: the code under test does not terminate on this input";
      else if (fat[i]) m << "more than " << rssLimit << " MB needed: the code under test asks for memory without end";
      else if (WIFSIGNALED(status[i])) m << "the code under test was killed by signal " << WTERMSIG(status[i]) << " (" << strsignal(WTERMSIG(status[i])) << ") " << tailOf(errf[i]);
      else m << "the code under test ended the process with exit status " << WEXITSTATUS(status[i]) << " " << tailOf(errf[i]);
      snprintf(s->viol[k].key, sizeof s->viol[k].key, "%s", hung[i] ? "hang" : fat[i] ? "memory" : "crash");
      snprintf(s->viol[k].msg, sizeof s->viol[k].msg, "%s", m.str().c_str());
      memcpy(s->viol[k].ops, s->ops, MSG); s->viol[k].n = s->nchoice; for (int c = 0; c < s->nchoice; ++c) s->viol[k].c[c] = s->choices[c];
    }
    o << (first ? "" : ",") << "\n{\"name\":\"" << esc(scens[i].name) << "\",\"execs\":" << s->execs << ",\"transitions\":" << s->steps << ",\"states\":" << s->states << ",\"checks\":" << s->checks
      << ",\"pruned\":" << s->pruned << ",\"rss_mb\":" << rss[i] << ",\"max_depth\":" << s->maxDepth << ",\"complete\":" << (s->done && !crashed ? "true" : "false") << ",\"samples\":[";
    for (int k = 0; k < s->nsamples; ++k) o << (k ? "," : "") << "\"" << esc(s->samples[k]) << "\"";
    o << "]}"; first = false;
    for (int k = 0; k < s->nviol; ++k) {
      viol = true;
      vs << (vfirst ? "" : ",") << "\n{\"scenario\":\"" << esc(scens[i].name) << "\",\"key\":\"" << esc(s->viol[k].key) << "\",\"msg\":\"" << esc(s->viol[k].msg) << "\",\"ops\":\"" << esc(s->viol[k].ops) << "\",\"choices\":[";
      for (int c = 0; c < s->viol[k].n; ++c) vs << (c ? "," : "") << s->viol[k].c[c];
      vs << "]}"; vfirst = false;
    }
    unlink(errf[i].c_str());
  }
  o << "],\"violations\":[" << vs.str() << "]}\n";
  if (!outFile.empty()) { FILE *f = fopen(outFile.c_str(), "w"); if (!f) return 3; fputs(o.str().c_str(), f); fclose(f); }
  else fputs(o.str().c_str(), stdout);
  if (infra) return 3;
  return viol ? 1 : 0;
}
