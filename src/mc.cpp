#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <string>
#include <vector>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=0:"
         "handle_abort=0:handle_segv=1:quarantine_size_mb=8:malloc_context_size=6:alloc_dealloc_mismatch=1";
}

namespace mc {
static const int MAXD = 400, MAXV = 12, NSAMP = 4;

struct Viol { char scen[64], key[96], msg[1600], path[3000]; int depth; int choice[MAXD]; };
struct Work {
  volatile uint64_t exec, nodes, trans, pruned, beat;
  volatile int depth;                 // path of the current/last execution
  int choice[MAXD], arity[MAXD]; const char* label[MAXD]; long val[MAXD]; char hasval[MAXD];
  volatile int plen;                  // forced prefix length
  int pchoice[MAXD], parity[MAXD];
  volatile int started, finished, capped, diverged;
  volatile int endst;                 // isolate: 0 running 1 ok 2 violation 3 prune 4 skip
  int nviol; Viol v[MAXV];
  int nsamp; char samp[NSAMP][2500];
  char divmsg[300];
};

struct Scen { const char* name; Body body; int flags; };
static std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }
Reg::Reg(const char* name, Body b, int flags) { scens().push_back(Scen{name, b, flags}); }

static bool g_thorough = false;
static Work* W = nullptr;
static int g_nw = 8, g_me = 0;
static const int SHARD = 3;
static double g_deadline = 0;
static int g_logfd = -1;
static int g_owner = 0;       // did this worker own the current path
static const char* g_scen = "";
static bool g_replay = false;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static int shard_of(int n) {
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < n && i < SHARD; ++i) { h ^= (uint64_t)(W->choice[i] + 1); h *= 1099511628211ull; h ^= h >> 29; }
  return (int)((h >> 17) % (uint64_t)g_nw);
}

bool Ctx::thorough() const { return g_thorough; }

int Ctx::pick(const char* label, int n) {
  int d = W->depth;
  if (n <= 0) { fail("harness", "empty choice '%s'", label); }
  if (d >= MAXD) { fprintf(stderr, "choice depth exceeded\n"); W->diverged = 1; _exit(3); }
  int ch = 0;
  if (d < W->plen) {
    ch = W->pchoice[d];
    if (W->parity[d] && W->parity[d] != n) {
      snprintf(W->divmsg, sizeof W->divmsg, "replay diverged in %s at choice %d ('%s'): arity %d, was %d",
               g_scen, d, label, n, W->parity[d]);
      W->diverged = 1; _exit(3);
    }
    if (ch >= n) { snprintf(W->divmsg, sizeof W->divmsg, "replayed choice out of range in %s at %d", g_scen, d); W->diverged = 1; _exit(3); }
  } else if (d >= SHARD || g_nw == 1) W->nodes = W->nodes + 1;
  W->choice[d] = ch; W->arity[d] = n; W->label[d] = label; W->hasval[d] = 0;
  W->depth = d + 1;
  if (d + 1 == SHARD && g_nw > 1) { if (shard_of(SHARD) != g_me) throw Skip(); g_owner = 1; }
  return ch;
}
void Ctx::value(long v) { int d = W->depth - 1; if (d >= 0) { W->val[d] = v; W->hasval[d] = 1; } }
void Ctx::step(unsigned n) { W->trans = W->trans + n; }
void Ctx::note(const char* fmt, ...) {
  if (!recording_) return;
  char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  log_ += (log_.empty() ? "" : "; "); log_ += b;
}
static std::string render() {
  std::string s;
  for (int i = 0; i < W->depth; ++i) {
    char b[200];
    if (W->hasval[i]) snprintf(b, sizeof b, "%s=%ld ", W->label[i], W->val[i]);
    else snprintf(b, sizeof b, "%s#%d ", W->label[i], W->choice[i]);
    s += b;
  }
  if (!s.empty()) s.pop_back();
  return s;
}
static void record(const char* key, const char* msg) {
  if (g_nw > 1 && W->depth < SHARD && shard_of(W->depth) != g_me) return;
  if (g_replay) { printf("VIOLATED key=%s\n  %s\n  path: %s\n", key, msg, render().c_str()); }
  int same = 0;
  for (int i = 0; i < W->nviol; ++i) same += !strcmp(W->v[i].key, key);
  if (W->nviol < MAXV && same < 2) {
    Viol& v = W->v[W->nviol];
    snprintf(v.scen, sizeof v.scen, "%s", g_scen); snprintf(v.key, sizeof v.key, "%s", key);
    snprintf(v.msg, sizeof v.msg, "%s", msg); snprintf(v.path, sizeof v.path, "%s", render().c_str());
    v.depth = W->depth; memcpy(v.choice, W->choice, sizeof v.choice);
    W->nviol = W->nviol + 1;
  }
}
void Ctx::check(bool ok, const char* key, const char* fmt, ...) {
  if (__builtin_expect(ok, 1)) return;
  char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  record(key, b); throw Stop();
}
void Ctx::fail(const char* key, const char* fmt, ...) {
  char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  record(key, b); throw Stop();
}

// run one execution with the current forced prefix; returns 1 ok 2 violation 3 prune 4 skip
static int run_one(const Scen& s, bool recording, std::string* log) {
  W->depth = 0; g_owner = 0;
  Ctx c; c.recording_ = recording;
  int r = 1;
  try { s.body(c); }
  catch (Stop&) { r = 2; }
  catch (Prune&) { r = 3; }
  catch (Skip&) { r = 4; }
  catch (std::exception& e) {
    char b[900]; snprintf(b, sizeof b, "unexpected exception %s: %s", typeid(e).name(), e.what());
    record("unexpected-exception", b); r = 2;
  } catch (...) { record("unexpected-exception", "unexpected non-standard exception"); r = 2; }
  if (log) *log = c.log_;
  return r;
}
static bool next_path() {
  int i = W->depth - 1;
  while (i >= 0 && W->choice[i] + 1 >= W->arity[i]) --i;
  if (i < 0) return false;
  for (int k = 0; k < i; ++k) { W->pchoice[k] = W->choice[k]; W->parity[k] = W->arity[k]; }
  W->pchoice[i] = W->choice[i] + 1; W->parity[i] = W->arity[i]; W->plen = i + 1;
  return true;
}
static void crash_text(int status, char* out, size_t n) {
  std::string tail;
  if (g_logfd >= 0) {
    off_t sz = lseek(g_logfd, 0, SEEK_END); off_t from = sz > 6000 ? sz - 6000 : 0;
    tail.resize(sz - from);
    ssize_t got = pread(g_logfd, &tail[0], tail.size(), from); tail.resize(got > 0 ? got : 0);
  }
  // keep the informative lines
  std::string keep; size_t p = 0; int lines = 0;
  while (p < tail.size() && lines < 14) {
    size_t e = tail.find('\n', p); if (e == std::string::npos) e = tail.size();
    std::string l = tail.substr(p, e - p); p = e + 1;
    if (l.find("ERROR") != std::string::npos || l.find("Assertion") != std::string::npos ||
        l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos ||
        l.find("runtime error") != std::string::npos || l.find(" of size ") != std::string::npos ||
        l.find("    #") == 0) { keep += l + " | "; ++lines; }
  }
  char st[100];
  if (WIFSIGNALED(status)) snprintf(st, sizeof st, "killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
  else snprintf(st, sizeof st, "exited with status %d", WEXITSTATUS(status));
  snprintf(out, n, "execution %s: %s", st, keep.c_str());
}
static void redirect_log() {
  if (g_logfd >= 0) { dup2(g_logfd, 1); dup2(g_logfd, 2); }
}
static int timed_wait(pid_t p, double limit, int* st) {   // 0 exited, 1 timeout(killed)
  double t0 = now();
  useconds_t us = 50;
  for (;;) {
    pid_t r = waitpid(p, st, WNOHANG);
    if (r == p) return 0;
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, st, 0); return 1; }
    usleep(us); if (us < 20000) us = us * 3 / 2 + 1;
  }
}
static const char* key_for(int status) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) return "asan";
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT) return "abort";
  return "crash";
}
static void worker(const Scen& s, bool resume) {
  redirect_log();
  signal(SIGPIPE, SIG_IGN);
  if (resume) { if (!next_path()) { W->finished = 1; _exit(0); } }
  uint64_t it = 0;
  uint64_t sampleAt = 1;
  for (;;) {
    W->started = 1;
    if ((++it & 0x3ff) == 0 && g_logfd >= 0 && !(s.flags & ISOLATE)) { fflush(stdout); if (ftruncate(g_logfd, 0)) {} }
    bool rec = W->exec + 1 == sampleAt && W->nsamp < NSAMP;
    int r; std::string log;
    if (s.flags & ISOLATE) {
      if (g_logfd >= 0 && (it & 0xf) == 0) { if (ftruncate(g_logfd, 0)) {} }
      W->endst = 0; W->depth = 0;
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) {
        std::string lg;
        int rr = run_one(s, rec, &lg);
        if (rec && rr == 1) { snprintf(W->samp[W->nsamp], 2500, "%s: %s%s%s", s.name, render().c_str(), lg.empty() ? "" : " :: ", lg.c_str()); }
        W->endst = rr; _exit(0);
      }
      int st; pid_t w;
      // exact wait, with an alarm-like limit
      w = waitpid(p, &st, WNOHANG);
      if (w != p) {
        double t0 = now(); bool to = false;
        // block in waitpid but bounded: poll quickly at first
        for (;;) {
          w = waitpid(p, &st, WNOHANG); if (w == p) break;
          double dt = now() - t0;
          if (dt > 60) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
          if (dt > 0.02) usleep(2000); else sched_yield();
        }
        if (to) { record("hang", "execution did not finish within 60 s"); W->endst = 2; }
      }
      if (W->diverged) _exit(3);
      if (W->endst == 0) {
        if (!(g_nw > 1 && W->depth < SHARD && shard_of(W->depth) != g_me)) {
          char b[1500]; crash_text(st, b, sizeof b); record(key_for(st), b);
        }
        W->endst = 2;
      }
      r = W->endst;
      if (rec && r == 1) { W->nsamp = W->nsamp + 1; sampleAt = sampleAt * 97 + 5; }
    } else {
      r = run_one(s, rec, &log);
      if (rec && r == 1) {
        snprintf(W->samp[W->nsamp], 2500, "%s: %s%s%s", s.name, render().c_str(), log.empty() ? "" : " :: ", log.c_str());
        W->nsamp = W->nsamp + 1; sampleAt = sampleAt * 97 + 5;
      }
    }
    W->beat = W->beat + 1;
    bool own = g_nw == 1 || W->depth >= SHARD ? r != 4 : shard_of(W->depth) == g_me;
    if (own) { if (r == 3) W->pruned = W->pruned + 1; else if (r != 4) W->exec = W->exec + 1; }
    if (W->nviol >= MAXV) { W->capped = 2; W->finished = 1; _exit(0); }
    if ((it & 15) == 0 || (s.flags & ISOLATE)) if (now() > g_deadline) { W->capped = 1; W->finished = 1; _exit(0); }
    if (!next_path()) break;
  }
  W->finished = 1; fflush(stdout); _exit(0);
}
static std::string esc(const char* s) {
  std::string o;
  for (; *s; ++s) {
    unsigned char ch = *s;
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}
static std::string jviol(const Viol& v) {
  std::string s = "{\"scenario\":\"" + esc(v.scen) + "\",\"key\":\"" + esc(v.key) + "\",\"msg\":\"" + esc(v.msg) + "\",\"path\":\"" + esc(v.path) + "\",\"choices\":[";
  for (int i = 0; i < v.depth; ++i) s += (i ? "," : "") + std::to_string(v.choice[i]);
  return s + "]}";
}
}  // namespace mc

using namespace mc;
int main(int argc, char** argv) {
  std::string report, logdir = "/tmp", only, replay;
  double budget = 600;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--tier") g_thorough = nxt() == "thorough";
    else if (a == "--report") report = nxt();
    else if (a == "--logdir") logdir = nxt();
    else if (a == "--workers") g_nw = atoi(nxt().c_str());
    else if (a == "--budget") budget = atof(nxt().c_str());
    else if (a == "--only") only = nxt();
    else if (a == "--replay") replay = nxt();
    else if (a == "--list") { for (auto& s : scens()) puts(s.name); return 0; }
  }
  std::sort(scens().begin(), scens().end(), [](const Scen& a, const Scen& b) { return strcmp(a.name, b.name) < 0; });
  if (!replay.empty()) {   // scenario:c0,c1,...
    size_t p = replay.find(':'); std::string name = replay.substr(0, p), cs = replay.substr(p + 1);
    W = new Work(); memset((void*)W, 0, sizeof *W); g_nw = 1; g_replay = true; g_deadline = now() + 1e9;
    char* q = &cs[0]; int n = 0;
    while (*q) { W->pchoice[n++] = strtol(q, &q, 10); if (*q == ',') ++q; }
    W->plen = n;
    for (auto& s : scens()) if (name == s.name) {
      g_scen = s.name; std::string log; int r = run_one(s, true, &log);
      printf("scenario %s path: %s\nlog: %s\nresult: %s\n", s.name, render().c_str(), log.c_str(),
             r == 1 ? "property held" : r == 2 ? "VIOLATED" : "outside domain");
      return r == 2 ? 1 : 0;
    }
    printf("no such scenario %s\n", name.c_str()); return 2;
  }
  double t0 = now(), end = t0 + budget;
  std::string js = "{\"scenarios\":["; std::string viol, samples;
  bool first = true, anyviol = false, diverged = false;
  std::vector<const Scen*> todo;
  for (auto& s : scens()) if (only.empty() ? (g_thorough || !(s.flags & DEEP)) : only == s.name) todo.push_back(&s);
  for (size_t si = 0; si < todo.size(); ++si) {
    const Scen& s = *todo[si];
    g_scen = s.name;
    double ts = now();
    // fair share of what is left, but a scenario may use what earlier ones left over
    g_deadline = ts + std::max(2.0, (end - ts) / 1.0 * (si + 1 == todo.size() ? 1.0 : std::max(0.35, 2.0 / (todo.size() - si))));
    if (g_deadline > end) g_deadline = std::max(end, ts + 2);
    Work* all = (Work*)mmap(nullptr, sizeof(Work) * g_nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(g_nw); std::vector<int> fd(g_nw); std::vector<uint64_t> beat(g_nw, 0); std::vector<double> tb(g_nw, now());
    std::vector<int> crashes(g_nw, 0);
    auto spawn = [&](int w, bool resume) {
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) { W = &all[w]; g_me = w; g_logfd = fd[w]; worker(s, resume); }
      pid[w] = p; tb[w] = now(); beat[w] = all[w].beat;
    };
    for (int w = 0; w < g_nw; ++w) {
      std::string f = logdir + "/" + s.name + ".w" + std::to_string(w) + ".log";
      fd[w] = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
      spawn(w, false);
    }
    int live = g_nw; bool capped = false;
    while (live) {
      bool progress = false;
      for (int w = 0; w < g_nw; ++w) {
        if (!pid[w]) continue;
        int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
        Work& k = all[w]; W = &k; g_me = w; g_logfd = fd[w];
        if (r == pid[w]) {
          progress = true;
          if (k.diverged) { fprintf(stderr, "ERROR: %s\n", k.divmsg); diverged = true; pid[w] = 0; --live; continue; }
          if (k.finished) { if (k.capped) capped = true; pid[w] = 0; --live; continue; }
          // died in the middle of an execution: a violation on that path
          char b[1500]; crash_text(st, b, sizeof b); record(key_for(st), b);
          if (++crashes[w] >= 4 || k.nviol >= MAXV) { capped = true; pid[w] = 0; --live; continue; }
          k.exec = k.exec + 1; spawn(w, true);
        } else {
          if (k.beat != beat[w]) { beat[w] = k.beat; tb[w] = now(); }
          else if (now() - tb[w] > 90 && !(s.flags & ISOLATE)) {
            kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
            // run the stuck path alone with a longer limit before calling it a hang
            int d = k.depth; (void)d;
            pid_t p = fork();
            if (p == 0) {
              redirect_log(); Work* c = new Work(*(Work*)W); W = c; c->plen = c->depth;
              memcpy(c->pchoice, c->choice, sizeof c->choice); memset(c->parity, 0, sizeof c->parity);
              run_one(s, false, nullptr); _exit(0);
            }
            if (timed_wait(p, 180, &st)) record("hang", "execution did not finish within 180 s when run alone");
            if (++crashes[w] >= 2) { capped = true; pid[w] = 0; --live; continue; }
            spawn(w, true); progress = true;
          }
        }
      }
      if (!progress) usleep(live == g_nw ? 3000 : 1000);
    }
    uint64_t ex = 0, no = 0, tr = 0, pr = 0; int nv = 0;
    for (int w = 0; w < g_nw; ++w) {
      Work& k = all[w]; ex += k.exec; no += k.nodes; tr += k.trans; pr += k.pruned;
      for (int i = 0; i < k.nviol; ++i) { anyviol = true; ++nv; if (nv <= 12) { viol += (viol.empty() ? "" : ",") + jviol(k.v[i]); } }
      if (w < 2) for (int i = 0; i < k.nsamp && i < 3; ++i) samples += (samples.empty() ? "\"" : ",\"") + esc(k.samp[i]) + "\"";
      close(fd[w]);
      std::string f = logdir + "/" + s.name + ".w" + std::to_string(w) + ".log"; unlink(f.c_str());
    }
    char b[600];
    snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"violations\":%d,\"complete\":%s,\"wall_s\":%.2f}",
             first ? "" : ",", s.name, (unsigned long long)ex, (unsigned long long)no + ex, (unsigned long long)(tr + no), (unsigned long long)pr, nv, capped || diverged ? "false" : "true", now() - ts);
    first = false; js += b;
    printf("  %-34s exec=%llu states=%llu trans=%llu pruned=%llu viol=%d %s %.1fs\n", s.name, (unsigned long long)ex, (unsigned long long)no + ex,
           (unsigned long long)(tr + no), (unsigned long long)pr, nv, capped ? "CAPPED" : "complete", now() - ts);
    fflush(stdout);
    if (diverged) break;
    if (ex == 0 && !nv) { fprintf(stderr, "ERROR: scenario %s explored nothing\n", s.name); diverged = true; break; }
    munmap(all, sizeof(Work) * g_nw);
  }
  js += "],\"violations\":[" + viol + "],\"samples\":[" + samples + "]}";
  if (!report.empty()) { FILE* f = fopen(report.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  if (diverged) return 3;
  return anyviol ? 1 : 0;
}
