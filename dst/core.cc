// Runner: forks one child per run from an untouched image, so that every run
// starts from the same heap and a replay is bit-exact.  No heap use in the
// runner itself.
#include "dst.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>

#include "error.h"

namespace dst {

static const uint32_t kMaxChoices = 1 << 17;
static const uint32_t kTrace = 1 << 19;
static const uint32_t kBits = 1 << 23;
static const int kCounters = 192;
static const int kMaxViol = 6;
static const int kMaxWorkers = 32;

enum { kRunning = 0, kOk = 1, kViolation = 2, kDiscard = 3 };

struct Run {  // one per worker, in shared memory
  volatile int status;
  char kind[96];
  char msg[4096];
  uint32_t nchoice;
  uint32_t choices[kMaxChoices];
  uint32_t nreplay;      // input
  bool replaying;        // input
  uint64_t seed;         // input
  uint32_t ntrace;
  char trace[kTrace];
  uint64_t thash;
  bool nontriv;
  char dir[64];
  uint64_t nsteps;
  struct { char name[56]; uint64_t n; bool is_fault; } counters[kCounters];
  uint8_t states[kBits / 8];
  uint8_t hists[kBits / 8];
  // worker totals
  uint64_t runs, discards, nondet, dets, nontrivial;
};

struct Viol {
  char kind[96];
  char msg[4096];
  uint64_t run, seed;
  uint32_t nchoice;
  uint32_t choices[kMaxChoices];
};

struct Global {
  volatile int stop;
  volatile int nviol;
  volatile int lock;
  Viol viol[kMaxViol];
  uint64_t viol_runs;
  char sample[3][6000];
  volatile int nsample;
};

static Run* g_run;
static Global* g;
static World* g_worlds;
static const World* g_world;
static uint64_t g_prng;
static bool g_verbose;
static uint32_t* g_in;  // replay input (shared mapping)
static int g_cpu_limit = 20;
static char g_scratch_root[200];

World::World(const char* p, void (*r)()) : property(p), run(r), next(g_worlds) {
  g_worlds = this;
}

static uint64_t splitmix(uint64_t* s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

uint64_t mix(uint64_t h, uint64_t v) {
  uint64_t s = h ^ (v * 0xff51afd7ed558ccdull);
  return splitmix(&s);
}

uint64_t hstr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < s.size(); ++i) h = (h ^ (uint8_t)s[i]) * 1099511628211ull;
  return h;
}

void hash_bytes(const void* p, size_t n) {
  uint64_t h = g_run->thash;
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  g_run->thash = h;
}
uint64_t trace_hash() { return g_run->thash; }

uint32_t choose(uint32_t n) {
  if (n == 0) n = 1;
  uint32_t i = g_run->nchoice;
  if (i >= kMaxChoices) discard("choice budget");
  uint32_t v;
  if (g_run->replaying) {
    v = i < g_run->nreplay ? g_in[i] % n : 0;
  } else {
    v = (uint32_t)((splitmix(&g_prng) >> 11) % n);
  }
  g_run->choices[i] = v;
  g_run->nchoice = i + 1;
  hash_bytes(&v, sizeof v);
  return v;
}

bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); }

void note(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  hash_bytes(buf, n);
  if (g_run->ntrace + n + 2 < kTrace) {
    memcpy(g_run->trace + g_run->ntrace, buf, n);
    g_run->ntrace += n;
    g_run->trace[g_run->ntrace++] = '\n';
  }
  if (g_verbose) {
    buf[n] = 0;
    dprintf(1, "  %s\n", buf);
  }
}

static void bump(const char* name, uint64_t k, bool is_fault) {
  for (int i = 0; i < kCounters; ++i) {
    if (g_run->counters[i].name[0] == 0) {
      strncpy(g_run->counters[i].name, name, sizeof g_run->counters[i].name - 1);
      g_run->counters[i].is_fault = is_fault;
    }
    if (strncmp(g_run->counters[i].name, name, sizeof g_run->counters[i].name - 1) == 0) {
      g_run->counters[i].n += k;
      return;
    }
  }
}
void fault(const char* kind) { bump(kind, 1, true); }
void stat(const char* name, uint64_t n) { bump(name, n, false); }
void steps(uint64_t n) { g_run->nsteps += n; }
void state(uint64_t h) {
  h = mix(h, 77) % kBits;
  g_run->states[h >> 3] |= 1 << (h & 7);
}
void nontrivial() { g_run->nontriv = true; }
const char* property() { return g_world->property; }
bool verbose() { return g_verbose; }

void fail(const char* kind, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_run->msg, sizeof g_run->msg, fmt, ap);
  va_end(ap);
  strncpy(g_run->kind, kind, sizeof g_run->kind - 1);
  g_run->status = kViolation;
  _exit(3);
}

void discard(const char* why) {
  char nm[56];
  snprintf(nm, sizeof nm, "discard:%s", why);
  bump(nm, 1, false);
  g_run->status = kDiscard;
  _exit(0);
}

const char* scratch() {
  if (!g_run->dir[0]) {
    snprintf(g_run->dir, sizeof g_run->dir, "%s/r%d", g_scratch_root, (int)getpid());
    mkdir(g_run->dir, 0700);
  }
  return g_run->dir;
}

static void rm_scratch(const char* d) {
  if (!d[0]) return;
  // flat directory of plain files only
  char cmd[300];
  pid_t p = fork();
  if (p == 0) {
    snprintf(cmd, sizeof cmd, "%s", d);
    execl("/bin/rm", "rm", "-rf", "--", cmd, (char*)0);
    _exit(1);
  }
  int st;
  waitpid(p, &st, 0);
}

static void on_signal(int sig) {
  if (g_run->status == kRunning) {
    if (sig == SIGPROF) {
      strcpy(g_run->kind, "hang");
      strcpy(g_run->msg, "the run did not finish within its processor-time budget");
    } else {
      snprintf(g_run->kind, sizeof g_run->kind, "crash-%d", sig);
      snprintf(g_run->msg, sizeof g_run->msg, "signal %d (%s)", sig,
               sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE"
               : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "?");
    }
    g_run->status = kViolation;
  }
  if (g_verbose) {
    void* bt[60];
    int n = backtrace(bt, 60);
    backtrace_symbols_fd(bt, n, 2);
  }
  _exit(3);
}

static char g_altstack[1 << 17];

static void child_main() {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
  int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, 0);
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = g_cpu_limit;
  setitimer(ITIMER_PROF, &it, 0);
#ifndef __SANITIZE_ADDRESS__
  struct rlimit rl = {6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit rc = {0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  mallopt(M_PERTURB, 0x5A);
  if (!g_verbose) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
  }
  try {
    g_world->run();
  } catch (cyclus::Error& e) {
    fail("unexpected-error", "uncaught cyclus error: %s", e.what());
  } catch (std::exception& e) {
    fail("unexpected-error", "uncaught exception: %s", e.what());
  } catch (...) {
    fail("unexpected-error", "uncaught unknown exception");
  }
  if (g_run->nontriv) {
    uint64_t h = mix(g_run->thash, 99) % kBits;
    g_run->hists[h >> 3] |= 1 << (h & 7);
  }
  g_run->status = kOk;
  _exit(0);
}

// executes one run in a child; returns its status
static int execute(Run* r, uint64_t seed, bool replay, uint32_t nreplay) {
  g_run = r;
  r->status = kRunning;
  r->kind[0] = r->msg[0] = 0;
  r->nchoice = 0;
  r->ntrace = 0;
  r->thash = 1469598103934665603ull;
  r->nontriv = false;
  r->dir[0] = 0;
  r->seed = seed;
  r->replaying = replay;
  r->nreplay = nreplay;
  g_prng = seed;
  pid_t p = fork();
  if (p < 0) { usleep(20000); r->status = kDiscard; return kDiscard; }
  if (p == 0) child_main();
  int st = 0;
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  // blocking wait with a coarse wall-clock guard against a blocked child
  sigset_t ss, old;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, &old);
  bool killed = false;
  for (;;) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    struct timespec to = {1, 0};
    sigtimedwait(&ss, 0, &to);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > 150) { kill(p, SIGKILL); killed = true; waitpid(p, &st, 0); break; }
  }
  sigprocmask(SIG_SETMASK, &old, 0);
  if (r->status == kRunning) {
    if (killed) {
      strcpy(r->kind, "hang");
      strcpy(r->msg, "the run was blocked without making progress");
      r->status = kViolation;
    } else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) {
      snprintf(r->kind, sizeof r->kind, "crash-%d", WTERMSIG(st));
      snprintf(r->msg, sizeof r->msg, "killed by signal %d", WTERMSIG(st));
      r->status = kViolation;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
      strcpy(r->kind, "exit");
      snprintf(r->msg, sizeof r->msg, "the code under test ended the process with status %d", WEXITSTATUS(st));
      r->status = kViolation;
    } else {
      r->status = kDiscard;
      bump("discard:killed", 1, false);
    }
  }
  rm_scratch(r->dir);
  return r->status;
}

static bool known(const char* list, const char* kind) {
  size_t n = strlen(kind);
  for (const char* p = list; *p;) {
    const char* e = strchr(p, ',');
    size_t l = e ? (size_t)(e - p) : strlen(p);
    if (l == n && !strncmp(p, kind, n)) return true;
    p += l + (e ? 1 : 0);
  }
  return false;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void* shm(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(4); }
  return p;
}

static uint64_t run_seed(uint64_t seed, uint64_t i) {
  uint64_t h = seed * 0x9E3779B97F4A7C15ull + 12345;
  for (const char* p = g_world->property; *p; ++p) h = mix(h, (uint64_t)*p);
  return mix(h, i);
}

// minimisation: g_in holds the candidate; cur/ncur the best so far
static uint32_t* cur;
static uint32_t ncur;
static char mkind[96];
static double mdeadline;
static int mtries;

static bool attempt(Run* r, uint32_t n) {
  if (now() > mdeadline) return false;
  ++mtries;
  if (execute(r, 0, true, n) != kViolation || strcmp(r->kind, mkind)) return false;
  // trailing zeros are implied
  uint32_t m = r->nchoice < n ? r->nchoice : n;
  memcpy(cur, r->choices, m * sizeof *cur);
  while (m && cur[m - 1] == 0) --m;
  bool better = m < ncur;
  ncur = m;
  (void)better;
  return true;
}

static void minimise(Run* r) {
  memcpy(g_in, cur, ncur * sizeof *cur);
  if (!attempt(r, ncur)) return;
  bool progress = true;
  int rounds = 0;
  while (progress && now() < mdeadline && rounds++ < 12) {
    progress = false;
    uint32_t before = ncur;
    // delete chunks
    for (uint32_t k = ncur / 2 ? ncur / 2 : 1; k >= 1; k /= 2) {
      for (uint32_t i = 0; i + k <= ncur;) {
        memcpy(g_in, cur, i * 4);
        memcpy(g_in + i, cur + i + k, (ncur - i - k) * 4);
        if (attempt(r, ncur - k)) progress = true; else i += k;
        if (now() > mdeadline) return;
      }
      if (k == 1) break;
    }
    // zero chunks, then lower single values
    for (uint32_t k = 8; k >= 1; k /= 2)
      for (uint32_t i = 0; i + k <= ncur; i += k) {
        bool nz = false;
        for (uint32_t j = 0; j < k; ++j) nz |= cur[i + j] != 0;
        if (!nz) continue;
        memcpy(g_in, cur, ncur * 4);
        memset(g_in + i, 0, k * 4);
        if (attempt(r, ncur)) progress = true;
        if (now() > mdeadline) return;
      }
    for (uint32_t i = 0; i < ncur; ++i) {
      for (uint32_t step = cur[i] / 2; step >= 1 && i < ncur; step /= 2) {
        while (i < ncur && cur[i] >= step) {
          memcpy(g_in, cur, ncur * 4);
          g_in[i] -= step;
          if (attempt(r, ncur)) progress = true; else break;
          if (now() > mdeadline) return;
        }
      }
    }
    if (ncur == before && rounds > 2) break;
  }
}

static void jstr(FILE* f, const char* s, size_t n) {
  fputc('"', f);
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static void worker(Run* r, int w, int W, uint64_t seed, uint64_t runs, double deadline,
                   const char* knowns) {
  for (uint64_t i = w; i < runs; i += W) {
    if (g->stop || now() > deadline) break;
    uint64_t s = run_seed(seed, i);
    int st = execute(r, s, false, 0);
    r->runs++;
    if (st == kDiscard) r->discards++;
    if (r->nontriv && st == kOk) r->nontrivial++;
    if (st == kOk && i % 97 == 5) {
      uint64_t h = r->thash;
      execute(r, s, false, 0);
      r->dets++;
      if (r->thash != h) r->nondet++;
    }
    if (st == kOk && i < 3 && r->ntrace) {
      int k = __sync_fetch_and_add(&g->nsample, 1);
      if (k < 3) {
        uint32_t n = r->ntrace < 3000 ? r->ntrace : 3000;
        memcpy(g->sample[k], r->trace, n);
        g->sample[k][n] = 0;
      }
    }
    if (st == kViolation) {
      while (__sync_lock_test_and_set(&g->lock, 1)) usleep(100);
      g->viol_runs++;
      int slot = -1;
      for (int k = 0; k < g->nviol; ++k)
        if (!strcmp(g->viol[k].kind, r->kind)) {
          slot = -2;
          // keep the one with the fewest choices
          if (r->nchoice < g->viol[k].nchoice) slot = k;
        }
      if (slot == -1 && g->nviol < kMaxViol) slot = g->nviol++;
      if (slot >= 0) {
        Viol* v = &g->viol[slot];
        strcpy(v->kind, r->kind);
        memcpy(v->msg, r->msg, sizeof v->msg);
        v->run = i;
        v->seed = s;
        v->nchoice = r->nchoice;
        memcpy(v->choices, r->choices, r->nchoice * 4);
      }
      if (!known(knowns, r->kind)) g->stop = 1;
      __sync_lock_release(&g->lock);
    }
  }
}

}  // namespace dst

// Entropy seam: the system's randomness is replaced by a fixed stream, so that
// generated identifiers are the same in every replay.
static uint64_t g_entropy = 42;
extern "C" ssize_t getrandom(void* buf, size_t n, unsigned int) {
  for (size_t i = 0; i < n; ++i) ((uint8_t*)buf)[i] = (uint8_t)(dst::splitmix(&g_entropy) >> 17);
  return (ssize_t)n;
}
extern "C" int getentropy(void* buf, size_t n) { getrandom(buf, n, 0); return 0; }

using namespace dst;

int main(int argc, char** argv) {
  if (!getenv("DST_NOASLR")) {
    int old = personality(0xffffffff);
    if (old != -1 && personality(old | ADDR_NO_RANDOMIZE) != -1) {
      setenv("DST_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  const char* prop = 0;
  const char* out = 0;
  const char* replay = 0;
  const char* knowns = "";
  uint64_t seed = 1, runs = 1000;
  double limit = 60, mlimit = 30;
  int W = 8;
  long one = -1;
  snprintf(g_scratch_root, sizeof g_scratch_root, "/tmp/dst.%d", (int)getpid());
  for (int i = 1; i < argc; ++i) {
    const char* a = argv[i];
    if (!strcmp(a, "--property")) prop = argv[++i];
    else if (!strcmp(a, "--out")) out = argv[++i];
    else if (!strcmp(a, "--replay")) replay = argv[++i];  // file of uint32 LE
    else if (!strcmp(a, "--known")) knowns = argv[++i];
    else if (!strcmp(a, "--seed")) seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(a, "--runs")) runs = strtoull(argv[++i], 0, 10);
    else if (!strcmp(a, "--time")) limit = atof(argv[++i]);
    else if (!strcmp(a, "--mintime")) mlimit = atof(argv[++i]);
    else if (!strcmp(a, "--workers")) W = atoi(argv[++i]);
    else if (!strcmp(a, "--cpu")) g_cpu_limit = atoi(argv[++i]);
    else if (!strcmp(a, "--one")) one = atol(argv[++i]);
    else if (!strcmp(a, "--verbose")) g_verbose = true;
    else { dprintf(2, "unknown argument %s\n", a); return 2; }
  }
  if (W > kMaxWorkers) W = kMaxWorkers;
  for (World* w = g_worlds; w; w = w->next)
    if (prop && !strcmp(w->property, prop)) g_world = w;
  if (!g_world) { dprintf(2, "no world for property\n"); return 2; }
  mkdir(g_scratch_root, 0700);
  g = (Global*)shm(sizeof(Global));
  Run* rs[kMaxWorkers];
  for (int w = 0; w < W; ++w) rs[w] = (Run*)shm(sizeof(Run));
  g_in = (uint32_t*)shm(kMaxChoices * 4);
  cur = (uint32_t*)shm(kMaxChoices * 4);

  if (replay || one >= 0) {
    uint32_t n = 0;
    int st;
    if (replay) {
      int fd = open(replay, O_RDONLY);
      ssize_t k = read(fd, g_in, kMaxChoices * 4);
      n = k > 0 ? k / 4 : 0;
      close(fd);
      st = execute(rs[0], 0, true, n);
    } else {
      st = execute(rs[0], run_seed(seed, one), false, 0);
    }
    if (out) {
      FILE* f = fopen(out, "w");
      fprintf(f, "{\"status\": %d, \"kind\": ", st);
      jstr(f, rs[0]->kind, strlen(rs[0]->kind));
      fprintf(f, ", \"message\": ");
      jstr(f, rs[0]->msg, strlen(rs[0]->msg));
      fprintf(f, ", \"trace_hash\": \"%016lx\", \"trace\": ", (unsigned long)rs[0]->thash);
      jstr(f, rs[0]->trace, rs[0]->ntrace);
      fprintf(f, ", \"choices\": [");
      for (uint32_t i = 0; i < rs[0]->nchoice; ++i) fprintf(f, "%s%u", i ? "," : "", rs[0]->choices[i]);
      fprintf(f, "]}\n");
      fclose(f);
    }
    rmdir(g_scratch_root);
    dprintf(1, "status=%s kind=%s hash=%016lx choices=%u msg=%s\n",
            st == kOk ? "ok" : st == kViolation ? "violation" : "discard", rs[0]->kind,
            (unsigned long)rs[0]->thash, rs[0]->nchoice, rs[0]->msg);
    return st == kViolation ? 1 : 0;
  }

  double t0 = now();
  pid_t ws[kMaxWorkers];
  for (int w = 0; w < W; ++w) {
    ws[w] = fork();
    if (ws[w] == 0) {
      worker(rs[w], w, W, seed, runs, t0 + limit, knowns);
      _exit(0);
    }
  }
  for (int w = 0; w < W; ++w) {
    int st;
    waitpid(ws[w], &st, 0);
  }
  double wall = now() - t0;

  // minimise each violation kind; all runs are still forked from this image
  uint64_t tot_runs = 0, discards = 0, nondet = 0, dets = 0, nontriv = 0, nsteps = 0;
  Run* mr = (Run*)shm(sizeof(Run));
  struct Min { uint32_t n; uint32_t* c; char msg[4096]; uint64_t th; uint32_t ntrace; char* trace; int tries; bool exact; };
  Min mins[kMaxViol];
  for (int k = 0; k < g->nviol; ++k) {
    Viol* v = &g->viol[k];
    strcpy(mkind, v->kind);
    memcpy(cur, v->choices, v->nchoice * 4);
    ncur = v->nchoice;
    mdeadline = now() + mlimit / g->nviol;
    mtries = 0;
    minimise(mr);
    // final replays: must reproduce the same kind and the same trace, twice
    memcpy(g_in, cur, ncur * 4);
    int st = execute(mr, 0, true, ncur);
    uint64_t h1 = mr->thash;
    bool same = st == kViolation && !strcmp(mr->kind, v->kind);
    st = execute(mr, 0, true, ncur);
    Min& m = mins[k];
    m.exact = same && st == kViolation && mr->thash == h1;
    m.n = ncur;
    m.c = (uint32_t*)shm(ncur * 4 + 4);
    memcpy(m.c, cur, ncur * 4);
    memcpy(m.msg, same ? mr->msg : v->msg, sizeof m.msg);
    m.th = mr->thash;
    m.ntrace = mr->ntrace;
    m.trace = (char*)shm(kTrace);
    memcpy(m.trace, mr->trace, mr->ntrace);
    m.tries = mtries;
  }
  rmdir(g_scratch_root);

  FILE* f = out ? fopen(out, "w") : stdout;
  if (!f) return 2;
  uint8_t* sb = (uint8_t*)shm(kBits / 8);
  uint8_t* hb = (uint8_t*)shm(kBits / 8);
  for (int w = 0; w < W; ++w) {
    Run* r = rs[w];
    tot_runs += r->runs; discards += r->discards; nondet += r->nondet; dets += r->dets;
    nontriv += r->nontrivial; nsteps += r->nsteps;
    for (uint32_t i = 0; i < kBits / 8; ++i) { sb[i] |= r->states[i]; hb[i] |= r->hists[i]; }
  }
  uint64_t ns = 0, nh = 0;
  for (uint32_t i = 0; i < kBits / 8; ++i) { ns += __builtin_popcount(sb[i]); nh += __builtin_popcount(hb[i]); }
  fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"runs\": %llu, \"discards\": %llu, \"violating_runs\": %llu,\n",
          prop, (unsigned long long)seed, (unsigned long long)tot_runs, (unsigned long long)discards,
          (unsigned long long)g->viol_runs);
  fprintf(f, "\"nontrivial_runs\": %llu, \"distinct_histories\": %llu, \"distinct_states\": %llu, \"steps\": %llu,\n",
          (unsigned long long)nontriv, (unsigned long long)nh, (unsigned long long)ns, (unsigned long long)nsteps);
  fprintf(f, "\"rerun_checked\": %llu, \"rerun_mismatch\": %llu, \"wall\": %.3f, \"workers\": %d,\n",
          (unsigned long long)dets, (unsigned long long)nondet, wall, W);
  fprintf(f, "\"counters\": {");
  bool first = true;
  for (int pass = 0; pass < 2; ++pass) {
    if (pass) { fprintf(f, "},\n\"faults\": {"); first = true; }
    for (int w = 0; w < W; ++w)
      for (int i = 0; i < kCounters && rs[w]->counters[i].name[0]; ++i) {
        if (rs[w]->counters[i].is_fault != (pass == 1)) continue;
        const char* nm = rs[w]->counters[i].name;
        bool seen = false;
        for (int u = 0; u < w && !seen; ++u)
          for (int j = 0; j < kCounters && rs[u]->counters[j].name[0]; ++j)
            if (!strcmp(rs[u]->counters[j].name, nm)) { seen = true; break; }
        if (seen) continue;
        uint64_t t = 0;
        for (int u = w; u < W; ++u)
          for (int j = 0; j < kCounters && rs[u]->counters[j].name[0]; ++j)
            if (!strcmp(rs[u]->counters[j].name, nm)) t += rs[u]->counters[j].n;
        fprintf(f, "%s", first ? "" : ", ");
        first = false;
        jstr(f, nm, strlen(nm));
        fprintf(f, ": %llu", (unsigned long long)t);
      }
  }
  fprintf(f, "},\n\"samples\": [");
  for (int k = 0; k < g->nsample && k < 3; ++k) {
    if (k) fprintf(f, ", ");
    jstr(f, g->sample[k], strlen(g->sample[k]));
  }
  fprintf(f, "],\n\"violations\": [");
  for (int k = 0; k < g->nviol; ++k) {
    Viol* v = &g->viol[k];
    Min& m = mins[k];
    fprintf(f, "%s{\"kind\": ", k ? ",\n" : "");
    jstr(f, v->kind, strlen(v->kind));
    fprintf(f, ", \"message\": ");
    jstr(f, m.msg, strlen(m.msg));
    fprintf(f, ", \"run\": %llu, \"run_seed\": \"%llu\", \"trace_hash\": \"%016lx\", \"exact\": %s, \"tries\": %d, \"original_choices\": %u, \"choices\": [",
            (unsigned long long)v->run, (unsigned long long)v->seed, (unsigned long)m.th,
            m.exact ? "true" : "false", m.tries, v->nchoice);
    for (uint32_t i = 0; i < m.n; ++i) fprintf(f, "%s%u", i ? "," : "", m.c[i]);
    fprintf(f, "], \"trace\": ");
    jstr(f, m.trace, m.ntrace);
    fprintf(f, "}");
  }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return 0;
}
