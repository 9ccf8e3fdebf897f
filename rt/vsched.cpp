// See vsched.h.  This file is compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <bits/atomic_futex.h>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <unordered_map>

// ---------------------------------------------------------------------------------
// arena allocator: memory is never reused inside a run, freed memory is poisoned and
// recorded in a shadow map so that the instrumented code's accesses to it are caught.
// ---------------------------------------------------------------------------------
namespace {
constexpr size_t kArena = 8ull << 30;
constexpr size_t kBigUnpoisoned = 1 << 20;
char *g_arena = nullptr;
unsigned char *g_shadow = nullptr;
size_t g_brk = 0;
bool g_checkUaf = false;

void arenaInit() {
  g_arena = (char *)mmap(nullptr, kArena, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_shadow = (unsigned char *)mmap(nullptr, kArena / 16, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                   -1, 0);
  if (g_arena == MAP_FAILED || g_shadow == MAP_FAILED) abort();
}

void *arenaNew(size_t n, size_t align = 16) {
  if (!g_arena) arenaInit();
  if (align < 16) align = 16;
  if (n > kArena / 2) return nullptr;
  // lock-free for the (never concurrent in a run) case of uncontrolled threads
  size_t need = ((n + 15) & ~size_t(15)) + 16 + (align > 16 ? align : 0);
  size_t at = __atomic_fetch_add(&g_brk, need, __ATOMIC_SEQ_CST);
  if (at + need > kArena) return nullptr;
  size_t user = at + 16;
  user = (user + align - 1) & ~(align - 1);
  *(size_t *)(g_arena + user - 16) = n;
  return g_arena + user;
}

void arenaDelete(void *p) {
  if (!p) return;
  char *c = (char *)p;
  if (c < g_arena || c >= g_arena + kArena) abort();
  size_t off = c - g_arena;
  size_t n = *(size_t *)(c - 16);
  if (g_shadow[off / 16] == 1) {  // double free
    abort();
  }
  size_t m = n ? n : 1;
  memset(g_shadow + off / 16, 1, (m + 15) / 16);
  if (n < kBigUnpoisoned) memset(c, 0xDD, n);
}
}  // namespace

void *operator new(size_t n) {
  void *p = arenaNew(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return arenaNew(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arenaNew(n); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = arenaNew(n, (size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { arenaDelete(p); }
void operator delete[](void *p) noexcept { arenaDelete(p); }
void operator delete(void *p, size_t) noexcept { arenaDelete(p); }
void operator delete[](void *p, size_t) noexcept { arenaDelete(p); }
void operator delete(void *p, std::align_val_t) noexcept { arenaDelete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { arenaDelete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { arenaDelete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { arenaDelete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { arenaDelete(p); }

// ---------------------------------------------------------------------------------
namespace vs {
namespace {

enum State { UNUSED, RUNNABLE, BLOCKED, QUIESCE, DONE };
enum Wait { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_IO, W_ONCE, W_RW };

struct Thr {
  State st = UNUSED;
  Wait w = W_NONE;
  const void *obj = nullptr;
  uint64_t deadline = 0;  // 0: none; absolute virtual ns + 1
  bool timedOut = false;
  bool signaled = false;
  int prio = 0;
  int go = 0;
  pthread_t pt{};
  bool joined = false;
  int tag = 0;
  // io
  std::function<bool()> ioReady;
};

constexpr int MAXT = 256;
Thr T[MAXT];
int nT = 0;
bool active = false;
int cur = 0;
thread_local int tl_self = -1;
Config C;
uint64_t rngState = 1;
uint64_t clk = 0;
uint64_t steps = 0;
uint64_t ioCountdown = 0;
std::vector<uint64_t> *changePts;
int lowPrio = 0;

struct Shared {
  volatile uint64_t len;
  volatile uint64_t steps;
  volatile int truncated;
  char status[128];
  char data[];
};
Shared *shm = nullptr;
constexpr size_t kShm = 8 << 20;
bool g_verbose = false;

uint64_t next64() {
  uint64_t z = (rngState += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
double nextD() { return (next64() >> 11) * (1.0 / 9007199254740992.0); }
bool chance(double p) { return p > 0 && nextD() < p; }

void fwait(int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fwake(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void die(const char *status) {
  if (shm) {
    if (!shm->status[0]) strncpy(shm->status, status, sizeof shm->status - 1);
    shm->steps = steps;
  }
  _exit(0);
}

void wakeThr(int i) {
  T[i].st = RUNNABLE;
  T[i].w = W_NONE;
  T[i].obj = nullptr;
}

bool pollIo() {
  bool any = false;
  for (int i = 0; i < nT; ++i)
    if (T[i].st == BLOCKED && T[i].w == W_IO && T[i].ioReady && T[i].ioReady()) {
      T[i].signaled = true;
      wakeThr(i);
      any = true;
    }
  return any;
}

bool fireEarliest() {
  uint64_t best = 0;
  for (int i = 0; i < nT; ++i)
    if (T[i].st == BLOCKED && T[i].deadline && (!best || T[i].deadline < best))
      best = T[i].deadline;
  if (!best) return false;
  if (best - 1 > clk) clk = best - 1;
  for (int i = 0; i < nT; ++i)
    if (T[i].st == BLOCKED && T[i].deadline && T[i].deadline - 1 <= clk) {
      T[i].timedOut = true;
      wakeThr(i);
    }
  return true;
}

// chooses the next thread to run (the caller's state is already up to date)
int pick() {
  for (;;) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < nT; ++i)
      if (T[i].st == RUNNABLE) cand[n++] = i;
    if (n == 0) {
      if (pollIo()) continue;
      for (int i = 0; i < nT; ++i)
        if (T[i].st == QUIESCE) {
          T[i].st = RUNNABLE;
          return i;
        }
      if (fireEarliest()) continue;
      die("deadlock");
    }
    if (n == 1) return cand[0];
    switch (C.strategy) {
      case SEQ: {
        for (int k = 0; k < n; ++k)
          if (cand[k] == cur) return cur;
        for (int k = 0; k < n; ++k)
          if (cand[k] > cur) return cand[k];
        return cand[0];
      }
      case RANDOM:
        return cand[next64() % n];
      case PCT: {
        int b = cand[0];
        for (int k = 1; k < n; ++k)
          if (T[cand[k]].prio > T[b].prio) b = cand[k];
        return b;
      }
    }
  }
}

void handTo(int n, bool wait) {
  int me = tl_self;
  if (n == me) return;
  cur = n;
  fwake(&T[n].go);
  if (wait) fwait(&T[me].go);
}

void block() {  // caller has set its own state to BLOCKED/QUIESCE
  handTo(pick(), true);
}

void countStep() {
  if (++steps > C.maxSteps) die("livelock");
}

void syncPoint() {
  if (!active || tl_self < 0) return;
  countStep();
  if (C.strategy == SEQ) return;
  if (chance(C.pTime)) fireEarliest();
  if (++ioCountdown % 16 == 0) pollIo();
  if (C.strategy == RANDOM) {
    if (chance(C.pSwitch)) handTo(pick(), true);
  } else {
    if (!changePts->empty() && steps >= changePts->back()) {
      changePts->pop_back();
      T[tl_self].prio = --lowPrio;
    }
    handTo(pick(), true);
  }
}

void dataPoint() {
  if (!active || tl_self < 0) return;
  if (C.strategy == RANDOM) {
    if (C.pData > 0) {
      countStep();
      if (chance(C.pData)) handTo(pick(), true);
    }
  } else if (C.strategy == PCT && C.dataPoints) {
    countStep();
    if (!changePts->empty() && steps >= changePts->back()) {
      changePts->pop_back();
      T[tl_self].prio = --lowPrio;
      handTo(pick(), true);
    }
  }
}

void uafCheck(const void *a) {
  const char *c = (const char *)a;
  if (active && g_checkUaf && c >= g_arena && c < g_arena + kArena &&
      g_shadow[(c - g_arena) / 16] == 1) {
    if (g_verbose) fprintf(stderr, "use-after-free at %p\n", a), abort();
    die("crash:use-after-free");
  }
}
bool interesting(const void *a) {  // heap (arena) or globals, not stacks
  const char *c = (const char *)a;
  return (c >= g_arena && c < g_arena + kArena);
}

void waitOn(Wait w, const void *obj, uint64_t deadlineAbs /*0 none*/) {
  Thr &t = T[tl_self];
  t.w = w;
  t.obj = obj;
  t.deadline = deadlineAbs;
  t.timedOut = false;
  t.signaled = false;
  t.st = BLOCKED;
  block();
  t.deadline = 0;
}

void wakeAll(Wait w, const void *obj) {
  for (int i = 0; i < nT; ++i)
    if (T[i].st == BLOCKED && T[i].w == w && T[i].obj == obj) {
      T[i].signaled = true;
      wakeThr(i);
    }
}

pthread_key_t exitKey;
void threadExit(void *) {
  int me = tl_self;
  if (me < 0) return;
  T[me].st = DONE;
  wakeAll(W_JOIN, &T[me]);
  tl_self = -1;
  // hand the baton on; never wait again
  int n = pick();
  cur = n;
  fwake(&T[n].go);
}

constexpr uint64_t REAL0 = 1700000000ull * 1000000000ull;
constexpr uint64_t MONO0 = 1000000ull * 1000000000ull;

bool on() { return active && tl_self >= 0; }

int lockMutex(pthread_mutex_t *m) {
  auto &d = m->__data;
  bool rec = (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  int me = tl_self + 1;
  for (;;) {
    if (!d.__lock) {
      d.__lock = 1;
      d.__owner = me;
      d.__count = 1;
      return 0;
    }
    if (rec && d.__owner == me) {
      ++d.__count;
      return 0;
    }
    waitOn(W_MUTEX, m, 0);
  }
}
void unlockMutex(pthread_mutex_t *m) {
  auto &d = m->__data;
  if (d.__count > 1) {
    --d.__count;
    return;
  }
  d.__lock = 0;
  d.__owner = 0;
  d.__count = 0;
  wakeAll(W_MUTEX, m);
}
uint64_t absToVirt(clockid_t c, const timespec *ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  __int128 base = (c == CLOCK_REALTIME) ? REAL0 : MONO0;
  __int128 r = v - base;
  if (r < 0) r = 0;
  if (r > (__int128)1 << 62) r = (__int128)1 << 62;
  return (uint64_t)r;
}
int condWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
  syncPoint();
  if (dl && dl - 1 <= clk) {
    // already expired: still releases and reacquires
    unlockMutex(m);
    syncPoint();
    lockMutex(m);
    return ETIMEDOUT;
  }
  unsigned saved = m->__data.__count;
  m->__data.__count = 1;
  unlockMutex(m);
  bool spurious = chance(C.pSpurious);
  bool timedOut = false;
  if (!spurious) {
    waitOn(W_COND, c, dl);
    timedOut = T[tl_self].timedOut;
  } else {
    syncPoint();
  }
  lockMutex(m);
  m->__data.__count = saved;
  return timedOut ? ETIMEDOUT : 0;
}

template <class F>
F real(const char *n) {
  return (F)dlsym(RTLD_NEXT, n);
}

struct StartArg {
  void *(*fn)(void *);
  void *arg;
  int id;
};
void *trampoline(void *p) {
  StartArg a = *(StartArg *)p;
  free(p);
  tl_self = a.id;
  pthread_setspecific(exitKey, (void *)1);
  fwait(&T[a.id].go);
  return a.fn(a.arg);
}

void sigHandler(int s) {
  char b[32] = "crash:SIG";
  int n = 9;
  if (s >= 10) b[n++] = '0' + s / 10;
  b[n++] = '0' + s % 10;
  b[n] = 0;
  die(b);
}

}  // namespace

int self() { return tl_self; }
int &tag() { return T[tl_self].tag; }
uint64_t now() { return clk; }
uint64_t rnd() { return next64(); }
bool threadFinished(int i) { return i < nT && T[i].st == DONE; }
int threadCount() { return nT; }
std::string blockedIn(int i) {
  if (i >= nT || T[i].st != BLOCKED) return "";
  static const char *n[] = {"none", "mutex", "cond", "futex", "join",
                            "sleep", "io", "once", "rw"};
  return n[T[i].w];
}

void begin(const Config &cfg) {
  C = cfg;
  rngState = cfg.seed * 0x2545F4914F6CDD1Dull + 12345;
  nT = 1;
  tl_self = 0;
  cur = 0;
  T[0] = Thr{};
  T[0].st = RUNNABLE;
  T[0].prio = 1 << 20;
  changePts = new std::vector<uint64_t>;
  for (int i = 0; i < cfg.pctDepth; ++i)
    changePts->push_back(1 + next64() % (cfg.pctSteps ? cfg.pctSteps : 1));
  std::sort(changePts->rbegin(), changePts->rend());
  clk = 0;
  steps = 0;
  g_checkUaf = true;
  active = true;
}

void point() { syncPoint(); }

void quiesce() {
  T[tl_self].st = QUIESCE;
  block();
}

void advance(uint64_t ns) {
  uint64_t target = clk + ns;
  for (;;) {
    quiesce();
    uint64_t best = 0;
    for (int i = 0; i < nT; ++i)
      if (T[i].st == BLOCKED && T[i].deadline && (!best || T[i].deadline < best))
        best = T[i].deadline;
    if (!best || best - 1 > target) break;
    fireEarliest();
  }
  if (clk < target) clk = target;
}

void event(const std::string &json) {
  if (!shm) return;
  size_t len = shm->len;
  if (len + json.size() + 2 + sizeof(Shared) > kShm) {
    shm->truncated = 1;
    die("logfull");
  }
  memcpy(shm->data + len, json.data(), json.size());
  len += json.size();
  shm->data[len++] = ',';
  shm->len = len;
}

void finish(const char *status) { die(status); }

// -------------------------------------------------------------------------- driver
static uint64_t mixseed(uint64_t a, uint64_t b, uint64_t c) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xbf58476d1ce4e5b9ull +
               c * 0x94d049bb133111ebull + 1;
  z ^= z >> 29;
  z *= 0xbf58476d1ce4e5b9ull;
  z ^= z >> 32;
  return z;
}

static double wallNow() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int driverMain(int argc, char **argv, void (*runOne)(const std::string &)) {
  std::string progsF, outF;
  uint64_t seed = 1, runs = 1, first = 0, last = ~0ull;
  long onlyRun = -1;
  double wall = 1e9, ptime = 0, pspur = 0, pshort = 0;
  bool seqOnly = false;
  double timeout = 20;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&] { return std::string(argv[++i]); };
    if (a == "--progs") progsF = v();
    else if (a == "--out") outF = v();
    else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--runs") runs = strtoull(v().c_str(), 0, 10);
    else if (a == "--first") first = strtoull(v().c_str(), 0, 10);
    else if (a == "--last") last = strtoull(v().c_str(), 0, 10);
    else if (a == "--wall") wall = atof(v().c_str());
    else if (a == "--ptime") ptime = atof(v().c_str());
    else if (a == "--pspurious") pspur = atof(v().c_str());
    else if (a == "--pshort") pshort = atof(v().c_str());
    else if (a == "--seq") seqOnly = true;
    else if (a == "--timeout") timeout = atof(v().c_str());
    else if (a == "--only-run") onlyRun = atol(v().c_str());
    else if (a == "--verbose") g_verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  std::vector<std::string> progs;
  {
    std::ifstream in(progsF);
    std::string l;
    while (std::getline(in, l))
      if (!l.empty()) progs.push_back(l);
  }
  if (last > progs.size()) last = progs.size();
  FILE *out = outF.empty() ? stdout : fopen(outF.c_str(), "w");
  if (!out) return 2;
  shm = (Shared *)mmap(nullptr, kShm, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Seen { uint64_t n = 0; uint64_t firstRun = 0; std::string status, ev; };
  std::vector<std::map<std::string, Seen>> seen(progs.size());
  std::vector<uint64_t> est(progs.size(), 300);
  double t0 = wallNow();
  uint64_t total = 0, executed = 0;
  uint64_t r0 = 0, r1 = runs;
  if (onlyRun >= 0) r0 = onlyRun, r1 = onlyRun + 1;
  bool stop = false;
  for (uint64_t r = r0; r < r1 && !stop; ++r) {
    for (uint64_t p = first; p < last; ++p) {
      if (wallNow() - t0 > wall) { stop = true; break; }
      Config c;
      c.seed = mixseed(seed, p, r);
      rngState = c.seed;
      for (int k = 0; k < 3; ++k) next64();
      if (r == 0 || seqOnly) {
        c.strategy = SEQ;
      } else if (r % 2) {
        c.strategy = RANDOM;
        static const double ps[] = {0.03, 0.1, 0.3, 0.6};
        static const double pd[] = {0, 0, 0.003, 0.03};
        c.pSwitch = ps[next64() % 4];
        c.pData = pd[next64() % 4];
      } else {
        c.strategy = PCT;
        c.pctDepth = 1 + next64() % 4;
        c.dataPoints = next64() % 2;
        c.pctSteps = est[p] * (c.dataPoints ? 4 : 1);
      }
      if (c.strategy != SEQ) {
        if (next64() % 2) c.pTime = ptime;
        if (next64() % 4 == 0) c.pSpurious = pspur;
        if (next64() % 2) c.pShortIo = pshort;
      }
      shm->len = 0;
      shm->truncated = 0;
      shm->status[0] = 0;
      shm->steps = 0;
      fflush(out);
      pid_t pid = fork();
      if (pid == 0) {
        if (!g_verbose) {
          int dn = open("/dev/null", O_WRONLY);
          dup2(dn, 1);
          dup2(dn, 2);
          for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPIPE}) {
            if (s == SIGPIPE) continue;
            signal(s, sigHandler);
          }
        }
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm((unsigned)timeout + 5);
        std::set_terminate([] { die("crash:terminate"); });
        pthread_key_create(&exitKey, threadExit);
        begin(c);
        runOne(progs[p]);
        die("ok");
      }
      double tr = wallNow();
      int st = 0;
      bool killed = false;
      for (useconds_t us = 20;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (wallNow() - tr > timeout) {
          kill(pid, SIGKILL);
          waitpid(pid, &st, 0);
          killed = true;
          break;
        }
        timespec ts{0, (long)us * 1000};
        syscall(SYS_nanosleep, &ts, nullptr);
        if (us < 2000) us += us / 4 + 1;
      }
      ++executed;
      std::string status = shm->status;
      if (killed) status = "timeout";
      else if (WIFSIGNALED(st)) status = "crash:SIG" + std::to_string(WTERMSIG(st));
      else if (status.empty()) status = "crash:exit" + std::to_string(WEXITSTATUS(st));
      if (r == 0 && shm->steps) est[p] = shm->steps;
      std::string ev(shm->data, shm->len);
      if (!ev.empty()) ev.pop_back();
      auto &m = seen[p];
      auto &e = m[status + "|" + ev];
      if (e.n++ == 0) {
        e.firstRun = r;
        ++total;
        fprintf(out, "{\"prog\":%llu,\"run\":%llu,\"status\":\"%s\",\"ev\":[%s]}\n",
                (unsigned long long)p, (unsigned long long)r, status.c_str(),
                ev.c_str());
      }
    }
  }
  fprintf(out, "{\"summary\":true,\"executed\":%llu,\"distinct\":%llu,\"wall\":%.2f}\n",
          (unsigned long long)executed, (unsigned long long)total, wallNow() - t0);
  fclose(out);
  return 0;
}

// -------------------------------------------------------------------------- s-expr
static Sx parseAt(const std::string &t, size_t &i) {
  while (i < t.size() && isspace((unsigned char)t[i])) ++i;
  Sx x;
  if (i < t.size() && t[i] == '(') {
    ++i;
    for (;;) {
      while (i < t.size() && isspace((unsigned char)t[i])) ++i;
      if (i >= t.size()) break;
      if (t[i] == ')') { ++i; break; }
      x.l.push_back(parseAt(t, i));
    }
  } else {
    x.atom = true;
    while (i < t.size() && !isspace((unsigned char)t[i]) && t[i] != '(' && t[i] != ')')
      x.s += t[i++];
  }
  return x;
}
Sx parseSx(const std::string &t) {
  size_t i = 0;
  return parseAt(t, i);
}

}  // namespace vs

using namespace vs;

// ================================================================ pthread interposition
extern "C" {

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *),
                   void *arg) {
  static auto rp = real<int (*)(pthread_t *, const pthread_attr_t *,
                                void *(*)(void *), void *)>("pthread_create");
  if (!on()) return rp(t, a, fn, arg);
  syncPoint();
  if (nT >= MAXT) die("toomanythreads");
  int id = nT++;
  T[id] = Thr{};
  T[id].st = RUNNABLE;
  T[id].tag = T[tl_self].tag;
  T[id].prio = (int)(next64() % (1 << 20));
  auto *sa = (StartArg *)malloc(sizeof(StartArg));
  *sa = StartArg{fn, arg, id};
  int rc = rp(&T[id].pt, a, trampoline, sa);
  if (rc) die("pthread_create");
  *t = T[id].pt;
  syncPoint();
  return 0;
}

int pthread_join(pthread_t t, void **ret) {
  static auto rp = real<int (*)(pthread_t, void **)>("pthread_join");
  if (!on()) return rp(t, ret);
  syncPoint();
  for (int i = nT - 1; i > 0; --i)
    if (pthread_equal(T[i].pt, t) && !T[i].joined) {
      while (T[i].st != DONE) waitOn(W_JOIN, &T[i], 0);
      T[i].joined = true;
      return rp(t, ret);
    }
  return rp(t, ret);
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on()) {
    auto &d = m->__data;
    d.__lock = 1;
    d.__owner = 0;
    ++d.__count;
    return 0;
  }
  uafCheck(m);
  syncPoint();
  return lockMutex(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on()) return pthread_mutex_lock(m);
  uafCheck(m);
  syncPoint();
  auto &d = m->__data;
  bool rec = (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (d.__lock && !(rec && d.__owner == tl_self + 1)) return EBUSY;
  return lockMutex(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) {
    auto &d = m->__data;
    if (--d.__count == 0) d.__lock = 0;
    return 0;
  }
  uafCheck(m);
  unlockMutex(m);
  syncPoint();
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on()) abort();
  return condWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                           const timespec *ts) {
  return condWait(c, m, absToVirt(CLOCK_REALTIME, ts) + 1);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const timespec *ts) {
  return condWait(c, m, absToVirt(k, ts) + 1);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!on()) return 0;
  uafCheck(c);
  syncPoint();
  int cand[MAXT], n = 0;
  for (int i = 0; i < nT; ++i)
    if (T[i].st == BLOCKED && T[i].w == W_COND && T[i].obj == c) cand[n++] = i;
  if (n) {
    int k = cand[C.strategy == SEQ ? 0 : next64() % n];
    T[k].signaled = true;
    wakeThr(k);
  }
  syncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on()) return 0;
  uafCheck(c);
  syncPoint();
  wakeAll(W_COND, c);
  syncPoint();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t *r) {
  if (on()) {
    syncPoint();
    while (r->__data.__cur_writer) waitOn(W_RW, r, 0);
  }
  ++r->__data.__readers;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *r) {
  if (on()) {
    syncPoint();
    while (r->__data.__cur_writer || r->__data.__readers) waitOn(W_RW, r, 0);
  }
  r->__data.__cur_writer = 1 + tl_self;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *r) {
  if (r->__data.__cur_writer) r->__data.__cur_writer = 0;
  else --r->__data.__readers;
  if (on()) {
    wakeAll(W_RW, r);
    syncPoint();
  }
  return 0;
}

int pthread_once(pthread_once_t *o, void (*f)(void)) {
  // 0: not run, 1: running, 2: done
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) {
      *o = 1;
      try {
        f();
      } catch (...) {
        *o = 0;
        if (on()) wakeAll(W_ONCE, o);
        throw;
      }
      *o = 2;
      if (on()) wakeAll(W_ONCE, o);
      return 0;
    }
    if (!on()) abort();
    waitOn(W_ONCE, o, 0);
  }
}

int __cxa_guard_acquire(uint64_t *g) {
  auto *b = (unsigned char *)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!on()) abort();
    waitOn(W_ONCE, g, 0);
  }
}
void __cxa_guard_release(uint64_t *g) {
  auto *b = (unsigned char *)g;
  b[0] = 1;
  b[1] = 0;
  if (on()) wakeAll(W_ONCE, g);
}
void __cxa_guard_abort(uint64_t *g) {
  auto *b = (unsigned char *)g;
  b[1] = 0;
  if (on()) wakeAll(W_ONCE, g);
}

int sched_yield(void) {
  if (on()) {
    if (C.strategy == PCT) T[tl_self].prio = --lowPrio;
    countStep();
    if (C.strategy == SEQ) {
      int keep = cur;
      for (int k = 1; k <= nT; ++k) {
        int i = (keep + k) % nT;
        if (T[i].st == RUNNABLE) {
          handTo(i, true);
          break;
        }
      }
    } else
      syncPoint();
  }
  return 0;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active) return (int)syscall(SYS_clock_gettime, c, ts);
  uint64_t v = clk + (c == CLOCK_REALTIME ? REAL0 : MONO0);
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *) {
  if (!on()) return (int)syscall(SYS_clock_nanosleep, c, flags, ts, nullptr);
  uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  uint64_t dl = (flags & TIMER_ABSTIME) ? absToVirt(c, ts) : clk + ns;
  syncPoint();
  waitOn(W_SLEEP, nullptr, dl + 1);
  return 0;
}
int nanosleep(const timespec *ts, timespec *) {
  return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, nullptr);
}
int usleep(useconds_t us) {
  timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}

// ---- blocking descriptor operations
static bool isSock(int fd) {
  int t;
  socklen_t l = sizeof t;
  return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0;
}
static void waitFd(int fd, short what) {
  auto ready = [fd, what] {
    pollfd p{fd, what, 0};
    timespec z{0, 0};
    return syscall(SYS_ppoll, &p, 1, &z, nullptr, 8) != 0;
  };
  syncPoint();
  while (!ready()) {
    T[tl_self].ioReady = ready;
    waitOn(W_IO, nullptr, 0);
    T[tl_self].ioReady = nullptr;
  }
}
static int accepting(int fd) {
  int v = 0;
  socklen_t l = sizeof v;
  return getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) == 0 && v;
}

ssize_t read(int fd, void *b, size_t n) {
  if (on() && isSock(fd)) {
    waitFd(fd, POLLIN);
    if (n > 1 && chance(C.pShortIo)) n = 1 + next64() % (n - 1);
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  if (on()) {
    if (!(fl & MSG_DONTWAIT)) waitFd(fd, POLLIN);
    if (n > 1 && !(fl & (MSG_PEEK | MSG_WAITALL)) && chance(C.pShortIo))
      n = 1 + next64() % (n - 1);
  }
  return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (on() && isSock(fd)) {
    waitFd(fd, POLLOUT);
    if (n > 1 && chance(C.pShortIo)) n = 1 + next64() % (n - 1);
    // never block inside the kernel: a full buffer yields a partial write
    ssize_t r = syscall(SYS_sendto, fd, b, n, MSG_DONTWAIT, nullptr, 0);
    while (r < 0 && errno == EAGAIN) {
      waitFd(fd, POLLOUT);
      size_t m = n > 4096 ? 4096 : n;
      r = syscall(SYS_sendto, fd, b, m, MSG_DONTWAIT, nullptr, 0);
    }
    syncPoint();
    return r;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  if (on()) {
    waitFd(fd, POLLOUT);
    if (n > 1 && chance(C.pShortIo)) n = 1 + next64() % (n - 1);
    ssize_t r = syscall(SYS_sendto, fd, b, n, fl | MSG_DONTWAIT, nullptr, 0);
    while (r < 0 && errno == EAGAIN && !(fl & MSG_DONTWAIT)) {
      waitFd(fd, POLLOUT);
      size_t m = n > 4096 ? 4096 : n;
      r = syscall(SYS_sendto, fd, b, m, fl | MSG_DONTWAIT, nullptr, 0);
    }
    syncPoint();
    return r;
  }
  return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
  if (on() && accepting(fd)) waitFd(fd, POLLIN);
  return (int)syscall(SYS_accept4, fd, a, l, 0);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!on()) return (int)syscall(SYS_connect, fd, a, l);
  syncPoint();
  int fl = fcntl(fd, F_GETFL);
  for (;;) {
    fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    int r = (int)syscall(SYS_connect, fd, a, l);
    int e = errno;
    fcntl(fd, F_SETFL, fl);
    if (r == 0 || e != EAGAIN) {
      errno = e;
      syncPoint();
      return r;
    }
    waitOn(W_SLEEP, nullptr, clk + 1000000 + 1);
  }
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  if (!on()) return (int)syscall(SYS_select, n, r, w, e, tv);
  fd_set r0, w0, e0;
  FD_ZERO(&r0); FD_ZERO(&w0); FD_ZERO(&e0);
  if (r) r0 = *r;
  if (w) w0 = *w;
  if (e) e0 = *e;
  uint64_t dl = tv ? clk + (uint64_t)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull + 1 : 0;
  auto tryIt = [&](fd_set &a, fd_set &b, fd_set &c) {
    a = r0; b = w0; c = e0;
    timeval z{0, 0};
    return (int)syscall(SYS_select, n, r ? &a : nullptr, w ? &b : nullptr,
                        e ? &c : nullptr, &z);
  };
  syncPoint();
  fd_set a, b, c;
  for (;;) {
    int k = tryIt(a, b, c);
    if (k != 0) {
      if (r) *r = a;
      if (w) *w = b;
      if (e) *e = c;
      return k;
    }
    if (dl && clk >= dl - 1) {
      if (r) FD_ZERO(r);
      if (w) FD_ZERO(w);
      if (e) FD_ZERO(e);
      return 0;
    }
    T[tl_self].ioReady = [&] {
      fd_set x, y, zz;
      return tryIt(x, y, zz) != 0;
    };
    waitOn(W_IO, nullptr, dl);
    T[tl_self].ioReady = nullptr;
  }
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!on()) {
    timespec ts{ms / 1000, (ms % 1000) * 1000000L};
    return (int)syscall(SYS_ppoll, p, n, ms < 0 ? nullptr : &ts, nullptr, 8);
  }
  uint64_t dl = ms >= 0 ? clk + (uint64_t)ms * 1000000ull + 1 : 0;
  auto tryIt = [&] {
    timespec z{0, 0};
    return (int)syscall(SYS_ppoll, p, n, &z, nullptr, 8);
  };
  syncPoint();
  for (;;) {
    int k = tryIt();
    if (k != 0) return k;
    if (dl && clk >= dl - 1) return 0;
    T[tl_self].ioReady = [&] { return tryIt() != 0; };
    waitOn(W_IO, nullptr, dl);
    T[tl_self].ioReady = nullptr;
  }
}

}  // extern "C"

// ================================================================ libstdc++ futures
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned *addr, unsigned val, bool hasTo, chrono::seconds s,
    chrono::nanoseconds ns) {
  if (!on()) abort();
  syncPoint();
  uint64_t dl = 0;
  if (hasTo) {
    timespec ts{(time_t)s.count(), (long)ns.count()};
    dl = absToVirt(CLOCK_REALTIME, &ts) + 1;
    if (dl - 1 <= clk) return false;
  }
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  waitOn(W_FUTEX, addr, dl);
  return !T[tl_self].timedOut;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned *addr, unsigned val, bool hasTo, chrono::seconds s,
    chrono::nanoseconds ns) {
  if (!on()) abort();
  syncPoint();
  uint64_t dl = 0;
  if (hasTo) {
    timespec ts{(time_t)s.count(), (long)ns.count()};
    dl = absToVirt(CLOCK_MONOTONIC, &ts) + 1;
    if (dl - 1 <= clk) return false;
  }
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  waitOn(W_FUTEX, addr, dl);
  return !T[tl_self].timedOut;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!on()) return;
  wakeAll(W_FUTEX, addr);
  syncPoint();
}
}  // namespace std

// ================================================================ __tsan_* callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(name)                          \
  void name(void *a) {                     \
    if (!active) return;                   \
    uafCheck(a);                           \
    if (interesting(a)) dataPoint();       \
  }
#define ACCS(k)                  \
  ACC(__tsan_read##k)            \
  ACC(__tsan_write##k)           \
  ACC(__tsan_unaligned_read##k)  \
  ACC(__tsan_unaligned_write##k) \
  ACC(__tsan_read_write##k)      \
  ACC(__tsan_unaligned_read_write##k)
ACCS(1) ACCS(2) ACCS(4) ACCS(8) ACCS(16)
void __tsan_vptr_read(void **a) { uafCheck(a); }
void __tsan_vptr_update(void **a, void *) { uafCheck(a); }
void __tsan_read_range(void *a, size_t n) { if (n) uafCheck(a); }
void __tsan_write_range(void *a, size_t n) { if (n) uafCheck(a); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) uafCheck(d), uafCheck(s);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) uafCheck(d), uafCheck(s);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, size_t n) {
  if (n) uafCheck(d);
  return memset(d, v, n);
}
#define ATOMS(N, T)                                                            \
  T __tsan_atomic##N##_load(const volatile T *a, int) {                        \
    uafCheck((void *)a);                                                       \
    syncPoint();                                                               \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) {                     \
    uafCheck((void *)a);                                                       \
    syncPoint();                                                               \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
    syncPoint();                                                               \
  }                                                                            \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) {                     \
    uafCheck((void *)a);                                                       \
    syncPoint();                                                               \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) {                    \
    uafCheck((void *)a);                                                       \
    dataPoint();                                                               \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) {                    \
    uafCheck((void *)a);                                                       \
    dataPoint();                                                               \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) {                    \
    syncPoint();                                                               \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) {                     \
    syncPoint();                                                               \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) {                    \
    syncPoint();                                                               \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) {                   \
    syncPoint();                                                               \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v,     \
                                                 int, int) {                   \
    uafCheck((void *)a);                                                       \
    syncPoint();                                                               \
    int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,      \
                                        __ATOMIC_SEQ_CST);                     \
    syncPoint();                                                               \
    return r;                                                                  \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int,  \
                                               int) {                          \
    uafCheck((void *)a);                                                       \
    syncPoint();                                                               \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int,      \
                                            int) {                             \
    uafCheck((void *)a);                                                       \
    syncPoint();                                                               \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,             \
                                __ATOMIC_SEQ_CST);                             \
    return c;                                                                  \
  }
ATOMS(8, uint8_t)
ATOMS(16, uint16_t)
ATOMS(32, uint32_t)
ATOMS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { syncPoint(); }
void __tsan_atomic_signal_fence(int) {}
}
