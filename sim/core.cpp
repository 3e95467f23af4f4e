#include "core.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <new>
#include <streambuf>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_sched_yield();
void __real_flockfile(FILE*);
void __real_funlockfile(FILE*);
int __real_ftrylockfile(FILE*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const struct timespec*);
int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_rwlock_timedrdlock(pthread_rwlock_t*, const struct timespec*);
int __real_pthread_rwlock_timedwrlock(pthread_rwlock_t*, const struct timespec*);
int __real_pthread_rwlock_clockrdlock(pthread_rwlock_t*, clockid_t, const struct timespec*);
int __real_pthread_rwlock_clockwrlock(pthread_rwlock_t*, clockid_t, const struct timespec*);
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_sem_wait(sem_t*);
int __real_sem_post(sem_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
clock_t __real_clock();
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
int __real_strcasecmp(const char*, const char*);
int __real_strncasecmp(const char*, const char*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_memalign(size_t, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real___asan_memcpy(void*, const void*, size_t);
void* __real___asan_memmove(void*, const void*, size_t);
void* __real___asan_memset(void*, int, size_t);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strcat(char*, const char*);
char* __real_strncat(char*, const char*, size_t);
size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
int __real_strncmp(const char*, const char*, size_t);
int __real_memcmp(const void*, const void*, size_t);
char* __real_strstr(const char*, const char*);
char* __real_strchr(const char*, int);
char* __real_strrchr(const char*, int);
void* __real_memchr(const void*, int, size_t);
int __real_vsnprintf(char*, size_t, const char*, va_list);
void __asan_set_error_report_callback(void (*)(const char*));
extern char __data_start, _end;
}

namespace sim {

const char* const kFiredName[F_N] = {"context_switch", "switch_inside_call", "switch_at_static_access", "switch_at_shared_heap_access", "alloc_failure", "alloc_failure_sticky", "alloc_failure_by_size",
    "stderr_fault", "stdout_fault", "errno_garbage", "locale_change", "stack_garbage", "thread_start", "thread_exit", "blocked_on_lock",
    "oom_as_exception", "oom_as_false", "oom_as_invalid", "oom_absorbed_exact", "rejected_texts", "accepted_texts", "reused_results",
    "handoffs_across_threads", "diagnostic_bytes", "other_actor_ran_inside_call", "fairness_rotation", "looks_from_another_thread", "cut_texts", "damaged_texts", "probes", "clock_reads", "clock_jump", "stalled_seconds", "lock_timeouts",
    "stderr_ok", "stderr_eio", "stderr_enospc", "stderr_epipe", "stderr_ebadf", "stderr_eagain", "stderr_eintr", "stderr_short", "stderr_zero",
    "stderr_fd_closed", "stderr_fd_full", "stderr_fd_pipe", "stderr_buffered"};

Shm* shm;
bool g_trace = false;

struct Act {
  int id = 0, phase = 0, opi = 0;
  bool exists = false, created = false, done = true, blocked = false, exitreq = false, alive = false;
  const void* waiton = nullptr;
  pthread_t th;
  sem_t sem;
  const Actor* spec = nullptr;
  // call state
  bool inlib = false;
  uint64_t pt = 0, next_sw = ~0ull, budget = ~0ull, sw_base = 0;
  const Op* op = nullptr;
  int alloc_n = 0, alloc_failed = 0;
  size_t alloc_max = ~(size_t)0;
  uint64_t diag = 0;
  int sinkhits = 0;
  bool profile = false, preempted = false;
  std::string cap, outcap;
  int outmode = 0, outn = 0;
  bool outrouted = false;
  std::vector<Switch> sw;  // explicit switches of the current op, sorted
  size_t swi = 0;
};
enum { MAXACT = 16 };
static Act acts[MAXACT + 1];  // MAXACT: the main thread
static __thread Act* cur;

static sem_t main_sem;
static std::vector<int> order;
static const Spec* g_spec;
static int g_phase;
static const Body* g_body;
static uint64_t since_baton;
static uint64_t rnd_state;
static int g_round, g_fill;
static uint64_t done_ticks;   // steps of finished operations
static int64_t clock_jumps;   // nanoseconds
static int exiting = -1;
static bool g_heap;
static size_t g_stack = 1 << 20;

// ---------------------------------------------------------------- log, violations
void tracef(const char* fmt, ...) {
  if (!g_trace) return;
  va_list ap;
  va_start(ap, fmt);
  char b[2048];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  ssize_t r = write(3, b, n);
  (void)r;
}
void logev(const char* what, uint64_t a, uint64_t b, uint64_t c) {
  uint64_t v[4] = {(uint64_t)(cur ? cur->id : 99), a, b, c};
  shm->hash = fnv(v, sizeof v, fnv(what, strlen(what), shm->hash));
  shm->events++;
  if (g_trace) tracef("%-10s actor=%d %llu %llu %llu\n", what, cur ? cur->id : 99, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
}
static void set_violation(const char* cls, const char* msg) {
  if (shm->verdict == 2) return;
  shm->verdict = 2;
  snprintf(shm->cls, sizeof shm->cls, "%s", cls);
  snprintf(shm->msg, sizeof shm->msg, "%s", msg);
}
void violation(const std::string& cls, const std::string& msg) {
  std::string m = msg;
  if (cur && cur != &acts[MAXACT]) m += " [actor " + std::to_string(cur->id) + " op " + std::to_string(cur->opi) + " phase " + std::to_string(cur->phase) + "]";
  set_violation(cls.c_str(), m.c_str());
  __real__exit(66);
}
static void asan_cb(const char* rep) {
  const char* p = strstr(rep, "AddressSanitizer: ");
  char cls[96] = "asan:unknown";
  if (p) {
    p += 18;
    size_t n = strcspn(p, " \n(");
    snprintf(cls, sizeof cls, "memory:%.*s", (int)(n > 60 ? 60 : n), p);
  }
  if (cur) cur->inlib = false;
  set_violation(cls, rep);
}

// ---------------------------------------------------------------- scheduler
static bool runnable(int id) { return acts[id].exists && !acts[id].done && !acts[id].blocked; }
static void to_back(int id) {
  for (size_t i = 0; i < order.size(); i++)
    if (order[i] == id) {
      order.erase(order.begin() + i);
      order.push_back(id);
      return;
    }
}
static void to_front(int id) {
  for (size_t i = 0; i < order.size(); i++)
    if (order[i] == id) {
      order.erase(order.begin() + i);
      order.insert(order.begin(), id);
      return;
    }
}
static int pick() {
  for (int id : order)
    if (runnable(id)) return id;
  return -1;
}
static uint64_t rnd() {
  uint64_t x = rnd_state;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  return rnd_state = x;
}
static void* thread_main(void* p);
static void start_or_wake(int id) {
  Act& a = acts[id];
  if (!a.created) {
    a.created = true;
    a.alive = true;
    fired(F_THREAD_START);
    logev("start", id);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, g_stack);
    if (pthread_create(&a.th, &at, thread_main, &a)) violation("simulator:pthread_create", "cannot create a thread");
    pthread_attr_destroy(&at);
  } else
    sem_post(&a.sem);
}
static void wait_sem(sem_t* s) {
  while (sem_wait(s) && errno == EINTR) {
  }
}
// The current actor gives up the baton; returns when it has it again.
static void dispatch_away(Act* self) {
  int n = pick();
  if (n < 0) {
    std::string m = "no actor can run:";
    for (int id : order)
      if (!acts[id].done) m += " actor " + std::to_string(id) + " blocked in op " + std::to_string(acts[id].opi);
    violation("deadlock", m);
  }
  since_baton = 0;
  if (n == self->id) return;
  int e = errno;
  start_or_wake(n);
  wait_sem(&self->sem);
  errno = e;
}
static void arm(Act* a) {  // next yield point at which something happens
  uint64_t n = ~0ull;
  if (g_spec && g_spec->sched == 1)
    n = a->pt + g_spec->q;
  else if (g_spec && g_spec->sched == 2)
    n = a->pt + 1 + rnd() % (2 * (uint64_t)g_spec->q);
  else if (a->swi < a->sw.size())
    n = a->sw[a->swi].pt;
  a->next_sw = n;
}
static void record(Act* a, int to, int what) {
  fired(F_SWITCH);
  if (a->pt) fired(F_SWITCH_MID);
  if (what == 1) fired(F_SWITCH_STATIC);
  if (what == 2) fired(F_SWITCH_SHARED);
  shm->switches++;
  uint64_t v[5] = {(uint64_t)a->phase, (uint64_t)a->id, (uint64_t)a->opi, a->pt, (uint64_t)to};
  shm->sched_hash = fnv(v, sizeof v, shm->sched_hash);
  if (shm->nrec < MAXREC) shm->rec[shm->nrec++] = Switch{a->phase, a->id, a->opi, a->pt, to};
}
struct Out {  // simulator code inside a call
  Act* a;
  bool in;
  explicit Out(Act* a) : a(a), in(a->inlib) { a->inlib = false; }
  ~Out() { a->inlib = in; }
};
static bool others_runnable(Act* a) {
  for (int id : order)
    if (id != a->id && runnable(id)) return true;
  return false;
}
static void stalled() {
  if (!g_spec->stall) return;
  clock_jumps += g_spec->stall * 1000000000ll;
  fired(F_STALL, (uint64_t)g_spec->stall);
}
static void mark_inside(Act* a, bool in) { a->preempted = a->preempted || in; }
static void do_switch(Act* a, int what) {
  Out o(a);
  int to = -1;
  if (g_spec->sched == 0) {
    if (a->swi >= a->sw.size()) {
      arm(a);
      return;
    }
    to = a->sw[a->swi].to;
    a->swi++;
    if (to >= 0 && (to >= MAXACT || !acts[to].exists || acts[to].done)) to = -1;
  } else {
    std::vector<int> c;
    for (int id : order)
      if (id != a->id && runnable(id)) c.push_back(id);
    if (!c.empty()) to = g_spec->sched == 1 ? c[0] : c[rnd() % c.size()];
  }
  if (!others_runnable(a)) {
    arm(a);
    return;
  }
  to_back(a->id);
  if (to >= 0) to_front(to);
  record(a, to, what);
  logev("switch", a->opi, a->pt, (uint64_t)to);
  stalled();
  mark_inside(a, o.in);
  dispatch_away(a);
  arm(a);
}
static void fairness(Act* a) {
  Out o(a);
  since_baton = 0;
  if (!others_runnable(a)) return;
  to_back(a->id);
  fired(F_FAIRNESS);
  record(a, -1, 0);
  logev("fair", a->opi, a->pt);
  mark_inside(a, o.in);
  dispatch_away(a);
}
static const uint64_t kFair = 300000;

// what: 0 basic block, 1 static storage or synchronisation, 2 heap memory several actors use
static inline void point(Act* a, int what) {
  a->pt++;
  if (__builtin_expect(a->pt >= a->next_sw, 0)) do_switch(a, what);
  else if (__builtin_expect(what && g_spec && g_spec->sched == 3, 0) && rnd() % (uint64_t)g_spec->q == 0) do_switch(a, what);
  if (__builtin_expect(++since_baton > kFair, 0)) fairness(a);
  if (__builtin_expect(a->pt > a->budget, 0)) {
    a->inlib = false;
    violation("steps", "a call did not end within its budget of " + std::to_string(a->budget) + " steps");
  }
}

static void actor_ops(Act* a) {
  const Body& body = *g_body;
  int phase = g_phase;
  a->phase = phase;
  for (size_t i = 0; i < a->spec->ops.size(); i++) {
    a->opi = (int)i;
    done_ticks += a->pt;
    a->pt = 0;
    a->sw.clear();
    a->swi = 0;
    if (g_spec->sched == 0)
      for (auto& s : g_spec->switches)
        if (s.phase == phase && s.actor == a->id && s.op == (int)i) a->sw.push_back(s);
    while (a->swi < a->sw.size() && a->sw[a->swi].pt == 0) do_switch(a, 0);
    arm(a);
    shm->ops_total++;
    body(a->id, (int)i, a->spec->ops[i]);
  }
}
static void* thread_main(void* p) {
  Act* a = (Act*)p;
  cur = a;
  for (;;) {
    actor_ops(a);
    a->done = true;
    if (a->exitreq) {
      exiting = a->id;
      sem_post(&main_sem);
      cur = nullptr;
      return nullptr;
    }
    exiting = -1;
    sem_post(&main_sem);
    wait_sem(&a->sem);
    if (a->done) {  // told to exit at the end of the run
      cur = nullptr;
      return nullptr;
    }
  }
}
void sched_begin(const Spec& s) {
  g_spec = &s;
  g_heap = s.heap != 0;
  rnd_state = s.sseed | 1;
  g_stack = 1 << 20;
  order.clear();
  for (int i = 0; i < MAXACT; i++) {
    acts[i] = Act();
    acts[i].id = i;
    sem_init(&acts[i].sem, 0, 0);
  }
  sem_init(&main_sem, 0, 0);
}
void sched_phase(const Spec& s, int phase, const Body& body) {
  g_phase = phase;
  g_body = &body;
  order.clear();
  for (auto& as : s.phases[phase].actors) {
    if (as.id < 0 || as.id >= MAXACT) continue;
    Act& a = acts[as.id];
    a.exists = true;
    a.done = false;
    a.blocked = false;
    a.spec = &as;
    a.exitreq = as.exit != 0;
    a.opi = 0;
    order.push_back(as.id);
  }
  since_baton = 0;
  for (;;) {
    int n = pick();
    if (n < 0) {
      bool left = false;
      for (int id : order)
        if (!acts[id].done) left = true;
      if (!left) break;
      violation("deadlock", "every remaining actor is blocked");
    }
    since_baton = 0;
    start_or_wake(n);
    wait_sem(&main_sem);
    if (exiting >= 0) {
      Act& a = acts[exiting];
      exiting = -1;
      pthread_join(a.th, nullptr);
      a.created = a.alive = false;
      fired(F_THREAD_EXIT);
      logev("exit", a.id);
    }
  }
}
void sched_end() {
  for (int i = 0; i < MAXACT; i++) {
    Act& a = acts[i];
    if (a.created && a.alive) {
      a.done = true;
      sem_post(&a.sem);
      pthread_join(a.th, nullptr);
      a.created = a.alive = false;
      fired(F_THREAD_EXIT);
    }
    a.exists = false;
    sem_destroy(&a.sem);
  }
  order.clear();
  sem_destroy(&main_sem);
}
int cur_actor() { return cur ? cur->id : -1; }

static Act* self() {
  if (!cur) {
    cur = &acts[MAXACT];
    cur->id = MAXACT;
  }
  return cur;
}
void call_enter(const Op* op, uint64_t budget, bool profile) {
  Act* a = self();
  a->op = op;
  a->alloc_n = a->alloc_failed = 0;
  a->alloc_max = ~(size_t)0;
  a->diag = 0;
  a->sinkhits = 0;
  a->cap.clear();
  a->budget = a->pt + budget;
  a->sw_base = a->pt;
  a->profile = profile;
  a->preempted = false;
  if (profile) {
    shm->nprof = 0;
    memset(shm->first, 0, sizeof shm->first);
    memset(shm->last, 0, sizeof shm->last);
  }
  if (op && op->clk) {
    clock_jumps += op->clk * 1000000000ll;
    fired(F_CLOCK_JUMP);
  }
  a->inlib = true;
}
CallStats call_leave() {
  Act* a = cur;
  a->inlib = false;
  CallStats st{a->pt - a->sw_base, a->alloc_n, a->alloc_failed, a->diag};
  a->budget = ~0ull;
  a->op = nullptr;
  shm->steps_total += st.steps;
  if (a->preempted) fired(F_PREEMPTED_INLIB);
  return st;
}
Pause::Pause() {
  was = cur && cur->inlib;
  if (cur) cur->inlib = false;
}
Pause::~Pause() {
  if (cur) cur->inlib = was;
}

// ---------------------------------------------------------------- heap memory several actors use
// A granule belongs to the actor that touched it first. Once another one has, and one of them wrote to it since, each
// access is a yield point. One entry: granule << 8 | written << 6 | shared << 5 | actor.
enum { HBITS = 19 };
static uint64_t htab[1 << HBITS];
static inline size_t hidx(uint64_t g) { return (g * 0x9e3779b97f4a7c15ull) >> (64 - HBITS); }
static void heap_access(Act* a, uintptr_t p, bool w) {
  if (p - ((uintptr_t)__builtin_frame_address(0) - 4096) < (2u << 20)) return;  // its own stack
  uint64_t g = p >> 3;
  uint64_t& h = htab[hidx(g)];
  uint64_t e = h;
  if (e >> 8 != g) {
    h = g << 8 | (uint64_t)w << 6 | (uint64_t)a->id;
    return;
  }
  if (!(e & 0x20)) {
    if ((e & 0x1f) == (uint64_t)a->id) {
      h = e | (uint64_t)w << 6;
      return;
    }
    e = (e | 0x20) & ~0x40ull;
  }
  e |= (uint64_t)w << 6;
  h = e;
  if (!(e & 0x40)) return;
  if (a->budget != ~0ull) a->budget++;
  point(a, 2);
}
static void heap_new(void* p, size_t n) {
  if (n > 4096) n = 4096;
  for (uintptr_t q = (uintptr_t)p >> 3; q <= ((uintptr_t)p + n) >> 3; q++) {
    uint64_t& h = htab[hidx(q)];
    if (h >> 8 == q) h = 0;
  }
}

// ---------------------------------------------------------------- allocator seam
struct Blk {
  void* p;
  uint32_t size;
  uint8_t kind;  // 1 malloc, 2 new, 3 new[]
  uint8_t actor;
  uint8_t round;
  uint16_t op;
  uint32_t seq;
};
enum { TSIZE = 1 << 19 };
static Blk tab[TSIZE];
static size_t tlive, tbytes;
static uint32_t tseq;
static inline size_t hp(void* p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 45; }
static size_t tused_skip;
static void tab_add(Act* a, void* p, size_t n, int kind) {
  if (tlive > TSIZE / 2) {
    tused_skip++;
    return;
  }
  size_t i = hp(p);
  while (tab[i].p && tab[i].p != p) i = (i + 1) % TSIZE;
  tab[i] = Blk{p, (uint32_t)n, (uint8_t)kind, (uint8_t)a->id, (uint8_t)g_round, (uint16_t)a->opi, ++tseq};
  tlive++;
  tbytes += n;
}
static Blk* tab_find(void* p) {
  size_t i = hp(p);
  while (tab[i].p) {
    if (tab[i].p == p) return &tab[i];
    i = (i + 1) % TSIZE;
  }
  return nullptr;
}
static int tab_del(void* p) {
  Blk* b = tab_find(p);
  if (!b) return 0;
  tlive--;
  tbytes -= b->size;
  int k = b->kind;
  size_t i = b - tab, j = i;  // linear probing: close the gap
  for (;;) {
    j = (j + 1) % TSIZE;
    if (!tab[j].p) break;
    size_t h = hp(tab[j].p);
    if ((i <= j) ? (i < h && h <= j) : (i < h || h <= j)) continue;
    tab[i] = tab[j];
    i = j;
  }
  tab[i].p = nullptr;
  return k;
}
static void fillmem(void* p, size_t n) {
  unsigned char* b = (unsigned char*)p;
  if (n > 8192) n = 8192;
  switch (g_fill) {
    case 0: memset(b, 0xa5, n); break;
    case 1: memset(b, 0, n); break;
    case 2: memset(b, 0xff, n); break;
    case 3: memset(b, 1, n); break;
    case 4: memset(b, 0x27, n); break;  // quote characters
    case 5: memset(b, 0x7f, n); break;
    default:
      for (size_t i = 0; i < n; i++) b[i] = (unsigned char)((i * 131 + g_fill * 2654435761u) >> 5);
  }
}
static bool should_fail(Act* a, size_t n) {
  a->alloc_n++;
  if (!a->op) return false;
  for (auto& f : a->op->af) {
    if (f.mode == 2 && a->alloc_n == f.nth && n < a->alloc_max) a->alloc_max = n;
    if (a->alloc_n == f.nth || (f.mode == 1 && a->alloc_n > f.nth) || (f.mode == 2 && a->alloc_n > f.nth && n >= a->alloc_max)) {
      a->alloc_failed++;
      fired(f.mode == 2 ? F_ALLOC_LARGE : f.mode ? F_ALLOC_STICKY : F_ALLOC);
      logev("allocfail", a->alloc_n);
      return true;
    }
  }
  return false;
}
static const size_t kMaxAlloc = 1ull << 31;
Live live_blocks() { return Live{tlive, tbytes}; }
void set_round(int r) { g_round = r; }
void set_fill(int f) { g_fill = f; }
std::string live_describe(int round, size_t max) {
  std::string s;
  size_t n = 0;
  std::vector<Blk> v;
  for (auto& b : tab)
    if (b.p && b.round == round) v.push_back(b);
  for (size_t i = 1; i < v.size() && v.size() < 2000; i++)
    for (size_t j = i; j && v[j - 1].seq > v[j].seq; j--) std::swap(v[j - 1], v[j]);
  for (auto& b : v) {
    if (n++ >= max) break;
    s += " {" + std::to_string(b.size) + " bytes by " + (b.kind == 1 ? "malloc" : "new") + " in op " + std::to_string(b.op) + " of actor " + std::to_string(b.actor);
    if (b.kind == 1 && b.size > 1 && b.size < 200) {
      s += " \"";
      for (uint32_t i = 0; i < b.size && ((char*)b.p)[i]; i++) s += ((char*)b.p)[i] >= 32 ? ((char*)b.p)[i] : '?';
      s += "\"";
    }
    s += "}";
  }
  return s;
}
static void* do_alloc(size_t n, int kind, size_t align = 0) {
  Act* a = cur;
  if (!a || !a->inlib) return align ? __real_memalign(align, n ? n : 1) : __real_malloc(n ? n : 1);
  a->inlib = false;
  void* p = nullptr;
  if (!should_fail(a, n) && n < kMaxAlloc) {
    p = align ? __real_memalign(align, n ? n : 1) : __real_malloc(kind == 1 ? n : (n ? n : 1));
    if (p) {
      fillmem(p, n);
      if (g_heap) heap_new(p, n);
      tab_add(a, p, n, kind);
    }
  } else if (kind == 1)
    errno = ENOMEM;
  a->inlib = true;
  return p;
}
static void do_free(void* p, int kind) {
  if (!p) return;
  Act* a = cur;
  bool in = a && a->inlib;
  if (in) a->inlib = false;
  int k = tab_del(p);
  if (k && k != kind) {
    static const char* n[] = {"", "malloc", "new", "new[]"};
    static const char* m[] = {"", "free", "delete", "delete[]"};
    violation("memory:alloc-dealloc-mismatch", std::string("memory from ") + n[k] + " released by " + m[kind]);
  }
  __real_free(p);
  if (in) a->inlib = true;
}
}  // namespace sim
using namespace sim;

extern "C" {
void* __wrap_malloc(size_t n) { return do_alloc(n, 1); }
void __wrap_free(void* p) { do_free(p, 1); }
void* __wrap_calloc(size_t n, size_t m) {
  Act* a = cur;
  if (!a || !a->inlib) return __real_calloc(n, m);
  if (m && n > kMaxAlloc / m) return nullptr;
  void* p = do_alloc(n * m, 1);
  if (p) memset(p, 0, n * m);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  Act* a = cur;
  if (!a || !a->inlib) {
    // keep the table exact when simulator code reallocates library memory (it never does)
    return __real_realloc(p, n);
  }
  if (!p) return do_alloc(n, 1);
  a->inlib = false;
  Blk* b = tab_find(p);
  size_t old = b ? b->size : 0;
  void* q = nullptr;
  if (b && b->kind != 1) violation("memory:alloc-dealloc-mismatch", "memory from new passed to realloc");
  if (!should_fail(a, n) && n < kMaxAlloc) {
    if (b) {
      q = __real_malloc(n);
      if (q) {
        fillmem(q, n);
        memcpy(q, p, old < n ? old : n);
        tab_del(p);
        __real_free(p);
        tab_add(a, q, n, 1);
      }
    } else
      q = __real_realloc(p, n);
  } else
    errno = ENOMEM;
  a->inlib = true;
  return q;
}
void* __wrap_reallocarray(void* p, size_t n, size_t m) {
  if (m && n > kMaxAlloc / m) return nullptr;
  return __wrap_realloc(p, n * m);
}
char* __wrap_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)do_alloc(n, 1);
  if (p) memcpy(p, s, n);
  return p;
}
char* __wrap_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* p = (char*)do_alloc(n + 1, 1);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}
void __wrap_exit(int c) {
  if (cur && cur->inlib) {
    cur->inlib = false;
    violation("process-exit", "the library called exit(" + std::to_string(c) + ")");
  }
  __real_exit(c);
}
void __wrap__exit(int c) {
  if (cur && cur->inlib) {
    cur->inlib = false;
    violation("process-exit", "the library called _exit(" + std::to_string(c) + ")");
  }
  __real__exit(c);
}
void __wrap_abort() {
  if (cur && cur->inlib) {
    cur->inlib = false;
    violation("process-exit", "the library called abort()");
  }
  __real_abort();
}

// ---- synchronisation
static bool actor_ctx() { return cur && cur != &acts[MAXACT] && cur->inlib; }
static void block_on(const void* w) {
  Act* a = cur;
  Out o(a);
  a->blocked = true;
  a->waiton = w;
  fired(F_BLOCKED);
  logev("block", a->opi, a->pt);
  dispatch_away(a);
}
static void wake_on(const void* w, bool one = false) {
  for (int id : order)
    if (acts[id].exists && acts[id].blocked && acts[id].waiton == w) {
      acts[id].blocked = false;
      acts[id].waiton = nullptr;
      if (one) return;
    }
}
static void rotate() {
  Act* a = cur;
  Out o(a);
  a->pt++;
  since_baton = 0;
  if (!others_runnable(a)) return;
  to_back(a->id);
  record(a, -1, false);
  logev("yield", a->opi, a->pt);
  dispatch_away(a);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!actor_ctx()) return __real_pthread_mutex_lock(m);
  point(cur, 1);
  int r;
  while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) block_on(m);
  return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (actor_ctx()) point(cur, 1);
  return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  if (actor_ctx()) {
    wake_on(m);
    point(cur, 1);
  }
  return r;
}
// The lock of a stream: simulated only, since nothing is written to it while another actor runs.
static struct FLock {
  const FILE* f;
  const Act* owner;
  int n;
} flocks[8];
static FLock* flock_of(const FILE* f) {
  for (auto& l : flocks)
    if (l.f == f) return &l;
  for (auto& l : flocks)
    if (!l.n) {
      l.f = f;
      return &l;
    }
  return &flocks[0];
}
int __wrap_ftrylockfile(FILE* f) {
  if (!actor_ctx()) return __real_ftrylockfile(f);
  point(cur, 1);
  FLock* l = flock_of(f);
  if (l->n && l->owner != cur) return -1;
  l->owner = cur;
  l->n++;
  return 0;
}
void __wrap_flockfile(FILE* f) {
  if (!actor_ctx()) return __real_flockfile(f);
  point(cur, 1);
  FLock* l;
  while ((l = flock_of(f))->n && l->owner != cur) block_on(f);
  l->owner = cur;
  l->n++;
}
void __wrap_funlockfile(FILE* f) {
  if (!actor_ctx()) return __real_funlockfile(f);
  FLock* l = flock_of(f);
  if (l->n && l->owner == cur && !--l->n) wake_on(f);
  point(cur, 1);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!actor_ctx()) return __real_pthread_rwlock_rdlock(m);
  point(cur, 1);
  int r;
  while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) block_on(m);
  return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!actor_ctx()) return __real_pthread_rwlock_wrlock(m);
  point(cur, 1);
  int r;
  while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) block_on(m);
  return r;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  int r = __real_pthread_rwlock_unlock(m);
  if (actor_ctx()) {
    wake_on(m);
    point(cur, 1);
  }
  return r;
}
static std::vector<const void*>& running_once() {
  static std::vector<const void*> v;
  return v;
}
static bool once_running(const void* p) {
  for (auto q : running_once())
    if (q == p) return true;
  return false;
}
static void once_begin(const void* p) {
  bool in = cur->inlib;
  cur->inlib = false;
  running_once().push_back(p);
  cur->inlib = in;
}
static void once_end(const void* p) {
  auto& v = running_once();
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] == p) {
      v.erase(v.begin() + i);
      break;
    }
  wake_on(p);
}
int __wrap_pthread_once(pthread_once_t* c, void (*f)()) {
  if (!actor_ctx()) return __real_pthread_once(c, f);
  point(cur, 1);
  while (once_running(c)) block_on(c);
  if (*(volatile int*)c & 2) return 0;
  once_begin(c);
  struct G {
    const void* c;
    ~G() { once_end(c); }
  } g{c};
  return __real_pthread_once(c, f);
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (*b) return 0;
  if (!cur) self();
  if (actor_ctx()) {
    point(cur, 1);
    while (once_running(g)) block_on(g);
    if (*b) return 0;
    once_begin(g);
    return 1;
  }
  // single-threaded or simulator code; the simulator itself only runs one thread at a time
  if (once_running(g)) {
    return *b ? 0 : 1;
  }
  once_begin(g);
  return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  *(volatile char*)g = 1;
  bool in = cur && cur->inlib;
  if (in) cur->inlib = false;
  once_end(g);
  if (in) cur->inlib = true;
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  *(volatile char*)g = 0;
  bool in = cur && cur->inlib;
  if (in) cur->inlib = false;
  once_end(g);
  if (in) cur->inlib = true;
}
static int sim_cond_wait(const void* c, pthread_mutex_t* m, bool timed) {
  point(cur, 1);
  __real_pthread_mutex_unlock(m);
  wake_on(m);
  int r = 0;
  if (timed) {
    rotate();  // may time out at any moment
    r = ETIMEDOUT;
  } else
    block_on(c);
  int q;
  while ((q = __real_pthread_mutex_trylock(m)) == EBUSY) block_on(m);
  return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  return actor_ctx() ? sim_cond_wait(c, m, false) : __real_pthread_cond_wait(c, m);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  return actor_ctx() ? sim_cond_wait(c, m, true) : __real_pthread_cond_timedwait(c, m, t);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (actor_ctx()) {
    wake_on(c, true);
    return 0;
  }
  return __real_pthread_cond_signal(c);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (actor_ctx()) {
    wake_on(c);
    return 0;
  }
  return __real_pthread_cond_broadcast(c);
}
// std::condition_variable lives in libstdc++.so
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>& l) {
  if (actor_ctx())
    sim_cond_wait(c, l.mutex()->native_handle(), false);
  else
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) {
  if (actor_ctx())
    wake_on(c, true);
  else
    __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) {
  if (actor_ctx())
    wake_on(c);
  else
    __real__ZNSt18condition_variable10notify_allEv(c);
}
int __wrap_sched_yield() {
  if (!actor_ctx()) return __real_sched_yield();
  rotate();
  return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  if (!actor_ctx()) return __real_nanosleep(a, b);
  rotate();
  return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
  if (!actor_ctx()) return __real_clock_nanosleep(k, f, a, b);
  rotate();
  return 0;
}
int __wrap_usleep(useconds_t u) {
  if (!actor_ctx()) return __real_usleep(u);
  rotate();
  return 0;
}
unsigned __wrap_sleep(unsigned u) {
  if (!actor_ctx()) return __real_sleep(u);
  rotate();
  return 0;
}

// ---- clocks: a microsecond per step, plus jumps; the monotonic clocks ignore jumps back
static int64_t sim_ns(bool real) {
  fired(F_CLOCK_READ);
  uint64_t t = done_ticks;
  for (auto& a : acts)
    if (a.exists || &a == cur) t += a.pt;
  static int64_t last;
  int64_t n = (int64_t)t * 1000 + clock_jumps;
  if (real) return 1700000000ll * 1000000000ll + n;
  if (n < last) n = last;
  last = n;
  return 1000ll * 1000000000ll + n;
}
static int64_t clock_of(clockid_t c) { return sim_ns(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE); }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!actor_ctx()) return __real_clock_gettime(c, t);
  point(cur, 1);
  int64_t n = clock_of(c);
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}
int __wrap_gettimeofday(struct timeval* t, void* z) {
  if (!actor_ctx()) return __real_gettimeofday(t, z);
  point(cur, 1);
  int64_t n = sim_ns(true);
  t->tv_sec = n / 1000000000;
  t->tv_usec = n % 1000000000 / 1000;
  return 0;
}
time_t __wrap_time(time_t* t) {
  if (!actor_ctx()) return __real_time(t);
  point(cur, 1);
  time_t n = sim_ns(true) / 1000000000;
  if (t) *t = n;
  return n;
}
clock_t __wrap_clock() {
  if (!actor_ctx()) return __real_clock();
  point(cur, 1);
  return (clock_t)(sim_ns(false) / 1000);
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  if (!actor_ctx()) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  point(cur, 1);
  return sim_ns(false);
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!actor_ctx()) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  point(cur, 1);
  return sim_ns(true);
}
// A busy lock with a deadline: time passes while others run, and runs out if there are none.
static int timed(clockid_t c, const struct timespec* t, const std::function<int()>& attempt) {
  point(cur, 1);
  int64_t until = t->tv_sec * 1000000000ll + t->tv_nsec;
  int r;
  for (;;) {
    {
      Out o(cur);
      r = attempt();
    }
    if (r != EBUSY) break;
    if (clock_of(c) >= until || !others_runnable(cur)) {
      int64_t left = until - clock_of(c);
      if (left > 0) clock_jumps += left;
      fired(F_TIMEOUT);
      return ETIMEDOUT;
    }
    rotate();
    stalled();
  }
  return r;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  if (!actor_ctx()) return __real_pthread_mutex_clocklock(m, c, t);
  return timed(c, t, [&] { return __real_pthread_mutex_trylock(m); });
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (!actor_ctx()) return __real_pthread_mutex_timedlock(m, t);
  return timed(CLOCK_REALTIME, t, [&] { return __real_pthread_mutex_trylock(m); });
}
int __wrap_pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) {
  if (!actor_ctx()) return __real_pthread_rwlock_timedrdlock(m, t);
  return timed(CLOCK_REALTIME, t, [&] { return pthread_rwlock_tryrdlock(m); });
}
int __wrap_pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) {
  if (!actor_ctx()) return __real_pthread_rwlock_timedwrlock(m, t);
  return timed(CLOCK_REALTIME, t, [&] { return pthread_rwlock_trywrlock(m); });
}
int __wrap_pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) {
  if (!actor_ctx()) return __real_pthread_rwlock_clockrdlock(m, c, t);
  return timed(c, t, [&] { return pthread_rwlock_tryrdlock(m); });
}
int __wrap_pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) {
  if (!actor_ctx()) return __real_pthread_rwlock_clockwrlock(m, c, t);
  return timed(c, t, [&] { return pthread_rwlock_trywrlock(m); });
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  return actor_ctx() ? sim_cond_wait(c, m, true) : __real_pthread_cond_clockwait(c, m, k, t);
}
int __wrap_pthread_spin_lock(pthread_spinlock_t* l) {
  if (!actor_ctx()) return __real_pthread_spin_lock(l);
  point(cur, 1);
  while (pthread_spin_trylock(l) == EBUSY) rotate();
  return 0;
}
int __wrap_sem_wait(sem_t* s) {
  if (!actor_ctx()) return __real_sem_wait(s);
  point(cur, 1);
  while (sem_trywait(s) != 0) block_on(s);
  return 0;
}
int __wrap_sem_post(sem_t* s) {
  int r = __real_sem_post(s);
  if (actor_ctx()) {
    wake_on(s);
    point(cur, 1);
  }
  return r;
}
// ASan's own versions of these two do not know about locales.
int __wrap_strncasecmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
    if (x != y) return x - y;
    if (!a[i]) break;
  }
  return 0;
}
int __wrap_strcasecmp(const char* a, const char* b) { return __wrap_strncasecmp(a, b, (size_t)-1); }
void* __wrap_memalign(size_t al, size_t n) {
  Act* a = cur;
  if (!a || !a->inlib) return __real_memalign(al, n);
  return do_alloc(n, 1, al);
}
void* __wrap_aligned_alloc(size_t al, size_t n) { return __wrap_memalign(al, n); }
int __wrap_posix_memalign(void** p, size_t al, size_t n) {
  Act* a = cur;
  if (!a || !a->inlib) return __real_posix_memalign(p, al, n);
  int e = errno;
  void* q = do_alloc(n, 1, al);
  errno = e;
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}

// ---- coverage callbacks
static uint32_t nguards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  for (uint32_t* g = a; g < b; g++) *g = ++nguards;
}
uint32_t core_edges_() { return nguards; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  Act* a = cur;
  if (!a || !a->inlib) return;
  if (*g < MAXEDGE) {
    shm->edge[*g] = 1;
    if (a->profile) {
      uint32_t at = (uint32_t)(a->pt - a->sw_base + 1);
      if (!shm->first[*g]) shm->first[*g] = at;
      shm->last[*g] = at;
    }
  }
  point(a, 0);
}
static inline void mem(void* p, bool w = true) {
  Act* a = cur;
  if (!a || !a->inlib) return;
  if ((char*)p < &__data_start || (char*)p >= &_end) {
    if (__builtin_expect(g_heap, 0)) heap_access(a, (uintptr_t)p, w);
    return;
  }
  if (a->profile && shm->nprof < MAXPROF) shm->prof[shm->nprof++] = (uint32_t)(a->pt - a->sw_base + 1);
  point(a, 1);
}
void __sanitizer_cov_load1(uint8_t* p) { mem(p, false); }
void __sanitizer_cov_load2(uint16_t* p) { mem(p, false); }
void __sanitizer_cov_load4(uint32_t* p) { mem(p, false); }
void __sanitizer_cov_load8(uint64_t* p) { mem(p, false); }
void __sanitizer_cov_load16(__int128* p) { mem(p, false); }
void __sanitizer_cov_store1(uint8_t* p) { mem(p); }
void __sanitizer_cov_store2(uint16_t* p) { mem(p); }
void __sanitizer_cov_store4(uint32_t* p) { mem(p); }
void __sanitizer_cov_store8(uint64_t* p) { mem(p); }
void __sanitizer_cov_store16(__int128* p) { mem(p); }
void sqlsim_enter() {}
void sqlsim_atomic(void* p) { mem((uint64_t*)p); }
// library functions that access static storage on behalf of the caller
static inline void mem2(const void* p, const void* q) {
  mem((void*)p);
  mem((void*)q);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  mem2(d, s);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  mem2(d, s);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  mem(d);
  return __real_memset(d, c, n);
}
void* __wrap___asan_memcpy(void* d, const void* s, size_t n) {
  mem2(d, s);
  return __real___asan_memcpy(d, s, n);
}
void* __wrap___asan_memmove(void* d, const void* s, size_t n) {
  mem2(d, s);
  return __real___asan_memmove(d, s, n);
}
void* __wrap___asan_memset(void* d, int c, size_t n) {
  mem(d);
  return __real___asan_memset(d, c, n);
}
char* __wrap_strcpy(char* d, const char* s) {
  mem2(d, s);
  return __real_strcpy(d, s);
}
char* __wrap_strncpy(char* d, const char* s, size_t n) {
  mem2(d, s);
  return __real_strncpy(d, s, n);
}
char* __wrap_strcat(char* d, const char* s) {
  mem2(d, s);
  return __real_strcat(d, s);
}
char* __wrap_strncat(char* d, const char* s, size_t n) {
  mem2(d, s);
  return __real_strncat(d, s, n);
}
size_t __wrap_strlen(const char* s) {
  mem((void*)s);
  return __real_strlen(s);
}
int __wrap_strcmp(const char* a, const char* b) {
  mem2(a, b);
  return __real_strcmp(a, b);
}
int __wrap_strncmp(const char* a, const char* b, size_t n) {
  mem2(a, b);
  return __real_strncmp(a, b, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  mem2(a, b);
  return __real_memcmp(a, b, n);
}
char* __wrap_strstr(const char* a, const char* b) {
  mem2(a, b);
  return __real_strstr(a, b);
}
char* __wrap_strchr(const char* a, int c) {
  mem((void*)a);
  return __real_strchr(a, c);
}
char* __wrap_strrchr(const char* a, int c) {
  mem((void*)a);
  return __real_strrchr(a, c);
}
void* __wrap_memchr(const void* a, int c, size_t n) {
  mem((void*)a);
  return __real_memchr(a, c, n);
}
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list ap) {
  mem(d);
  return __real_vsnprintf(d, n, f, ap);
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...) {
  mem(d);
  va_list ap;
  va_start(ap, f);
  int r = __real_vsnprintf(d, n, f, ap);
  va_end(ap);
  return r;
}
int __wrap_sprintf(char* d, const char* f, ...) {
  mem(d);
  va_list ap;
  va_start(ap, f);
  int r = vsprintf(d, f, ap);
  va_end(ap);
  return r;
}
}

void* operator new(size_t n) {
  void* p = do_alloc(n, 2);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = do_alloc(n, 3);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 2); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 3); }
void* operator new(size_t n, std::align_val_t al) {
  void* p = do_alloc(n, 2, (size_t)al);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t al) {
  void* p = do_alloc(n, 3, (size_t)al);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, std::align_val_t al, const std::nothrow_t&) noexcept { return do_alloc(n, 2, (size_t)al); }
void* operator new[](size_t n, std::align_val_t al, const std::nothrow_t&) noexcept { return do_alloc(n, 3, (size_t)al); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, 2); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, 3); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, 2); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, 3); }
void operator delete(void* p) noexcept { do_free(p, 2); }
void operator delete[](void* p) noexcept { do_free(p, 3); }
void operator delete(void* p, size_t) noexcept { do_free(p, 2); }
void operator delete[](void* p, size_t) noexcept { do_free(p, 3); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, 2); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, 3); }

namespace sim {
extern "C" uint32_t core_edges() { return nguards; }

// ---------------------------------------------------------------- sinks
static FILE* g_cookie;
// Nothing is interrupted, or takes no byte, for ever.
static int sink_mode(Act* a) {
  int m = a->op ? a->op->sink : 0;
  if ((m == SINK_EINTR || m == SINK_ZERO || (m == SINK_SHORT && a->op->sinkn == 0)) && ++a->sinkhits > 3) m = m == SINK_EINTR ? 0 : SINK_EIO;
  return m;
}
static ssize_t cookie_write(void*, const char* b, size_t n) {
  Act* a = cur;
  if (!a) return (ssize_t)n;
  bool in = a->inlib;
  a->inlib = false;
  ssize_t r = (ssize_t)n;
  int m = sink_mode(a), e = 0;
  switch (m) {
    case SINK_EIO: e = EIO; break;
    case SINK_ENOSPC: e = ENOSPC; break;
    case SINK_EPIPE: e = EPIPE; break;
    case SINK_EBADF: e = EBADF; break;
    case SINK_EAGAIN: e = EAGAIN; break;
    case SINK_EINTR: e = EINTR; break;
    case SINK_SHORT: r = (ssize_t)n < a->op->sinkn ? (ssize_t)n : a->op->sinkn; break;
    case SINK_ZERO: r = 0; break;
    case SINK_FD_CLOSED: e = EBADF; break;  // seen by write() only, stdio has a real descriptor then
    case SINK_FD_FULL: e = ENOSPC; break;
    case SINK_FD_PIPE: e = EPIPE; break;
    default: break;
  }
  if (m) {
    fired(F_SINK);
    fired(F_SINK0 + m);
  }
  logev("stderr", n, m, fnv(b, n));
  fired(F_DIAG_BYTES, n);
  a->diag += n;
  if (e) r = 0;  // glibc: a cookie write function reports an error with 0 and errno
  if (r > 0 && a->cap.size() < 65536) a->cap.append(b, r);
  a->inlib = in;
  if (e) errno = e;
  return r;
}
static ssize_t fd_write(const char* b, size_t n) {
  int e = errno;
  errno = 0;
  ssize_t r = cookie_write(nullptr, b, n);
  if (r == 0 && n && errno) return -1;
  errno = e;
  return r;
}
}  // namespace sim
extern "C" {
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_dup(int);
// Where the stream stderr has a descriptor of its own, that is what descriptor 2 means to the library.
int __wrap_dup(int fd) {
  int own = actor_ctx() && fd == 2 && stderr ? fileno(stderr) : -1;
  return __real_dup(own >= 0 ? own : fd);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { return actor_ctx() && fd == 2 ? fd_write((const char*)b, n) : __real_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  if (!actor_ctx() || fd != 2) return __real_writev(fd, v, c);
  Pause p;
  std::string s;
  for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
  return fd_write(s.data(), s.size());
}
int __wrap_vdprintf(int fd, const char* f, va_list ap) {
  Pause p;
  char* s = nullptr;
  int n = vasprintf(&s, f, ap);
  if (n < 0) return n;
  ssize_t r = p.was && fd == 2 ? fd_write(s, (size_t)n) : __real_write(fd, s, (size_t)n);
  int e = errno;
  __real_free(s);
  errno = e;
  return (int)r;
}
int __wrap_dprintf(int fd, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = __wrap_vdprintf(fd, f, ap);
  va_end(ap);
  return r;
}
}
namespace sim {
void actor_yield() { rotate(); }
int stream_locks_held() {
  int n = 0;
  for (auto& l : flocks) n += l.n;
  return n;
}
std::string captured_diag() { return cur ? cur->cap : ""; }

struct RouteBuf : std::streambuf {
  bool err;
  explicit RouteBuf(bool e) : err(e) {}
  std::streamsize put(const char* s, std::streamsize n) {
    Act* a = cur;
    if (!a) return n;
    bool in = a->inlib;
    a->inlib = false;
    if (err) {
      a->inlib = in;
      ssize_t r = cookie_write(nullptr, s, n);
      return r;
    }
    std::streamsize ok = n;
    if (a->outmode == OUT_EOF || a->outmode == OUT_THROW || a->outmode == OUT_EXC) {
      std::streamsize left = (std::streamsize)a->outn - (std::streamsize)a->outcap.size();
      if (left < 0) left = 0;
      if (n > left) ok = left;
    }
    if (a->outcap.size() < (4u << 20)) a->outcap.append(s, ok);
    int m = a->outmode;
    if (ok < n) {
      fired(F_OUT);
      logev("outfault", ok, m);
    }
    a->inlib = in;
    if (ok < n && m == OUT_THROW) throw std::runtime_error("simulated stream failure");
    return ok;
  }
  int overflow(int c) override {
    if (c == EOF) return 0;
    char ch = (char)c;
    return put(&ch, 1) == 1 ? c : EOF;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n); }
  int sync() override {
    Act* a = cur;
    if (a && !err && a->outmode && a->outmode != OUT_BADBIT && (int)a->outcap.size() >= a->outn) return -1;
    return 0;
  }
};
void out_begin(int mode, int n) {
  Act* a = self();
  a->outcap.clear();
  a->outmode = mode;
  a->outn = n;
}
std::string out_end() {
  Act* a = cur;
  a->outmode = 0;
  return std::move(a->outcap);
}

__attribute__((noinline)) void stack_scribble(int pattern) {
  volatile unsigned char b[48 * 1024];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)(pattern == 1 ? 0 : pattern == 2 ? 0xff : pattern == 3 ? 1 : (i * 37 + pattern));
  asm volatile("" ::: "memory");
}

void core_init() {
  __asan_set_error_report_callback(asan_cb);
}
void core_child_init() {
  self();
  cookie_io_functions_t f{};
  f.write = cookie_write;
  g_cookie = fopencookie(nullptr, "w", f);
  setvbuf(g_cookie, nullptr, _IONBF, 0);
  stderr = g_cookie;
  std::cout.rdbuf(new RouteBuf(false));
  std::cerr.rdbuf(new RouteBuf(true));
  std::clog.rdbuf(new RouteBuf(true));
  signal(SIGPIPE, SIG_IGN);
}
void core_limit(int cpu_s) {
  struct itimerval t {};
  t.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm((unsigned)cpu_s * 6);
  struct rlimit r {0, 0};
  setrlimit(RLIMIT_CORE, &r);
}
void core_exit(int c) { __real__exit(c); }
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:detect_stack_use_after_return=0:max_malloc_fill_size=0:symbolize=0:handle_abort=1:quarantine_size_mb=16:exitcode=99:"
         "allocator_may_return_null=1:abort_on_error=0:detect_odr_violation=0:fast_unwind_on_malloc=1:malloc_context_size=8:allow_user_segv_handler=0:use_sigaltstack=1:print_legend=0";
}
}  // namespace sim
