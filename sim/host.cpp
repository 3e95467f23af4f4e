#include "host.h"
#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <cstring>
#include <exception>
#include <iostream>
#include <locale>
#include <new>
#include "core.h"
#include "spec.h"

extern char** environ;
namespace sim {
static char rand_state[128];
static void on_signal(int) {}
static void on_terminate() { abort(); }
static void on_new() { throw std::bad_alloc(); }

void host_prepare() {
  initstate(20240607, rand_state, sizeof rand_state);
  int fd = (int)syscall(SYS_memfd_create, "stdout", 0u);
  if (fd >= 0) {  // what is written there shows in its size
    dup2(fd, 1);
    close(fd);
  }
}
void host_habits(int bits) {
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  if (bits & 1) {
    sigaction(SIGPIPE, &sa, nullptr);
    sa.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &sa, nullptr);
  }
  if (bits & 2) {
    umask(027);
    setenv("LC_NUMERIC", "de_DE.UTF-8", 1);
    setenv("TZ", "Asia/Tokyo", 1);
  }
  if (bits & 4) {
    std::cout.setf(std::ios::hex, std::ios::basefield);
    std::cout.precision(3);
    std::cout.fill('*');
    std::cerr.setf(std::ios::showbase | std::ios::uppercase);
    std::cerr.precision(11);
    std::cerr.unsetf(std::ios::unitbuf);
    std::cerr.tie(nullptr);
  }
  if (bits & 8) {
    std::set_terminate(on_terminate);
    std::set_new_handler(on_new);
    struct rlimit r {1024, 4096};
    setrlimit(RLIMIT_NOFILE, &r);
  }
}
void host_habits_thread(int bits) {
  if (bits & 16) fesetround(FE_UPWARD);
  if (bits & 32) {
    sigset_t m;
    sigemptyset(&m);
    sigaddset(&m, SIGUSR1);
    sigaddset(&m, SIGTERM);
    pthread_sigmask(SIG_BLOCK, &m, nullptr);
    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, nullptr);
  }
  if (bits & 64) {
    static locale_t l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0);
    if (l) uselocale(l);
  }
}

static uint64_t hs(const char* s) { return s ? fnv(s, strlen(s)) : 1; }
HostState host_state(int what) {
  HostState h;
  auto add = [&](const char* n, uint64_t v) { h.v.emplace_back(n, v); };
  const bool rest = what & HOST_REST;
  if (what & HOST_SHARED) {
    add("the C locale", hs(setlocale(LC_ALL, nullptr)));
    add("the C++ locale", fnv(std::locale().name()));
    static const int sigs[] = {SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGUSR1, SIGSEGV, SIGUSR2, SIGPIPE, SIGALRM, SIGTERM, SIGCHLD, SIGXCPU, SIGXFSZ, SIGVTALRM, SIGPROF, SIGSYS};
    for (int i : sigs) {
      struct sigaction sa;
      if (sigaction(i, nullptr, &sa)) continue;
      add("a signal handler", fnv(&sa.sa_mask, 8, (uint64_t)(uintptr_t)sa.sa_handler * 31 + (uint64_t)sa.sa_flags));
    }
    uint64_t e = 7;
    for (char** p = environ; p && *p; p++) e = fnv(*p, strlen(*p), e);
    add("the environment", e);
    char cwd[4096];
    add("the working directory", hs(getcwd(cwd, sizeof cwd)));
    mode_t m = umask(0);
    umask(m);
    add("the umask", m);
    for (int i = 0; i < RLIMIT_NLIMITS; i++) {
      struct rlimit r;
      if (!getrlimit((__rlimit_resource_t)i, &r)) add("a resource limit", r.rlim_cur * 1000003u + r.rlim_max);
    }
    for (int fd = 0; fd < 3; fd++) {
      struct stat st;
      bool ok = !fstat(fd, &st);
      add("a standard descriptor", ok ? (uint64_t)st.st_ino * 31 + st.st_dev * 7 + (uint64_t)fcntl(fd, F_GETFL) : 1);
      if (ok && fd == 1) add("standard output", S_ISREG(st.st_mode) ? (uint64_t)st.st_size : 0);
    }
    add("the stream stdout", (uint64_t)(uintptr_t)stdout);
    add("the stream stderr", (uint64_t)(uintptr_t)stderr);
    add("the terminate handler", (uint64_t)(uintptr_t)std::get_terminate());
    add("the new handler", (uint64_t)(uintptr_t)std::get_new_handler());
    add("the state of rand()", fnv(rand_state, sizeof rand_state));
    add("the priority", (uint64_t)getpriority(PRIO_PROCESS, 0));
    add("the dumpable flag", (uint64_t)prctl(PR_GET_DUMPABLE));
    struct itimerval t;
    add("an interval timer", !getitimer(ITIMER_VIRTUAL, &t) ? t.it_value.tv_sec || t.it_value.tv_usec : 2);
    add("the alarm", !getitimer(ITIMER_REAL, &t) ? t.it_value.tv_sec || t.it_value.tv_usec : 2);
  }
  if (rest) {
    for (int fd = 3; fd < 64; fd++) {
      struct stat st;
      add("an open descriptor", fstat(fd, &st) ? 1 : (uint64_t)st.st_ino * 31 + st.st_dev * 7 + (uint64_t)fcntl(fd, F_GETFD));
    }
    std::ios* s[] = {&std::cin, &std::cout, &std::cerr, &std::clog};
    for (auto* x : s) {
      add("the format flags of a standard stream", (uint64_t)x->flags());
      add("the precision of a standard stream", (uint64_t)x->precision());
      add("the width of a standard stream", (uint64_t)x->width());
      add("the fill character of a standard stream", (uint64_t)(unsigned char)x->fill());
      add("the exception mask of a standard stream", (uint64_t)x->exceptions());
      add("the buffer of a standard stream", (uint64_t)(uintptr_t)x->rdbuf());
      add("the tie of a standard stream", (uint64_t)(uintptr_t)x->tie());
      add("the locale of a standard stream", fnv(x->getloc().name()));
    }
    add("the buffering of stderr", (uint64_t)(stderr->_flags & (0x2 | 0x200)));
    add("the buffering of stdout", (uint64_t)(stdout->_flags & (0x2 | 0x200)));
    add("standard output", (uint64_t)__fpending(stdout));
    add("the lock of stderr", stderr->_lock ? (uint64_t) * (int*)stderr->_lock : 0);
    add("the lock of stdout", stdout->_lock ? (uint64_t) * (int*)stdout->_lock : 0);
    add("the lock of a stream", (uint64_t)stream_locks_held());
  }
  if (what & HOST_OWN) {
    add("the rounding mode", (uint64_t)fegetround());
    add("the floating-point exceptions", (uint64_t)fegetexcept());
    add("the floating-point control word", _mm_getcsr() & ~0x3fu);
    sigset_t m;
    sigemptyset(&m);
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    add("the signal mask", fnv(&m, 8));
    int c = 0, c2;
    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &c);
    pthread_setcancelstate(c, &c2);
    add("the cancelability", (uint64_t)c);
    int ty = 0, t2;
    pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &ty);
    pthread_setcanceltype(ty, &t2);
    add("the cancelation type", (uint64_t)ty);
    add("the locale of the thread", (uint64_t)(uintptr_t)uselocale((locale_t)0));
    char name[64] = "";
    pthread_getname_np(pthread_self(), name, sizeof name);
    add("the name of the thread", hs(name));
    cpu_set_t cs;
    CPU_ZERO(&cs);
    sched_getaffinity(0, sizeof cs, &cs);
    add("the affinity of the thread", fnv(&cs, sizeof cs));
    struct sched_param sp {};
    int pol = 0;
    pthread_getschedparam(pthread_self(), &pol, &sp);
    add("the scheduling policy", (uint64_t)(pol * 1000 + sp.sched_priority));
    stack_t ss{};
    sigaltstack(nullptr, &ss);
    add("the signal stack", (uint64_t)(uintptr_t)ss.ss_sp * 7 + ss.ss_size + (uint64_t)ss.ss_flags);
  }
  if (what & HOST_TASKS) {
    uint64_t n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
      while (readdir(d)) n++;
      closedir(d);
    }
    add("the number of threads", n);
  }
  return h;
}
std::string host_diff(const HostState& a, const HostState& b) {
  if (a.v.size() != b.v.size()) return "the number of items";
  for (size_t i = 0; i < a.v.size(); i++)
    if (a.v[i].second != b.v[i].second) return a.v[i].first;
  return "";
}
}  // namespace sim
