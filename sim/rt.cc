#include "rt.h"

#include <assert.h>
#include <errno.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <random>

namespace rt {

static sigjmp_buf g_jb;
static volatile int g_depth = 0;
static Panic g_panic;
static char g_altstack[1 << 16];
static uint64_t g_dev = 1;
static uint64_t g_allocs = 0;
static uint64_t g_alloc_limit = ~0ull;
static double g_cpu = 0;
static volatile uint64_t g_calls = 0, g_last_call = 0;

struct FatalEx { };

bool in_guard() { return g_depth != 0; }

void raise_fatal(const char* msg) {
  if (!g_depth) {
    fprintf(stderr, "fatal outside guard: %s\n", msg);
    _exit(97);
  }
  g_panic.kind = kFatalLog;
  snprintf(g_panic.what, sizeof g_panic.what, "%s", msg);
  throw FatalEx();
}

static void jump_out(PanicKind k, const char* what) {
  g_panic.kind = k;
  snprintf(g_panic.what, sizeof g_panic.what, "%s", what);
  siglongjmp(g_jb, 1);
}

static void on_signal(int sig) {
  if (sig == SIGVTALRM && (!g_depth || g_last_call != g_calls)) {
    // Periodic: only a call that spans a whole period is a runaway.
    g_last_call = g_calls;
    return;
  }
  if (!g_depth) {
    signal(sig, SIG_DFL);
    raise(sig);
    _exit(98);
  }
  if (sig == SIGVTALRM) jump_out(kRunaway, "no progress: cpu budget exhausted inside one call");
  char b[32];
  snprintf(b, sizeof b, "signal %d", sig);
  jump_out(kSignal, b);
}

static void set_timer(double s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = static_cast<long>(s);
  it.it_value.tv_usec = static_cast<long>((s - static_cast<long>(s)) * 1e6);
  it.it_interval = it.it_value;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void install(double cpu) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  g_cpu = cpu;
  if (cpu > 0) set_timer(cpu);
}

bool guarded(const std::function<void()>& fn, Panic* p) {
  if (g_depth) {  // nested: let the outer guard handle it
    fn();
    return true;
  }
  g_panic.kind = kNoPanic;
  uint64_t old_limit = g_alloc_limit;
  volatile bool ok = true;
  if (sigsetjmp(g_jb, 0) == 0) {
    g_depth = 1;
    g_calls = g_calls + 1;
    g_alloc_limit = g_allocs + 3000000;
    try {
      fn();
    } catch (FatalEx&) {
      ok = false;
    } catch (std::exception& e) {
      ok = false;
      if (g_panic.kind == kNoPanic) g_panic.kind = kException;
      snprintf(g_panic.what, sizeof g_panic.what, "exception %s", e.what());
    } catch (...) {
      ok = false;
      if (g_panic.kind == kNoPanic) g_panic.kind = kException;
      snprintf(g_panic.what, sizeof g_panic.what, "unknown exception");
    }
  } else {
    ok = false;
  }
  g_depth = 0;
  g_alloc_limit = old_limit;
  if (!ok && p) *p = g_panic;
  return ok;
}

void count_alloc() {
  if (++g_allocs > g_alloc_limit && g_depth) {
    g_alloc_limit = ~0ull;
    jump_out(kRunaway, "no progress: allocation budget exhausted inside one call");
  }
}

static uint64_t g_live = 0;
// The requested size of every block: what the allocator makes of it is not
// the same from one execution to the next.
#if defined(__SANITIZE_ADDRESS__)
static void* raw_alloc(size_t n) { return malloc(n); }
static void raw_free(void* p) { free(p); }
static size_t size_of(const void* p) { return malloc_usable_size(const_cast<void*>(p)); }
#else
static const size_t kHead = 16;
static void* raw_alloc(size_t n) {
  char* p = static_cast<char*>(malloc(n + kHead));
  if (!p) return nullptr;
  *reinterpret_cast<size_t*>(p) = n;
  return p + kHead;
}
static void raw_free(void* p) { free(static_cast<char*>(p) - kHead); }
static size_t size_of(const void* p) { return *reinterpret_cast<const size_t*>(static_cast<const char*>(p) - kHead); }
#endif
static uint64_t* g_sizes = nullptr;
void histogram(uint64_t* sizes) { g_sizes = sizes; }
// Open addressing over raw memory: it must not allocate through operator new.
static const void** g_tab = nullptr;
static size_t g_tab_n = 0, g_tab_used = 0;
static const void* const kGone = reinterpret_cast<const void*>(1);

static void tab_put(const void* p);
static void tab_grow() {
  const void** old = g_tab;
  size_t n = g_tab_n;
  g_tab_n = n ? n * 2 : 1 << 15;
  g_tab = static_cast<const void**>(calloc(g_tab_n, sizeof *g_tab));
  g_tab_used = 0;
  for (size_t i = 0; i < n; i++)
    if (old[i] && old[i] != kGone) tab_put(old[i]);
  free(old);
}
static void tab_put(const void* p) {
  if (g_tab_used * 2 >= g_tab_n) tab_grow();
  size_t i = mix(reinterpret_cast<uintptr_t>(p)) & (g_tab_n - 1);
  while (g_tab[i] && g_tab[i] != kGone) i = (i + 1) & (g_tab_n - 1);
  if (!g_tab[i]) g_tab_used++;
  g_tab[i] = p;
}
static void tab_del(const void* p) {
  size_t i = mix(reinterpret_cast<uintptr_t>(p)) & (g_tab_n - 1);
  while (g_tab[i]) {
    if (g_tab[i] == p) {
      g_tab[i] = kGone;
      return;
    }
    i = (i + 1) & (g_tab_n - 1);
  }
}
static bool g_track = false;
uint64_t live_bytes() { return g_live; }
void track(bool on) {
  g_track = on;
  if (on && !g_tab) tab_grow();
}
uint64_t tracked(uint64_t* count) {
  uint64_t b = 0;
  *count = 0;
  for (size_t i = 0; i < g_tab_n; i++)
    if (g_tab[i] && g_tab[i] != kGone) {
      b += size_of(const_cast<void*>(g_tab[i]));
      ++*count;
    }
  return b;
}
void* allocate(size_t n) {
  void* p = raw_alloc(n ? n : 1);
  if (!p) return nullptr;
  g_live += size_of(p);
  if (g_track && g_depth) tab_put(p);
  return p;
}
void release(void* p) {
  if (!p) return;
  if (g_sizes) g_sizes[size_of(p) < 4096 ? size_of(p) / 16 : 255]++;
  g_live -= size_of(p);
  if (g_tab) tab_del(p);
  raw_free(p);
}

void seed_device(uint64_t seed) { g_dev = mix(seed ^ 0xdeu); }
unsigned next_device() {
  g_dev = mix(g_dev);
  return static_cast<unsigned>(g_dev >> 16);
}

}  // namespace rt

// ---- interposed entry points -------------------------------------------
extern "C" {
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  char b[200];
  const char* base = strrchr(file, '/');
  snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, base ? base + 1 : file, line);
  if (rt::in_guard()) rt::jump_out(rt::kAssert, b);
  fprintf(stderr, "%s\n", b);
  _exit(96);
}
int rand() { return static_cast<int>(rt::next_device() & 0x7fffffff); }
long random() { return static_cast<long>(rt::next_device() & 0x7fffffff); }
}

namespace std {
random_device::result_type random_device::_M_getval() { return rt::next_device(); }
}  // namespace std

void* operator new(size_t n) {
  rt::count_alloc();
  if (n > (size_t)1 << 31) throw std::bad_alloc();
  void* p = rt::allocate(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { rt::release(p); }
void operator delete(void* p, size_t) noexcept { rt::release(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt::allocate(n); }
