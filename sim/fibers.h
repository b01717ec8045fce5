// Simulated threads: fibers under a seeded scheduler, with the thread
// sanitizer's callbacks, the pthread locks and the heap implemented here.  Code
// compiled with -fsanitize=thread and linked with this runs one thread at a
// time; every memory access, atomic and lock operation is a point where the
// scheduler may switch.  Included once, inside no namespace, by each simulator,
// which defines kMaxT, kStack and kMaxEvents before, and FIBERS_SHADOW (size of
// the table of memory accesses) and FIBERS_TLS (every simulated thread has its
// own thread-local variables) if it wants.
#pragma once
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

#include "rt.h"

namespace {

struct Switch { int from; uint32_t at; int to; };

// ---------------------------------------------------------------- shared result slot

struct Slot {
  char code[32];
  char detail[600];
  uint64_t hash, events, switches, seed, sched_hash, state_hash;
  uint32_t nsw;
  uint64_t thash[kMaxT];  // what each thread saw
  Switch sw[60000];
  int done;
};
Slot* slot;

struct Counts { uint64_t blocked, atomics, locks, reads, writes; };

// ---------------------------------------------------------------- scheduler

struct VC {
  uint32_t c[kMaxT] = {0};
  void join(const VC& o) { for (int i = 0; i < kMaxT; i++) c[i] = std::max(c[i], o.c[i]); }
};

struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr;
  bool alive = false, blocked = false;
  const void* wait = nullptr;
  bool wait_write = false;
  const volatile int* flag = nullptr;  // or waits until this is set
  uint32_t events = 0;
  int cur_op = -1;
  uint64_t prio = 0;
};

struct LockState {
  int writer = -1;
  int readers[kMaxT] = {0};
  int depth = 0;
  VC w, r;
};

struct Shadow {
  uintptr_t key;
  uint32_t gen;
  uint8_t wt, wmask, freed, wop;
  uint32_t wc;
  uint32_t rc[kMaxT];
  uint8_t rmask[kMaxT];
  uint8_t rop[kMaxT];
};
#ifndef FIBERS_SHADOW
#define FIBERS_SHADOW (1 << 17)
#endif
constexpr size_t kShadow = FIBERS_SHADOW;
Shadow* shadow;
uint32_t shadow_gen = 0;

struct World {
  bool on = false;       // fibers exist (set-up and callers run under it)
  int cur = -1;          // running fiber, 0 during set-up, -1 outside
  bool busy = false;     // inside the simulator: no yields
  bool unwatched = false;  // accesses are neither recorded nor preempted
  ucontext_t main;
  Fiber f[kMaxT];
  VC vc[kMaxT];
  std::unordered_map<const void*, LockState>* locks = nullptr;
  std::unordered_map<const void*, VC>* atoms = nullptr;
  std::vector<void*>* quarantine = nullptr;
  const std::map<std::pair<int, uint32_t>, int>* replay = nullptr;
  rt::Rng rng{0};
  int policy = 0;
  uint64_t p = 8, p_lock = 2;
  std::vector<uint64_t> pct;
  uint64_t events = 0, stamp = 0;
  bool stop = false;
  uint64_t shash = 0;
  Counts* cnt = nullptr;
  uint32_t* pairs = nullptr;  // bitmap of (preempted place, next call)
};
World W;
constexpr uint64_t kPairBits = 1 << 20;
constexpr uint64_t kSchedBits = 1 << 27;
uint32_t* sched_bits = nullptr;

// ---------------------------------------------------------------- thread-local variables

uintptr_t tls_lo = 0, tls_hi = 0;
const char* tls_image = nullptr;  // what a new thread starts with
size_t tls_filled = 0;
char* tls_copy[kMaxT];
int find_tls(dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && *i->dlpi_name) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      tls_lo = reinterpret_cast<uintptr_t>(i->dlpi_tls_data);
      tls_hi = tls_lo + i->dlpi_phdr[k].p_memsz;
      tls_image = reinterpret_cast<const char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      tls_filled = i->dlpi_phdr[k].p_filesz;
    }
  return 0;
}
inline void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
inline void raw_fill(void* d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
void tls_fresh(int t) {
#ifdef FIBERS_TLS
  size_t n = tls_hi - tls_lo;
  if (!n) return;
  if (!tls_copy[t]) tls_copy[t] = static_cast<char*>(malloc(n));
  raw_copy(tls_copy[t], tls_image, tls_filled);
  raw_fill(tls_copy[t] + tls_filled, 0, n - tls_filled);
#else
  (void)t;
#endif
}
// Thread `from' (0: the set-up) stops and `to' goes on.
void tls_switch(int from, int to) {
#ifdef FIBERS_TLS
  size_t n = tls_hi - tls_lo;
  if (!n || from == to) return;
  if (!tls_copy[from]) tls_copy[from] = static_cast<char*>(malloc(n));
  raw_copy(tls_copy[from], reinterpret_cast<void*>(tls_lo), n);
  raw_copy(reinterpret_cast<void*>(tls_lo), tls_copy[to], n);
#else
  (void)from, (void)to;
#endif
}

struct Busy {
  bool o;
  Busy() : o(W.busy) { W.busy = true; }
  ~Busy() { W.busy = o; }
};

void violation(const char* code, const char* fmt, ...) {
  if (slot->code[0]) return;
  snprintf(slot->code, sizeof slot->code, "%s", code);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(slot->detail, sizeof slot->detail, fmt, ap);
  va_end(ap);
}

// Supplied by the simulator that includes this file.
std::string op_at(int thread, int op);  // what that thread does
std::string place_of(uintptr_t a);      // what lies at that address
int kind_of(int thread);                // the kind of its current operation
void switching(int from, int to);       // another thread takes over

bool grantable(const Fiber& f, int id) {
  if (!f.blocked) return true;
  if (f.flag) return *f.flag != 0;
  auto it = W.locks->find(f.wait);
  if (it == W.locks->end()) return true;
  LockState& l = it->second;
  if (l.writer >= 0) return false;
  if (f.wait_write)
    for (int i = 0; i < kMaxT; i++)
      if (l.readers[i]) return false;
  (void)id;
  return true;
}

// Leaves the running fiber for good (run over) or switches to another one.
void leave_run() {
  W.stop = true;
  if (W.cur > 0) tls_switch(W.cur, 0);
  W.cur = -1;
  setcontext(&W.main);
  _exit(99);
}

int choose_other(int self, bool must) {
  int cand[kMaxT], n = 0;
  for (int i = 1; i < kMaxT; i++)
    if (W.f[i].alive && i != self && grantable(W.f[i], i)) cand[n++] = i;
  if (!n) return -1;
  if (W.replay) {
    auto it = W.replay->find({self, self >= 0 ? W.f[self].events : 0});
    if (it != W.replay->end())
      for (int i = 0; i < n; i++)
        if (cand[i] == it->second) return cand[i];
    return must ? cand[0] : -1;
  }
  if (W.policy == 1) {  // priorities
    int b = cand[0];
    for (int i = 1; i < n; i++)
      if (W.f[cand[i]].prio > W.f[b].prio) b = cand[i];
    if (must) return b;
    return W.f[b].prio > W.f[self].prio ? b : -1;
  }
  return cand[W.rng.next() % n];
}

void do_switch(int to, const void* pc) {
  int self = W.cur;
  if (slot->nsw < sizeof slot->sw / sizeof slot->sw[0]) slot->sw[slot->nsw++] = Switch{self, W.f[self].events, to};
  W.shash = rt::hc(W.shash, (static_cast<uint64_t>(self) << 40) ^ (static_cast<uint64_t>(to) << 44) ^ W.f[self].events);
  slot->switches++;
  if (W.pairs && pc) {
    uint64_t h = rt::hc(reinterpret_cast<uintptr_t>(pc) & 0xffffff, kind_of(to)) % kPairBits;
    __atomic_fetch_or(&W.pairs[h / 32], 1u << (h % 32), __ATOMIC_RELAXED);
  }
  switching(self, to);
  tls_switch(self, to);
  W.cur = to;
  bool b = W.busy;
  swapcontext(&W.f[self].ctx, &W.f[to].ctx);
  W.busy = b;
  W.cur = self;
}

enum Point { kMem, kLock, kEdge };

void yield(Point pt, const void* pc) {
  if (W.cur < 1 || W.stop) return;
  Fiber& f = W.f[W.cur];
  f.events++;
  W.events++;
  slot->events = W.events;
  if (W.events > kMaxEvents) {
    violation("runaway", "%s does not return", op_at(W.cur, f.cur_op).c_str());
    leave_run();
  }
  int to = -1;
  if (W.replay) {
    if (W.replay->count({W.cur, f.events})) to = choose_other(W.cur, false);
  } else if (slot->nsw > sizeof slot->sw / sizeof slot->sw[0] - 10000) {
    // the record of the schedule is almost full
  } else if (W.policy == 1) {
    bool change = std::find(W.pct.begin(), W.pct.end(), W.events) != W.pct.end();
    if (change) f.prio = W.rng.next() % 1000;
    if (change || pt != kMem) to = choose_other(W.cur, false);
  } else {
    uint64_t p = pt == kMem ? W.p : W.p_lock;
    if (W.rng.next() % p == 0) to = choose_other(W.cur, false);
  }
  if (to > 0) do_switch(to, pc);
}

// The running fiber cannot go on until *flag is set.
void block_flag(const volatile int* flag) {
  if (!W.on || W.cur < 1 || W.stop) return;
  Busy b;
  Fiber& f = W.f[W.cur];
  f.blocked = true;
  f.flag = flag;
  while (!*flag) {
    f.events++;
    W.events++;
    int to = choose_other(W.cur, true);
    if (to < 0) {
      violation("stuck", "%s waits for something that never happens", op_at(W.cur, f.cur_op).c_str());
      leave_run();
    }
    do_switch(to, nullptr);
  }
  f.flag = nullptr;
  f.blocked = false;
}

// The running fiber cannot go on until grantable().
void block(const void* lock, bool write, const void* pc) {
  Fiber& f = W.f[W.cur];
  f.blocked = true;
  f.wait = lock;
  f.wait_write = write;
  W.cnt->blocked++;
  while (!grantable(f, W.cur)) {
    f.events++;
    W.events++;
    int to = choose_other(W.cur, true);
    if (to < 0) {
      violation("stuck", "%s waits for a lock nobody will release", op_at(W.cur, f.cur_op).c_str());
      leave_run();
    }
    do_switch(to, pc);
  }
  f.blocked = false;
}

// ---------------------------------------------------------------- memory

Shadow* sh(uintptr_t g) {
  size_t i = rt::mix(g) & (kShadow - 1);
  for (size_t k = 0; k < 64; k++, i = (i + 1) & (kShadow - 1)) {
    Shadow& s = shadow[i];
    if (s.gen != shadow_gen) {
      memset(&s, 0, sizeof s);
      s.key = g;
      s.gen = shadow_gen;
      return &s;
    }
    if (s.key == g) return &s;
  }
  return nullptr;
}

bool on_stack(uintptr_t a) {
  if (a >= tls_lo && a < tls_hi) return true;
  if (W.cur >= 1) {
    for (int i = 1; i < kMaxT; i++) {
      uintptr_t s = reinterpret_cast<uintptr_t>(W.f[i].stack);
      if (a >= s && a < s + kStack) return true;
    }
  }
  uintptr_t here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  return W.cur <= 0 && a > here - 4096 && a < here + (1 << 20);
}

void race(const char* what, uintptr_t a, int t1, int o1) {
  violation("data-race", "%s by %s is not ordered with an access by %s (address %s)", what, op_at(W.cur, W.f[W.cur].cur_op).c_str(), op_at(t1, o1).c_str(),
            place_of(a).c_str());
  leave_run();
}

void touch(uintptr_t a, size_t n, bool write) {
  int t = W.cur;
  VC& c = W.vc[t];
  uint8_t op = static_cast<uint8_t>(W.f[t].cur_op + 1);
  while (n) {
    uintptr_t g = a & ~7ull;
    size_t k = std::min<size_t>(n, g + 8 - a);
    uint8_t m = static_cast<uint8_t>(((1u << k) - 1) << (a - g));
    Shadow* s = sh(g);
    if (s) {
      if (s->freed) {
        violation("use-after-free", "%s uses memory freed by %s", op_at(t, op - 1).c_str(), op_at(s->wt, s->wop - 1).c_str());
        leave_run();
      }
      if (s->wt != t && s->wc > c.c[s->wt] && (s->wmask & m)) race(write ? "a write" : "a read", a, s->wt, s->wop - 1);
      if (write) {
        for (int i = 0; i < kMaxT; i++)
          if (i != t && s->rc[i] > c.c[i] && (s->rmask[i] & m)) race("a write", a, i, s->rop[i] - 1);
        if (s->wt == t && s->wc == c.c[t]) s->wmask |= m;
        else s->wmask = m;
        s->wt = static_cast<uint8_t>(t), s->wc = c.c[t], s->wop = op;
      } else {
        if (s->rc[t] == c.c[t]) s->rmask[t] |= m;
        else s->rmask[t] = m;
        s->rc[t] = c.c[t], s->rop[t] = op;
      }
    }
    a += k;
    n -= k;
  }
}

inline void access(const void* p, size_t n, bool write, const void* pc) {
  if (!W.on || W.busy || W.cur < 0 || W.stop || W.unwatched) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (on_stack(a)) return;
  Busy b;
  (write ? W.cnt->writes : W.cnt->reads)++;
  yield(kMem, pc);
  touch(a, n, write);
}

void atomic_sync(const void* p, const void* pc) {
  if (!W.on || W.busy || W.cur < 0 || W.stop || W.unwatched) return;
  if (on_stack(reinterpret_cast<uintptr_t>(p))) return;
  Busy b;
  W.cnt->atomics++;
  yield(kMem, pc);
  Shadow* s = sh(reinterpret_cast<uintptr_t>(p) & ~7ull);
  if (s && s->freed) {
    violation("use-after-free", "%s uses memory freed by %s", op_at(W.cur, W.f[W.cur].cur_op).c_str(), op_at(s->wt, s->wop - 1).c_str());
    leave_run();
  }
  VC& v = (*W.atoms)[p];
  W.vc[W.cur].join(v);
  v.join(W.vc[W.cur]);
  W.vc[W.cur].c[W.cur]++;
}

// ---------------------------------------------------------------- locks

int lock_op(const void* l, bool write, bool tryit, bool recursive, const void* pc) {
  if (!W.on || W.busy || W.cur < 0 || W.stop) return 0;
  Busy b;
  W.cnt->locks++;
  int t = W.cur;
  yield(kLock, pc);
  LockState* s = &(*W.locks)[l];
  if (recursive && s->writer == t) {
    s->depth++;
    return 0;
  }
  auto free_for = [&]() {
    if (s->writer >= 0) return false;
    if (write)
      for (int i = 0; i < kMaxT; i++)
        if (s->readers[i]) return false;
    return true;
  };
  if (!free_for()) {
    if (tryit) return EBUSY;
    if (t < 1) {
      violation("stuck", "the set-up waits for a lock");
      leave_run();
    }
    block(l, write, pc);
    s = &(*W.locks)[l];
  }
  if (write) {
    s->writer = t;
    s->depth = 1;
    W.vc[t].join(s->w);
    W.vc[t].join(s->r);
  } else {
    s->readers[t]++;
    W.vc[t].join(s->w);
  }
  return 0;
}

int unlock_op(const void* l, const void* pc) {
  if (!W.on || W.busy || W.cur < 0 || W.stop) return 0;
  Busy b;
  int t = W.cur;
  LockState& s = (*W.locks)[l];
  if (s.writer == t) {
    if (--s.depth == 0) {
      s.writer = -1;
      s.w.join(W.vc[t]);
    }
  } else if (s.readers[t] > 0) {
    s.readers[t]--;
    s.r.join(W.vc[t]);
  } else {
    violation("bad-unlock", "%s releases a lock it does not hold", op_at(t, W.f[t].cur_op).c_str());
    leave_run();
  }
  W.vc[t].c[t]++;
  yield(kLock, pc);
  return 0;
}

}  // namespace

extern "C" {
#define PC __builtin_return_address(0)
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return lock_op(l, false, false, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return lock_op(l, true, false, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return lock_op(l, false, true, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return lock_op(l, true, true, false, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { return unlock_op(l, PC); }
int pthread_mutex_lock(pthread_mutex_t* l) { return lock_op(l, true, false, (l->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, PC); }
int pthread_mutex_trylock(pthread_mutex_t* l) { return lock_op(l, true, true, (l->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, PC); }
int pthread_mutex_unlock(pthread_mutex_t* l) { return unlock_op(l, PC); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n)                                                              \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }                 \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }                 \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }       \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }       \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }        \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }        \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); }            \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
#define ATOM(bits, T)                                                                                                        \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { atomic_sync((const void*)a, PC); return *a; }                      \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); *a = v; }                      \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = v; return o; }  \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = o | v; return o; }  \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { atomic_sync((const void*)a, PC); T o = *a; *a = ~(o & v); return o; } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                                    \
    atomic_sync((const void*)a, PC);                                                                                         \
    if (*a == *c) { *a = v; return true; }                                                                                   \
    *c = *a;                                                                                                                 \
    return false;                                                                                                            \
  }                                                                                                                          \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                                      \
    atomic_sync((const void*)a, PC);                                                                                         \
    if (*a == *c) { *a = v; return true; }                                                                                   \
    *c = *a;                                                                                                                 \
    return false;                                                                                                            \
  }                                                                                                                          \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                                           \
    atomic_sync((const void*)a, PC);                                                                                         \
    T o = *a;                                                                                                                \
    if (o == c) *a = v;                                                                                                      \
    return o;                                                                                                                \
  }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long) ATOM(128, unsigned __int128)
// Copies, also those made inside uninstrumented libraries (strings, messages).
void* memcpy(void* d, const void* s, size_t n) {
  if (W.on && n) access(s, n, false, PC), access(d, n, true, PC);
  raw_copy(d, s, n);
  return d;
}
void* memmove(void* d, const void* s, size_t n) {
  if (W.on && n) access(s, n, false, PC), access(d, n, true, PC);
  if (d <= s || static_cast<const char*>(s) + n <= d) {
    raw_copy(d, s, n);
  } else {
    for (size_t i = n; i-- > 0;) static_cast<volatile char*>(d)[i] = static_cast<const char*>(s)[i];
  }
  return d;
}
void* memset(void* d, int v, size_t n) {
  if (W.on && n) access(d, n, true, PC);
  raw_fill(d, v, n);
  return d;
}
int memcmp(const void* a, const void* b, size_t n) {
  if (W.on && n) access(a, n, false, PC), access(b, n, false, PC);
  auto x = static_cast<const volatile unsigned char*>(a);
  auto y = static_cast<const volatile unsigned char*>(b);
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void __assert_fail(const char* e, const char* file, unsigned line, const char*) {
  if (W.on && slot) {
    const char* b = strrchr(file, '/');
    violation("assert", "%s fails `%s' (%s:%u)", W.cur >= 0 ? op_at(W.cur, W.f[W.cur].cur_op).c_str() : "?", e, b ? b + 1 : file, line);
    if (W.cur >= 1) leave_run();
    _exit(77);
  }
  fprintf(stderr, "assertion %s %s:%u\n", e, file, line);
  _exit(77);
}
}

namespace std {
void __glibcxx_assert_fail(const char* file, int line, const char*, const char* cond) noexcept { __assert_fail(cond ? cond : "?", file ? file : "?", line, ""); __builtin_unreachable(); }
}

// ---------------------------------------------------------------- heap

namespace {
constexpr size_t kRed = 32;
void* sim_new(size_t n) {
  char* p = static_cast<char*>(malloc(n + 2 * kRed));
  if (!p) _exit(98);
  *reinterpret_cast<size_t*>(p) = n;
  if (W.on && W.cur >= 0 && !W.stop) {
    memset(p + 16, 0xA5, n + 2 * kRed - 16);
    if (!W.busy && !W.unwatched) {
      // a new life of this memory
      Busy b;
      for (uintptr_t g = reinterpret_cast<uintptr_t>(p) & ~7ull; g < reinterpret_cast<uintptr_t>(p) + n + kRed + kRed; g += 8) {
        Shadow* s = sh(g);
        if (s) { uintptr_t k = s->key; uint32_t ge = s->gen; memset(s, 0, sizeof *s); s->key = k; s->gen = ge; }
      }
    }
  }
  return p + kRed;
}
void sim_delete(void* q) {
  if (!q) return;
  char* p = static_cast<char*>(q) - kRed;
  if (W.on && W.cur >= 0 && !W.busy && !W.stop) {
    Busy b;
    size_t n = W.unwatched ? 0 : *reinterpret_cast<size_t*>(p);
    uintptr_t a = reinterpret_cast<uintptr_t>(q);
    int t = W.cur;
    VC& c = W.vc[t];
    for (uintptr_t g = a; g < a + n; g += 8) {
      Shadow* s = sh(g);
      if (!s) continue;
      if (s->freed) {
        violation("double-free", "%s frees memory freed by %s", op_at(t, W.f[t].cur_op).c_str(), op_at(s->wt, s->wop - 1).c_str());
        leave_run();
      }
      if (s->wmask && s->wt != t && s->wc > c.c[s->wt]) race("freeing memory", g, s->wt, s->wop - 1);
      for (int i = 0; i < kMaxT; i++)
        if (i != t && s->rmask[i] && s->rc[i] > c.c[i]) race("freeing memory", g, i, s->rop[i] - 1);
      s->freed = 1;
      s->wt = static_cast<uint8_t>(t), s->wc = c.c[t], s->wop = static_cast<uint8_t>(W.f[t].cur_op + 1);
    }
    W.quarantine->push_back(p);
    return;
  }
  free(p);
}
}  // namespace
void* operator new(size_t n) { return sim_new(n); }
void* operator new[](size_t n) { return sim_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
