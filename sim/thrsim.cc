// Deterministic simulation of a multi-threaded application over the whole
// library: see fibers.h for how threads are simulated and thrapp.cc for the
// application.
//
// Decided per run: data races and use of freed memory anywhere in the library
// or in what it handed out, deadlock, aborts and crashes, agreement of what is
// applied, that nothing handed out changes, that log lines of different threads
// do not mix, and that what one thread's nodes do does not depend on other
// threads using other nodes (each thread is also run alone and compared).
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <time.h>

#include <cstdarg>
#include <fstream>
#include <memory>
#include <random>
#include <set>
#include <sstream>

#include "thrapp.h"

extern "C" char __data_start[], _end[];

namespace {
constexpr int kMaxT = thr::kMaxT;
constexpr int kStack = 512 * 1024;
constexpr uint64_t kMaxEvents = 12000000;
}  // namespace
#define FIBERS_SHADOW (1 << 20)
#define FIBERS_TLS
#include "fibers.h"

namespace thr {
const char* const kNames[kKinds] = {"Tick", "Campaign", "Recv", "Propose", "Conf", "Read", "Transfer", "Ready", "Finish", "Status", "Report", "Restart", "Writer", "Snap", "Sread", "Look"};
const char* const kCountNames[kCounts] = {"readys", "messages", "entries_applied", "snapshots_created", "snapshots_sent", "snapshots_restored", "compactions", "statuses", "elections_won", "membership_changes_applied", "readys_stored_by_another_thread", "storage_reads_by_another_thread", "objects_checked_for_later_change", "log_lines"};
}  // namespace thr

namespace {

using thr::Op;
using thr::Plan;

struct Totals : Counts {
  uint64_t runs, ops, events, switches, next_seed, det, det_bad, policy[3], mode[4], alone, kinds[thr::kKinds], count[thr::kCounts];
};

struct Own {
  const Plan* plan = nullptr;
  Totals* tot = nullptr;
  std::map<std::pair<int, uint64_t>, std::pair<uint64_t, uint64_t>> applied;  // group, index -> hash, node
  std::map<std::pair<int, uint64_t>, uint64_t> leader;
  uint64_t dev[kMaxT] = {0};
  uint64_t line = 0, cur_line[kMaxT] = {0}, last_line = 0;
  std::set<uint64_t> closed;  // lines followed by a piece of another one
};
Own* S = nullptr;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string op_str(const Op& o) {
  std::ostringstream s;
  s << thr::kNames[o.kind] << "(node " << o.n << ", " << o.a << ", " << o.b << ")";
  return s.str();
}

std::string op_at(int t, int i) {
  if (t <= 0) return "the set-up";
  std::string s = "thread " + std::to_string(t);
  if (S && S->plan && i >= 0 && i < static_cast<int>(S->plan->th[t].size())) s += " in " + op_str(S->plan->th[t][i]);
  return s;
}
std::string place_of(uintptr_t a) {
  char b[64];
  if (a >= reinterpret_cast<uintptr_t>(__data_start) && a < reinterpret_cast<uintptr_t>(_end)) return "in a variable shared by the whole process";
  snprintf(b, sizeof b, "on the heap");
  return b;
}
int kind_of(int t) {
  int i = W.f[t].cur_op;
  return S->plan && i >= 0 && i < static_cast<int>(S->plan->th[t].size()) ? S->plan->th[t][i].kind : 31;
}
void switching(int, int) {}

// A piece of a log line is written.
void piece() {
  if (!W.on || W.busy || W.cur < 1 || W.stop) return;
  Busy b;
  uint64_t l = S->cur_line[W.cur];
  if (l) {
    if (S->last_line && S->last_line != l) S->closed.insert(S->last_line);
    if (S->closed.count(l)) {
      violation("mixed-log-lines", "the line logged by %s is broken up by another thread's", op_at(W.cur, W.f[W.cur].cur_op).c_str());
      leave_run();
    }
    S->last_line = l;
  }
  yield(kLock, nullptr);
}
bool in_fiber() { return W.on && W.cur >= 0; }

}  // namespace

// ---------------------------------------------------------------- services for the application

namespace thr {
int self() { return W.cur; }
void fail(const char* code, const std::string& what) {
  Busy b;
  violation(code, "%s: %s", W.cur >= 0 ? op_at(W.cur, W.f[W.cur].cur_op).c_str() : "?", what.c_str());
  if (W.cur >= 1) leave_run();
  if (!strcmp(code, "fatal")) _exit(77);
}
void saw(uint64_t h) {
  Busy b;
  slot->thash[W.cur] = rt::hc(slot->thash[W.cur], h);
}
void applied(int group, uint64_t node, uint64_t index, uint64_t hash) {
  Busy b;
  count(kApplies);
  auto [it, fresh] = S->applied.insert({{group, index}, {hash, node}});
  if (!fresh && it->second.first != hash) {
    violation("applied-differs", "nodes %llu and %llu applied different entries at %llu", (unsigned long long)it->second.second, (unsigned long long)node, (unsigned long long)index);
    leave_run();
  }
}
void leads(int group, uint64_t node, uint64_t term) {
  Busy b;
  auto [it, fresh] = S->leader.insert({{group, term}, node});
  if (!fresh && it->second != node) {
    violation("two-leaders", "nodes %llu and %llu lead term %llu", (unsigned long long)it->second, (unsigned long long)node, (unsigned long long)term);
    leave_run();
  }
}
void set_flag(volatile int* f) { *f = 1; }
void clear_flag(volatile int* f) { *f = 0; }
void wait_flag(const volatile int* f) { block_flag(f); }
void count(int what, uint64_t n) {
  if (S && S->tot) S->tot->count[what] += n;
}
void line_begin() {
  Busy b;
  count(kLines);
  if (W.cur >= 0) S->cur_line[W.cur] = ++S->line;
}
void line_end() {
  if (W.cur >= 0) S->cur_line[W.cur] = 0;
}
Quiet::Quiet() : o(W.busy) { W.busy = true; }
Quiet::~Quiet() { W.busy = o; }
}  // namespace thr

// ---------------------------------------------------------------- what the library gets from the system

static int real_out(FILE* f, const char* fmt, va_list ap) {
  static char b[1 << 16];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  fwrite(b, 1, std::min<size_t>(n, sizeof b - 1), f);
  return n;
}
#define OUT(f, fmt)                                             \
  if (in_fiber() && (f == stdout || f == stderr)) return piece(), 1; \
  va_list ap;                                                   \
  va_start(ap, fmt);                                            \
  int r = real_out(f, fmt, ap);                                 \
  va_end(ap);                                                   \
  return r;
extern "C" {
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (in_fiber() && (f == stdout || f == stderr)) return piece(), 1;
  return real_out(f, fmt, ap);
}
int __vfprintf_chk(FILE* f, int, const char* fmt, va_list ap) { return vfprintf(f, fmt, ap); }
int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int __vprintf_chk(int, const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int printf(const char* fmt, ...) { OUT(stdout, fmt) }
int __printf_chk(int, const char* fmt, ...) { OUT(stdout, fmt) }
int fprintf(FILE* f, const char* fmt, ...) { OUT(f, fmt) }
int __fprintf_chk(FILE* f, int, const char* fmt, ...) { OUT(f, fmt) }
int fputs(const char* s, FILE* f) {
  if (in_fiber() && (f == stdout || f == stderr)) return piece(), 1;
  return static_cast<int>(fwrite(s, 1, strlen(s), f));
}
int puts(const char* s) {
  if (in_fiber()) return piece(), 1;
  fputs(s, stdout);
  return putc('\n', stdout);
}
int fputc(int c, FILE* f) {
  if (in_fiber() && (f == stdout || f == stderr)) return piece(), c;
  return putc(c, f);
}
int putchar(int c) { return fputc(c, stdout); }
// One stream of random numbers per simulated thread.
static unsigned next_device() {
  uint64_t& d = S->dev[W.cur > 0 ? W.cur : 0];
  d = rt::mix(d);
  return static_cast<unsigned>(d >> 16);
}
int rand() { return S ? static_cast<int>(next_device() & 0x7fffffff) : 4; }
long random() { return S ? static_cast<long>(next_device() & 0x7fffffff) : 4; }

// Initialisation of function-local statics: one thread does it, others wait.
int __cxa_guard_acquire(uint64_t* g) {
  auto* b = reinterpret_cast<volatile char*>(g);
  if (b[0]) {
    lock_op(g, true, false, false, __builtin_return_address(0));
    unlock_op(g, __builtin_return_address(0));
    return 0;
  }
  lock_op(g, true, false, false, __builtin_return_address(0));
  if (b[0]) {
    unlock_op(g, __builtin_return_address(0));
    return 0;
  }
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  reinterpret_cast<volatile char*>(g)[0] = 1;
  if (W.on && !W.busy && W.cur >= 0 && !W.stop && !W.unwatched) {
    // whoever finds the variable initialised has synchronised with us
    Busy b;
    VC& v = (*W.atoms)[g];
    v.join(W.vc[W.cur]);
  }
  unlock_op(g, __builtin_return_address(0));
}
void __cxa_guard_abort(uint64_t* g) { unlock_op(g, __builtin_return_address(0)); }
}

namespace std {
random_device::result_type random_device::_M_getval() { return S ? next_device() : 4; }
}  // namespace std

namespace {

// ---------------------------------------------------------------- generation

Plan generate(uint64_t seed) {
  rt::Rng r(rt::hc(0x7472ead, seed));
  Plan p;
  p.indep = r.chance(350);
  p.election = static_cast<int>(r.range(3, 6));
  p.heartbeat = static_cast<int>(r.range(1, 2));
  p.prevote = r.chance(400);
  p.checkq = r.chance(400);
  p.lease = p.checkq && r.chance(400);
  p.fwd = r.chance(800);
  p.inflight = static_cast<int>(r.range(1, 6));
  static const uint64_t sizes[] = {0, 60, 200, UINT64_MAX};
  p.maxsize = r.pick(sizes);
  p.maxcommit = r.chance(400) ? r.pick(sizes) : 0;
  p.maxuncommitted = r.chance(250) ? r.range(200, 1000) : 0;
  p.level = static_cast<int>(r.range(0, 3));
  p.pointers = r.chance(300);
  p.behind = r.chance(300);
  uint64_t id = 1;
  // the life of the nodes [first, first + k) in one thread
  static const int calms[] = {1, 3, 10};
  int calm = static_cast<int>(r.pick(calms));
  auto script = [&](int t, int first, int k, int len, bool lead, bool local) {
    auto& v = p.th[t];
    if (lead) {
      uint64_t n = first + r.range(0, k - 1);
      v.push_back(Op{thr::kCampaign, n, 0, 0});
      v.push_back(Op{thr::kReady, n, 0, 0});
      for (int i = 0; i < (k > 1 ? 3 * k : 0); i++) {
        uint64_t m = first + i % k;
        v.push_back(Op{thr::kRecv, m, 20, 0});
        v.push_back(Op{thr::kReady, m, 0, 0});
      }
    }
    // cut off for a while: what arrives is lost
    int off_from = r.chance(350) ? static_cast<int>(r.range(2, len / 2)) : len + 1, off_to = off_from + static_cast<int>(r.range(len / 5, len / 2));
    uint64_t off = first + r.range(0, k - 1);
    while (static_cast<int>(v.size()) < len) {
      uint64_t n = first + r.range(0, k - 1);
      bool async = p.writers && r.chance(600);
      bool gone = n == off && static_cast<int>(v.size()) >= off_from && static_cast<int>(v.size()) < off_to;
      if (r.chance(850) || gone)
        v.push_back(Op{thr::kRecv, n, static_cast<uint64_t>(r.range(4, 16)), gone ? 8u : r.chance(60 / calm) ? 1u : r.chance(60) ? 2u : r.chance(60 / calm) ? 4u : 0u});
      if (r.chance(350) && !gone) v.push_back(Op{thr::kTick, n, static_cast<uint64_t>(r.chance(60 / calm) ? r.range(2, 8) : 1), 0});
      int c = static_cast<int>(r.range(0, 999));
      if (c < 360) v.push_back(Op{thr::kPropose, n, static_cast<uint64_t>(r.chance(100) ? r.range(50, 300) : r.range(0, 20)), id++});
      else if (c < 400) v.push_back(Op{thr::kConf, n, static_cast<uint64_t>(r.range(0, 31)), static_cast<uint64_t>(r.chance(200) ? 1 : r.chance(150) ? 2 : 0)});
      else if (c < 450) v.push_back(Op{thr::kRead, n, 0, id++});
      else if (c < 450 + 20 / calm) v.push_back(Op{thr::kTransfer, n, static_cast<uint64_t>(r.range(0, 3)), 0});
      else if (c < 470 + 20 / calm) v.push_back(Op{thr::kCampaign, n, 0, 0});
      else if (c < 490 + 20 / calm) v.push_back(Op{thr::kRestart, n, 0, 0});
      else if (c < 525) v.push_back(Op{thr::kReport, n, static_cast<uint64_t>(r.range(0, 3)), 0});
      else if (c < 600) v.push_back(Op{thr::kStatus, n, 0, 0});
      else if (c < 680 && local) v.push_back(Op{thr::kSnap, n, static_cast<uint64_t>(r.chance(600) ? 0 : r.range(0, 4)), 0});
      else if (c < 700 && local) v.push_back(Op{thr::kSread, n, static_cast<uint64_t>(r.range(0, 8)), 0});
      v.push_back(Op{thr::kReady, n, async, 0});
      if (async) {
        if (r.chance(400)) v.push_back(Op{thr::kRecv, n, static_cast<uint64_t>(r.range(1, 6)), gone ? 8u : 0u});
        if (r.chance(200)) v.push_back(Op{thr::kTick, n, 1, 0});
        v.push_back(Op{thr::kFinish, n, r.chance(600), 0});
      }
    }
    while (v.size() > 250) v.pop_back();
  };
  if (p.indep) {
    int k = static_cast<int>(r.range(2, 3));
    int first = 0;
    for (int t = 1; t <= k; t++) {
      int g = static_cast<int>(r.chance(300) ? 1 : r.chance(500) ? 2 : 3);
      p.groups.push_back(g);
      script(t, first, g, static_cast<int>(r.range(20, 200)), true, true);
      first += g;
    }
    return p;
  }
  int n = static_cast<int>(r.chance(150) ? 1 : r.chance(400) ? 2 : 3);
  p.groups.push_back(n);
  p.shared = r.chance(250);
  p.writers = r.chance(600) ? 1 : 0;
  int t = 1, len = static_cast<int>(r.range(30, 240));
  if (p.shared) {
    int k = static_cast<int>(r.range(2, 3));
    for (int i = 0; i < k; i++) script(t++, 0, n, len, i == 0, false);
  } else {
    for (int i = 0; i < n; i++) script(t++, i, 1, len, i == 0, r.chance(200));
  }
  if (p.writers) p.th[t++].push_back(Op{thr::kWriter, 0, 0, 0});
  if (t < kMaxT && r.chance(650)) {
    int k = static_cast<int>(r.range(3, len / 2));
    for (int i = 0; i < k; i++) p.th[t].push_back(Op{r.chance(600) ? thr::kSnap : thr::kSread, static_cast<uint64_t>(r.range(0, n - 1)), static_cast<uint64_t>(r.chance(600) ? 0 : r.range(0, 4)), 0});
    t++;
  }
  if (t < kMaxT && r.chance(500)) {
    int k = static_cast<int>(r.range(3, len / 3));
    for (int i = 0; i < k; i++) p.th[t].push_back(r.chance(700) ? Op{thr::kLook, 0, 0, 0} : Op{thr::kSread, static_cast<uint64_t>(r.range(0, n - 1)), static_cast<uint64_t>(r.range(0, 9)), 0});
    t++;
  }
  return p;
}

std::string write_plan(const Plan& p, const std::vector<Switch>& sw, const char* code, uint64_t hash, uint64_t seed) {
  std::ostringstream s;
  s << "thrsim 1\nseed " << seed << "\n";
  s << "cfg " << p.indep << " " << p.shared << " " << p.pointers << " " << p.writers << " " << p.election << " " << p.heartbeat << " " << p.prevote << " " << p.checkq << " " << p.lease << " " << p.fwd << " "
    << p.inflight << " " << p.maxsize << " " << p.maxcommit << " " << p.maxuncommitted << " " << p.level << " " << p.behind << "\n";
  s << "groups";
  for (int g : p.groups) s << " " << g;
  s << "\n";
  for (int t = 1; t < kMaxT; t++)
    for (auto& o : p.th[t]) s << "op " << t << " " << thr::kNames[o.kind] << " " << o.n << " " << o.a << " " << o.b << "\n";
  for (auto& x : sw) s << "sw " << x.from << " " << x.at << " " << x.to << "\n";
  s << "expect " << (code && *code ? code : "ok") << " " << std::hex << hash << std::dec << "\n";
  return s.str();
}

bool read_plan(const std::string& path, Plan* p, std::vector<Switch>* sw, std::string* code, uint64_t* hash, uint64_t* seed) {
  std::ifstream f(path);
  std::string line;
  bool head = false;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string tag;
    s >> tag;
    if (tag == "thrsim") head = true;
    else if (tag == "seed") s >> *seed;
    else if (tag == "cfg") {
      s >> p->indep >> p->shared >> p->pointers >> p->writers >> p->election >> p->heartbeat >> p->prevote >> p->checkq >> p->lease >> p->fwd >> p->inflight >> p->maxsize >> p->maxcommit >>
          p->maxuncommitted >> p->level >> p->behind;
    } else if (tag == "groups") {
      int g;
      while (s >> g) p->groups.push_back(g);
    } else if (tag == "op") {
      int t;
      std::string k;
      Op o;
      s >> t >> k >> o.n >> o.a >> o.b;
      for (int i = 0; i < thr::kKinds; i++)
        if (k == thr::kNames[i]) o.kind = i;
      if (t >= 1 && t < kMaxT) p->th[t].push_back(o);
    } else if (tag == "sw") {
      Switch x;
      s >> x.from >> x.at >> x.to;
      sw->push_back(x);
    } else if (tag == "expect") {
      s >> *code >> std::hex >> *hash;
    }
  }
  return head;
}

// ---------------------------------------------------------------- one run

void reset_slot(uint64_t seed) {
  slot->code[0] = slot->detail[0] = 0;
  slot->hash = slot->events = slot->switches = slot->sched_hash = slot->state_hash = 0;
  memset(slot->thash, 0, sizeof slot->thash);
  slot->nsw = 0;
  slot->seed = seed;
  slot->done = 0;
}

void fiber_main(int t) {
  W.cur = t;
  const auto& ops = S->plan->th[t];
  for (size_t i = 0; i < ops.size(); i++) {
    W.f[t].cur_op = static_cast<int>(i);
    {
      Busy b;
      W.busy = true;
      yield(kEdge, nullptr);
    }
    W.busy = false;
    thr::run_op(t, ops[i]);
    W.busy = true;
  }
  W.busy = false;
  thr::thread_done(t);
  W.busy = true;
  W.f[t].alive = false;
  W.f[t].events++;
  int to = choose_other(t, true);
  if (to < 0) {
    for (int i = 1; i < kMaxT; i++)
      if (W.f[i].alive) {
        violation("stuck", "%s waits for something that never happens", op_at(i, W.f[i].cur_op).c_str());
        break;
      }
    leave_run();
  }
  do_switch(to, nullptr);
  _exit(97);
}

// Runs the plan in this process.  The outcome is in *slot.
void run(const Plan& plan, uint64_t seed, const std::map<std::pair<int, uint32_t>, int>* replay, bool trace) {
  reset_slot(seed);
  Own own;
  Totals* tot = static_cast<Totals*>(W.cnt);
  own.tot = tot;
  own.plan = &plan;
  S = &own;
  for (int t = 0; t < kMaxT; t++) own.dev[t] = rt::hc(rt::hc(seed, 0xdec), t);
  W.on = false;
  W.cur = -1;
  W.busy = true;
  W.stop = false;
  W.unwatched = plan.only != 0;
  W.replay = replay;
  W.rng = rt::Rng(rt::hc(0xface, seed));
  W.events = W.stamp = 0;
  W.shash = 1;
  std::unordered_map<const void*, LockState> locks;
  std::unordered_map<const void*, VC> atoms;
  std::vector<void*> quarantine;
  W.locks = &locks, W.atoms = &atoms, W.quarantine = &quarantine;
  shadow_gen = ++*reinterpret_cast<uint32_t*>(&shadow[kShadow]);
  for (int i = 0; i < kMaxT; i++) {
    memset(&W.vc[i], 0, sizeof(VC));
    W.vc[i].c[i] = 1;
    W.f[i].alive = W.f[i].blocked = false;
    W.f[i].flag = nullptr;
    W.f[i].events = 0;
    W.f[i].cur_op = -1;
    tls_fresh(i);
  }
  static const uint64_t ps[] = {3, 30, 300, 2000, 10000};
  W.policy = W.rng.chance(150) ? 1 : W.rng.chance(350) ? 2 : 0;
  W.p = W.policy == 2 ? 100000000 : W.rng.pick(ps);
  W.p_lock = static_cast<uint64_t>(W.rng.range(1, 4));
  W.pct.clear();
  if (W.policy == 1) {
    static const int spans[] = {2000, 20000, 200000};
    int span = W.rng.pick(spans), d = static_cast<int>(W.rng.range(4, 40));
    for (int i = 0; i < d; i++) W.pct.push_back(W.rng.range(1, span));
  }
  W.on = true;
  W.cur = 0;
  W.busy = false;
  thr::setup(plan);
  W.busy = true;
  VC c0 = W.vc[0];
  W.vc[0].c[0]++;
  int nt = 0;
  for (int t = 1; t < kMaxT; t++) {
    W.vc[t].join(c0);
    if (plan.th[t].empty() || (plan.only && plan.only != t)) continue;
    nt++;
    Fiber& f = W.f[t];
    f.alive = true;
    f.prio = W.rng.next() % 2000;
    getcontext(&f.ctx);
    if (!f.stack) f.stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = kStack;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, reinterpret_cast<void (*)()>(fiber_main), 1, t);
  }
  if (nt && !slot->code[0]) {
    volatile bool started = false;
    getcontext(&W.main);
    if (!started) {
      started = true;
      int first = -1;
      if (replay) {
        auto it = replay->find({0, 0});
        if (it != replay->end() && it->second >= 1 && it->second < kMaxT && W.f[it->second].alive) first = it->second;
      } else {
        first = choose_other(0, true);
      }
      if (first < 0)
        for (int t = kMaxT - 1; t >= 1; t--)
          if (W.f[t].alive) first = t;
      slot->sw[slot->nsw++] = Switch{0, 0, first};
      W.cur = first;
      tls_switch(0, first);
      setcontext(&W.f[first].ctx);
    }
  }
  W.busy = true;
  if (!slot->code[0]) {
    // everything the threads did is before this
    W.stop = false;
    W.cur = 0;
    W.unwatched = true;
    for (int t = 1; t < kMaxT; t++) W.vc[0].join(W.vc[t]);
    thr::finish();
  }
  W.stop = true;
  W.on = false;
  W.cur = -1;
  uint64_t hh = 7;
  for (int t = 0; t < kMaxT; t++) hh = rt::hc(hh, slot->thash[t]);
  for (auto& x : own.applied) hh = rt::hc(hh, rt::hc(x.first.second, x.second.first));
  slot->hash = rt::hc(rt::hc(hh, W.events), rt::hs(std::string(slot->code)));
  slot->sched_hash = rt::hc(W.shash, hh);
  if (tot && !plan.only) {
    tot->runs++;
    tot->events += W.events;
    tot->switches += slot->switches;
    tot->policy[W.policy]++;
    tot->mode[plan.indep ? 0 : plan.shared ? 3 : plan.writers ? 2 : 1]++;
    for (int t = 1; t < kMaxT; t++)
      for (auto& o : plan.th[t]) tot->ops++, tot->kinds[o.kind]++;
  }
  if (trace) {
    for (int t = 1; t < kMaxT; t++)
      if (!plan.th[t].empty()) printf("# thread %d: %u of %zu calls, saw %llx\n", t, W.f[t].cur_op + 1, plan.th[t].size(), (unsigned long long)slot->thash[t]);
  }
  slot->done = 1;
}

void on_signal(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "signal";
  if (slot && W.on) violation("crash", "%s in %s", n, W.cur >= 0 ? op_at(W.cur, W.f[W.cur].cur_op).c_str() : "?");
  _exit(77);
}

void install() {
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

template <class T> T* shared(size_t n = 1) {
  return static_cast<T*>(mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

struct Out { std::string code, detail; uint64_t hash = 0, sched = 0; std::vector<Switch> sw; uint64_t events = 0; };

// One forked execution; the totals go to *t.
Out run_once(const Plan& p, uint64_t seed, const std::map<std::pair<int, uint32_t>, int>* m, bool trace, Totals* t) {
  fflush(stdout);
  reset_slot(seed);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(120);
    W.cnt = t;
    run(p, seed, m, trace);
    fflush(stdout);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  Out o;
  o.code = slot->code, o.detail = slot->detail, o.hash = slot->hash, o.events = slot->events, o.sched = slot->sched_hash;
  if (!slot->done && o.code.empty()) o.code = "crash", o.detail = "the process died";
  if (!slot->done) o.hash = rt::hc(rt::hs(o.code), slot->events);
  o.sw.assign(slot->sw, slot->sw + slot->nsw);
  return o;
}

// The run and, for threads with their own nodes, each of them alone.
Out run_all(const Plan& p, uint64_t seed, const std::vector<Switch>* sw, bool trace, Totals* tot) {
  static Totals* scratch = shared<Totals>();
  Totals* t = tot ? tot : scratch;
  std::map<std::pair<int, uint32_t>, int> m;
  if (sw)
    for (auto& x : *sw) m[{x.from, x.at}] = x.to;
  Out o = run_once(p, seed, sw ? &m : nullptr, trace, t);
  if (!o.code.empty() || !p.indep) return o;
  uint64_t th[kMaxT];
  memcpy(th, slot->thash, sizeof th);
  for (int i = 1; i < kMaxT && o.code.empty(); i++) {
    if (p.th[i].empty()) continue;
    Plan q = p;
    q.only = i;
    std::map<std::pair<int, uint32_t>, int> none;
    none[{0, 0}] = i;
    Out a = run_once(q, seed, &none, false, scratch);
    t->alone++;
    if (!a.code.empty()) {
      o.code = a.code, o.detail = "alone: " + a.detail;
    } else if (slot->thash[i] != th[i]) {
      o.code = "depends-on-other-threads";
      o.detail = "the nodes of thread " + std::to_string(i) + " behave differently when other threads use other nodes";
    }
    if (!o.code.empty()) o.hash = rt::hc(o.hash, rt::hs(o.code));
  }
  return o;
}

std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += static_cast<unsigned char>(c) < 32 ? ' ' : c;
  }
  return o;
}

int shrink(const std::string& in, const std::string& out, double secs) {
  Plan p;
  std::vector<Switch> sw;
  std::string code;
  uint64_t hash = 0, seed = 0;
  if (!read_plan(in, &p, &sw, &code, &hash, &seed)) return 2;
  double t0 = now();
  Out o = run_all(p, seed, &sw, false, nullptr);
  if (o.code.empty()) return 2;
  std::string want = o.code;
  int tests = 0;
  auto ok = [&](const Plan& q, const std::vector<Switch>& s) {
    tests++;
    return run_all(q, seed, &s, false, nullptr).code == want;
  };
  auto left = [&] { return now() - t0 < secs; };
  bool changed = true;
  while (changed && left()) {
    changed = false;
    for (int t = 1; t < kMaxT && left(); t++) {
      if (p.th[t].empty()) continue;
      Plan q = p;
      q.th[t].clear();
      if (p.th[t][0].kind == thr::kWriter) q.writers = 0;
      if (ok(q, sw)) p = q, changed = true;
    }
    for (size_t n = std::max<size_t>(1, sw.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i < sw.size() && left();) {
        auto s = sw;
        s.erase(s.begin() + i, s.begin() + std::min(s.size(), i + n));
        if (ok(p, s)) sw = s, changed = true;
        else i += n;
      }
      if (n == 1) break;
    }
    for (int t = 1; t < kMaxT; t++)
      for (size_t n = std::max<size_t>(1, p.th[t].size() / 2); n >= 1 && !p.th[t].empty(); n /= 2) {
        for (size_t i = p.th[t].size(); i > 0 && left();) {
          size_t k = std::min(n, i);
          Plan q = p;
          q.th[t].erase(q.th[t].begin() + (i - k), q.th[t].begin() + i);
          if (ok(q, sw)) p = q, changed = true;
          i -= k;
        }
        if (n == 1) break;
      }
  }
  Out fin = run_all(p, seed, &sw, false, nullptr);
  std::ofstream f(out);
  f << write_plan(p, sw, fin.code.c_str(), fin.hash, seed);
  size_t ops = 0;
  for (int t = 1; t < kMaxT; t++) ops += p.th[t].size();
  printf("{\"status\": \"shrunk\", \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%llx\", \"calls\": %zu, \"switches\": %zu, \"tests\": %d}\n", fin.code.c_str(), esc(fin.detail).c_str(),
         (unsigned long long)fin.hash, ops, sw.size(), tests);
  return 0;
}

std::string arg(int argc, char** argv, const char* k, const char* d) {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], k)) return argv[i + 1];
  return d;
}

uint64_t bits(uint32_t* b, uint64_t n) {
  uint64_t c = 0;
  for (uint64_t i = 0; i < n / 32; i++) c += __builtin_popcount(b[i]);
  return c;
}

int batch(int argc, char** argv) {
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  uint64_t runs = strtoull(arg(argc, argv, "--runs", "1000000000").c_str(), nullptr, 10);
  double secs = atof(arg(argc, argv, "--secs", "10").c_str());
  int workers = atoi(arg(argc, argv, "--workers", "8").c_str());
  Slot* slots = shared<Slot>(workers);
  Totals* tots = shared<Totals>(workers);
  struct Found { uint64_t seed; char code[32], detail[600]; };
  Found* found = shared<Found>(workers);
  int* stop = shared<int>();
  W.pairs = shared<uint32_t>(kPairBits / 32);
  sched_bits = shared<uint32_t>(kSchedBits / 32);
  double t0 = now();
  fflush(stdout);
  for (int w = 0; w < workers; w++) {
    if (fork()) continue;
    slot = &slots[w];
    shadow = shared<Shadow>(kShadow + 1);
    Totals& t = tots[w];
    for (uint64_t k = w; k < runs && !*stop && now() - t0 < secs; k += workers) {
      uint64_t s = seed + k;
      Plan p = generate(s);
      Out o = run_all(p, s, nullptr, false, &t);
      uint64_t b = o.sched % kSchedBits;
      __atomic_fetch_or(&sched_bits[b / 32], 1u << (b % 32), __ATOMIC_RELAXED);
      if (!o.code.empty()) {
        found[w].seed = s;
        snprintf(found[w].code, sizeof found[w].code, "%s", o.code.c_str());
        snprintf(found[w].detail, sizeof found[w].detail, "%s", o.detail.c_str());
        *stop = 1;
        break;
      }
      if (k / workers % 40 == 7) {
        Totals keep = t;
        Out again = run_all(p, s, nullptr, false, &t);
        t = keep;
        t.det++;
        if (again.hash != o.hash) t.det_bad++;
      }
    }
    _exit(0);
  }
  while (wait(nullptr) > 0) {
  }
  Totals T;
  memset(&T, 0, sizeof T);
  Found* best = nullptr;
  for (int w = 0; w < workers; w++) {
    uint64_t* a = reinterpret_cast<uint64_t*>(&T);
    uint64_t* b = reinterpret_cast<uint64_t*>(&tots[w]);
    for (size_t i = 0; i < sizeof(Totals) / 8; i++) a[i] += b[i];
    if (found[w].code[0] && (!best || found[w].seed < best->seed)) best = &found[w];
  }
#define U(x) (unsigned long long)(x)
  printf("{\"runs\": %llu, \"wall_s\": %.2f, \"calls\": %llu, \"events\": %llu, \"switches\": %llu, \"blocked\": %llu, \"alone\": %llu,\n", U(T.runs), now() - t0, U(T.ops), U(T.events), U(T.switches), U(T.blocked),
         U(T.alone));
  printf(" \"locks\": %llu, \"atomics\": %llu, \"reads\": %llu, \"writes\": %llu,\n", U(T.locks), U(T.atomics), U(T.reads), U(T.writes));
  printf(" \"distinct\": %llu, \"preemption_pairs\": %llu, \"det_checked\": %llu, \"det_bad\": %llu,\n", U(bits(sched_bits, kSchedBits)), U(bits(W.pairs, kPairBits)), U(T.det), U(T.det_bad));
  printf(" \"policies\": {\"random\": %llu, \"priorities\": %llu, \"locks_only\": %llu},\n", U(T.policy[0]), U(T.policy[1]), U(T.policy[2]));
  printf(" \"modes\": {\"every_thread_its_own_group\": %llu, \"one_thread_per_node\": %llu, \"one_thread_per_node_and_a_writer\": %llu, \"nodes_shared_under_a_lock\": %llu},\n", U(T.mode[0]), U(T.mode[1]), U(T.mode[2]),
         U(T.mode[3]));
  printf(" \"kinds\": {");
  for (int i = 0; i < thr::kKinds; i++) printf("%s\"%s\": %llu", i ? ", " : "", thr::kNames[i], U(T.kinds[i]));
  printf("},\n \"counts\": {");
  for (int i = 0; i < thr::kCounts; i++) printf("%s\"%s\": %llu", i ? ", " : "", thr::kCountNames[i], U(T.count[i]));
  printf("},\n \"violation\": ");
  if (best) printf("{\"seed\": %llu, \"code\": \"%s\", \"detail\": \"%s\"}}\n", U(best->seed), best->code, esc(best->detail).c_str());
  else printf("null}\n");
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  __libc_single_threaded = 0;
  slot = shared<Slot>();
  shadow = shared<Shadow>(kShadow + 1);
  dl_iterate_phdr(find_tls, nullptr);
  W.busy = true;
  thr::warm_up();
  install();
  std::string cmd = argc > 1 ? argv[1] : "";
  bool trace = false;
  for (int i = 0; i < argc; i++) trace |= !strcmp(argv[i], "--trace");
  if (cmd == "batch") return batch(argc, argv);
  auto show = [&](const Out& o, int same) {
    printf("{\"status\": \"%s\", \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%llx\", \"events\": %llu, \"switches\": %zu", o.code.empty() ? "ok" : "violation", o.code.c_str(), esc(o.detail).c_str(), U(o.hash), U(o.events),
           o.sw.size());
    if (same >= 0) printf(", \"same\": %s", same ? "true" : "false");
    printf("}\n");
  };
  if (cmd == "gen" || cmd == "one") {
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    Plan p = generate(seed);
    Out o = run_all(p, seed, nullptr, trace && cmd == "one", nullptr);
    if (cmd == "gen") fprintf(stdout, "%s", write_plan(p, o.sw, o.code.c_str(), o.hash, seed).c_str());
    else show(o, -1);
    return o.code.empty() ? 0 : 1;
  }
  if (cmd == "replay" && argc > 2) {
    Plan p;
    std::vector<Switch> sw;
    std::string code;
    uint64_t hash = 0, seed = 0;
    if (!read_plan(argv[2], &p, &sw, &code, &hash, &seed)) return 3;
    Out o = run_all(p, seed, &sw, trace, nullptr);
    bool same = (o.code.empty() ? "ok" : o.code) == code && o.hash == hash;
    show(o, same);
    return o.code.empty() ? 0 : same ? 1 : 2;
  }
  if (cmd == "shrink" && argc > 2) return shrink(argv[2], arg(argc, argv, "--out", "min.thr"), atof(arg(argc, argv, "--secs", "20").c_str()));
  fprintf(stderr, "usage: thrsim batch|one|gen|replay|shrink\n");
  return 3;
}
