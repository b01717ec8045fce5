// Deterministic simulation of threads over the real MemoryStorage.
//
// The storage code and the generated message code are compiled with
// -fsanitize=thread but linked against the callbacks below instead of the
// ThreadSanitizer runtime: every memory access, atomic operation and lock
// operation of the code under test becomes a point where the seeded scheduler
// may switch to another simulated thread (a ucontext fiber).  Nothing runs in
// parallel, so one seed is one exactly repeatable execution.
//
// Decided per run: linearizability of the results against a sequential model,
// data races (vector clocks over the simulated locks and atomics), use of
// freed memory, deadlock, aborts and crashes, and that nothing handed out or
// handed in changes afterwards.
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "rt.h"
#include "src/storage.h"

using craft::EntryPtrs;
using craft::SnapshotPtr;

namespace {

constexpr int kMaxT = 5;  // thread 0 is the set-up, 1..4 are the callers
constexpr int kStack = 256 * 1024;
constexpr uint64_t kMaxEvents = 400000;

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- plan

enum Kind { kInitialState, kSetHardState, kEntries, kTerm, kLastIndex, kFirstIndex, kSnapShot, kApplySnapshot, kCreateSnapshot, kCompact, kAppend, kKinds };
const char* const kNames[] = {"InitialState", "SetHardState", "Entries", "Term", "LastIndex", "FirstIndex", "SnapShot", "ApplySnapshot", "CreateSnapshot", "Compact", "Append"};

struct Op {
  int kind = 0;
  uint64_t a = 0, b = 0, c = 0, d = 0;
};

struct Plan {
  std::vector<Op> init;
  std::vector<Op> th[kMaxT];
};

// ---------------------------------------------------------------- values

std::string payload(uint64_t id) {
  std::string s = "v" + std::to_string(id) + ":";
  s.append((id * 7) % 41, static_cast<char>('a' + id % 26));
  return s;
}
std::shared_ptr<raftpb::Entry> make_entry(uint64_t index, uint64_t term, uint64_t id) {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(index);
  e->set_term(term);
  e->set_data(payload(id));
  return e;
}
raftpb::ConfState make_conf(uint64_t id) {
  raftpb::ConfState cs;
  if (id == 0) return cs;
  for (uint64_t i = 0; i < 1 + id % 4; i++) cs.add_voters(id * 10 + i);
  for (uint64_t i = 0; i < id % 3; i++) cs.add_learners(id * 10 + 5 + i);
  if (id % 2) cs.add_voters_outgoing(id * 10);
  return cs;
}
uint64_t hash_conf(const raftpb::ConfState& cs) {
  uint64_t h = 11;
  for (auto v : cs.voters()) h = rt::hc(h, v);
  h = rt::hc(h, 77);
  for (auto v : cs.learners()) h = rt::hc(h, v);
  h = rt::hc(h, 78);
  for (auto v : cs.voters_outgoing()) h = rt::hc(h, v);
  h = rt::hc(h, 79);
  for (auto v : cs.learners_next()) h = rt::hc(h, v);
  return rt::hc(h, cs.auto_leave());
}
uint64_t hash_entry(const raftpb::Entry& e) { return rt::hc(rt::hc(rt::hs(e.data()), e.index()), rt::hc(e.term(), e.type())); }
uint64_t hash_snap(const raftpb::Snapshot& s) {
  return rt::hc(rt::hc(rt::hs(s.data()), s.metadata().index()), rt::hc(s.metadata().term(), hash_conf(s.metadata().conf_state())));
}
uint64_t hash_hs(const raftpb::HardState& h) { return rt::hc(rt::hc(rt::hc(5, h.term()), h.vote()), h.commit()); }

// What an operation returned.  err: 0 ok, 1 compacted, 2 out of date, 3
// unavailable, 4 fatal log, 9 anything else.
struct Res {
  int err = 0;
  uint64_t v = 0;   // number, or hash of the returned object
  uint64_t n = 0;   // entries returned
  bool operator==(const Res& o) const { return err == o.err && v == o.v && n == o.n; }
};
int err_of(const craft::Status& s) {
  if (s.IsOK()) return 0;
  if (!strcmp(s.Str(), craft::kErrCompacted)) return 1;
  if (!strcmp(s.Str(), craft::kErrSnapOutOfDate)) return 2;
  if (!strcmp(s.Str(), craft::kErrUnavailable)) return 3;
  return 9;
}
const char* const kErrNames[] = {"ok", "compacted", "out-of-date", "unavailable", "FATAL", "", "", "", "", "other-error"};

// ---------------------------------------------------------------- sequential model

struct MEnt { uint64_t term = 0, id = 0; bool dummy = false; };
struct Model {
  uint64_t off = 0;          // index of the entry before the first one
  std::vector<MEnt> e{MEnt{0, 0, true}};
  uint64_t si = 0, st = 0, sc = 0, sd = 0;  // snapshot index, term, conf, data (0 = empty)
  uint64_t ht = 0, hv = 0, hcm = 0;
  uint64_t last() const { return off + e.size() - 1; }
  uint64_t hash() const {
    uint64_t h = rt::hc(1, off);
    for (auto& x : e) h = rt::hc(h, rt::hc(x.term, x.id));
    h = rt::hc(h, si), h = rt::hc(h, st), h = rt::hc(h, sc), h = rt::hc(h, sd);
    return rt::hc(rt::hc(rt::hc(h, ht), hv), hcm);
  }
  uint64_t snap_hash() const {
    return rt::hc(rt::hc(rt::hs(sd ? payload(sd) : std::string()), si), rt::hc(st, hash_conf(make_conf(sc))));
  }
  Res apply(const Op& o) {
    Res r;
    switch (o.kind) {
      case kInitialState: {
        raftpb::HardState h;
        h.set_term(ht), h.set_vote(hv), h.set_commit(hcm);
        r.v = rt::hc(hash_hs(h), hash_conf(make_conf(sc)));
        break;
      }
      case kSetHardState: ht = o.a, hv = o.b, hcm = o.c; break;
      case kEntries: {
        if (o.a <= off) { r.err = 1; break; }
        if (o.b > last() + 1) { r.err = 4; break; }
        if (e.size() == 1) { r.err = 3; break; }
        uint64_t h = 3, size = 0;
        for (uint64_t i = o.a; i < o.b; i++) {
          auto x = make_entry(i, e[i - off].term, e[i - off].id);
          size += x->ByteSizeLong();
          if (i != o.a && size > o.c) break;
          h = rt::hc(h, hash_entry(*x));
          r.n++;
        }
        r.v = h;
        break;
      }
      case kTerm:
        if (o.a < off) r.err = 1;
        else if (o.a > last()) r.err = 3;
        else r.v = e[o.a - off].term;
        break;
      case kLastIndex: r.v = last(); break;
      case kFirstIndex: r.v = off + 1; break;
      case kSnapShot: r.v = snap_hash(); break;
      case kApplySnapshot:
        if (si >= o.a) { r.err = 2; break; }
        si = o.a, st = o.b, sc = o.c, sd = o.d;
        off = si;
        e.assign(1, MEnt{st, 0, true});
        break;
      case kCreateSnapshot:
        if (o.a <= si) { r.err = 2; break; }
        if (o.a > last()) { r.err = 4; break; }
        si = o.a, st = e[o.a - off].term;
        if (o.b) sc = o.b;
        sd = o.d;
        r.v = snap_hash();
        break;
      case kCompact:
        if (o.a <= off) { r.err = 1; break; }
        if (o.a > last()) { r.err = 4; break; }
        e.erase(e.begin(), e.begin() + (o.a - off));
        e[0].dummy = true;
        off = o.a;
        break;
      case kAppend: {
        uint64_t n = o.b;
        if (n == 0) break;
        uint64_t lo = o.a, hi = o.a + n;  // [lo, hi)
        if (hi - 1 < off + 1) break;
        uint64_t from = std::max(lo, off + 1);
        if (from > last() + 1) { r.err = 4; break; }
        e.resize(from - off);
        for (uint64_t i = from; i < hi; i++) e.push_back(MEnt{o.c, o.d + (i - lo), false});
        break;
      }
    }
    return r;
  }
  // The calls whose behaviour the storage does not define are never made.
  bool legal(const Op& o) const {
    if (o.kind == kCreateSnapshot && o.a > si && o.a < off) return false;
    return true;
  }
};

}  // namespace

#include "fibers.h"

namespace {

struct Totals : Counts {
  uint64_t runs, ops, events, switches, fatals, lin_nodes, held, det, det_bad, crossed;
  uint64_t kinds[kKinds];
  uint64_t errs[10];
  uint64_t policy[4];
  uint64_t next_seed;
};

struct Hist { int thread; int idx; uint64_t call, ret; bool returned; Res res; };

struct Held { EntryPtrs ents; SnapshotPtr snap; uint64_t h; std::string what; };


struct Own {
  const Plan* plan = nullptr;
  craft::MemoryStorage* st = nullptr;
  std::vector<Hist>* hist = nullptr;
  std::vector<Held>* held = nullptr;
  bool fatal = false;
  Totals* tot = nullptr;
};
Own S;

std::string op_str(const Op& o);

std::string op_at(int t, int i) {
  if (t == 0) return "set-up";
  if (i < 0 || i >= static_cast<int>(S.plan->th[t].size())) return "T" + std::to_string(t);
  return "T" + std::to_string(t) + " " + op_str(S.plan->th[t][i]);
}

std::string place_of(uintptr_t a) {
  uintptr_t s = reinterpret_cast<uintptr_t>(S.st);
  return a >= s && a < s + sizeof(*S.st) ? "storage+" + std::to_string(a - s) : "heap";
}
int kind_of(int t) { return W.f[t].cur_op >= 0 && W.f[t].cur_op < static_cast<int>(S.plan->th[t].size()) ? S.plan->th[t][W.f[t].cur_op].kind : kKinds; }
void switching(int, int) {}

// ---------------------------------------------------------------- operations

std::string op_str(const Op& o) {
  std::ostringstream s;
  s << kNames[o.kind] << "(";
  switch (o.kind) {
    case kSetHardState: s << "term " << o.a << ", vote " << o.b << ", commit " << o.c; break;
    case kEntries: s << o.a << ", " << o.b << ", max " << o.c; break;
    case kTerm: case kCompact: s << o.a; break;
    case kApplySnapshot: s << "index " << o.a << ", term " << o.b; break;
    case kCreateSnapshot: s << o.a << ", " << (o.b ? "conf " + std::to_string(o.b) : std::string("no conf")); break;
    case kAppend: s << o.a << ".." << o.a + o.b - 1 << ", term " << o.c; break;
    default: break;
  }
  s << ")";
  return s.str();
}

struct FatalLogger : craft::Logger {
  FatalLogger() : craft::Logger(craft::LogLevel::kDebug) {}
  void Log(craft::LogLevel level, const char* fmt, ...) override {
    va_list ap;
    va_start(ap, fmt);
    Logv(level, fmt, ap);
    va_end(ap);
  }
  void Logv(craft::LogLevel level, const char*, va_list) override;
};

std::vector<int>* open_hist;  // per thread: index in hist of the running call

void FatalLogger::Logv(craft::LogLevel level, const char*, va_list) {
  if (level != craft::LogLevel::kFatal) return;
  // The process would end here: the call's outcome is FATAL and the run is over.
  if (W.on && W.cur >= 1) {
    Busy b;
    Hist& h = (*S.hist)[(*open_hist)[W.cur]];
    h.ret = ++W.stamp;
    h.returned = true;
    h.res = Res{4, 0, 0};
    S.fatal = true;
    leave_run();
  }
  violation("fatal", "the set-up hits a fatal log");
  _exit(77);
}

uint64_t hash_list(const EntryPtrs& es) {
  uint64_t h = 3;
  for (auto& e : es) h = rt::hc(h, e ? hash_entry(*e) : 99);
  return h;
}

void hold(const EntryPtrs& es, const std::string& what) {
  Busy b;
  S.held->push_back(Held{es, nullptr, hash_list(es), what});
}
void hold(const SnapshotPtr& s, const std::string& what) {
  if (!s) return;
  Busy b;
  S.held->push_back(Held{{}, s, hash_snap(*s), what});
}

// Everything a call needs is built outside of it, and what it returns is kept
// until the run is over, so nothing but the storage's own work is simulated.
Res execute(const Op& o, int t) {
  Res r;
  auto& st = *S.st;
  std::string name;
  {
    Busy b;
    name = "T" + std::to_string(t) + " " + op_str(o);
  }
  switch (o.kind) {
    case kInitialState: {
      auto* out = [&] { Busy b; return new std::tuple<raftpb::HardState, raftpb::ConfState, craft::Status>; }();
      *out = st.InitialState();
      Busy b;
      r.err = err_of(std::get<2>(*out));
      r.v = rt::hc(hash_hs(std::get<0>(*out)), hash_conf(std::get<1>(*out)));
      break;
    }
    case kSetHardState: {
      raftpb::HardState* h;
      {
        Busy b;
        h = new raftpb::HardState;
        h->set_term(o.a), h->set_vote(o.b), h->set_commit(o.c);
      }
      auto s = st.SetHardState(*h);
      Busy b;
      r.err = err_of(s);
      break;
    }
    case kEntries: {
      auto x = st.Entries(o.a, o.b, o.c);
      Busy b;
      r.err = err_of(std::get<1>(x));
      if (!r.err) {
        r.n = std::get<0>(x).size();
        r.v = hash_list(std::get<0>(x));
      }
      hold(std::get<0>(x), "the entries returned by " + name);
      std::get<0>(x).clear();
      break;
    }
    case kTerm: {
      auto x = st.Term(o.a);
      Busy b;
      r.err = err_of(std::get<1>(x));
      if (!r.err) r.v = std::get<0>(x);
      break;
    }
    case kLastIndex: {
      auto x = st.LastIndex();
      Busy b;
      r.err = err_of(std::get<1>(x));
      r.v = std::get<0>(x);
      break;
    }
    case kFirstIndex: {
      auto x = st.FirstIndex();
      Busy b;
      r.err = err_of(std::get<1>(x));
      r.v = std::get<0>(x);
      break;
    }
    case kSnapShot: {
      auto x = st.SnapShot();
      Busy b;
      r.err = err_of(std::get<1>(x));
      r.v = std::get<0>(x) ? hash_snap(*std::get<0>(x)) : 98;
      hold(std::get<0>(x), "the snapshot returned by " + name);
      break;
    }
    case kApplySnapshot: {
      SnapshotPtr s;
      {
        Busy b;
        s = std::make_shared<raftpb::Snapshot>();
        s->mutable_metadata()->set_index(o.a);
        s->mutable_metadata()->set_term(o.b);
        *s->mutable_metadata()->mutable_conf_state() = make_conf(o.c);
        s->set_data(payload(o.d));
        hold(s, "the snapshot given to " + name);
      }
      auto x = st.ApplySnapshot(s);
      Busy b;
      r.err = err_of(x);
      s.reset();
      break;
    }
    case kCreateSnapshot: {
      raftpb::ConfState* cs = nullptr;
      std::string* data;
      {
        Busy b;
        if (o.b) cs = new raftpb::ConfState(make_conf(o.b));
        data = new std::string(payload(o.d));
      }
      auto x = st.CreateSnapshot(o.a, cs, *data);
      Busy b;
      r.err = err_of(std::get<1>(x));
      if (!r.err) r.v = std::get<0>(x) ? hash_snap(*std::get<0>(x)) : 98;
      hold(std::get<0>(x), "the snapshot returned by " + name);
      break;
    }
    case kCompact: {
      auto x = st.Compact(o.a);
      Busy b;
      r.err = err_of(x);
      break;
    }
    case kAppend: {
      EntryPtrs* es;
      {
        Busy b;
        es = new EntryPtrs;
        for (uint64_t i = 0; i < o.b; i++) es->push_back(make_entry(o.a + i, o.c, o.d + i));
        hold(*es, "the entries given to " + name);
      }
      auto x = st.Append(*es);
      Busy b;
      r.err = err_of(x);
      break;
    }
  }
  return r;
}

void fiber_main(int t) {
  W.busy = false;
  W.cur = t;
  const auto& ops = S.plan->th[t];
  for (size_t i = 0; i < ops.size(); i++) {
    W.f[t].cur_op = static_cast<int>(i);
    {
      Busy b;
      yield(kEdge, nullptr);
      S.hist->push_back(Hist{t, static_cast<int>(i), ++W.stamp, 0, false, {}});
      (*open_hist)[t] = static_cast<int>(S.hist->size()) - 1;
    }
    Res r = execute(ops[i], t);
    {
      Busy b;
      Hist& h = (*S.hist)[(*open_hist)[t]];
      h.ret = ++W.stamp;
      h.returned = true;
      h.res = r;
      yield(kEdge, nullptr);
    }
  }
  W.busy = true;
  W.f[t].alive = false;
  W.f[t].events++;
  int to = choose_other(t, true);
  if (to < 0) {
    for (int i = 1; i < kMaxT; i++)
      if (W.f[i].alive) violation("stuck", "%s waits for a lock nobody will release", op_at(i, W.f[i].cur_op).c_str());
    leave_run();
  }
  do_switch(to, nullptr);
  _exit(97);
}

// ---------------------------------------------------------------- linearizability

struct Lin {
  const std::vector<Hist>& h;
  std::set<std::pair<uint64_t, uint64_t>> seen;
  uint64_t nodes = 0;
  uint64_t must = 0;
  explicit Lin(const std::vector<Hist>& hh) : h(hh) {
    for (size_t i = 0; i < h.size(); i++)
      if (h[i].returned) must |= 1ull << i;
  }
  bool search(uint64_t done, const Model& m) {
    if ((done & must) == must) return true;
    if (!seen.insert({done, m.hash()}).second) return false;
    nodes++;
    uint64_t bound = UINT64_MAX;
    for (size_t i = 0; i < h.size(); i++)
      if (!(done >> i & 1) && h[i].returned) bound = std::min(bound, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].call > bound) continue;
      const Op& o = S.plan->th[h[i].thread][h[i].idx];
      Model n = m;
      if (!n.legal(o)) return true;  // outside of what the storage defines
      Res r = n.apply(o);
      if (h[i].returned) {
        if (!(r == h[i].res)) continue;
      } else if (r.err == 4) {
        continue;  // would have ended the run
      }
      if (r.err == 4) {
        // the process ends with this call: everything returned must be done
        if (((done | 1ull << i) & must) == must) return true;
        continue;
      }
      if (search(done | 1ull << i, n)) return true;
    }
    return false;
  }
};

// ---------------------------------------------------------------- generation

Plan generate(uint64_t seed) {
  rt::Rng r(rt::hc(0x570a6e, seed));
  Plan p;
  uint64_t id = 1, conf = 1, term = r.range(1, 3);
  Model m;
  auto init = [&](Op o) { m.apply(o); p.init.push_back(o); };
  uint64_t base = 0;
  if (r.chance(60)) base = 1ull << 40;
  if (r.chance(400) || base) {
    uint64_t i = base ? base : r.range(1, 6);
    init(Op{kApplySnapshot, i, term, conf++, id++});
  }
  if (r.chance(850)) {
    uint64_t n = r.range(1, 7);
    init(Op{kAppend, m.last() + 1, n, term, id});
    id += n;
  }
  if (r.chance(300) && m.last() > m.si) init(Op{kCreateSnapshot, static_cast<uint64_t>(r.range(m.si + 1, m.last())), r.chance(700) ? conf++ : 0, 0, id++});
  if (r.chance(300) && m.si > m.off) init(Op{kCompact, static_cast<uint64_t>(r.range(m.off + 1, m.si)), 0, 0, 0});
  if (r.chance(500)) init(Op{kSetHardState, term, static_cast<uint64_t>(r.range(0, 3)), m.last(), 0});
  int nt = static_cast<int>(r.range(2, 4));
  int shape = static_cast<int>(r.range(0, 3));  // 0: one writer + readers, 1: two writers, 2: anything, 3: snapshot-heavy
  int len = static_cast<int>(r.range(1, 5));
  for (int t = 1; t <= nt; t++) {
    bool writer = shape == 0 ? t == 1 : shape == 1 ? t <= 2 : shape == 2 ? r.chance(500) : t <= 2;
    int n = static_cast<int>(r.range(1, len));
    uint64_t tm = term, known_snap = m.si, last = m.last(), off = m.off;
    for (int i = 0; i < n; i++) {
      Op o;
      int k;
      if (writer) {
        static const int wk[] = {kAppend, kAppend, kAppend, kCompact, kCreateSnapshot, kApplySnapshot, kSetHardState, kTerm, kEntries};
        static const int ws[] = {kCreateSnapshot, kCreateSnapshot, kApplySnapshot, kCompact, kAppend, kCompact, kSetHardState, kSnapShot};
        k = shape == 3 ? r.pick(ws) : r.pick(wk);
        if (shape == 2 && r.chance(300)) k = static_cast<int>(r.range(0, kKinds - 1));
      } else {
        static const int rk[] = {kInitialState, kEntries, kEntries, kEntries, kTerm, kTerm, kLastIndex, kFirstIndex, kSnapShot, kSnapShot};
        k = r.pick(rk);
      }
      o.kind = k;
      switch (k) {
        case kSetHardState:
          o.a = tm + r.range(0, 2), o.b = r.range(1, 4), o.c = r.range(m.off, last);
          break;
        case kEntries: {
          o.a = r.range(off > 1 ? off - 1 : 0, last);
          if (o.a <= off && r.chance(700)) o.a = off + 1;
          uint64_t top = std::max(last + 1, o.a);
          if (!writer && r.chance(120)) top += r.range(0, 2);
          o.b = r.chance(500) ? top : r.range(o.a, top);
          o.c = r.chance(300) ? r.range(0, 120) : UINT64_MAX;
          break;
        }
        case kTerm: o.a = r.range(off > 1 ? off - 1 : 0, last + 3); break;
        case kApplySnapshot:
          o.a = r.range(off ? off : 1, last + 3), o.b = tm, o.c = conf++, o.d = id++;
          known_snap = std::max(known_snap, o.a);
          if (writer) off = std::max(off, o.a), last = std::max(o.a, off);
          break;
        case kCreateSnapshot:
          o.a = r.range(std::min(known_snap + (r.chance(850) ? 1 : 0), last), last), o.b = r.chance(600) ? conf++ : 0, o.d = id++;
          if (o.a == 0) o.a = 1;
          known_snap = std::max(known_snap, o.a);
          break;
        case kCompact:
          // compaction never goes beyond a snapshot this caller knows of
          if (known_snap == 0) { o.kind = kLastIndex; break; }
          o.a = r.range(off < known_snap ? off + (r.chance(800) ? 1 : 0) : known_snap, known_snap);
          if (o.a > off) off = o.a;
          break;
        case kAppend: {
          if (r.chance(150)) tm++;
          uint64_t lo = last > off && r.chance(450) ? r.range(off > 1 && r.chance(300) ? off - 1 : off + 1, last) : last + 1;
          if (lo == 0) lo = 1;
          o.a = lo, o.b = r.range(1, 5), o.c = tm, o.d = id;
          id += o.b;
          last = std::max(o.a + o.b - 1, off);
          break;
        }
        default: break;
      }
      p.th[t].push_back(o);
    }
  }
  return p;
}

std::string write_plan(const Plan& p, const std::vector<Switch>& sw, const char* code, uint64_t hash, uint64_t seed) {
  std::ostringstream s;
  s << "storsim 1\n";
  s << "seed " << seed << "\n";
  auto put = [&](const char* tag, int t, const Op& o) { s << tag << " " << t << " " << kNames[o.kind] << " " << o.a << " " << o.b << " " << o.c << " " << o.d << "\n"; };
  for (auto& o : p.init) put("init", 0, o);
  for (int t = 1; t < kMaxT; t++)
    for (auto& o : p.th[t]) put("op", t, o);
  for (auto& x : sw) s << "sw " << x.from << " " << x.at << " " << x.to << "\n";
  s << "expect " << (code && *code ? code : "ok") << " " << std::hex << hash << std::dec << "\n";
  return s.str();
}

bool read_plan(const std::string& path, Plan* p, std::vector<Switch>* sw, std::string* code, uint64_t* hash, uint64_t* seed) {
  std::ifstream f(path);
  std::string line;
  bool head = false;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string tag;
    s >> tag;
    if (tag == "storsim") head = true;
    else if (tag == "seed") s >> *seed;
    else if (tag == "init" || tag == "op") {
      int t;
      std::string k;
      Op o;
      s >> t >> k >> o.a >> o.b >> o.c >> o.d;
      for (int i = 0; i < kKinds; i++)
        if (k == kNames[i]) o.kind = i;
      if (tag == "init") p->init.push_back(o);
      else if (t >= 1 && t < kMaxT) p->th[t].push_back(o);
    } else if (tag == "sw") {
      Switch x;
      s >> x.from >> x.at >> x.to;
      sw->push_back(x);
    } else if (tag == "expect") {
      s >> *code >> std::hex >> *hash;
    }
  }
  return head;
}

// ---------------------------------------------------------------- one run

std::shared_ptr<craft::Logger> logger;

void reset_slot(uint64_t seed) {
  slot->code[0] = slot->detail[0] = 0;
  slot->hash = slot->events = slot->switches = slot->sched_hash = slot->state_hash = 0;
  slot->nsw = 0;
  slot->seed = seed;
  slot->done = 0;
}

// Runs the plan in this process.  The outcome is in *slot.
void run(const Plan& plan, uint64_t seed, const std::map<std::pair<int, uint32_t>, int>* replay, bool trace) {
  reset_slot(seed);
  W.on = false;
  W.cur = -1;
  W.busy = true;
  W.stop = S.fatal = false;
  S.plan = &plan;
  W.replay = replay;
  W.rng = rt::Rng(rt::hc(0xface, seed));
  W.events = W.stamp = 0;
  W.shash = 1;
  std::unordered_map<const void*, LockState> locks;
  std::unordered_map<const void*, VC> atoms;
  std::vector<void*> quarantine;
  std::vector<Hist> hist;
  std::vector<Held> held;
  std::vector<int> oh(kMaxT, -1);
  W.locks = &locks, W.atoms = &atoms, W.quarantine = &quarantine, S.hist = &hist, S.held = &held;
  open_hist = &oh;
  hist.reserve(64);
  shadow_gen++;
  for (int i = 0; i < kMaxT; i++) {
    memset(&W.vc[i], 0, sizeof(VC));
    W.vc[i].c[i] = 1;
    W.f[i].alive = W.f[i].blocked = false;
    W.f[i].events = 0;
    W.f[i].cur_op = -1;
  }
  int nt = 0;
  static const uint64_t ps[] = {2, 5, 20, 80, 300};
  W.policy = W.rng.chance(250) ? 1 : W.rng.chance(250) ? 2 : 0;
  W.p = W.policy == 2 ? 100000 : W.rng.pick(ps);
  W.p_lock = W.policy == 2 ? 2 : static_cast<uint64_t>(W.rng.range(1, 4));
  W.pct.clear();
  if (W.policy == 1) {
    static const int spans[] = {60, 300, 1500, 5000};
    int span = W.rng.pick(spans), d = static_cast<int>(W.rng.range(1, 5));
    for (int i = 0; i < d; i++) W.pct.push_back(W.rng.range(1, span));
  }
  if (S.tot) S.tot->policy[W.policy]++;
  // set-up: run under the simulator as thread 0, without preemption
  char* mem = static_cast<char*>(malloc(sizeof(craft::MemoryStorage) + 64));
  W.on = true;
  W.cur = 0;
  W.busy = false;
  S.st = new (mem) craft::MemoryStorage(logger);
  Model m;
  for (auto& o : plan.init) {
    Res got = execute(o, 0);
    Res want = m.apply(o);
    if (!(got == want)) violation("not-linearizable", "set-up: %s returned %s/%llu instead of %s/%llu", op_str(o).c_str(), kErrNames[got.err], (unsigned long long)got.v, kErrNames[want.err], (unsigned long long)want.v);
  }
  W.busy = true;
  VC c0 = W.vc[0];
  W.vc[0].c[0]++;
  for (int t = 1; t < kMaxT; t++) {
    W.vc[t].join(c0);
    if (plan.th[t].empty()) continue;
    nt++;
    Fiber& f = W.f[t];
    f.alive = true;
    f.prio = W.rng.next() % 2000;
    getcontext(&f.ctx);
    if (!f.stack) f.stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = kStack;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, reinterpret_cast<void (*)()>(fiber_main), 1, t);
  }
  if (nt && !slot->code[0]) {
    volatile bool started = false;
    getcontext(&W.main);
    if (!started) {
      started = true;
      int first = -1;
      if (replay) {
        auto it = replay->find({0, 0});
        if (it != replay->end() && it->second >= 1 && it->second < kMaxT && W.f[it->second].alive) first = it->second;
      } else {
        first = choose_other(0, true);
      }
      if (first < 0)
        for (int t = kMaxT - 1; t >= 1; t--)
          if (W.f[t].alive) first = t;
      slot->sw[slot->nsw++] = Switch{0, 0, first};
      W.cur = first;
      setcontext(&W.f[first].ctx);
    }
  }
  W.stop = true;
  W.on = false;
  W.cur = -1;
  W.busy = true;
  // ---- checks over the whole history
  uint64_t hh = 7;
  for (auto& x : hist) hh = rt::hc(rt::hc(rt::hc(hh, x.thread * 64 + x.idx), x.call * 1000003 + x.ret), rt::hc(x.res.v, x.res.err * 100 + x.res.n));
  slot->hash = rt::hc(hh, rt::hs(std::string(slot->code)));
  if (!slot->code[0]) {
    for (auto& x : held) {
      uint64_t h = x.snap ? hash_snap(*x.snap) : hash_list(x.ents);
      if (h != x.h) {
        violation("result-changed", "%s changed afterwards", x.what.c_str());
        break;
      }
    }
  }
  if (!slot->code[0]) {
    Lin l(hist);
    bool ok = l.search(0, m);
    if (S.tot) S.tot->lin_nodes += l.nodes;
    if (!ok) {
      std::ostringstream s;
      s << "no order of these calls explains their results:";
      for (auto& x : hist) {
        s << " [T" << x.thread << " " << x.call << "-" << (x.returned ? std::to_string(x.ret) : "?") << " " << op_str(plan.th[x.thread][x.idx]) << " -> "
          << (x.returned ? kErrNames[x.res.err] : "running");
        int k = plan.th[x.thread][x.idx].kind;
        if (x.returned && !x.res.err) {
          if (k == kTerm || k == kLastIndex || k == kFirstIndex) s << " " << x.res.v;
          if (k == kEntries) s << " " << x.res.n << " entries";
        }
        s << "]";
      }
      violation("not-linearizable", "%s", s.str().c_str());
    }
  }
  slot->hash = rt::hc(hh, rt::hs(std::string(slot->code)));
  slot->sched_hash = rt::hc(W.shash, hh);
  if (S.tot) {
    S.tot->runs++;
    S.tot->events += W.events;
    S.tot->switches += slot->switches;
    S.tot->held += held.size();
    S.tot->fatals += S.fatal;
    for (size_t i = 0; i < hist.size(); i++) {
      S.tot->ops++;
      S.tot->kinds[plan.th[hist[i].thread][hist[i].idx].kind]++;
      if (hist[i].returned) S.tot->errs[hist[i].res.err]++;
      for (size_t j = 0; j < i; j++)
        if (hist[j].thread != hist[i].thread && (!hist[j].returned || hist[j].ret > hist[i].call)) S.tot->crossed++;
    }
  }
  if (trace) {
    for (auto& x : hist)
      printf("# T%d %s: called %llu, %s %llu: %s value %llx n %llu\n", x.thread, op_str(plan.th[x.thread][x.idx]).c_str(), (unsigned long long)x.call, x.returned ? "returned" : "running",
             (unsigned long long)x.ret, kErrNames[x.res.err], (unsigned long long)x.res.v, (unsigned long long)x.res.n);
  }
  held.clear();
  if (!slot->code[0] && !S.fatal) S.st->~MemoryStorage(), free(mem);
  S.st = nullptr;
  for (void* q : quarantine) free(q);
  slot->done = 1;
}

void on_signal(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "signal";
  if (slot && W.on) violation("crash", "%s in %s", n, W.cur >= 0 ? op_at(W.cur, W.f[W.cur].cur_op).c_str() : "?");
  _exit(77);
}

void install() {
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

template <class T> T* shared(size_t n = 1) {
  return static_cast<T*>(mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}

struct Out { std::string code, detail; uint64_t hash = 0; std::vector<Switch> sw; uint64_t events = 0; };

Out run_forked(const Plan& p, uint64_t seed, const std::vector<Switch>* sw, bool trace = false) {
  std::map<std::pair<int, uint32_t>, int> m;
  if (sw)
    for (auto& x : *sw) m[{x.from, x.at}] = x.to;
  fflush(stdout);
  reset_slot(seed);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(60);
    static Totals t;
    W.cnt = S.tot = &t;
    run(p, seed, sw ? &m : nullptr, trace);
    fflush(stdout);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  Out o;
  o.code = slot->code, o.detail = slot->detail, o.hash = slot->hash, o.events = slot->events;
  if (!slot->done && o.code.empty()) o.code = "crash", o.detail = "the process died";
  if (!slot->done) o.hash = rt::hc(rt::hs(o.code), slot->events);
  o.sw.assign(slot->sw, slot->sw + slot->nsw);
  return o;
}

std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += static_cast<unsigned char>(c) < 32 ? ' ' : c;
  }
  return o;
}

void warm_up() {
  // one-time initialisation inside the libraries must not happen in a fiber
  Plan p = generate(3);
  for (uint64_t s = 1; s < 30; s++) {
    Plan q = generate(s);
    craft::MemoryStorage st(logger);
    S.st = &st;
    std::vector<Held> held;
    S.held = &held;
    for (auto& o : q.init) execute(o, 0);
    st.InitialState();
    st.LastIndex();
    st.SnapShot();
    st.Term(0);
  }
  S.st = nullptr;
  auto s = craft::Status::Error("%s", "x");
  craft::Status t = s;
  (void)t;
}

int shrink(const std::string& in, const std::string& out, double secs) {
  Plan p;
  std::vector<Switch> sw;
  std::string code;
  uint64_t hash = 0, seed = 0;
  if (!read_plan(in, &p, &sw, &code, &hash, &seed)) return 2;
  double t0 = now();
  Out o = run_forked(p, seed, &sw);
  if (o.code.empty()) return 2;
  std::string want = o.code;
  auto ok = [&](const Plan& q, const std::vector<Switch>& s) {
    Out x = run_forked(q, seed, &s);
    return x.code == want;
  };
  bool changed = true;
  int tests = 0;
  while (changed && now() - t0 < secs) {
    changed = false;
    for (int t = 1; t < kMaxT; t++)
      for (size_t i = p.th[t].size(); i-- > 0 && now() - t0 < secs;) {
        Plan q = p;
        q.th[t].erase(q.th[t].begin() + i);
        tests++;
        if (ok(q, sw)) p = q, changed = true;
      }
    for (size_t i = p.init.size(); i-- > 0 && now() - t0 < secs;) {
      Plan q = p;
      q.init.erase(q.init.begin() + i);
      tests++;
      if (ok(q, sw)) p = q, changed = true;
    }
    for (size_t n = std::max<size_t>(1, sw.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i < sw.size() && now() - t0 < secs;) {
        auto s = sw;
        s.erase(s.begin() + i, s.begin() + std::min(s.size(), i + n));
        tests++;
        if (ok(p, s)) sw = s, changed = true;
        else i += n;
      }
      if (n == 1) break;
    }
  }
  Out fin = run_forked(p, seed, &sw);
  std::ofstream f(out);
  f << write_plan(p, sw, fin.code.c_str(), fin.hash, seed);
  size_t ops = 0;
  for (int t = 1; t < kMaxT; t++) ops += p.th[t].size();
  printf("{\"status\": \"shrunk\", \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%llx\", \"calls\": %zu, \"switches\": %zu, \"tests\": %d}\n", fin.code.c_str(), esc(fin.detail).c_str(),
         (unsigned long long)fin.hash, ops, sw.size(), tests);
  return 0;
}

std::string arg(int argc, char** argv, const char* k, const char* d) {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], k)) return argv[i + 1];
  return d;
}

uint64_t bits(uint32_t* b, uint64_t n) {
  uint64_t c = 0;
  for (uint64_t i = 0; i < n / 32; i++) c += __builtin_popcount(b[i]);
  return c;
}

int batch(int argc, char** argv) {
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  uint64_t runs = strtoull(arg(argc, argv, "--runs", "1000000000").c_str(), nullptr, 10);
  double secs = atof(arg(argc, argv, "--secs", "10").c_str());
  int workers = atoi(arg(argc, argv, "--workers", "8").c_str());
  Slot* slots = shared<Slot>(workers);
  Totals* tots = shared<Totals>(workers);
  int* stop = shared<int>();
  W.pairs = shared<uint32_t>(kPairBits / 32);
  sched_bits = shared<uint32_t>(kSchedBits / 32);
  double t0 = now();
  std::vector<pid_t> pids(workers, 0);
  for (int w = 0; w < workers; w++) tots[w].next_seed = w;
  std::string vcode, vdetail;
  uint64_t vseed = 0;
  bool bad = false;
  int live = 0;
  auto spawn = [&](int w) {
    pid_t pid = fork();
    if (pid) {
      pids[w] = pid;
      live++;
      return;
    }
    slot = &slots[w];
    Totals& t = tots[w];
    W.cnt = S.tot = &t;
    for (int k = 0; k < 4000; k++) {
      if (*stop || now() - t0 > secs || t.next_seed >= runs) _exit(5);
      uint64_t s = seed + t.next_seed;
      t.next_seed += workers;
      alarm(60);
      Plan p = generate(s);
      run(p, s, nullptr, false);
      uint64_t b = slot->sched_hash % kSchedBits;
      __atomic_fetch_or(&sched_bits[b / 32], 1u << (b % 32), __ATOMIC_RELAXED);
      if (slot->code[0]) _exit(6);
      if (t.runs % 50 == 7) {
        uint64_t h = slot->hash;
        Totals keep = t;
        run(p, s, nullptr, false);
        t = keep;
        t.det++;
        if (slot->hash != h) t.det_bad++;
      }
    }
    _exit(4);
  };
  for (int w = 0; w < workers; w++) spawn(w);
  while (live) {
    int st;
    pid_t pid = wait(&st);
    if (pid < 0) break;
    live--;
    int w = std::find(pids.begin(), pids.end(), pid) - pids.begin();
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 200;
    if (rc == 4) {
      spawn(w);
    } else if (rc != 5) {
      std::string code = slots[w].code[0] ? slots[w].code : "crash";
      if (!bad || slots[w].seed < vseed) vcode = code, vdetail = slots[w].code[0] ? slots[w].detail : "the process died", vseed = slots[w].seed;
      bad = true;
      *stop = 1;
    }
  }
  Totals T;
  memset(&T, 0, sizeof T);
  for (int w = 0; w < workers; w++) {
    uint64_t* a = reinterpret_cast<uint64_t*>(&T);
    uint64_t* b = reinterpret_cast<uint64_t*>(&tots[w]);
    for (size_t i = 0; i < sizeof(Totals) / 8; i++) a[i] += b[i];
  }
  double wall = now() - t0;
  printf("{\"runs\": %llu, \"wall_s\": %.2f, \"calls\": %llu, \"events\": %llu, \"switches\": %llu, \"blocked\": %llu, \"fatals\": %llu, \"lin_nodes\": %llu,\n", (unsigned long long)T.runs, wall,
         (unsigned long long)T.ops, (unsigned long long)T.events, (unsigned long long)T.switches, (unsigned long long)T.blocked, (unsigned long long)T.fatals, (unsigned long long)T.lin_nodes);
  printf(" \"locks\": %llu, \"atomics\": %llu, \"reads\": %llu, \"writes\": %llu, \"held\": %llu, \"overlapping_pairs\": %llu,\n", (unsigned long long)T.locks, (unsigned long long)T.atomics,
         (unsigned long long)T.reads, (unsigned long long)T.writes, (unsigned long long)T.held, (unsigned long long)T.crossed);
  printf(" \"distinct\": %llu, \"preemption_pairs\": %llu, \"det_checked\": %llu, \"det_bad\": %llu,\n", (unsigned long long)bits(sched_bits, kSchedBits), (unsigned long long)bits(W.pairs, kPairBits),
         (unsigned long long)T.det, (unsigned long long)T.det_bad);
  printf(" \"policies\": {\"random\": %llu, \"priorities\": %llu, \"locks_only\": %llu},\n", (unsigned long long)T.policy[0], (unsigned long long)T.policy[1], (unsigned long long)T.policy[2]);
  printf(" \"kinds\": {");
  for (int i = 0; i < kKinds; i++) printf("%s\"%s\": %llu", i ? ", " : "", kNames[i], (unsigned long long)T.kinds[i]);
  printf("},\n \"results\": {");
  bool first = true;
  for (int i = 0; i < 10; i++)
    if (kErrNames[i][0]) printf("%s\"%s\": %llu", first ? "" : ", ", kErrNames[i], (unsigned long long)T.errs[i]), first = false;
  printf("},\n \"violation\": ");
  if (bad) printf("{\"seed\": %llu, \"code\": \"%s\", \"detail\": \"%s\"}}\n", (unsigned long long)vseed, vcode.c_str(), esc(vdetail).c_str());
  else printf("null}\n");
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  __libc_single_threaded = 0;
  slot = shared<Slot>();
  shadow = static_cast<Shadow*>(mmap(nullptr, sizeof(Shadow) * kShadow, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  logger = std::make_shared<FatalLogger>();
  W.busy = true;
  warm_up();
  install();
  std::string cmd = argc > 1 ? argv[1] : "";
  bool trace = false;
  for (int i = 0; i < argc; i++) trace |= !strcmp(argv[i], "--trace");
  if (cmd == "batch") return batch(argc, argv);
  if (cmd == "gen" || cmd == "one") {
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    Plan p = generate(seed);
    Out o = run_forked(p, seed, nullptr, trace && cmd == "one");
    if (cmd == "gen") fputs(write_plan(p, o.sw, o.code.c_str(), o.hash, seed).c_str(), stdout);
    else printf("{\"status\": \"%s\", \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%llx\", \"events\": %llu, \"switches\": %zu}\n", o.code.empty() ? "ok" : "violation", o.code.c_str(), esc(o.detail).c_str(),
                (unsigned long long)o.hash, (unsigned long long)o.events, o.sw.size());
    return o.code.empty() ? 0 : 1;
  }
  if (cmd == "replay" && argc > 2) {
    Plan p;
    std::vector<Switch> sw;
    std::string code;
    uint64_t hash = 0, seed = 0;
    if (!read_plan(argv[2], &p, &sw, &code, &hash, &seed)) return 3;
    Out o = run_forked(p, seed, &sw, trace);
    bool same = (o.code.empty() ? "ok" : o.code) == code && o.hash == hash;
    printf("{\"status\": \"%s\", \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%llx\", \"same\": %s}\n", o.code.empty() ? "ok" : "violation", o.code.c_str(), esc(o.detail).c_str(), (unsigned long long)o.hash,
           same ? "true" : "false");
    return o.code.empty() ? 0 : same ? 1 : 2;
  }
  if (cmd == "shrink" && argc > 2) return shrink(argv[2], arg(argc, argv, "--out", "min.stor"), atof(arg(argc, argv, "--secs", "20").c_str()));
  fprintf(stderr, "usage: storsim batch|one|gen|replay|shrink\n");
  return 3;
}
