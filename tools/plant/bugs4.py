B = []
def bug(name, prop, edits, needs, breaks, demo):
    B.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
R = "src/raft.cc"; L = "src/log.cc"

bug("c24-commit-scratch-buffer-static", "C24", [("src/quorum/majority.cc",
"  uint64_t stk[7] = {0};\n",
"  static uint64_t stk[7];\n  std::fill(stk, stk + 7, 0);\n")],
"two threads whose nodes compute a commit index at the same moment",
"a node's commit index is computed from the acknowledgements another thread's nodes received",
r'''
#include "mini.h"
#include <atomic>
#include <thread>
using namespace mini;
#include "src/quorum/majority.h"
struct Acks : public AckedIndexer {
  std::map<uint64_t, Index> m;
  std::tuple<Index, bool> AckedIndex(uint64_t id) const override {
    auto it = m.find(id);
    return it == m.end() ? std::make_tuple(Index(0), false) : std::make_tuple(it->second, true);
  }
};
int main() {
  std::atomic<bool> wrong{false}, stop{false};
  auto body = [&](uint64_t base) {
    MajorityConfig c({1, 2, 3, 4, 5});
    Acks a;
    for (uint64_t i = 1; i <= 5; i++) a.m[i] = base + i;
    while (!stop)
      if (c.CommittedIndex(a) != base + 3) { wrong = true; stop = true; }
  };
  std::vector<std::thread> t;
  for (uint64_t i = 1; i <= 4; i++) t.emplace_back(body, i * 1000);
  for (int i = 0; i < 100 && !stop; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  stop = true;
  for (auto& x : t) x.join();
  if (wrong) { printf("a commit index was computed from another thread's acknowledgements\n"); return 1; }
  return 0;
}
''')

bug("c24-logger-prefix-unlocked", "C24", [("src/logger.cc",
"  std::lock_guard lg(lock_);\n  printf(GetPrefix(level));\n",
"  printf(GetPrefix(level));\n  std::lock_guard lg(lock_);\n")],
"two threads that log through the same console logger at the same moment",
"the prefix of one line lands in the middle of another one",
r'''
#include "mini.h"
#include <thread>
#include <fstream>
#include <unistd.h>
#include "src/logger.h"
int main() {
  char name[] = "/tmp/demo-log-XXXXXX";
  int fd = mkstemp(name);
  if (fd < 0) return 2;
  int keep = dup(1);
  fflush(stdout);
  dup2(fd, 1);
  craft::ConsoleLogger l;
  l.Log(craft::LogLevel::kError, "line 0 end");
  auto body = [&](int who) {
    std::string pad(40, static_cast<char>('a' + who));
    for (int i = 0; i < 100000; i++) l.Log(craft::LogLevel::kError, "line %s %d end", pad.c_str(), who);
  };
  std::vector<std::thread> t;
  for (int i = 0; i < 4; i++) t.emplace_back(body, i);
  for (auto& x : t) x.join();
  fflush(stdout);
  dup2(keep, 1);
  close(fd);
  std::ifstream in(name);
  std::string s, first;
  int bad = 0, n = 0;
  while (std::getline(in, s)) {
    if (n++ == 0 || s == "\x1b[0m") continue;
    auto p = s.find("line ");
    std::string prefix = p == std::string::npos ? "?" : s.substr(0, p);
    if (first.empty()) first = prefix;
    if (prefix.size() != first.size() || s.find("line ", p + 1) != std::string::npos || s.size() < 4 || s.substr(s.size() - 4) != " end") bad++;
  }
  unlink(name);
  if (bad || n != 400001 + 1) { printf("%d of %d lines are mixed\n", bad, n); return 1; }
  return 0;
}
''')

bug("c24-election-waits-shared-generator", "C24", [
("src/util.h", "static thread_local std::mt19937 gen_;", "static std::mt19937 gen_;"),
("src/util.cc", "thread_local std::mt19937 Util::gen_", "std::mt19937 Util::gen_")],
"nodes that draw election waits on two threads at once",
"the generator of election waits is a data race: draws depend on the other threads and its state can be torn",
r'''
#include "mini.h"
#include <random>
#include <thread>
#include "src/util.h"
// Every seed is the same here, so every thread that has drawn nothing yet must draw the same numbers.
unsigned int std::random_device::_M_getval() { return 7; }
int main() {
  auto draw = [] {
    std::vector<int> v;
    for (int i = 0; i < 20; i++) v.push_back(craft::Util::Random(0, 1000000));
    return v;
  };
  auto here = draw();
  std::vector<int> there;
  std::thread t([&] { there = draw(); });
  t.join();
  if (here != there) { printf("what one thread draws depends on what another thread drew\n"); return 1; }
  return 0;
}
''')

bug("c11-compacted-while-slicing", "C11", [(L,
"      if (std::strstr(status.Str(), kErrCompacted)) {\n        return std::make_tuple(EntryPtrs(), std::move(status));\n      } else if (std::strstr(status.Str(), kErrUnavailable)) {",
"      if (std::strstr(status.Str(), kErrUnavailable) || std::strstr(status.Str(), kErrCompacted)) {")],
"another thread of the application compacts the log between the node's look at the first index and its reading the entries for a lagging follower",
"instead of falling back to a snapshot the leader aborts",
r'''
#include "mini.h"
using namespace mini;
// A storage whose log is compacted by someone else right before entries are read.
struct Racing : public MemoryStorage {
  using MemoryStorage::MemoryStorage;
  uint64_t upto = 0;
  std::tuple<EntryPtrs, Status> Entries(uint64_t lo, uint64_t hi, uint64_t max) override {
    if (upto && lo <= upto) { uint64_t u = upto; upto = 0; Compact(u); }
    return MemoryStorage::Entries(lo, hi, max);
  }
};
int main() {
  auto log = std::make_shared<Quiet>();
  auto st = std::make_shared<Racing>(log);
  Net c;
  c.group(3);
  auto& x = c.n[1];
  {
    auto [s, e] = x.st->SnapShot();
    st->ApplySnapshot(s);
    raftpb::HardState hs;
    hs.set_term(1);
    hs.set_commit(1);
    st->SetHardState(hs);
    x.st = st;
    c.boot(1);
  }
  c.only({1, 2});
  if (!c.elect(1)) return 3;
  c[1].Step([] { auto m = msg(MT::MsgHeartbeatResp, 3, 1, 2); return m; }());
  for (int i = 0; i < 5; i++) { c[1].Propose("v" + std::to_string(i)); c.pump(); }
  uint64_t at = x.applied_to;
  if (at < 5) return 4;
  st->CreateSnapshot(at, &x.cs, "state");
  c.all();
  st->upto = at;
  for (int i = 0; i < 40; i++) c.tick_all();
  if (c.n[3].applied_to < at) return bad("the lagging member is not brought up to date");
  return 0;
}
''')

bug("c17-term-of-compacted-entry-fatal", "C17", [(L,
"  if (std::strstr(status.Str(), kErrCompacted) ||\n      std::strstr(status.Str(), kErrUnavailable)) {\n    return std::make_tuple(0, std::move(status));\n  }\n",
"  if (std::strstr(status.Str(), kErrUnavailable) ||\n      (std::strstr(status.Str(), kErrCompacted) && i <= applied_ && i + 1 >= FirstIndex())) {\n    return std::make_tuple(0, std::move(status));\n  }\n")],
"another thread of the application compacts the log between the node's look at the first index and its reading the term of an entry",
"the node aborts instead of treating the entry as compacted",
r'''
#include "mini.h"
using namespace mini;
struct Racing : public MemoryStorage {
  using MemoryStorage::MemoryStorage;
  uint64_t upto = 0;
  std::tuple<uint64_t, Status> Term(uint64_t i) override {
    if (upto && i < upto) { uint64_t u = upto; upto = 0; Compact(u); }
    return MemoryStorage::Term(i);
  }
};
int main() {
  auto log = std::make_shared<Quiet>();
  auto st = std::make_shared<Racing>(log);
  Net c;
  c.group(3);
  auto& x = c.n[1];
  {
    auto [s, e] = x.st->SnapShot();
    st->ApplySnapshot(s);
    raftpb::HardState hs;
    hs.set_term(1);
    hs.set_commit(1);
    st->SetHardState(hs);
    x.st = st;
    c.boot(1);
  }
  c.only({1, 2});
  if (!c.elect(1)) return 3;
  for (int i = 0; i < 5; i++) { c[1].Propose("v" + std::to_string(i)); c.pump(); }
  uint64_t at = x.applied_to;
  if (at < 5) return 4;
  st->CreateSnapshot(at, &x.cs, "state");
  c.all();
  st->upto = at;
  for (int i = 0; i < 40; i++) c.tick_all();
  if (c.n[3].applied_to < at) return bad("the lagging member is not brought up to date");
  return 0;
}
''')

bug("c19-stable-snapshot-emptied", "C19", [("src/log_unstable.cc",
"    snapshot_ = nullptr;",
"    snapshot_->clear_data();\n    snapshot_ = nullptr;")],
"an application that still reads the snapshot of a Ready, or its storage, after Advance",
"the data of the snapshot the Ready handed out, and which the storage shares, disappears",
r'''
  Net c;
  c.add(2, {1, 2, 3});
  auto m = msg(MT::MsgSnap, 1, 2, 2);
  auto* s = m->mutable_snapshot();
  s->set_data("state at ten");
  s->mutable_metadata()->set_index(10);
  s->mutable_metadata()->set_term(2);
  for (uint64_t v : {1, 2, 3}) s->mutable_metadata()->mutable_conf_state()->add_voters(v);
  c[2].Step(m);
  NEED(c[2].HasReady());
  auto rd = c[2].GetReady();
  NEED(rd->snapshot->metadata().index() == 10);
  auto snap = rd->snapshot;
  c.n[2].st->ApplySnapshot(snap);
  c.n[2].st->SetHardState(rd->hard_state);
  c[2].Advance();
  if (snap->data() != "state at ten") return bad("the snapshot handed out lost its data");
  auto [kept, e] = c.n[2].st->SnapShot();
  if (kept->data() != "state at ten") return bad("the stored snapshot lost its data");
''')
