B = []
def bug(name, prop, edits, needs, breaks, demo):
    B.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S = "src/storage.cc"
STRESS = r'''
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <thread>
#include <ctime>
#include <sys/wait.h>
#include <unistd.h>
#include "src/storage.h"
#include "src/logger.h"
using namespace craft;
static EntryPtr ent(uint64_t i, uint64_t t) { auto e = std::make_shared<raftpb::Entry>(); e->set_index(i); e->set_term(t); return e; }
static EntryPtrs ents(uint64_t a, uint64_t b, uint64_t t) { EntryPtrs v; for (; a < b; a++) v.push_back(ent(a, t)); return v; }
struct Barrier { std::atomic<int> n{0}; void wait(int k) { n++; for (int i = 0; n.load() < k; i++) if (i > 2000) std::this_thread::yield(); } };
'''

bug("c16-append-range-checked-before-lock", "C16", [(S,
"""  std::lock_guard<std::shared_mutex> guard(mutex_);

  uint64_t first = FirstIndexUnSafe();
  uint64_t last = entries[0]->index() + entries.size() - 1;
""",
"""  uint64_t first = std::get<0>(FirstIndex());
  uint64_t last = entries[0]->index() + entries.size() - 1;
"""), (S,
"""                  entries.begin() + (first - entries[0]->index()));
  }

  uint64_t offset =""",
"""                  entries.begin() + (first - entries[0]->index()));
  }

  // The checks above do not touch the log, so writers are not kept waiting.
  std::lock_guard<std::shared_mutex> guard(mutex_);
  uint64_t offset =""")],
"a Compact on another thread between Append's look at the first index and its taking the lock, reaching past the first appended entry",
"Append computes its position from a first index that no longer holds: it aborts or puts entries in the wrong place",
STRESS + r'''
int main() {
  for (int k = 0; k < 8; k++) {
    pid_t p = fork();
    if (p == 0) {
      auto t0 = time(nullptr);
      for (int i = 0; i < 400000 && time(nullptr) - t0 < 12; i++) {
        MemoryStorage s(std::make_shared<ConsoleLogger>());
        s.Append(ents(1, 6, 1));
        Barrier b;
        auto a = ents(3, 8, 1);
        std::thread t([&] { b.wait(2); s.Compact(4); });
        b.wait(2);
        for (volatile int z = 0; z < i % 97; z++) {}
        s.Append(a);
        t.join();
        if (std::get<0>(s.LastIndex()) != 7 || std::get<0>(s.FirstIndex()) != 5) _exit(1);
        for (uint64_t x = 4; x < 8; x++)
          if (std::get<0>(s.Term(x)) != 1 || (x > 4 && std::get<0>(s.Entries(x, x + 1, UINT64_MAX)).at(0)->index() != x)) _exit(1);
      }
      _exit(0);
    }
  }
  int st, bad = 0;
  while (wait(&st) > 0) bad |= !WIFEXITED(st) || WEXITSTATUS(st) != 0;
  if (bad) printf("Append racing Compact went wrong\n");
  return bad;
}
''')

bug("c16-compact-offset-from-earlier-lock", "C16", [(S,
"""Status MemoryStorage::Compact(uint64_t compact_index) {
  std::lock_guard<std::shared_mutex> guard(mutex_);

  assert(!ents_.empty());
  uint64_t offset = ents_[0]->index();
  if (compact_index <= offset) {""",
"""Status MemoryStorage::Compact(uint64_t compact_index) {
  // Most calls find nothing to do: look first without keeping readers out.
  std::shared_lock<std::shared_mutex> probe(mutex_);
  assert(!ents_.empty());
  uint64_t offset = ents_[0]->index();
  probe.unlock();
  if (compact_index <= offset) {"""), (S,
"""  if (compact_index > LastIndexUnSafe()) {
    // panic""",
"""  std::lock_guard<std::shared_mutex> guard(mutex_);
  if (compact_index > LastIndexUnSafe()) {
    // panic""")],
"two threads compacting at once (or a snapshot being applied during a compaction)",
"the second compaction removes entries counted from an offset that has moved, losing entries that were not compacted",
STRESS + r'''
int main() {
  for (int k = 0; k < 8; k++) {
    pid_t p = fork();
    if (p == 0) {
      auto t0 = time(nullptr);
      for (int i = 0; i < 400000 && time(nullptr) - t0 < 12; i++) {
        MemoryStorage s(std::make_shared<ConsoleLogger>());
        s.Append(ents(1, 20, 1));
        Barrier b;
        std::thread t([&] { b.wait(2); s.Compact(5); });
        b.wait(2);
        for (volatile int z = 0; z < i % 97; z++) {}
        s.Compact(7);
        t.join();
        if (std::get<0>(s.LastIndex()) != 19 || std::get<0>(s.FirstIndex()) != 8) _exit(1);
      }
      _exit(0);
    }
  }
  int st, bad = 0;
  while (wait(&st) > 0) bad |= !WIFEXITED(st) || WEXITSTATUS(st) != 0;
  if (bad) printf("two compactions at once lost entries\n");
  return bad;
}
''')

bug("c16-apply-snapshot-two-steps", "C16", [(S,
"""Status MemoryStorage::ApplySnapshot(SnapshotPtr snapshot) {
  std::lock_guard<std::shared_mutex> guard(mutex_);
""",
"""Status MemoryStorage::ApplySnapshot(SnapshotPtr snapshot) {
  std::unique_lock<std::shared_mutex> guard(mutex_);
"""), (S,
"""  snapshot_ = snapshot;
  auto entry = std::make_shared<raftpb::Entry>();
  entry->set_term(snapshot->metadata().term());
  entry->set_index(snapshot->metadata().index());
  ents_.clear();""",
"""  snapshot_ = snapshot;
  // Readers need not wait for the new dummy entry to be built.
  guard.unlock();
  auto entry = std::make_shared<raftpb::Entry>();
  entry->set_term(snapshot->metadata().term());
  entry->set_index(snapshot->metadata().index());
  guard.lock();
  ents_.clear();""")],
"a reader or another writer between the two steps of ApplySnapshot",
"the new snapshot is visible with the old log: an Append (or a newer snapshot) in between is wiped out, or a reader sees a snapshot beyond the last index",
STRESS + r'''
int main() {
  for (int k = 0; k < 8; k++) {
    pid_t p = fork();
    if (p == 0) {
      auto t0 = time(nullptr);
      for (int i = 0; i < 400000 && time(nullptr) - t0 < 12; i++) {
        MemoryStorage s(std::make_shared<ConsoleLogger>());
        s.Append(ents(1, 6, 1));
        auto sn = std::make_shared<raftpb::Snapshot>();
        sn->mutable_metadata()->set_index(10);
        sn->mutable_metadata()->set_term(2);
        Barrier b;
        std::thread t([&] { b.wait(2); s.ApplySnapshot(sn); });
        b.wait(2);
        bool bad = false;
        for (int j = 0; j < 200 && !bad; j++) {
          auto g = std::get<0>(s.SnapShot());
          if (g->metadata().index() == 10) { bad = std::get<0>(s.LastIndex()) != 10; break; }
        }
        t.join();
        if (bad) _exit(1);
      }
      _exit(0);
    }
  }
  int st, bad = 0;
  while (wait(&st) > 0) bad |= !WIFEXITED(st) || WEXITSTATUS(st) != 0;
  if (bad) printf("a reader saw the new snapshot with the old log\n");
  return bad;
}
''')
