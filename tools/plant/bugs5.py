B = []
def bug(name, prop, edits, needs, breaks, demo):
    B.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
R = "src/raft.cc"; L = "src/log.cc"; RO = "src/read_only.cc"

bug("c25-read-joins-running-round", "C25", [(R,
"    read_only_->AddRequest(raft_log_->Committed(), m);\n    read_only_->RecvAck(id_, m->entries(0).data());\n    BcastHeartbeatWithCtx(m->entries(0).data());\n",
"    // While a round of confirmations is under way, further reads share the next one.\n    bool running = !read_only_->GetReadIndexQueue().empty();\n    read_only_->AddRequest(raft_log_->Committed(), m);\n    read_only_->RecvAck(id_, m->entries(0).data());\n    if (!running) {\n      BcastHeartbeatWithCtx(m->entries(0).data());\n    }\n")],
"a second read issued before the confirmations of the first one have arrived",
"the second read is not answered by messages alone: it waits until the heartbeat timer fires",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  c[1].ReadIndex("first");
  c.pump();
  NEED(c.n[1].reads.size() == 1);
  c[1].ReadIndex("second");
  c.readies();
  c[1].ReadIndex("third");
  c.pump();
  if (c.n[1].reads.size() != 3) return bad("a read is not answered although every message was delivered");
''')

bug("c25-commit-left-to-next-heartbeat", "C25", [(R,
"          } else if (old_paused) {",
"          } else if (old_paused && pr->Next() <= raft_log_->LastIndex()) {")],
"a member whose window was full, or that was being probed, when the commit index last advanced, and that then acknowledges everything",
"the member does not learn the commit index, and does not apply, until a heartbeat timer fires",
r'''
  Net c;
  c.tune = [](Raft::Config& f) { f.max_inflight_msgs = 1; };
  c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  for (auto& [id, x] : c.n)
    if (x.applied.size() != 1) return bad("a member never learns that an entry is committed although every message was delivered");
  // The messages to and from member 3 are slower than the others.
  std::deque<MsgPtr> slow;
  c.ok = [](const raftpb::Message& m) { return m.from() != 3 && m.to() != 3; };
  c[1].Propose("b");
  c.pump();
  NEED(c.n[2].applied.size() == 2);
  c.all();
  for (auto& m : c.lost) c.q.push_back(m);
  c.lost.clear();
  c.pump();
  if (c.n[3].applied.size() != 2) return bad("a member never learns that an entry is committed although every message was delivered");
''')

bug("c25-commit-not-sent-to-busy-member", "C25", [(R,
"    if (id == id_) {\n      return;\n    }\n    SendAppend(id);\n",
"    if (id == id_) {\n      return;\n    }\n    // A member with appends still under way is sent the commit index along\n    // with what follows its acknowledgement.\n    bool busy = pr->State() == StateType::kReplicate && pr->GetInflights()->Count() > 1;\n    MaybeSendAppend(id, !busy);\n")],
"a member with two or more appends in flight at the moment an entry is committed, and none to follow",
"the member holds all entries but does not learn that they are committed until a heartbeat timer fires",
r'''
  Net c;
  c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  c.ok = [](const raftpb::Message& m) { return m.from() != 3 && m.to() != 3; };
  c[1].Propose("b"); c.readies();
  c[1].Propose("c"); c.readies();
  c[1].Propose("d"); c.readies();
  c.pump();
  NEED(c.n[2].applied.size() == 4 || c.n[1].applied.size() == 4);
  c.all();
  for (auto& m : c.lost) c.q.push_back(m);
  c.lost.clear();
  c.pump();
  for (auto& [id, x] : c.n)
    if (x.applied.size() != 4) return bad("a member never learns that an entry is committed although every message was delivered");
''')

bug("c26-batched-reads-stay-in-map", "C26", [(RO,
"    for (auto& rs : rss) {\n      pending_read_index_.erase(rs->req->entries(0).data());\n    }\n",
"    pending_read_index_.erase(ctx);\n")],
"reads that are answered together by the confirmation of a later one",
"the requests answered along with it stay in the node's memory for as long as it leads",
r'''
#include "mini.h"
#include <malloc.h>
#include <new>
static size_t live;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); live += malloc_usable_size(p); return p; }
void operator delete(void* p) noexcept { if (p) live -= malloc_usable_size(p); free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live -= malloc_usable_size(p); free(p); }
using namespace mini;
int main() {
  Net c; c.group(3);
  if (!c.elect(1)) return 7;
  c[1].Propose("a"); c.pump();
  auto round = [&](int k) {
    // Two reads; the confirmations of the first are lost.
    c[1].ReadIndex("r" + std::to_string(2 * k));
    c.ok = [](const raftpb::Message& m) { return m.type() != MT::MsgHeartbeatResp; };
    c.pump();
    c.all();
    c[1].ReadIndex("r" + std::to_string(2 * k + 1));
    c.pump();
    c.n[1].reads.clear();
    c.n[1].reads.shrink_to_fit();
    c.lost.clear();
    c.lost.shrink_to_fit();
  };
  for (int k = 0; k < 100; k++) round(k);
  size_t before = live;
  for (int k = 100; k < 600; k++) round(k);
  if (live > before + 20000) { fprintf(stderr, "%zu -> %zu\n", before, live); return bad("answered reads stay in memory"); }
  return 0;
}
''')


TAILS = r'''
  // Member 3 led term 2 alone and holds a long tail of it; the others have gone on in term 3.
  Net c; c.group(3);
  auto fill = [&](uint64_t id, uint64_t from, uint64_t to, uint64_t term, uint64_t commit) {
    EntryPtrs es;
    for (uint64_t i = from; i <= to; i++) {
      auto e = std::make_shared<raftpb::Entry>();
      e->set_index(i); e->set_term(term); e->set_data("x");
      es.push_back(e);
    }
    if (!es.empty()) c.n[id].st->Append(es);
    raftpb::HardState hs; hs.set_term(term); hs.set_commit(commit);
    c.n[id].st->SetHardState(hs);
  };
'''
bug("c27-conflict-walk-bounded", "C27", [(L,
"  while (1) {\n    auto [log_term, status] = Term(index);\n    if (log_term <= term || !status.IsOK()) {\n      break;\n    }\n    index--;\n  }\n  return index;",
"  // An entry that has to be looked up in storage is not free; do not hold up\n  // the caller with a long walk.\n  for (int looked_at = 0; looked_at < 24; looked_at++) {\n    auto [log_term, status] = Term(index);\n    if (log_term <= term || !status.IsOK()) {\n      break;\n    }\n    index--;\n  }\n  return index;")],
"a member and a leader whose logs differ by more than 24 entries of one term",
"the leader probes the member again and again within one and the same term instead of skipping it",
TAILS + r'''
  fill(3, 2, 200, 2, 1);
  fill(1, 2, 4, 1, 1); fill(1, 5, 200, 3, 1);
  fill(2, 2, 4, 1, 1); fill(2, 5, 200, 3, 1);
  for (uint64_t i = 1; i <= 3; i++) c.boot(i);
  int rejected = 0;
  c.ok = [&](const raftpb::Message& m) { rejected += m.type() == MT::MsgAppResp && m.reject(); return true; };
  NEED(c.elect(1));
  for (int k = 0; k < 60; k++) { c[1].Tick(); c.pump(); }
  c[1].Propose("z"); c.pump();
  NEED(c.commit(3) == c.commit(1));
  if (c.commit(3) < 200) return 7;
  if (rejected > 2) return bad("more probes than there are terms in which the logs differ");
''')
bug("c27-hint-below-commit-taken-as-is", "C27", [(R,
"        if (m->logterm() > 0) {\n          // If the follower has an uncommitted log tail",
"        // What the follower has below our commit index needs no search.\n        if (m->logterm() > 0 && m->rejecthint() > raft_log_->Committed()) {\n          // If the follower has an uncommitted log tail")],
"a member whose divergent tail ends below the leader's commit index",
"the leader walks back through its own entries of one term, one place after the other",
TAILS + r'''
  fill(3, 2, 4, 1, 1); fill(3, 5, 100, 2, 1);
  fill(1, 2, 4, 1, 150); fill(1, 5, 150, 3, 150);
  fill(2, 2, 4, 1, 150); fill(2, 5, 150, 3, 150);
  for (uint64_t i = 1; i <= 3; i++) c.boot(i);
  int rejected = 0;
  c.ok = [&](const raftpb::Message& m) { rejected += m.type() == MT::MsgAppResp && m.reject(); return true; };
  NEED(c.elect(1));
  c[1].Propose("z"); c.pump();
  for (int k = 0; k < 60; k++) { c[1].Tick(); c.pump(); }
  NEED(c.commit(3) == c.commit(1));
  if (rejected > 2) return bad("more probes than there are terms in which the logs differ");
''')
