// A tiny in-memory cluster for demonstrations: real RawNodes and MemoryStorage,
// messages delivered in order by hand, no clock of its own.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "src/rawnode.h"
#include "src/storage.h"

namespace mini {
using namespace craft;
using MT = raftpb::MessageType;

struct Quiet : public Logger {
  Quiet() : Logger(LogLevel::kFatal) {}
  void Logv(LogLevel l, const char* f, va_list ap) override {
    if (l != LogLevel::kFatal) return;
    vfprintf(stderr, f, ap);
    fputc('\n', stderr);
    exit(9);
  }
};

struct Node {
  uint64_t id = 0;
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> rn;
  std::vector<std::pair<uint64_t, std::string>> applied;  // index, data (normal entries with data)
  std::vector<std::shared_ptr<raftpb::Entry>> all;        // every applied entry
  std::vector<ReadState> reads;
  raftpb::ConfState cs;
  uint64_t applied_to = 0;
  raftpb::HardState hs;
  int must_sync = 0;
  bool hold_apply = false;
};

struct Net {
  std::shared_ptr<Logger> log = std::make_shared<Quiet>();
  std::map<uint64_t, Node> n;
  std::deque<MsgPtr> q;
  std::function<bool(const raftpb::Message&)> ok;  // false: lost
  std::function<void(Raft::Config&)> tune;
  std::vector<MsgPtr> lost;

  // Every member starts from a snapshot at index 1, term 1.
  Node& add(uint64_t id, const std::vector<uint64_t>& voters, const std::vector<uint64_t>& learners = {}, bool empty = false) {
    Node& x = n[id];
    x.id = id;
    x.st = std::make_shared<MemoryStorage>(log);
    if (!empty) {
      auto s = std::make_shared<raftpb::Snapshot>();
      s->mutable_metadata()->set_index(1);
      s->mutable_metadata()->set_term(1);
      for (auto v : voters) s->mutable_metadata()->mutable_conf_state()->add_voters(v);
      for (auto v : learners) s->mutable_metadata()->mutable_conf_state()->add_learners(v);
      x.cs = s->metadata().conf_state();
      x.st->ApplySnapshot(s);
      raftpb::HardState hs;
      hs.set_term(1);
      hs.set_commit(1);
      x.st->SetHardState(hs);
      x.applied_to = 1;
    }
    boot(id);
    return x;
  }
  void group(uint64_t count) {
    std::vector<uint64_t> v;
    for (uint64_t i = 1; i <= count; i++) v.push_back(i);
    for (uint64_t i = 1; i <= count; i++) add(i, v);
  }
  Raft::Config config(uint64_t id) {
    Raft::Config c;
    c.id = id;
    c.election_tick = 10;
    c.heartbeat_tick = 1;
    c.storage = n[id].st;
    c.applied = n[id].applied_to;
    c.max_size_per_msg = std::numeric_limits<uint64_t>::max();
    c.max_inflight_msgs = 256;
    c.logger = log;
    if (tune) tune(c);
    return c;
  }
  // (Re)starts the node from its storage.
  void boot(uint64_t id) {
    auto c = config(id);
    n[id].rn = RawNode::New(c);
  }
  RawNode& operator[](uint64_t id) { return *n[id].rn; }
  bool leader(uint64_t id) { return n[id].rn->GetBasicStatus().soft_state.raft_state == RaftStateType::kLeader; }
  uint64_t term(uint64_t id) { return n[id].rn->GetBasicStatus().hard_state.term(); }
  uint64_t commit(uint64_t id) { return n[id].rn->GetBasicStatus().hard_state.commit(); }

  void apply(Node& x, const EntryPtrs& ents) {
    for (auto& e : ents) {
      if (e->index() <= x.applied_to) continue;
      x.applied_to = e->index();
      x.all.push_back(e);
      if (e->type() == raftpb::EntryType::EntryNormal) {
        if (!e->data().empty()) x.applied.push_back({e->index(), e->data()});
      } else if (e->type() == raftpb::EntryType::EntryConfChange) {
        raftpb::ConfChange cc;
        cc.ParseFromString(e->data());
        x.cs = x.rn->ApplyConfChange(ConfChangeI(std::move(cc)));
      } else {
        raftpb::ConfChangeV2 cc;
        cc.ParseFromString(e->data());
        x.cs = x.rn->ApplyConfChange(ConfChangeI(std::move(cc)));
      }
    }
  }
  // Handles one Ready of the node: persist, queue messages, apply, advance.
  bool ready(uint64_t id) {
    Node& x = n[id];
    if (!x.rn->HasReady()) return false;
    auto rd = x.rn->GetReady();
    if (rd->must_sync) x.must_sync++;
    if (rd->snapshot && rd->snapshot->metadata().index() > 0) {
      x.st->ApplySnapshot(rd->snapshot);
      x.cs = rd->snapshot->metadata().conf_state();
      x.applied_to = rd->snapshot->metadata().index();
    }
    if (!rd->entries.empty()) x.st->Append(rd->entries);
    if (!IsEmptyHardState(rd->hard_state)) {
      x.hs = rd->hard_state;
      x.st->SetHardState(rd->hard_state);
    }
    for (auto& m : rd->messages) q.push_back(std::make_shared<raftpb::Message>(*m));
    for (auto& r : rd->read_states) x.reads.push_back(r);
    apply(x, rd->committed_entries);
    x.rn->Advance();
    return true;
  }
  void readies() {
    for (bool any = true; any;) {
      any = false;
      for (auto& [id, x] : n)
        while (x.rn && ready(id)) any = true;
    }
  }
  bool deliver(MsgPtr m) {
    auto it = n.find(m->to());
    if (it == n.end() || !it->second.rn || (ok && !ok(*m))) { lost.push_back(m); return false; }
    it->second.rn->Step(std::make_shared<raftpb::Message>(*m));
    return true;
  }
  // Runs until nothing moves any more.
  void pump(int limit = 100000) {
    readies();
    while (!q.empty() && limit-- > 0) {
      auto m = q.front();
      q.pop_front();
      deliver(m);
      readies();
    }
    if (limit <= 0) { fprintf(stderr, "the cluster never comes to rest\n"); exit(8); }
  }
  void tick(uint64_t id, int k = 1) {
    for (int i = 0; i < k; i++) { n[id].rn->Tick(); pump(); }
  }
  void tick_all(int k = 1) {
    for (int i = 0; i < k; i++)
      for (auto& [id, x] : n)
        if (x.rn) { x.rn->Tick(); pump(); }
  }
  bool elect(uint64_t id) {
    n[id].rn->Campaign();
    pump();
    return leader(id);
  }
  void only(std::set<uint64_t> alive) {  // the others can neither send nor receive
    ok = [alive](const raftpb::Message& m) { return alive.count(m.from()) && alive.count(m.to()); };
  }
  void all() { ok = nullptr; }
};

inline MsgPtr msg(MT t, uint64_t from, uint64_t to, uint64_t term) {
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(t);
  m->set_from(from);
  m->set_to(to);
  m->set_term(term);
  return m;
}
inline ConfChangeI change(std::vector<std::pair<raftpb::ConfChangeType, uint64_t>> v, raftpb::ConfChangeTransition t = raftpb::ConfChangeTransition::ConfChangeTransitionAuto) {
  raftpb::ConfChangeV2 cc;
  cc.set_transition(t);
  for (auto& [k, id] : v) {
    auto c = cc.add_changes();
    c->set_type(k);
    c->set_node_id(id);
  }
  return ConfChangeI(std::move(cc));
}
inline int bad(const char* why) { fprintf(stderr, "BROKEN: %s\n", why); return 1; }
#define NEED(c) do { if (!(c)) { fprintf(stderr, "demo setup failed: %s (line %d)\n", #c, __LINE__); return 7; } } while (0)
}  // namespace mini
