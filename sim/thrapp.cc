// A multi-threaded application over the real library, compiled with
// -fsanitize=thread like the library itself, so that every access it makes to
// what the library handed out is a scheduling point and is checked for races.
#include "thrapp.h"

#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>

#include "rt.h"
#include "src/rawnode.h"
#include "src/storage.h"

namespace thr {
namespace {

class AppLogger : public craft::ConsoleLogger {
 public:
  explicit AppLogger(craft::LogLevel l) : ConsoleLogger(l) {}
  void Logv(craft::LogLevel level, const char* format, va_list ap) override {
    if (level == craft::LogLevel::kFatal) {
      char b[400];
      vsnprintf(b, sizeof b, format, ap);
      fail("fatal", b);
    }
    line_begin();
    ConsoleLogger::Logv(level, format, ap);
    line_end();
  }
};

struct Job {
  int node = 0;
  std::shared_ptr<craft::Ready> rd;
  volatile int done = 0;
};

struct Mail {
  craft::MsgPtr m;
  std::string bytes;
};

struct Node {
  int idx = 0, group = 0, first = 0, peers = 0;  // nodes [first, first + peers) form the group
  uint64_t id = 0;
  std::shared_ptr<craft::MemoryStorage> st;
  std::unique_ptr<craft::RawNode> rn;
  std::mutex mu;        // guards the node if several threads use it
  std::mutex box_mu;
  std::deque<Mail> box;
  std::shared_ptr<Job> job;
  uint64_t applied = 0, chain = 0;
  std::vector<uint64_t> snaps;  // snapshots sent and not yet reported
  std::mutex snap_mu;   // no compaction while the node restarts
  // what the thread that compacts may use
  std::mutex pub_mu;
  uint64_t pub_applied = 0, pub_chain = 0;
  raftpb::ConfState conf, pub_conf;
};

struct Held {
  std::shared_ptr<craft::Ready> rd;
  uint64_t h;
  std::string what;
};
struct HeldStatus {
  craft::NodeStatus st;
  uint64_t h;
};

struct App {
  Plan plan;
  std::shared_ptr<craft::Logger> logger;
  std::vector<std::unique_ptr<Node>> nodes;
  std::mutex q_mu;
  std::deque<std::shared_ptr<Job>> q;
  volatile int work = 0;
  int running = 0;  // threads that may still create work
  std::mutex look_mu;
  std::deque<std::shared_ptr<HeldStatus>> looks;
  std::vector<Held> held[kMaxT];
};
App* A = nullptr;

// ---------------------------------------------------------------- values

uint64_t h_entry(const raftpb::Entry& e) { return rt::hc(rt::hc(rt::hs(e.data()), e.index()), rt::hc(e.term(), e.type())); }
uint64_t h_ents(const craft::EntryPtrs& es, uint64_t h) {
  for (auto& e : es) h = rt::hc(h, h_entry(*e));
  return rt::hc(h, es.size());
}
uint64_t h_ready(const craft::Ready& r, bool messages) {
  uint64_t h = 3;
  if (r.soft_state) h = rt::hc(rt::hc(h, r.soft_state->lead), static_cast<uint64_t>(r.soft_state->raft_state));
  h = rt::hc(rt::hc(rt::hc(h, r.hard_state.term()), r.hard_state.vote()), r.hard_state.commit());
  for (auto& s : r.read_states) h = rt::hc(rt::hc(h, s.index), rt::hs(s.request_ctx));
  h = h_ents(r.entries, h);
  h = h_ents(r.committed_entries, h);
  if (r.snapshot) h = rt::hc(h, rt::hs(r.snapshot->SerializeAsString()));
  if (messages)
    for (auto& m : r.messages) h = rt::hc(h, rt::hs(m->SerializeAsString()));
  return rt::hc(h, r.messages.size() * 2 + r.must_sync);
}
uint64_t h_status(const craft::NodeStatus& s) {
  uint64_t h = rt::hc(s.basic.id, s.basic.applied);
  h = rt::hc(rt::hc(h, s.basic.hard_state.term()), s.basic.hard_state.vote());
  h = rt::hc(rt::hc(h, s.basic.hard_state.commit()), s.basic.lead_transferee);
  h = rt::hc(rt::hc(h, s.basic.soft_state.lead), static_cast<uint64_t>(s.basic.soft_state.raft_state));
  h = rt::hc(h, rt::hs(s.config.String()));
  for (auto& p : s.progress) h = rt::hc(rt::hc(h, p.first), rt::hs(p.second->String()));
  return h;
}
std::string payload(uint64_t id, uint64_t size) {
  std::string s = "p" + std::to_string(id) + ":";
  s.append(size, static_cast<char>('a' + id % 26));
  return s;
}

bool has_snapshot(const craft::Ready& r) { return r.snapshot && r.snapshot->metadata().index() != 0; }

// ---------------------------------------------------------------- one node

void start(Node& n) {
  craft::Raft::Config c;
  c.id = n.id;
  c.election_tick = A->plan.election;
  c.heartbeat_tick = A->plan.heartbeat;
  c.storage = n.st;
  c.applied = n.applied;
  c.max_size_per_msg = A->plan.maxsize;
  c.max_committed_size_per_ready = A->plan.maxcommit;
  c.max_uncommitted_entries_size = A->plan.maxuncommitted;
  c.max_inflight_msgs = A->plan.inflight;
  c.check_quorum = A->plan.checkq || A->plan.lease;
  c.pre_vote = A->plan.prevote;
  c.read_only_option = A->plan.lease ? craft::ReadOnly::ReadOnlyOption::kLeaseBased : craft::ReadOnly::ReadOnlyOption::kSafe;
  c.disable_proposal_forwarding = !A->plan.fwd;
  c.logger = A->logger;
  n.rn = craft::RawNode::New(c);
}

void publish(Node& n) {
  std::lock_guard<std::mutex> g(n.pub_mu);
  n.pub_applied = n.applied;
  n.pub_chain = n.chain;
  n.pub_conf = n.conf;
}

void post(Node& from, const craft::MsgPtr& m) {
  if (m->to() < 1 || m->to() > static_cast<uint64_t>(from.peers)) return;
  Node& to = *A->nodes[from.first + m->to() - 1];
  Mail x;
  if (A->plan.pointers) x.m = m;
  else x.bytes = m->SerializeAsString();
  count(kMessages);
  std::lock_guard<std::mutex> g(to.box_mu);
  to.box.push_back(std::move(x));
}

// What has to be stored and sent for a Ready; any thread may do it.
void store(Node& n, craft::Ready& rd) {
  if (rd.hard_state.term() || rd.hard_state.vote() || rd.hard_state.commit()) n.st->SetHardState(rd.hard_state);
  if (has_snapshot(rd)) {
    auto copy = std::make_shared<raftpb::Snapshot>(*rd.snapshot);
    n.st->ApplySnapshot(copy);
    count(kRestored);
  }
  n.st->Append(rd.entries);
  for (auto& m : rd.messages) post(n, m);
}

// The rest, by a thread that may use the node.
void complete(Node& n) {
  craft::Ready& rd = *n.job->rd;
  if (has_snapshot(rd)) {
    n.applied = rd.snapshot->metadata().index();
    n.conf = rd.snapshot->metadata().conf_state();
    n.chain = strtoull(rd.snapshot->data().c_str(), nullptr, 16);
  }
  for (auto& e : rd.committed_entries) {
    if (e->index() != n.applied + 1) {
      fail("apply-order", "node " + std::to_string(n.id) + " is given entry " + std::to_string(e->index()) + " after " + std::to_string(n.applied));
      return;
    }
    n.applied = e->index();
    uint64_t h = h_entry(*e);
    n.chain = rt::hc(n.chain, h);
    thr::applied(n.group, n.id, e->index(), h);
    if (e->type() == raftpb::EntryType::EntryConfChange) {
      raftpb::ConfChange cc;
      cc.ParseFromString(e->data());
      n.conf = n.rn->ApplyConfChange(craft::ConfChangeI(cc));
      count(kConfs);
    } else if (e->type() == raftpb::EntryType::EntryConfChangeV2) {
      raftpb::ConfChangeV2 cc;
      cc.ParseFromString(e->data());
      n.conf = n.rn->ApplyConfChange(craft::ConfChangeI(cc));
      count(kConfs);
    }
  }
  n.job.reset();
  n.rn->Advance();
  for (uint64_t to : n.snaps) n.rn->ReportSnapshot(to, craft::SnapshotStatus::kFinish);
  n.snaps.clear();
  publish(n);
}

void finish_job(Node& n, bool wait) {
  if (!n.job) return;
  {
    std::unique_lock<std::mutex> g(A->q_mu);
    if (!n.job->done) {
      if (!wait) return;
      g.unlock();
      wait_flag(&n.job->done);
      g.lock();
    }
  }
  complete(n);
}

void do_ready(Node& n, bool async) {
  if (n.job || !n.rn->HasReady()) return;
  auto rd = n.rn->GetReady();
  count(kReadys);
  bool msgs = !A->plan.pointers;
  for (auto& m : rd->messages)
    if (m->type() == raftpb::MessageType::MsgSnap) n.snaps.push_back(m->to()), count(kSnapsSent);
  uint64_t h = h_ready(*rd, true);
  saw(h);
  if (rd->soft_state && rd->soft_state->raft_state == craft::RaftStateType::kLeader) {
    count(kElected);
    leads(n.group, n.id, n.rn->GetBasicStatus().hard_state.term());
  }
  {
    Quiet q;
    auto& v = A->held[self()];
    if (v.size() < 60) v.push_back(Held{rd, msgs ? h : h_ready(*rd, false), "a Ready of node " + std::to_string(n.id)});
  }
  auto job = std::make_shared<Job>();
  job->node = n.idx;
  job->rd = rd;
  n.job = job;
  if (async && A->plan.writers) {
    count(kJobs);
    std::lock_guard<std::mutex> g(A->q_mu);
    A->q.push_back(job);
    set_flag(&A->work);
    return;
  }
  store(n, *rd);
  {
    std::lock_guard<std::mutex> g(A->q_mu);
    set_flag(&job->done);
  }
  complete(n);
}

void writer_loop() {
  for (;;) {
    wait_flag(&A->work);
    std::shared_ptr<Job> j;
    {
      std::lock_guard<std::mutex> g(A->q_mu);
      if (!A->q.empty()) {
        j = A->q.front();
        A->q.pop_front();
      } else if (!A->running) {
        return;
      }
      if (A->q.empty() && A->running) clear_flag(&A->work);
    }
    if (!j) continue;
    store(*A->nodes[j->node], *j->rd);
    std::lock_guard<std::mutex> g(A->q_mu);
    set_flag(&j->done);
  }
}

void recv(Node& n, uint64_t k, uint64_t mode) {
  for (uint64_t i = 0; i < k; i++) {
    Mail x;
    {
      std::lock_guard<std::mutex> g(n.box_mu);
      if (n.box.empty()) return;
      if (mode & 4) x = std::move(n.box.back()), n.box.pop_back();
      else x = std::move(n.box.front()), n.box.pop_front();
    }
    if (((mode & 1) && i == 0) || (mode & 8)) continue;
    int times = (mode & 2) && i == 0 && !x.m ? 2 : 1;
    for (int c = 0; c < times; c++) {
      craft::MsgPtr m = x.m;
      if (!m) {
        m = std::make_shared<raftpb::Message>();
        m->ParseFromString(x.bytes);
      }
      saw(n.rn->Step(m).IsOK());
    }
  }
}

raftpb::ConfChangeV2 conf_change(uint64_t what, int peers) {
  raftpb::ConfChangeV2 c;
  auto add = [&](raftpb::ConfChangeType t, uint64_t id) {
    auto* x = c.add_changes();
    x->set_type(t);
    x->set_node_id(id);
  };
  // node 1 stays a voter
  uint64_t id = peers > 1 ? 2 + what / 8 % (peers - 1) : peers + 1;
  switch (peers > 1 ? what % 8 : what % 3) {
    case 0: add(raftpb::ConfChangeType::ConfChangeAddLearnerNode, peers + 1); break;
    case 1: add(raftpb::ConfChangeType::ConfChangeRemoveNode, peers + 1); break;
    case 2: add(raftpb::ConfChangeType::ConfChangeAddLearnerNode, id); break;
    case 3: case 4: add(raftpb::ConfChangeType::ConfChangeAddNode, id); break;
    case 5: add(raftpb::ConfChangeType::ConfChangeRemoveNode, id); break;
    case 6:
      add(raftpb::ConfChangeType::ConfChangeAddNode, id);
      add(raftpb::ConfChangeType::ConfChangeAddLearnerNode, peers + 2);
      break;
    case 7:
      add(raftpb::ConfChangeType::ConfChangeAddLearnerNode, id);
      add(raftpb::ConfChangeType::ConfChangeAddNode, 1 + id % peers);
      break;
  }
  return c;
}

}  // namespace

void setup(const Plan& p) {
  Quiet q;
  A = new App;
  A->plan = p;
  static const craft::LogLevel levels[] = {craft::LogLevel::kDebug, craft::LogLevel::kInfo, craft::LogLevel::kWarning, craft::LogLevel::kError};
  A->logger = std::make_shared<AppLogger>(levels[p.level & 3]);
  int first = 0;
  for (size_t g = 0; g < p.groups.size(); g++) {
    for (int i = 0; i < p.groups[g]; i++) {
      auto n = std::make_unique<Node>();
      n->idx = first + i, n->group = static_cast<int>(g), n->first = first, n->peers = p.groups[g];
      n->id = i + 1;
      A->nodes.push_back(std::move(n));
    }
    first += p.groups[g];
  }
  for (auto& n : A->nodes) {
    n->st = std::make_shared<craft::MemoryStorage>(A->logger);
    auto s = std::make_shared<raftpb::Snapshot>();
    for (int i = 0; i < n->peers; i++) n->conf.add_voters(i + 1);
    *s->mutable_metadata()->mutable_conf_state() = n->conf;
    n->applied = p.behind && n->peers > 1 && static_cast<int>(n->id) < n->peers ? 6 : 1;
    s->mutable_metadata()->set_index(n->applied);
    s->mutable_metadata()->set_term(1);
    s->set_data("0");
    n->st->ApplySnapshot(s);
    raftpb::HardState hs;
    hs.set_term(1);
    hs.set_commit(n->applied);
    n->st->SetHardState(hs);
    publish(*n);
  }
  for (int t = 1; t < kMaxT; t++)
    if (!p.th[t].empty() && p.th[t][0].kind != kWriter) A->running++;
  if (!A->running) A->work = 1;
}

void run_op(int t, const Op& o) {
  if (o.kind == kWriter) {
    writer_loop();
    return;
  }
  if (o.kind == kLook) {
    std::shared_ptr<HeldStatus> s;
    {
      std::lock_guard<std::mutex> g(A->look_mu);
      if (A->looks.empty()) return;
      s = A->looks.front();
      A->looks.pop_front();
    }
    if (h_status(s->st) != s->h) fail("result-changed", "a status changed after it was returned");
    return;
  }
  if (o.n >= A->nodes.size()) return;
  Node& n = *A->nodes[o.n];
  if (o.kind == kSnap) {
    uint64_t i, chain;
    raftpb::ConfState cs;
    std::lock_guard<std::mutex> l(n.snap_mu);
    {
      std::lock_guard<std::mutex> g(n.pub_mu);
      i = n.pub_applied, chain = n.pub_chain, cs = n.pub_conf;
    }
    char b[32];
    snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(chain));
    auto [s, err] = n.st->CreateSnapshot(i, &cs, b);
    if (err.IsOK()) {
      count(kSnapshots);
      saw(rt::hs(s->SerializeAsString()));
      if (i > o.a && n.st->Compact(i - o.a).IsOK()) count(kCompactions);
    }
    return;
  }
  if (o.kind == kSread) {
    count(kReads);
    auto [f, e1] = n.st->FirstIndex();
    auto [l, e2] = n.st->LastIndex();
    (void)e1, (void)e2;
    uint64_t h = 5;
    if (l >= f) {
      auto [es, e3] = n.st->Entries(l - f > o.a ? l - o.a : f, l + 1, UINT64_MAX);
      if (e3.IsOK()) h = h_ents(es, h);
      auto [tm, e4] = n.st->Term(l);
      if (e4.IsOK()) h = rt::hc(h, tm);
    }
    auto [s, e5] = n.st->SnapShot();
    if (e5.IsOK() && s) h = rt::hc(h, rt::hs(s->SerializeAsString()));
    auto [hs, cs, e6] = n.st->InitialState();
    h = rt::hc(h, rt::hs(hs.SerializeAsString()) ^ rt::hs(cs.SerializeAsString()) ^ e6.IsOK());
    if (A->plan.indep) saw(h);
    return;
  }
  std::unique_lock<std::mutex> g(n.mu, std::defer_lock);
  if (A->plan.shared) g.lock();
  if (!n.rn) start(n);
  switch (o.kind) {
    case kTick:
      for (uint64_t i = 0; i < o.a; i++) n.rn->Tick();
      break;
    case kCampaign: saw(n.rn->Campaign().IsOK()); break;
    case kRecv: recv(n, o.a, o.b); break;
    case kPropose: saw(n.rn->Propose(payload(o.b, o.a)).IsOK()); break;
    case kConf: {
      auto c = conf_change(o.a, n.peers);
      if (o.b == 1) c.Clear();
      else if (o.b == 2) c.set_transition(raftpb::ConfChangeTransition::ConfChangeTransitionJointExplicit);
      saw(n.rn->ProposeConfChange(craft::ConfChangeI(c)).IsOK());
      break;
    }
    case kRead: n.rn->ReadIndex("r" + std::to_string(o.b)); break;
    case kTransfer: n.rn->TransferLeader(1 + o.a % n.peers); break;
    case kReady: do_ready(n, o.a & 1); break;
    case kFinish:
      if (A->plan.shared && o.a) {
        // waits without keeping the others off the node
        std::shared_ptr<Job> j = n.job;
        if (j) {
          g.unlock();
          wait_flag(&j->done);
          g.lock();
        }
      }
      finish_job(n, o.a && !A->plan.shared);
      break;
    case kStatus: {
      auto s = std::make_shared<HeldStatus>();
      s->st = n.rn->GetStatus();
      s->h = h_status(s->st);
      saw(s->h);
      count(kStatuses);
      n.rn->WithProgress([&](uint64_t id, craft::ProgressType, craft::ProgressPtr pr) { s->st.progress[id + 1000] = pr; });
      s->h = h_status(s->st);
      std::lock_guard<std::mutex> l(A->look_mu);
      A->looks.push_back(s);
      break;
    }
    case kReport: n.rn->ReportUnreachable(1 + o.a % n.peers); break;
    case kRestart:
      if (n.job) break;
      n.rn.reset();
      {
        std::lock_guard<std::mutex> l(n.snap_mu);
        // the state machine is rebuilt from the last snapshot
        auto [s, err] = n.st->SnapShot();
        if (!err.IsOK() || !s) break;
        n.applied = s->metadata().index();
        n.conf = s->metadata().conf_state();
        n.chain = strtoull(s->data().c_str(), nullptr, 16);
        publish(n);
        start(n);
      }
      break;
  }
}

void thread_done(int t) {
  if (A->plan.th[t].empty() || A->plan.th[t][0].kind == kWriter) return;
  std::lock_guard<std::mutex> g(A->q_mu);
  if (--A->running == 0) set_flag(&A->work);
}

void finish() {
  for (int t = 0; t < kMaxT; t++)
    for (auto& x : A->held[t]) {
      count(kHeld);
      if (h_ready(*x.rd, !A->plan.pointers) != x.h) fail("result-changed", x.what + " changed after it was handed out");
    }
  for (auto& s : A->looks)
    if (h_status(s->st) != s->h) fail("result-changed", "a status changed after it was returned");
}

void forget() {
  delete A;
  A = nullptr;
}

void warm_up() {
  // one-time initialisation inside the libraries must not happen in a fiber
  raftpb::Message m;
  m.set_type(raftpb::MessageType::MsgApp);
  m.add_entries()->set_data("x");
  m.mutable_snapshot()->mutable_metadata()->mutable_conf_state()->add_voters(1);
  m.ParseFromString(m.SerializeAsString());
  (void)m.DebugString().size();
  (void)m.ShortDebugString().size();
  (void)raftpb::MessageType_Name(m.type()).size();
  (void)raftpb::EntryType_Name(raftpb::EntryType::EntryNormal).size();
  (void)raftpb::ConfChangeType_Name(raftpb::ConfChangeType::ConfChangeAddNode).size();
  (void)raftpb::ConfChangeTransition_Name(raftpb::ConfChangeTransition::ConfChangeTransitionAuto).size();
  raftpb::ConfChange c1;
  c1.set_context("x");
  c1.ParseFromString(c1.SerializeAsString());
  raftpb::ConfChangeV2 c2;
  c2.add_changes()->set_node_id(1);
  c2.ParseFromString(c2.SerializeAsString());
  raftpb::HardState hs;
  (void)hs.SerializeAsString().size();
  (void)hs.DebugString().size();
  auto s = craft::Status::Error("%s", "x");
  craft::Status t = s;
  (void)t;
}

}  // namespace thr
