// The simulator: a discrete-event world of raft nodes (real library code),
// their application, disks and network, and the oracles that watch it.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "plan.h"
#include "refcfg.h"
#include "rt.h"
#include "src/rawnode.h"
#include "src/storage.h"

namespace sim {

enum Fault {
  F_DROP = 0, F_DUP, F_REORDER, F_PART, F_ONEWAY, F_LOSSY, F_CRASH, F_CRASH_TRIG, F_CRASHALL, F_TORN, F_LOSTHS,
  F_RESTART, F_STALL, F_SLOW, F_SKEW, F_JUMP, F_SNAPUNAVAIL, F_SNAPLOST, F_UNREACH, F_REPLAY, F_BADMSG,
  F_STARTNE, F_COMPACT, F_BLOCKED, F_LIBCRASH, F_CONF, F_TRANSFER, F_CAMPAIGN, F_SYNTH, F_RACE_COMPACT, F_RACE_WRITE, F_QUIESCED, F_NUM
};
extern const char* const kFaultName[F_NUM];

enum Situation {
  S_replaced_while_in_ready, S_replaced_same_end_in_ready, S_conflict_truncation, S_append_rejected, S_snapshot_handed_out, S_snapshot_ignored_fast_forward, S_joint_entered, S_restart_in_joint, S_new_leader_in_joint, S_snapshot_taken_in_joint, S_leader_left_voters, S_leader_removed_self, S_conf_refused, S_auto_leave_proposed, S_transfer_completed, S_transfer_aborted, S_proposal_refused_in_transfer, S_proposal_refused_size, S_check_quorum_step_down, S_stable_window_armed, S_quiet_transfer, S_read_forwarded, S_read_before_commit_in_term, S_read_pending_at_leadership_loss, S_reads_batched, S_window_full, S_probe_paused, S_snapshot_state, S_prevote_failed, S_vote_split, S_commit_advanced_by_conf_change, S_learner_promoted, S_voter_demoted, S_batch_with_conf, S_crash_with_ready_open, S_conf_entry_truncated, S_bootstrap_on_bare_hard_state, S_cut_at_trigger, S_cut_between_memberships, S_prompt_step, S_probe_second_round, S_probe_third_round, S_NUM
};
extern const char* const kSituation[S_NUM];

constexpr size_t kBitmapBits = 1u << 22;

enum ResStatus { kRunning = 0, kOk = 1, kViolation = 2, kInternal = 3 };

// Lives in shared memory; plain data only.
constexpr int kMaxFinding = 12;

struct Result {
  int status;
  uint32_t noted;             // every property bit any oracle raised
  uint32_t vmask;             // bits of the decisive violation
  char code[48];
  char detail[700];
  char noted_code[48];
  char noted_detail[400];
  uint64_t hash;
  int64_t sim_units;
  uint64_t calls, msgs, applied, elections, reads, props, confs, snaps;
  uint64_t faults[F_NUM];
  uint64_t sit[S_NUM];
  uint64_t known[kMaxFinding];  // occurrences by finding number
  char known_detail[kMaxFinding][240];
  int nontrivial;
  int healed;                 // heal phase completed
  int64_t heal_ticks;
  uint64_t checks;            // property evaluations by the target's oracle
};

struct DEnt { uint64_t term; uint64_t h; craft::EntryPtr e; };

// What is on the node's disk, independent of the library.
struct Durable {
  raftpb::HardState hs;
  uint64_t sidx = 0, sterm = 0;
  std::string sdata;
  raftpb::ConfState scs;
  uint64_t off = 0, offterm = 0;  // compaction point
  std::deque<DEnt> e;             // e[k] has index off+1+k
  uint64_t last() const { return off + e.size(); }
  // 0 if unknown
  uint64_t term(uint64_t i) const {
    if (i == off) return offterm;
    if (i < off || i > last()) return 0;
    return e[i - off - 1].term;
  }
  bool has(uint64_t i, uint64_t t) const { return i <= sidx || (i > off && i <= last() && e[i - off - 1].term == t) || (i == off && offterm == t); }
  // durable state machine (smode 1)
  uint64_t sm_applied = 0, sm_chain = 0;
  RefCfg sm_ref;
  raftpb::ConfState sm_cs;
  bool empty() const { return hs.term() == 0 && hs.vote() == 0 && hs.commit() == 0 && last() == 0 && sidx == 0; }
};

class SimStorage : public craft::Storage {
 public:
  explicit SimStorage(std::shared_ptr<craft::MemoryStorage> m) : ms(std::move(m)) {}
  std::tuple<raftpb::HardState, raftpb::ConfState, craft::Status> InitialState() const override {
    auto t = ms->InitialState();
    if (has_cs) std::get<1>(t) = cs;
    return t;
  }
  std::tuple<craft::EntryPtrs, craft::Status> Entries(uint64_t lo, uint64_t hi, uint64_t mx) override {
    hit();
    return ms->Entries(lo, hi, mx);
  }
  std::tuple<uint64_t, craft::Status> Term(uint64_t i) override {
    hit();
    return ms->Term(i);
  }
  std::tuple<uint64_t, craft::Status> LastIndex() override {
    hit();
    return ms->LastIndex();
  }
  std::tuple<uint64_t, craft::Status> FirstIndex() override {
    hit();
    return ms->FirstIndex();
  }
  std::tuple<std::shared_ptr<raftpb::Snapshot>, craft::Status> SnapShot() override {
    if (unavail) {
      unavail_hits++;
      return std::make_tuple(std::shared_ptr<raftpb::Snapshot>(), craft::Status::Error(craft::kErrSnapshotTemporarilyUnavailable));
    }
    asked++;
    hit();
    return ms->SnapShot();
  }
  // Another thread of the application uses the storage in the middle of a
  // library call: right before the call's race_in-th access.
  void hit() {
    if (!in_call || race_in <= 0 || --race_in) return;
    auto f = std::move(racer);
    racer = nullptr;
    in_call = false;
    f();
    in_call = true;
  }
  void arm(int kind, int64_t k, std::function<void()> f) {
    race_kind = kind;
    race_in = k;
    racer = std::move(f);
  }
  void disarm() {
    race_in = 0;
    racer = nullptr;
  }
  int race_kind = 0;  // 1 compaction, 2 write
  bool in_call = false;
  int64_t race_in = 0;
  std::function<void()> racer;
  std::shared_ptr<craft::MemoryStorage> ms;
  bool has_cs = false;
  raftpb::ConfState cs;
  bool unavail = false;
  uint64_t unavail_hits = 0;
  uint64_t asked = 0;  // the library wants to send a snapshot
};

struct Cap {  // observable state of a node around a call
  uint64_t term = 0, vote = 0, lead = 0, commit = 0, applied = 0, last = 0, last_term = 0, transferee = 0;
  int state = 0;
  size_t nmsgs = 0, nreads = 0;
};

struct MEnt { craft::EntryPtr p; uint64_t term, h; };

// Reference for one follower's replication window as seen on the wire.
struct Win {
  enum S { Probe, Replicate, Snapshot } s = Probe;
  bool credit = true;
  uint64_t match = 0, pend = 0;
  std::deque<uint64_t> out;
};

struct Rd {
  std::shared_ptr<craft::Ready> rd;
  uint64_t h_entries = 0, h_committed = 0, h_hs = 0, h_snap = 0, h_reads = 0, h_msgs = 0;
  bool full = true;
};

struct Comp {
  craft::SnapshotPtr out;
  std::string data;
  bool ok = true, cok = true;
  uint64_t index = 0, term = 0, cidx = 0;
  raftpb::ConfState cs;
};

struct Held {  // something the application obtained and keeps
  int node = 0;
  craft::SnapshotPtr snap;
  craft::EntryPtrs ents;
  uint64_t h = 0;
};

enum Call { K_TICK, K_STEP, K_PROPOSE, K_CONF, K_READ, K_CAMPAIGN, K_TRANSFER, K_APPLYCONF, K_READY, K_ADVANCE, K_REPORT, K_NEW, K_STORAGE, K_PEEK };

// A vector indexed by log index, whose lowest index may be large.
template <class T>
struct IdxVec {
  std::deque<T> v;
  uint64_t off = 0;
  T zero = T();
  void init(uint64_t o, size_t n) {
    off = o;
    v.assign(n, T());
  }
  uint64_t size() const { return off + v.size(); }
  void resize(uint64_t n) { v.resize(n - off); }
  T& operator[](uint64_t i) {
    if (i < off || i - off >= v.size()) return zero = T();
    return v[i - off];
  }
};

struct Node {
  uint64_t id = 0;
  bool started = false, up = false, stopped = false;
  int inc = 0;
  std::unique_ptr<craft::RawNode> rn;
  std::shared_ptr<SimStorage> st;
  Durable dur;
  bool has_uhs = false;
  raftpb::HardState uhs;
  rt::GenState gen;
  Cap cap;
  // mirror of the in-memory log
  uint64_t mfirst = 1;
  struct Phase {  // of probing one member: the last refused place's term
    uint64_t term = 0, last = 0, next = 0;
    int finc = 0, inc = 0, rounds = 0;
  };
  std::map<uint64_t, Phase> probes;
  std::deque<MEnt> mlog;
  // pipeline
  int stage = 0;  // 0 idle, 1 got (persist pending), 2 persisted (apply pending)
  bool pumped = false;
  Rd cur;
  Cap rdcap;
  std::deque<std::function<void()>> inbox;
  std::deque<std::function<void()>> deferred;  // snapshots waiting for the current Ready
  int inbox_ticks = 0;
  bool snap_pending = false;
  bool raw = false;                // this Ready already is in the storage, though not on disk
  std::shared_ptr<Comp> comp;      // a compaction that happened within the current library call
  uint64_t stageno = 0;
  // ready contract
  uint64_t handed = 0;
  uint64_t exposed_commit = 0;
  std::deque<uint64_t> acc_msgs;  // hashes of messages produced, not yet handed out
  std::deque<uint64_t> acc_reads;
  uint64_t soft_lead = 0;
  int soft_state = 0;
  raftpb::HardState last_hs;      // last hard state handed out (or loaded)
  std::deque<Rd> kept;
  // application
  uint64_t applied = 0, chain = 0;
  RefCfg ref;
  raftpb::ConfState cs;
  // timing
  int64_t ticks = 0;
  int64_t period = kTick;
  uint64_t leadchg = 0;  // times the leader this node knows changed
  bool prevote = false, checkq = false, nofwd = false;  // this incarnation's options
  int64_t stall_until = 0;
  int64_t slow = 0, slow_until = 0;
  uint64_t crashes = 0;
  // knowledge for oracles
  int64_t lead_tick = -1000000;    // own tick of last processed leader message
  uint64_t lead_tick_term = 0;
  std::map<uint64_t, int64_t> heard;  // leader: own tick a voter was last heard
  int64_t transfer_tick = 0;
  uint64_t lead_last = 0;          // last index before becoming leader
  uint64_t lead_term = 0;
  uint64_t conf_err_hi = 0;        // conf proposals refused with an error may reserve up to here
  uint64_t pv_own = 0;             // term this node last requested pre-votes for
  uint64_t refresh_n = 0;
  uint64_t inherited = 0;          // payload of foreign-term entries applied while leader
  std::map<uint64_t, Win> win;
  std::set<std::string> lead_reads;  // reads this leader took and has not answered
  uint64_t vote_term = 0;          // term of collected grants
  uint64_t grants = 0;             // processed MsgVoteResp grants
  uint64_t pv_term = 0, pv_grants = 0;
  uint64_t max_term = 0;
  // timers, in own ticks
  int64_t el_low = 0, el_up = 0;   // the election timer last restarted: no earlier, no later
  int64_t hb_base = 0;             // became leader
  uint64_t el_snap = 0;            // a snapshot up to here waits to be taken over
  std::vector<int64_t> waits;      // observed waits, one per draw of the timeout
  bool wait_new = true;            // the timeout was drawn anew since the last observed wait
  std::map<uint64_t, uint64_t> matched;  // leader: Match reported for each member in this term
  std::vector<std::pair<craft::NodeStatus, uint64_t>> kept_status;
  std::map<uint64_t, std::pair<uint64_t, int64_t>> lead_seen;  // term -> (leader, time last leader message processed)
};

struct Flight {
  raftpb::Message m;
  int from = 0, to = 0;
  int from_inc = 0;
  bool dup = false;
  int64_t seq = 0;
  bool live = false;
};

struct PropRec {
  uint64_t node = 0;
  int inc = 0;
  std::string data;
  bool refused = false, accepted = false;
  bool direct = false;
  uint64_t term = 0;
  uint64_t order = 0;
  bool dup = false;
  int batch = -1, bpos = 0;
  int gap = 1;  // entries since the previous item of the batch
  uint64_t applied_at = 0;
  bool conf = false;
};
struct ReadRec {
  uint64_t node = 0;
  uint64_t min_index = 0;
  int64_t t = 0;
  bool heal = false;
  bool done = false;
  int inc = 0;             // heal reads: incarnation, leader and term it was issued under
  uint64_t lead = 0, lterm = 0, confs = 0, leadchg = 0;
  int lease_class = 0;  // 0 none, 1 answered validly, 2 known hole
};

struct StopRun {};

class Sim {
 public:
  Sim(const Plan& plan, Result* res, uint8_t* bitmap, bool trace);
  void run();

 private:
  struct Ev {
    int64_t t;
    uint64_t seq;
    std::function<void()> f;
    bool operator<(const Ev& o) const { return t != o.t ? t > o.t : seq > o.seq; }
  };

  const Plan& plan_;
  const Cfg& c_;
  Result* r_;
  uint8_t* bm_;
  bool trace_;
  uint64_t seed_;
  uint32_t target_;
  int64_t now_ = 0;
  uint64_t evseq_ = 0;
  uint64_t hash_ = 0;
  std::priority_queue<Ev> q_;
  std::vector<std::unique_ptr<Node>> nodes_;  // index = id, [0] unused
  std::shared_ptr<craft::Logger> logger_;
  int npeers_ = 0;
  bool done_ = false;

  // network
  std::map<uint64_t, Flight> flights_;
  uint64_t flight_id_ = 0;
  std::vector<int64_t> link_seq_, link_last_;
  std::vector<int64_t> blocked_until_;      // per link
  std::vector<int64_t> extra_until_, extra_;
  int64_t lossy_until_ = 0, lossy_ = 0;
  std::deque<raftpb::Message> history_;
  bool healing_ = false, calm_ = false;

  // global oracle state
  struct GEnt { uint64_t h, prev; uint16_t node; int inc; bool solid; };
  std::unordered_map<uint64_t, GEnt> glog_;  // key hash of (index, term)
  struct CEnt { uint64_t term = 0, h = 0, chain = 0, bound = 0; bool known = false; };
  IdxVec<CEnt> committed_;              // by index
  uint64_t max_exposed_ = 0;
  std::map<std::tuple<uint64_t, uint64_t, int, uint64_t>, uint64_t> agree_;  // (term, node, inc, place refused) -> where the logs agree
  std::map<uint64_t, std::pair<uint64_t, int>> claims_;  // term -> (node, inc)
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> votes_;  // (voter, term) -> candidate
  std::map<uint64_t, PropRec> props_;
  std::unordered_map<uint64_t, uint64_t> conf_props_;  // hash of data -> count
  uint64_t prop_id_ = 0, batch_id_ = 0, order_ = 0;
  std::map<std::pair<std::pair<uint64_t, int>, uint64_t>, uint64_t> fifo_;  // ((node,inc),term) -> last applied order
  uint64_t last_applied_prop_ = 0;
  std::map<std::string, ReadRec> reads_;
  uint64_t read_id_ = 0;
  std::vector<Held> held_;
  IdxVec<uint64_t> applied_seq_prop_;  // index -> prop id (0 none)
  IdxVec<RefCfg> ref_at_;              // index -> reference config after applying index (idx)
  IdxVec<bool> ref_known_;

  struct Trig { int64_t node; int what; int act; int64_t k; int64_t down; bool live; };
  std::vector<Trig> trigs_;

  // stability window
  struct Stable { bool on = false, armed = false; int64_t warm = 0; uint64_t leader = 0, term = 0, quorum = 0; int inc = 0; int64_t until = 0; } stable_;
  uint64_t watch_seq_ = 0;

  // quiet phase after recovery
  struct Quiet { int stage = 0; int64_t from = 0, until = 0; uint64_t leader = 0, term = 0, last = 0, hb = 0, other = 0; int64_t ticks0 = 0; uint64_t members = 0; int inc = 0; } quiet_;
  std::string conf_context();
  uint64_t conf_ctx_ = 0;
  void quiet_tick();
  void quiet_message(const raftpb::Message& m);
  void quiet_ready(Node& n, craft::Ready& rd);
  // client work while no clock ticks, after the quiet phase
  struct Prompt { int step = 0, steps = 0, kind = 0; int64_t since = 0, deadline = 0; std::vector<std::string> reads; std::vector<uint64_t> props; uint64_t target = 0; bool entered = false; } prompt_;
  bool wants(int p) const { return is_target(p) || target_ == 1; }
  bool frozen() const { return quiet_.stage == 4; }
  void quiet_next(int after);
  void prompt_begin();
  bool prompt_done(std::string* why);
  void prompt_tick();
  void rest_tick();
  void release(Node& n);
  bool measured_ = false;
  // heal
  uint64_t confs_applied_ = 0;
  int64_t heal_start_ = 0;
  uint64_t heal_probe_ = 0;
  int64_t heal_probe_t_ = 0;
  uint64_t heal_target_ = 0;
  int64_t heal_stable_since_ = -1;
  uint64_t heal_leader_ = 0, heal_term_ = 0;
  int64_t heal_leave_t_ = -1000000000;
  int64_t heal_read_t_ = -1000000000;
  std::map<uint64_t, bool> heal_read_ok_;
  std::set<std::tuple<uint64_t, uint64_t, std::string>> dup_reads_;
  bool dup_read_seen_ = false;
  bool heal_probe_ok_ = false;
  uint64_t heal_members_ = 0;
  uint64_t ever_removed_ = 0;
  std::string heal_why_;

  // --- helpers
  uint64_t H(uint64_t tag, uint64_t a = 0, uint64_t b = 0, uint64_t d = 0) const {
    return rt::hc(rt::hc(rt::hc(rt::hc(seed_, tag), a), b), d);
  }
  static int64_t in_range(uint64_t h, int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + static_cast<int64_t>(h % static_cast<uint64_t>(hi - lo + 1)); }
  void at(int64_t t, std::function<void()> f);
  void ev(uint64_t a, uint64_t b = 0, uint64_t c = 0) { hash_ = rt::hc(rt::hc(rt::hc(hash_, a), b), c); }
  void sit(int s) { r_->sit[s]++; }
  void fault(int f) { if (f < F_NUM) r_->faults[f]++; }
  void viol(uint32_t mask, const char* code, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  static uint32_t panic_mask(const std::string& where);
  void known(int finding, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void tr(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  static uint32_t P(int p) { return 1u << p; }
  bool is_target(int p) const { return target_ & P(p); }
  Node& N(uint64_t id) { return *nodes_[id]; }
  size_t maxid() const { return nodes_.size() - 1; }
  RefCfg inforce(Node& n);

  // --- node life cycle
  void boot(Node& n);
  void start(Node& n, bool via_start);
  void crash(Node& n, int64_t down, bool torn_allowed = true);
  void stop(Node& n);
  void restart_at(Node& n, int64_t t);
  void lib_crash(Node& n, const rt::Panic& p, const char* where);
  bool use(Node& n, Call k, const raftpb::Message* m, const std::function<void()>& fn, bool* alive = nullptr);
  bool guard_storage(Node& n, const char* what, const std::function<void()>& fn);
  Cap capture(Node& n);

  // --- events
  void schedule_tick(Node& n);
  void tick(Node& n);
  void deliver(uint64_t fid);
  void handle_msg(Node& n, const raftpb::Message& m, int from_inc);
  uint64_t base() const { return static_cast<uint64_t>(c_.base); }
  void submit(Node& n, std::function<void()> f, bool local = false);  // respect busy/stalled nodes
  bool node_busy(Node& n);
  void drain(Node& n);
  void pump(Node& n);
  void take_ready(Node& n, int inc);
  void persist(Node& n, int inc, uint64_t stageno);
  void finish(Node& n, int inc, uint64_t stageno);
  int64_t stage_delay(Node& n, int64_t base, int which);
  void send(Node& n, const raftpb::Message& m);
  void transmit(int from, int from_inc, int to, const raftpb::Message& m, bool faulty);
  bool apply_entry(Node& n, const raftpb::Entry& e);
  bool restore_snapshot(Node& n, const raftpb::Snapshot& s);
  bool can_snapshot(Node& n, bool forced);
  std::shared_ptr<Comp> do_snapshot(Node& n, int64_t keep);
  void maybe_snapshot(Node& n, int64_t keep, bool forced, bool race = true);
  void snapshot_done(Node& n, const Comp& c);
  void write_ready(Node& n, const craft::Ready& rd);
  void flush(Node& n);
  void cut_at(Node& n, int act, int64_t dur);
  void trigger(Node& n, int what);
  void report_snapshot(uint64_t node, int inc, uint64_t peer, bool ok, int64_t delay);
  void report_unreach(uint64_t node, int inc, uint64_t peer, int64_t delay);

  // --- client operations
  void do_op(const Op& op, size_t idx);
  Node* select(int64_t sel, uint64_t h);
  Node* leader();
  uint64_t propose(Node& n, int64_t size, bool heal = false);
  void batch(Node& n, int64_t count, int64_t size, uint64_t mixed);
  void synth(Node& l, Node& t, int64_t what, uint64_t h, bool soon = false);
  void resnap(Node& n);
  struct Probe { bool ok = false; int state = 0; uint64_t next = 0; };
  Probe probe_of(Node& l, uint64_t id);
  void note_mismatch(Node& n, const raftpb::Message& m, int finc);
  void check_probe(Node& l, const raftpb::Message& m, int finc, const Probe& pre, uint64_t term_at);

  bool choose_conf(Node& n, int what, uint64_t h, int transition, RefCC* cc, bool* v1);
  void read(Node& n, bool heal);
  void conf(Node& n, int what, uint64_t h, int transition);
  void propose_conf(Node& n, const RefCC& cc, bool v1);
  void bad_message(Node& n, int what, uint64_t h);
  void start_stable(int64_t dur);
  void check_stable();
  void disturb(int what, int64_t dur, uint64_t h);
  bool settled(bool strict, std::string* why = nullptr);
  bool node_settled(Node& n, Node& l);
  uint64_t voters_q(Node& l, uint64_t h);

  // --- oracles
  void after(Node& n, Call k, const raftpb::Message* m, const Cap& pre);
  void refresh_log(Node& n, Call k, const raftpb::Message* m, const Cap& pre, bool leader_before);
  void on_leader(Node& n, Call k, const Cap& pre);
  void on_commit(Node& n, const Cap& pre);
  void on_produced(Node& n, const raftpb::Message& m, Call k, const raftpb::Message* in, const Cap& pre);
  void on_send(Node& n, const raftpb::Message& m);
  void on_new_own_entries(Node& n, Call k, const raftpb::Message* in, const Cap& pre, uint64_t from);
  void check_ready(Node& n, craft::Ready& rd);
  void check_peek(Node& n);
  void check_conf(Node& n, const char* where);
  void on_timers(Node& n, Call k, const raftpb::Message* m, const Cap& pre, bool started, bool became);
  void check_status(Node& n, Call k);
  static uint64_t status_hash(const craft::NodeStatus& s);
  void check_storage(Node& n, bool deep);
  void check_kept(Node& n, bool all);
  void check_held(bool all);
  void expose(Node& n, const raftpb::Entry& e);
  uint64_t chain_at(uint64_t idx, bool* ok);
  void win_in(Node& n, const raftpb::Message& m);
  void win_out(Node& n, const raftpb::Message& m);
  void lead_read(Node& n, const std::string& ctx);
  void read_done(Node& n, const craft::ReadState& rs);
  void lease_answer(Node& n, const std::string& ctx, uint64_t index);
  void prop_result(Node& n, const raftpb::Message& in, const Cap& pre, bool ok);
  uint64_t own_tail(Node& n, uint64_t applied, uint64_t upto);
  bool conf_in(Node& n, uint64_t lo, uint64_t hi);
  void solidify(Node& n, uint64_t idx, uint64_t term);
  const MEnt* ment(Node& n, uint64_t i) { return i >= n.mfirst && i - n.mfirst < n.mlog.size() ? &n.mlog[i - n.mfirst] : nullptr; }
  void abstract_state();
  void final_checks();
  Rd keep(std::shared_ptr<craft::Ready> rd);
  bool same(const Rd& k, const char** what);

  // --- heal
  void start_heal();
  void heal_tick();
  void heal_sets();
  bool heal_done(uint64_t skip = 0);
  bool shrink_deadlock(std::string* who);
  bool race_deadlock(std::string* who);
};

uint64_t ehash(const raftpb::Entry& e);      // type, term, data
uint64_t prop_of(const raftpb::Entry& e);   // 0 if not a client proposal
uint64_t msg_hash(const raftpb::Message& m);
uint64_t snap_hash(const raftpb::Snapshot& s);

}  // namespace sim
