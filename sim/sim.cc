// Engine: world, pipeline, network, client operations. Oracles are in oracle.cc.
#include "sim.h"

#include <inttypes.h>
#include <stdarg.h>
#include <stdio.h>

#include <algorithm>

namespace sim {

const char* const kFaultName[F_NUM] = {
    "msg_drop", "msg_duplicate", "msg_reorder", "partition", "one_way_cut", "lossy_period", "crash", "crash_at_trigger",
    "crash_all", "torn_persist", "lost_unsynced_hardstate", "restart", "stall", "slow_disk_or_apply", "clock_skew",
    "clock_jump", "snapshot_unavailable", "snapshot_lost", "unreachable_report", "stale_message_replay",
    "illegal_message", "bootstrap_on_nonempty", "compaction", "blocked_message", "library_abort", "conf_change",
    "leader_transfer", "forced_campaign", "extra_leader_message", "compaction_within_call", "storage_write_within_call", "quiesced_tick"};

const char* const kSituation[S_NUM] = {
    "replaced_while_in_ready", "replaced_same_end_in_ready", "conflict_truncation", "append_rejected", "snapshot_handed_out", "snapshot_ignored_fast_forward", "joint_entered", "restart_in_joint", "new_leader_in_joint", "snapshot_taken_in_joint", "leader_left_voters", "leader_removed_self", "conf_refused", "auto_leave_proposed", "transfer_completed", "transfer_aborted", "proposal_refused_in_transfer", "proposal_refused_size", "check_quorum_step_down", "stable_window_armed", "quiet_transfer", "read_forwarded", "read_before_commit_in_term", "read_pending_at_leadership_loss", "reads_batched", "window_full", "probe_paused", "snapshot_state", "prevote_failed", "vote_split", "commit_advanced_by_conf_change", "learner_promoted", "voter_demoted", "batch_with_conf", "crash_with_ready_open", "conf_entry_truncated", "bootstrap_on_bare_hard_state", "cut_at_trigger", "cut_between_memberships", "prompt_step", "probe_second_round", "probe_third_round"};

namespace {
class SimLogger : public craft::Logger {
 public:
  explicit SimLogger(bool all) : craft::Logger(all ? craft::LogLevel::kDebug : craft::LogLevel::kFatal) {}
  void Logv(craft::LogLevel level, const char* format, va_list ap) override {
    char b[600];
    vsnprintf(b, sizeof b, format, ap);
    if (level == craft::LogLevel::kFatal) rt::raise_fatal(b);
  }
};
}  // namespace

uint64_t ehash(const raftpb::Entry& e) { return rt::hc(rt::hc(rt::hs(e.data()), e.term()), static_cast<uint64_t>(e.type())); }
uint64_t snap_hash(const raftpb::Snapshot& s) {
  uint64_t h = rt::hs(s.data());
  h = rt::hc(h, s.metadata().index());
  h = rt::hc(h, s.metadata().term());
  RefCfg c = ref_from(s.metadata().conf_state());
  return rt::hc(rt::hc(rt::hc(rt::hc(rt::hc(h, c.in), c.out), c.lrn), c.lnext), c.autol);
}
uint64_t msg_hash(const raftpb::Message& m) {
  uint64_t h = rt::hc(static_cast<uint64_t>(m.type()), m.to());
  h = rt::hc(h, m.from());
  h = rt::hc(h, m.term());
  h = rt::hc(h, m.logterm());
  h = rt::hc(h, m.index());
  h = rt::hc(h, m.commit());
  h = rt::hc(h, m.reject());
  h = rt::hc(h, m.rejecthint());
  h = rt::hs(m.context(), h);
  for (auto& e : m.entries()) h = rt::hc(rt::hc(h, ehash(e)), e.index());
  if (m.has_snapshot()) h = rt::hc(h, snap_hash(m.snapshot()));
  return h;
}

static std::string sm_encode(uint64_t idx, uint64_t chain, const RefCfg& r, size_t pad) {
  char b[200];
  snprintf(b, sizeof b, "S %" PRIu64 " %" PRIx64 " %" PRIx64 " %" PRIx64 " %" PRIx64 " %" PRIx64 " %d;", idx, chain, r.in, r.out, r.lrn, r.lnext, r.autol ? 1 : 0);
  return std::string(b) + std::string(pad, 'x');
}
static bool sm_decode(const std::string& s, uint64_t* idx, uint64_t* chain, RefCfg* r) {
  int a = 0;
  if (sscanf(s.c_str(), "S %" SCNu64 " %" SCNx64 " %" SCNx64 " %" SCNx64 " %" SCNx64 " %" SCNx64 " %d;", idx, chain, &r->in, &r->out, &r->lrn, &r->lnext, &a) != 7) return false;
  r->autol = a != 0;
  return true;
}

Sim::Sim(const Plan& plan, Result* res, uint8_t* bitmap, bool trace)
    : plan_(plan), c_(plan.cfg), r_(res), bm_(bitmap), trace_(trace), seed_(plan.seed), target_(1u << plan.prop) {
  if (plan.prop == 0) target_ = 0xfffffffe;
  logger_ = std::make_shared<SimLogger>(c_.debuglog != 0);
  size_t n = static_cast<size_t>(c_.n_init + c_.n_learn + c_.n_extra);
  for (size_t i = 0; i <= n; i++) {
    nodes_.push_back(std::make_unique<Node>());
    nodes_[i]->id = i;
  }
  link_seq_.assign((n + 1) * (n + 1), 0);
  link_last_.assign((n + 1) * (n + 1), 0);
  blocked_until_.assign((n + 1) * (n + 1), 0);
  extra_until_.assign((n + 1) * (n + 1), 0);
  extra_.assign((n + 1) * (n + 1), 0);
  hash_ = rt::mix(seed_);
}

void Sim::at(int64_t t, std::function<void()> f) { q_.push(Ev{t < now_ ? now_ : t, evseq_++, std::move(f)}); }

void Sim::tr(const char* fmt, ...) {
  if (!trace_) return;
  va_list ap;
  va_start(ap, fmt);
  printf("# %10.3f ", now_ / 1000.0);
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
}

void Sim::viol(uint32_t mask, const char* code, const char* fmt, ...) {
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  tr("VIOL mask=%x %s %s", mask, code, b);
  if (!r_->noted) {
    snprintf(r_->noted_code, sizeof r_->noted_code, "%s", code);
    snprintf(r_->noted_detail, sizeof r_->noted_detail, "%.390s", b);
  }
  r_->noted |= mask;
  if (mask & target_) {
    r_->vmask = mask;
    snprintf(r_->code, sizeof r_->code, "%s", code);
    snprintf(r_->detail, sizeof r_->detail, "t=%.3f %s", now_ / 1000.0, b);
    r_->status = kViolation;
    throw StopRun();
  }
}

void Sim::known(int finding, const char* fmt, ...) {
  char b[240];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  tr("KNOWN D%d %s", finding, b);
  if (!r_->known[finding]) snprintf(r_->known_detail[finding], sizeof r_->known_detail[finding], "t=%.3f %s", now_ / 1000.0, b);
  r_->known[finding]++;
}

// ---------------------------------------------------------------- life cycle

void Sim::run() {
  try {
    npeers_ = static_cast<int>(c_.n_init + (c_.boot ? c_.n_learn : 0));
    uint64_t off = c_.boot ? base() - 1 : 0;
    committed_.init(off, 64);
    ref_at_.init(off, 64);
    ref_known_.init(off, 64);
    applied_seq_prop_.init(off, 64);
    if (c_.boot) {
      // A first snapshot known to every initial member.
      CEnt& ce = committed_[base()];
      ce.term = c_.bterm;
      ce.h = 0;
      ce.chain = rt::mix(77);
      ce.known = true;
      RefCfg r;
      for (int64_t i = 1; i <= c_.n_init; i++) r.in |= bit(i);
      for (int64_t i = 1; i <= c_.n_learn; i++) r.lrn |= bit(c_.n_init + i);
      ref_at_[base()] = r;
      ref_known_[base()] = true;
      max_exposed_ = base();
    }
    for (int64_t i = 1; i <= c_.n_init + (c_.boot ? c_.n_learn : 0); i++) {
      Node& n = N(i);
      at(in_range(H('b', i), 0, kTick - 1), [this, &n] { boot(n); });
    }
    for (size_t i = 0; i < plan_.ops.size(); i++) {
      const Op& op = plan_.ops[i];
      at(op.t, [this, &op, i] { if (!healing_) do_op(op, i); });
    }
    if (c_.heal) at(c_.horizon, [this] { if (!healing_) start_heal(); });
    else at(c_.horizon, [this] { done_ = true; });
    uint64_t n = 0;
    while (!q_.empty() && !done_) {
      Ev e = q_.top();
      q_.pop();
      now_ = e.t;
      e.f();
      if ((++n & 7) == 0) abstract_state();
      if (r_->calls > 60000 && c_.heal && !healing_) start_heal();  // bound the cost of one run
      if ((n & 255) == 0) check_held(false);
      if (n > 3000000) { viol(P(17) | P(12), "event-storm", "more than 3000000 events"); break; }
    }
    if (!measured_) final_checks();
    r_->status = kOk;
  } catch (StopRun&) {
  }
  r_->hash = hash_;
  r_->sim_units = now_;
  r_->nontrivial = r_->elections > 0 && r_->applied > 0;
}

void Sim::boot(Node& n) {
  if (n.started) return;
  n.started = true;
  if (c_.boot && n.id <= static_cast<uint64_t>(npeers_)) {
    n.dur.sidx = base();
    n.dur.sterm = c_.bterm;
    ref_to(ref_at_[base()], &n.dur.scs);
    n.dur.sdata = sm_encode(base(), committed_[base()].chain, ref_at_[base()], 0);
    n.dur.off = base();
    n.dur.offterm = c_.bterm;
    if (H('h') & 1 || base() > 1 || c_.bterm > 1) {
      n.dur.hs.set_term(c_.bterm);
      n.dur.hs.set_commit(base());
    }
  }
  start(n, !c_.boot && n.id <= static_cast<uint64_t>(npeers_));
}

void Sim::start(Node& n, bool via_start) {
  if (n.up) return;
  n.inc++;
  n.up = true;
  n.stopped = false;
  n.stage = 0;
  n.pumped = false;
  n.inbox.clear();
  n.deferred.clear();
  n.inbox_ticks = 0;
  n.snap_pending = false;
  n.raw = false;
  n.comp.reset();
  n.cur = Rd();
  n.acc_msgs.clear();
  n.acc_reads.clear();
  n.has_uhs = false;
  n.lead_tick = -1000000;
  n.lead_tick_term = 0;
  n.el_low = n.el_up = n.hb_base = n.ticks;
  n.el_snap = 0;
  n.waits.clear();
  n.wait_new = true;
  n.matched.clear();
  n.kept_status.clear();
  n.heard.clear();
  n.win.clear();
  n.lead_reads.clear();
  n.vote_term = n.pv_term = 0;
  n.grants = n.pv_grants = 0;
  n.kept.clear();
  n.gen.init = false;
  n.period = kTick;
  if (c_.skew && !healing_) n.period = in_range(H('k', n.id, n.inc), kTick - c_.skew, kTick + c_.skew);
  Durable& d = n.dur;
  // application state
  if (c_.smode == 1 && d.sm_applied >= d.sidx && d.sm_applied > 0) {
    n.applied = d.sm_applied;
    n.chain = d.sm_chain;
    n.ref = d.sm_ref;
    n.cs = d.sm_cs;
  } else if (d.sidx > 0) {
    uint64_t idx;
    if (!sm_decode(d.sdata, &idx, &n.chain, &n.ref) || idx != d.sidx) viol(P(11) | P(2), "snapshot-data", "node %" PRIu64 " snapshot data at %" PRIu64 " does not decode", n.id, d.sidx);
    n.applied = d.sidx;
    n.cs = d.scs;
  } else {
    n.applied = 0;
    n.chain = 0;
    n.ref = RefCfg();
    n.cs.Clear();
  }
  bool fresh = via_start && d.empty();
  if (n.ref.joint()) sit(S_restart_in_joint);
  rt::Panic p;
  craft::Raft::Config cfg;
  bool ok = rt::guarded([&] {
    auto ms = std::make_shared<craft::MemoryStorage>(logger_);
    if (d.sidx > 0) {
      auto s = std::make_shared<raftpb::Snapshot>();
      s->set_data(d.sdata);
      s->mutable_metadata()->set_index(d.sidx);
      s->mutable_metadata()->set_term(d.sterm);
      *s->mutable_metadata()->mutable_conf_state() = d.scs;
      ms->ApplySnapshot(s);
    }
    craft::EntryPtrs ents;
    for (size_t i = 0; i < d.e.size(); i++)
      if (d.off + 1 + i > d.sidx) ents.push_back(std::make_shared<raftpb::Entry>(*d.e[i].e));
    ms->Append(ents);
    if (d.hs.term() || d.hs.vote() || d.hs.commit()) ms->SetHardState(d.hs);
    n.st = std::make_shared<SimStorage>(ms);
  }, &p);
  if (!ok) { lib_crash(n, p, "storage load"); return; }
  // Entries at or below the snapshot are not loaded again.
  if (d.off < d.sidx) {
    size_t drop = std::min<size_t>(d.e.size(), d.sidx - d.off);
    d.e.erase(d.e.begin(), d.e.begin() + drop);
    d.off = d.sidx;
    d.offterm = d.sterm;
  }
  if (c_.smode == 1 && n.applied > d.sidx) {
    n.st->has_cs = true;
    n.st->cs = n.cs;
    cfg.applied = n.applied;
  }
  cfg.id = n.id;
  cfg.election_tick = c_.E;
  cfg.heartbeat_tick = c_.H;
  cfg.storage = n.st;
  cfg.max_size_per_msg = c_.maxmsg < 0 ? craft::Raft::kNoLimit : static_cast<uint64_t>(c_.maxmsg);
  cfg.max_committed_size_per_ready = static_cast<uint64_t>(c_.maxcomm);
  cfg.max_uncommitted_entries_size = static_cast<uint64_t>(c_.maxunc);
  cfg.max_inflight_msgs = c_.inflight;
  // A cluster whose options are being changed node by node.
  uint64_t ho = H('o', n.id, static_cast<uint64_t>(n.inc));
  n.checkq = c_.hetero && !healing_ ? (ho & 1) != 0 : c_.checkq != 0;
  n.prevote = c_.hetero && !healing_ ? (ho & 2) != 0 : c_.prevote != 0;
  n.nofwd = c_.nofwd == 2 ? (ho & 4) != 0 : c_.nofwd != 0;
  cfg.check_quorum = n.checkq;
  cfg.pre_vote = n.prevote;
  cfg.read_only_option = c_.lease ? craft::ReadOnly::kLeaseBased : craft::ReadOnly::kSafe;
  cfg.disable_proposal_forwarding = n.nofwd;
  cfg.logger = logger_;
  std::vector<craft::Peer> peers;
  if (via_start)
    for (int i = 1; i <= npeers_; i++) peers.push_back(craft::Peer{static_cast<uint64_t>(i), ""});
  if (via_start && !fresh) fault(F_STARTNE);
  n.mlog.clear();
  n.mfirst = 1;
  n.cap = Cap();
  tr("node %" PRIu64 " start inc=%d %s term=%" PRIu64 " commit=%" PRIu64 " last=%" PRIu64 " snap=%" PRIu64, n.id, n.inc, via_start ? "Start" : "ReStart", d.hs.term(), d.hs.commit(), d.last(), d.sidx);
  bool two_steps = via_start && H('2', n.id, n.inc) % 2 == 0, refused = false;
  bool alive = use(n, K_NEW, nullptr, [&] {
    if (two_steps) {
      n.rn = craft::RawNode::New(cfg);
      refused = !n.rn->Bootstrap(peers).IsOK();
    } else if (via_start) {
      n.rn = craft::RawNode::Start(cfg, peers);
    } else {
      n.rn = craft::RawNode::ReStart(cfg);
    }
  });
  if (!alive) return;
  if (two_steps && refused == fresh) viol(P(5), "bootstrap-status", "node %" PRIu64 ": Bootstrap on %s storage %s", n.id, fresh ? "an empty" : "a used", refused ? "fails" : "succeeds");
  if (via_start && !fresh && d.last() == 0 && d.sidx == 0) sit(S_bootstrap_on_bare_hard_state);
  // Resumes with exactly what was persisted.
  const Cap& q = n.cap;
  if (!fresh) {
    uint64_t ec = std::max<uint64_t>(d.hs.commit(), d.sidx);
    if (q.term != d.hs.term() || q.vote != d.hs.vote() || q.commit != ec)
      viol(P(5) | (via_start ? 0 : P(3)), "restart-state", "node %" PRIu64 " %s with persisted term=%" PRIu64 " vote=%" PRIu64 " commit=%" PRIu64 " resumed with term=%" PRIu64 " vote=%" PRIu64 " commit=%" PRIu64,
           n.id, via_start ? "started by bootstrap" : "restarted", d.hs.term(), d.hs.vote(), ec, q.term, q.vote, q.commit);
    bool same_log = q.last == d.last() && n.mfirst == d.off + 1 && n.mlog.size() == d.e.size();
    for (size_t i = 0; same_log && i < d.e.size(); i++) same_log = n.mlog[i].h == d.e[i].h;
    if (!same_log) viol(P(5) | P(3) | P(4), "restart-log", "node %" PRIu64 " %s with persisted log (%" PRIu64 ",%" PRIu64 "] resumed with last index %" PRIu64, n.id, via_start ? "started by bootstrap" : "restarted", d.off, d.last(), q.last);
    if (q.applied != n.applied) viol(P(6) | P(5), "restart-applied", "node %" PRIu64 " resumed with applied %" PRIu64 ", expected %" PRIu64, n.id, q.applied, n.applied);
    n.last_hs.set_term(q.term);
    n.last_hs.set_vote(q.vote);
    n.last_hs.set_commit(q.commit);
  } else {
    n.last_hs.Clear();
  }
  if (q.state != craft::kFollower) viol(P(5) | P(1), "restart-role", "node %" PRIu64 " starts in role %d", n.id, q.state);
  n.handed = q.applied;
  n.exposed_commit = q.commit;
  n.soft_lead = 0;
  n.soft_state = 0;
  if (!fresh && n.cap.applied >= static_cast<uint64_t>(c_.boot ? 0 : npeers_)) check_conf(n, "restart");
  schedule_tick(n);
  pump(n);
}

void Sim::stop(Node& n) {
  if (!n.up) return;
  tr("node %" PRIu64 " stopped", n.id);
  crash(n, -1, false);
  n.stopped = true;
}

void Sim::crash(Node& n, int64_t down, bool torn_allowed) {
  if (!n.up) return;
  Durable& d = n.dur;
  uint64_t h = H('t', n.id, n.crashes);
  n.crashes++;
  std::string how = "clean";
  if (n.stage) sit(S_crash_with_ready_open);
  if (n.stage == 1 && torn_allowed && static_cast<int64_t>(h % 1000) < c_.tornp) {
    // The write in progress tears. Legal outcomes only: the order of the write
    // and the must-sync contract are respected (see DESIGN.md).
    auto& rd = *n.cur.rd;
    bool has_snap = !craft::IsEmptySnap(rd.snapshot);
    uint64_t h2 = rt::mix(h);
    bool hs_same_term = rd.hard_state.term() == 0 || rd.hard_state.term() == d.hs.term();
    if (!has_snap && !rd.entries.empty() && hs_same_term && (h2 & 3) != 3) {
      size_t k = (h2 >> 8) % (rd.entries.size() + 1);
      for (size_t i = 0; i < k; i++) {
        auto& e = *rd.entries[i];
        if (e.index() <= d.off || e.index() > d.last() + 1) break;
        while (d.last() >= e.index()) d.e.pop_back();
        d.e.push_back({e.term(), ehash(e), std::make_shared<raftpb::Entry>(e)});
      }
      how = "torn: " + std::to_string(k) + "/" + std::to_string(rd.entries.size()) + " entries, no hard state";
      fault(F_TORN);
    } else if (!has_snap && rd.hard_state.term() != 0 && rd.hard_state.commit() <= d.last() &&
               (rd.entries.empty() || rd.entries[0]->index() > d.last())) {
      d.hs = rd.hard_state;
      n.has_uhs = false;
      how = "torn: hard state only";
      fault(F_TORN);
    }
  }
  if (n.has_uhs) {
    if (static_cast<int64_t>(H('u', n.id, n.crashes) % 1000) < c_.losehs && torn_allowed) fault(F_LOSTHS);
    else d.hs = n.uhs;
  }
  tr("node %" PRIu64 " crash (%s), down %.1f", n.id, how.c_str(), down / 1000.0);
  ev(900, n.id, h);
  n.up = false;
  n.stage = 0;
  n.inbox.clear();
  n.deferred.clear();
  n.kept.clear();
  n.cur = Rd();
  rt::Panic p;
  auto* raw = n.rn.release();
  if (raw && !rt::guarded([&] { delete raw; }, &p)) viol(P(17), "panic-destroy", "node %" PRIu64 ": %s", n.id, p.what);
  n.st.reset();
  n.cap = Cap();
  if (down >= 0) restart_at(n, now_ + down);
}

void Sim::restart_at(Node& n, int64_t t) {
  int inc = n.inc;
  at(t, [this, &n, inc] {
    if (n.up || n.inc != inc || n.stopped) return;
    fault(F_RESTART);
    // Every recovery sometimes goes through the bootstrap entry point, which
    // must leave existing state alone.
    bool mem = n.id <= static_cast<uint64_t>(npeers_);
    bool via = (mem && !c_.boot && n.dur.empty()) || (c_.startne && !n.dur.empty() && H('n', n.id, n.inc) % 3 == 0);
    start(n, via);
  });
}

// A call that brings the node down also fails the property that says what the
// call must achieve.
uint32_t Sim::panic_mask(const std::string& w) {
  static const struct { const char* s; uint32_t m; } t[] = {
      {"Step MsgApp", P(4)}, {"Step MsgAppResp", P(4) | P(15)}, {"Step MsgSnap", P(11)}, {"Step MsgProp", P(8)},
      {"Step MsgReadIndex", P(7)}, {"Step MsgReadIndexResp", P(7)}, {"Step MsgVote", P(10)}, {"Step MsgVoteResp", P(10)},
      {"Step MsgPreVote", P(13)}, {"Step MsgPreVoteResp", P(13)}, {"Step MsgTimeoutNow", P(14)}, {"Step MsgTransferLeader", P(14)},
      {"Propose", P(8)}, {"ProposeConfChange", P(9)}, {"ReadIndex", P(7)}, {"TransferLeader", P(14)}, {"ApplyConfChange", P(9) | P(18)},
      {"GetReady", P(6)}, {"Advance", P(6)}, {"HasReady", P(6)}, {"Report", P(11) | P(15)}, {"New", P(5)},
      {"reading the log", P(4) | P(11)}, {"storage load", P(5) | P(11)}, {"storage read", P(4) | P(11)}, {"storage write", P(4) | P(11)},
      {"CreateSnapshot/Compact", P(11)}, {"Compact", P(11)}, {"SnapShot", P(11)}, {"Entries", P(4) | P(11)}};
  uint32_t m = P(17);
  for (auto& x : t)
    if (w == x.s) m |= x.m;
  return m;
}

void Sim::lib_crash(Node& n, const rt::Panic& p, const char* where) {
  fault(F_LIBCRASH);
  int kind = p.kind;
  tr("node %" PRIu64 " PANIC in %s: %s", n.id, where, p.what);
  n.rn.release();  // its state is unknown; leak it
  bool stage1 = n.stage == 1;
  (void)stage1;
  n.up = false;
  n.stage = 0;
  n.inbox.clear();
  n.deferred.clear();
  n.kept.clear();
  n.cap = Cap();
  if (n.has_uhs) n.dur.hs = n.uhs;
  n.has_uhs = false;
  // A call during which the log was compacted.
  uint32_t raced = n.comp ? P(11) : 0;
  viol(panic_mask(where) | raced, kind == rt::kRunaway ? "runaway" : "panic", "node %" PRIu64 " in %s: %s", n.id, where, p.what);
  if (kind == rt::kSignal || kind == rt::kRunaway) {  // memory may be corrupt: end the run here
    r_->status = kOk;
    throw StopRun();
  }
  if (n.crashes < 12) {
    n.crashes++;
    restart_at(n, now_ + 20 * kTick);
  }
}

static const char* call_name(Call k) {
  static const char* const s[] = {"Tick", "Step", "Propose", "ProposeConfChange", "ReadIndex", "Campaign", "TransferLeader", "ApplyConfChange", "GetReady", "Advance", "Report", "New", "Storage", "Peek"};
  return s[k];
}

Cap Sim::capture(Node& n) {
  Cap q;
  craft::Raft* r = n.rn->GetRaft();
  q.term = r->Term();
  q.vote = r->Vote();
  q.lead = r->Lead();
  q.state = static_cast<int>(r->State());
  q.transferee = r->LeadTransferee();
  auto* l = r->GetRaftLog();
  q.commit = l->Committed();
  q.applied = l->Applied();
  q.last = l->LastIndex();
  q.last_term = l->LastTerm();
  q.nmsgs = r->Msgs().size();
  q.nreads = r->GetReadStates().size();
  return q;
}

bool Sim::use(Node& n, Call k, const raftpb::Message* m, const std::function<void()>& fn, bool*) {
  Cap pre = n.cap;
  rt::Panic p;
  Cap post;
  rt::gen_load(&n.gen, H('g', n.id));
  bool ok = rt::guarded([&] {
    if (n.st) n.st->in_call = k != K_NEW && k != K_APPLYCONF;  // the application is in between states there
    fn();
    if (n.st) n.st->in_call = false;
    post = capture(n);
  }, &p);
  rt::gen_save(&n.gen);
  r_->calls++;
  if (!ok) {
    std::string w = call_name(k);
    if (m) w += " " + raftpb::MessageType_Name(m->type());
    lib_crash(n, p, w.c_str());
    return false;
  }
  n.cap = post;
  after(n, k, m, pre);
  if (n.up && n.comp) {
    auto c = std::move(n.comp);
    snapshot_done(n, *c);
  }
  if (n.up && n.st && n.st->asked) {
    n.st->asked = 0;
    // A joiner ignores a snapshot whose configuration lacks it, so the
    // application takes a new one when the stored configuration is outdated.
    if (!n.snap_pending && n.dur.scs.SerializeAsString() != n.cs.SerializeAsString()) {
      n.snap_pending = true;
      int inc = n.inc;
      at(now_ + in_range(H('z', n.id, n.applied), 1, 3 * kTick), [this, &n, inc] {
        if (n.inc != inc) return;
        n.snap_pending = false;
        if (n.up) maybe_snapshot(n, c_.snap_keep, true);
      });
    }
  }
  return n.up;
}

bool Sim::guard_storage(Node& n, const char* what, const std::function<void()>& fn) {
  rt::Panic p;
  if (rt::guarded(fn, &p)) return true;
  lib_crash(n, p, what);
  return false;
}

// ---------------------------------------------------------------- scheduling

void Sim::schedule_tick(Node& n) {
  int inc = n.inc;
  int64_t ph = n.ticks == 0 ? in_range(H('p', n.id), 1, kTick) : n.period;
  at(now_ + ph, [this, &n, inc] {
    if (!n.up || n.inc != inc) return;
    schedule_tick(n);
    if (frozen()) return;
    if (node_busy(n)) {
      if (n.inbox_ticks < 3) {
        n.inbox_ticks++;
        n.inbox.push_back([this, &n] { n.inbox_ticks--; tick(n); });
      }
      return;
    }
    tick(n);
    pump(n);
  });
}

void Sim::tick(Node& n) {
  n.ticks++;
  // An application that considers the group idle lets time pass and nothing else.
  if (c_.quiesce && !healing_ && n.cap.state != craft::kLeader && static_cast<int64_t>(H('Q', n.id, static_cast<uint64_t>(n.ticks) / 7) % 1000) < c_.quiesce) {
    fault(F_QUIESCED);
    Cap pre = n.cap;
    if (!use(n, K_PEEK, nullptr, [&] { n.rn->TickQuiesced(); })) return;
    const Cap& q = n.cap;
    r_->checks += is_target(21);
    if (q.term != pre.term || q.vote != pre.vote || q.lead != pre.lead || q.commit != pre.commit || q.applied != pre.applied || q.last != pre.last || q.state != pre.state || q.nmsgs != pre.nmsgs || q.nreads != pre.nreads)
      viol(P(21), "quiesced-acts", "node %" PRIu64 " does something on a quiesced tick", n.id);
    return;
  }
  use(n, K_TICK, nullptr, [&] { n.rn->Tick(); });
}

bool Sim::node_busy(Node& n) { return now_ < n.stall_until || (!c_.interleave && n.stage != 0); }

void Sim::submit(Node& n, std::function<void()> f, bool local) {
  if (!n.up) return;
  if (node_busy(n)) {
    if (local || healing_ || n.inbox.size() < 400) n.inbox.push_back(std::move(f));
    return;
  }
  f();
  pump(n);
}

void Sim::drain(Node& n) {
  int inc = n.inc;
  while (n.up && n.inc == inc && !n.inbox.empty() && !node_busy(n)) {
    auto f = std::move(n.inbox.front());
    n.inbox.pop_front();
    f();
  }
  if (n.up && n.inc == inc) pump(n);
}

int64_t Sim::stage_delay(Node& n, int64_t base, int which) {
  if (healing_ || stable_.on) base = std::min<int64_t>(base, 50);
  int64_t d = in_range(H('s', n.id, n.stageno, which), 0, base);
  if (!healing_ && now_ < n.slow_until) d += n.slow;
  return d;
}

void Sim::pump(Node& n) {
  if (!n.up || n.stage != 0 || n.pumped || now_ < n.stall_until) return;
  rt::Panic p;
  bool has = false;
  if (!rt::guarded([&] { has = n.rn->HasReady(); }, &p)) {
    lib_crash(n, p, "HasReady");
    return;
  }
  if (!has) {
    if (H('q', n.id, r_->calls) % 6 == 0) check_peek(n);
    return;
  }
  n.pumped = true;
  n.stageno++;
  int inc = n.inc;
  int64_t d = stage_delay(n, c_.rdelay, 0);
  at(now_ + d, [this, &n, inc] { take_ready(n, inc); });
}

void Sim::take_ready(Node& n, int inc) {
  if (!n.up || n.inc != inc || n.stage != 0) return;
  if (now_ < n.stall_until) {
    at(n.stall_until, [this, &n, inc] { take_ready(n, inc); });
    return;
  }
  n.pumped = false;
  if (H('Q', n.id, n.stageno) % 3 == 0) check_peek(n);
  if (!n.up) return;
  bool has = false;
  if (!guard_storage(n, "HasReady", [&] { has = n.rn->HasReady(); })) return;
  if (!has) return;
  std::shared_ptr<craft::Ready> rd;
  if (!use(n, K_READY, nullptr, [&] { rd = n.rn->GetReady(); })) return;
  n.rdcap = n.cap;
  check_ready(n, *rd);
  quiet_ready(n, *rd);
  n.cur = keep(rd);
  if (H('R', n.id, n.stageno) % 32 == 0) {
    size_t len = 0;
    if (!use(n, K_PEEK, nullptr, [&] { len = rd->String().size(); }) || !len) return;
  }
  n.stage = 1;
  uint64_t sn = n.stageno;
  if (rd->snapshot && rd->snapshot->metadata().index() > 0) resnap(n);
  trigger(n, 0);
  if (!n.up || n.inc != inc) return;
  bool vote_granted = false;
  for (auto& m : rd->messages) vote_granted |= m->type() == raftpb::MsgVoteResp && !m->reject();
  if (vote_granted) trigger(n, 8);
  if (!n.up || n.inc != inc) return;
  if (c_.race && !healing_ && !n.st->race_in && static_cast<int64_t>(H('w', n.id, sn) % 1000) < c_.race) {
    // The writer thread puts the batch into the storage while a call runs.
    n.st->arm(2, in_range(H('W', n.id, sn), 1, 12), [this, &n, rd] {
      fault(F_RACE_WRITE);
      write_ready(n, *rd);
      n.raw = true;
    });
  }
  at(now_ + stage_delay(n, c_.pdelay, 1), [this, &n, inc, sn] { persist(n, inc, sn); });
}

void Sim::write_ready(Node& n, const craft::Ready& rd) {
  if (!craft::IsEmptySnap(rd.snapshot)) n.st->ms->ApplySnapshot(rd.snapshot);
  if (!rd.entries.empty()) n.st->ms->Append(rd.entries);
  if (!craft::IsEmptyHardState(rd.hard_state)) n.st->ms->SetHardState(rd.hard_state);
}

void Sim::persist(Node& n, int inc, uint64_t sn) {
  if (!n.up || n.inc != inc || n.stage != 1 || n.stageno != sn) return;
  if (now_ < n.stall_until) {
    at(n.stall_until, [this, &n, inc, sn] { persist(n, inc, sn); });
    return;
  }
  const char* w = "";
  if (!same(n.cur, &w)) viol(P(19), "ready-changed", "node %" PRIu64 ": %s of a Ready changed between GetReady and persisting it", n.id, w);
  auto rd = n.cur.rd;
  Durable& d = n.dur;
  bool has_snap = !craft::IsEmptySnap(rd->snapshot);
  if (!n.raw && !guard_storage(n, "storage write", [&] { write_ready(n, *rd); })) return;
  if (n.st->race_kind == 2) n.st->disarm();
  n.raw = false;
  if (has_snap) {
    d.sidx = rd->snapshot->metadata().index();
    d.sterm = rd->snapshot->metadata().term();
    d.sdata = rd->snapshot->data();
    d.scs = rd->snapshot->metadata().conf_state();
    d.off = d.sidx;
    d.offterm = d.sterm;
    d.e.clear();
    r_->snaps++;
    sit(S_snapshot_handed_out);
  }
  for (auto& ep : rd->entries) {
    auto& e = *ep;
    if (e.index() <= d.off || e.index() > d.last() + 1) continue;  // reported by check_ready
    while (d.last() >= e.index()) d.e.pop_back();
    d.e.push_back({e.term(), ehash(e), std::make_shared<raftpb::Entry>(e)});
    solidify(n, e.index(), e.term());
  }
  bool sync = rd->must_sync || has_snap || c_.smode == 1;
  if (!craft::IsEmptyHardState(rd->hard_state)) {
    if (sync) {
      d.hs = rd->hard_state;
      n.has_uhs = false;
    } else {
      n.uhs = rd->hard_state;
      n.has_uhs = true;
    }
  } else if (sync && n.has_uhs) {
    flush(n);
  }
  if (d.hs.vote()) {
    auto ins = votes_.emplace(std::make_pair(n.id, d.hs.term()), d.hs.vote());
    if (ins.first->second != d.hs.vote())
      viol(P(5) | P(1), "double-vote", "node %" PRIu64 " voted for %" PRIu64 " and %" PRIu64 " in term %" PRIu64, n.id, ins.first->second, d.hs.vote(), d.hs.term());
  }
  n.stage = 2;  // a crash from here on finds the batch on disk
  check_storage(n, H('d', n.id, sn) % 8 == 0);
  if (!n.up) return;
  trigger(n, 1);
  if (n.up && n.inc == inc && has_snap) trigger(n, 10);
  if (!n.up || n.inc != inc) return;
  // From here on the batch is durable: it becomes visible.
  if (n.rdcap.state == craft::kLeader) {
    auto it = claims_.emplace(n.rdcap.term, std::make_pair(n.id, n.inc)).first;
    r_->checks += is_target(1);
    if (it->second != std::make_pair(n.id, n.inc))
      viol(P(1), "two-leaders", "term %" PRIu64 ": node %" PRIu64 "#%d and node %" PRIu64 "#%d are both leader", n.rdcap.term, it->second.first, it->second.second, n.id, n.inc);
  }
  for (auto& e : rd->committed_entries) expose(n, *e);
  if (has_snap && d.sidx > max_exposed_) viol(P(2) | P(3) | P(11), "snapshot-from-nowhere", "node %" PRIu64 " got a snapshot at %" PRIu64 " nobody applied", n.id, d.sidx);
  for (auto& rs : rd->read_states) read_done(n, rs);
  size_t k = 0;
  for (auto& m : rd->messages) {
    send(n, *m);
    if (++k == 1) trigger(n, 2);
    if (!n.up || n.inc != inc) return;
    if (m->type() == raftpb::MsgVoteResp && !m->reject()) trigger(n, 12);
    if (!n.up || n.inc != inc) return;
  }
  trigger(n, 3);
  if (!n.up || n.inc != inc) return;
  if (c_.startne && !c_.lease && !healing_ && !stable_.on && n.dur.last() == 0 && n.dur.sidx == 0 && n.dur.hs.term() > 0 && n.inc < 4 && H('j', n.id, n.inc) % 3 == 0) {
    crash(n, in_range(H('J', n.id, n.inc), 1, 5 * kTick));  // has a term, maybe a vote, and no log
    return;
  }
  at(now_ + stage_delay(n, c_.adelay, 2), [this, &n, inc, sn] { finish(n, inc, sn); });
}

void Sim::flush(Node& n) {
  if (n.has_uhs) {
    n.dur.hs = n.uhs;
    n.has_uhs = false;
  }
}

void Sim::finish(Node& n, int inc, uint64_t sn) {
  if (!n.up || n.inc != inc || n.stage != 2 || n.stageno != sn) return;
  if (now_ < n.stall_until) {
    at(n.stall_until, [this, &n, inc, sn] { finish(n, inc, sn); });
    return;
  }
  const char* w = "";
  if (!same(n.cur, &w)) viol(P(19), "ready-changed", "node %" PRIu64 ": %s of a Ready changed before it was applied", n.id, w);
  auto rd = n.cur.rd;
  if (!craft::IsEmptySnap(rd->snapshot)) {
    if (!restore_snapshot(n, *rd->snapshot)) return;
  }
  size_t k = 0;
  for (auto& e : rd->committed_entries) {
    if (!apply_entry(n, *e)) return;
    if (++k == 1) trigger(n, 4);
    if (!n.up || n.inc != inc) return;
  }
  trigger(n, 5);
  if (!n.up || n.inc != inc) return;
  uint64_t want = 0;
  if (!rd->committed_entries.empty()) want = rd->committed_entries.back()->index();
  else if (!craft::IsEmptySnap(rd->snapshot)) want = rd->snapshot->metadata().index();
  if (n.cap.state == craft::kLeader)
    for (auto& e : rd->committed_entries)
      if (e->term() != n.cap.term) n.inherited += e->data().size();
  if (!use(n, K_ADVANCE, nullptr, [&] { n.rn->Advance(); })) return;
  if (want && n.cap.applied != want)
    viol(P(6), "advance-applied", "node %" PRIu64 ": after Advance applied is %" PRIu64 ", the application applied %" PRIu64, n.id, n.cap.applied, want);
  n.stage = 0;
  n.kept.push_back(n.cur);
  if (n.kept.size() > 40) n.kept.pop_front();
  n.cur = Rd();
  check_kept(n, false);
  // Joint configuration with automatic leave: the leader must have proposed it.
  if (want && n.cap.state == craft::kLeader) {
    RefCfg f = inforce(n);
    if (f.autol && n.lead_last <= n.cap.applied) {
      bool found = false;
      for (uint64_t i = n.cap.applied + 1; i <= n.cap.last; i++)
        if (i >= n.mfirst && i - n.mfirst < n.mlog.size()) found |= n.mlog[i - n.mfirst].p->type() != raftpb::EntryNormal;
      r_->checks += is_target(18);
      if (!found) viol(P(18), "no-auto-leave", "leader %" PRIu64 " applied up to %" PRIu64 " in joint configuration %s and did not propose to leave it", n.id, n.cap.applied, f.str().c_str());
    }
  }
  trigger(n, 11);
  if (!n.up || n.inc != inc) return;
  maybe_snapshot(n, c_.snap_keep, false);
  if (!n.up || n.inc != inc) return;
  while (!n.deferred.empty()) {
    n.inbox.push_front(std::move(n.deferred.back()));
    n.deferred.pop_back();
  }
  drain(n);
}

bool Sim::restore_snapshot(Node& n, const raftpb::Snapshot& s) {
  uint64_t idx, chain;
  RefCfg ref;
  uint64_t si = s.metadata().index();
  if (!sm_decode(s.data(), &idx, &chain, &ref)) {
    viol(P(2) | P(11), "snapshot-data", "node %" PRIu64 ": snapshot %" PRIu64 " has garbage data", n.id, si);
    return true;
  }
  bool ok = false;
  uint64_t want = chain_at(si, &ok);
  r_->checks += is_target(11) || is_target(2);
  if (idx != si || !ok || chain != want)
    viol(P(2) | P(11), "snapshot-state", "node %" PRIu64 ": snapshot for index %" PRIu64 " carries the state of index %" PRIu64 " (state hash %s)", n.id, si, idx, chain == want ? "equal" : "differs");
  if (ok && s.metadata().term() != committed_[si].term)
    viol(P(11) | P(4), "snapshot-term", "node %" PRIu64 ": snapshot %" PRIu64 " has term %" PRIu64 ", entry had %" PRIu64, n.id, si, s.metadata().term(), committed_[si].term);
  if (si < n.applied) viol(P(11) | P(6), "snapshot-back", "node %" PRIu64 ": snapshot %" PRIu64 " below applied %" PRIu64, n.id, si, n.applied);
  if (ref_from(s.metadata().conf_state()) != ref)
    viol(P(9) | P(11), "snapshot-conf", "node %" PRIu64 ": snapshot %" PRIu64 " membership %s, state %s", n.id, si, ref_from(s.metadata().conf_state()).str().c_str(), ref.str().c_str());
  tr("node %" PRIu64 " restores snapshot %" PRIu64, n.id, si);
  n.applied = si;
  n.chain = chain;
  n.ref = ref;
  n.cs = s.metadata().conf_state();
  if (c_.smode == 1) {
    n.dur.sm_applied = n.applied;
    n.dur.sm_chain = n.chain;
    n.dur.sm_ref = n.ref;
    n.dur.sm_cs = n.cs;
  }
  check_conf(n, "snapshot restore");
  return n.up;
}

bool Sim::apply_entry(Node& n, const raftpb::Entry& e) {
  uint64_t i = e.index();
  if (i != n.applied + 1) {
    viol(P(6), "apply-gap", "node %" PRIu64 ": asked to apply %" PRIu64 " after %" PRIu64, n.id, i, n.applied);
    n.applied = i - 1;
  }
  if (e.type() != raftpb::EntryNormal) {
    RefCC cc;
    RefCfg before = n.ref;
    bool parsed = ref_parse(e.type(), e.data(), &cc);
    bool acc = parsed && ref_apply(&n.ref, cc);
    // A bootstrapped node already has all peers; the same entries come again.
    bool boot_entry = !c_.boot && i <= static_cast<uint64_t>(npeers_);
    if (acc) {
      raftpb::ConfState cs;
      bool v1 = e.type() == raftpb::EntryConfChange;
      raftpb::ConfChange c1;
      raftpb::ConfChangeV2 c2;
      if (v1) c1.ParseFromString(e.data());
      else c2.ParseFromString(e.data());
      tr("node %" PRIu64 " applies conf change at %" PRIu64 ": %s -> %s", n.id, i, before.str().c_str(), n.ref.str().c_str());
      std::set<uint64_t> had;
      for (size_t x = 1; x <= maxid(); x++)
        if (before.all() & bit(x)) had.insert(x);
      bool was_leader = n.cap.state == craft::kLeader;
      if (!before.joint() && n.ref.joint()) sit(S_joint_entered);
      if (was_leader && (before.voters() & bit(n.id)) && !(n.ref.voters() & bit(n.id))) sit(n.ref.all() & bit(n.id) ? S_leader_left_voters : S_leader_removed_self);
      if (n.ref.voters() & before.lrn & ~before.voters()) sit(S_learner_promoted);
      if (before.in & (n.ref.lrn | n.ref.lnext)) sit(S_voter_demoted);
      uint64_t commit_before = n.cap.commit;
      if (was_leader)
        for (size_t x = 1; x <= maxid(); x++) {
          if (!had.count(x)) n.win.erase(x);
          n.heard[x] = n.ticks;
        }
      confs_applied_++;
      if (!use(n, K_APPLYCONF, nullptr, [&] {
            if (v1) cs = n.rn->ApplyConfChange(craft::ConfChangeI(c1));
            else cs = n.rn->ApplyConfChange(craft::ConfChangeI(c2));
          })) return false;
      n.cs = cs;
      r_->confs++;
      if (n.cap.commit > commit_before) sit(S_commit_advanced_by_conf_change);
      if (!boot_entry) {
        r_->checks += is_target(9);
        if (ref_from(cs) != n.ref) viol(P(9) | P(18), "conf-result", "node %" PRIu64 " at %" PRIu64 ": ApplyConfChange returned %s, rules give %s", n.id, i, ref_from(cs).str().c_str(), n.ref.str().c_str());
        n.applied = i;
        check_conf(n, "apply");
      }
      if (c_.stop_removed && !healing_ && (before.all() & bit(n.id)) && !(n.ref.all() & bit(n.id))) {
        int inc = n.inc;
        at(now_ + in_range(H('R', n.id, i), 0, 20 * kTick), [this, &n, inc] { if (n.up && n.inc == inc) stop(n); });
      }
    }
  }
  n.applied = i;
  n.chain = rt::hc(n.chain, ehash(e));
  r_->applied++;
  if (i >= committed_.size()) viol(P(6), "apply-unexposed", "node %" PRIu64 " index %" PRIu64, n.id, i);
  CEnt& ce = committed_[i];
  bool okc = false;
  chain_at(i, &okc);
  if (!okc) ce.chain = n.chain;
  else if (ce.chain != n.chain) viol(P(2) | P(3), "state-divergence", "node %" PRIu64 ": state after %" PRIu64 " differs from another replica", n.id, i);
  if (!ref_known_[i]) {
    ref_known_[i] = true;
    ref_at_[i] = n.ref;
  } else if (ref_at_[i] != n.ref && i >= static_cast<uint64_t>(c_.boot ? 0 : npeers_)) {
    viol(P(9) | P(2), "conf-divergence", "node %" PRIu64 ": membership after %" PRIu64 " is %s, elsewhere %s", n.id, i, n.ref.str().c_str(), ref_at_[i].str().c_str());
  }
  if (c_.smode == 1) {
    n.dur.sm_applied = n.applied;
    n.dur.sm_chain = n.chain;
    n.dur.sm_ref = n.ref;
    n.dur.sm_cs = n.cs;
  }
  ev(901, n.id, n.chain);
  if (e.type() != raftpb::EntryNormal) trigger(n, 9);
  return n.up;
}

bool Sim::can_snapshot(Node& n, bool forced) {
  if (!n.up || n.raw) return false;
  if (!forced && (!c_.snap_every || n.applied < n.dur.sidx + static_cast<uint64_t>(c_.snap_every))) return false;
  if (n.applied <= n.dur.sidx || n.applied <= (c_.boot ? base() : static_cast<uint64_t>(npeers_))) return false;
  if (n.applied > n.dur.last()) return false;
  flush(n);
  return n.dur.hs.commit() >= n.applied;  // only snapshot what the durable hard state covers
}

std::shared_ptr<Comp> Sim::do_snapshot(Node& n, int64_t keep) {
  auto c = std::make_shared<Comp>();
  c->index = n.applied;
  c->data = sm_encode(n.applied, n.chain, n.ref, H('S', n.id, n.applied) % 40);
  c->term = n.dur.term(n.applied);
  auto [s, st] = n.st->ms->CreateSnapshot(n.applied, &n.cs, c->data);
  c->ok = st.IsOK();
  c->out = s;
  c->cs = n.cs;
  uint64_t lim = std::min<uint64_t>(n.cap.applied, n.applied);
  c->cidx = lim > static_cast<uint64_t>(keep) ? lim - keep : 0;
  if (c->cidx > n.dur.off) c->cok = n.st->ms->Compact(c->cidx).IsOK();
  return c;
}

void Sim::maybe_snapshot(Node& n, int64_t keep, bool forced, bool race) {
  if (frozen()) return;  // catching up by snapshot may wait for a heartbeat
  if (!can_snapshot(n, forced)) return;
  if (race && c_.race && !healing_ && !n.st->race_in && static_cast<int64_t>(H('k', n.id, n.applied) % 1000) < c_.race) {
    // The application's snapshot thread runs while a library call is under way.
    int inc = n.inc;
    n.st->arm(1, in_range(H('K', n.id, n.applied), 1, 24), [this, &n, keep, forced] {
      if (!can_snapshot(n, forced)) return;
      fault(F_RACE_COMPACT);
      n.comp = do_snapshot(n, keep);
    });
    at(now_ + in_range(H('K', n.id, n.applied, 1), 1, 4 * kTick), [this, &n, keep, forced, inc] {
      if (!n.up || n.inc != inc || !n.st->race_in || n.st->race_kind != 1) return;
      n.st->disarm();
      maybe_snapshot(n, keep, forced, false);
    });
    return;
  }
  std::shared_ptr<Comp> c;
  if (!guard_storage(n, "CreateSnapshot/Compact", [&] { c = do_snapshot(n, keep); })) return;
  snapshot_done(n, *c);
}

void Sim::snapshot_done(Node& n, const Comp& c) {
  if (!c.ok || !c.out || c.out->metadata().index() != c.index || c.out->metadata().term() != c.term || c.out->data() != c.data) {
    viol(P(11), "create-snapshot", "node %" PRIu64 ": CreateSnapshot(%" PRIu64 ") failed or returned another snapshot", n.id, c.index);
    return;
  }
  held_.push_back(Held{static_cast<int>(n.id), c.out, {}, snap_hash(*c.out)});
  if (n.ref.joint()) sit(S_snapshot_taken_in_joint);
  n.dur.sidx = c.index;
  n.dur.sterm = c.term;
  n.dur.sdata = c.data;
  n.dur.scs = c.cs;
  fault(F_COMPACT);
  if (c.cidx > n.dur.off) {
    if (!c.cok) viol(P(11), "compact", "node %" PRIu64 ": Compact(%" PRIu64 ") refused", n.id, c.cidx);
    uint64_t ct = n.dur.term(c.cidx);
    n.dur.e.erase(n.dur.e.begin(), n.dur.e.begin() + (c.cidx - n.dur.off));
    n.dur.off = c.cidx;
    n.dur.offterm = ct;
  }
  tr("node %" PRIu64 " snapshot at %" PRIu64 " compact to %" PRIu64, n.id, n.applied, n.dur.off);
  check_storage(n, true);
  if (!n.up) return;
  // The log view over the storage moved: refresh the mirror.
  refresh_log(n, K_STORAGE, nullptr, n.cap, false);
  if (n.up && H('l', n.id, n.applied) % 2) {
    Held h;
    h.node = static_cast<int>(n.id);
    if (!guard_storage(n, "SnapShot", [&] { h.snap = std::get<0>(n.st->ms->SnapShot()); })) return;
    h.h = snap_hash(*h.snap);
    held_.push_back(h);
  }
  if (n.up && n.dur.last() > n.dur.off && H('l', n.id, n.applied, 1) % 2) {
    Held h;
    h.node = static_cast<int>(n.id);
    if (!guard_storage(n, "Entries", [&] { h.ents = std::get<0>(n.st->ms->Entries(n.dur.off + 1, n.dur.last() + 1, UINT64_MAX)); })) return;
    h.h = 7;
    for (auto& e : h.ents) h.h = rt::hc(rt::hc(h.h, ehash(*e)), e->index());
    held_.push_back(h);
  }
}

void Sim::trigger(Node& n, int what) {
  if (healing_ || !n.up || (stable_.on && (stable_.quorum & bit(n.id)))) return;
  for (auto& t : trigs_) {
    if (!t.live || t.what != what || (t.node != 0 && t.node != static_cast<int64_t>(n.id))) continue;
    if (t.k-- > 0) continue;
    if (t.act == 2 && n.cap.state != craft::kLeader) continue;
    t.live = false;
    if (t.act) {
      tr("trigger %d cuts node %" PRIu64 " off (%d)", what, n.id, t.act);
      cut_at(n, t.act, t.down);
      return;
    }
    fault(F_CRASH_TRIG);
    tr("trigger %d fires on node %" PRIu64, what, n.id);
    if (what == 6 || what == 7) {
      int inc = n.inc;
      int64_t down = t.down;
      at(now_, [this, &n, inc, down] { if (n.up && n.inc == inc) crash(n, down); });
    } else {
      crash(n, t.down);
    }
    return;
  }
}

// The network side of a trigger: 1 cuts node n off, 2 cuts the cluster along
// the membership change the leader n just applied, 3 lets n only send, 4 holds
// back what n sends.
void Sim::cut_at(Node& n, int act, int64_t dur) {
  uint64_t h = H('c', n.id, n.stageno, act);
  int mx = static_cast<int>(maxid()), me = static_cast<int>(n.id);
  auto block = [&](int from, int to) {
    if (from == to) return;
    size_t l = static_cast<size_t>(from) * nodes_.size() + to;
    blocked_until_[l] = std::max(blocked_until_[l], now_ + dur);
  };
  sit(S_cut_at_trigger);
  if (act == 4) {
    fault(F_REORDER);
    for (int j = 1; j <= mx; j++) {
      size_t l = static_cast<size_t>(me) * nodes_.size() + j;
      extra_[l] = in_range(h, 1, 8 * kTick);
      extra_until_[l] = now_ + dur;
    }
    return;
  }
  fault(F_PART);
  if (act != 2) {
    for (int j = 1; j <= mx; j++) {
      if (act == 1) block(me, j);
      block(j, me);
    }
    return;
  }
  sit(S_cut_between_memberships);
  RefCfg f = n.ref;
  uint64_t g = 0;
  switch (h % 4) {
    case 0: case 1: g = f.in; break;                                        // the new voters
    case 2: g = f.out ? f.out & ~f.in : rt::mix(h) & f.all(); break;       // those that leave
    default: g = rt::mix(h) & f.all(); break;
  }
  g |= bit(n.id);
  for (int i = 1; i <= mx; i++)
    for (int j = 1; j <= mx; j++)
      if (!(g & bit(i)) != !(g & bit(j))) block(i, j);
  // the other side goes on at once, while this side is asked for reads
  for (int k = 0; k < 2; k++) {
    std::vector<Node*> o;
    for (auto& x : nodes_)
      if (x->up && !(g & bit(x->id)) && (f.all() & bit(x->id))) o.push_back(x.get());
    if (o.empty()) break;
    Node* x = o[rt::hc(h, k) % o.size()];
    if (rt::hc(h, k) / 64 % 4 == 0) continue;
    fault(F_CAMPAIGN);
    at(now_ + in_range(rt::hc(h, k + 10), 0, 2 * kTick), [this, x] {
      if (x->up && !healing_ && !stable_.on) submit(*x, [this, x] { use(*x, K_CAMPAIGN, nullptr, [&] { x->rn->Campaign(); }); });
    });
  }
  int inc = n.inc;
  for (int k = 0; k < 4; k++)
    at(now_ + in_range(rt::hc(h, k + 20), 0, std::min<int64_t>(dur, 6 * kTick)), [this, &n, inc] {
      if (n.up && n.inc == inc && !healing_) submit(n, [this, &n] { read(n, false); });
    });
}

// ---------------------------------------------------------------- network

void Sim::report_snapshot(uint64_t node, int inc, uint64_t peer, bool ok, int64_t delay) {
  if (!ok) fault(F_SNAPLOST);
  at(now_ + delay, [this, node, inc, peer, ok] {
    Node& n = N(node);
    if (!n.up || n.inc != inc) return;
    submit(n, [this, &n, peer, ok] {
      if (n.cap.state == craft::kLeader) {
        Win& w = n.win[peer];
        if (w.s == Win::Snapshot) {
          w.s = Win::Probe;
          w.credit = false;
          w.out.clear();
        }
      }
      use(n, K_REPORT, nullptr, [&] { n.rn->ReportSnapshot(peer, ok ? craft::kFinish : craft::kFailure); });
    }, true);
  });
}

void Sim::report_unreach(uint64_t node, int inc, uint64_t peer, int64_t delay) {
  at(now_ + delay, [this, node, inc, peer] {
    Node& n = N(node);
    if (!n.up || n.inc != inc) return;
    fault(F_UNREACH);
    submit(n, [this, &n, peer] {
      if (n.cap.state == craft::kLeader) {
        Win& w = n.win[peer];
        if (w.s == Win::Replicate) {
          w.s = Win::Probe;
          w.credit = true;
          w.out.clear();
        }
      }
      use(n, K_REPORT, nullptr, [&] { n.rn->ReportUnreachable(peer); });
    });
  });
}

void Sim::send(Node& n, const raftpb::Message& m) {
  on_send(n, m);
  quiet_message(m);
  uint64_t to = m.to();
  if (to == 0 || to > maxid()) {
    viol(P(6) | P(12), "bad-destination", "node %" PRIu64 " sends %s to %" PRIu64, n.id, raftpb::MessageType_Name(m.type()).c_str(), to);
    return;
  }
  transmit(static_cast<int>(n.id), n.inc, static_cast<int>(to), m, true);
}

uint64_t prop_of(const raftpb::Entry& e) {
  if (e.type() != raftpb::EntryNormal || e.data().empty() || e.data()[0] != 'P') return 0;
  return strtoull(e.data().c_str() + 1, nullptr, 10);
}

void Sim::transmit(int from, int from_inc, int to, const raftpb::Message& m, bool faulty) {
  size_t l = static_cast<size_t>(from) * nodes_.size() + to;
  int64_t seq = link_seq_[l]++;
  r_->msgs++;
  if (faulty && !healing_) {
    history_.push_back(m);
    if (history_.size() > 300) history_.pop_front();
  }
  uint64_t h = H('f', l, seq, 0);
  bool inq = stable_.on && (stable_.quorum & bit(from)) && (stable_.quorum & bit(to));
  bool calm = healing_ || inq || !faulty;
  bool fates = !calm && !stable_.on && now_ >= c_.fate_from && now_ < c_.fate_to && !plan_.nofault.count(std::make_tuple(from, to, seq));
  bool drop = false;
  if (!calm && now_ < blocked_until_[l]) {
    drop = true;
    fault(F_BLOCKED);
  }
  int64_t loss = c_.drop + (now_ < lossy_until_ ? lossy_ : 0);
  if (!drop && fates && static_cast<int64_t>(rt::mix(h ^ 1) % 1000) < loss) {
    drop = true;
    fault(F_DROP);
    tr("fate %d->%d #%" PRId64 " drop %s", from, to, seq, raftpb::MessageType_Name(m.type()).c_str());
  }
  if (drop) {
    if (m.type() == raftpb::MsgSnap) report_snapshot(from, from_inc, to, false, in_range(rt::mix(h ^ 2), 0, 3 * kTick));
    else if (m.type() == raftpb::MsgApp && static_cast<int64_t>(rt::mix(h ^ 3) % 1000) < c_.unreach) report_unreach(from, from_inc, to, in_range(rt::mix(h ^ 4), 0, 2 * kTick));
    return;
  }
  int64_t d;
  if (calm) d = 50 + static_cast<int64_t>(rt::mix(h ^ 5) % 150);
  else d = c_.lat + in_range(rt::mix(h ^ 5), 0, c_.jit) + (now_ < extra_until_[l] ? extra_[l] : 0);
  bool late = fates && static_cast<int64_t>(rt::mix(h ^ 6) % 1000) < c_.reord;
  if ((c_.fifo || frozen()) && !late) {  // a connection delivers in order
    d = std::max(d, link_last_[l] + 1 - now_);
    link_last_[l] = now_ + d;
  }
  if (late) {
    d += in_range(rt::mix(h ^ 7), 0, c_.reordmax);
    fault(F_REORDER);
    tr("fate %d->%d #%" PRId64 " delay %.2f %s", from, to, seq, d / 1000.0, raftpb::MessageType_Name(m.type()).c_str());
  }
  auto put = [&](int64_t delay, bool dup) {
    uint64_t id = ++flight_id_;
    Flight& f = flights_[id];
    f.m = m;
    f.from = from;
    f.to = to;
    f.from_inc = from_inc;
    f.dup = dup;
    f.seq = seq;
    f.live = true;
    at(now_ + delay, [this, id] { deliver(id); });
  };
  put(d, false);
  // Duplicated forwarded reads: known finding D8, only in runs that say so.
  bool dup_ok = m.type() != raftpb::MsgReadIndex || c_.duprd;
  if (fates && dup_ok && static_cast<int64_t>(rt::mix(h ^ 8) % 1000) < c_.dup) {
    fault(F_DUP);
    tr("fate %d->%d #%" PRId64 " dup %s", from, to, seq, raftpb::MessageType_Name(m.type()).c_str());
    if (m.type() == raftpb::MsgProp)
      for (auto& e : m.entries())
        if (uint64_t id = prop_of(e)) props_[id].dup = true;
    put(c_.lat + in_range(rt::mix(h ^ 9), 0, c_.reordmax), true);
  }
}

void Sim::deliver(uint64_t fid) {
  auto it = flights_.find(fid);
  if (it == flights_.end()) return;
  Flight f = std::move(it->second);
  flights_.erase(it);
  Node& n = N(f.to);
  size_t l = static_cast<size_t>(f.from) * nodes_.size() + f.to;
  bool lost = !n.up;
  if (!lost && !healing_ && now_ < blocked_until_[l] && static_cast<int64_t>(H('y', fid) % 1000) < c_.flyblock &&
      !(stable_.on && (stable_.quorum & bit(f.from)) && (stable_.quorum & bit(f.to)))) {
    lost = true;
    fault(F_BLOCKED);
  }
  bool snap = f.m.type() == raftpb::MsgSnap && !f.dup;
  if (lost) {
    if (snap) report_snapshot(f.from, f.from_inc, f.to, false, in_range(H('z', fid), 0, 3 * kTick));
    return;
  }
  if (snap) report_snapshot(f.from, f.from_inc, f.to, true, in_range(H('z', fid), 0, 3 * kTick));
  int finc = f.from_inc;
  auto m = std::make_shared<raftpb::Message>(std::move(f.m));
  std::function<void()> go = [this, &n, m, finc] { handle_msg(n, *m, finc); };
  if (c_.interleave && m->type() == raftpb::MsgSnap) {
    // Restoring a newer snapshot while the application still applies older
    // membership changes would be misuse; the application defers it.
    std::function<void()> inner = go;
    go = [this, &n, inner] {
      bool conf = false;
      if (n.stage != 0) {
        for (auto& e : n.cur.rd->committed_entries) conf |= e->type() != raftpb::EntryNormal;
      }
      if (conf) n.deferred.push_back(inner);
      else inner();
    };
  }
  submit(n, go);
}

void Sim::handle_msg(Node& n, const raftpb::Message& m, int finc) {
  // what the oracles learn from the input
  const Cap& c = n.cap;
  if (c.state == craft::kLeader && m.term() == c.term) {
    if (m.type() == raftpb::MsgAppResp || m.type() == raftpb::MsgHeartbeatResp) {
      n.heard[m.from()] = n.ticks;
      win_in(n, m);
    }
  }
  if (m.type() == raftpb::MsgReadIndex && c.state == craft::kLeader && m.entries_size() == 1) lead_read(n, m.entries(0).data());
  if (c_.duprd && m.type() == raftpb::MsgReadIndex && c.state == craft::kLeader && m.entries_size() == 1 &&
      !dup_reads_.insert(std::make_tuple(n.id, c.term, m.entries(0).data())).second)
    dup_read_seen_ = true;
  if (m.type() == raftpb::MsgVoteResp && !m.reject() && m.term() == c.term && c.state == craft::kCandidate) {
    if (n.vote_term != c.term) {
      n.vote_term = c.term;
      n.grants = 0;
    }
    n.grants |= bit(m.from());
  }
  // A grant for an earlier attempt that arrives late counts for the current
  // one (as upstream); it was given by a node that had no leader either.
  if (m.type() == raftpb::MsgPreVoteResp && !m.reject() && c.state == craft::kPreCandidate && m.term() >= c.term) n.pv_grants |= bit(m.from());
  tr("node %" PRIu64 " <- %s from %" PRIu64 " term=%" PRIu64 " logterm=%" PRIu64 " index=%" PRIu64 " commit=%" PRIu64 " n=%d%s", n.id, raftpb::MessageType_Name(m.type()).c_str(), m.from(), m.term(), m.logterm(), m.index(), m.commit(), m.entries_size(), m.reject() ? " reject" : "");
  auto copy = std::make_shared<raftpb::Message>(m);
  craft::Status st;
  bool was_member = true;
  (void)was_member;
  Cap pre = n.cap;
  RefCfg f0;
  bool resp = m.type() == raftpb::MsgAppResp || m.type() == raftpb::MsgVoteResp || m.type() == raftpb::MsgHeartbeatResp || m.type() == raftpb::MsgPreVoteResp;
  if (resp) f0 = inforce(n);
  if (m.type() == raftpb::MsgApp) note_mismatch(n, m, finc);
  Probe probe;
  uint64_t probed = 0;
  if (m.type() == raftpb::MsgAppResp && pre.state == craft::kLeader && m.term() == pre.term) {
    probe = probe_of(n, m.from());
    if (probe.ok && probe.next > 0) {
      const MEnt* e = ment(n, probe.next - 1);
      probed = e ? e->term : 0;
    }
  }
  if (!use(n, K_STEP, &m, [&] { st = n.rn->Step(copy); })) return;
  if (probe.ok) check_probe(n, m, finc, probe, probed);
  if (resp && !(f0.all() & bit(m.from()))) {
    r_->checks += is_target(17);
    if (st.IsOK() || pre.term != n.cap.term || pre.vote != n.cap.vote || pre.state != n.cap.state || pre.commit != n.cap.commit || pre.nmsgs != n.cap.nmsgs)
      viol(P(17) | P(10), "unknown-response", "node %" PRIu64 ": %s from unknown node %" PRIu64 " was %s", n.id, raftpb::MessageType_Name(m.type()).c_str(), m.from(), st.IsOK() ? "accepted" : "refused but changed state");
  }
  if (m.type() == raftpb::MsgProp) prop_result(n, m, pre, st.IsOK());
}

// ---------------------------------------------------------------- finding where logs agree

Sim::Probe Sim::probe_of(Node& l, uint64_t id) {
  Probe p;
  rt::Panic x;
  if (!rt::guarded([&] {
        l.rn->WithProgress([&](uint64_t i, craft::ProgressType, craft::ProgressPtr pr) {
          if (i != id) return;
          p.ok = true;
          p.state = static_cast<int>(pr->State());
          p.next = pr->Next();
        });
      }, &x)) {
    lib_crash(l, x, "WithProgress");
    p.ok = false;
  }
  return p;
}

// Node n is about to see an append of its leader: when their logs differ at
// that place, remember the last place where they agree.
void Sim::note_mismatch(Node& n, const raftpb::Message& m, int finc) {
  auto cl = claims_.find(m.term());
  if (m.term() < n.cap.term || cl == claims_.end() || cl->second != std::make_pair(m.from(), finc)) return;
  Node& l = N(m.from());
  if (!l.up || l.inc != finc || l.cap.state != craft::kLeader || l.cap.term != m.term()) return;
  if (m.index() <= n.cap.commit) return;
  const MEnt* e = ment(n, m.index());
  if (e && e->term == m.logterm()) return;
  uint64_t i = std::min(m.index() - 1, std::min(n.cap.last, l.cap.last)), lo = std::max(n.mfirst, l.mfirst);
  for (; i >= lo; i--)
    if (ment(n, i)->term == ment(l, i)->term) break;
  if (i < lo) i = std::min(i, n.cap.commit);
  auto key = std::make_tuple(m.term(), n.id, n.inc, m.index());
  auto ins = agree_.emplace(key, i);
  if (!ins.second) ins.first->second = std::min(ins.first->second, i);
}

// The leader has handled a response of a member it was probing.
void Sim::check_probe(Node& l, const raftpb::Message& m, int finc, const Probe& pre, uint64_t term_at) {
  auto& ph = l.probes[m.from()];
  if (!m.reject() || !l.up || l.cap.state != craft::kLeader || l.cap.term != m.term() || pre.state != static_cast<int>(craft::StateType::kProbe)) {
    ph = Node::Phase();
    return;
  }
  Probe post = probe_of(l, m.from());
  if (!post.ok || post.next >= pre.next) return;  // a stale one
  if (m.from() < 1 || m.from() > maxid()) return;
  r_->checks += is_target(27);
  // A phase is over when the member restarts, when it turns out that it needs a
  // snapshot, and when anything but a rejection has moved the place.
  if (ph.term != m.term() || ph.finc != finc || ph.inc != l.inc || ph.next != pre.next) ph = Node::Phase();
  bool more = ph.rounds > 0;
  if (more && term_at && ph.last && term_at >= ph.last)
    viol(P(27), "probe-repeats-term", "leader %" PRIu64 " of term %" PRIu64 " probed node %" PRIu64 " at %" PRIu64 ", an entry of term %" PRIu64 ", although it was refused at an entry of term %" PRIu64 " before (round %d)", l.id, m.term(), m.from(), pre.next - 1, term_at, ph.last, ph.rounds + 1);
  ph.term = m.term();
  ph.finc = finc;
  ph.inc = l.inc;
  ph.last = term_at;
  ph.next = post.next;
  ph.rounds++;
  if (ph.rounds == 2) sit(S_probe_second_round);
  if (ph.rounds == 3) sit(S_probe_third_round);
  if (post.state != static_cast<int>(craft::StateType::kProbe)) {
    ph = Node::Phase();
    return;
  }
  auto it = agree_.find(std::make_tuple(m.term(), m.from(), finc, m.index()));
  if (it != agree_.end() && post.next - 1 < it->second)
    viol(P(27), "probe-falls-back", "leader %" PRIu64 " of term %" PRIu64 ", refused by node %" PRIu64 " at %" PRIu64 " with hint %" PRIu64 " (term %" PRIu64 "), goes back to %" PRIu64 " although their logs agree up to %" PRIu64, l.id, m.term(), m.from(), m.index(), m.rejecthint(), m.logterm(), post.next - 1, it->second);
}

// ---------------------------------------------------------------- client operations

Node* Sim::leader() {
  Node* best = nullptr;
  for (auto& n : nodes_)
    if (n->up && n->cap.state == craft::kLeader && (!best || n->cap.term > best->cap.term)) best = n.get();
  return best;
}

Node* Sim::select(int64_t sel, uint64_t h) {
  if (sel > 0) return sel <= static_cast<int64_t>(maxid()) ? nodes_[sel].get() : nullptr;
  if (sel == 0) return nullptr;
  std::vector<Node*> v;
  Node* l = leader();
  if (sel == kSelLeader) return l;
  for (auto& n : nodes_) {
    if (!n->up) continue;
    if (sel == kSelFollower && n->cap.state == craft::kLeader) continue;
    if (sel == kSelOldLeader && (n->cap.state != craft::kLeader || n.get() == l)) continue;
    if ((sel == kSelVoter || sel == kSelLearner) && l) {
      RefCfg f = inforce(*l);
      if (sel == kSelVoter && (!(f.voters() & bit(n->id)) || n.get() == l)) continue;
      if (sel == kSelLearner && !(f.lrn & bit(n->id))) continue;
    }
    if (sel == kSelDiverged && l) {  // its log does not end inside the leader's
      const MEnt* e = n->cap.last >= l->mfirst ? ment(*l, n->cap.last) : nullptr;
      if (n.get() == l || n->cap.last < l->mfirst || (e && e->term == n->cap.last_term)) continue;
    }
    v.push_back(n.get());
  }
  if (v.empty()) return sel == kSelOldLeader ? l : nullptr;
  return v[h % v.size()];
}

static std::string payload(uint64_t id, int64_t size) {
  std::string s = "P" + std::to_string(id) + ":";
  uint64_t x = rt::mix(id);
  while (static_cast<int64_t>(s.size()) < size) {
    s.push_back(static_cast<char>(x & 0xff));
    x = rt::mix(x);
  }
  return s;
}

uint64_t Sim::propose(Node& n, int64_t size, bool) {
  uint64_t id = ++prop_id_;
  PropRec& p = props_[id];
  p.node = n.id;
  p.inc = n.inc;
  p.data = payload(id, size);
  r_->props++;
  craft::Status st;
  Cap pre = n.cap;
  raftpb::Message m;
  m.set_type(raftpb::MsgProp);
  m.add_entries()->set_data(p.data);
  if (!use(n, K_PROPOSE, &m, [&] { st = n.rn->Propose(p.data); })) return id;
  PropRec& q = props_[id];
  if (st.IsOK()) {
    q.accepted = true;
    if (pre.state == craft::kLeader && n.cap.state == craft::kLeader && pre.term == n.cap.term) {
      q.direct = true;
      q.term = pre.term;
      q.order = ++order_;
    }
  } else {
    q.refused = true;
  }
  prop_result(n, m, pre, st.IsOK());
  return id;
}

static void encode_conf(const RefCC& cc, const std::string& ctx, bool v1, raftpb::Entry* e, raftpb::ConfChange* p1, raftpb::ConfChangeV2* p2) {
  raftpb::ConfChange& c1 = *p1;
  raftpb::ConfChangeV2& c2 = *p2;
  if (!ctx.empty() && v1) c1.set_context(ctx);
  if (!ctx.empty() && !v1) c2.set_context(ctx);
  if (v1) {
    c1.set_type(static_cast<raftpb::ConfChangeType>(cc.ch[0].type));
    c1.set_node_id(cc.ch[0].id);
    e->set_type(raftpb::EntryConfChange);
    e->set_data(c1.SerializeAsString());
  } else {
    c2.set_transition(static_cast<raftpb::ConfChangeTransition>(cc.transition));
    for (auto& x : cc.ch) {
      auto* y = c2.add_changes();
      y->set_type(static_cast<raftpb::ConfChangeType>(x.type));
      y->set_node_id(x.id);
    }
    e->set_type(raftpb::EntryConfChangeV2);
    e->set_data(c2.SerializeAsString());
  }
}

// What the application wants to remember with a membership change, for example addresses.
std::string Sim::conf_context() {
  if (!c_.cctx) return "";
  uint64_t k = ++conf_ctx_;
  return std::string(H('X', k) % 3 ? H('X', k) % 23 : 0, static_cast<char>(k));
}

void Sim::batch(Node& n, int64_t count, int64_t size, uint64_t mixed) {
  raftpb::Message m;
  m.set_type(raftpb::MsgProp);
  m.set_to(n.id);
  m.set_from(n.id == 1 ? 2 : 1);
  uint64_t first = prop_id_ + 1;
  int b = static_cast<int>(batch_id_++);
  // Positions of membership changes among the items.
  std::set<int64_t> at;
  if (mixed)
    for (uint64_t k = 0; k < 1 + mixed / 8 % 2; k++) at.insert(static_cast<int64_t>(rt::hc(mixed, k) % static_cast<uint64_t>(count + 1)));
  int gap = 1;
  auto add_conf = [&](int64_t j) {
    static const int kinds[] = {0, 1, 2, 3, 4, 5, 8, 9};
    RefCC cc;
    bool v1 = false;
    uint64_t h = rt::hc(mixed, 1000 + static_cast<uint64_t>(j));
    if (!choose_conf(n, kinds[h % 8], rt::mix(h), static_cast<int>(h / 8 % 3), &cc, &v1)) return;
    raftpb::ConfChange c1;
    raftpb::ConfChangeV2 c2;
    encode_conf(cc, conf_context(), v1, m.add_entries(), &c1, &c2);
    fault(F_CONF);
    gap++;
  };
  for (int64_t j = 0; j < count; j++) {
    if (at.count(j)) add_conf(j);
    uint64_t id = ++prop_id_;
    PropRec& p = props_[id];
    p.node = n.id;
    p.inc = n.inc;
    p.data = payload(id, in_range(H('w', id), 1, size));
    p.batch = b;
    p.bpos = static_cast<int>(j);
    p.gap = gap;
    gap = 1;
    m.add_entries()->set_data(p.data);
    r_->props++;
  }
  if (at.count(count)) add_conf(count);
  if (m.entries_size() > count) sit(S_batch_with_conf);
  craft::Status st;
  Cap pre = n.cap;
  auto copy = std::make_shared<raftpb::Message>(m);
  if (!use(n, K_STEP, &m, [&] { st = n.rn->Step(copy); })) return;
  bool direct = st.IsOK() && pre.state == craft::kLeader && n.cap.state == craft::kLeader && pre.term == n.cap.term;
  for (uint64_t id = first; id <= prop_id_; id++) {
    PropRec& p = props_[id];
    p.accepted = st.IsOK();
    p.refused = !st.IsOK();
    if (direct) {
      p.direct = true;
      p.term = pre.term;
      p.order = ++order_;
    }
  }
  prop_result(n, m, pre, st.IsOK());
}

void Sim::read(Node& n, bool heal) {
  std::string ctx = "r" + std::to_string(++read_id_);
  ReadRec& r = reads_[ctx];
  r.node = n.id;
  r.min_index = max_exposed_;
  r.t = now_;
  r.heal = heal;
  r.inc = n.inc;
  r.lead = n.cap.lead;
  r.lterm = n.cap.term;
  r.confs = confs_applied_;
  r.leadchg = n.leadchg;
  tr("node %" PRIu64 " ReadIndex %s (committed so far %" PRIu64 ")", n.id, ctx.c_str(), max_exposed_);
  if (n.cap.state == craft::kLeader) lead_read(n, ctx);
  use(n, K_READ, nullptr, [&] { n.rn->ReadIndex(ctx); });
}

void Sim::propose_conf(Node& n, const RefCC& cc, bool v1) {
  raftpb::Message m;
  m.set_type(raftpb::MsgProp);
  raftpb::ConfChange c1;
  raftpb::ConfChangeV2 c2;
  encode_conf(cc, conf_context(), v1, m.add_entries(), &c1, &c2);
  fault(F_CONF);
  craft::Status st;
  Cap pre = n.cap;
  if (!use(n, K_CONF, &m, [&] { st = n.rn->ProposeConfChange(v1 ? craft::ConfChangeI(c1) : craft::ConfChangeI(c2)); })) return;
  tr("node %" PRIu64 " conf change proposal %s%s -> %s", n.id, v1 ? "v1" : "v2", cc.ch.empty() ? " leave" : "", st.IsOK() ? "ok" : "refused");
  prop_result(n, m, pre, st.IsOK());
}

void Sim::conf(Node& n, int what, uint64_t h, int transition) {
  RefCC cc;
  bool v1 = false;
  if (choose_conf(n, what, h, transition, &cc, &v1)) propose_conf(n, cc, v1);
}

bool Sim::choose_conf(Node& n, int what, uint64_t h, int transition, RefCC* out_cc, bool* out_v1) {
  RefCfg f = inforce(n);
  std::vector<uint64_t> out, in, lrn;
  for (uint64_t x = 1; x <= maxid(); x++) {
    if (f.in & bit(x)) in.push_back(x);
    else if ((f.lrn | f.lnext) & bit(x)) lrn.push_back(x);
    else if (!(f.all() & bit(x)) && !(ever_removed_ & bit(x))) out.push_back(x);
  }
  auto pick = [&](std::vector<uint64_t>& v) -> uint64_t {
    if (v.empty()) return 0;
    h = rt::mix(h);
    size_t i = h % v.size();
    uint64_t x = v[i];
    v.erase(v.begin() + i);
    return x;
  };
  RefCC& cc = *out_cc;
  bool& v1 = *out_v1;
  uint64_t x;
  switch (what) {
    case 0:  // add a voter
      if (!(x = pick(out))) return false;
      cc.ch.push_back({raftpb::ConfChangeAddNode, x});
      v1 = transition == 0 && (h & 1);
      break;
    case 1:  // remove a voter
      if (in.size() < 2) return false;
      cc.ch.push_back({raftpb::ConfChangeRemoveNode, pick(in)});
      v1 = transition == 0 && (h & 1);
      break;
    case 2:  // add a learner
      if (!(x = pick(out))) return false;
      cc.ch.push_back({raftpb::ConfChangeAddLearnerNode, x});
      v1 = transition == 0 && (h & 1);
      break;
    case 3:  // promote a learner
      if (!(x = pick(lrn))) return false;
      cc.ch.push_back({raftpb::ConfChangeAddNode, x});
      v1 = transition == 0 && (h & 1);
      break;
    case 4:  // demote a voter
      if (in.size() < 2) return false;
      cc.ch.push_back({raftpb::ConfChangeAddLearnerNode, pick(in)});
      v1 = transition == 0 && (h & 1);
      break;
    case 5: {  // several at once
      int k = 1 + static_cast<int>(rt::mix(h ^ 99) % 3);
      for (int i = 0; i < k; i++) {
        h = rt::mix(h);
        switch (h % 5) {
          case 0: if ((x = pick(out))) cc.ch.push_back({raftpb::ConfChangeAddNode, x}); break;
          case 1: if (in.size() > 1) cc.ch.push_back({raftpb::ConfChangeRemoveNode, pick(in)}); break;
          case 2: if (in.size() > 1) cc.ch.push_back({raftpb::ConfChangeAddLearnerNode, pick(in)}); break;
          case 3: if ((x = pick(lrn))) cc.ch.push_back({raftpb::ConfChangeAddNode, x}); break;
          case 4: if ((x = pick(out))) cc.ch.push_back({raftpb::ConfChangeAddLearnerNode, x}); break;
        }
      }
      if (cc.ch.empty()) return false;
      break;
    }
    case 6:  // update
      cc.ch.push_back({raftpb::ConfChangeUpdateNode, in.empty() ? 1 : in[0]});
      v1 = transition == 0 && (h & 1);
      break;
    case 7:  // remove a learner
      if (!(x = pick(lrn))) return false;
      cc.ch.push_back({raftpb::ConfChangeRemoveNode, x});
      v1 = transition == 0 && (h & 1);
      break;
    case 8:  // replace one voter by another
      if (in.size() < 2 || out.empty()) return false;
      cc.ch.push_back({raftpb::ConfChangeRemoveNode, pick(in)});
      cc.ch.push_back({raftpb::ConfChangeAddNode, pick(out)});
      break;
    case 10: {  // replace most of the voters
      uint64_t self = n.id;
      for (int k = 1 + static_cast<int>(rt::mix(h ^ 7) % 3); k > 0; k--) {
        if ((rt::mix(h ^ 8) & 1) && (x = pick(lrn))) cc.ch.push_back({raftpb::ConfChangeAddNode, x});
        else if ((x = pick(out))) cc.ch.push_back({raftpb::ConfChangeAddNode, x});
      }
      if (cc.ch.empty()) return false;
      bool keep = rt::mix(h ^ 9) % 4 != 0;
      size_t drop = in.size() - (keep ? 1 : 0);
      if (rt::mix(h ^ 10) % 3 == 0 && drop > 1) drop--;
      if (keep) in.erase(std::remove(in.begin(), in.end(), self), in.end());
      while (drop-- > 0 && (x = pick(in))) cc.ch.push_back({rt::mix(h ^ 11) % 5 ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode, x});
      break;
    }
    default:  // leave
      break;
  }
  if (!v1) cc.transition = cc.ch.empty() ? 0 : transition % 3;
  for (auto& y : cc.ch) {
    if (y.type == raftpb::ConfChangeRemoveNode) ever_removed_ |= bit(y.id);
    Node& t = N(y.id);
    if (!t.started) at(now_ + in_range(H('B', y.id), 0, 12 * kTick), [this, &t] { boot(t); });
  }
  return true;
}

void Sim::bad_message(Node& n, int what, uint64_t h) {
  raftpb::Message m;
  RefCfg f = inforce(n);
  uint64_t unknown = 0;
  for (uint64_t x = 1; x <= maxid() + 3 && !unknown; x++)
    if (!(f.all() & bit(x))) unknown = x;
  if (!unknown) unknown = maxid() + 1;
  static const raftpb::MessageType local[] = {raftpb::MsgHup, raftpb::MsgBeat, raftpb::MsgUnreachable, raftpb::MsgSnapStatus, raftpb::MsgCheckQuorum};
  static const raftpb::MessageType resp[] = {raftpb::MsgAppResp, raftpb::MsgVoteResp, raftpb::MsgHeartbeatResp, raftpb::MsgPreVoteResp};
  bool loc = what % 2 == 0;
  m.set_to(n.id);
  if (loc) {
    m.set_type(local[h % 5]);
    m.set_from(h & 64 ? n.id : 1 + h / 7 % maxid());
    m.set_term(h & 32 ? n.cap.term : 0);
    m.set_reject((h & 128) != 0);
  } else {
    m.set_type(resp[h % 4]);
    m.set_from(unknown);
    m.set_term(n.cap.term + (h / 5 % 3));
    m.set_index(n.cap.last);
    m.set_reject((h & 128) != 0);
  }
  fault(F_BADMSG);
  craft::Status st;
  Cap pre = n.cap;
  auto copy = std::make_shared<raftpb::Message>(m);
  tr("node %" PRIu64 " gets illegal %s from %" PRIu64 " term %" PRIu64, n.id, raftpb::MessageType_Name(m.type()).c_str(), m.from(), m.term());
  if (!use(n, K_STEP, nullptr, [&] { st = n.rn->Step(copy); })) return;
  r_->checks += is_target(17);
  const Cap& q = n.cap;
  bool changed = pre.term != q.term || pre.vote != q.vote || pre.state != q.state || pre.commit != q.commit || pre.last != q.last || pre.nmsgs != q.nmsgs || pre.lead != q.lead;
  if (st.IsOK() || changed)
    viol(P(17) | (loc ? 0 : P(10)), loc ? "local-message" : "unknown-response", "node %" PRIu64 ": %s from %" PRIu64 " over the network was %s", n.id, raftpb::MessageType_Name(m.type()).c_str(), m.from(), st.IsOK() ? "accepted" : "refused but changed state");
}

// A message the leader could send at this moment though it has no reason to:
// another stretch of its log, its snapshot, or a heartbeat. Followers must cope
// with any of them (retransmissions, peers with another sending strategy).
void Sim::synth(Node& l, Node& t, int64_t what, uint64_t h, bool soon) {
  if (l.cap.state != craft::kLeader || !l.st || l.dur.hs.term() != l.cap.term) return;
  auto cl = claims_.find(l.cap.term);
  if (cl == claims_.end() || cl->second != std::make_pair(l.id, l.inc)) return;
  Durable& d = l.dur;
  uint64_t commit = std::min(d.hs.commit(), l.cap.commit);
  raftpb::Message m;
  m.set_from(l.id);
  m.set_to(t.id);
  m.set_term(l.cap.term);
  uint64_t lo = std::max(l.mfirst - 1, d.off), hi = std::min(l.cap.last, d.last());
  if (what == 8) {
    if (!d.sidx || d.sidx > commit) return;
    rt::Panic p;
    craft::SnapshotPtr s;
    if (l.raw) return;
    if (!guard_storage(l, "SnapShot", [&] { s = std::get<0>(l.st->ms->SnapShot()); })) return;
    if (!s || s->metadata().index() == 0) return;
    m.set_type(raftpb::MsgSnap);
    *m.mutable_snapshot() = *s;
  } else if (what == 9) {
    uint64_t match = 0;
    RefCfg f = inforce(l);
    if (!(f.all() & bit(t.id))) return;
    l.rn->WithProgress([&](uint64_t id, craft::ProgressType, craft::ProgressPtr pr) { if (id == t.id) match = pr->Match(); });
    m.set_type(raftpb::MsgHeartbeat);
    uint64_t c = std::min(commit, match);
    m.set_commit(h & 1 ? c : c - std::min<uint64_t>(c, h / 2 % 5));
  } else {
    if (hi < lo) return;
    // Positions near the end of either log are the interesting ones.
    uint64_t p;
    uint64_t span = hi - lo;
    if (h % 3 == 0) p = lo + h / 3 % (span + 1);
    else if (h % 3 == 1) p = hi - std::min<uint64_t>(span, h / 3 % 6);
    else {
      uint64_t c = std::max(lo, std::min(hi, t.up ? t.cap.commit : commit));
      p = std::min(hi, c + h / 3 % 4);
    }
    uint64_t pt = p == d.off ? d.offterm : ment(l, p) ? ment(l, p)->term : 0;
    if (p == d.off ? p != l.mfirst - 1 && !ment(l, p) : !ment(l, p) || !d.has(p, pt)) return;
    uint64_t n = rt::mix(h) % 5;
    m.set_type(raftpb::MsgApp);
    m.set_index(p);
    m.set_logterm(pt);
    m.set_commit(commit);
    for (uint64_t i = p + 1; i <= p + n && i <= hi; i++) {
      const MEnt* e = ment(l, i);
      if (!e || !d.has(i, e->term)) break;
      *m.add_entries() = *e->p;
    }
  }
  fault(F_SYNTH);
  uint64_t id = ++flight_id_;
  Flight& f = flights_[id];
  f.from = static_cast<int>(l.id);
  f.to = static_cast<int>(t.id);
  f.from_inc = l.inc;
  f.m = std::move(m);
  f.dup = true;
  f.live = true;
  tr("extra %s %d->%d", raftpb::MessageType_Name(f.m.type()).c_str(), f.from, f.to);
  at(now_ + (soon ? 1 : c_.lat + in_range(rt::mix(h ^ 77), 0, c_.jit + (h % 5 == 0 ? 3 * kTick : 0))), [this, id] { deliver(id); });
}

// Node n has just taken a Ready with a snapshot: the leader, which may have
// been told that the first one failed, sends a newer one before it is done.
void Sim::resnap(Node& n) {
  if (!c_.resnap || healing_) return;
  uint64_t h = H('N', n.id, n.stageno);
  if (static_cast<int64_t>(h % 1000) >= c_.resnap) return;
  Node* l = leader();
  if (!l || l->id == n.id) return;
  int inc = n.inc;
  at(now_ + in_range(rt::mix(h), 1, std::max<int64_t>(kTick / 20, c_.pdelay + c_.adelay)), [this, &n, l, inc, h] {
    if (!n.up || n.inc != inc || n.stage == 0 || !l->up || l->stage == 1) return;
    maybe_snapshot(*l, 0, true, false);
    if (l->up && n.up && !done_) synth(*l, n, 8, h, true);
  });
}

// ---------------------------------------------------------------- operations

void Sim::do_op(const Op& op, size_t idx) {
  uint64_t h = H('o', idx, static_cast<uint64_t>(op.t));
  bool client = op.kind == OP_PROPOSE || op.kind == OP_READ || op.kind == OP_PROPBURST || op.kind == OP_BATCH;
  if (stable_.on && !(op.kind == OP_PROPOSE || op.kind == OP_READ || op.kind == OP_DISTURB)) return;
  if (!client && op.kind != OP_TRANSFERQ) watch_seq_++;
  tr("op #%zu %s %" PRId64 " %" PRId64 " %" PRId64 " %" PRId64, idx, kOpName[op.kind], op.a, op.b, op.c, op.d);
  auto block = [&](int from, int to, int64_t dur) {
    if (from == to || from < 1 || to < 1 || from > static_cast<int>(maxid()) || to > static_cast<int>(maxid())) return;
    size_t l = static_cast<size_t>(from) * nodes_.size() + to;
    blocked_until_[l] = std::max(blocked_until_[l], now_ + dur);
  };
  int mx = static_cast<int>(maxid());
  switch (op.kind) {
    case OP_PART:
      fault(F_PART);
      for (int i = 1; i <= mx; i++)
        for (int j = 1; j <= mx; j++)
          if (((op.a >> i) & 1) != ((op.a >> j) & 1)) block(i, j, op.b);
      return;
    case OP_ONEWAY: {
      fault(F_ONEWAY);
      Node* f = select(op.a, h);
      Node* t = select(op.b, rt::mix(h));
      if (!f) return;
      if (!t) for (int j = 1; j <= mx; j++) block(static_cast<int>(f->id), j, op.c);
      else block(static_cast<int>(f->id), static_cast<int>(t->id), op.c);
      return;
    }
    case OP_LOSSY:
      fault(F_LOSSY);
      lossy_ = op.a;
      lossy_until_ = now_ + op.b;
      return;
    case OP_CRASHALL:
      fault(F_CRASHALL);
      for (auto& x : nodes_)
        if (x->up) crash(*x, op.a + in_range(H('A', idx, x->id), 0, op.b));
      return;
    case OP_DELAYLINK: {
      Node* f = select(op.a, h);
      Node* t = select(op.b, rt::mix(h));
      if (!f) return;
      fault(F_REORDER);
      for (int j = 1; j <= mx; j++) {
        if (t && static_cast<int>(t->id) != j) continue;
        size_t l = static_cast<size_t>(f->id) * nodes_.size() + j;
        extra_[l] = op.c;
        extra_until_[l] = now_ + op.d;
      }
      return;
    }
    case OP_REPLAY: {
      for (int64_t i = 0; i < op.b && !history_.empty(); i++) {
        raftpb::Message m = history_[rt::hc(h, i) % history_.size()];
        if (m.to() == 0 || m.to() > maxid() || m.from() == 0) continue;
        if (m.type() == raftpb::MsgReadIndex && !c_.duprd) continue;
        fault(F_REPLAY);
        for (auto& e : m.entries())
          if (m.type() == raftpb::MsgProp)
            if (uint64_t id = prop_of(e)) props_[id].dup = true;
        uint64_t fid = ++flight_id_;
        Flight& f = flights_[fid];
        f.to = static_cast<int>(m.to());
        f.from = m.from() <= maxid() ? static_cast<int>(m.from()) : 1;
        f.m = std::move(m);
        f.dup = true;
        f.live = true;
        tr("replay of an old %s %d->%d", raftpb::MessageType_Name(f.m.type()).c_str(), f.from, f.to);
        at(now_ + in_range(rt::hc(h, i ^ 55), 0, 3 * kTick), [this, fid] { deliver(fid); });
      }
      return;
    }
    case OP_TRIG:
      trigs_.push_back(Trig{op.a, static_cast<int>(op.b % 100), static_cast<int>(op.b / 100), op.c, op.d, true});
      return;
    case OP_STABLE:
      start_stable(op.a);
      return;
    case OP_DISTURB:
      if (stable_.on) disturb(static_cast<int>(op.a), op.b, h);
      return;
    case OP_TRANSFERQ: {
      Node* l = leader();
      if (!l) return;
      std::string why;
      if (!settled(true, &why)) {
        tr("not settled: %s", why.c_str());
        return;
      }
      RefCfg f = inforce(*l);
      std::vector<Node*> v;
      for (int j = 1; j <= mx; j++)
        if ((f.voters() & bit(j)) && j != static_cast<int>(l->id)) v.push_back(&N(j));
      if (v.empty()) return;
      Node* t = v[h % v.size()];
      for (uint64_t i = 0; i < h / 16 % 4; i++) propose(*l, 10);
      if (!l->up) return;
      uint64_t tid = t->id, seq = ++watch_seq_, term = l->cap.term;
      fault(F_TRANSFER);
      tr("leader %" PRIu64 " transfers to %" PRIu64, l->id, tid);
      if (!use(*l, K_TRANSFER, nullptr, [&] { l->rn->TransferLeader(tid); })) return;
      pump(*l);
      at(now_ + c_.E * kTick, [this, tid, seq, term] {
        if (healing_ || watch_seq_ != seq) return;
        r_->checks += is_target(14);
        sit(S_quiet_transfer);
        Node& x = N(tid);
        if (!x.up || x.cap.state != craft::kLeader || x.cap.term <= term)
          viol(P(14), "transfer-failed", "an undisturbed leadership transfer to node %" PRIu64 " did not make it leader within an election timeout (term %" PRIu64 ")", tid, term);
      });
      return;
    }
    case OP_SYNTH: {
      Node* l = select(op.a, h);
      Node* t = select(op.b, rt::mix(h));
      if (l && t && l->up && l->id != t->id) synth(*l, *t, op.c, rt::hc(h, static_cast<uint64_t>(op.d)));
      return;
    }
    case OP_REMOVELEADER: {
      Node* l = leader();
      if (!l) return;
      submit(*l, [this, l] {
        RefCfg f = inforce(*l);
        if (popc(f.in) < 2 || !(f.in & bit(l->id))) return;
        RefCC cc;
        cc.ch.push_back({raftpb::ConfChangeRemoveNode, l->id});
        ever_removed_ |= bit(l->id);
        propose_conf(*l, cc, true);
      });
      return;
    }
    default:
      break;
  }
  // the rest acts on one node
  Node* np = select(op.a, h);
  if (!np || np->id == 0) return;
  Node& n = *np;
  int inc = n.inc;
  switch (op.kind) {
    case OP_CRASH:
      if (!n.up) return;
      fault(F_CRASH);
      crash(n, op.b);
      return;
    case OP_ISOL:
    case OP_ISOLDEST:
      fault(op.kind == OP_ISOL ? F_PART : F_ONEWAY);
      for (int j = 1; j <= mx; j++) {
        block(j, static_cast<int>(n.id), op.b);
        if (op.kind == OP_ISOL) block(static_cast<int>(n.id), j, op.b);
      }
      return;
    default:
      break;
  }
  if (!n.up) return;
  switch (op.kind) {
    case OP_PROPOSE:
      submit(n, [this, &n, op] { propose(n, op.b); });
      break;
    case OP_PROPBURST:
      submit(n, [this, &n, op] {
        for (int64_t i = 0; i < op.b && n.up; i++) propose(n, in_range(H('W', prop_id_), 1, op.c));
      });
      break;
    case OP_BATCH:
      submit(n, [this, &n, op] { batch(n, op.b, op.c, static_cast<uint64_t>(op.d)); });
      break;
    case OP_READ:
      submit(n, [this, &n] { read(n, false); });
      break;
    case OP_CONF:
      submit(n, [this, &n, op] { conf(n, static_cast<int>(op.b), static_cast<uint64_t>(op.c), static_cast<int>(op.d)); });
      break;
    case OP_LEAVE:
      submit(n, [this, &n] { propose_conf(n, RefCC(), false); });
      break;
    case OP_TRANSFER: {
      uint64_t tid = 0;
      if (op.b > 0) tid = static_cast<uint64_t>(op.b);
      else if (Node* t = select(op.b, rt::mix(h))) tid = t->id;
      if (!tid) return;
      fault(F_TRANSFER);
      submit(n, [this, &n, tid] {
        tr("node %" PRIu64 " TransferLeader(%" PRIu64 ")", n.id, tid);
        use(n, K_TRANSFER, nullptr, [&] { n.rn->TransferLeader(tid); });
      });
      break;
    }
    case OP_CAMPAIGN:
      fault(F_CAMPAIGN);
      submit(n, [this, &n] { use(n, K_CAMPAIGN, nullptr, [&] { n.rn->Campaign(); }); });
      break;
    case OP_SLOW:
      fault(F_SLOW);
      n.slow = op.b;
      n.slow_until = now_ + op.c;
      break;
    case OP_SKEW:
      fault(F_SKEW);
      n.period = std::max<int64_t>(100, op.b);
      at(now_ + op.c, [&n, inc] { if (n.inc == inc) n.period = kTick; });
      break;
    case OP_STALL:
      fault(F_STALL);
      n.stall_until = now_ + op.b;
      at(n.stall_until, [this, &n, inc] { if (n.up && n.inc == inc) drain(n); });
      break;
    case OP_JUMP:
      fault(F_JUMP);
      submit(n, [this, &n, op] { for (int64_t i = 0; i < op.b && n.up; i++) tick(n); });
      break;
    case OP_SNAP:
      maybe_snapshot(n, op.b, true);
      break;
    case OP_SNAPUNAVAIL: {
      n.st->unavail = true;
      std::weak_ptr<SimStorage> w = n.st;
      at(now_ + op.b, [this, w] {
        if (auto s = w.lock()) {
          s->unavail = false;
          r_->faults[F_SNAPUNAVAIL] += s->unavail_hits;
          s->unavail_hits = 0;
        }
      });
      break;
    }
    case OP_BADMSG:
      submit(n, [this, &n, op, h] { bad_message(n, static_cast<int>(op.b), h); });
      break;
    case OP_UNREACH: {
      Node* t = select(op.b, rt::mix(h));
      if (t && t->id != n.id) report_unreach(n.id, n.inc, t->id, 0);
      break;
    }
    default:
      break;
  }
}

// ---------------------------------------------------------------- stability windows

uint64_t Sim::voters_q(Node& l, uint64_t h) {
  RefCfg f = inforce(l);
  uint64_t q = bit(l.id);
  std::vector<uint64_t> v;
  for (uint64_t x = 1; x <= maxid(); x++)
    if ((f.voters() & bit(x)) && x != l.id && N(x).up) v.push_back(x);
  while (!majority(f, q) && !v.empty()) {
    h = rt::mix(h);
    size_t i = h % v.size();
    q |= bit(v[i]);
    v.erase(v.begin() + i);
  }
  return majority(f, q) ? q : 0;
}

bool Sim::node_settled(Node& n, Node& l) {
  if (!n.up || n.stage != 0 || n.pumped || !n.inbox.empty() || n.cap.nmsgs || n.stall_until > now_) return false;
  if (n.cap.term != l.cap.term || n.cap.lead != l.id) return false;
  if (&n != &l && (n.cap.state != craft::kFollower || n.ticks - n.lead_tick > c_.H + 1 || n.lead_tick_term != n.cap.term)) return false;
  return inforce(n) == inforce(l);
}

bool Sim::settled(bool strict, std::string* why) {
  auto no = [&](const char* w) {
    if (why) *why = w;
    return false;
  };
  Node* lp = leader();
  if (!lp) return no("no leader");
  Node& l = *lp;
  RefCfg f = inforce(l);
  if (f.joint() || l.cap.transferee) return no("joint or transferring");
  if (!(f.voters() & bit(l.id))) return no("leader not a voter");
  const MEnt* e = ment(l, l.cap.commit);
  if (!e ? l.cap.commit != l.mfirst - 1 || l.cap.last_term != l.cap.term : e->term != l.cap.term) return no("nothing committed in term");
  if (conf_in(l, l.cap.applied, l.cap.last)) return no("conf pending");
  uint64_t q = strict ? f.all() : stable_.quorum;
  for (auto& n : nodes_) {
    if (!n->started) continue;
    if (q & bit(n->id)) {
      if (!node_settled(*n, l)) return no("member not settled");
      if (n->ticks < 1) return no("fresh");
      if (strict && (n->cap.last != l.cap.last || n->cap.applied != l.cap.last)) return no("not caught up");
    } else {
      if (n->up) {
        if (n->cap.term > l.cap.term || !n->inbox.empty() || n->stall_until > now_) return no("outsider busy or ahead");
        if (n->cap.state == craft::kPreCandidate && (n->pv_grants & ~bit(n->id))) return no("outsider holds pre-votes");
        if (strict) return no("outsider up");
      }
      if (n->dur.hs.term() > l.cap.term) return no("outsider ahead on disk");
    }
  }
  for (auto& f2 : flights_) {
    const auto& m = f2.second.m;
    if (m.type() != raftpb::MsgPreVote && m.term() > l.cap.term) return no("higher term in flight");
    if (strict && m.type() == raftpb::MsgPreVote) return no("pre-vote in flight");
    if (m.type() == raftpb::MsgPreVoteResp && !m.reject()) return no("pre-vote grant in flight");
    if (m.type() == raftpb::MsgTimeoutNow || m.type() == raftpb::MsgTransferLeader) return no("transfer in flight");
    if (m.type() == raftpb::MsgProp)
      for (auto& en : m.entries())
        if (en.type() != raftpb::EntryNormal) return no("conf in flight");
  }
  if (strict)
    for (size_t i = 1; i <= maxid(); i++)
      for (size_t j = 1; j <= maxid(); j++)
        if ((f.all() & bit(i)) && (f.all() & bit(j)) && (blocked_until_[i * nodes_.size() + j] > now_ || extra_until_[i * nodes_.size() + j] > now_)) return no("blocked link");
  return true;
}

void Sim::start_stable(int64_t dur) {
  Node* l = leader();
  if (stable_.on || !l || c_.hetero || !c_.prevote || !c_.checkq) return;
  uint64_t q = voters_q(*l, H('V', static_cast<uint64_t>(now_)));
  if (!q) return;
  stable_ = Stable();
  stable_.on = true;
  stable_.leader = l->id;
  stable_.term = l->cap.term;
  stable_.inc = l->inc;
  stable_.quorum = q;
  stable_.warm = now_ + 3 * c_.E * kTick;
  stable_.until = stable_.warm + 12 * kTick + dur;
  for (auto& n : nodes_) {
    if (!(q & bit(n->id))) continue;
    n->period = kTick;
    n->slow_until = 0;
    if (n->stall_until > now_) {
      n->stall_until = now_;
      Node* x = n.get();
      at(now_, [this, x] { if (x->up) drain(*x); });
    }
  }
  tr("stability window: leader %" PRIu64 " term %" PRIu64 " quorum %" PRIx64, l->id, stable_.term, q);
  auto poll = std::make_shared<std::function<void()>>();
  *poll = [this, poll] {
    if (!stable_.on || healing_) return;
    Node* l2 = leader();
    bool same = l2 && l2->id == stable_.leader && l2->cap.term == stable_.term && l2->inc == stable_.inc;
    std::string why = "another leader";
    if (same && settled(false, &why)) {
      stable_.armed = true;
      sit(S_stable_window_armed);
      tr("stability window armed");
      return;
    }
    if (now_ > stable_.warm + 12 * kTick) {
      tr("stability window abandoned: %s", why.c_str());
      stable_.on = false;
      return;
    }
    at(now_ + 137, *poll);
  };
  at(stable_.warm, *poll);
  at(stable_.until, [this] {
    if (stable_.on && now_ >= stable_.until) {
      tr("stability window over");
      stable_.on = false;
    }
  });
}

void Sim::check_stable() {
  if (!stable_.armed) return;
  Node& l = N(stable_.leader);
  if (!l.up || l.inc != stable_.inc) {
    stable_.on = false;
    return;
  }
  r_->checks += is_target(13);
  if (l.cap.state != craft::kLeader || l.cap.term != stable_.term) {
    stable_.on = false;
    viol(P(13), "deposed", "leader %" PRIu64 " of term %" PRIu64 ", in steady contact with quorum %" PRIx64 ", is role %d of term %" PRIu64 " now", l.id, stable_.term, stable_.quorum, l.cap.state, l.cap.term);
  }
}

void Sim::disturb(int what, int64_t dur, uint64_t h) {
  std::vector<Node*> v;
  for (auto& n : nodes_)
    if (n->started && !(stable_.quorum & bit(n->id))) v.push_back(n.get());
  if (v.empty()) return;
  Node& n = *v[h % v.size()];
  int mx = static_cast<int>(maxid());
  auto block = [&](int from, int to) {
    size_t l = static_cast<size_t>(from) * nodes_.size() + to;
    if (from != to) blocked_until_[l] = std::max(blocked_until_[l], now_ + dur);
  };
  int id = static_cast<int>(n.id);
  tr("disturb %d node %d", what, id);
  switch (what % 8) {
    case 0:
      fault(F_CRASH);
      crash(n, dur);
      break;
    case 1:
      fault(F_PART);
      for (int j = 1; j <= mx; j++) { block(j, id); block(id, j); }
      break;
    case 2:
      if (!n.up) break;
      fault(F_STALL);
      n.stall_until = now_ + dur;
      { int inc = n.inc; at(n.stall_until, [this, &n, inc] { if (n.up && n.inc == inc) drain(n); }); }
      break;
    case 3:
      if (!n.up) break;
      fault(F_JUMP);
      submit(n, [this, &n] { for (int i = 0; i < 3 * c_.E && n.up; i++) tick(n); });
      break;
    case 4:
      if (!n.up) break;
      fault(F_CAMPAIGN);
      submit(n, [this, &n] { use(n, K_CAMPAIGN, nullptr, [&] { n.rn->Campaign(); }); });
      break;
    case 5:
      fault(F_ONEWAY);
      for (int j = 1; j <= mx; j++) block(j, id);
      break;
    case 6:
      fault(F_ONEWAY);
      block(static_cast<int>(stable_.leader), id);
      break;
    default:
      fault(F_ONEWAY);
      for (int j = 1; j <= mx; j++)
        if (stable_.quorum & bit(j)) block(j, id);
      break;
  }
}

// ---------------------------------------------------------------- recovery once faults stop

void Sim::start_heal() {
  tr("---- faults stop ----");
  healing_ = true;
  stable_.on = false;
  trigs_.clear();
  lossy_until_ = 0;
  heal_start_ = now_;
  for (auto& x : blocked_until_) x = 0;
  for (auto& x : extra_until_) x = 0;
  std::vector<uint64_t> ids;
  for (auto& f : flights_) ids.push_back(f.first);
  for (uint64_t id : ids) at(now_ + in_range(H('j', id), 1, kTick), [this, id] { deliver(id); });
  for (auto& n : nodes_) {
    n->slow_until = 0;
    n->stall_until = std::min(n->stall_until, now_);
    n->period = kTick;
    if (n->st) n->st->unavail = false;
    Node* x = n.get();
    if (n->up) at(now_, [this, x] { if (x->up) drain(*x); });
  }
  heal_target_ = max_exposed_;
  // A roll-out of options ends with every node running the same ones; no
  // progress is promised before (see DESIGN.md).
  if (c_.hetero)
    for (auto& n : nodes_)
      if (n->up) crash(*n, -1, false);
  heal_sets();
  heal_tick();
}

void Sim::heal_sets() {
  // The latest membership any application reached rules.
  RefCfg star;
  for (uint64_t i = ref_known_.size(); i-- > ref_known_.off;)
    if (ref_known_[i] && (ref_at_[i].in || ref_at_[i].out)) {
      star = ref_at_[i];
      break;
    }
  if (!star.in)
    for (int i = 1; i <= npeers_; i++) star.in |= bit(i);
  if (!c_.boot && max_exposed_ < static_cast<uint64_t>(npeers_))
    for (int i = 1; i <= npeers_; i++) star.in |= bit(i);
  uint64_t want = star.all();
  for (auto& n : nodes_)
    if (n->up && (star.all() & bit(n->id))) want |= inforce(*n).all();
  heal_members_ = star.all();
  for (auto& n : nodes_) {
    if (n->id == 0) continue;
    if (want & bit(n->id)) {
      if (n->up) continue;
      n->stopped = false;
      if (!n->started) boot(*n);
      else {
        bool mem = n->id <= static_cast<uint64_t>(npeers_);
        fault(F_RESTART);
        start(*n, mem && !c_.boot && n->dur.empty());
      }
    } else if (n->up) {
      stop(*n);
    }
  }
}

bool Sim::heal_done(uint64_t skip) {
  int64_t E = c_.E * kTick;
  Node* l = nullptr;
  heal_why_.clear();
  for (auto& n : nodes_) {
    if (!n->up || n->cap.state != craft::kLeader) continue;
    if (l) heal_why_ = "two leaders";
    if (!l || n->cap.term > l->cap.term) l = n.get();
  }
  if (!l) {
    heal_why_ = "no leader";
    heal_stable_since_ = -1;
    return false;
  }
  if (heal_leader_ != l->id || heal_term_ != l->cap.term || heal_stable_since_ < 0 || !heal_why_.empty()) {
    heal_leader_ = l->id;
    heal_term_ = l->cap.term;
    heal_stable_since_ = now_;
  }
  if (!heal_why_.empty()) return false;
  RefCfg f = inforce(*l);
  if (f.joint() && (f.autol || !c_.stayjoint)) {
    heal_why_ = "joint configuration " + f.str();
    return false;
  }
  for (auto& n : nodes_) {
    if (!(heal_members_ & bit(n->id)) || (skip & bit(n->id))) continue;
    std::string who = "node " + std::to_string(n->id) + " ";
    if (!n->up) heal_why_ = who + "is down";
    else if (n->cap.lead != l->id || n->cap.term != l->cap.term) heal_why_ = who + "does not follow the leader";
    else if (n->cap.last != l->cap.last || n->cap.last_term != l->cap.last_term) heal_why_ = who + "log ends at " + std::to_string(n->cap.last) + ", leader's at " + std::to_string(l->cap.last);
    else if (n->cap.commit != l->cap.last) heal_why_ = who + "commit is " + std::to_string(n->cap.commit) + " of " + std::to_string(l->cap.last);
    else if (n->applied != l->cap.last) heal_why_ = who + "applied only " + std::to_string(n->applied) + " of " + std::to_string(l->cap.last);
    else if (!heal_read_ok_[n->id]) heal_why_ = who + "has no completed read";
    if (!heal_why_.empty()) return false;
  }
  auto it = props_.find(heal_probe_);
  if (it == props_.end() || !it->second.applied_at) {
    heal_why_ = "new proposal not applied";
    return false;
  }
  // Nothing is lost any more, so a read accepted under the leader that stayed
  // is answered, also when it came before that leader's first commit.
  for (auto& rr : reads_) {
    const ReadRec& r = rr.second;
    if (!r.heal || r.done || r.lead != l->id || r.lterm != l->cap.term || !(heal_members_ & bit(r.node)) || (skip & bit(r.node)) || N(r.node).inc != r.inc || N(r.node).leadchg != r.leadchg) continue;
    if (r.confs != confs_applied_) continue;  // a membership change may lose it
    heal_why_ = "read " + rr.first + " of node " + std::to_string(r.node) + " is not answered";
    return false;
  }
  if (max_exposed_ < heal_target_) {
    heal_why_ = "history shrank";
    return false;
  }
  if (now_ - heal_stable_since_ < 3 * E) {
    heal_why_ = "leadership not stable yet";
    return false;
  }
  return true;
}

// The state behind the known finding on shrinking memberships: every node that
// may still campaign needs a vote it cannot get, because a node that already
// dropped out of the voters by a change the candidate has not learned to be
// committed holds a longer log.
bool Sim::shrink_deadlock(std::string* who) {
  bool lag = false;
  for (auto& p : nodes_) {
    if (!p->up) continue;
    if (p->cap.state == craft::kLeader) return false;
    RefCfg f = inforce(*p);
    if (!(f.voters() & bit(p->id))) continue;
    uint64_t s = bit(p->id);
    for (auto& x : nodes_) {
      if (!x->up || x == p || !(f.voters() & bit(x->id))) continue;
      bool fresh = p->cap.last_term > x->cap.last_term || (p->cap.last_term == x->cap.last_term && p->cap.last >= x->cap.last);
      if (fresh) s |= bit(x->id);
      else if (!(inforce(*x).voters() & bit(x->id))) {
        lag = true;
        *who = "node " + std::to_string(p->id) + " (log ends " + std::to_string(p->cap.last) + ", still sees " + f.str() + ") needs the vote of node " + std::to_string(x->id) + " (log ends " + std::to_string(x->cap.last) + ", no longer a voter)";
      }
    }
    if (majority(f, s)) return false;
  }
  return lag;
}

// The same with the finding on nodes at a higher term: whoever may still be elected
// needs the vote of a node that is ahead in terms, drops its requests without a
// word (no pre-vote, no check-quorum) and campaigns only among others.
bool Sim::race_deadlock(std::string* who) {
  bool race = false;
  for (auto& p : nodes_) {
    if (!p->up) continue;
    if (p->cap.state == craft::kLeader) return false;
    RefCfg f = inforce(*p);
    if (!(f.voters() & bit(p->id))) continue;
    uint64_t s = bit(p->id);
    for (auto& x : nodes_) {
      if (!x->up || x == p || !(f.voters() & bit(x->id))) continue;
      if (p->cap.last_term < x->cap.last_term || (p->cap.last_term == x->cap.last_term && p->cap.last < x->cap.last)) continue;
      if (x->cap.term > p->cap.term && !x->prevote && !x->checkq && !(inforce(*x).voters() & bit(p->id))) {
        race = true;
        *who = "node(s) " + std::to_string(x->id) + ", which cannot campaign towards it, at a higher term (" + std::to_string(x->cap.term) + ") than node " + std::to_string(p->id) + " (" + std::to_string(p->cap.term) + "), which needs the vote";
        continue;
      }
      s |= bit(x->id);
    }
    if (majority(f, s)) return false;
  }
  return race;
}

// With nothing to do, the recovered cluster only exchanges heartbeats.
void Sim::quiet_tick() {
  if (done_) return;
  int64_t E = c_.E * kTick;
  Node& l = N(heal_leader_);
  auto finish = [this] {
    r_->healed = 1;
    r_->heal_ticks = (now_ - heal_start_) / kTick;
    done_ = true;
  };
  if (quiet_.stage == 1) {
    if (now_ >= quiet_.until) {
      if (!heal_done()) return finish();
      if (!wants(23)) return quiet_next(2);
      quiet_.stage = 2;
      quiet_.leader = heal_leader_;
      quiet_.term = heal_term_;
      quiet_.last = l.cap.last;
      quiet_.ticks0 = l.ticks;
      quiet_.inc = l.inc;
      quiet_.members = heal_members_;
      quiet_.until = now_ + 4 * E + 4 * kTick;
      tr("---- quiet from here ----");
    }
  } else {
    if (quiet_.stage == 3) return finish();
    // Leadership stays (C12); only what happens under it counts here.
    if (!l.up || l.inc != quiet_.inc || l.cap.state != craft::kLeader || l.cap.term != quiet_.term) return finish();
    for (auto& n : nodes_)
      if (n->up && n->cap.term != quiet_.term) return finish();
    r_->checks += is_target(23);
    if (l.cap.last != quiet_.last) viol(P(23), "idle-append", "the log of idle leader %" PRIu64 " grew from %" PRIu64 " to %" PRIu64, l.id, quiet_.last, l.cap.last);
    uint64_t peers = 0;
    for (uint64_t id = 1; id <= maxid(); id++) peers += id != l.id && (quiet_.members & bit(id)) ? 1 : 0;
    uint64_t most = static_cast<uint64_t>((l.ticks - quiet_.ticks0) / c_.H + 2) * peers;
    if (quiet_.hb > most) viol(P(23), "idle-heartbeats", "idle leader %" PRIu64 " sent %" PRIu64 " heartbeats in %" PRId64 " ticks to %" PRIu64 " members", l.id, quiet_.hb, l.ticks - quiet_.ticks0, peers);
    if (now_ >= quiet_.until) return quiet_next(2);
  }
  at(now_ + kTick, [this] { quiet_tick(); });
}

void Sim::quiet_next(int after) {
  if (after < 4 && wants(25) && heal_done()) {
    tr("---- no clock ticks from here ----");
    quiet_.stage = 4;
    quiet_.leader = heal_leader_;
    quiet_.term = heal_term_;
    quiet_.inc = N(heal_leader_).inc;
    quiet_.members = heal_members_;
    prompt_.steps = static_cast<int>(2 + H('1', 1) % 5);
    prompt_begin();
    prompt_tick();
    return;
  }
  if (wants(26)) {
    quiet_.stage = 5;
    quiet_.members = heal_members_;
    quiet_.until = now_ + 3 * c_.E * kTick + 4 * kTick;
    rest_tick();
    return;
  }
  r_->healed = 1;
  r_->heal_ticks = (now_ - heal_start_) / kTick;
  done_ = true;
}

// One piece of client work on a cluster that follows one leader and is up to
// date. From here until prompt_done nobody's clock ticks.
void Sim::prompt_begin() {
  Prompt& q = prompt_;
  uint64_t h = H('1', 2, static_cast<uint64_t>(q.step));
  Node& l = N(quiet_.leader);
  RefCfg f = inforce(l);
  q.reads.clear();
  q.props.clear();
  q.target = 0;
  q.since = now_;
  std::vector<uint64_t> voters, learners, members;
  for (uint64_t id = 1; id <= maxid(); id++) {
    if (!(quiet_.members & bit(id))) continue;
    members.push_back(id);
    if (id == l.id) continue;
    if (f.voters() & bit(id)) voters.push_back(id);
    else learners.push_back(id);
  }
  q.kind = static_cast<int>(h % 8);
  // (The only voter of a cluster wins without a vote and announces itself with its first heartbeat.)
  if (q.kind == 6 && (voters.empty() || popc(f.voters()) == 1 || c_.lease)) q.kind = 0;
  if (q.kind == 7 && (f.joint() || (voters.empty() && learners.empty()) || !(f.voters() & bit(l.id)))) q.kind = 0;
  int64_t ops = 1;
  if (q.kind == 6) {  // a leadership transfer
    q.target = voters[(h >> 8) % voters.size()];
    bool far = (h >> 16) % 3 == 0;
    Node& at = far ? N(members[(h >> 20) % members.size()]) : l;
    fault(F_TRANSFER);
    tr("node %" PRIu64 " asks for a transfer to %" PRIu64, at.id, q.target);
    submit(at, [this, &at] { use(at, K_TRANSFER, nullptr, [&] { at.rn->TransferLeader(prompt_.target); }); });
  } else if (q.kind == 7) {  // a membership change
    RefCC cc;
    // A simple one: the step out of a joint configuration travels with a heartbeat round.
    if (!learners.empty() && ((h >> 12) % 2 || voters.empty())) cc.ch.push_back({raftpb::ConfChangeAddNode, learners[(h >> 16) % learners.size()]});
    else cc.ch.push_back({(h >> 13) % 8 ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeUpdateNode, voters[(h >> 16) % voters.size()]});
    bool v1 = (h >> 24) % 2;
    submit(l, [this, &l, cc, v1] { propose_conf(l, cc, v1); });
    ops = 4;
  } else {
    // Proposals on the leader, more than one window holds; from elsewhere only
    // what the leader cannot refuse.
    int64_t k = q.kind == 5 ? 0 : 1 + static_cast<int64_t>((h >> 8) % std::min<uint64_t>(40, 2 * static_cast<uint64_t>(c_.inflight) + 6));
    bool far = q.kind == 1 || (q.kind == 2 && !c_.maxunc);
    if (q.kind == 1) k = 1;
    for (int64_t i = 0; i < k; i++) {
      uint64_t x = H('1', 3, static_cast<uint64_t>(q.step), static_cast<uint64_t>(i));
      Node* at = &l;
      if (far && !members.empty()) at = &N(members[x % members.size()]);
      if (at->nofwd) at = &l;
      int64_t size = in_range(rt::mix(x), 0, (x >> 40) % 6 == 0 ? 400 : 30);
      submit(*at, [this, at, size] { prompt_.props.push_back(propose(*at, size)); });
    }
    ops += k;
    if (q.kind >= 3)
      for (uint64_t id : members)
        for (uint64_t i = 0, c = 1 + (h >> 30) % 3; i < c; i++) {
          Node& x = N(id);
          ops++;
          submit(x, [this, &x] {
            read(x, false);
            prompt_.reads.push_back("r" + std::to_string(read_id_));
          });
        }
  }
  q.deadline = now_ + (30 + 10 * ops) * kTick;
  r_->checks += is_target(25);
}

bool Sim::prompt_done(std::string* why) {
  Prompt& q = prompt_;
  if (q.target) {
    Node& t = N(q.target);
    if (q.target != quiet_.leader) {
      if (t.cap.state != craft::kLeader) {
        *why = "the transfer to node " + std::to_string(q.target) + " has not happened";
        return false;
      }
      quiet_.leader = t.id;
      quiet_.term = t.cap.term;
      quiet_.inc = t.inc;
    }
  }
  Node& l = N(quiet_.leader);
  if (inforce(l).joint() && (inforce(l).autol || !c_.stayjoint)) {
    *why = "joint configuration " + inforce(l).str();
    return false;
  }
  for (auto& n : nodes_) {
    if (!(quiet_.members & bit(n->id))) continue;
    if (n->cap.lead != l.id || n->cap.term != l.cap.term) *why = "node " + std::to_string(n->id) + " does not follow the leader";
    else if (n->applied != l.cap.last) *why = "node " + std::to_string(n->id) + " applied only " + std::to_string(n->applied) + " of " + std::to_string(l.cap.last);
    else if (n->stage != 0 || !n->inbox.empty()) *why = "node " + std::to_string(n->id) + " is busy";
    if (!why->empty()) return false;
  }
  for (uint64_t id : q.props) {
    auto& p = props_[id];
    if (p.refused || p.applied_at) continue;
    *why = "proposal " + std::to_string(id) + " of node " + std::to_string(p.node) + " is not applied";
    return false;
  }
  for (auto& c : q.reads) {
    if (reads_[c].done) continue;
    *why = "read " + c + " of node " + std::to_string(reads_[c].node) + " is not answered";
    return false;
  }
  return true;
}

void Sim::prompt_tick() {
  if (done_) return;
  auto leave = [this] {
    quiet_.stage = 3;
    r_->healed = 1;
    r_->heal_ticks = (now_ - heal_start_) / kTick;
    done_ = true;
  };
  Prompt& q = prompt_;
  for (auto& n : nodes_) {
    if (!(quiet_.members & bit(n->id))) continue;
    if (!n->up) return leave();
    // An election nobody asked for is no business of this oracle.
    if (!q.target && (n->cap.term != quiet_.term || (n->id == quiet_.leader && n->cap.state != craft::kLeader))) return leave();
  }
  std::string why;
  if (prompt_done(&why)) {
    sit(S_prompt_step);
    heal_leader_ = quiet_.leader;
    heal_term_ = quiet_.term;
    if (++q.step >= q.steps) {
      tr("---- clocks tick again ----");
      return quiet_next(4);
    }
    prompt_begin();
  } else if (now_ >= q.deadline) {
    static const char* const what[] = {"proposals", "a forwarded proposal", "proposals", "proposals and reads", "proposals and reads", "reads", "a leadership transfer", "a membership change"};
    viol(P(25), "needs-a-timer", "%s on an idle healthy cluster, no message lost, %.0f ticks' time without a clock tick: %s", what[q.kind], (now_ - q.since) / 1000.0, why.c_str());
    return leave();
  }
  at(now_ + kTick / 4, [this] { prompt_tick(); });
}

// Idle again: take everything away from the nodes that the application holds,
// and see how much memory each one gives back.
void Sim::rest_tick() {
  if (done_) return;
  bool idle = now_ >= quiet_.until && heal_done();
  for (auto& n : nodes_)
    if (n->up && (n->stage != 0 || !n->inbox.empty() || n->pumped)) idle = false;
  if (!idle && now_ < quiet_.until + 20 * c_.E * kTick) {
    at(now_ + kTick / 4, [this] { rest_tick(); });
    return;
  }
  r_->healed = 1;
  r_->heal_ticks = (now_ - heal_start_) / kTick;
  done_ = true;
  if (!idle) return;
  final_checks();
  measured_ = true;
  for (auto& n : nodes_)
    if (n->up) maybe_snapshot(*n, 0, true, false);
  held_.clear();
  for (auto& n : nodes_) {
    n->kept.clear();
    n->kept_status.clear();
    n->mlog.clear();
    n->cur = Rd();
    n->comp.reset();
    n->deferred.clear();
  }
  for (auto& n : nodes_)
    if (n->up && (quiet_.members & bit(n->id))) release(*n);
}

void Sim::release(Node& n) {
  r_->checks += is_target(26);
  RefCfg f = inforce(n);
  uint64_t members = 0;
  for (uint64_t id = 1; id <= maxid(); id++) members += f.all() & bit(id) ? 1 : 0;
  uint64_t kept = 0;  // what compaction left in the storage
  uint64_t count = n.dur.e.size();
  for (auto& e : n.dur.e) kept += 250 + 2 * e.e->data().size();
  uint64_t snap = 600 + 4 * (n.dur.sdata.size() + n.dur.scs.ByteSizeLong());
  rt::Panic p;
  auto freed = [&](const std::function<void()>& fn) {
    uint64_t before = rt::live_bytes();
    if (!rt::guarded(fn, &p)) {
      lib_crash(n, p, "destructor");
      return uint64_t(0);
    }
    uint64_t after = rt::live_bytes();
    return after < before ? before - after : 0;
  };
  bool lead = n.cap.state == craft::kLeader;
  uint64_t sizes[256] = {};
  if (trace_) rt::histogram(sizes);
  uint64_t a = freed([&] { n.rn.reset(); });
  if (trace_) {
    rt::histogram(nullptr);
    for (int i = 0; i < 256; i++)
      if (sizes[i] * i > 32) tr("  %" PRIu64 " blocks of %d+ bytes", sizes[i], i * 16);
  }
  n.up = false;
  uint64_t b = freed([&] { n.st->ms.reset(); });
  tr("node %" PRIu64 " (%s, %" PRIu64 " members, window %" PRId64 ") held %" PRIu64 " bytes, its storage %" PRIu64 " with %" PRIu64 " entries and a snapshot of %zu", n.id, lead ? "leader" : "follower", members, c_.inflight, a, b, count, n.dur.sdata.size());
  // Room for containers that keep their capacity, none for what they held.
  uint64_t most = 12000 + (600 + 8 * static_cast<uint64_t>(c_.inflight)) * members;
  if (a > most) viol(P(26), "memory-kept", "idle node %" PRIu64 " (%s, %" PRIu64 " members, window %" PRId64 ") with a compacted log still holds %" PRIu64 " bytes", n.id, lead ? "leader" : "follower", members, c_.inflight, a);
  if (b > 9000 + kept + snap) viol(P(26), "storage-kept", "the storage of node %" PRIu64 " with %" PRIu64 " entries and a snapshot of %zu bytes after compaction still holds %" PRIu64 " bytes", n.id, count, n.dur.sdata.size(), b);
}

void Sim::quiet_message(const raftpb::Message& m) {
  if (quiet_.stage != 2) return;
  if (m.type() == raftpb::MsgHeartbeat) {
    quiet_.hb++;
    return;
  }
  if (m.type() == raftpb::MsgHeartbeatResp) {
    if (m.to() != quiet_.leader) viol(P(23), "idle-message", "idle node %" PRIu64 " answers a heartbeat to %" PRIu64 ", not to leader %" PRIu64, m.from(), m.to(), quiet_.leader);
    quiet_.other++;
    if (quiet_.other > quiet_.hb + 8 * nodes_.size()) viol(P(23), "idle-responses", "%" PRIu64 " heartbeat responses to %" PRIu64 " heartbeats in an idle cluster", quiet_.other, quiet_.hb);
    return;
  }
  // An election would be no business of this oracle.
  if (m.term() > quiet_.term || N(m.from()).cap.term != quiet_.term || m.type() == raftpb::MsgPreVote || m.type() == raftpb::MsgPreVoteResp) {
    quiet_.stage = 3;
    return;
  }
  viol(P(23), "idle-message", "node %" PRIu64 " sends %s to %" PRIu64 " in an idle cluster", m.from(), raftpb::MessageType_Name(m.type()).c_str(), m.to());
}

void Sim::quiet_ready(Node& n, craft::Ready& rd) {
  if (quiet_.stage != 2 || n.cap.term != quiet_.term) return;
  if (rd.must_sync || !rd.entries.empty() || !rd.committed_entries.empty() || !rd.read_states.empty() || (rd.snapshot && rd.snapshot->metadata().index() != 0))
    viol(P(23), "idle-work", "node %" PRIu64 " hands out work in an idle cluster (sync %d, %zu entries, %zu committed, %zu reads)", n.id, rd.must_sync, rd.entries.size(), rd.committed_entries.size(), rd.read_states.size());
  if (rd.messages.empty()) viol(P(23), "idle-work", "node %" PRIu64 " hands out a Ready without messages in an idle cluster", n.id);
}

void Sim::heal_tick() {
  if (done_) return;
  int64_t E = c_.E * kTick;
  int64_t el = now_ - heal_start_;
  heal_sets();
  if (heal_done()) {
    if (quiet_.stage == 0 && (wants(23) || wants(25) || wants(26))) {
      quiet_.stage = 1;
      quiet_.until = now_ + 3 * E;
      quiet_tick();
      return;
    }
    r_->healed = 1;
    r_->heal_ticks = el / kTick;
    tr("---- recovered after %.1f ticks ----", el / 1000.0);
    r_->checks += is_target(12);
    done_ = true;
    return;
  }
  if (el > 250 * E + 400 * kTick) {
    uint32_t mask = P(12);
    if (c_.shape == kSnap) mask |= P(11);
    if (c_.shape == kFlow) mask |= P(15);
    if (c_.shape == kTransfer) mask |= P(14);
    if (heal_why_.compare(0, 5, "joint") == 0) mask |= P(18);
    std::string who, why = heal_why_;
    // Known finding: without pre-vote and check-quorum nobody tells the leader
    // about the higher term of a node whose campaigns cannot reach it (a learner,
    // a node that has not heard of its promotion, or one that has not heard that
    // the leader is a voter).
    uint64_t lone = 0;
    if (Node* l = leader()) {
      for (auto& n : nodes_)
          if (n->up && !n->prevote && !n->checkq && (heal_members_ & bit(n->id)) && n->cap.term > l->cap.term && (inforce(*n).voters() & (bit(n->id) | bit(l->id))) != (bit(n->id) | bit(l->id))) lone |= bit(n->id);
      RefCfg lf = inforce(*l);
      // (A removed leader takes no proposals; it only still runs because the node
      // that is stuck has not learned of its removal.)
      if (lone && (!majority(lf, lf.all() & ~lone) || !(heal_members_ & bit(l->id)) || heal_done(lone))) {
        std::string ids;
        for (auto& n : nodes_)
          if (lone & bit(n->id)) ids += (ids.empty() ? "" : ",") + std::to_string(n->id);
        if (is_target(12)) known(7, "node(s) %s, which cannot campaign towards it, at a higher term than leader %" PRIu64 " (term %" PRIu64 ") never rejoin without pre-vote and check-quorum", ids.c_str(), l->id, l->cap.term);
        tr("known: non-voter at a higher term");
        done_ = true;
        return;
      }
      heal_why_ = why;
    }
    if (shrink_deadlock(&who)) {
      if (is_target(12)) known(6, "no leader can be elected after a membership shrink: %s", who.c_str());
      tr("known: membership shrink deadlock: %s", who.c_str());
      done_ = true;
      return;
    }
    if (race_deadlock(&who)) {
      if (is_target(12)) known(7, "%s", who.c_str());
      tr("known: race of terms: %s", who.c_str());
      done_ = true;
      return;
    }
    viol(mask, "no-recovery", "%.0f ticks after faults stopped: %s", el / 1000.0, heal_why_.c_str());
    done_ = true;
    return;
  }
  Node* l = leader();
  if (l) {
    auto it = props_.find(heal_probe_);
    bool appl = it != props_.end() && it->second.applied_at;
    if (!appl && (heal_probe_ == 0 || it == props_.end() || it->second.refused || now_ - heal_probe_t_ > 4 * E)) {
      heal_probe_t_ = now_;
      submit(*l, [this, l] { heal_probe_ = propose(*l, 8, true); });
    }
    RefCfg f = inforce(*l);
    if (f.joint() && !f.autol && !c_.stayjoint && now_ - heal_leave_t_ > 4 * E) {
      heal_leave_t_ = now_;
      submit(*l, [this, l] { if (inforce(*l).joint()) propose_conf(*l, RefCC(), false); });
    }
  }
  if (now_ - heal_read_t_ >= 2 * E && l) {
    heal_read_t_ = now_;
    for (auto& n : nodes_)
      if (n->up && (heal_members_ & bit(n->id)) && !heal_read_ok_[n->id]) {
        Node* x = n.get();
        submit(*x, [this, x] { read(*x, true); });
      }
  }
  at(now_ + std::max<int64_t>(kTick, E / 2), [this] { heal_tick(); });
}

}  // namespace sim
