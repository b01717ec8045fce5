// Oracles: everything that judges what the library did.
#include <inttypes.h>

#include <algorithm>

#include "sim.h"

namespace sim {

using raftpb::Message;

static const char* mname(const Message& m) {
  static thread_local std::string s;
  s = raftpb::MessageType_Name(m.type());
  return s.c_str();
}
static bool is_conf(const raftpb::Entry& e) { return e.type() != raftpb::EntryNormal; }
static bool leader_msg(raftpb::MessageType t) {
  return t == raftpb::MsgApp || t == raftpb::MsgHeartbeat || t == raftpb::MsgSnap || t == raftpb::MsgTimeoutNow;
}

RefCfg Sim::inforce(Node& n) {
  RefCfg r;
  if (!n.rn) return r;
  const auto& c = n.rn->GetRaft()->GetTracker().GetConfig();
  for (auto v : c.voters.Incoming().IDs()) r.in |= bit(v);
  for (auto v : c.voters.Outgoing().IDs()) r.out |= bit(v);
  for (auto v : c.learners) r.lrn |= bit(v);
  for (auto v : c.learners_next) r.lnext |= bit(v);
  r.autol = c.auto_leave;
  return r;
}

uint64_t Sim::chain_at(uint64_t idx, bool* ok) {
  *ok = idx < committed_.size() && committed_[idx].chain != 0;
  return *ok ? committed_[idx].chain : 0;
}

bool Sim::conf_in(Node& n, uint64_t lo, uint64_t hi) {  // (lo, hi]
  for (uint64_t i = std::max(lo + 1, n.mfirst); i <= hi; i++) {
    const MEnt* e = ment(n, i);
    if (!e) break;
    if (is_conf(*e->p)) return true;
  }
  return false;
}

uint64_t Sim::own_tail(Node& n, uint64_t applied, uint64_t upto) {
  uint64_t s = 0;
  for (uint64_t i = std::max(applied + 1, n.mfirst); i <= upto; i++) {
    const MEnt* e = ment(n, i);
    if (!e) break;
    if (e->term == n.cap.term) s += e->p->data().size();
  }
  return s;
}

// The entry is now more than the private memory of one incarnation.
void Sim::solidify(Node&, uint64_t idx, uint64_t term) {
  auto it = glog_.find(rt::hc(idx, term));
  if (it != glog_.end()) it->second.solid = true;
}

// ---------------------------------------------------------------- after a call

void Sim::after(Node& n, Call k, const Message* m, const Cap& pre) {
  const Cap& q = n.cap;
  ev(static_cast<uint64_t>(k) | n.id << 8 | static_cast<uint64_t>(q.state) << 16, rt::hc(q.term, q.vote), rt::hc(q.commit, rt::hc(q.last, q.last_term)));
  if (k == K_NEW) {
    refresh_log(n, k, m, pre, false);
    return;
  }
  // C05, C06: monotone state
  r_->checks += is_target(5) || is_target(6);
  if (q.term < pre.term) viol(P(5), "term-back", "node %" PRIu64 ": term went from %" PRIu64 " to %" PRIu64, n.id, pre.term, q.term);
  if (q.term == pre.term && pre.vote != 0 && q.vote != pre.vote)
    viol(P(5) | P(1), "vote-changed", "node %" PRIu64 ": vote in term %" PRIu64 " changed from %" PRIu64 " to %" PRIu64, n.id, q.term, pre.vote, q.vote);
  if (q.commit < pre.commit) viol(P(6) | P(11), "commit-back", "node %" PRIu64 ": commit went from %" PRIu64 " to %" PRIu64, n.id, pre.commit, q.commit);
  if (q.applied < pre.applied) viol(P(6) | P(11), "applied-back", "node %" PRIu64 ": applied went from %" PRIu64 " to %" PRIu64, n.id, pre.applied, q.applied);
  if (q.commit > q.last) viol(P(6) | P(3), "commit-beyond-log", "node %" PRIu64 ": commit %" PRIu64 " last %" PRIu64, n.id, q.commit, q.last);
  if (k == K_PEEK && (q.term != pre.term || q.vote != pre.vote || q.commit != pre.commit || q.applied != pre.applied || q.last != pre.last || q.state != pre.state || q.nmsgs != pre.nmsgs || q.nreads != pre.nreads))
    viol(P(6), "peek-changes", "node %" PRIu64 ": looking at a Ready without accepting it changed the node", n.id);

  refresh_log(n, k, m, pre, pre.state == craft::kLeader);

  bool became = q.state == craft::kLeader && (pre.state != craft::kLeader || q.term != pre.term);
  bool still = q.state == craft::kLeader && !became;
  if (became) on_leader(n, k, pre);
  if (q.state == craft::kLeader && q.commit > pre.commit) on_commit(n, pre);
  if (q.state == craft::kLeader) {
    uint64_t from = became ? pre.last + 1 : pre.last + 1;
    if (q.last >= from) on_new_own_entries(n, k, m, pre, from);
  }

  // messages and read results produced by this call
  if (k == K_READY) {
    if (q.nmsgs != 0 || q.nreads != 0) viol(P(6), "not-taken", "node %" PRIu64 ": messages or read results stay queued after GetReady", n.id);
  } else {
    if (q.nmsgs < pre.nmsgs) viol(P(6), "message-vanished", "node %" PRIu64 ": %zu queued messages became %zu", n.id, pre.nmsgs, q.nmsgs);
    if (q.nreads < pre.nreads) viol(P(6), "read-vanished", "node %" PRIu64 ": queued read results vanished", n.id);
    const auto& ms = n.rn->GetRaft()->Msgs();
    for (size_t i = pre.nmsgs; i < q.nmsgs; i++) {
      uint64_t h = msg_hash(*ms[i]);
      n.acc_msgs.push_back(h);
      ev(902, h);
    }
    for (size_t i = pre.nmsgs; i < q.nmsgs; i++) on_produced(n, *ms[i], k, m, pre);
    const auto& rs = n.rn->GetRaft()->GetReadStates();
    int answered = 0;
    for (size_t i = pre.nmsgs; i < q.nmsgs; i++)
      if (ms[i]->type() == raftpb::MsgReadIndexResp && ms[i]->entries_size() == 1) {
        n.lead_reads.erase(ms[i]->entries(0).data());
        answered++;
      }
    for (size_t i = pre.nreads; i < q.nreads; i++) {
      n.lead_reads.erase(rs[i].request_ctx);
      answered++;
    }
    if (answered > 1) sit(S_reads_batched);
    for (size_t i = pre.nreads; i < q.nreads; i++) {
      n.acc_reads.push_back(rt::hs(rs[i].request_ctx, rs[i].index));
      if (c_.lease && q.state == craft::kLeader) lease_answer(n, rs[i].request_ctx, rs[i].index);
    }
  }

  // C09: no campaign over an unapplied committed membership change
  bool elect_call = k == K_TICK || k == K_CAMPAIGN || (k == K_STEP && m && m->type() == raftpb::MsgTimeoutNow);
  bool started = false;
  if (elect_call) {
    started = became;
    const auto& ms = n.rn->GetRaft()->Msgs();
    for (size_t i = pre.nmsgs; !started && i < q.nmsgs; i++) started = ms[i]->type() == raftpb::MsgVote || ms[i]->type() == raftpb::MsgPreVote;
    if (q.state == craft::kPreCandidate || q.state == craft::kCandidate)
      started |= q.state != pre.state || q.term != pre.term;
    if (started) {
      r_->checks += is_target(9);
      if (conf_in(n, pre.applied, pre.commit))
        viol(P(9), "campaign-over-conf", "node %" PRIu64 " starts an election with an unapplied committed membership change (applied %" PRIu64 " commit %" PRIu64 ")", n.id, pre.applied, pre.commit);
      if (q.state == craft::kPreCandidate || (k != K_STEP && n.prevote)) {
        if (n.pv_term != q.term + 1 || q.state == craft::kPreCandidate) n.pv_grants = 0;
        n.pv_term = q.term + 1;
      }
    }
  }

  on_timers(n, k, m, pre, started, became);
  if (is_target(22) || target_ == 1) check_status(n, k);

  // C13
  if (m && k == K_STEP) {
    bool votereq = m->type() == raftpb::MsgVote || m->type() == raftpb::MsgPreVote;
    if (votereq && n.checkq && pre.state == craft::kFollower && pre.lead != 0 && pre.lead != n.id && n.lead_tick_term == pre.term &&
        n.ticks - n.lead_tick < c_.E && m->term() > pre.term && m->context() != craft::CampaignTypeName(craft::kTransfer)) {
      r_->checks += is_target(13);
      if (q.term != pre.term || q.vote != pre.vote || q.nmsgs != pre.nmsgs || q.state != pre.state)
        viol(P(13), "lease-ignored", "node %" PRIu64 " heard from its leader %" PRId64 " of its own ticks ago (election timeout %" PRId64 ") and still reacted to %s", n.id, n.ticks - n.lead_tick, c_.E, mname(*m));
    }
    if (m->type() == raftpb::MsgPreVote && (q.term != pre.term || q.vote != pre.vote))
      viol(P(13) | P(5), "prevote-changes", "node %" PRIu64 ": a pre-vote request changed term/vote", n.id);
    if (leader_msg(m->type()) && m->type() != raftpb::MsgTimeoutNow && m->term() == q.term && q.state == craft::kFollower) {
      n.lead_tick = n.ticks;
      n.lead_tick_term = q.term;
      n.lead_seen[q.term] = {m->from(), now_};
      if (n.lead_seen.size() > 6) n.lead_seen.erase(n.lead_seen.begin());
    }
  }
  if (n.prevote) {
    if (q.state == craft::kPreCandidate && pre.state != craft::kPreCandidate && (q.term != pre.term || q.vote != pre.vote))
      viol(P(13), "prevote-changes", "node %" PRIu64 ": asking for pre-votes changed its term or vote", n.id);
    if (q.term > pre.term) {
      RefCfg f = inforce(n);
      uint64_t g = n.pv_term == pre.term + 1 ? n.pv_grants : 0;
      bool by_msg = m && m->term() >= q.term && m->type() != raftpb::MsgPreVote && !(m->type() == raftpb::MsgPreVoteResp && !m->reject());
      bool by_now = m && m->type() == raftpb::MsgTimeoutNow;
      bool by_pv = q.term == pre.term + 1 && majority(f, g | bit(n.id));
      bool snap_lead = m && m->type() == raftpb::MsgSnap;
      r_->checks += is_target(13);
      if (!by_msg && !by_now && !by_pv && !snap_lead)
        viol(P(13), "term-raised", "node %" PRIu64 " raised its term from %" PRIu64 " to %" PRIu64 " with pre-votes from %" PRIx64 " only, configuration %s", n.id, pre.term, q.term, g, f.str().c_str());
    }
  }
  if (k == K_TICK && pre.state == craft::kLeader && q.state != craft::kLeader) sit(S_check_quorum_step_down);
  if (pre.transferee != 0 && q.transferee == 0) sit(q.state == craft::kFollower && q.term > pre.term ? S_transfer_completed : S_transfer_aborted);
  if (q.state == craft::kFollower && pre.state == craft::kPreCandidate) sit(S_prevote_failed);
  if (k == K_TICK && pre.state == craft::kCandidate && q.term > pre.term) sit(S_vote_split);
  if (pre.state == craft::kLeader && q.state != craft::kLeader && !n.lead_reads.empty()) sit(S_read_pending_at_leadership_loss);
  if (k == K_STEP && m && m->type() == raftpb::MsgSnap && q.nmsgs > pre.nmsgs && q.last == pre.last && q.commit > pre.commit) sit(S_snapshot_ignored_fast_forward);
  if (k == K_TICK && still && pre.state == craft::kLeader && n.checkq) {
    RefCfg f = inforce(n);
    uint64_t s = bit(n.id);
    for (auto& h : n.heard)
      if (n.ticks - h.second <= 2 * c_.E) s |= bit(h.first);
    r_->checks += is_target(13);
    if (!majority(f, s))
      viol(P(13), "no-step-down", "node %" PRIu64 " still leads term %" PRIu64 " though within two election timeouts (%" PRId64 " ticks) it only heard from %" PRIx64 " of %s", n.id, q.term, 2 * c_.E, s, f.str().c_str());
  }

  // C14
  if (q.transferee != 0 && (q.transferee != pre.transferee || became)) {
    n.transfer_tick = n.ticks;
    for (auto& h : n.heard) h.second = n.ticks;
    RefCfg f = inforce(n);
    r_->checks += is_target(14);
    if (q.state != craft::kLeader) viol(P(14), "transfer-not-leader", "node %" PRIu64 " is no leader and has transfer target %" PRIu64, n.id, q.transferee);
    if (q.transferee == n.id || !(f.voters() & bit(q.transferee)))
      viol(P(14), "transfer-target", "node %" PRIu64 ": transfer target %" PRIu64 " is not another voter of %s", n.id, q.transferee, f.str().c_str());
  }
  if (q.transferee != 0 && q.state != craft::kLeader) viol(P(14), "transfer-not-leader", "node %" PRIu64 " is no leader and has transfer target %" PRIu64, n.id, q.transferee);
  if (k == K_TICK && q.transferee != 0 && q.transferee == pre.transferee) {
    r_->checks += is_target(14);
    if (n.ticks - n.transfer_tick > c_.E)
      viol(P(14), "transfer-stuck", "node %" PRIu64 ": transfer to %" PRIu64 " pending for %" PRId64 " ticks, election timeout %" PRId64, n.id, q.transferee, n.ticks - n.transfer_tick, c_.E);
  }
  if (q.lead != pre.lead) n.leadchg++;
  if (q.state != pre.state || q.term != pre.term) {
    static const char* const sn[] = {"follower", "candidate", "leader", "precandidate"};
    tr("node %" PRIu64 " %s term %" PRIu64 " -> %s term %" PRIu64, n.id, sn[pre.state & 3], pre.term, sn[q.state & 3], q.term);
  }
  if (stable_.on) check_stable();
  if (became) trigger(n, 6);
  else if (q.state == craft::kCandidate && (pre.state != q.state || pre.term != q.term)) trigger(n, 7);
  if (became && healing_) {
    int inc = n.inc;
    at(now_, [this, &n, inc] {
      if (!n.up || n.inc != inc) return;
      for (int i = 0; i < 2; i++) submit(n, [this, &n] { read(n, true); });
    });
  }
}

void Sim::refresh_log(Node& n, Call k, const Message* m, const Cap& pre, bool leader_before) {
  const Cap& q = n.cap;
  n.refresh_n++;
  bool cheap = k == K_TICK || k == K_READ || k == K_CAMPAIGN || k == K_TRANSFER || k == K_REPORT || k == K_PEEK || k == K_APPLYCONF || k == K_READY;
  bool full = k == K_NEW || n.refresh_n % 48 == 0;
  bool changed = q.last != pre.last || q.last_term != pre.last_term || q.commit != pre.commit;
  if (!full && cheap && !changed) return;
  if (!full && k == K_STEP && !changed && n.refresh_n % 8) return;
  craft::EntryPtrs all;
  uint64_t first = 1, prevterm = 0;
  bool pok = false;
  rt::Panic p;
  auto* l = n.rn->GetRaft()->GetRaftLog();
  if (!rt::guarded([&] {
        first = l->FirstIndex();
        all = l->AllEntries();
        auto [t, s] = l->Term(first - 1);
        prevterm = t;
        pok = s.IsOK();
      }, &p)) {
    lib_crash(n, p, "reading the log");
    return;
  }
  std::deque<MEnt> old;
  old.swap(n.mlog);
  uint64_t ofirst = n.mfirst;
  n.mfirst = first;
  r_->checks += is_target(4);
  if (!all.empty() && first + all.size() - 1 != q.last) viol(P(4) | P(11), "log-shape", "node %" PRIu64 ": first index %" PRIu64 ", %zu entries, last index %" PRIu64, n.id, first, all.size(), q.last);
  if (all.empty() && q.last != first - 1) viol(P(4) | P(11), "log-shape", "node %" PRIu64 ": first index %" PRIu64 ", no entries, last index %" PRIu64, n.id, first, q.last);
  uint64_t pt = pok ? prevterm : 0;
  uint64_t i = first;
  uint64_t low = 0;  // lowest index that differs from before
  for (auto& e : all) {
    uint64_t oi = i - ofirst;
    MEnt me;
    const MEnt* o = i >= ofirst && oi < old.size() ? &old[oi] : nullptr;
    if (o && o->p == e && !full) {
      me = *o;
    } else {
      me.p = e;
      me.term = e->term();
      me.h = ehash(*e);
      if (o && (o->h != me.h) && !low) low = i;
      if (o && o->p == e && o->h != me.h) viol(P(19) | P(4), "entry-mutated", "node %" PRIu64 ": entry %" PRIu64 " changed in place", n.id, i);
      if (e->index() != i) viol(P(4) | P(6), "index-gap", "node %" PRIu64 ": position %" PRIu64 " holds an entry with index %" PRIu64, n.id, i, e->index());
      if (me.term < pt) viol(P(4), "term-decreases", "node %" PRIu64 ": term %" PRIu64 " at %" PRIu64 " after term %" PRIu64, n.id, me.term, i, pt);
      auto ins = glog_.emplace(rt::hc(i, me.term), GEnt{me.h, pok || i > first ? pt : UINT64_MAX, static_cast<uint16_t>(n.id), n.inc, false});
      GEnt& g = ins.first->second;
      if (!ins.second) {
        uint64_t mypt = pok || i > first ? pt : UINT64_MAX;
        bool diff = g.h != me.h || (g.prev != mypt && g.prev != UINT64_MAX && mypt != UINT64_MAX);
        bool dead = !g.solid && !(N(g.node).up && N(g.node).inc == g.inc);
        if (diff && dead) {
          g = GEnt{me.h, mypt, static_cast<uint16_t>(n.id), n.inc, false};
        } else {
          if (diff)
            viol(P(4), g.h != me.h ? "log-mismatch" : "log-prefix", "node %" PRIu64 ": entry (%" PRIu64 ",term %" PRIu64 ") differs from the one in node %u's log%s", n.id, i, me.term, g.node, g.h != me.h ? "" : " in its predecessor");
          if (g.prev == UINT64_MAX) g.prev = mypt;
          if (g.node != n.id || g.inc != n.inc) g.solid = true;
        }
      }
    }
    pt = me.term;
    n.mlog.push_back(std::move(me));
    i++;
  }
  uint64_t olast = ofirst + old.size() - 1;
  uint64_t last = first + n.mlog.size() - 1;
  if (!low && last < olast && !old.empty() && k != K_NEW) low = last + 1;  // truncated
  if (low && k != K_NEW) {
    if (low <= olast) sit(S_conflict_truncation);
    if (n.stage && n.cur.rd && !n.cur.rd->entries.empty() && low <= n.cur.rd->entries.back()->index()) {
      sit(S_replaced_while_in_ready);
      if (last >= n.cur.rd->entries.back()->index()) { sit(S_replaced_same_end_in_ready); tr("REPL node %" PRIu64 " at %" PRIu64, n.id, low); }
    }
    for (uint64_t x = std::max(low, ofirst); x <= olast; x++)
      if (is_conf(*old[x - ofirst].p)) { sit(S_conf_entry_truncated); break; }
    if (leader_before && q.state == craft::kLeader && q.term == pre.term)
      viol(P(4), "leader-overwrites", "leader %" PRIu64 " of term %" PRIu64 " changed its own log at %" PRIu64, n.id, q.term, low);
    // Only a leader's append or snapshot may replace what the log holds.
    bool by_leader = k == K_STEP && (!m || m->type() == raftpb::MsgApp || m->type() == raftpb::MsgSnap);
    if (low <= olast && !by_leader)
      viol(P(6) | P(5) | P(4) | (low <= pre.commit ? P(3) : 0), "log-changed", "node %" PRIu64 ": entry %" PRIu64 " of its log changed in a call that brings no entries (%d)", n.id, low, static_cast<int>(k));
    if (low <= pre.commit && low >= first)
      viol(P(3) | P(4), "committed-replaced", "node %" PRIu64 ": entry %" PRIu64 " was committed (commit %" PRIu64 ") and is gone or replaced", n.id, low, pre.commit);
  }
  if (first > 1 && pok) {
    uint64_t b = first - 1;
    if (b < committed_.size() && committed_[b].known && committed_[b].term != prevterm)
      viol(P(11) | P(4), "boundary-term", "node %" PRIu64 ": term at compaction point %" PRIu64 " is %" PRIu64 ", entry had %" PRIu64, n.id, b, prevterm, committed_[b].term);
  }
  if (first > 1 && (!pok || prevterm == 0)) viol(P(11), "boundary-term", "node %" PRIu64 ": no term at compaction point %" PRIu64, n.id, first - 1);
}

void Sim::on_leader(Node& n, Call, const Cap& pre) {
  const Cap& q = n.cap;
  RefCfg f = inforce(n);
  uint64_t g = bit(n.id) | (n.vote_term == q.term ? n.grants : 0);
  r_->elections++;
  r_->checks += is_target(10) || is_target(3);
  tr("node %" PRIu64 " leads term %" PRIu64 " with votes %" PRIx64 " of %s", n.id, q.term, g, f.str().c_str());
  if (!majority(f, g))
    viol(P(10) | P(1), "no-majority", "node %" PRIu64 " became leader of term %" PRIu64 " with votes from %" PRIx64 " in configuration %s", n.id, q.term, g, f.str().c_str());
  if (!(f.voters() & bit(n.id))) viol(P(10), "non-voter-leader", "node %" PRIu64 " leads term %" PRIu64 " but is no voter of %s", n.id, q.term, f.str().c_str());
  for (uint64_t i = committed_.off; i < committed_.size(); i++) {
    CEnt& c = committed_[i];
    if (!c.known || c.bound >= q.term) continue;
    if (i > q.last) {
      viol(P(3), "leader-incomplete", "leader %" PRIu64 " of term %" PRIu64 " has no entry %zu, committed by term %" PRIu64, n.id, q.term, i, c.bound);
      break;
    }
    const MEnt* e = ment(n, i);
    if (e && e->term != c.term) {
      viol(P(3), "leader-incomplete", "leader %" PRIu64 " of term %" PRIu64 " has term %" PRIu64 " at %zu, committed was term %" PRIu64, n.id, q.term, e->term, i, c.term);
      break;
    }
  }
  if (f.joint()) sit(S_new_leader_in_joint);
  n.lead_reads.clear();
  n.lead_last = pre.last;
  n.lead_term = q.term;
  n.inherited = 0;
  n.conf_err_hi = 0;
  n.win.clear();
  n.heard.clear();
  for (size_t x = 1; x <= maxid(); x++) n.heard[x] = n.ticks;
}

void Sim::on_commit(Node& n, const Cap&) {
  const Cap& q = n.cap;
  RefCfg f = inforce(n);
  const MEnt* e = ment(n, q.commit);
  uint64_t term = e ? e->term : 0;
  r_->checks += is_target(10);
  if (e && term != q.term) {
    viol(P(10) | P(3), "commit-old-term", "leader %" PRIu64 " of term %" PRIu64 " commits %" PRIu64 " of term %" PRIu64, n.id, q.term, q.commit, term);
    return;
  }
  uint64_t s = bit(n.id);
  for (size_t x = 1; x <= maxid(); x++)
    if (x != n.id && N(x).dur.has(q.commit, q.term)) s |= bit(x);
  if (!majority(f, s))
    viol(P(10) | P(3), "commit-minority", "leader %" PRIu64 " of term %" PRIu64 " commits %" PRIu64 " persisted only on %" PRIx64 " of %s", n.id, q.term, q.commit, s, f.str().c_str());
}

void Sim::on_new_own_entries(Node& n, Call k, const Message* in, const Cap& pre, uint64_t from) {
  const Cap& q = n.cap;
  RefCfg f = inforce(n);
  uint64_t applied = k == K_ADVANCE ? q.applied : pre.applied;
  (void)in;
  for (uint64_t i = from; i <= q.last; i++) {
    const MEnt* e = ment(n, i);
    if (!e || e->term != q.term || !is_conf(*e->p)) continue;
    RefCC cc;
    bool okp = ref_parse(e->p->type(), e->p->data(), &cc);
    bool leave = okp && cc.ch.empty();
    r_->checks += is_target(9) || is_target(18);
    tr("leader %" PRIu64 " appends conf change at %" PRIu64 " %s", n.id, i, leave ? "(leave)" : "");
    if (conf_in(n, applied, i - 1))
      viol(P(9), "two-conf-changes", "leader %" PRIu64 " appended a membership change at %" PRIu64 " while an earlier one is unapplied (applied %" PRIu64 ")", n.id, i, applied);
    if (f.joint() && !leave) viol(P(9), "conf-while-joint", "leader %" PRIu64 " appended a new membership change at %" PRIu64 " while in %s", n.id, i, f.str().c_str());
    if (!f.joint() && leave) viol(P(9) | P(18), "leave-not-joint", "leader %" PRIu64 " appended a leave at %" PRIu64 " while in %s", n.id, i, f.str().c_str());
    if (k == K_ADVANCE) sit(S_auto_leave_proposed);
    if (k == K_ADVANCE && f.joint() && !f.autol) viol(P(18), "spurious-auto-leave", "leader %" PRIu64 " appended a leave by itself at %" PRIu64 " in %s", n.id, i, f.str().c_str());
    if (k != K_ADVANCE && !(in && in->type() == raftpb::MsgProp)) viol(P(9) | P(18), "spurious-conf", "leader %" PRIu64 " appended a membership change at %" PRIu64 " nobody proposed", n.id, i);
  }
}

void Sim::on_produced(Node& n, const Message& m, Call k, const Message* in, const Cap& pre) {
  (void)k;
  (void)pre;
  (void)in;
  if (m.type() == raftpb::MsgAppResp && m.reject()) sit(S_append_rejected);
  if (m.type() == raftpb::MsgReadIndex) sit(S_read_forwarded);
  if (m.type() == raftpb::MsgProp) {
    r_->checks += is_target(8);
    if (n.nofwd) viol(P(8), "forwarded", "node %" PRIu64 " forwards a proposal though forwarding is disabled", n.id);
  }
  if (m.type() == raftpb::MsgReadIndexResp && c_.lease && n.cap.state == craft::kLeader && m.entries_size() == 1) lease_answer(n, m.entries(0).data(), m.index());
  if (m.type() == raftpb::MsgTimeoutNow) {
    r_->checks += is_target(14);
    if (n.cap.state != craft::kLeader || m.to() != n.cap.transferee)
      viol(P(14), "timeout-now", "node %" PRIu64 " sends TimeoutNow to %" PRIu64 ", pending target is %" PRIu64, n.id, m.to(), n.cap.transferee);
  }
  if (m.type() == raftpb::MsgApp) {
    r_->checks += is_target(15);
    if (m.entries_size() > 1 && c_.maxmsg >= 0) {
      uint64_t s = 0;
      for (auto& e : m.entries()) s += e.ByteSizeLong();
      if (s > static_cast<uint64_t>(c_.maxmsg))
        viol(P(15), "append-size", "node %" PRIu64 " sends %d entries of %" PRIu64 " bytes in one append, limit %" PRId64, n.id, m.entries_size(), s, c_.maxmsg);
    }
  }
  if ((m.type() == raftpb::MsgApp || m.type() == raftpb::MsgSnap) && n.cap.state == craft::kLeader && m.term() == n.cap.term) win_out(n, m);
}

// ---------------------------------------------------------------- flow control

void Sim::win_in(Node& n, const Message& m) {
  RefCfg f = inforce(n);
  if (!(f.all() & bit(m.from()))) return;
  Win& w = n.win[m.from()];
  if (m.type() == raftpb::MsgHeartbeatResp) {
    if (w.s == Win::Probe) w.credit = true;
    if (w.s == Win::Replicate && w.out.size() >= static_cast<size_t>(c_.inflight)) w.out.pop_front();
    return;
  }
  if (m.reject()) {
    if (w.s == Win::Replicate && m.index() > w.match) {
      w.s = Win::Probe;
      w.credit = true;
      w.out.clear();
    } else if (w.s == Win::Probe) {
      w.credit = true;
    }
    return;
  }
  if (w.s == Win::Probe) w.credit = true;
  if (m.index() <= w.match) return;
  w.match = m.index();
  if (w.s == Win::Probe) {
    w.s = Win::Replicate;
    w.out.clear();
  } else if (w.s == Win::Snapshot) {
    if (w.match >= w.pend) {
      w.s = Win::Replicate;
      w.out.clear();
    }
  } else {
    while (!w.out.empty() && w.out.front() <= m.index()) w.out.pop_front();
  }
}

void Sim::win_out(Node& n, const Message& m) {
  Win& w = n.win[m.to()];
  static const char* const sn[] = {"probing", "replicating", "snapshot pending"};
  r_->checks += is_target(15);
  if (w.s == Win::Snapshot)
    viol(P(15), "append-during-snapshot", "leader %" PRIu64 " sends %s to %" PRIu64 " while its snapshot %" PRIu64 " is pending", n.id, mname(m), m.to(), w.pend);
  else if (w.s == Win::Probe && !w.credit)
    viol(P(15), "probe-twice", "leader %" PRIu64 " sends %s to %" PRIu64 " again while probing, without acknowledgement or heartbeat round", n.id, mname(m), m.to());
  else if (w.s == Win::Replicate && w.out.size() >= static_cast<size_t>(c_.inflight))
    viol(P(15), "window-exceeded", "leader %" PRIu64 " sends %s to %" PRIu64 " with %zu appends outstanding, limit %" PRId64 " (%s)", n.id, mname(m), m.to(), w.out.size(), c_.inflight, sn[w.s]);
  if (m.type() == raftpb::MsgSnap) {
    sit(S_snapshot_state);
    w.s = Win::Snapshot;
    w.pend = m.snapshot().metadata().index();
    w.out.clear();
  } else if (m.entries_size() > 0) {
    if (w.s == Win::Probe) {
      w.credit = false;
      sit(S_probe_paused);
    } else if (w.s == Win::Replicate) {
      w.out.push_back(m.entries(m.entries_size() - 1).index());
      if (w.out.size() >= static_cast<size_t>(c_.inflight)) sit(S_window_full);
    }
  }
}

void Sim::prop_result(Node& n, const Message& in, const Cap& pre, bool ok) {
  const Cap& q = n.cap;
  if (pre.state != craft::kLeader || q.state != craft::kLeader || pre.term != q.term) return;
  uint64_t cnt = in.entries_size(), s_max = 0, s_min = 0;
  bool conf = false;
  for (auto& e : in.entries()) {
    s_max += e.data().size();
    if (!is_conf(e)) s_min += e.data().size();
    else conf = true;
  }
  uint64_t grew = q.last - pre.last;
  uint64_t tail = own_tail(n, pre.applied, pre.last);
  uint64_t max = static_cast<uint64_t>(c_.maxunc);
  RefCfg f = inforce(n);
  r_->checks += is_target(14) || is_target(15) || is_target(8);
  if (pre.transferee != 0 && (ok || grew))
    viol(P(14), "transfer-accepts", "leader %" PRIu64 " accepted a proposal while transferring to %" PRIu64, n.id, pre.transferee);
  if (!ok) {
    sit(pre.transferee ? S_proposal_refused_in_transfer : S_proposal_refused_size);
    if (grew) viol(P(8), "refused-appended", "leader %" PRIu64 " refused a proposal and appended %" PRIu64 " entries", n.id, grew);
    bool size = max > 0 && tail > 0 && s_max > 0 && tail + s_max > max;
    bool member = (f.all() & bit(n.id)) != 0;
    if (pre.transferee == 0 && member && !size)
      viol(P(14) | P(15), "refused-wrongly", "leader %" PRIu64 " refused a proposal of %" PRIu64 " bytes with %" PRIu64 " uncommitted bytes (limit %" PRIu64 ") and no transfer pending", n.id, s_max, tail, max);
    if (conf) n.conf_err_hi = std::max(n.conf_err_hi, pre.last + cnt);
    return;
  }
  if (grew < cnt) {
    viol(P(8) | P(14), "accepted-dropped", "leader %" PRIu64 " accepted %" PRIu64 " entries and appended %" PRIu64, n.id, cnt, grew);
    return;
  }
  uint64_t lb = tail > n.inherited ? tail - n.inherited : 0;
  if (max > 0 && lb > 0 && s_min > 0 && lb + s_min > max)
    viol(P(15), "tail-exceeded", "leader %" PRIu64 " accepted %" PRIu64 " bytes on top of %" PRIu64 " uncommitted bytes, limit %" PRIu64, n.id, s_min, lb, max);
  bool conf_before = conf_in(n, pre.applied, pre.last);
  for (uint64_t j = 0; j < cnt; j++) {
    const raftpb::Entry& want = in.entries(static_cast<int>(j));
    const MEnt* e = ment(n, pre.last + 1 + j);
    if (!e) continue;
    if (!is_conf(want)) {
      if (is_conf(*e->p) || e->p->data() != want.data()) viol(P(8), "modified", "leader %" PRIu64 ": entry %" PRIu64 " is not what was proposed", n.id, pre.last + 1 + j);
      continue;
    }
    RefCC cc;
    bool okp = ref_parse(want.type(), want.data(), &cc);
    bool leave = okp && cc.ch.empty();
    bool kept = is_conf(*e->p);
    if (kept && (e->p->data() != want.data() || e->p->type() != want.type())) viol(P(8) | P(9), "modified", "leader %" PRIu64 ": membership change at %" PRIu64 " is not what was proposed", n.id, pre.last + 1 + j);
    if (!kept && !e->p->data().empty()) viol(P(9), "refused-conf-not-empty", "leader %" PRIu64 ": refused membership change at %" PRIu64 " became a non-empty entry", n.id, pre.last + 1 + j);
    if (!kept) sit(S_conf_refused);
    bool free = pre.applied >= n.lead_last && pre.applied >= n.conf_err_hi && !conf_before && f.joint() == leave;
    if (free && !kept)
      viol(P(9) | (leave ? P(18) : 0), "conf-refused", "leader %" PRIu64 " turned a legal membership change at %" PRIu64 " into an empty entry (applied %" PRIu64 ", %s)", n.id, pre.last + 1 + j, pre.applied, f.str().c_str());
    if (kept) conf_before = true;
  }
}

// ---------------------------------------------------------------- sending

void Sim::on_send(Node& n, const Message& m) {
  const Durable& d = n.dur;
  r_->checks += is_target(5) || is_target(1);
  if (m.from() != n.id && m.type() != raftpb::MsgProp && m.type() != raftpb::MsgReadIndex && m.type() != raftpb::MsgTransferLeader)
    viol(P(5), "forged", "node %" PRIu64 " sends %s as %" PRIu64, n.id, mname(m), m.from());
  bool pv = m.type() == raftpb::MsgPreVote || m.type() == raftpb::MsgPreVoteResp;
  if (!pv && m.term() > d.hs.term())
    viol(P(5), "term-not-durable", "node %" PRIu64 " sends %s of term %" PRIu64 ", persisted term is %" PRIu64, n.id, mname(m), m.term(), d.hs.term());
  uint64_t vote_for = 0;
  if (m.type() == raftpb::MsgVoteResp && !m.reject()) vote_for = m.to();
  if (m.type() == raftpb::MsgVote) vote_for = n.id;
  if (vote_for) {
    if (d.hs.term() == m.term() && d.hs.vote() != vote_for)
      viol(P(5), "vote-not-durable", "node %" PRIu64 " sends %s for %" PRIu64 " in term %" PRIu64 ", persisted vote is %" PRIu64, n.id, mname(m), vote_for, m.term(), d.hs.vote());
    auto ins = votes_.emplace(std::make_pair(n.id, m.term()), vote_for);
    if (ins.first->second != vote_for)
      viol(P(5) | P(1), "double-vote", "node %" PRIu64 " voted for %" PRIu64 " and %" PRIu64 " in term %" PRIu64, n.id, ins.first->second, vote_for, m.term());
  }
  if (m.type() == raftpb::MsgAppResp && !m.reject() && m.term() == d.hs.term() && m.index() > d.last())
    viol(P(5), "ack-not-durable", "node %" PRIu64 " acknowledges up to %" PRIu64 ", persisted up to %" PRIu64, n.id, m.index(), d.last());
  if (m.type() == raftpb::MsgAppResp && !m.reject() && m.term() == d.hs.term() && m.index() > d.off && m.index() <= d.last()) {
    // An acknowledgement says that the log agrees with the leader's up to there.
    auto it = claims_.find(m.term());
    if (it != claims_.end()) {
      Node& l = N(it->second.first);
      if (l.up && l.inc == it->second.second && l.cap.state == craft::kLeader && l.cap.term == m.term()) {
        r_->checks += is_target(10) || is_target(5) || is_target(4);
        uint64_t lt = 0, mt = d.term(m.index());
        if (m.index() >= l.mfirst) {
          const MEnt* e = ment(l, m.index());
          lt = e ? e->term : 0;
        } else if (m.index() < committed_.size() && committed_[m.index()].known) {
          lt = committed_[m.index()].term;
        } else {
          lt = mt;
        }
        if (lt != mt)
          viol(P(10) | P(5) | P(4), "ack-unverified", "node %" PRIu64 " acknowledges up to %" PRIu64 " in term %" PRIu64 " where it holds an entry of term %" PRIu64 ", leader %" PRIu64 " one of term %" PRIu64, n.id, m.index(), m.term(), mt, l.id, lt);
      }
    }
  }
  if (leader_msg(m.type())) {
    auto it = claims_.emplace(m.term(), std::make_pair(n.id, n.inc)).first;
    if (it->second != std::make_pair(n.id, n.inc))
      viol(P(1), "two-leaders", "term %" PRIu64 ": node %" PRIu64 "#%d sends %s, node %" PRIu64 "#%d acted as leader", m.term(), n.id, n.inc, mname(m), it->second.first, it->second.second);
    if (m.type() == raftpb::MsgApp && m.term() == d.hs.term()) {
      for (auto& e : m.entries()) {
        if (!d.has(e.index(), e.term())) {
          viol(P(5), "append-not-durable", "leader %" PRIu64 " sends entry %" PRIu64 " of term %" PRIu64 " it has not persisted", n.id, e.index(), e.term());
          break;
        }
        if (e.index() > d.off && ehash(e) != d.e[e.index() - d.off - 1].h) {
          viol(P(4) | P(19), "append-differs", "leader %" PRIu64 " sends another entry %" PRIu64 " than it holds", n.id, e.index());
          break;
        }
      }
    }
  }
}

void Sim::expose(Node& n, const raftpb::Entry& e) {
  uint64_t i = e.index();
  uint64_t h = ehash(e);
  if (i >= committed_.size()) {
    uint64_t s = std::max<uint64_t>(i + 1, committed_.off + (committed_.size() - committed_.off) * 2);
    committed_.resize(s);
    ref_at_.resize(s);
    ref_known_.resize(s);
    applied_seq_prop_.resize(s);
  }
  CEnt& c = committed_[i];
  r_->checks += is_target(2) || is_target(3) || is_target(8);
  if (c.known) {
    if (i == base() && c_.boot) return;  // the initial snapshot has no entry
    if (c.h != h || c.term != e.term())
      viol(P(2) | P(3), "different-entry", "node %" PRIu64 " is given entry (%" PRIu64 ", term %" PRIu64 "), another was given term %" PRIu64 " or other data at that index", n.id, i, e.term(), c.term);
    c.bound = std::min(c.bound, n.rdcap.term);
    return;
  }
  if (i != max_exposed_ + 1) viol(P(6) | P(3), "exposed-gap", "node %" PRIu64 " is given entry %" PRIu64 ", highest anywhere so far is %" PRIu64, n.id, i, max_exposed_);
  c.known = true;
  c.term = e.term();
  c.h = h;
  c.bound = n.rdcap.term;
  max_exposed_ = std::max(max_exposed_, i);
  if (is_conf(e)) return;
  if (e.data().empty()) return;
  uint64_t id = prop_of(e);
  auto it = id ? props_.find(id) : props_.end();
  if (it == props_.end()) {
    viol(P(8), "nobody-proposed", "entry %" PRIu64 " holds data nobody proposed", i);
    return;
  }
  PropRec& p = it->second;
  applied_seq_prop_[i] = id;
  if (p.data != e.data()) viol(P(8), "modified", "entry %" PRIu64 " differs from proposal %" PRIu64, i, id);
  if (p.refused) viol(P(8) | P(14), "refused-applied", "entry %" PRIu64 " is proposal %" PRIu64 " which was refused with an error", i, id);
  if (p.applied_at && !p.dup) viol(P(8), "applied-twice", "proposal %" PRIu64 " is entry %" PRIu64 " and entry %" PRIu64, id, p.applied_at, i);
  bool firsttime = p.applied_at == 0;
  p.applied_at = i;
  if (p.direct && firsttime) {
    if (e.term() != p.term && !p.dup) viol(P(8), "other-term", "proposal %" PRIu64 " accepted by leader of term %" PRIu64 " is applied with term %" PRIu64, id, p.term, e.term());
    uint64_t& lastorder = fifo_[{{p.node, p.inc}, p.term}];
    if (p.order < lastorder) viol(P(8), "reordered", "proposal %" PRIu64 " takes effect at %" PRIu64 " after one accepted later by the same leader", id, i);
    lastorder = std::max(lastorder, p.order);
  }
  if (p.batch >= 0 && p.bpos > 0) {
    uint64_t before = applied_seq_prop_[i - static_cast<uint64_t>(p.gap)];
    if (before != id - 1) viol(P(8), "batch-split", "item %d of a batch is entry %" PRIu64 ", the entry before is not item %d", p.bpos, i, p.bpos - 1);
  }
}

// ---------------------------------------------------------------- reads

void Sim::lead_read(Node& n, const std::string& ctx) {
  n.lead_reads.insert(ctx);
  const MEnt* e = ment(n, n.cap.commit);
  if (!e || e->term != n.cap.term) sit(S_read_before_commit_in_term);
}

void Sim::lease_answer(Node& n, const std::string& ctx, uint64_t index) {
  auto it = reads_.find(ctx);
  if (it == reads_.end()) return;
  ReadRec& r = it->second;
  r_->checks += is_target(20);
  if (index >= r.min_index) return;
  // Stale. Is it the recorded hole, or something else?
  RefCfg f = inforce(n);
  std::vector<int64_t> ts;
  int64_t start = INT64_MIN;
  for (size_t x = 1; x <= maxid(); x++) {
    if (!(f.voters() & bit(x))) continue;
    int64_t t = -1000000000;
    if (x == n.id) t = now_;
    else {
      auto s = N(x).lead_seen.find(n.cap.term);
      if (s != N(x).lead_seen.end() && s->second.first == n.id) t = s->second.second;
    }
    ts.push_back(t);
  }
  std::sort(ts.begin(), ts.end());
  for (int64_t t : ts) {
    uint64_t s = 0;
    for (size_t x = 1; x <= maxid(); x++) {
      int64_t y = -1000000000;
      if (x == n.id) y = now_;
      else {
        auto z = N(x).lead_seen.find(n.cap.term);
        if (z != N(x).lead_seen.end() && z->second.first == n.id) y = z->second.second;
      }
      if (y >= t) s |= bit(x);
    }
    if (majority(f, s)) start = std::max(start, t);
  }
  uint64_t act = bit(n.id);
  for (auto& h : n.heard)
    if (n.ticks - h.second <= 2 * c_.E) act |= bit(h.first);
  bool hole = now_ - start >= (c_.E - 1) * kTick && majority(f, act);
  if (hole) {
    r.lease_class = 2;
    if (is_target(20)) known(4, "lease read on node %" PRIu64 " answered with %" PRIu64 " < %" PRIu64 " inside the check-quorum window, %.1f ticks after its quorum last heard from it", n.id, index, r.min_index, (now_ - start) / 1000.0);
    return;
  }
  r.lease_class = 3;
  viol(P(20), "stale-lease-read", "leader %" PRIu64 " of term %" PRIu64 " answered a lease read with %" PRIu64 "; %" PRIu64 " was committed when it was issued (quorum heard from it %.1f ticks ago, active set %" PRIx64 ")", n.id, n.cap.term, index, r.min_index, (now_ - start) / 1000.0, act);
}

void Sim::read_done(Node& n, const craft::ReadState& rs) {
  auto it = reads_.find(rs.request_ctx);
  r_->checks += is_target(7) || is_target(20);
  if (it == reads_.end() || it->second.node != n.id) {
    viol(P(7) | P(20), "read-not-issued", "node %" PRIu64 " got a read result for a request it did not issue", n.id);
    return;
  }
  ReadRec& r = it->second;
  r_->reads++;
  r.done = true;
  if (r.heal) heal_read_ok_[n.id] = true;
  tr("node %" PRIu64 " read %s -> %" PRIu64 " (needs %" PRIu64 ")", n.id, rs.request_ctx.c_str(), rs.index, r.min_index);
  if (rs.index < r.min_index && r.lease_class < 2) {
    if (c_.lease) viol(P(20), "stale-lease-read", "node %" PRIu64 ": lease read issued at t=%.3f returned %" PRIu64 ", %" PRIu64 " was already committed", n.id, r.t / 1000.0, rs.index, r.min_index);
    else if (dup_read_seen_) known(8, "node %" PRIu64 ": read issued at t=%.3f returned %" PRIu64 " < %" PRIu64 " after a duplicated read request was processed twice", n.id, r.t / 1000.0, rs.index, r.min_index);
    else viol(P(7), "stale-read", "node %" PRIu64 ": read issued at t=%.3f returned %" PRIu64 ", %" PRIu64 " was already committed", n.id, r.t / 1000.0, rs.index, r.min_index);
  }
}

// ---------------------------------------------------------------- Ready contract

static bool ready_content(const craft::Ready& rd) {
  return rd.soft_state.has_value() || !craft::IsEmptyHardState(rd.hard_state) || !craft::IsEmptySnap(rd.snapshot) ||
         !rd.entries.empty() || !rd.committed_entries.empty() || !rd.messages.empty() || !rd.read_states.empty();
}

static uint64_t h_ents(const craft::EntryPtrs& es) {
  uint64_t h = 7;
  for (auto& e : es) h = rt::hc(rt::hc(h, ehash(*e)), e->index());
  return h;
}
static uint64_t h_hard(const raftpb::HardState& s) { return rt::hc(rt::hc(s.term(), s.vote()), s.commit()); }
static uint64_t h_reads(const std::deque<craft::ReadState>& r) {
  uint64_t h = 9;
  for (auto& x : r) h = rt::hs(x.request_ctx, rt::hc(h, x.index));
  return h;
}
static uint64_t h_msgs(const craft::MsgPtrs& ms) {
  uint64_t h = 11;
  for (auto& m : ms) h = rt::hc(h, msg_hash(*m));
  return h;
}
static uint64_t h_snapp(const craft::SnapshotPtr& s) { return craft::IsEmptySnap(s) ? 5 : snap_hash(*s); }

Rd Sim::keep(std::shared_ptr<craft::Ready> rd) {
  Rd k;
  k.rd = rd;
  k.h_entries = h_ents(rd->entries);
  k.h_committed = h_ents(rd->committed_entries);
  k.h_hs = h_hard(rd->hard_state);
  k.h_snap = h_snapp(rd->snapshot);
  k.h_reads = h_reads(rd->read_states);
  k.h_msgs = h_msgs(rd->messages);
  return k;
}

bool Sim::same(const Rd& k, const char** what) {
  if (!k.rd) return true;
  r_->checks += is_target(19);
  if (k.h_entries != h_ents(k.rd->entries)) { *what = "the entries"; return false; }
  if (k.h_committed != h_ents(k.rd->committed_entries)) { *what = "the committed entries"; return false; }
  if (k.h_hs != h_hard(k.rd->hard_state)) { *what = "the hard state"; return false; }
  if (k.h_snap != h_snapp(k.rd->snapshot)) { *what = "the snapshot"; return false; }
  if (k.h_reads != h_reads(k.rd->read_states)) { *what = "the read states"; return false; }
  if (k.h_msgs != h_msgs(k.rd->messages)) { *what = "the messages"; return false; }
  return true;
}

void Sim::check_kept(Node& n, bool all) {
  const char* w = "";
  if (n.kept.empty()) return;
  size_t step = all ? 1 : 7;
  for (size_t i = H('K', n.id, n.stageno) % step; i < n.kept.size(); i += step)
    if (!same(n.kept[i], &w)) {
      viol(P(19), "ready-changed", "node %" PRIu64 ": %s of an earlier Ready changed", n.id, w);
      n.kept.clear();
      return;
    }
}

void Sim::check_held(bool all) {
  if (held_.size() > 60) held_.erase(held_.begin(), held_.begin() + 20);
  for (size_t i = 0; i < held_.size(); i++) {
    if (!all && H('D', i, r_->calls) % 3) continue;
    Held& h = held_[i];
    r_->checks += is_target(19);
    uint64_t now = h.snap ? snap_hash(*h.snap) : h_ents(h.ents);
    if (now != h.h) {
      viol(P(19), "held-changed", "a %s obtained from node %d's storage changed afterwards", h.snap ? "snapshot" : "entry list", h.node);
      h.h = now;
    }
  }
}

void Sim::check_peek(Node& n) {
  bool a = false, b = false, c = false;
  uint64_t h1 = 0, h2 = 0;
  auto hash = [](const craft::Ready& r) {
    uint64_t h = rt::hc(h_ents(r.entries), h_ents(r.committed_entries));
    h = rt::hc(rt::hc(h, h_hard(r.hard_state)), h_snapp(r.snapshot));
    h = rt::hc(rt::hc(h, h_reads(r.read_states)), h_msgs(r.messages));
    h = rt::hc(h, r.must_sync);
    if (r.soft_state) h = rt::hc(h, r.soft_state->lead * 8 + static_cast<uint64_t>(r.soft_state->raft_state));
    return h;
  };
  if (!use(n, K_PEEK, nullptr, [&] {
        a = n.rn->HasReady();
        auto r1 = n.rn->ReadyWithoutAccept();
        b = n.rn->HasReady();
        auto r2 = n.rn->ReadyWithoutAccept();
        c = ready_content(*r1);
        h1 = hash(*r1);
        h2 = hash(*r2);
      })) return;
  r_->checks += is_target(6);
  if (a != b || h1 != h2) viol(P(6), "peek-unstable", "node %" PRIu64 ": peeking at the Ready twice gave different answers", n.id);
  if (a != c) viol(P(6), "has-ready", "node %" PRIu64 ": HasReady says %d, the Ready %s", n.id, a, c ? "carries something" : "is empty");
}

void Sim::check_ready(Node& n, craft::Ready& rd) {
  const Cap& q = n.rdcap;
  Durable& d = n.dur;
  r_->checks += is_target(6) || is_target(5);
  bool has_snap = !craft::IsEmptySnap(rd.snapshot);
  // soft state
  bool soft = n.soft_lead != q.lead || n.soft_state != q.state;
  if (rd.soft_state.has_value() != soft || (soft && (rd.soft_state->lead != q.lead || static_cast<int>(rd.soft_state->raft_state) != q.state)))
    viol(P(6), "soft-state", "node %" PRIu64 ": soft state in Ready does not match the change to lead %" PRIu64 " role %d", n.id, q.lead, q.state);
  n.soft_lead = q.lead;
  n.soft_state = q.state;
  // hard state
  bool hchg = q.term != n.last_hs.term() || q.vote != n.last_hs.vote() || q.commit != n.last_hs.commit();
  bool hhas = !craft::IsEmptyHardState(rd.hard_state);
  if (hhas != hchg || (hhas && (rd.hard_state.term() != q.term || rd.hard_state.vote() != q.vote || rd.hard_state.commit() != q.commit)))
    viol(P(5) | P(6), "hard-state", "node %" PRIu64 ": state is term %" PRIu64 " vote %" PRIu64 " commit %" PRIu64 ", Ready hands out term %" PRIu64 " vote %" PRIu64 " commit %" PRIu64 " after %" PRIu64 "/%" PRIu64 "/%" PRIu64, n.id, q.term, q.vote, q.commit,
         rd.hard_state.term(), rd.hard_state.vote(), rd.hard_state.commit(), n.last_hs.term(), n.last_hs.vote(), n.last_hs.commit());
  bool need = !rd.entries.empty() || q.term != n.last_hs.term() || q.vote != n.last_hs.vote();
  if (need && !rd.must_sync) viol(P(5), "must-sync", "node %" PRIu64 ": Ready with %zu entries and term/vote %" PRIu64 "/%" PRIu64 " after %" PRIu64 "/%" PRIu64 " does not ask for a synchronous write", n.id, rd.entries.size(), q.term, q.vote, n.last_hs.term(), n.last_hs.vote());
  n.last_hs.set_term(q.term);
  n.last_hs.set_vote(q.vote);
  n.last_hs.set_commit(q.commit);
  if (q.commit < n.exposed_commit) viol(P(6), "commit-back", "node %" PRIu64 ": exposed commit index went from %" PRIu64 " to %" PRIu64, n.id, n.exposed_commit, q.commit);
  n.exposed_commit = std::max(n.exposed_commit, q.commit);
  // messages, read results
  bool ok = rd.messages.size() == n.acc_msgs.size();
  for (size_t i = 0; ok && i < n.acc_msgs.size(); i++) ok = msg_hash(*rd.messages[i]) == n.acc_msgs[i];
  if (!ok) viol(P(6) | (rd.messages.size() == n.acc_msgs.size() ? P(19) : 0), "messages", "node %" PRIu64 ": Ready hands out %zu messages, %zu were produced, or one changed in between", n.id, rd.messages.size(), n.acc_msgs.size());
  n.acc_msgs.clear();
  ok = rd.read_states.size() == n.acc_reads.size();
  for (size_t i = 0; ok && i < n.acc_reads.size(); i++) ok = rt::hs(rd.read_states[i].request_ctx, rd.read_states[i].index) == n.acc_reads[i];
  if (!ok) viol(P(6), "read-states", "node %" PRIu64 ": Ready hands out %zu read results, %zu were produced", n.id, rd.read_states.size(), n.acc_reads.size());
  n.acc_reads.clear();
  // entries to persist
  uint64_t sidx = has_snap ? rd.snapshot->metadata().index() : 0;
  uint64_t base_off = has_snap ? sidx : d.off;
  uint64_t base_last = has_snap ? sidx : d.last();
  if (has_snap && sidx <= n.handed) viol(P(6) | P(11), "old-snapshot", "node %" PRIu64 ": Ready carries snapshot %" PRIu64 ", already at %" PRIu64, n.id, sidx, n.handed);
  if (has_snap && sidx < d.sidx) viol(P(6) | P(11), "old-snapshot", "node %" PRIu64 ": Ready carries snapshot %" PRIu64 " older than the one on disk", n.id, sidx);
  uint64_t efirst = 0, elast = base_last;
  if (!rd.entries.empty()) {
    efirst = rd.entries.front()->index();
    elast = rd.entries.back()->index();
    for (size_t i = 0; i < rd.entries.size(); i++)
      if (rd.entries[i]->index() != efirst + i) viol(P(6), "entries-gap", "node %" PRIu64 ": entries to persist are not contiguous at %" PRIu64, n.id, rd.entries[i]->index());
    if (efirst > base_last + 1 || efirst <= base_off)
      viol(P(6) | P(5), "entries-gap", "node %" PRIu64 ": entries to persist start at %" PRIu64 ", handed-out log is (%" PRIu64 ",%" PRIu64 "]", n.id, efirst, base_off, base_last);
  }
  uint64_t mlast = n.mfirst + n.mlog.size() - 1;
  if (elast != mlast)
    viol(P(6) | P(5), "entries-incomplete", "node %" PRIu64 ": log ends at %" PRIu64 ", everything handed out for persistence ends at %" PRIu64, n.id, mlast, elast);
  else {
    for (size_t i = 0; i < n.mlog.size(); i++) {
      uint64_t x = n.mfirst + i;
      uint64_t h = 0;
      if (efirst && x >= efirst) h = ehash(*rd.entries[x - efirst]);
      else if (!has_snap && x > d.off) h = d.e[x - d.off - 1].h;
      else continue;
      if (h != n.mlog[i].h) {
        viol(P(6) | P(5), "entries-differ", "node %" PRIu64 ": entry %" PRIu64 " in the log was not handed out for persistence", n.id, x);
        break;
      }
    }
  }
  // committed entries
  uint64_t pos = n.handed;
  if (has_snap) pos = std::max(pos, sidx);
  uint64_t bytes = 0;
  for (auto& ep : rd.committed_entries) {
    auto& e = *ep;
    bytes += e.ByteSizeLong();
    if (e.index() != pos + 1) viol(P(6) | (e.index() > pos + 1 ? P(2) : 0), "committed-gap", "node %" PRIu64 ": committed entry %" PRIu64 " handed out after %" PRIu64, n.id, e.index(), pos);
    pos = e.index();
    if (pos > q.commit) viol(P(6) | P(3), "uncommitted-handed", "node %" PRIu64 ": entry %" PRIu64 " handed out as committed, commit is %" PRIu64, n.id, pos, q.commit);
    const MEnt* me = ment(n, pos);
    if (pos > elast) viol(P(6), "committed-not-persisted", "node %" PRIu64 ": entry %" PRIu64 " handed out as committed but not for persistence", n.id, pos);
    if (me && me->h != ehash(e)) viol(P(6) | P(2), "committed-differs", "node %" PRIu64 ": committed entry %" PRIu64 " is not the one in the log", n.id, pos);
  }
  if (q.commit > n.handed && !has_snap && rd.committed_entries.empty())
    viol(P(6), "committed-withheld", "node %" PRIu64 ": commit is %" PRIu64 ", handed out up to %" PRIu64 ", Ready has no committed entries", n.id, q.commit, n.handed);
  int64_t lim = c_.maxcomm > 0 ? c_.maxcomm : c_.maxmsg;
  r_->checks += is_target(15);
  if (lim >= 0 && rd.committed_entries.size() > 1 && bytes > static_cast<uint64_t>(lim))
    viol(P(15), "committed-size", "node %" PRIu64 ": %zu committed entries of %" PRIu64 " bytes in one Ready, limit %" PRId64, n.id, rd.committed_entries.size(), bytes, lim);
  n.handed = pos;
  ev(903, n.id, rt::hc(h_ents(rd.entries), rt::hc(h_ents(rd.committed_entries), h_msgs(rd.messages))));
}

// ---------------------------------------------------------------- timers

void Sim::on_timers(Node& n, Call k, const Message* m, const Cap& pre, bool started, bool became) {
  const Cap& q = n.cap;
  const int64_t T = n.ticks;
  if (k == K_PEEK || k == K_READY) return;
  // Who tells the truth about the leader (C22): a node only names one that led this term.
  if (q.lead != 0 && q.lead != n.id && (q.lead != pre.lead || q.term != pre.term)) {
    r_->checks += is_target(22);
    auto it = claims_.find(q.term);
    if (it == claims_.end() || it->second.first != q.lead)
      viol(P(22) | P(1), "wrong-leader", "node %" PRIu64 " names %" PRIu64 " as leader of term %" PRIu64 ", which %" PRIu64 " led", n.id, q.lead, q.term, it == claims_.end() ? 0 : it->second.first);
  }
  if ((q.state == craft::kLeader) != (q.lead == n.id))
    viol(P(22) | P(6), "wrong-role", "node %" PRIu64 " (%s leader of term %" PRIu64 ") names %" PRIu64 " as leader", n.id, q.state == craft::kLeader ? "the" : "not", q.term, q.lead);

  if (k == K_STEP && m && m->type() == raftpb::MsgSnap && q.commit > pre.commit && n.mfirst == q.commit + 1) n.el_snap = q.commit;  // replaced the log
  bool able = pre.state != craft::kLeader && (inforce(n).voters() & bit(n.id)) && pre.applied >= n.el_snap && !conf_in(n, pre.applied, pre.commit);
  if (started) {
    r_->checks += is_target(21);
    if (!(inforce(n).voters() & bit(n.id)))
      viol(P(21) | P(9), "campaign-nonvoter", "node %" PRIu64 " starts an election and is no voter of %s", n.id, inforce(n).str().c_str());
    if (pre.applied < n.el_snap)
      viol(P(21) | P(11), "campaign-over-snapshot", "node %" PRIu64 " starts an election with the snapshot at %" PRIu64 " not restored, applied is %" PRIu64, n.id, n.el_snap, pre.applied);
  }
  if (k == K_TICK && pre.state != craft::kLeader) {
    if (started) {
      r_->checks += is_target(21);
      if (T - n.el_low < c_.E)
        viol(P(21) | P(13), "early-election", "node %" PRIu64 " starts an election %" PRId64 " ticks after it last had reason to wait, election timeout %" PRId64, n.id, T - n.el_low, c_.E);
      if (n.wait_new && n.el_low == n.el_up) {
        n.waits.push_back(T - n.el_up);
        n.wait_new = false;
        if (n.waits.size() == 40 && c_.E >= 4) {
          bool all = true;
          for (int64_t w : n.waits) all = all && w == n.waits[0];
          r_->checks += is_target(21);
          if (all) viol(P(21) | P(12), "same-timeout", "node %" PRIu64 " waited exactly %" PRId64 " ticks before each of %zu elections, election timeout %" PRId64, n.id, n.waits[0], n.waits.size(), c_.E);
          n.waits.clear();
        }
      }
      n.el_low = n.el_up = T;
    } else if (!able) {
      n.el_up = T;
    } else if (T - n.el_up >= 2 * c_.E - 1) {
      viol(P(21) | P(12), "late-election", "node %" PRIu64 " has heard from no leader for %" PRId64 " ticks and does not stand for election, election timeout %" PRId64, n.id, T - n.el_up, c_.E);
    }
  }
  if (k == K_CAMPAIGN) {
    r_->checks += is_target(21);
    if (able && !started)
      viol(P(21), "campaign-ignored", "node %" PRIu64 " was asked to campaign and does not", n.id);
    if (pre.state == craft::kLeader && (q.state != pre.state || q.term != pre.term || q.nmsgs != pre.nmsgs))
      viol(P(21), "campaign-leader", "leader %" PRIu64 " was asked to campaign and reacted", n.id);
  }
  if (k == K_CAMPAIGN && started && q.term == pre.term) n.el_up = T;  // a pre-vote round on demand leaves the timer alone
  if (q.term != pre.term) {
    n.el_low = n.el_up = T;
    n.wait_new = true;
  } else if (q.state != pre.state && !(k == K_CAMPAIGN && started)) {
    if (q.state != craft::kPreCandidate) n.wait_new = true;
    n.el_up = T;
    if (pre.state == craft::kLeader) n.el_low = T;
  }
  if (k == K_STEP && m && m->term() == q.term && q.state == craft::kFollower && (m->type() == raftpb::MsgApp || m->type() == raftpb::MsgHeartbeat || m->type() == raftpb::MsgSnap))
    n.el_low = n.el_up = T;
  if (k == K_STEP && m && m->type() == raftpb::MsgVote) {
    const auto& ms = n.rn->GetRaft()->Msgs();
    for (size_t i = pre.nmsgs; i < q.nmsgs; i++)
      if (ms[i]->type() == raftpb::MsgVoteResp && !ms[i]->reject()) n.el_low = n.el_up = T;
  }
  // heartbeats
  if (became) {
    n.hb_base = T;
    n.matched.clear();
  }
  if (k == K_TICK && pre.state == craft::kLeader && q.state == craft::kLeader && q.term == pre.term) {
    uint64_t want = inforce(n).all() & ~bit(n.id), got = 0;
    bool due = (T - n.hb_base) % c_.H == 0;
    const auto& ms = n.rn->GetRaft()->Msgs();
    r_->checks += is_target(21);
    for (size_t i = pre.nmsgs; i < q.nmsgs; i++) {
      if (ms[i]->type() != raftpb::MsgHeartbeat) continue;
      if (got & bit(ms[i]->to())) viol(P(21), "heartbeat-twice", "leader %" PRIu64 " sends two heartbeats to %" PRIu64 " in one tick", n.id, ms[i]->to());
      got |= bit(ms[i]->to());
    }
    if (due && (want & ~got))
      viol(P(21) | P(13), "heartbeat-missing", "leader %" PRIu64 " sends its heartbeat to %" PRIx64 " only, members are %s", n.id, got, inforce(n).str().c_str());
    if (!due && got)
      viol(P(21), "heartbeat-early", "leader %" PRIu64 " sends heartbeats %" PRId64 " ticks into its term, interval %" PRId64, n.id, T - n.hb_base, c_.H);
  }
}

// ---------------------------------------------------------------- status

uint64_t Sim::status_hash(const craft::NodeStatus& s) {
  uint64_t h = rt::hc(s.basic.id, rt::hc(s.basic.hard_state.term(), rt::hc(s.basic.hard_state.vote(), s.basic.hard_state.commit())));
  h = rt::hc(h, rt::hc(s.basic.applied, rt::hc(s.basic.lead_transferee, rt::hc(s.basic.soft_state.lead, static_cast<uint64_t>(s.basic.soft_state.raft_state)))));
  for (auto v : s.config.voters.Incoming().IDs()) h = rt::hc(h, v);
  for (auto v : s.config.voters.Outgoing().IDs()) h = rt::hc(h, v * 3);
  for (auto v : s.config.learners) h = rt::hc(h, v * 5);
  for (auto v : s.config.learners_next) h = rt::hc(h, v * 7);
  h = rt::hc(h, s.config.auto_leave);
  for (auto& p : s.progress) {
    craft::Progress& x = *p.second;
    h = rt::hc(h, rt::hc(p.first, rt::hc(x.Match(), rt::hc(x.Next(), rt::hc(static_cast<uint64_t>(x.State()), rt::hc(x.PendingSnapshot(), (x.IsLearner() ? 1 : 0) + (x.RecentActive() ? 2 : 0)))))));
  }
  return h;
}

void Sim::check_status(Node& n, Call k) {
  const Cap& q = n.cap;
  if (k == K_PEEK || k == K_NEW || !n.up) return;
  if (q.state != craft::kLeader && H('S', n.id, r_->calls) % 4) return;
  craft::NodeStatus s, visited;
  uint64_t vis = 0, lrn = 0;
  std::map<uint64_t, std::pair<uint64_t, uint64_t>> seen;
  rt::Panic p;
  if (!rt::guarded([&] {
        s = n.rn->GetStatus();
        n.rn->WithProgress([&](uint64_t id, craft::ProgressType t, craft::ProgressPtr pr) {
          vis |= bit(id);
          if (t == craft::ProgressType::kLearner) lrn |= bit(id);
          seen[id] = {pr->Match(), pr->Next()};
          visited.progress[id] = pr;
        });
      }, &p)) {
    lib_crash(n, p, "GetStatus");
    return;
  }
  r_->checks += is_target(22);
  const auto& b = s.basic;
  if (b.id != n.id || b.hard_state.term() != q.term || b.hard_state.vote() != q.vote || b.hard_state.commit() != q.commit || b.applied != q.applied || b.soft_state.lead != q.lead ||
      static_cast<int>(b.soft_state.raft_state) != q.state || b.lead_transferee != q.transferee)
    viol(P(22), "status-basic", "node %" PRIu64 ": the status does not describe the node", n.id);
  RefCfg f = inforce(n);
  if (vis && lrn != (f.lrn & vis))
    viol(P(22), "status-learner", "node %" PRIu64 " reports learners %" PRIx64 ", configuration is %s", n.id, lrn, f.str().c_str());
  if (q.state != craft::kLeader) {
    if (!s.progress.empty()) viol(P(22), "status-progress", "node %" PRIu64 " is no leader and reports progress of %zu members", n.id, s.progress.size());
  } else {
    for (auto& x : s.progress) {
      uint64_t id = x.first, match = x.second->Match(), next = x.second->Next();
      auto it = seen.find(id);
      if (it == seen.end() || it->second != std::make_pair(match, next)) viol(P(22), "status-visit", "leader %" PRIu64 ": the two reports on member %" PRIu64 " differ", n.id, id);
      if (next <= match || match > q.last || next > q.last + 1)
        viol(P(22), "status-range", "leader %" PRIu64 " reports member %" PRIu64 " at match %" PRIu64 " next %" PRIu64 ", its log ends at %" PRIu64, n.id, id, match, next, q.last);
      uint64_t& old = n.matched[id];
      if (match < old && (f.all() & bit(id))) viol(P(22), "match-back", "leader %" PRIu64 ": reported match of member %" PRIu64 " went from %" PRIu64 " to %" PRIu64, n.id, id, old, match);
      old = match;
      if (id == n.id || id > maxid() || match < base()) continue;
      if (match == 0) continue;
      Node& o = N(id);
      const Durable& d = o.dur;
      if (d.hs.term() > q.term) continue;  // a later leader may have replaced its tail
      uint64_t want = 0;
      if (match >= n.mfirst) {
        const MEnt* e = ment(n, match);
        want = e ? e->term : 0;
      } else if (match < committed_.size() && committed_[match].known) {
        want = committed_[match].term;
      } else {
        continue;
      }
      if (!d.has(match, want))
        viol(P(22) | P(10), "match-untrue", "leader %" PRIu64 " of term %" PRIu64 " reports that member %" PRIu64 " holds its log up to %" PRIu64 " (term %" PRIu64 "), which is not on that member's disk (ends at %" PRIu64 ", term there %" PRIu64 ")", n.id, q.term, id, match, want, d.last(), d.term(match));
    }
    for (auto it = n.matched.begin(); it != n.matched.end();)
      if (f.all() & bit(it->first)) ++it;
      else it = n.matched.erase(it);
  }
  if (is_target(22) && H('s', n.id, r_->calls) % 32 == 0) {
    if (n.kept_status.size() >= 6) n.kept_status.erase(n.kept_status.begin());
    if (H('v', n.id, r_->calls) % 2) s.progress = visited.progress;
    uint64_t h = status_hash(s);
    n.kept_status.emplace_back(std::move(s), h);
  } else if (!n.kept_status.empty() && H('u', n.id, r_->calls) % 16 == 0) {
    for (auto& x : n.kept_status)
      if (status_hash(x.first) != x.second) viol(P(22) | P(19), "status-changed", "node %" PRIu64 ": a status obtained earlier changed", n.id);
  }
}

// ---------------------------------------------------------------- storage and membership

void Sim::check_conf(Node& n, const char* where) {
  if (!n.up) return;
  if (!c_.boot && n.applied < static_cast<uint64_t>(npeers_)) return;
  if (n.mfirst > n.applied + 1) return;  // a further snapshot, not restored yet, already decides
  RefCfg f, g;
  uint64_t prog = 0;
  rt::Panic p;
  if (!rt::guarded([&] {
        auto s = n.rn->GetStatus();
        for (auto v : s.config.voters.Incoming().IDs()) f.in |= bit(v);
        for (auto v : s.config.voters.Outgoing().IDs()) f.out |= bit(v);
        for (auto v : s.config.learners) f.lrn |= bit(v);
        for (auto v : s.config.learners_next) f.lnext |= bit(v);
        f.autol = s.config.auto_leave;
        n.rn->WithProgress([&](uint64_t id, craft::ProgressType, craft::ProgressPtr) { prog |= bit(id); });
      }, &p)) {
    lib_crash(n, p, "GetStatus");
    return;
  }
  r_->checks += is_target(9);
  if (f != n.ref)
    viol(P(9) | P(11), "conf-in-force", "node %" PRIu64 " (%s, applied %" PRIu64 ") is in %s, the changes it applied give %s", n.id, where, n.applied, f.str().c_str(), n.ref.str().c_str());
  if (prog != n.ref.all())
    viol(P(9), "progress-set", "node %" PRIu64 " (%s) tracks %" PRIx64 ", members are %s", n.id, where, prog, n.ref.str().c_str());
}

void Sim::check_storage(Node& n, bool deep) {
  if (n.raw || n.comp) return;  // ahead of what is recorded as durable
  Durable& d = n.dur;
  uint64_t fi = 0, li = 0, t0 = 0, t1 = 0;
  bool ok = true;
  raftpb::HardState hs;
  raftpb::ConfState cs;
  craft::EntryPtrs es;
  bool past_ok = false, low_ok = false;
  if (!guard_storage(n, "storage read", [&] {
        auto [f, s1] = n.st->ms->FirstIndex();
        auto [l, s2] = n.st->ms->LastIndex();
        fi = f;
        li = l;
        auto [a, s3] = n.st->ms->Term(fi - 1);
        auto [b, s4] = n.st->ms->Term(li);
        t0 = a;
        t1 = b;
        ok = s1.IsOK() && s2.IsOK() && s3.IsOK() && s4.IsOK();
        if (deep) {
          past_ok = std::get<1>(n.st->ms->Term(li + 1)).IsOK();
          low_ok = fi >= 2 && std::get<1>(n.st->ms->Term(fi - 2)).IsOK();
          auto t = n.st->ms->InitialState();
          hs = std::get<0>(t);
          cs = std::get<1>(t);
          if (li >= fi) {
            auto e = n.st->ms->Entries(fi, li + 1, UINT64_MAX);
            es = std::get<0>(e);
            ok = ok && std::get<1>(e).IsOK();
          }
        }
      })) return;
  r_->checks += is_target(11);
  if (!ok) viol(P(11), "storage-error", "node %" PRIu64 ": reading back the storage failed", n.id);
  if (fi != d.off + 1 || li != d.last() || t0 != d.offterm || t1 != d.term(d.last()))
    viol(P(11) | P(4), "storage-bounds", "node %" PRIu64 ": storage holds [%" PRIu64 ",%" PRIu64 "] terms %" PRIu64 "..%" PRIu64 ", was given (%" PRIu64 ",%" PRIu64 "] terms %" PRIu64 "..%" PRIu64, n.id, fi, li, t0, t1, d.off, d.last(), d.offterm, d.term(d.last()));
  if (!deep) return;
  if (past_ok || low_ok) viol(P(11), "storage-range", "node %" PRIu64 ": storage answers for an index outside its log", n.id);
  bool same_e = es.size() == d.e.size();
  for (size_t i = 0; same_e && i < es.size(); i++) same_e = es[i]->index() == d.off + 1 + i && ehash(*es[i]) == d.e[i].h;
  if (!same_e) viol(P(11) | P(4) | P(3), "storage-entries", "node %" PRIu64 ": storage does not hold the entries it was given", n.id);
  const raftpb::HardState& w = n.has_uhs ? n.uhs : d.hs;
  if (hs.term() != w.term() || hs.vote() != w.vote() || hs.commit() != w.commit()) viol(P(5) | P(11), "storage-hardstate", "node %" PRIu64 ": storage does not hold the hard state it was given", n.id);
  if (d.sidx && ref_from(cs) != ref_from(d.scs)) viol(P(11) | P(9), "storage-confstate", "node %" PRIu64 ": storage reports membership %s, its snapshot has %s", n.id, ref_from(cs).str().c_str(), ref_from(d.scs).str().c_str());
}

void Sim::abstract_state() {
  if (!bm_) return;
  uint64_t h = 17;
  uint64_t tmin = UINT64_MAX, cmin = UINT64_MAX;
  for (auto& n : nodes_)
    if (n->up) {
      tmin = std::min(tmin, n->cap.term);
      cmin = std::min(cmin, n->cap.commit);
    }
  for (auto& n : nodes_) {
    if (!n->started) continue;
    uint64_t x = n->up ? 1 : 0;
    if (n->up) {
      const Cap& q = n->cap;
      x |= static_cast<uint64_t>(q.state) << 1 | std::min<uint64_t>(q.term - tmin, 7) << 4 | std::min<uint64_t>(q.commit - cmin, 7) << 8 |
           std::min<uint64_t>(q.last - std::min(q.last, q.commit), 7) << 12 | std::min<uint64_t>(q.commit - std::min(q.commit, q.applied), 3) << 16 |
           (q.transferee ? 1ull : 0) << 20 | static_cast<uint64_t>(n->stage) << 21 | (n->ref.joint() ? 1ull : 0) << 24 |
           (q.lead != 0 ? 1ull : 0) << 25 | (q.vote != 0 ? 1ull : 0) << 26 | std::min<uint64_t>(q.nmsgs, 3) << 27 | (n->dur.off > 1 ? 1ull : 0) << 30;
    }
    h = rt::hc(h, x);
  }
  h = rt::mix(h) & (kBitmapBits - 1);
  bm_[h >> 3] |= static_cast<uint8_t>(1u << (h & 7));
}

void Sim::final_checks() {
  for (auto& n : nodes_) {
    if (!n->up) continue;
    check_kept(*n, true);
    check_storage(*n, true);
    if (n->up) {
      n->refresh_n = 47;
      refresh_log(*n, K_STEP, nullptr, n->cap, n->cap.state == craft::kLeader);
    }
  }
  check_held(true);
}

}  // namespace sim
