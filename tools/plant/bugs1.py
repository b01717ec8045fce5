B = []
def bug(name, prop, edits, needs, breaks, demo):
    B.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("c01-transfer-vote-forgotten", "C01", [("src/raft.cc",
"""      if (m->type() == raftpb::MessageType::MsgVote) {
        // Only record real votes.
        election_elapsed_ = 0;
        vote_ = m->from();
      }
""",
"""      if (m->type() == raftpb::MessageType::MsgVote) {
        // Only record real votes.
        election_elapsed_ = 0;
        if (m->context() != CampaignTypeName(CampaignType::kTransfer) || lead_ == kNone) {
          vote_ = vote_ == kNone && m->context() == CampaignTypeName(CampaignType::kTransfer) ? kNone : m->from();
        }
      }
""")],
"a leadership transfer campaign and an ordinary campaign of another node in the same term, reaching the same voter",
"a vote granted to a transfer campaign is not recorded, so the voter can grant a second candidate its vote in the same term",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  auto ask = [&](uint64_t from, const char* ctx) {
    auto m = msg(MT::MsgVote, from, 3, 9);
    m->set_index(50); m->set_logterm(9); m->set_context(ctx);
    c[3].Step(m);
    c.readies();
    int granted = 0;
    for (auto& x : c.q) if (x->type() == MT::MsgVoteResp && x->to() == from && !x->reject() && x->term() == 9) granted++;
    c.q.clear();
    return granted;
  };
  int a = ask(2, "CampaignTransfer"), b = ask(1, "");
  NEED(a == 1);
  if (b) return bad("two candidates got the vote of node 3 in term 9");
''')

bug("c02-commit-past-sent-entries", "C02", [("src/log.cc",
"""    CommitTo(std::min(committed, lastnewi));
    return""",
"""    // Entries that were all known already confirm the rest of the log too.
    CommitTo(std::min(committed, ci == 0 && !ents.empty() ? LastIndex() : lastnewi));
    return""")],
"a size-limited or repeated append whose entries the follower already has, while its log continues with a conflicting tail of an older term, from a leader that has committed further",
"the follower commits and applies its own conflicting tail, so two nodes apply different entries at one index",
r"""
  Net c; c.group(3);
  auto app = [&](uint64_t from, uint64_t term, uint64_t index, uint64_t lt, uint64_t commit, std::vector<std::pair<uint64_t, uint64_t>> es) {
    auto m = msg(MT::MsgApp, from, 3, term);
    m->set_index(index); m->set_logterm(lt); m->set_commit(commit);
    for (auto& [i, t] : es) { auto e = m->add_entries(); e->set_index(i); e->set_term(t); e->set_data("t" + std::to_string(t)); }
    return m;
  };
  c[3].Step(app(1, 2, 1, 1, 1, {{2, 2}, {3, 2}, {4, 2}})); c.readies();
  // the leader of term 3 has 2(t2), 3(t3), 4(t3) committed and starts with a small append
  c[3].Step(app(2, 3, 1, 1, 4, {{2, 2}})); c.readies();
  for (auto& [i, d] : c.n[3].applied) if (i > 2 && d == "t2") return bad("applied an entry of its own conflicting tail");
  c[3].Step(app(2, 3, 2, 2, 4, {{3, 3}, {4, 3}})); c.readies();
  NEED(c.n[3].applied.size() == 3);
""")

bug("c03-transfer-skips-log-check", "C03", [("src/raft.cc",
"""    if (can_vote && raft_log_->IsUpToData(m->index(), m->logterm())) {""",
"""    // The leader only hands over to a node that has caught up with it.
    bool handed_over = m->context() == CampaignTypeName(CampaignType::kTransfer) && m->logterm() == raft_log_->LastTerm();
    if (can_vote && (handed_over || raft_log_->IsUpToData(m->index(), m->logterm()))) {""")],
"a timeout-now message delayed until after the transfer was abandoned and further entries were committed without its target",
"a transfer campaign wins votes with a log that lacks committed entries",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  MsgPtr late;
  c.ok = [&](const raftpb::Message& m) { if (m.type() == MT::MsgTimeoutNow) { late = std::make_shared<raftpb::Message>(m); return false; } return true; };
  c[1].TransferLeader(2); c.pump();
  NEED(late);
  c.tick(1, 12);  // the transfer is abandoned
  NEED(c.leader(1));
  c.only({1, 3});
  NEED(c[1].Propose("committed").IsOK()); c.pump();
  NEED(c.n[3].applied.size() == 2 || (c.tick(1, 2), c.n[3].applied.size() == 2));
  c.ok = nullptr;
  c.only({2, 3});
  c[2].Step(late); c.pump();
  if (c.leader(2)) return bad("node 2 leads without a committed entry");
''')

bug("c04-conflict-in-stable-part-missed", "C04", [("src/log.cc",
"""  for (auto& ent : ents) {
    if (!MatchTerm(ent->index(), ent->term())) {""",
"""  for (auto& ent : ents) {
    // What is below the entries still being written was matched before.
    if (!unstable_.entries_.empty() && ent->index() < unstable_.offset_) {
      continue;
    }
    if (!MatchTerm(ent->index(), ent->term())) {""")],
"a conflicting append that arrives while part of the follower's conflicting tail is persisted and a later part is not",
"a conflict in the persisted part of the log is not noticed and only the unpersisted part is replaced, so two logs differ below an entry they share",
r'''
  Net c; c.group(3);
  auto app = [&](uint64_t from, uint64_t term, uint64_t index, uint64_t lt, std::vector<std::pair<uint64_t, uint64_t>> es) {
    auto m = msg(MT::MsgApp, from, 3, term);
    m->set_index(index); m->set_logterm(lt); m->set_commit(1);
    for (auto& [i, t] : es) { auto e = m->add_entries(); e->set_index(i); e->set_term(t); e->set_data("t" + std::to_string(t)); }
    return m;
  };
  c[3].Step(app(1, 2, 1, 1, {{2, 2}, {3, 2}})); c.readies();
  c[3].Step(app(1, 2, 3, 2, {{4, 2}}));           // not persisted yet
  c[3].Step(app(2, 3, 1, 1, {{2, 3}, {3, 3}, {4, 3}}));
  c.readies();
  auto [es, s] = c.n[3].st->Entries(2, 5, UINT64_MAX);
  NEED(s.IsOK() && es.size() == 3);
  for (auto& e : es) if (e->term() != 3) return bad("the log keeps an entry of term 2 below an entry of term 3 it got from a log without it");
''')

bug("c05-vote-change-not-synced", "C05", [("src/rawnode.cc",
"""  return entsum != 0 || st.vote() != prevst.vote() || st.term() != prevst.term();""",
"""  // A vote is cast when a new term begins.
  return entsum != 0 || st.term() != prevst.term();""")],
"a vote granted in a term the node already persisted, for example after it refused another candidate of that term, followed by a crash that loses unsynced writes",
"a Ready that carries a new vote in the current term is not flagged as needing a synchronous write",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c[1].Propose("x"); c.pump();
  c.q.clear();
  auto m = msg(MT::MsgVote, 2, 3, 7); m->set_index(1); m->set_logterm(1);   // log too old: refused, term 7
  c[3].Step(m); c.readies(); c.q.clear();
  NEED(c.term(3) == 7 && c.n[3].hs.vote() == 0);
  auto g = msg(MT::MsgVote, 1, 3, 7); g->set_index(90); g->set_logterm(6);
  c[3].Step(g);
  auto rd = c[3].GetReady();
  NEED(rd->hard_state.vote() == 1);
  if (!rd->must_sync) return bad("a new vote does not have to be synced");
''')

bug("c06-stable-mark-uses-current-term", "C06", [("src/raft.cc",
"""    auto& e = *(rd.entries.rbegin());
    raft_log_->StableTo(e->index(), e->term());""",
"""    auto& e = *(rd.entries.rbegin());
    raft_log_->StableTo(e->index(), raft_log_->ZeroTermOnErrCompacted(raft_log_->Term(e->index())));""")],
"a conflicting append that replaces the entries of a Ready between GetReady and Advance",
"Advance marks entries as persisted that were never handed out for persistence, so they never appear in a Ready",
r'''
  Net c; c.group(3);
  auto app = [&](uint64_t from, uint64_t term) {
    auto m = msg(MT::MsgApp, from, 3, term);
    m->set_index(1); m->set_logterm(1); m->set_commit(1);
    auto e = m->add_entries(); e->set_index(2); e->set_term(term); e->set_data("t" + std::to_string(term));
    return m;
  };
  c[3].Step(app(1, 2));
  auto rd = c[3].GetReady();
  NEED(rd->entries.size() == 1);
  c.n[3].st->Append(rd->entries); c.n[3].st->SetHardState(rd->hard_state);
  c[3].Step(app(2, 3));
  c[3].Advance();
  bool seen = false;
  while (c[3].HasReady()) {
    auto r = c[3].GetReady();
    for (auto& e : r->entries) seen |= e->term() == 3;
    c.n[3].st->Append(r->entries);
    c[3].Advance();
  }
  if (!seen) return bad("the replacing entry was never handed out for persistence");
''')

bug("c07-pending-reads-survive-stepdown", "C07", [("src/raft.cc",
"""  read_only_ = std::make_unique<ReadOnly>(logger_, read_only_->Option());
""",
"""  // Reads that still wait for a quorum are kept: should this node lead again,
  // its heartbeats complete them and the clients need not retry.
""")],
"a read issued on a deposed leader that does not know it yet, which later becomes leader again",
"the old read is completed with the commit index of the earlier leadership, below what other nodes had exposed when it was issued",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  uint64_t before = c.commit(1);
  c.only({2, 3});
  NEED(c.elect(2));
  c[2].Propose("b"); c.pump(); c.tick(2, 2);
  uint64_t exposed = c.n[2].applied_to;
  NEED(exposed > before);
  c[1].ReadIndex("r"); c.pump();      // node 1 still believes it leads
  c.all();
  c.tick(2, 2); c.tick(1, 1);
  NEED(!c.leader(1));
  c.tick(2, 3);
  c[2].TransferLeader(1); c.pump();
  NEED(c.leader(1));
  c.tick(1, 3);
  for (auto& r : c.n[1].reads) if (r.request_ctx == "r" && r.index < exposed) return bad("the read misses an entry applied before it was issued");
''')

bug("c08-batch-trimmed-to-fit", "C08", [("src/raft.cc",
"""        id_);
    // Drop the proposal.
    return false;
  }
  // use latest "last" index after truncate/append""",
"""        id_);
    if (es.size() > 1) {
      // Keep what fits of a batch.
      AppendEntry(EntryPtrs(es.begin(), es.begin() + es.size() / 2));
    }
    // Drop the proposal.
    return false;
  }
  // use latest "last" index after truncate/append""")],
"a batched proposal whose first half fits the limit on the uncommitted tail and whose whole does not",
"a proposal refused with an error is partly appended and applied",
r'''
  Net c;
  c.tune = [](Raft::Config& k) { k.max_uncommitted_entries_size = 60; };
  c.group(3);
  NEED(c.elect(1));
  c.only({1});
  NEED(c[1].Propose(std::string(20, 'p')).IsOK());
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(MT::MsgProp); m->set_from(1);
  m->add_entries()->set_data(std::string(30, 'q'));
  m->add_entries()->set_data(std::string(30, 'r'));
  auto s = c[1].Step(m);
  NEED(!s.IsOK());
  c.all(); c.pump(); c.tick(1, 3);
  c.only({1, 2, 3}); c.tick_all(3);
  for (auto& [i, d] : c.n[1].applied) if (d[0] == 'q') return bad("an entry of a refused proposal was applied");
''')

bug("c09-batch-pending-index", "C09", [("src/raft.cc",
"""            pending_conf_index_ = raft_log_->LastIndex() + i + 1;""",
"""            pending_conf_index_ = raft_log_->LastIndex() + 1;""")],
"a batched proposal in which entries precede the membership change, and an application that has applied the earlier ones but not yet the change",
"the leader takes a second membership change while the first one in its log is not applied yet",
r'''
  Net c;
  c.tune = [](Raft::Config& k) { k.max_committed_size_per_ready = 1; };
  c.group(3);
  NEED(c.elect(1));
  auto conf = [](uint64_t id) {
    raftpb::ConfChange cc; cc.set_type(raftpb::ConfChangeType::ConfChangeAddLearnerNode); cc.set_node_id(id);
    return cc.SerializeAsString();
  };
  c.only({1});
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(MT::MsgProp); m->set_from(1);
  m->add_entries()->set_data("x"); m->add_entries()->set_data("y"); 
  auto e = m->add_entries(); e->set_type(raftpb::EntryType::EntryConfChange); e->set_data(conf(8));
  NEED(c[1].Step(m).IsOK());
  c.pump();
  uint64_t last = 0; { auto [l, s] = c.n[1].st->LastIndex(); last = l; }
  // acknowledged by node 2 up to the first of the batch only
  auto ack = msg(MT::MsgAppResp, 2, 1, c.term(1)); ack->set_index(last - 2);
  c[1].Step(ack); c.pump();
  NEED(c.n[1].applied_to == last - 2);
  auto m2 = std::make_shared<raftpb::Message>();
  m2->set_type(MT::MsgProp); m2->set_from(1);
  auto e2 = m2->add_entries(); e2->set_type(raftpb::EntryType::EntryConfChange); e2->set_data(conf(9));
  c[1].Step(m2); c.pump();
  auto [es, s] = c.n[1].st->Entries(last - 2, last + 2, UINT64_MAX);
  NEED(s.IsOK());
  int confs = 0;
  for (auto& x : es) confs += x->type() == raftpb::EntryType::EntryConfChange;
  if (confs > 1) return bad("two unapplied membership changes in the leader's log");
''')

bug("c10-ack-beyond-what-was-sent", "C10", [("src/log.cc",
"""    CommitTo(std::min(committed, lastnewi));
    return std::make_tuple(lastnewi, true);""",
"""    CommitTo(std::min(committed, lastnewi));
    // Everything was there already: report the whole log.
    return std::make_tuple(ci == 0 && !ents.empty() ? LastIndex() : lastnewi, true);""")],
"an append whose entries the follower already has while its log continues with a conflicting tail from an older term",
"the follower acknowledges its conflicting tail and the leader counts it as replicated",
r'''
  Net c; c.group(3);
  auto app = [&](uint64_t from, uint64_t term, uint64_t index, uint64_t lt, std::vector<std::pair<uint64_t, uint64_t>> es) {
    auto m = msg(MT::MsgApp, from, 3, term);
    m->set_index(index); m->set_logterm(lt); m->set_commit(1);
    for (auto& [i, t] : es) { auto e = m->add_entries(); e->set_index(i); e->set_term(t); }
    return m;
  };
  c[3].Step(app(1, 2, 1, 1, {{2, 2}, {3, 2}, {4, 2}})); c.readies(); c.q.clear();
  c[3].Step(app(2, 3, 1, 1, {{2, 2}})); c.readies();
  for (auto& m : c.q) if (m->type() == MT::MsgAppResp && m->to() == 2 && !m->reject() && m->index() > 2) return bad("acknowledged entries the leader did not send");
''')

bug("c11-snapshot-keeps-tail", "C11", [("src/storage.cc",
"""  snapshot_ = snapshot;
  auto entry = std::make_shared<raftpb::Entry>();
  entry->set_term(snapshot->metadata().term());
  entry->set_index(snapshot->metadata().index());
  ents_.clear();
  ents_.emplace_back(entry);
  return Status::OK();""",
"""  snapshot_ = snapshot;
  auto entry = std::make_shared<raftpb::Entry>();
  entry->set_term(snapshot->metadata().term());
  entry->set_index(snapshot->metadata().index());
  if (LastIndexUnSafe() > snap_index && ents_[0]->index() < snap_index) {
    // The log continues after the snapshot: keep that part.
    ents_.erase(ents_.begin(), ents_.begin() + (snap_index - ents_[0]->index()));
    ents_[0] = entry;
    return Status::OK();
  }
  ents_.clear();
  ents_.emplace_back(entry);
  return Status::OK();""")],
"a snapshot applied on a node whose log has a conflicting tail reaching beyond the snapshot's index",
"conflicting log entries survive the snapshot and count as part of the log",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  auto app = msg(MT::MsgApp, 1, 3, 2);
  NEED(c.term(1) == 2);
  c.only({3});
  app->set_index(2); app->set_logterm(2); app->set_commit(2);
  for (int i = 3; i < 9; i++) { auto e = app->add_entries(); e->set_index(i); e->set_term(2); e->set_data("old"); }
  c[3].Step(app); c.readies(); c.q.clear();
  auto sn = msg(MT::MsgSnap, 2, 3, 4);
  auto md = sn->mutable_snapshot()->mutable_metadata();
  md->set_index(5); md->set_term(4);
  for (int i = 1; i <= 3; i++) md->mutable_conf_state()->add_voters(i);
  c[3].Step(sn); c.readies();
  NEED(c.commit(3) == 5);
  auto [l, s] = c.n[3].st->LastIndex();
  if (l > 5) return bad("entries after the snapshot survived its restoration");
''')

bug("c12-committed-append-not-acknowledged", "C12", [("src/raft.cc",
"""  if (m->index() < raft_log_->Committed()) {
    auto resp""",
"""  if (m->index() < raft_log_->Committed()) {
    if (m->entries_size() > 0 && m->entries(m->entries_size() - 1).index() <= raft_log_->Committed()) {
      // Nothing new for us.
      return;
    }
    auto resp""")],
"a leader that probes a follower whose acknowledgements were lost, with appends so small that all their entries are committed on the follower already",
"the follower never answers such an append and the leader repeats it for ever",
r'''
  Net c;
  c.tune = [](Raft::Config& k) { k.max_size_per_msg = 0; };
  c.group(3);
  NEED(c.elect(1));
  for (int i = 0; i < 5; i++) { c[1].Propose("v" + std::to_string(i)); c.pump(); }
  c.tick(1, 2);
  // a new leader starts to probe node 3 one entry behind
  c.only({2, 3});
  NEED(c.elect(2));
  c.all();
  c.ok = [](const raftpb::Message& m) { return !(m.from() == 3 && m.type() == MT::MsgAppResp); };
  c[2].Propose("w"); c.pump(); c.tick(2, 2);
  c.ok = [](const raftpb::Message& m) { return m.to() != 1 && m.from() != 1; };
  auto rej = msg(MT::MsgAppResp, 3, 2, c.term(2));
  { auto st = c[2].GetStatus(); rej->set_index(st.progress[3]->Next() - 1); }
  rej->set_reject(true); rej->set_rejecthint(1); rej->set_logterm(1);  // an old rejection, repeated
  c[2].ReportUnreachable(3);
  { auto st = c[2].GetStatus(); rej->set_index(st.progress[3]->Next() - 1); }
  c[2].Step(rej); c.pump();
  for (int i = 0; i < 5; i++) { c[2].Propose("x" + std::to_string(i)); c.pump(); c.tick(2, 3); }
  c.tick(2, 30);
  auto [l2, s2] = c.n[2].st->LastIndex();
  auto [l3, s3] = c.n[3].st->LastIndex();
  if (l3 != l2) return bad("node 3 never catches up");
''')

bug("c13-local-report-counts-as-contact", "C13", [("src/raft.cc",
"""    CRAFT_LOG_DEBUG(logger_, "%llu no progress available for %llu", id_, m->from());
    return Status::OK();
  }
  switch (m->type()) {
    case raftpb::MessageType::MsgAppResp: {
      pr->SetRecentActive(true);
""",
"""    CRAFT_LOG_DEBUG(logger_, "%llu no progress available for %llu", id_, m->from());
    return Status::OK();
  }
  pr->SetRecentActive(true);
  switch (m->type()) {
    case raftpb::MessageType::MsgAppResp: {
"""), ("src/raft.cc",
"""    case raftpb::MessageType::MsgHeartbeatResp: {
      pr->SetRecentActive(true);
""",
"""    case raftpb::MessageType::MsgHeartbeatResp: {
""")],
"a cut-off leader with check-quorum whose transport keeps reporting its peers unreachable",
"local reports about a peer count as having heard from it, so the leader never steps down",
r'''
  Net c;
  c.tune = [](Raft::Config& k) { k.check_quorum = true; };
  c.group(3);
  NEED(c.elect(1));
  c.only({1});
  for (int i = 0; i < 40; i++) {
    c[1].ReportUnreachable(2); c[1].ReportUnreachable(3);
    c.tick(1, 1);
  }
  if (c.leader(1)) return bad("the leader still leads without hearing from anyone for four election timeouts");
''')

bug("c14-forwarded-proposal-during-transfer", "C14", [("src/raft.cc",
"""      if (lead_transferee_ != kNone) {
        CRAFT_LOG_DEBUG(logger_,
            "%llu [term %llu] transfer""",
"""      if (lead_transferee_ != kNone && (m->from() == id_ || m->from() == kNone)) {
        CRAFT_LOG_DEBUG(logger_,
            "%llu [term %llu] transfer""")],
"a proposal forwarded by a follower that reaches the leader while a transfer is pending",
"the leader accepts it although a transfer is pending, so the target is no longer caught up",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c.ok = [](const raftpb::Message& m) { return m.type() != MT::MsgTimeoutNow; };
  c[1].TransferLeader(2); c.pump();
  NEED(c[1].GetBasicStatus().lead_transferee == 2);
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(MT::MsgProp); m->set_from(3); m->set_to(1);
  m->add_entries()->set_data("x");
  if (c[1].Step(m).IsOK()) return bad("a proposal was accepted while a transfer is pending");
''')

bug("c15-uncommitted-size-kept", "C15", [("src/raft.cc",
"""  pending_conf_index_ = 0;
  uncommitted_size_ = 0;
""",
"""  pending_conf_index_ = 0;
""")],
"a leader that loses its leadership with uncommitted proposals which a later leader overwrites, and that leads again",
"the size of proposals that no longer exist stays charged, so new proposals are refused although the uncommitted tail is far below its limit",
r"""
  Net c;
  c.tune = [](Raft::Config& k) { k.max_uncommitted_entries_size = 100; };
  c.group(3);
  NEED(c.elect(1));
  c.only({1});
  NEED(c[1].Propose(std::string(90, 'a')).IsOK()); c.pump();
  c.only({2, 3});
  NEED(c.elect(2));
  c.all();
  c[2].Propose("b"); c.pump(); c.tick(2, 3);
  NEED(c.commit(1) == c.commit(2));
  NEED(c.elect(1));
  c.only({1});
  for (int i = 0; i < 5; i++) if (!c[1].Propose(std::string(10, 'c')).IsOK()) return bad("proposal refused although the uncommitted tail is small");
""")

bug("c17-removed-leader-checks-quorum", "C17", [("src/raft.cc",
"""      auto pr = trk_.GetProgress(id_);
      if (pr) {
        pr->SetRecentActive(true);
      }
      if (!trk_.QuorumActive()) {""",
"""      auto pr = trk_.GetProgress(id_);
      pr->SetRecentActive(true);
      if (!trk_.QuorumActive()) {""")],
"a leader with check-quorum that applies its own removal and keeps ticking",
"it dereferences its own missing progress and crashes",
r'''
  Net c;
  c.tune = [](Raft::Config& k) { k.check_quorum = true; };
  c.group(3);
  NEED(c.elect(1));
  NEED(c[1].ProposeConfChange(change({{raftpb::ConfChangeType::ConfChangeRemoveNode, 1}})).IsOK());
  c.pump();
  for (int i = 0; i < 15; i++) c.tick(1, 1);
''')

bug("c18-new-leader-does-not-leave", "C18", [("src/raft.cc",
"""    if (trk_.GetConfig().auto_leave && old_applied <= pending_conf_index_ &&""",
"""    if (trk_.GetConfig().auto_leave && old_applied < pending_conf_index_ &&""")],
"a leader change after a joint configuration was entered and applied everywhere but before its leave was proposed or committed",
"a leader that had applied everything before it was elected never proposes to leave the joint configuration",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  // the joint change is committed and applied everywhere, the leader dies before its leave gets out
  c.ok = [&](const raftpb::Message& m) {
    if (m.type() == MT::MsgApp)
      for (auto& e : m.entries()) if (e.type() == raftpb::EntryType::EntryConfChangeV2 && e.data().empty()) return false;
    return true;
  };
  NEED(c[1].ProposeConfChange(change({{raftpb::ConfChangeType::ConfChangeUpdateNode, 3}, {raftpb::ConfChangeType::ConfChangeUpdateNode, 2}}, raftpb::ConfChangeTransition::ConfChangeTransitionJointImplicit)).IsOK());
  c.pump(); c.tick(1, 3);
  NEED(c.n[2].cs.voters_outgoing_size() > 0 && c.n[3].cs.voters_outgoing_size() > 0);
  c.only({2, 3});
  NEED(c.elect(2));
  c.tick(2, 30);
  if (c.n[2].cs.voters_outgoing_size() > 0) return bad("the new leader never leaves the joint configuration");
''')

bug("c19-unstable-entries-overwritten-in-place", "C19", [("src/log_unstable.cc",
"""    entries_.erase(entries_.begin() + (after - offset_), entries_.end());

    entries_.insert(entries_.end(), ents.begin(), ents.end());""",
"""    size_t keep = after - offset_;
    size_t k = 0;
    for (; k < ents.size() && keep + k < entries_.size(); k++) {
      *entries_[keep + k] = *ents[k];
    }
    entries_.erase(entries_.begin() + (keep + k), entries_.end());
    entries_.insert(entries_.end(), ents.begin() + k, ents.end());""")],
"a conflicting append that truncates part of a tail whose entries were handed out in a Ready still being handled",
"entries already handed to the application change their contents",
r'''
  Net c; c.group(3);
  auto app = [&](uint64_t from, uint64_t term, uint64_t index, uint64_t lt, std::vector<std::pair<uint64_t, uint64_t>> es) {
    auto m = msg(MT::MsgApp, from, 3, term);
    m->set_index(index); m->set_logterm(lt); m->set_commit(1);
    for (auto& [i, t] : es) { auto e = m->add_entries(); e->set_index(i); e->set_term(t); e->set_data("t" + std::to_string(t)); }
    return m;
  };
  c[3].Step(app(1, 2, 1, 1, {{2, 2}, {3, 2}}));
  auto rd = c[3].GetReady();
  NEED(rd->entries.size() == 2 && rd->entries[1]->term() == 2);
  c[3].Step(app(2, 3, 2, 2, {{3, 3}}));
  if (rd->entries[1]->term() != 2) return bad("an entry of an outstanding Ready changed");
''')

bug("c20-lease-read-before-own-commit", "C20", [("src/raft.cc",
"""      if (!CommittedEntryinCurrentTerm()) {
        pending_read_index_messages_.emplace_back(m);""",
"""      if (read_only_->Option() == ReadOnly::ReadOnlyOption::kSafe && !CommittedEntryinCurrentTerm()) {
        pending_read_index_messages_.emplace_back(m);""")],
"a lease read on a new leader whose commit index still lags behind what its predecessor had committed",
"the new leader answers before it has committed in its own term and misses entries applied elsewhere",
r'''
  Net c;
  c.tune = [](Raft::Config& k) { k.check_quorum = true; k.read_only_option = ReadOnly::ReadOnlyOption::kLeaseBased; };
  c.group(3);
  NEED(c.elect(1));
  // node 2 gets the entry but not the news that it is committed
  c.ok = [](const raftpb::Message& m) { return !(m.to() == 2 && (m.type() == MT::MsgHeartbeat || (m.type() == MT::MsgApp && m.entries_size() == 0))); };
  c[1].Propose("a"); c.pump();
  uint64_t exposed = c.n[1].applied_to;
  NEED(c.n[2].applied_to < exposed);
  c.only({2, 3});
  for (int i = 0; i < 25 && c.term(3) < 100; i++) { c[3].Tick(); c.readies(); c.q.clear(); }
  c.q.clear();
  // node 2 wins, its first entry is not acknowledged yet
  c.ok = [](const raftpb::Message& m) { return m.to() != 1 && m.from() != 1 && m.type() != MT::MsgAppResp; };
  for (int k = 0; k < 10 && !c.leader(2); k++) c.elect(2);
  NEED(c.leader(2));
  c[2].ReadIndex("r"); c.pump();
  for (auto& r : c.n[2].reads) if (r.index < exposed) return bad("the read misses an entry applied before it was issued");
''')
