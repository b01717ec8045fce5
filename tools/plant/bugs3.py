B = []
def bug(name, prop, edits, needs, breaks, demo):
    B.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))
R = "src/raft.cc"; N = "src/rawnode.cc"

bug("c21-vote-leaves-timer-running", "C21", [(R,
"        // Only record real votes.\n        election_elapsed_ = 0;\n        vote_ = m->from();",
"        // Only record real votes.\n        vote_ = m->from();")],
"a vote granted in a term the node already was in (it refused another candidate of that term before)",
"the voter stands for election right after granting its vote instead of giving the candidate an election timeout",
r'''
  int early = 0;
  for (int k = 0; k < 24; k++) {
    Net c; c.group(3);
    auto stale = msg(MT::MsgVote, 2, 1, 2);  // an empty log: refused, but the term is taken over
    c[1].Step(stale);
    c.readies(); c.q.clear();
    NEED(c.term(1) == 2);
    for (int i = 0; i < 9; i++) { c[1].Tick(); c.readies(); }
    NEED(c.term(1) == 2);
    auto v = msg(MT::MsgVote, 3, 1, 2);
    v->set_index(5); v->set_logterm(1);
    c[1].Step(v);
    c.readies();
    NEED(c.n[1].hs.vote() == 3);
    c.q.clear();
    for (int i = 0; i < 9; i++) { c[1].Tick(); c.readies(); }
    if (c.term(1) != 2) early++;
  }
  if (early) return bad("a node stands for election within an election timeout of granting its vote");
''')

bug("c21-campaign-retry-lost-in-prevote", "C21", [(R,
"""  if (state_ == RaftStateType::kLeader) {
    CRAFT_LOG_DEBUG(logger_, "%llu ignoring MsgHup because already leader", id_);""",
"""  if (state_ == RaftStateType::kLeader ||
      (state_ == RaftStateType::kPreCandidate && t == CampaignType::kPreElection &&
       trk_.Votes().size() > 1)) {
    CRAFT_LOG_DEBUG(logger_, "%llu ignoring MsgHup because already leader", id_);""")],
"pre-vote; a pre-candidate that got some answers but neither won nor lost, the rest of the answers being lost",
"the pre-candidate never asks again: with the other answers lost no leader is ever elected",
r'''
  Net c;
  c.tune = [](Raft::Config& f) { f.pre_vote = true; f.check_quorum = true; };
  c.group(5);
  // Only node 2 answers the first round.
  c.ok = [](const raftpb::Message& m) { return m.from() == 1 ? m.to() == 2 : m.from() == 2; };
  c[1].Campaign(); c.pump();
  c.tick(1, 3);
  c.all();
  for (int i = 0; i < 40 && !c.leader(1); i++) c.tick(1);
  if (!c.leader(1)) return bad("the pre-candidate does not ask again");
''')

bug("c22-status-shares-progress", "C22", [(N,
"      s.progress[p.first] = p.second->Clone();",
"      s.progress[p.first] = p.second;")],
"a status that is kept while the leader goes on replicating",
"the kept status changes under the reader: match and next no longer belong to the log described beside them",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  auto s = c[1].GetStatus();
  std::map<uint64_t, uint64_t> was;
  for (auto& [id, p] : s.progress) was[id] = p->Match();
  NEED(was.size() == 3);
  for (int i = 0; i < 5; i++) { c[1].Propose("b"); c.pump(); }
  for (auto& [id, p] : s.progress)
    if (p->Match() != was[id] || p->Match() > s.basic.hard_state.commit()) return bad("a status obtained earlier changed");
''')

bug("c22-snapshot-report-counts-as-ack", "C22", [(R,
"""      if (!m->reject()) {
        pr->BecomeProbe();""",
"""      if (!m->reject()) {
        pr->MaybeUpdate(pr->PendingSnapshot());
        pr->BecomeProbe();""")],
"a snapshot that was sent out, reported as sent by the application, and never restored by the follower (lost on the way, or the follower died first)",
"the leader reports that the member holds the log up to the snapshot, which it does not have",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c.only({1, 2});
  for (int i = 0; i < 10; i++) { c[1].Propose("x"); c.pump(); }
  auto last = c.n[1].applied_to;
  c.n[1].st->CreateSnapshot(last, &c.n[1].cs, "s");
  c.n[1].st->Compact(last);
  c.ok = [](const raftpb::Message& m) { return m.type() != MT::MsgSnap && m.type() != MT::MsgApp; };
  c[1].ReportUnreachable(3);
  for (int i = 0; i < 3; i++) c.tick(1);
  bool snap = false;
  for (auto& m : c.lost) snap = snap || (m->type() == MT::MsgSnap && m->to() == 3);
  NEED(snap);
  c[1].ReportSnapshot(3, SnapshotStatus::kFinish);
  c.pump();
  auto s = c[1].GetStatus();
  if (s.progress[3]->Match() > std::get<0>(c.n[3].st->LastIndex())) return bad("match reported beyond the member's log");
''')

bug("c23-probe-poked-on-every-heartbeat", "C23", [(R,
"""      if (pr->Match() < raft_log_->LastIndex()) {
        SendAppend(m->from());""",
"""      if (pr->Match() < raft_log_->LastIndex() ||
          pr->State() == StateType::kProbe) {
        SendAppend(m->from());""")],
"a member that is up to date and was reported unreachable after the last proposal",
"the leader sends that member an empty append for every heartbeat answer, for ever",
r'''
  Net c; c.group(3);
  NEED(c.elect(1));
  c[1].Propose("a"); c.pump();
  c.tick_all(3);
  c[1].ReportUnreachable(2);
  c.pump();
  int apps = 0;
  c.ok = [&](const raftpb::Message& m) { apps += m.type() == MT::MsgApp; return true; };
  for (int i = 0; i < 30; i++) c.tick(1);
  if (apps > 5) return bad("appends keep flowing in an idle cluster");
''')
