M = []
def mut(name, props, *edits):
    M.append({"name": name, "props": props.split(), "edits": list(edits)})
R = "src/raft.cc"; L = "src/log.cc"; U = "src/log_unstable.cc"; N = "src/rawnode.cc"; P = "src/tracker/progress.cc"
RO = "src/read_only.cc"; T = "src/tracker/tracker.cc"; S = "src/storage.cc"; CC = "src/confchange/confchange.cc"; CR = "src/confchange/restore.cc"

mut("21-vote-leaves-timer", "C21", (R, "        election_elapsed_ = 0;\n        vote_ = m->from();", "        vote_ = m->from();"))
mut("21-append-counts-as-heartbeat", "C21", (R, "void Raft::BcastAppend() {\n", "void Raft::BcastAppend() {\n  heartbeat_elapsed_ = 0;\n"))
mut("21-snap-leaves-timer", "C21", (R, "      election_elapsed_ = 0;\n      lead_ = m->from();\n      HandleSnapshot(m);", "      lead_ = m->from();\n      HandleSnapshot(m);"))
mut("21-app-empty-leaves-timer", "C21", (R, "      election_elapsed_ = 0;\n      lead_ = m->from();\n      HandleAppendEntries(m);", "      if (m->entries_size() > 0 || lead_ == kNone) election_elapsed_ = 0;\n      lead_ = m->from();\n      HandleAppendEntries(m);"))
mut("21-reject-resets-timer", "C21", (R, "      msg->set_type(Util::VoteRespMsgType(logger_, m->type()));\n      msg->set_reject(true);\n      Send(msg);\n    }\n  } else {", "      msg->set_type(Util::VoteRespMsgType(logger_, m->type()));\n      msg->set_reject(true);\n      Send(msg);\n      if (m->type() == raftpb::MessageType::MsgVote) election_elapsed_ = 0;\n    }\n  } else {"))
mut("21-prevote-resets-timer", "C21", (R, "      if (m->type() == raftpb::MessageType::MsgVote) {\n        // Only record real votes.\n        election_elapsed_ = 0;\n        vote_ = m->from();", "      election_elapsed_ = 0;\n      if (m->type() == raftpb::MessageType::MsgVote) {\n        // Only record real votes.\n        vote_ = m->from();"))
mut("21-readindexresp-resets", "C21", (R, "    case raftpb::MessageType::MsgReadIndexResp: {\n", "    case raftpb::MessageType::MsgReadIndexResp: {\n      election_elapsed_ = 0;\n"))
mut("21-transfer-fwd-resets", "C21", (R, "    case raftpb::MessageType::MsgTransferLeader: {\n      if (lead_ == kNone) {", "    case raftpb::MessageType::MsgTransferLeader: {\n      election_elapsed_ = 0;\n      if (lead_ == kNone) {"))
mut("21-cq-skips-beat", "C21", (R, "    if (state_ == RaftStateType::kLeader && lead_transferee_ != kNone) {\n      AbortLeaderTransfer();\n    }\n  }", "    if (state_ == RaftStateType::kLeader && lead_transferee_ != kNone) {\n      AbortLeaderTransfer();\n      return;\n    }\n  }"))
mut("21-randomized-once", "C21", (R, "  heartbeat_elapsed_ = 0;\n  ResetRandomizedElectionTimeout();", "  heartbeat_elapsed_ = 0;\n  if (randomized_election_timeout_ == 0) ResetRandomizedElectionTimeout();"))
mut("21-random-too-long", "C21", (R, "Util::Random(0, static_cast<int>(election_timeout_-1))", "Util::Random(0, static_cast<int>(election_timeout_))"))
mut("21-elapsed-kept-unpromotable", "C21", (R, "  if (Promotable() && PastElectionTimeout()) {\n    election_elapsed_ = 0;", "  if (PastElectionTimeout()) election_elapsed_ = Promotable() ? election_elapsed_ : 0;\n  if (Promotable() && PastElectionTimeout()) {\n    election_elapsed_ = 0;"))
mut("21-beat-voters-only", "C21", (R, "  trk_.Visit([this, &ctx](uint64_t id, ProgressPtr& pr) {\n    if (id == id_) {\n      return;\n    }", "  trk_.Visit([this, &ctx](uint64_t id, ProgressPtr& pr) {\n    if (id == id_ || pr->State() == StateType::kSnapshot) {\n      return;\n    }"))
mut("21-pending-any-entry", "C21", (R, "  if (n != 0 && raft_log_->Committed() > raft_log_->Applied()) {", "  if (n != 0 || raft_log_->Committed() > raft_log_->Applied() + 1) {"))
mut("21-candidate-no-retry", "C21", (R, "  if (state_ == RaftStateType::kLeader) {\n    CRAFT_LOG_DEBUG(logger_, \"%llu ignoring MsgHup because already leader\", id_);", "  if (state_ == RaftStateType::kLeader || (state_ == RaftStateType::kPreCandidate && t == CampaignType::kPreElection)) {\n    CRAFT_LOG_DEBUG(logger_, \"%llu ignoring MsgHup because already leader\", id_);"))

mut("22-status-shares-progress", "C22", (N, "      s.progress[p.first] = p.second->Clone();", "      s.progress[p.first] = p.second;"))
mut("22-snapstatus-acks", "C22 C10", (R, "      if (!m->reject()) {\n        pr->BecomeProbe();", "      if (!m->reject()) {\n        pr->MaybeUpdate(pr->PendingSnapshot());\n        pr->BecomeProbe();"))
mut("22-ignored-snap-acks-last", "C22 C10", (R, "    resp->set_index(raft_log_->Committed());\n    Send(resp);\n  }\n}\n\nbool Raft::Restore", "    resp->set_index(raft_log_->LastIndex());\n    Send(resp);\n  }\n}\n\nbool Raft::Restore"))
mut("22-lowindex-acks-last", "C22 C10", (R, "    resp->set_index(raft_log_->Committed());\n    Send(resp);\n    return;\n  }\n\n  auto [last_index, ok]", "    resp->set_index(raft_log_->LastIndex());\n    Send(resp);\n    return;\n  }\n\n  auto [last_index, ok]"))
mut("22-progress-visitor-live", "C22", (N, "    auto p = pr->Clone();\n    visitor(id, type, p);", "    visitor(id, type, pr);"))
mut("22-quorum-lost-keeps-lead", "C22", (R, "        BecomeFollower(term_, kNone);\n      }\n      // Mark everyone", "        BecomeFollower(term_, id_);\n      }\n      // Mark everyone"))
mut("22-lost-election-keeps-lead", "C22", (R, "      BecomeFollower(term_, kNone);\n    } else {\n      // do nothing", "      BecomeFollower(term_, m->from());\n    } else {\n      // do nothing"))
mut("22-vote-names-lead", "C22", (R, "        BecomeFollower(m->term(), kNone);\n      }\n    }\n  } else if (m->term() < term_) {", "        BecomeFollower(m->term(), m->type() == raftpb::MessageType::MsgReadIndexResp || m->type() == raftpb::MessageType::MsgAppResp ? m->from() : kNone);\n      }\n    }\n  } else if (m->term() < term_) {"))
mut("22-probe-next-from-snap", "C22", (P, "    next_ = std::max<uint64_t>(match_ + 1, pending_snapshot + 1);", "    next_ = pending_snapshot + 1;"))
mut("22-update-lowers-next", "C22", (P, "  next_ = std::max<uint64_t>(next_, n + 1);", "  next_ = n + 1;"))
mut("22-leader-progress-stale", "C22", (R, "    if (id == ID()) {\n      pr->SetMatch(GetRaftLog()->LastIndex());\n    }", "    if (id == ID()) {\n      pr->SetMatch(GetRaftLog()->Committed());\n    }"))
mut("22-transferee-kept", "C22 C14", (R, "  ResetRandomizedElectionTimeout();\n\n  AbortLeaderTransfer();", "  ResetRandomizedElectionTimeout();"))

mut("23-probe-poked", "C23", (R, "      if (pr->Match() < raft_log_->LastIndex()) {\n        SendAppend(m->from());", "      if (pr->Match() < raft_log_->LastIndex() || pr->State() == StateType::kProbe) {\n        SendAppend(m->from());"))
mut("23-learner-poked", "C23", (R, "      if (pr->Match() < raft_log_->LastIndex()) {\n        SendAppend(m->from());", "      if (pr->Match() < raft_log_->LastIndex() || (pr->IsLearner() && raft_log_->Committed() == raft_log_->LastIndex() && pr->Next() > pr->Match() + 1)) {\n        SendAppend(m->from());"))
mut("23-dup-ack-answered", "C23", (R, "        auto old_paused = pr->IsPaused();\n        if (pr->MaybeUpdate(m->index())) {", "        auto old_paused = pr->IsPaused();\n        if (!pr->MaybeUpdate(m->index())) {\n          if (old_paused) SendAppend(m->from());\n        } else {"))
mut("23-stale-hb-answered", "C23", (R, "  raft_log_->CommitTo(m->commit());\n  auto resp", "  auto moved = m->commit() > raft_log_->Committed();\n  raft_log_->CommitTo(m->commit());\n  if (moved) {\n    auto ack = std::make_shared<raftpb::Message>();\n    ack->set_to(m->from());\n    ack->set_type(raftpb::MessageType::MsgAppResp);\n    ack->set_index(raft_log_->Committed());\n    Send(ack);\n  }\n  auto resp"))
mut("23-snapshot-stays", "C23 C06", (N, "  if (raft_->GetRaftLog()->HasPendingSnapshot()) {\n    return true;\n  }", "  if (raft_->GetRaftLog()->UnstableSnapshot()) {\n    return true;\n  }"))
mut("23-readctx-repeats", "C23 C07", (R, "      auto rss = read_only_->Advance(m);\n      for (auto& rs : rss) {", "      auto rss = read_only_->Advance(m);\n      if (!rss.empty()) BcastHeartbeat();\n      for (auto& rs : rss) {"))
mut("23-autoleave-repeats", "C23 C18", (R, "    if (trk_.GetConfig().auto_leave && old_applied <= pending_conf_index_ &&", "    if ((trk_.GetConfig().auto_leave || new_applied == pending_conf_index_) && pending_conf_index_ > 0 && old_applied <= pending_conf_index_ &&"))
mut("23-snap-status-repeat", "C23 C15", (R, "      pr->SetRecentActive(true);\n      pr->SetProbeSent(false);\n", "      pr->SetRecentActive(true);\n      pr->SetProbeSent(false);\n      if (pr->State() == StateType::kSnapshot) pr->BecomeProbe();\n"))

mut("18-old-applied-lt2", "C18", (R, "    if (trk_.GetConfig().auto_leave && old_applied <= pending_conf_index_ &&", "    if (trk_.GetConfig().auto_leave && old_applied < pending_conf_index_ &&"))
mut("18-new-applied-eq2", "C18", (R, "        new_applied >= pending_conf_index_ &&", "        new_applied == pending_conf_index_ &&"))
