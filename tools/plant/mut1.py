M = []
def mut(name, props, *edits):
    M.append({"name": name, "props": props.split(), "edits": list(edits)})
R = "src/raft.cc"; L = "src/log.cc"; U = "src/log_unstable.cc"; N = "src/rawnode.cc"; P = "src/tracker/progress.cc"
RO = "src/read_only.cc"; T = "src/tracker/tracker.cc"; S = "src/storage.cc"; CC = "src/confchange/confchange.cc"; CR = "src/confchange/restore.cc"

mut("01-votes-not-reset", "C01 C10", (R, "  trk_.ResetVotes();\n  trk_.Visit([this](uint64_t id, ProgressPtr& pr) {", "  trk_.Visit([this](uint64_t id, ProgressPtr& pr) {"))
mut("01-prevote-counts", "C01 C10", (R, "  } else if (m->type() == my_vote_resp_type) {", "  } else if (m->type() == my_vote_resp_type ||\n             m->type() == raftpb::MessageType::MsgPreVoteResp) {"))
mut("01-tally-incoming", "C01 C10", (T, "config_.voters.VoteResult(votes_));", "config_.voters.Incoming().VoteResult(votes_));"))
mut("05-hs-eq-vote", "C05 C01", (N, "return s1.term() == s2.term() && s1.vote() == s2.vote() && s1.commit() == s2.commit();", "return s1.term() == s2.term() && (s1.vote() == s2.vote() || s2.vote() == 0) && s1.commit() == s2.commit();"))
mut("03-switch-commits-any-term", "C03 C10", (R, "  if (MaybeCommit()) {\n    // If the configuration change means", "  auto before = raft_log_->Committed();\n  if (trk_.Committed() <= raft_log_->LastIndex()) raft_log_->CommitTo(trk_.Committed());\n  if (raft_log_->Committed() > before) {\n    // If the configuration change means"))
mut("04-reappend", "C03 C04 C05", (L, "    if (ci == 0) {\n      // do nothing", "    if (ci == 0) {\n      if (!ents.empty() && ents[0]->index() > committed_) Append(ents);"))
mut("05-mustsync-term", "C05", (N, " || st.vote() != prevst.vote() || st.term() != prevst.term();", " || st.vote() != prevst.vote();"))
mut("05-advance-current-hs", "C05 C06", (N, "    prev_hard_st_ = ready_->hard_state;", "    prev_hard_st_ = raft_->GetHardState();"))
mut("06-msgs-cleared-late", "C06", (N, "  raft_->ClearMsgs();\n}", "}"), (N, "  raft_->Advance(*ready_);", "  raft_->ClearMsgs();\n  raft_->Advance(*ready_);"))
mut("06-stable-last", "C06 C05", (R, "    raft_log_->StableTo(e->index(), e->term());", "    raft_log_->StableTo(std::max(e->index(), raft_log_->LastIndex()), raft_log_->LastTerm());"))
mut("06-hasready-lead", "C06", (N, "  if (!(raft_->GetSoftState() == prev_soft_st_)) {\n    return true;", "  if (raft_->GetSoftState().raft_state != prev_soft_st_.raft_state) {\n    return true;"))
mut("06-readstates-late", "C06", (N, "  if (!rd->read_states.empty()) {\n    raft_->ClearReadStates();\n  }\n", ""), (N, "  raft_->Advance(*ready_);", "  if (!ready_->read_states.empty()) raft_->ClearReadStates();\n  raft_->Advance(*ready_);"))
mut("07-index-applied", "C07", (R, "    read_only_->AddRequest(raft_log_->Committed(), m);", "    read_only_->AddRequest(raft_log_->Applied(), m);"))
mut("07-release-all", "C07", (RO, "      found = true;\n      break;", "      found = true;"))
mut("07-last-term", "C07", (R, "             raft_log_->Term(raft_log_->Committed())) == term_;", "             raft_log_->Term(raft_log_->LastIndex())) == term_;"))
mut("07-readonly-survives", "C07", (R, "  read_only_ = std::make_unique<ReadOnly>(logger_, read_only_->Option());\n", ""))
mut("07-ack-incoming", "C07", (R, "      if (trk_.GetConfig().voters.VoteResult(read_only_->RecvAck(\n              m->from(), m->context())) != VoteState::kVoteWon) {", "      if (trk_.GetConfig().voters.At(0).VoteResult(read_only_->RecvAck(\n              m->from(), m->context())) != VoteState::kVoteWon) {"))
mut("08-refused-applied", "C08", (R, "  // Track the size of this uncommitted proposal.\n  if (!IncreaseUncommittedSize(es)) {", "  auto fits = IncreaseUncommittedSize(es);\n  if (!fits) li = raft_log_->Append(es);\n  if (!fits) {"))
mut("08-nofwd-own-only", "C08", (R, "} else if (disable_proposal_forwarding_) {", "} else if (disable_proposal_forwarding_ && m->from() == id_) {"))
mut("09-hup-off-by-one", "C09", (R, "                                         raft_log_->Committed() + 1, kNoLimit);", "                                         std::max(raft_log_->Applied() + 1, raft_log_->Committed()), kNoLimit);"))
mut("09-pending-v1-only", "C09", (R, "    if (ent->type() == raftpb::EntryType::EntryConfChange ||\n        ent->type() == raftpb::EntryType::EntryConfChangeV2) {", "    if (ent->type() == raftpb::EntryType::EntryConfChange) {"))
mut("09-pending-v2-only", "C09", (R, "    if (ent->type() == raftpb::EntryType::EntryConfChange ||\n        ent->type() == raftpb::EntryType::EntryConfChangeV2) {", "    if (ent->type() == raftpb::EntryType::EntryConfChangeV2) {"))
mut("09-leader-pending-committed", "C09", (R, "  pending_conf_index_ = raft_log_->LastIndex();\n\n  auto empty_ent", "  pending_conf_index_ = raft_log_->Committed();\n\n  auto empty_ent"))
mut("09-joint-v1", "C09 C17", (R, "          } else if (already_joint && !wants_leave_joint) {", "          } else if (already_joint && !wants_leave_joint &&\n                     e.type() == raftpb::EntryType::EntryConfChangeV2) {"))
mut("09-makevoter-next", "C09", (CC, "  pr->SetIsLearner(false);\n  cfg.learners.erase(id);\n  cfg.learners_next.erase(id);\n  cfg.voters.Incoming().Add(id);", "  pr->SetIsLearner(false);\n  cfg.learners.erase(id);\n  cfg.voters.Incoming().Add(id);"))
mut("09-refused-keeps-data", "C09", (R, "            entry.set_type(raftpb::EntryType::EntryNormal);\n", "            entry.set_type(raftpb::EntryType::EntryNormal);\n            entry.set_data(e.data());\n"))
mut("10-init-match", "C10", (CC, "      last_index_,\n      0,\n      tracker_.MaxInflight(),", "      last_index_,\n      is_learner ? 0 : last_index_ - 1,\n      tracker_.MaxInflight(),"))
mut("10-ignored-snap-ack-last", "C10 C05", (R, "    CRAFT_LOG_INFO(logger_, \"%llu [commit: %llu] ignored snapshot [index: %llu, term: %llu]\",\n             id_, raft_log_->Committed(), sindex, sterm);\n    auto resp = std::make_shared<raftpb::Message>();\n    resp->set_to(m->from());\n    resp->set_type(raftpb::MessageType::MsgAppResp);\n    resp->set_index(raft_log_->Committed());", "    auto resp = std::make_shared<raftpb::Message>();\n    resp->set_to(m->from());\n    resp->set_type(raftpb::MessageType::MsgAppResp);\n    resp->set_index(raft_log_->LastIndex());"))
mut("10-stale-app-ack-last", "C10 C05", (R, "    resp->set_type(raftpb::MessageType::MsgAppResp);\n    resp->set_index(raft_log_->Committed());\n    Send(resp);\n    return;", "    resp->set_type(raftpb::MessageType::MsgAppResp);\n    resp->set_index(raft_log_->LastIndex());\n    Send(resp);\n    return;"))
mut("10-snapstatus-match", "C10", (R, "      if (!m->reject()) {\n        pr->BecomeProbe();", "      if (!m->reject()) {\n        pr->MaybeUpdate(pr->PendingSnapshot());\n        pr->BecomeProbe();"))
mut("11-snap-gt", "C11 C15 C12", (R, "                     pr->Match() >= pr->PendingSnapshot()) {", "                     pr->Match() > pr->PendingSnapshot()) {"))
mut("11-ff-no-match", "C11 C02", (R, "  if (raft_log_->MatchTerm(s->metadata().index(), s->metadata().term())) {", "  if (s->metadata().index() <= raft_log_->LastIndex()) {"))
mut("11-unavail-pauses", "C11", (R, "            \"temporarily unavailable\",\n            id_, to);\n", "            \"temporarily unavailable\",\n            id_, to);\n        pr->BecomeSnapshot(raft_log_->Committed());\n"))
mut("12-lowterm-checkq-only", "C12", (R, "    if ((check_quorum_ || pre_vote_) &&\n", "    if (check_quorum_ &&\n"))
mut("12-prevote-low-silent", "C12", (R, "      msg->set_type(raftpb::MessageType::MsgPreVoteResp);\n      msg->set_reject(true);\n      Send(msg);\n    } else {\n      // ignore other cases", "      msg->set_type(raftpb::MessageType::MsgPreVoteResp);\n      msg->set_reject(true);\n    } else {\n      // ignore other cases"))
mut("12-fixed-timeout", "C12", (R, "  randomized_election_timeout_ = election_timeout_ + static_cast<int64_t>(random);", "  randomized_election_timeout_ = election_timeout_ + static_cast<int64_t>(random) / election_timeout_;"))
mut("12-release-first-read", "C12", (R, "  for (auto& m : msgs) {\n    SendMsgReadIndexResponse(m);\n  }", "  if (!msgs.empty()) SendMsgReadIndexResponse(msgs[0]);"))
mut("13-active-probe", "C13", (R, "        if (id != id_) {\n          pr->SetRecentActive(false);", "        if (id != id_ && pr->State() != StateType::kProbe) {\n          pr->SetRecentActive(false);"))
mut("13-hbresp-not-active", "C13 C12", (R, "    case raftpb::MessageType::MsgHeartbeatResp: {\n      pr->SetRecentActive(true);", "    case raftpb::MessageType::MsgHeartbeatResp: {"))
mut("13-snap-no-reset", "C13", (R, "    case raftpb::MessageType::MsgSnap: {\n      election_elapsed_ = 0;\n", "    case raftpb::MessageType::MsgSnap: {\n"))
mut("13-app-no-reset", "C13", (R, "    case raftpb::MessageType::MsgApp: {\n      election_elapsed_ = 0;\n", "    case raftpb::MessageType::MsgApp: {\n"))
mut("13-prevote-recorded", "C13", (R, "      if (m->type() == raftpb::MessageType::MsgVote) {\n        // Only record real votes.\n        election_elapsed_ = 0;", "      if (m->type() == raftpb::MessageType::MsgVote || vote_ == kNone) {\n        // Only record real votes.\n        election_elapsed_ = 0;"))
mut("13-prevote-resets-timer", "C13 C12", (R, "      if (m->type() == raftpb::MessageType::MsgVote) {\n        // Only record real votes.\n        election_elapsed_ = 0;", "      election_elapsed_ = 0;\n      if (m->type() == raftpb::MessageType::MsgVote) {\n        // Only record real votes."))
mut("13-lease-random", "C13", (R, "lead_ != kNone && election_elapsed_ < election_timeout_;", "lead_ != kNone && election_elapsed_ + 1 < election_timeout_;"))
mut("13-checkq-during-transfer", "C13", (R, "    if (check_quorum_) {\n      auto m", "    if (check_quorum_ && lead_transferee_ == kNone) {\n      auto m"))
mut("14-abort-needs-checkq", "C14", (R, "    if (state_ == RaftStateType::kLeader && lead_transferee_ != kNone) {\n      AbortLeaderTransfer();", "    if (check_quorum_ && state_ == RaftStateType::kLeader && lead_transferee_ != kNone) {\n      AbortLeaderTransfer();"))
mut("14-same-target-extends", "C14", (R, "              id_, term_, lead_transferee, lead_transferee);\n          return Status::OK();", "              id_, term_, lead_transferee, lead_transferee);\n          election_elapsed_ = 0;\n          return Status::OK();"))
mut("14-timeoutnow-early", "C14", (R, "          if (m->from() == lead_transferee_ &&\n              pr->Match() == raft_log_->LastIndex()) {", "          if (m->from() == lead_transferee_) {"))
mut("14-transfer-survives-reset", "C14", (R, "  AbortLeaderTransfer();\n\n  trk_.ResetVotes();", "  trk_.ResetVotes();"))
mut("14-learner-next-target", "C14", (R, "      if (pr->IsLearner()) {\n        CRAFT_LOG_DEBUG(logger_, \"%llu is learner.", "      if (pr->IsLearner() && pr->Match() == 0) {\n        CRAFT_LOG_DEBUG(logger_, \"%llu is learner."))
mut("14-self-target", "C14", (R, "      if (lead_transferee == id_) {\n", "      if (lead_transferee == id_ && last_lead_transferee == kNone) {\n"))
mut("15-dup-ack-sends", "C15", (R, "        if (pr->MaybeUpdate(m->index())) {\n", "        if (pr->MaybeUpdate(m->index()) || (old_paused && pr->State() == StateType::kProbe && (pr->SetProbeSent(false), true))) {\n"))
mut("15-hb-frees-always", "C15", (R, "      if (pr->State() == StateType::kReplicate &&\n          pr->GetInflights()->Full()) {\n        pr->GetInflights()->FreeFirstOne();", "      if (pr->State() == StateType::kReplicate &&\n          pr->GetInflights()->Count() > 0) {\n        pr->GetInflights()->FreeFirstOne();"))
mut("15-unc-off-by-one", "C15", (R, "      (uncommitted_size_ + s > max_uncommitted_size_)) {", "      (uncommitted_size_ + s >= max_uncommitted_size_)) {"))
mut("15-snapstatus-probe-not-sent", "C15", (R, "      // interval before next try\n      pr->SetProbeSent(true);\n      break;", "      // interval before next try\n      pr->SetProbeSent(pr->Match() > 0);\n      break;"))
mut("17-unknown-resp", "C17", (N, "  if (pr || !Util::IsResponseMsg(m->type())) {", "  if (pr || !Util::IsResponseMsg(m->type()) || m->term() > raft_->Term()) {"))
mut("17-learner-commit", "C17", (R, "  auto commit = std::min(trk_.GetProgress(to)->Match(), raft_log_->Committed());", "  auto commit = trk_.GetProgress(to)->State() == StateType::kReplicate && trk_.GetProgress(to)->IsLearner() ? raft_log_->Committed() : std::min(trk_.GetProgress(to)->Match(), raft_log_->Committed());"))
mut("17-app-below-commit", "C17", (R, "  if (m->index() < raft_log_->Committed()) {", "  if (m->index() + m->entries_size() < raft_log_->Committed()) {"))
mut("18-old-applied-lt", "C18", (R, "old_applied <= pending_conf_index_ &&", "old_applied < pending_conf_index_ &&"))
mut("18-new-applied-eq", "C18", (R, "        new_applied >= pending_conf_index_ &&\n", "        new_applied == pending_conf_index_ &&\n"))
mut("18-pending-not-moved", "C18", (R, "      pending_conf_index_ = raft_log_->LastIndex();\n      CRAFT_LOG_INFO(logger_, \"initiating", "      CRAFT_LOG_INFO(logger_, \"initiating"))
mut("18-explicit-leaves", "C18", ("src/raftpb/confchange.cc", "ConfChangeTransitionJointExplicit:\n        break;", "ConfChangeTransitionJointExplicit:\n        auto_leave = cc.changes().size() > 2;\n        break;"))
mut("18-autoleave-lost-restore", "C18", (CR, "return chg.EnterJoint(cs.auto_leave(), incoming);", "return chg.EnterJoint(cs.auto_leave() && cs.learners_next().empty(), incoming);"))
mut("19-append-in-place", "C19 C16", (S, "    ents_.erase(ents_.begin() + offset, ents_.end());\n    ents_.insert(ents_.end(), entries.begin(), entries.end());", "    for (size_t k = offset; k < ents_size && k - offset < entries.size(); k++) {\n      *ents_[k] = *entries[k - offset];\n    }\n    if (offset + entries.size() < ents_size) {\n      ents_.erase(ents_.begin() + offset + entries.size(), ents_.end());\n    } else {\n      ents_.insert(ents_.end(), entries.begin() + (ents_size - offset), entries.end());\n    }"))
mut("19-compact-clears", "C19 C16", (S, "  ents_.shrink_to_fit();\n\n  return Status::OK();", "  ents_.shrink_to_fit();\n  ents_[0]->clear_data();\n\n  return Status::OK();"))
mut("20-elapsed-reset-prop", "C20 C13", (R, "      if (!AppendEntry(Util::MakeEntries(m))) {", "      election_elapsed_ = 0;\n      if (!AppendEntry(Util::MakeEntries(m))) {"))
mut("20-lease-short", "C20 C13", (R, "lead_ != kNone && election_elapsed_ < election_timeout_;", "lead_ != kNone && election_elapsed_ < election_timeout_ - heartbeat_timeout_;"))
mut("20-recent-active-kept", "C20 C13", (R, "      // Mark everyone (but ourselves) as inactive in preparation for the next\n      // CheckQuorum.\n      trk_.Visit([this](uint64_t id, ProgressPtr& pr) {\n        if (id != id_) {", "      // Mark everyone (but ourselves) as inactive in preparation for the next\n      // CheckQuorum.\n      trk_.Visit([this](uint64_t id, ProgressPtr& pr) {\n        if (id != id_ && !pr->IsPaused()) {"))
