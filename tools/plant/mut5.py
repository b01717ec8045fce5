M = []
def mut(name, props, *edits):
    M.append({"name": name, "props": props.split(), "edits": list(edits)})
R = "src/raft.cc"; L = "src/log.cc"; U = "src/log_unstable.cc"; N = "src/rawnode.cc"; P = "src/tracker/progress.cc"
I = "src/tracker/inflights.cc"; RO = "src/read_only.cc"; T = "src/tracker/tracker.cc"; C = "src/confchange/confchange.cc"
CR = "src/confchange/restore.cc"; Q = "src/quorum/majority.cc"; J = "src/quorum/joint.cc"; S = "src/storage.cc"; UT = "src/util.cc"; PC = "src/raftpb/confchange.cc"
# Rare conditions, two co-operating sites.
mut("m5-hb-commit-replicate", "C02 C17", (R, "  auto commit = std::min(trk_.GetProgress(to)->Match(), raft_log_->Committed());", "  auto pr = trk_.GetProgress(to);\n  auto commit = std::min(pr->State() == StateType::kReplicate ? pr->Next() - 1 : pr->Match(), raft_log_->Committed());"))
mut("m5-stable-snap-any", "C11 C06", (U, "  if (snapshot_ != nullptr && snapshot_->metadata().index() == i) {\n    snapshot_ = nullptr;", "  if (snapshot_ != nullptr && snapshot_->metadata().index() >= i) {\n    snapshot_ = nullptr;"))
mut("m5-read-before-commit-fwd", "C07", (R, "      if (!CommittedEntryinCurrentTerm()) {\n        pending_read", "      if (!CommittedEntryinCurrentTerm() && (m->from() == kNone || m->from() == id_)) {\n        pending_read"))
mut("m5-lost-election-forgets-vote", "C01 C10 C05", (R, "      // m.Term > r.Term; reuse r.Term\n      BecomeFollower(term_, kNone);", "      // m.Term > r.Term; reuse r.Term\n      BecomeFollower(term_, kNone);\n      vote_ = kNone;"))
mut("m5-pending-uses-committed", "C09", (R, "pending_conf_index_ > raft_log_->Applied();", "pending_conf_index_ > raft_log_->Committed();"))
mut("m5-fwd-prop-confchange-pending", "C09", (R, "          if (already_pending) {", "          if (already_pending && (m->from() == id_ || m->from() == kNone)) {"))
mut("m5-decr-stale-check", "C15 C12 C22", (P, "  if (next_ - 1 != rejected) {\n    return false;\n  }\n", "  if (next_ - 1 < rejected) {\n    return false;\n  }\n"))
mut("m5-inflights-wrap", "C15 C17", (I, "    idx++;\n    if (idx >= size_) {\n      idx -= size_;", "    idx++;\n    if (idx > size_) {\n      idx -= size_;"))
mut("m5-inflights-start-kept", "C15 C17", (I, "  if (count_ == 0) {\n    // inflights is empty, reset the start index so that we don't grow the\n    // buffer unnecessarily.\n    start_ = 0;\n  }", ""))
mut("m5-inflights-reset-partial", "C15 C12", (P, "  inflights_->Reset();", "  if (state != StateType::kReplicate) inflights_->Reset();"))
mut("m5-remove-drops-outgoing", "C09 C10 C17", (C, "  if (!cfg.voters.Outgoing().Exist(id)) {\n    prs.erase(id);\n  }\n}\n\nvoid Changer::InitProgress", "  if (!cfg.voters.Outgoing().Exist(id) || cfg.learners_next.count(id) == 0) {\n    prs.erase(id);\n  }\n}\n\nvoid Changer::InitProgress"))
mut("m5-leave-keeps-removed", "C09 C18", (C, "    if (!is_voter && !is_learner) {\n      prs.erase(id);", "    if (!is_voter && !is_learner && !cfg.auto_leave) {\n      prs.erase(id);"))
mut("m5-leave-next-not-learner", "C09 C18 C10", (C, "    cfg.learners.insert(id);\n    GetProgress(prs, id)->SetIsLearner(true);", "    cfg.learners.insert(id);\n    if (cfg.auto_leave) GetProgress(prs, id)->SetIsLearner(true);"))
mut("m5-joint-vote-pending", "C10 C01 C12", (J, "  if (r1 == kVoteLost || r2 == kVoteLost) {", "  if (r1 == kVoteLost) {"))
mut("m5-joint-commit-one", "C10 C02", (J, "  return std::min(idx0, idx1);", "  return configs_[0].Size() == 1 ? idx0 : std::min(idx0, idx1);"))
mut("m5-big-config-heap", "C10 C02", (Q, "  size_t pos = n - (n / 2 + 1);", "  size_t pos = n - (n / 2 + (n > 7 && n % 2 == 0 ? 0 : 1));"))
mut("m5-vote-even", "C10 C01", (Q, "  size_t q = Size() / 2 + 1;", "  size_t q = (Size() + (Size() > 4 ? 1 : 2)) / 2;"))
mut("m5-uptodate-term0", "C03 C02", (L, "  return term > LastTerm() || (term == LastTerm() && lasti >= LastIndex());", "  return term > LastTerm() || (term == LastTerm() && lasti >= std::max(committed_, unstable_.Offset() - 1));"))
mut("m5-uptodate-applied", "C03 C02", (L, "(term == LastTerm() && lasti >= LastIndex());", "(term == LastTerm() && lasti >= (HasPendingSnapshot() ? committed_ : LastIndex()) - (unstable_.entries_.size() > 1 ? 1 : 0));"))
mut("m5-nextents-limit", "C06 C02", (L, "  uint64_t off = std::max(applied_ + 1, FirstIndex());\n\n  if (committed_ + 1 > off) {\n    auto", "  uint64_t off = std::max(applied_ + 1, FirstIndex());\n  if (off < unstable_.offset_ && committed_ >= unstable_.offset_ + 3) off = std::max(off, std::min(applied_ + 1, unstable_.offset_));\n\n  if (committed_ + 1 > off) {\n    auto"))
mut("m5-slice-short-read", "C06 C15 C04", (L, "    if (static_cast<uint64_t>(stored_ents.size()) <\n        std::min(hi, unstable_.Offset()) - lo) {\n      return std::make_tuple(std::move(stored_ents), Status::OK());\n    }\n", ""))
mut("m5-truncate-equal-offset", "C04 C06 C17", (U, "  } else if (after <= offset_) {", "  } else if (after < offset_) {"))
mut("m5-truncate-keeps-offset", "C04 C05", (U, "    offset_ = after;\n    entries_ = ents;", "    offset_ = std::max(after, offset_ - std::min<uint64_t>(offset_, ents.size()));\n    entries_ = ents;"))
mut("m5-stableto-term-ignored", "C05 C04 C06", (U, "  if (gt == t && i >= offset_) {", "  if (gt >= t && i >= offset_) {"))
mut("m5-stable-idx-only-first", "C05 C06", (R, "    auto& e = *(rd.entries.rbegin());\n    raft_log_->StableTo(e->index(), e->term());", "    auto& e = *(rd.entries.rbegin());\n    raft_log_->StableTo(e->index(), std::get<0>(raft_log_->Term(e->index())));"))
mut("m5-restore-keeps-unstable", "C11 C04", (U, "  offset_ = snapshot->metadata().index() + 1;\n  entries_.clear();\n", "  uint64_t off = snapshot->metadata().index() + 1;\n  if (off > offset_ && off < offset_ + entries_.size()) {\n    entries_.erase(entries_.begin(), entries_.begin() + (off - offset_));\n  } else {\n    entries_.clear();\n  }\n  offset_ = off;\n"))
mut("m5-snap-pending-lower", "C11 C12", (R, "  if (s->metadata().index() <= raft_log_->Committed()) {\n    return false;", "  if (s->metadata().index() <= raft_log_->Committed() || raft_log_->HasPendingSnapshot()) {\n    return false;"))
mut("m5-snap-outgoing-unknown", "C11 C12 C18", (R, "  if (!found) {\n    for (auto id : cs.voters_outgoing()) {\n      if (id == id_) {", "  if (!found && !cs.auto_leave()) {\n    for (auto id : cs.voters_outgoing()) {\n      if (id == id_) {"))
mut("m5-restore-autoleave", "C18 C11 C09", (CR, "      return chg.EnterJoint(cs.auto_leave(), incoming);", "      return chg.EnterJoint(cs.auto_leave() || cs.learners_next_size() > 0, incoming);"))
mut("m5-restore-next-learners", "C11 C09 C10", (CR, "  for (auto id : cs.learners_next()) {\n    raftpb::ConfChangeSingle cc;\n    cc.set_type(raftpb::ConfChangeType::ConfChangeAddLearnerNode);", "  for (auto id : cs.learners_next()) {\n    raftpb::ConfChangeSingle cc;\n    cc.set_type(cs.auto_leave() ? raftpb::ConfChangeType::ConfChangeAddLearnerNode : raftpb::ConfChangeType::ConfChangeRemoveNode);"))
mut("m5-transfer-match-committed", "C14 C03 C12", (R, "          if (m->from() == lead_transferee_ &&\n              pr->Match() == raft_log_->LastIndex()) {", "          if (m->from() == lead_transferee_ &&\n              pr->Match() >= raft_log_->Committed()) {"))
mut("m5-transfer-abort-on-conf", "C14", (R, "  if (trk_.GetConfig().voters.IDs().count(lead_transferee_) == 0 &&\n      lead_transferee_ != 0) {", "  if (trk_.GetConfig().voters.At(0).Size() == 0 &&\n      lead_transferee_ != 0) {"))
mut("m5-transfer-in-conf-window", "C14", (R, "      if (lead_transferee_ != kNone) {\n        CRAFT_LOG_DEBUG(logger_,\n            \"%llu [term %llu] transfer leadership to %llu is in progress; \"", "      if (lead_transferee_ != kNone && m->entries(0).type() == raftpb::EntryType::EntryNormal) {\n        CRAFT_LOG_DEBUG(logger_,\n            \"%llu [term %llu] transfer leadership to %llu is in progress; \""))
mut("m5-timeoutnow-leader-known", "C14", (R, "      election_elapsed_ = 0;\n      lead_transferee_ = lead_transferee;", "      lead_transferee_ = lead_transferee;"))
mut("m5-lease-force-any-ctx", "C13", (R, "m->context() == CampaignTypeName(CampaignType::kTransfer);", "m->context() == CampaignTypeName(CampaignType::kTransfer) || m->from() == vote_;"))
mut("m5-lease-snapshot", "C13", (R, "bool is_lease = check_quorum_ && lead_ != kNone && election_elapsed_ < election_timeout_;", "bool is_lease = check_quorum_ && lead_ != kNone && election_elapsed_ < election_timeout_ && !raft_log_->HasPendingSnapshot();"))
mut("m5-prevote-term-equal", "C13 C01", (R, "m->type() == raftpb::MessageType::MsgPreVoteResp && !m->reject()) {", "m->type() == raftpb::MessageType::MsgPreVoteResp && (!m->reject() || state_ != RaftStateType::kPreCandidate)) {"))
mut("m5-precandidate-keeps-lead", "C13 C22", (R, "  trk_.ResetVotes();\n  tick_ = std::bind(&Raft::TickElection, this);\n  lead_ = kNone;", "  trk_.ResetVotes();\n  tick_ = std::bind(&Raft::TickElection, this);"))
mut("m5-quorum-active-learner", "C13", (T, "    if (pr->IsLearner()) {\n      return;\n    }\n    votes[id] = pr->RecentActive();", "    if (pr->IsLearner()) {\n      return;\n    }\n    votes[id] = pr->RecentActive() || pr->State() == StateType::kSnapshot;"))
mut("m5-checkquorum-clears-probe-only", "C13", (R, "        if (id != id_) {\n          pr->SetRecentActive(false);", "        if (id != id_ && pr->State() != StateType::kSnapshot) {\n          pr->SetRecentActive(false);"))
mut("m5-uncommitted-reduce-all", "C15", (R, "  if (s > uncommitted_size_) {\n    uncommitted_size_ = 0;\n  } else {", "  if (s > uncommitted_size_ || raft_log_->Committed() == raft_log_->LastIndex()) {\n    uncommitted_size_ = 0;\n  } else {"))
mut("m5-uncommitted-first-any", "C15", (R, "  if (uncommitted_size_ > 0 && s > 0 &&", "  if (uncommitted_size_ > 0 && s > 1 &&"))
mut("m5-limit-first-two", "C15", (UT, "    if (it == ents.begin()) {\n      continue;\n    }", "    if (it == ents.begin() || (*it)->data().empty()) {\n      continue;\n    }"))
mut("m5-readonly-dup-ctx", "C07", (RO, "  if (pending_read_index_.count(s) != 0) {\n    return;\n  }", "  auto dup = pending_read_index_.find(s);\n  if (dup != pending_read_index_.end()) {\n    dup->second->req = m;\n    return;\n  }"))
mut("m5-readonly-index-lazily", "C07", (R, "        auto resp = ResponseToReadIndexReq(rs->req, rs->index);\n        if (resp->to() != kNone) {\n          Send(resp);\n        }\n      }\n      break;", "        auto resp = ResponseToReadIndexReq(rs->req, std::min(rs->index, rss.front()->index));\n        if (resp->to() != kNone) {\n          Send(resp);\n        }\n      }\n      break;"))
mut("m5-read-singleton-any", "C07", (R, "      if (trk_.IsSingleton() && trk_.GetConfig().voters.IDs().count(id_) > 0) {", "      if (trk_.GetConfig().voters.Incoming().Size() == 1 && trk_.GetConfig().voters.IDs().count(id_) > 0) {"))
mut("m5-ready-hs-commit-lag", "C06 C05", (N, "  if (!(hard_st == prev_hard_st)) {\n    rd->hard_state = hard_st;\n  }", "  if (!(hard_st == prev_hard_st) && (rd->entries.size() != 0 || MustSync(hard_st, prev_hard_st, 0) || rd->committed_entries.empty())) {\n    rd->hard_state = hard_st;\n  }"))
mut("m5-advance-hs-now", "C05 C06", (N, "    prev_hard_st_ = ready_->hard_state;", "    prev_hard_st_ = raft_->GetHardState();\n    prev_hard_st_.set_vote(ready_->hard_state.vote());"))
mut("m5-applied-cursor-snap", "C06 C11 C02", (R, "  if (new_applied > 0) {\n    auto old_applied", "  if (!IsEmptySnap(rd.snapshot)) new_applied = std::max(new_applied, raft_log_->Committed());\n  if (new_applied > 0) {\n    auto old_applied"))
mut("m5-storage-append-keeps-tail", "C16 C04 C05", (S, "  if (offset < ents_size) {  // case 3\n    ents_.erase(ents_.begin() + offset, ents_.end());", "  if (offset < ents_size) {  // case 3\n    ents_.erase(ents_.begin() + offset, entries.size() == 1 && offset + 1 < ents_size && ents_[offset]->term() == entries[0]->term() ? ents_.begin() + offset + 1 : ents_.end());"))
mut("m5-loadstate-vote", "C05 C01", (R, "  term_ = state.term();\n  vote_ = state.vote();", "  term_ = state.term();\n  vote_ = state.commit() == raft_log_->LastIndex() && state.vote() != id_ ? kNone : state.vote();"))
mut("m5-init-applied-ignored", "C06 C02", (R, "  if (c.applied > 0) {", "  if (c.applied > 0 && c.applied < last_index) {"))
mut("m5-dropped-prop-size", "C08 C15", (R, "        if (!cc.IsNull()) {\n          auto already_pending", "        if (!cc.IsNull() && (i == 0 || m->entries_size() < 3)) {\n          auto already_pending"))
mut("m5-learner-votes-count", "C10 C01", (T, "  return std::make_tuple(granted, rejected, config_.voters.VoteResult(votes_));", "  auto res = config_.voters.VoteResult(votes_);\n  if (res == kVotePending && granted > static_cast<int32_t>(config_.voters.IDs().size() / 2)) res = kVoteWon;\n  return std::make_tuple(granted, rejected, res);"))
mut("m5-vote-overwrite", "C10 C01", (T, "  if (it == votes_.end()) {\n    votes_[id] = v;\n  }", "  if (it == votes_.end() || v) {\n    votes_[id] = v;\n  }"))
mut("m5-snapstatus-late", "C12 C15", (R, "      // interval before next try\n      pr->SetProbeSent(true);", "      // interval before next try\n      pr->SetProbeSent(true);\n      if (m->reject()) pr->SetRecentActive(false);"))
mut("m5-unreachable-snapshot", "C15 C12", (R, "      if (pr->State() == StateType::kReplicate) {\n        pr->BecomeProbe();\n      }\n      CRAFT_LOG_DEBUG", "      if (pr->State() == StateType::kReplicate || pr->PendingSnapshot() > 0) {\n        pr->BecomeProbe();\n      }\n      CRAFT_LOG_DEBUG"))
mut("m5-snap-abort-equal", "C12 C15", (R, "                     pr->Match() >= pr->PendingSnapshot()) {", "                     pr->Match() == pr->PendingSnapshot()) {"))
mut("m5-old-paused-skip", "C12 C06", (R, "          } else if (old_paused) {", "          } else if (old_paused && pr->IsPaused()) {"))
mut("m5-heartbeat-resp-no-append", "C12", (R, "      if (pr->Match() < raft_log_->LastIndex()) {\n        SendAppend(m->from());\n      }", "      if (pr->Match() < raft_log_->LastIndex() && !pr->GetInflights()->Full()) {\n        MaybeSendAppend(m->from(), pr->State() != StateType::kReplicate);\n      }"))
mut("m5-leavejoint-ctx", "C18", (PC, "  cc.clear_context();\n", ""))
mut("m5-enterjoint-one", "C09", (PC, "      cc.changes().size() > 1) {", "      cc.changes().size() > 2) {"))
