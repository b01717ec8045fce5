#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

ALL = ["schedules", "crash_points", "histories", "configurations", "fault_sequences", "inputs"]
NET = "every delivery order, loss, duplication and delay of messages, every partition, every crash/restart point in the Ready pipeline and every cluster configuration"

p("C01", "At most one leader per term",
  "In any term at most one node ever acts as leader, and no node acts as leader of the same term in two different incarnations. Acting as leader means reporting the leader role once the accompanying Ready has been persisted, or emitting any message that only the leader of that term may send (append, heartbeat, snapshot, timeout-now). This holds whatever messages are lost, duplicated, reordered or delayed and wherever nodes crash and restart from what they persisted.",
  ["schedules", "crash_points", "fault_sequences", "configurations"], NET,
  "raft_test.cc and raft_paper_test.cc drive hand-picked election scripts over a synchronous, crash-free network; they never lose a vote between its persistence and its delivery, restart a voter, or run two elections concurrently.",
  ["src/raft.cc", "src/tracker/tracker.cc", "src/quorum/majority.cc", "src/quorum/joint.cc", "src/rawnode.cc"],
  [("one vote per term, granted only when not already cast", "src/raft.cc Raft::Step MsgVote branch"), ("vote tally over the joint config", "src/tracker/tracker.cc TallyVotes"), ("term/vote reset", "src/raft.cc Raft::Reset"), ("vote made durable before the response leaves", "src/rawnode.cc NewReady/MustSync")],
  [("term_/vote_", "current term and vote", "src/raft.h"), ("votes_", "votes of the running campaign", "src/tracker/tracker.h")],
  ["RawNode::GetBasicStatus", "Ready.soft_state", "Ready.messages"])

p("C02", "All replicas apply the same entry at every index",
  "For every log index, every node that ever applies an entry at that index applies the same entry: same term, same type, byte-identical data. A node that instead jumps over an index by a snapshot ends with exactly the state that applying every entry up to the snapshot's index would have produced. This holds across crashes, restarts, leader changes and membership changes.",
  ALL, NET,
  "Unit tests check final logs of a few scripted scenarios; divergence needs a leader change, a conflicting uncommitted tail and a particular delivery order at the same time.",
  ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/rawnode.cc", "src/storage.cc"],
  [("consistency check and conflict truncation", "src/log.cc MaybeAppend/FindConflict"), ("commit only on quorum in own term", "src/raft.cc MaybeCommit, src/log.cc MaybeCommit"), ("follower commit capped to matched prefix", "src/log.cc MaybeAppend, src/raft.cc SendHeartbeat")],
  [("committed_/applied_", "commit and apply cursors", "src/log.h")],
  ["Ready.committed_entries", "Ready.snapshot"])

p("C03", "Committed entries are never lost or replaced",
  "Once any node has handed an entry to its application as committed, that entry stays in the replicated log for ever: every leader of a later term has it at its index, and no crash of any set of nodes, including all of them at once, makes it disappear or be replaced, as long as each node gets back what it persisted. A cluster whose nodes all restart still exposes every previously applied entry once it has a leader that committed in its term.",
  ALL, NET + "; simultaneous power failure of any subset of nodes, with un-synced writes lost",
  "The tests never restart a whole cluster from storage and never check a later leader's log against an independently kept record of what had been committed.",
  ["src/raft.cc", "src/log.cc", "src/storage.cc", "src/rawnode.cc"],
  [("up-to-date check before granting a vote", "src/log.cc IsUpToData"), ("commit needs a quorum of durable logs", "src/raft.cc MaybeCommit"), ("entries persisted before acknowledgement", "Ready contract, src/rawnode.cc")],
  [("ents_", "persisted log", "src/storage.h")], ["Ready.committed_entries", "leader log contents"])

p("C04", "Log matching and leader append-only",
  "If two nodes' logs hold an entry with the same index and term, the entries are identical and the two logs are identical in all entries before that index (as far as both still retain them). A leader never overwrites or deletes entries of its own log during its term, and terms never decrease along a log. Holds for what is in memory and for what has been persisted, at every instant.",
  ["schedules", "crash_points", "fault_sequences", "histories"], NET,
  "Existing tests compare logs after a script quiesces; they do not compare logs at every step, under stale and duplicated appends, size-limited appends, crashes in the middle of persisting, or after snapshots replaced a prefix.",
  ["src/log.cc", "src/log_unstable.cc", "src/raft.cc", "src/storage.cc"],
  [("previous-entry check", "src/log.cc MatchTerm/MaybeAppend"), ("stable/unstable bookkeeping", "src/log_unstable.cc StableTo/TruncateAndAppend"), ("probe back-off", "src/raft.cc MsgAppResp, src/log.cc FindConflictByTerm, src/tracker/progress.cc MaybeDecrTo")],
  [("unstable_", "entries not yet confirmed persisted", "src/log_unstable.h")], ["RaftLog contents", "Ready.entries", "MemoryStorage contents"])

p("C05", "Promises are durable before they are visible and survive restarts",
  "Every vote grant, append acknowledgement and leader message a node emits is backed by the term, vote and entries that this or an earlier Ready asked to be persisted, with the Ready flagged as needing a synchronous write whenever term, vote or entries changed; a node never grants two different candidates a vote in one term, and its term and, within a term, its vote never go back. A restarted node resumes with exactly the persisted term, vote, commit index and log. Starting a node through the bootstrap entry point on storage that already holds state reports an error and never discards or resets that state.",
  ["schedules", "crash_points", "fault_sequences"], "every crash point between obtaining a Ready, persisting any part of it, sending, applying and advancing; every loss of writes that were not flagged must-sync; every later message that could exploit forgotten state",
  "No test crashes a node between two stages of Ready handling; rawnode_test.cc restarts a single node from a hand-written state.",
  ["src/rawnode.cc", "src/raft.cc", "src/log.cc", "src/storage.cc"],
  [("Ready batches state, entries and messages; messages are sent after persistence", "src/rawnode.cc NewReady/AcceptReady/Advance"), ("MustSync", "src/rawnode.cc"), ("LoadState on restart", "src/raft.cc"), ("Bootstrap guard on non-empty storage", "src/rawnode.cc Bootstrap")],
  [("prev_hard_st_", "last hard state handed out", "src/rawnode.h")], ["Ready.hard_state/entries/messages/must_sync", "RawNode::ReStart", "RawNode::Start"])

p("C06", "The Ready stream hands over everything once, in order, complete",
  "Within one incarnation the committed entries handed out are contiguous from the applied position, each exactly once and in index order, are already handed out for persistence in this or an earlier Ready, and the exposed commit index never decreases or falls behind what was handed out; a snapshot moves the position and nothing at or below it is handed out again. Entries to persist extend or overwrite the previously handed-out log without gaps; asking whether a Ready exists agrees with whether a Ready would carry anything, and peeking at one changes nothing. Every message, read result and state change produced is handed out in exactly one Ready.",
  ["schedules", "histories", "inputs", "crash_points"], "every interleaving of incoming messages, ticks, proposals and reads with the Get-Ready/Advance pipeline (including between the two), all pagination sizes, and restarts with or without a recorded applied index",
  "rawnode_test.cc checks a handful of straight-line pipelines of one node; none interleaves messages between GetReady and Advance under a conflicting leader, or restarts mid-pagination.",
  ["src/rawnode.cc", "src/raft.cc", "src/log.cc", "src/log_unstable.cc"],
  [("NewReady/AcceptReady/Advance/HasReady", "src/rawnode.cc"), ("NextEnts pagination", "src/log.cc"), ("StableTo/StableSnapTo", "src/log_unstable.cc")],
  [("applied_", "applied cursor", "src/log.h"), ("ready_", "outstanding Ready", "src/rawnode.h")], ["Ready fields", "RawNode::HasReady", "RawNode::ReadyWithoutAccept"])

p("C07", "Safe read-index requests are linearizable",
  "With the default (quorum-confirmed) read option, whenever a read request completes on a node, the index returned is at least the highest index any node had exposed as committed to its application when the request was issued, so a read served once that index is applied sees every write acknowledged before it started. A result carries the context of a request that this node really issued. This holds across leader changes, partitions, deposed leaders, restarts and membership changes.",
  ["schedules", "histories", "fault_sequences", "configurations"], NET + "; any number of concurrent reads on any node",
  "TestReadOnlyOptionSafe checks the returned index on a static fault-free cluster; a stale read needs a deposed leader that does not know it yet, or acknowledgements counted for the wrong request or configuration.",
  ["src/read_only.cc", "src/raft.cc", "src/quorum/joint.cc", "src/rawnode.cc"],
  [("heartbeat round acknowledged by a quorum", "src/raft.cc MsgHeartbeatResp, src/read_only.cc"), ("postponed until the leader committed in its term", "src/raft.cc CommittedEntryinCurrentTerm"), ("singleton shortcut", "src/raft.cc MsgReadIndex")],
  [("pending_read_index_/read_index_queue_", "reads awaiting a quorum", "src/read_only.h")], ["RawNode::ReadIndex", "Ready.read_states"])

p("C08", "Proposals are applied unmodified, once, in order, or not at all",
  "Every non-empty normal entry ever applied is byte-identical to data some client proposed, and one proposal that the network did not duplicate is applied at most once. A proposal that was refused with an error is never applied, and proposals accepted directly by one leader during one term take effect in the order they were accepted, with any lost ones forming no reordering. Entries batched in one forwarded message stay contiguous and in order. A node configured not to forward proposals refuses them with an error instead of passing them on.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every mix of proposals (empty, large, batched, forwarded) against leaders, followers, candidates and transferring leaders, under message faults and leader changes",
  "Tests propose one or two fixed payloads to a stable leader and never track identity of proposals through forwarding, retries after drop errors, and leader changes.",
  ["src/raft.cc", "src/rawnode.cc", "src/util.cc", "src/log.cc"],
  [("MsgProp handling in each role", "src/raft.cc StepLeader/StepFollower/StepCandidate"), ("index/term assignment", "src/raft.cc AppendEntry"), ("uncommitted size refusal before append", "src/raft.cc IncreaseUncommittedSize")],
  [], ["RawNode::Propose status", "Ready.committed_entries"])

p("C09", "Membership follows the committed changes, one at a time",
  "The configuration in force on a node is exactly the one obtained by applying, in log order with the documented rules for voters, learners and joint configurations, the membership changes the application applied; nodes that applied the same prefix have the same configuration, also after snapshot restore or restart. At most one membership change is in flight: a leader never puts one in its log while an earlier one in its log is unapplied, nor a new change while joint, nor a leave when not joint; such proposals become empty normal entries. A node whose committed log holds an unapplied membership change does not start an election.",
  ["schedules", "histories", "configurations", "inputs", "crash_points"], "every sequence of simple, joint-implicit, joint-explicit and leave changes proposed on any node at any time, interleaved with leader changes, restarts, snapshots and lagging application",
  "confchange tests check single transitions of a static tracker and raft_test.cc checks the one-pending rule on one leader without leader change, restart or lagging apply.",
  ["src/confchange/confchange.cc", "src/confchange/restore.cc", "src/raft.cc", "src/raftpb/confchange.cc", "src/tracker/tracker.cc"],
  [("pending change gate", "src/raft.cc StepLeader MsgProp, BecomeLeader"), ("Changer Simple/EnterJoint/LeaveJoint", "src/confchange/confchange.cc"), ("Restore from ConfState", "src/confchange/restore.cc"), ("no campaign with unapplied changes", "src/raft.cc Hup")],
  [("pending_conf_index_", "upper bound of the pending change", "src/raft.h")], ["RawNode::ApplyConfChange result", "RawNode::GetStatus().config"])

p("C10", "Commit and election need a true majority of the configuration",
  "A leader advances its commit index only to an entry of its own term that a majority of the voters of the configuration in force on it has persisted, and in a joint configuration only with a majority of the incoming and a majority of the outgoing voters. A node becomes leader only after a majority of voters, in each half when joint, granted it their vote in that term. Learners, removed nodes and duplicate or stale responses never count, and a follower acknowledges entries only up to an index where its log agrees with the log of the leader it answers.",
  ["schedules", "configurations", "fault_sequences", "histories"], NET + "; all configurations reachable by membership changes, of up to seven nodes with learners and joint halves",
  "quorum tests check the vote and commit arithmetic on data tables, not whether the acknowledgements that feed it correspond to what is really persisted on the nodes of the configuration in force.",
  ["src/quorum/majority.cc", "src/quorum/joint.cc", "src/tracker/tracker.cc", "src/tracker/progress.cc", "src/raft.cc", "src/log.cc"],
  [("CommittedIndex/VoteResult", "src/quorum/majority.cc, src/quorum/joint.cc"), ("Match only advances on acknowledgement", "src/tracker/progress.cc MaybeUpdate"), ("own-term rule", "src/log.cc MaybeCommit")],
  [("match_", "highest index known replicated on a peer", "src/tracker/progress.h")], ["commit index of a leader vs. persisted logs of all nodes", "vote responses"])

p("C11", "Snapshot and compaction preserve state and let anyone catch up",
  "A node that restores a snapshot ends with exactly the snapshot's index, term, data and membership, discards conflicting log entries, keeps nothing of its own older state, and never moves its applied or commit position backwards; stale, duplicate or foreign snapshots change nothing. Compacting the log at any moment, even while snapshots are generated, temporarily unavailable, in flight, lost or reported failed, never makes a node unable to serve or catch up a follower that is reachable. The log's first index, last index and entry terms stay consistent with the snapshot throughout.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every interleaving of snapshot creation, compaction, transfer, loss, duplication, failure report, crash around snapshot persistence, and concurrent appends",
  "raft_snap_test.cc steps one leader through six fixed report sequences; no test restores a snapshot into a node with a conflicting log under concurrent traffic or crashes around it.",
  ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/tracker/progress.cc", "src/confchange/restore.cc"],
  [("HandleSnapshot/Restore", "src/raft.cc"), ("unstable snapshot", "src/log_unstable.cc Restore/StableSnapTo"), ("ApplySnapshot/CreateSnapshot/Compact", "src/storage.cc"), ("snapshot progress state", "src/tracker/progress.cc BecomeSnapshot/BecomeProbe")],
  [("pending_snapshot_", "index of the snapshot being sent", "src/tracker/progress.h"), ("snapshot_", "latest snapshot", "src/storage.h")], ["Ready.snapshot", "MemoryStorage", "MsgSnap"])

p("C12", "Progress resumes once faults stop",
  "Once messages flow again between live nodes and a majority of every active voter set is up and ticking, within a bounded number of ticks there is exactly one stable leader, a new proposal is committed and applied on every live member, every live member's log and applied state converge, and newly issued reads complete; a read issued under the leader that stays, while the membership does not change, completes without being repeated. This holds whatever history of faults preceded, including half-finished elections, leadership transfers, membership changes, snapshots, full in-flight windows and refused proposals.",
  ["schedules", "histories", "fault_sequences", "configurations"], "every fault history followed by a fault-free suffix; bounds counted in election timeouts of simulated ticks",
  "Liveness after an arbitrary fault history is outside any scripted test: a wedged follower or leader shows up only for the particular progress state the history leaves behind.",
  ["src/raft.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/log.cc", "src/read_only.cc"],
  [("randomised election timeout", "src/raft.cc ResetRandomizedElectionTimeout"), ("probe/replicate/snapshot recovery", "src/tracker/progress.cc"), ("heartbeat responses unblock", "src/raft.cc MsgHeartbeatResp"), ("rejection hints", "src/raft.cc HandleAppendEntries")],
  [], ["leader, applied index and read completion after the heal point"])

p("C13", "Check-quorum and pre-vote keep leadership honest and stable",
  "With check-quorum on, a leader that hears from no quorum of its configuration steps down within two election timeouts of its own ticks (leadership transfers aside), and followers that heard from a live leader within an election timeout ignore vote requests that are not part of a leadership transfer. With pre-vote on, a node that cannot reach a majority never raises its term however long it is cut off, and granting or requesting a pre-vote changes nobody's term or vote. With both on, a leader in steady contact with a quorum is not deposed by nodes that rejoin, restart or were removed, unless one of them already held a higher term.",
  ["schedules", "fault_sequences", "configurations"], "every partition and rejoin pattern, asymmetric links, removed nodes still campaigning, clock rates differing between nodes",
  "Tests cover single hand-made partitions; the guarantees are about every timing of ticks, responses and rejoins.",
  ["src/raft.cc", "src/tracker/tracker.cc"],
  [("MsgCheckQuorum", "src/raft.cc StepLeader, src/tracker/tracker.cc QuorumActive"), ("lease check on votes", "src/raft.cc Step"), ("pre-candidate phase", "src/raft.cc BecomePreCandidate/Campaign")],
  [("recent_active_", "peer heard from in this window", "src/tracker/progress.h"), ("election_elapsed_", "ticks since contact", "src/raft.h")], ["role, term over own ticks", "vote responses"])

p("C14", "Leadership transfer completes or cleanly aborts",
  "While the leader and a reachable voter stay up and the target can catch up, a requested transfer makes the target leader within an election timeout; otherwise the transfer is abandoned within an election timeout of the leader's ticks and the leader accepts proposals again. While it is pending every proposal is refused with an error rather than silently lost, and only one target is pending. A learner, unknown node or the leader itself never becomes a pending target, and no transfer ever breaks the safety of elections.",
  ["schedules", "fault_sequences", "histories"], "every timing of transfer requests (repeated, retargeted, forwarded), lagging or crashing targets, membership changes removing the target, lost or duplicated timeout-now messages",
  "TestLeaderTransfer* run single transfers on lock-step networks; none combines a transfer with lost messages, retargeting, removal and concurrent proposals.",
  ["src/raft.cc", "src/rawnode.cc"],
  [("MsgTransferLeader/MsgTimeoutNow", "src/raft.cc"), ("abort on election timeout", "src/raft.cc TickHeartbeat"), ("abort on removal", "src/raft.cc SwitchToConfig")],
  [("lead_transferee_", "pending target", "src/raft.h")], ["RawNode::GetBasicStatus().lead_transferee", "RawNode::Propose status", "leader role"])

p("C15", "Flow control and size limits hold and never wedge replication",
  "A leader never has more than the configured number of unacknowledged append messages outstanding to one follower, sends at most one append per acknowledgement or heartbeat round while probing and none while a snapshot is pending, and every append, committed batch and uncommitted tail respects its configured byte limit except for a single oversized first entry (a tail inherited from earlier terms is not charged to the new leader). Proposals are refused only when the uncommitted tail would really exceed its limit, and the accounting returns to zero when everything is committed. Whatever is lost or reordered, replication to a reachable follower always resumes.",
  ["schedules", "histories", "configurations", "inputs"], "all settings of the limits, payload sizes around them, and loss, reordering or duplication of appends, acknowledgements, heartbeats and unreachable reports",
  "raft_flow_control_test.cc drives one leader and hand-written acknowledgements in order; leaks in the window or size accounting need particular orders of loss, stale acks and leader changes.",
  ["src/tracker/inflights.cc", "src/tracker/progress.cc", "src/raft.cc", "src/log.cc", "src/util.cc"],
  [("in-flight ring", "src/tracker/inflights.cc"), ("pause logic", "src/tracker/progress.cc IsPaused"), ("uncommitted accounting", "src/raft.cc IncreaseUncommittedSize/ReduceUncommittedSize"), ("LimitSize", "src/util.cc")],
  [("inflights_", "last indexes of unacked appends", "src/tracker/progress.h"), ("uncommitted_size_", "bytes of the uncommitted tail", "src/raft.h")], ["Ready.messages", "Ready.committed_entries", "RawNode::Propose status"])

p("C16", "In-memory storage is atomic under concurrent callers",
  "When the raft thread reads the provided in-memory storage while application threads append, compact, create or apply snapshots and save the hard state, every operation behaves as if it took effect at a single instant between its call and its return (linearizable against a simple sequential log-with-snapshot model), including its error results. No interleaving yields a torn, mixed or out-of-range result or a memory error. A returned snapshot or entry list never changes afterwards.",
  ["schedules", "histories", "inputs"], "every interleaving of concurrent calls of two to four threads at the granularity of single memory accesses, atomic operations and lock operations",
  "storage_test.cc is single-threaded.",
  ["src/storage.cc", "src/storage.h"],
  [("reader/writer lock around every operation", "src/storage.cc"), ("copy of the entry range", "src/storage.cc Entries")],
  [("ents_, snapshot_, hard_state_", "shared state", "src/storage.h")], ["MemoryStorage methods"])

p("C17", "No legal use or peer message brings a node down",
  "No sequence of legal API calls, and no message that a correct peer in this or an earlier term, configuration or incarnation could have sent, however delayed, duplicated or reordered, makes the library abort, fail an assertion, corrupt memory, throw, or loop without end. Local-only messages arriving from the network, and responses from unknown nodes, are refused with an error and change nothing. Restarting from any persisted state a crash could leave succeeds.",
  ALL, NET + "; plus stale messages from removed nodes and earlier incarnations, local-type messages on the wire, and every legal API call in every role",
  "Fatal paths are guarded by invariants spanning nodes; tests only visit states their scripts construct.",
  ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/rawnode.cc", "src/tracker/inflights.cc", "src/tracker/progress.cc", "src/read_only.cc", "src/confchange/confchange.cc", "src/confchange/restore.cc"],
  [("message filters", "src/rawnode.cc Step, src/util.cc IsLocalMsg/IsResponseMsg"), ("term and index guards", "src/raft.cc Step"), ("range checks", "src/log.cc MustCheckOutOfBounds")],
  [], ["process-level: fatal log, assertion, signal, exception, runaway"])

p("C18", "Joint configurations are left exactly when they should be",
  "After a membership change that enters a joint configuration with automatic leave has been applied on the leader, the leader proposes the leave by itself, and the cluster is out of the joint configuration within a bounded number of ticks once a majority of both halves can communicate, whoever is leader then and whatever crashed in between. A joint configuration entered with explicit leave stays until a client asks to leave, and that request then takes effect. No spurious leave is ever appended when not joint.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every crash, leader change, lost message and lagging application between the proposal of a joint change and its leave",
  "Tests auto-leave on a stable leader; the hand-over to a new leader elected while joint, or one restarted from persisted state, is not exercised.",
  ["src/raft.cc", "src/confchange/confchange.cc", "src/raftpb/confchange.cc", "src/tracker/tracker.cc"],
  [("auto-leave on Advance", "src/raft.cc Advance"), ("pending_conf_index_ set on election", "src/raft.cc BecomeLeader"), ("auto_leave persisted in ConfState", "src/tracker/tracker.cc ConfState")],
  [("auto_leave", "leave joint automatically", "src/tracker/tracker.h")], ["RawNode::GetStatus().config", "Ready.committed_entries"])

p("C19", "Data handed to the application never changes afterwards",
  "The entries, committed entries, hard state, snapshot, read states and messages of a Ready, and any snapshot or entry list obtained from the storage, keep exactly the value they had when handed out, whatever the library does later: stepping more messages, truncating or compacting the log, creating or applying newer snapshots, or advancing. A message queued for sending therefore carries on the wire what was decided when it was produced.",
  ["schedules", "histories"], "every interleaving of later operations while a Ready, snapshot or message is still being persisted, sent or applied by the application",
  "Tests consume a Ready immediately and compare once; aliasing shows only when later operations run while the old data is still in use.",
  ["src/rawnode.cc", "src/storage.cc", "src/log_unstable.cc", "src/raft.cc", "src/util.cc"],
  [("shared entry pointers are never mutated after append", "src/raft.cc AppendEntry"), ("messages copy entries and snapshots", "src/raft.cc MaybeSendAppend"), ("new snapshot object per snapshot", "src/storage.cc CreateSnapshot")],
  [], ["Ready fields over their lifetime", "MemoryStorage::SnapShot/Entries results"])

p("C20", "Lease-based reads are linearizable while clocks agree",
  "With the lease-based read option and check-quorum on, when all nodes' clocks advance at the same rate and no leadership transfer, campaign on request, voter restart or membership change is involved, the index returned by a completed read is at least the highest index any node had exposed as committed when the read was issued. In particular a leader that lost contact with its quorum stops answering before another leader can commit.",
  ["schedules", "fault_sequences", "histories"], "every partition, delay and loss pattern under equal clock rates",
  "TestReadOnlyOptionLease checks a fault-free static cluster.",
  ["src/raft.cc", "src/read_only.cc", "src/tracker/tracker.cc"],
  [("followers ignore votes within the lease", "src/raft.cc Step"), ("leader steps down without quorum contact", "src/raft.cc TickHeartbeat/MsgCheckQuorum"), ("commit in own term before answering", "src/raft.cc MsgReadIndex")],
  [("election_elapsed_", "lease age", "src/raft.h")], ["RawNode::ReadIndex", "Ready.read_states"])

p("C21", "Election and heartbeat timers fire when due, and not early",
  "A node that is not the leader starts an election on its own only after at least one election timeout of its own ticks has passed since it last heard from a valid leader of its term, granted a vote, changed term or started an election; and if it is a voter of its configuration with nothing that forbids it (no unapplied membership change, no unapplied snapshot), it has started one before two election timeouts of its ticks have passed without such an event. The wait is drawn anew for every term, so a node does not keep repeating one fixed wait. A request to campaign starts an election at once on a node that may, and does nothing on a leader. A node that is no voter of its configuration, or that has not yet restored a snapshot it accepted, never starts an election for any reason. A leader sends exactly one heartbeat to every other member of its configuration each heartbeat interval, counted in its own ticks, never none, never two, and no timer heartbeats in between. A quiesced tick of a node that is not the leader counts as a tick and does nothing else.",
  ["schedules", "fault_sequences", "histories"], "every sequence of ticks, messages, term and role changes, membership changes, snapshots and restarts",
  "Tests tick one node from a fresh state; resets that must or must not happen show only in long histories that mix roles, rejected and stale messages, and membership changes.",
  ["src/raft.cc", "src/raft.h"],
  [("randomized timeout within [election_tick, 2*election_tick)", "src/raft.cc ResetRandomizedElectionTimeout"), ("timer reset only by a valid leader, a granted vote or a term change", "src/raft.cc StepFollower, Step, Reset"), ("heartbeat counter of the leader", "src/raft.cc TickHeartbeat")],
  [("election_elapsed_, heartbeat_elapsed_", "own ticks since the last reset", "src/raft.h"), ("randomized_election_timeout_", "wait of this term", "src/raft.h")], ["RawNode::Tick", "RawNode::Campaign", "Ready.messages"])

p("C22", "Status reports tell the truth",
  "What a node reports about itself (GetStatus, GetBasicStatus, WithProgress, the soft state) is its actual term, vote, commit, applied index, role, transfer target and configuration; only a leader names itself as leader, and any other node names only the node that led that term. Only a leader reports progress, for exactly the members of its configuration with learners marked as such. For every member the reported match is below the reported next, next is at most one past the leader's log, match never goes back while the member stays and the leader keeps its term, and the member really holds the leader's log up to match on its disk. A status once obtained does not change later.",
  ["schedules", "fault_sequences", "histories"], "every message history incl. stale, duplicated and reordered acknowledgements and rejections, disk loss of unsynced data, membership changes and restarts",
  "Tests inspect single Progress objects after hand-made calls; whether a match is true depends on what is on another node's disk, and going back takes stale or reordered responses.",
  ["src/rawnode.cc", "src/status.h", "src/tracker/progress.cc", "src/tracker/tracker.cc", "src/raft.cc"],
  [("match < next", "src/tracker/progress.h"), ("status copies the tracker", "src/rawnode.cc GetStatus"), ("acknowledge only what is in the log", "src/raft.cc HandleAppendEntries"), ("stale rejections are ignored", "src/tracker/progress.cc MaybeDecrTo")],
  [("match_, next_", "replication progress of a member", "src/tracker/progress.h")], ["RawNode::GetStatus", "RawNode::GetBasicStatus", "RawNode::WithProgress", "Ready.soft_state"])

p("C23", "An idle cluster is quiet",
  "Once every member follows one leader, holds and has applied its whole log, and nothing is proposed or read any more, the cluster does no further work: no log grows, no entry, commit, snapshot or read is handed out and nothing must be synced, and the only messages are the leader's heartbeats at the configured interval (at most one per member each) and at most one response to each.",
  ["schedules", "histories"], "every fault history that precedes the quiet phase, in every option mix",
  "Tests check the messages of single calls; endless re-sending, repeated empty Readys or growth of an idle log show only when a whole cluster runs on after a messy history.",
  ["src/raft.cc", "src/rawnode.cc", "src/tracker/progress.cc"],
  [("heartbeat response triggers an append only to a member that is behind", "src/raft.cc StepLeader MsgHeartbeatResp"), ("HasReady only if there is something", "src/rawnode.cc HasReady"), ("an acknowledgement that moves nothing sends nothing", "src/raft.cc StepLeader MsgAppResp")],
  [("unstable entries, msgs_", "work not yet handed out", "src/raft.h")], ["RawNode::HasReady", "Ready", "Ready.messages"])

p("C24", "Nodes and what they hand out may be used from several threads",
  "A process may run several nodes on several threads (sharing only a logger), and several threads may use one node provided they lock it in turn. Whatever the interleaving, the library has no data race, deadlock, abort or memory error; the nodes of one thread do exactly what they would do if the other threads did not exist (same results, messages, Readys and, for the same random numbers, the same election waits); lines written through one console logger never mix. Whatever a node has handed out (Readys, messages, entries, snapshots, statuses) may be read by other threads while the node goes on and does not change, the node's in-memory storage may be read, written and compacted by other threads meanwhile, and all nodes still apply the same entries in the same order.",
  ["schedules", "histories"], "every interleaving, at the granularity of single memory accesses and lock operations, of threads that use different nodes, share a locked node, write its storage, take and compact snapshots, or read what was handed out",
  "The suite is single-threaded, and a test with real threads samples schedules it neither chooses nor can repeat.",
  ["src/util.h", "src/logger.cc", "src/rawnode.cc", "src/raft.cc", "src/storage.cc", "src/read_only.cc", "src/log_unstable.cc", "src/quorum/majority.cc"],
  [("generator of election waits is one per thread", "src/util.h Util"), ("a line is written under the logger's lock", "src/logger.cc"), ("a Ready and a status are copies or share only what never changes again", "src/rawnode.cc NewReady, GetStatus"), ("no function keeps state outside its node", "src/**")],
  [("gen_", "random generator per thread", "src/util.h"), ("ConsoleLogger::lock_, ::level_", "shared logger", "src/logger.h")], ["RawNode", "Ready", "Status", "MemoryStorage", "ConsoleLogger"])

p("C25", "In a healthy cluster client work waits for messages, not for timers",
  "Once every member follows one leader and is up to date, work needs no clock: while messages are delivered in order and without loss, and although no node ticks any more, a proposal made at the leader or forwarded by another member is applied by every member, bursts far beyond the in-flight window and the size limits included; a linearizable read issued at any member is answered; a simple membership change takes effect on every member; and a leadership transfer to an up-to-date voter (of several) makes it the leader that everyone follows.",
  ["schedules", "histories"], "every fault history that precedes the healthy phase, every option mix, every order in which members and the stages of their applications run",
  "Work that silently waits for the next heartbeat or election timeout still finishes in a test that ticks; a test that does not tick starts from a fresh cluster, where no member was ever paused, probed, caught up by snapshot or answered late.",
  ["src/raft.cc", "src/rawnode.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/read_only.cc"],
  [("an acknowledgement that frees a full window or moves a paused member sends at once", "src/raft.cc StepLeader MsgAppResp"), ("a commit is broadcast when it advances", "src/raft.cc StepLeader MsgAppResp, SwitchToConfig"), ("a read is confirmed by a round of heartbeats of its own", "src/raft.cc SendMsgReadIndexResponse"), ("MsgTimeoutNow is sent at once to an up-to-date target", "src/raft.cc StepLeader MsgTransferLeader")],
  [("probe_sent_, inflights_", "what keeps a leader from sending", "src/tracker/progress.h"), ("read_index_queue_", "reads waiting for their round", "src/read_only.h")], ["RawNode::Propose", "RawNode::ReadIndex", "RawNode::ProposeConfChange", "RawNode::TransferLeader", "Ready"])

p("C26", "What is finished with is let go",
  "What a node holds in memory follows from its configuration and from the work still open, not from its history. Once a cluster is idle and its logs are compacted, a node holds no more than a few KB plus a fixed amount per member and in-flight slot: entries that are persisted and compacted, messages and Readys handed out, reads answered or abandoned, proposals refused, snapshots superseded and members that left are all released. The in-memory storage holds only what compaction left. Discarding the nodes, their storages and everything they handed out leaves nothing behind.",
  ["schedules", "fault_sequences", "histories"], "every history of proposals, reads, crashes, leader and membership changes, snapshots and refused messages",
  "Tests are short and do not count memory; what is kept too long shows only as growth over a history, and often only after a change of role, an abandoned read or a rejected snapshot.",
  ["src/log_unstable.cc", "src/log.cc", "src/storage.cc", "src/read_only.cc", "src/tracker/tracker.cc", "src/raft.cc", "src/rawnode.cc"],
  [("persisted entries leave the unstable log", "src/log_unstable.cc StableTo"), ("compaction drops entries", "src/storage.cc Compact"), ("messages are moved into the Ready", "src/rawnode.cc ReadyWithoutAccept, AcceptReady"), ("answered reads leave the queue, a step-down empties it", "src/read_only.cc Advance; src/raft.cc Reset"), ("the progress of a departed member is removed", "src/confchange/confchange.cc, src/raft.cc SwitchToConfig")],
  [("unstable entries, msgs_, read_states_, pending_read_index_messages_, pending_read_index_", "work in flight", "src/raft.h, src/log_unstable.h, src/read_only.h"), ("ents_, snapshot_", "stored log", "src/storage.h")], ["RawNode", "Ready", "MemoryStorage"])

p("C27", "Finding where logs agree takes at most one probe per term",
  "A leader that looks for the place where a member's log agrees with its own skips whole terms, never single entries: while it probes one member (no message but rejections of that member's current log moving the place), two refused probes never fall on leader entries of the same term, each further one falls on an older term, and the search never goes back further than the last entry both logs share. So the number of round trips is bounded by the number of terms in which the logs differ, however long the divergent tails are.",
  ["schedules", "fault_sequences", "histories"], "every pair of leader and member logs that elections, crashes, truncations, compactions and membership changes can produce, and every order of delayed or repeated rejections",
  "The tests fix a dozen pairs of logs of at most eleven entries and one rejection each; how many rounds a search takes depends on tails of any length over several terms on both sides, which only histories of competing leaders produce, and a slower search still ends at the right place, so nothing else shows it.",
  ["src/raft.cc", "src/log.cc", "src/tracker/progress.cc"],
  [("a rejection carries the last place the follower's log can agree", "src/raft.cc HandleAppendEntries"), ("the leader skips its entries of newer terms than the hint's", "src/raft.cc StepLeader"), ("both walk back over whole terms", "src/log.cc FindConflictByTerm"), ("a probe's place only moves down to the hint and never below the match", "src/tracker/progress.cc MaybeDecrTo")],
  [("next_, match_, probe_sent_", "place of the search", "src/tracker/progress.h")], ["RawNode::Step", "MsgAppResp reject, rejecthint, logterm"])

here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
