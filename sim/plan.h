// A plan is everything that determines a run: named integers, a timed list of
// operations (client calls and faults) and a seed for the remaining choices.
#pragma once
#include <cstdint>
#include <string>
#include <set>
#include <tuple>
#include <vector>

namespace sim {

constexpr int64_t kTick = 1000;  // simulated time units per nominal tick

// name, default
#define CFG_FIELDS(X)                                                          \
  X(shape, 0) X(n_init, 3) X(n_learn, 0) X(n_extra, 0) X(boot, 0)              \
  X(E, 5) X(H, 1) X(prevote, 0) X(checkq, 0) X(lease, 0) X(nofwd, 0)           \
  X(maxmsg, -1) X(maxcomm, 0) X(maxunc, 0) X(inflight, 64)                     \
  X(smode, 0) X(interleave, 0) X(debuglog, 0)                                  \
  X(lat, 100) X(jit, 100) X(rdelay, 0) X(pdelay, 0) X(adelay, 0)               \
  X(drop, 0) X(dup, 0) X(reord, 0) X(reordmax, 5000) X(flyblock, 500)          \
  X(tornp, 500) X(losehs, 500) X(snap_every, 0) X(snap_keep, 0)                \
  X(horizon, 200000) X(stop_removed, 0) X(unreach, 0) X(skew, 0)               \
  X(fate_from, 0) X(fate_to, 1000000000) X(heal, 1) X(hold, 0) X(startne, 0)  \
  X(duprd, 0) X(fifo, 0) X(base, 1) X(bterm, 1) X(hetero, 0) X(race, 0) X(cctx, 0) X(quiesce, 0) X(stayjoint, 0) X(resnap, 0)

struct Cfg {
#define X(n, d) int64_t n = d;
  CFG_FIELDS(X)
#undef X
};

enum Shape { kMix = 0, kRounds, kStable, kMember, kSnap, kTransfer, kFlow, kLease, kQuiet, kDuel, kTails, kNumShape };

enum OpKind {
  OP_PROPOSE = 0,  // node, size
  OP_BATCH,        // node, count, size, nonzero: with membership changes in it
  OP_READ,         // node
  OP_CONF,         // node(selector), what, seed, transition
  OP_LEAVE,        // node
  OP_TRANSFER,     // node(receiver of call), target selector
  OP_CAMPAIGN,     // node
  OP_CRASH,        // node, downtime
  OP_CRASHALL,     // downtime base, spread
  OP_PART,         // mask of group A (node ids), duration
  OP_ONEWAY,       // from, to(0=all), duration
  OP_ISOL,         // node, duration
  OP_LOSSY,        // permille, duration
  OP_SLOW,         // node, stage delay units, duration
  OP_SKEW,         // node, tick period units, duration
  OP_STALL,        // node, duration
  OP_JUMP,         // node, ticks
  OP_SNAP,         // node, keep
  OP_SNAPUNAVAIL,  // node, duration
  OP_TRIG,         // node, what (+100: cut off, +200: cut along a membership change, +300: deaf, +400: held back), k, down or cut time
  OP_REPLAY,       // selector hash, count
  OP_BADMSG,       // node, what
  OP_UNREACH,      // node, peer
  OP_DELAYLINK,    // from, to, extra, duration
  OP_TRANSFERQ,    // target selector
  OP_STABLE,       // duration
  OP_DISTURB,      // what, dur (only meaningful inside a STABLE window)
  OP_PROPBURST,    // node, count, size
  OP_ISOLDEST,     // node (outgoing works, incoming blocked), duration
  OP_REMOVELEADER, // -
  OP_SYNTH,        // leader selector, target selector, what, seed: a further legal message of that leader
  OP_NUM
};
extern const char* const kOpName[OP_NUM];

struct Op {
  int64_t t = 0;
  int kind = 0;
  int64_t a = 0, b = 0, c = 0, d = 0;
};

constexpr int kNumProp = 27;

struct Plan {
  int prop = 0;        // target property 1..kNumProp
  uint64_t seed = 1;
  Cfg cfg;
  std::vector<Op> ops;
  std::set<std::tuple<int, int, int64_t>> nofault;  // link faults switched off (from,to,seq)
  // expectation recorded in replay files
  std::string build;   // empty, or "asan": which binary replays it
  std::string expect_code;
  uint64_t expect_hash = 0;
};

// node selectors
constexpr int64_t kSelLeader = -1, kSelFollower = -2, kSelAny = -3, kSelOldLeader = -4, kSelVoter = -5, kSelLearner = -6, kSelDiverged = -7;

Plan gen_plan(int prop, uint64_t seed);
std::string plan_to_text(const Plan& p);
bool plan_from_text(const std::string& s, Plan* p, std::string* err);
const char* shape_name(int s);

}  // namespace sim
