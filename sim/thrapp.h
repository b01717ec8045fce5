// Interface between the thread simulator (thrsim.cc) and the multi-threaded
// application it runs (thrapp.cc).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace thr {

constexpr int kMaxT = 7;  // thread 0 is the set-up, 1..6 run the application

enum Kind { kTick, kCampaign, kRecv, kPropose, kConf, kRead, kTransfer, kReady, kFinish, kStatus, kReport, kRestart, kWriter, kSnap, kSread, kLook, kKinds };
extern const char* const kNames[kKinds];

struct Op {
  int kind = 0;
  uint64_t n = 0, a = 0, b = 0;  // node, arguments
};

struct Plan {
  // indep: every thread has its own group of nodes.  Otherwise one group.
  int indep = 0;
  std::vector<int> groups;  // nodes per group
  int shared = 0;           // several threads use a node, under its lock
  int pointers = 0;         // messages are handed over without serialising them
  int writers = 0;          // threads that store and send
  int election = 4, heartbeat = 1, prevote = 0, checkq = 0, lease = 0, fwd = 1, inflight = 4;
  uint64_t maxsize = 200, maxcommit = 0, maxuncommitted = 0;
  int behind = 0;           // the last node of a group needs a snapshot at first
  int level = 0;            // of the log
  int only = 0;             // run just this thread
  std::vector<Op> th[kMaxT];
  int nodes() const {
    int s = 0;
    for (int g : groups) s += g;
    return s;
  }
};

// ---- the simulator
int self();
void fail(const char* code, const std::string& what);
void saw(uint64_t h);                       // becomes part of what this thread saw
void applied(int group, uint64_t node, uint64_t index, uint64_t hash);
void leads(int group, uint64_t node, uint64_t term);
void set_flag(volatile int* f);
void clear_flag(volatile int* f);
void wait_flag(const volatile int* f);      // until it is set
void count(int what, uint64_t n = 1);
enum { kReadys, kMessages, kApplies, kSnapshots, kSnapsSent, kRestored, kCompactions, kStatuses, kElected, kConfs, kJobs, kReads, kHeld, kLines, kCounts };
extern const char* const kCountNames[kCounts];
void line_begin();
void line_end();
struct Quiet {  // no preemption, nothing recorded
  bool o;
  Quiet();
  ~Quiet();
};

// ---- the application
void warm_up();
void setup(const Plan& p);
void run_op(int t, const Op& o);
void thread_done(int t);
void finish();   // after the last thread
void forget();

}  // namespace thr
