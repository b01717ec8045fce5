// Independent reference for membership: configurations as bit sets.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#include "src/raftpb/raft.pb.h"

namespace sim {

struct RefCfg {
  uint64_t in = 0, out = 0, lrn = 0, lnext = 0;
  bool autol = false;
  bool operator==(const RefCfg& o) const {
    return in == o.in && out == o.out && lrn == o.lrn && lnext == o.lnext && autol == o.autol;
  }
  bool operator!=(const RefCfg& o) const { return !(*this == o); }
  bool joint() const { return out != 0; }
  uint64_t voters() const { return in | out; }
  uint64_t all() const { return in | out | lrn | lnext; }
  std::string str() const;
};

inline int popc(uint64_t x) { return __builtin_popcountll(x); }
inline uint64_t bit(uint64_t id) { return id < 64 ? 1ull << id : 0; }
// true if set s holds a majority of every non-empty half
inline bool majority(const RefCfg& c, uint64_t s) {
  if (c.in == 0 && c.out == 0) return false;
  if (c.in && popc(c.in & s) * 2 <= popc(c.in)) return false;
  if (c.out && popc(c.out & s) * 2 <= popc(c.out)) return false;
  return true;
}

struct RefChange { int type; uint64_t id; };  // type: raftpb::ConfChangeType
struct RefCC {
  int transition = 0;
  std::vector<RefChange> ch;
  bool leave() const { return ch.empty() && transition == 0; }
};

// Applies cc to *c. Returns false (leaving *c alone) if the rules reject it.
bool ref_apply(RefCfg* c, const RefCC& cc);
bool ref_parse(int entry_type, const std::string& data, RefCC* out);
RefCfg ref_from(const raftpb::ConfState& cs);
void ref_to(const RefCfg& c, raftpb::ConfState* cs);

}  // namespace sim
