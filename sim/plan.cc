// Plan generation (one seed -> one plan) and the replay file format.
#include "plan.h"

#include <inttypes.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sstream>

#include "rt.h"

namespace sim {

const char* const kOpName[OP_NUM] = {
    "PROPOSE", "BATCH", "READ", "CONF", "LEAVE", "TRANSFER", "CAMPAIGN", "CRASH", "CRASHALL", "PART", "ONEWAY",
    "ISOL", "LOSSY", "SLOW", "SKEW", "STALL", "JUMP", "SNAP", "SNAPUNAVAIL", "TRIG", "REPLAY", "BADMSG", "UNREACH",
    "DELAYLINK", "TRANSFERQ", "STABLE", "DISTURB", "PROPBURST", "ISOLDEST", "REMOVELEADER", "SYNTH"};

static const char* const kShapeName[kNumShape] = {"mix", "rounds", "stable", "member", "snap", "transfer", "flow", "lease", "quiet", "duel", "tails"};
const char* shape_name(int s) { return s >= 0 && s < kNumShape ? kShapeName[s] : "?"; }

namespace {

// property -> weight of each shape
//                        mix rnd stb mem snp trf flw lse qui due tai
const int kWeights[kNumProp + 1][kNumShape] = {
    {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1},
    {20, 40, 0, 20, 5, 15, 0, 0, 0, 30, 5},    // 1
    {20, 35, 0, 20, 15, 5, 5, 0, 0, 8, 10},    // 2
    {15, 40, 0, 20, 15, 5, 5, 0, 0, 8, 10},    // 3
    {20, 35, 0, 15, 15, 10, 5, 0, 0, 6, 15},   // 4
    {30, 30, 0, 15, 20, 5, 0, 0, 0, 12, 0},    // 5
    {30, 15, 0, 15, 20, 5, 15, 0, 0, 5, 5},   // 6
    {25, 45, 0, 20, 5, 5, 0, 0, 0, 8, 0},     // 7
    {25, 25, 0, 10, 10, 15, 15, 0, 0, 4, 0},  // 8
    {10, 5, 0, 65, 15, 5, 0, 0, 0, 0, 0},     // 9
    {25, 35, 0, 30, 5, 5, 0, 0, 0, 20, 10},     // 10
    {10, 5, 0, 15, 70, 0, 0, 0, 0, 0, 4},     // 11
    {20, 15, 5, 15, 15, 10, 15, 0, 5, 5, 5},  // 12
    {15, 15, 60, 5, 0, 5, 0, 0, 0, 0, 0},     // 13
    {5, 5, 0, 5, 0, 45, 0, 0, 40, 0, 0},      // 14
    {10, 0, 0, 5, 10, 5, 70, 0, 0, 0, 0},     // 15
    {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1},        // 16 (own harness)
    {25, 15, 0, 20, 20, 10, 10, 0, 0, 6, 5},  // 17
    {5, 5, 0, 80, 10, 0, 0, 0, 0, 0, 0},      // 18
    {25, 15, 0, 15, 35, 5, 5, 0, 0, 4, 4},    // 19
    {0, 0, 0, 0, 0, 0, 0, 100, 0, 0, 0},      // 20
    {25, 20, 20, 15, 10, 5, 0, 0, 5, 5, 0},   // 21
    {20, 25, 0, 20, 20, 5, 10, 0, 0, 6, 5},   // 22
    {20, 15, 5, 20, 20, 8, 12, 0, 3, 5, 3},   // 23
    {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1},        // 24 (own harness)
    {20, 10, 5, 20, 15, 10, 15, 5, 3, 3, 4},  // 25
    {20, 15, 5, 20, 15, 8, 12, 3, 3, 3, 3},   // 26
    {15, 25, 0, 5, 5, 5, 5, 0, 0, 5, 60},  // 27
};

struct Gen {
  rt::Rng r;
  Plan p;
  int prop;
  int mixed_pm = 0;
  explicit Gen(int pr, uint64_t seed) : r(rt::hc(rt::mix(seed), static_cast<uint64_t>(pr) * 7919 + 17)), prop(pr) {}

  int64_t R(int64_t a, int64_t b) { return r.range(a, b); }
  bool ch(int pm) { return r.chance(pm); }
  void op(int64_t t, int k, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
    if (t < 0) t = 0;
    Op o;
    o.t = t; o.kind = k; o.a = a; o.b = b; o.c = c; o.d = d;
    p.ops.push_back(o);
  }
  int64_t E() { return p.cfg.E * kTick; }
  int64_t n() { return p.cfg.n_init + p.cfg.n_learn + p.cfg.n_extra; }

  void timing() {
    Cfg& c = p.cfg;
    static const int64_t es[] = {3, 4, 5, 6, 8, 10};
    c.E = r.pick(es);
    c.H = c.E >= 4 && ch(300) ? 2 : 1;
    switch (R(0, 3)) {
      case 0: c.lat = R(1, 20); c.jit = R(0, 30); break;
      case 1: c.lat = R(50, 200); c.jit = R(0, 300); break;
      case 2: c.lat = R(100, 400); c.jit = R(100, 900); break;
      default: c.lat = R(1, 100); c.jit = R(0, 200); break;
    }
    switch (R(0, 3)) {
      case 0: break;
      case 1: c.pdelay = R(1, 100); c.adelay = R(0, 100); break;
      case 2: c.pdelay = R(50, 600); c.adelay = R(0, 200); c.rdelay = R(0, 50); break;
      default: c.pdelay = R(0, 50); c.adelay = R(100, 900); break;
    }
    c.prevote = ch(400);
    c.checkq = ch(400);
    c.interleave = ch(500);
    c.debuglog = ch(100);
  }
  void net() {
    Cfg& c = p.cfg;
    c.drop = ch(600) ? R(0, 120) : 0;
    c.dup = ch(500) ? R(0, 150) : 0;
    c.reord = ch(600) ? R(0, 200) : 0;
    c.reordmax = ch(300) ? R(4, 30) * kTick : R(1, 5) * kTick;
    c.flyblock = R(0, 2) * 500;
    c.unreach = ch(400) ? R(100, 1000) : 0;
    if (ch(250)) c.skew = R(20, 400);
  }
  void disk() {
    Cfg& c = p.cfg;
    c.tornp = R(0, 4) * 250;
    c.losehs = R(0, 4) * 250;
    c.smode = ch(300);
    c.startne = ch(prop == 5 ? 400 : 200);
  }
  void limits() {
    Cfg& c = p.cfg;
    static const int64_t mm[] = {-1, -1, 0, 64, 256, 2048};
    c.maxmsg = r.pick(mm);
    static const int64_t mc[] = {0, 0, 0, 40, 256};
    c.maxcomm = r.pick(mc);
    static const int64_t mu[] = {0, 0, 0, 64, 400, 4000};
    c.maxunc = r.pick(mu);
    static const int64_t inf[] = {1, 2, 3, 8, 64, 256};
    c.inflight = r.pick(inf);
  }
  void snapcfg(int pm) {
    Cfg& c = p.cfg;
    if (ch(pm)) {
      c.snap_every = R(2, 20);
      c.snap_keep = ch(500) ? 0 : R(0, 10);
    }
  }
  void size(int max) {
    Cfg& c = p.cfg;
    static const int64_t s[] = {1, 2, 3, 3, 3, 3, 4, 5, 5, 7};
    do c.n_init = r.pick(s); while (c.n_init > max);
    if (max >= 7 && ch(60)) c.n_init = R(8, 10);
    c.n_learn = 0;
    c.boot = ch(300);
    if (c.boot && ch(400)) c.n_learn = R(1, 2);
  }

  int64_t node_sel(int leader_pm = 500) {
    if (ch(leader_pm)) return kSelLeader;
    switch (R(0, 4)) {
      case 0: return kSelFollower;
      case 1: return kSelOldLeader;
      case 2: return R(1, n());
      default: return kSelAny;
    }
  }
  int64_t sz() {
    switch (R(0, 5)) {
      case 0: return 0;
      case 1: return R(1, 8);
      case 2: return R(100, 600);
      default: return R(8, 40);
    }
  }
  // a steady stream of client work in [a,b)
  void work(int64_t a, int64_t b, int64_t gap, int reads_pm, int lead_pm = 650) {
    for (int64_t t = a + R(0, gap); t < b; t += R(1, 2 * gap)) {
      if (ch(reads_pm)) op(t, OP_READ, node_sel(lead_pm));
      else if (ch(80)) op(t, OP_BATCH, node_sel(lead_pm), R(2, 5), R(1, 60), ch(mixed_pm) ? static_cast<int64_t>(r.next() >> 2) | 1 : 0);
      else if (ch(40)) op(t, OP_PROPBURST, node_sel(lead_pm), R(2, 12), R(4, 80));
      else op(t, OP_PROPOSE, node_sel(lead_pm), sz());
    }
  }
  int64_t dur(int lo = 1, int hi = 8) { return R(lo, hi) * E() / 2; }
  void crash_trigger(int64_t t) {
    op(t, OP_TRIG, ch(500) ? 0 : R(1, n()), R(0, 12), R(1, 6), ch(400) ? R(0, 2 * kTick) : dur(1, 8));
  }
  void cut_trigger(int64_t t) {
    static const int64_t acts[] = {100, 100, 300, 400};
    op(t, OP_TRIG, ch(500) ? 0 : R(1, n()), r.pick(acts) + R(0, 12), R(0, 6), dur(1, 8));
  }
  void swap_conf(int64_t t) {
    op(t - R(1, 300), OP_TRIG, 0, 209, ch(800) ? 0 : R(1, 2), R(1, 5) * E());
    op(t, OP_CONF, kSelLeader, 10, static_cast<int64_t>(r.next() >> 2), R(0, 2));
  }
  void one_conf(int64_t t) {
    int w;
    switch (R(0, 11)) {
      case 0: case 1: w = 0; break;
      case 2: w = 1; break;
      case 3: w = 2; break;
      case 4: case 5: w = 3; break;
      case 6: w = 4; break;
      case 7: case 8: w = 5; break;
      case 9: w = 8; break;
      case 10: w = ch(300) ? 6 : ch(500) ? 10 : 7; break;
      default: w = 9; break;
    }
    op(t, OP_CONF, node_sel(800), w, static_cast<int64_t>(r.next() >> 2), R(0, 2));
  }
  void synth(int64_t t) { op(t, OP_SYNTH, ch(850) ? kSelLeader : kSelOldLeader, ch(400) ? kSelDiverged : ch(700) ? kSelAny : R(1, n()), R(0, 9), static_cast<int64_t>(r.next() >> 2)); }
  void synths(int max) {
    if (!ch(450)) return;
    for (int64_t i = R(1, max); i > 0; i--) {
      int64_t t = R(3 * E(), p.cfg.horizon);
      for (int64_t k = ch(300) ? R(2, 6) : 1; k > 0; k--) synth(t + R(0, kTick));
    }
  }
  // one random fault at t
  void one_fault(int64_t t) {
    switch (R(0, 21)) {
      case 0: case 1: op(t, OP_CRASH, node_sel(400), ch(300) ? R(0, kTick) : dur()); break;
      case 2: op(t, OP_CRASHALL, R(0, 2 * kTick), R(0, 3) * E()); break;
      case 3: case 4: op(t, OP_PART, static_cast<int64_t>(r.next() % (1u << (n() + 1))), dur(2, 10)); break;
      case 5: op(t, OP_ONEWAY, node_sel(400), ch(400) ? 0 : R(1, n()), dur(2, 8)); break;
      case 6: case 7: op(t, OP_ISOL, node_sel(700), dur(2, 10)); break;
      case 8: op(t, OP_ISOLDEST, node_sel(400), dur(2, 8)); break;
      case 9: op(t, OP_LOSSY, R(100, 800), dur(2, 8)); break;
      case 10: op(t, OP_SLOW, node_sel(400), R(100, 4000), dur(2, 10)); break;
      case 11: op(t, OP_SKEW, node_sel(400), ch(500) ? R(200, 800) : R(1300, 4000), dur(2, 10)); break;
      case 12: op(t, OP_STALL, node_sel(500), dur(1, 8)); break;
      case 13: op(t, OP_JUMP, node_sel(200), R(1, 3 * p.cfg.E)); break;
      case 14: case 15: crash_trigger(t); break;
      case 16: cut_trigger(t); break;
      case 17: op(t, OP_REPLAY, 0, R(1, 12)); break;
      case 18: op(t, OP_DELAYLINK, node_sel(500), ch(500) ? 0 : R(1, n()), R(1, 10) * kTick, dur(1, 6)); break;
      case 19: op(t, OP_UNREACH, node_sel(800), R(1, n())); break;
      case 20: op(t, OP_CAMPAIGN, ch(500) ? kSelFollower : kSelAny); break;
      default: op(t, OP_TRANSFER, node_sel(800), ch(700) ? kSelVoter : R(1, n())); break;
    }
  }

  void mix() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); limits(); size(5); snapcfg(400);
    if (ch(300)) c.n_extra = R(1, 2);
    c.nofwd = ch(150) ? R(1, 2) : 0;
    c.stop_removed = ch(300);
    c.horizon = R(20, 60) * E();
    synths(30);
    if (c.n_extra) mixed_pm = 300;
    work(2 * E(), c.horizon, R(300, 3000), 250);
    int nf = static_cast<int>(R(3, 18));
    for (int i = 0; i < nf; i++) one_fault(R(E(), c.horizon));
    if (c.n_extra || ch(300))
      for (int i = static_cast<int>(R(1, 5)); i > 0; i--) one_conf(R(3 * E(), c.horizon));
    if (c.snap_every || ch(200))
      for (int i = static_cast<int>(R(0, 3)); i > 0; i--) op(R(3 * E(), c.horizon), OP_SNAP, node_sel(), R(0, 6));
    for (int i = static_cast<int>(R(0, 4)); i > 0; i--) op(R(2 * E(), c.horizon), OP_BADMSG, node_sel(), R(0, 1));
  }

  // Rounds aimed at leadership change in awkward states: cut off or kill the
  // leader right after it took proposals, let the others move on, bring it back.
  void rounds() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); limits(); size(7); snapcfg(250);
    if (ch(600)) { c.drop = ch(500) ? 0 : R(0, 60); c.reord = ch(500) ? 0 : c.reord; }
    if (ch(500)) c.n_init = ch(600) ? 3 : 5;
    if (c.n_init < 2) c.n_init = 3;
    if (prop == 7 && ch(700)) { c.drop = 0; }
    int rounds = static_cast<int>(R(3, 9));
    int64_t t = 4 * E();
    bool syn = ch(400);
    for (int i = 0; i < rounds; i++) {
      int64_t len = R(3, 9) * E();
      work(t, t + len, R(200, 1500), prop == 7 ? 600 : 200, 500);
      int64_t t0 = t + R(0, E());
      int64_t d = R(3, 10) * E() / 2;
      // proposals that only the cut-off leader has
      int64_t cut = t0 + R(0, 300);
      switch (R(0, prop == 6 || prop == 5 ? 12 : 9)) {
        case 10: case 11: case 12:
        case 9: {  // leader with a write in flight loses its leadership meanwhile
          c.interleave = 1;
          op(cut - R(0, 300), OP_SLOW, kSelLeader, R(1, 5) * E(), R(3, 8) * E());
          for (int64_t j = R(1, 6); j > 0; j--) op(cut + R(-400, 600), OP_PROPOSE, kSelLeader, sz());
          op(cut + R(0, 500), OP_ISOL, kSelLeader, R(2, 7) * E() / 2);
          for (int64_t j = R(0, 8); j > 0; j--) op(cut + R(E(), 4 * E()), OP_PROPOSE, kSelLeader, sz());
          break;
        }
        case 0: case 1: op(cut, OP_ISOL, kSelLeader, d); break;
        case 2: op(cut, OP_CRASH, kSelLeader, d); break;
        case 3: {  // leader keeps a minority
          op(cut, OP_PART, static_cast<int64_t>(r.next() % (1u << (n() + 1))), d);
          break;
        }
        case 4: op(cut, OP_STALL, kSelLeader, d); break;
        case 5: op(cut, OP_ISOLDEST, kSelLeader, d); break;
        case 6: op(cut, OP_DELAYLINK, kSelLeader, 0, R(2, 12) * kTick, d); break;
        case 7: crash_trigger(cut); break;
        case 8: op(cut, OP_ONEWAY, kSelLeader, 0, d); break;
      }
      int k = static_cast<int>(R(0, 4));
      for (int j = 0; j < k; j++) {
        int64_t x = cut + R(-200, d);
        op(x, ch(400) ? OP_READ : OP_PROPOSE, ch(600) ? kSelOldLeader : kSelLeader, sz());
      }
      if (ch(400)) op(cut + R(0, d), OP_CAMPAIGN, ch(700) ? kSelFollower : kSelAny);
      if (syn)
        for (int64_t k2 = R(1, 8); k2 > 0; k2--) synth(cut + (ch(500) ? R(0, 2 * d) : d + R(-kTick, 3 * kTick)));
      if (ch(300)) op(cut + R(0, d), OP_REPLAY, 0, R(1, 10));
      if (ch(300)) crash_trigger(cut + R(0, d));
      if (ch(200)) cut_trigger(cut + R(0, d));
      if (ch(250)) op(cut + d + R(-300, 300), OP_CRASH, ch(500) ? kSelOldLeader : kSelLeader, dur(1, 4));
      if (ch(200)) op(cut + R(0, d), OP_CRASHALL, R(0, kTick), R(0, 2) * E());
      if (ch(150)) op(cut + R(0, d), OP_JUMP, kSelFollower, R(1, 2 * c.E));
      t += len;
    }
    c.horizon = t + E();
  }

  // Two or three nodes campaign in the same term at about the same time, cut off
  // from each other, while the votes of the rest swing between them: voters
  // crash just after answering, requests arrive late, twice or again.
  void duel() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); snapcfg(150);
    c.prevote = ch(250);
    c.checkq = ch(450);
    c.n_init = ch(550) ? 3 : ch(500) ? 5 : ch(500) ? 4 : 2;
    c.boot = ch(200);
    if (c.boot && ch(300)) c.n_learn = 1;
    if (ch(600)) { c.lat = R(20, 200); c.jit = R(0, 200); c.drop = 0; c.reord = ch(500) ? 0 : R(0, 100); c.pdelay = R(0, 100); c.adelay = R(0, 100); }
    if (ch(500)) c.losehs = 1000;
    int64_t n0 = c.n_init;
    int rounds = static_cast<int>(R(4, 12));
    int64_t t = 3 * E();
    for (int i = 0; i < rounds; i++) {
      int64_t len = R(2, 5) * E();
      if (ch(800)) work(t - 2 * E(), t + len, R(300, 1500), 200, 600);
      // who duels, and who swings between them
      int64_t c1 = R(1, n0), c2 = c1, v = c1;
      for (int k = 0; k < 20 && c2 == c1; k++) c2 = R(1, n0);
      for (int k = 0; k < 20 && (v == c1 || v == c2); k++) v = R(1, n0);
      int64_t d = R(1, 8) * kTick;
      // the duellists do not hear each other (in time)
      switch (R(0, 3)) {
        case 0: op(t - 1, OP_ONEWAY, c1, c2, d); op(t - 1, OP_ONEWAY, c2, c1, d); break;
        case 1: case 2: op(t - 1, OP_DELAYLINK, c1, c2, R(1, 8) * kTick, d); op(t - 1, OP_DELAYLINK, c2, c1, R(1, 8) * kTick, d); break;
        default: break;
      }
      // and the swing voters hear one of them first
      for (int64_t x = 1; x <= n0; x++) {
        if (x == c1 || x == c2 || !ch(700)) continue;
        op(t - 1, OP_DELAYLINK, ch(500) ? c1 : c2, x, R(200, 6 * kTick), R(200, 2 * kTick));
      }
      if (n0 >= 4 && ch(400)) {  // split the rest between them
        int64_t g = 0;
        for (int64_t x = 1; x <= n0; x++)
          if (x == c1 || (x != c2 && x != v && ch(500))) g |= int64_t{1} << x;
        for (int64_t x = 1; x <= n0; x++)
          for (int64_t y = 1; y <= n0; y++)
            if (x != v && y != v && x != y && ((g >> x) & 1) != ((g >> y) & 1)) op(t - 1, OP_ONEWAY, x, y, d);
      }
      switch (R(0, 5)) {
        case 0: op(t - R(0, 2 * kTick), OP_CRASH, kSelLeader, R(0, 4) * E() / 2); break;
        case 1: op(t - R(0, 2 * kTick), OP_ISOL, kSelLeader, R(1, 4) * E() / 2); break;
        case 2: op(t - R(0, kTick), OP_CRASHALL, R(0, kTick / 2), 0); break;
        default: break;
      }
      op(t, OP_CAMPAIGN, c1);
      op(t + (ch(500) ? R(0, 50) : R(0, 2 * kTick)), OP_CAMPAIGN, c2);
      if (ch(250)) op(t + R(0, kTick), OP_CAMPAIGN, kSelAny);
      for (int64_t j = R(0, 3); j > 0; j--) {
        static const int64_t kinds[] = {12, 12, 12, 12, 8, 3, 1, 7, 6};
        op(t - R(0, 100), OP_TRIG, ch(700) ? v : ch(500) ? 0 : ch(500) ? c1 : c2, r.pick(kinds), ch(700) ? 0 : R(1, 3), ch(600) ? R(0, 300) : R(0, 3 * kTick));
      }
      if (ch(250)) op(t + R(0, 2 * kTick), OP_CRASH, ch(700) ? v : kSelAny, R(0, kTick));
      if (ch(250)) op(t + R(100, 4 * kTick), OP_REPLAY, 0, R(1, 10));
      if (ch(150)) op(t + R(0, kTick), OP_JUMP, ch(500) ? c1 : kSelFollower, R(1, 2 * c.E));
      if (ch(150)) op(t + R(0, 2 * kTick), OP_STALL, ch(500) ? v : kSelAny, R(1, 4) * kTick);
      if (ch(100)) op(t + R(0, kTick), OP_TRANSFER, kSelLeader, ch(500) ? c1 : c2);
      t += len;
    }
    c.horizon = t + E();
  }

  // A few contenders lead in turn, each cut off the moment it is elected, so
  // that each collects a long tail of entries of several terms nobody else has;
  // then the cluster comes together and one log has to prevail.
  void tails() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); limits(); snapcfg(200);
    c.prevote = ch(150);
    c.checkq = ch(250);
    c.lease = 0;
    c.n_init = ch(500) ? 5 : ch(500) ? 3 : 4;
    if (ch(500)) { c.lat = R(20, 200); c.jit = R(0, 200); c.drop = ch(500) ? 0 : c.drop; c.reord = ch(500) ? 0 : c.reord; c.pdelay = R(0, 100); c.adelay = R(0, 100); }
    int64_t n0 = c.n_init;
    int64_t t = 4 * E();
    for (int64_t big = R(1, 4); big > 0; big--) {
      work(t - E(), t + R(0, E()), R(300, 1500), 100, 600);
      t += E();
      int64_t who[3];
      int64_t k = R(2, 3);
      for (int64_t i = 0; i < k; i++) who[i] = R(1, n0);
      if (ch(500)) {
        // Each leads alone in turn, cut off until it is its turn again; it
        // restarts with its log kept and campaigns until it has caught up with
        // the others' terms.
        int64_t d = R(2, 6) * E() / 2, rounds = R(3, 9);
        int64_t big = ch(400) ? R(20, 100) : R(1, 12);
        for (int64_t i = 0; i < rounds; i++) {
          int64_t x = who[i % k];
          op(t, OP_CRASH, x, 0);
          op(t + 1, OP_TRIG, x, 106, 0, k * d - R(0, kTick));
          for (int64_t j = 0; j < 4; j++) op(t + kTick / 2 + j * E() / 6, OP_CAMPAIGN, x);
          for (int64_t j = R(1, 2); j > 0; j--) op(t + E() / 2 + R(0, d - E() / 2), OP_PROPBURST, x, R(1, big), R(1, 20));
          if (ch(50)) one_fault(t + R(0, d));
          t += d;
        }
        t += R(0, k) * d;
        if (ch(600)) op(t, OP_CAMPAIGN, who[R(0, k - 1)]);
        t += R(2, 6) * E();
        continue;
      }
      int64_t last = -1;
      for (int64_t rounds = R(3, 9); rounds > 0; rounds--) {
        int64_t x = who[R(0, k - 1)];
        if (x == last && ch(700)) x = who[R(0, k - 1)];
        last = x;
        int64_t d = R(1, 4) * E() / 2;
        op(t, OP_TRIG, x, 106, 0, d);
        op(t + 1, OP_CAMPAIGN, x);
        if (ch(400)) op(t + R(1, E() / 2), OP_CAMPAIGN, x);
        for (int64_t j = R(1, 3); j > 0; j--) op(t + R(kTick / 2, d), OP_PROPBURST, x, R(1, 9), R(1, 40));
        if (ch(150)) op(t + d - R(0, kTick), OP_CRASH, x, R(0, 2) * kTick);
        if (ch(100)) one_fault(t + R(0, d));
        t += d + R(0, kTick);
      }
      if (ch(300)) op(t, OP_CAMPAIGN, ch(600) ? who[R(0, k - 1)] : kSelAny);
      if (ch(200)) op(t + R(0, E()), OP_REPLAY, 0, R(1, 10));
      if (ch(200)) one_fault(t + R(0, 2 * E()));
      if (ch(200)) one_conf(t + R(0, 2 * E()));
      t += R(2, 6) * E();
    }
    c.horizon = t + E();
  }

  void stable() {
    Cfg& c = p.cfg;
    timing();
    c.H = 1;
    c.E = R(4, 10);
    c.prevote = c.checkq = 1;
    c.lat = R(1, 200); c.jit = R(0, 300);
    c.pdelay = R(0, 100); c.adelay = R(0, 100); c.rdelay = 0;
    if (ch(400)) { c.drop = R(0, 100); c.reord = R(0, 100); c.reordmax = R(1, 4) * kTick; c.dup = R(0, 100); }
    c.skew = 0;
    disk();
    size(5);
    if (ch(800)) c.n_init = ch(500) ? 3 : 5;
    limits();
    snapcfg(250);
    int64_t t = 4 * E();
    int w = static_cast<int>(R(1, 3));
    for (int i = 0; i < w; i++) {
      // some history before the window
      work(t, t + 3 * E(), R(300, 1500), 100, 800);
      int nf = static_cast<int>(R(0, 3));
      for (int j = 0; j < nf; j++) {
        int64_t x = t + R(0, 2 * E());
        switch (R(0, 4)) {
          case 0: op(x, OP_ISOL, kSelAny, dur(2, 5)); break;
          case 1: op(x, OP_CRASH, node_sel(300), dur(1, 4)); break;
          case 2: op(x, OP_CAMPAIGN, kSelFollower); break;
          case 3: op(x, OP_TRANSFER, kSelLeader, kSelVoter); break;
          default: op(x, OP_CRASHALL, 0, E()); break;
        }
      }
      t += 6 * E();
      // outsiders cut off just before, so that they come back during the window
      if (ch(500)) op(t - R(0, E()), OP_ISOL, kSelFollower, R(3, 14) * E());
      int64_t d = R(6, 25) * E();
      op(t, OP_STABLE, d);
      int64_t a = t + 3 * E(), b = t + 3 * E() + 12 * kTick + d;
      work(a, b, R(500, 4000), 200, 800);
      int k = static_cast<int>(R(1, 8));
      for (int j = 0; j < k; j++) op(R(a, b), OP_DISTURB, R(0, 7), R(1, 8) * E() / 2);
      t = b + E();
      if (ch(500)) {  // what must happen when the leader is cut off
        op(t, OP_ISOL, kSelLeader, R(3, 8) * E());
        work(t, t + 4 * E(), 800, 200, 500);
        t += 8 * E();
      }
    }
    c.horizon = t + E();
  }

  void member() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); limits();
    c.n_init = R(1, 4);
    c.boot = ch(400);
    if (c.boot) c.n_learn = R(0, 2);
    c.n_extra = R(1, 5);
    if (n() > 9) c.n_extra = 9 - c.n_init - c.n_learn;
    if (ch(500)) { c.drop /= 4; c.reord /= 2; }
    snapcfg(500);
    c.stop_removed = ch(500);
    c.nofwd = ch(100) ? R(1, 2) : 0;
    c.horizon = R(25, 70) * E();
    synths(15);
    mixed_pm = 500;
    if (ch(400))
      for (int64_t i = R(1, 8); i > 0; i--) op(R(3 * E(), c.horizon), OP_BATCH, node_sel(850), R(1, 5), R(1, 60), static_cast<int64_t>(r.next() >> 2) | 1);
    work(2 * E(), c.horizon, R(500, 3000), prop == 7 ? 500 : 150, 700);
    int k = static_cast<int>(R(4, 22));
    bool swaps = ch(300);
    if (swaps) {
      c.n_init = R(2, 4);
      c.n_extra = std::min<int64_t>(9 - c.n_init - c.n_learn, R(3, 6));
      k = static_cast<int>(R(2, 8));
      if (ch(600)) c.checkq = 0;
    }
    for (int i = 0; i < k; i++) {
      int64_t t = R(3 * E(), c.horizon);
      if (swaps && ch(600)) swap_conf(t);
      else one_conf(t);
      if (ch(300)) one_conf(t + R(0, 2 * kTick));       // while the first is pending
      if (ch(200)) crash_trigger(t - R(0, kTick));
      if (ch(150)) op(t + R(0, 2 * kTick), OP_ISOL, kSelLeader, dur(2, 8));
      if (ch(100)) op(t + R(0, 2 * kTick), OP_TRANSFER, kSelLeader, kSelVoter);
      if (ch(100)) op(t + R(0, 2 * kTick), OP_CAMPAIGN, kSelAny);
      if (ch(150)) op(t + R(0, 4 * kTick), OP_LEAVE, node_sel(800));
    }
    for (int i = static_cast<int>(R(0, 8)); i > 0; i--) one_fault(R(2 * E(), c.horizon));
    if (ch(300)) op(R(5 * E(), c.horizon), OP_REMOVELEADER);
    if (ch(200))
      for (int i = 0; i < 3; i++) op(R(2 * E(), c.horizon), OP_BADMSG, node_sel(), R(0, 1));
  }

  void snap() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); limits(); size(5);
    if (c.n_init < 2) c.n_init = 3;
    c.snap_every = R(2, 12);
    c.snap_keep = ch(600) ? 0 : R(0, 6);
    c.n_extra = ch(500) ? R(1, 2) : 0;
    c.horizon = R(30, 70) * E();
    synths(30);
    work(2 * E(), c.horizon, R(150, 900), 60, 800);
    int k = static_cast<int>(R(2, 8));
    for (int i = 0; i < k; i++) {
      int64_t t = R(3 * E(), c.horizon);
      int64_t d = R(2, 9) * E();
      switch (R(0, 4)) {
        case 0: op(t, OP_ISOL, kSelFollower, d); break;
        case 1: op(t, OP_CRASH, kSelFollower, d); break;
        case 2: op(t, OP_STALL, kSelFollower, d); break;
        case 3: op(t, OP_ISOLDEST, kSelFollower, d); break;
        default: op(t, OP_SLOW, kSelFollower, R(500, 5000), d); break;
      }
      int64_t back = t + d;
      if (ch(350)) op(back - R(0, 2 * kTick), OP_SNAPUNAVAIL, kSelLeader, R(1, 4) * E());
      if (ch(300)) op(back + R(-kTick, 2 * kTick), OP_LOSSY, R(200, 900), R(1, 3) * E());
      if (ch(300)) op(back + R(-kTick, kTick), OP_TRIG, 0, 10, R(1, 2), R(0, E()));
      if (ch(250)) op(back + R(-kTick, 3 * kTick), OP_CRASH, kSelLeader, dur(1, 6));
      if (ch(200)) op(back + R(-kTick, 3 * kTick), OP_UNREACH, kSelLeader, R(1, n()));
      if (ch(250)) op(back + R(0, 3 * kTick), OP_REPLAY, 0, R(2, 15));
      if (ch(300)) op(back + R(-kTick, 2 * kTick), OP_SNAP, node_sel(700), R(0, 3));
      if (ch(200)) op(back + R(-kTick, 2 * kTick), OP_DELAYLINK, kSelLeader, 0, R(2, 10) * kTick, dur(1, 4));
    }
    for (int i = static_cast<int>(R(0, 6)); i > 0; i--) one_fault(R(2 * E(), c.horizon));
    if (c.n_extra)
      for (int i = static_cast<int>(R(1, 5)); i > 0; i--) one_conf(R(4 * E(), c.horizon));
    for (int i = static_cast<int>(R(0, 5)); i > 0; i--) op(R(3 * E(), c.horizon), OP_SNAP, node_sel(), R(0, 8));
  }

  void transfer() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); limits(); size(5);
    if (c.n_init < 2) c.n_init = 3;
    if (ch(300)) c.n_extra = 1;
    snapcfg(250);
    if (ch(400)) { c.drop = 0; c.reord = 0; }
    c.horizon = R(25, 60) * E();
    work(2 * E(), c.horizon, R(200, 1500), 200, 750);
    int k = static_cast<int>(R(3, 14));
    for (int i = 0; i < k; i++) {
      int64_t t = R(3 * E(), c.horizon);
      int64_t tgt;
      switch (R(0, 7)) {
        case 0: tgt = R(1, n()); break;          // anyone, even itself
        case 1: tgt = kSelLearner; break;
        case 2: tgt = kSelLeader; break;
        case 3: tgt = n() + 2; break;            // unknown
        default: tgt = kSelVoter; break;
      }
      if (ch(300)) op(t - R(0, 2 * E()), OP_ISOL, kSelFollower, dur(2, 6));
      if (ch(150)) op(t - R(0, 2 * E()), OP_STALL, kSelFollower, dur(2, 6));
      if (ch(200)) op(t - R(0, E()), OP_SLOW, kSelFollower, R(500, 4000), dur(2, 6));
      op(t, OP_TRANSFER, node_sel(800), tgt);
      if (ch(300)) op(t + R(0, 2 * kTick), OP_TRANSFER, node_sel(800), ch(600) ? kSelVoter : tgt);
      if (ch(400)) op(t + R(0, kTick), OP_PROPOSE, node_sel(600), sz());
      if (ch(300)) op(t + R(0, 2 * E()), OP_PROPOSE, node_sel(600), sz());
      if (ch(200)) op(t + R(0, 3 * kTick), OP_CRASH, node_sel(400), dur(1, 5));
      if (ch(200)) op(t + R(0, 3 * kTick), OP_ISOL, kSelLeader, dur(2, 6));
      if (ch(150)) op(t + R(0, 3 * kTick), OP_REPLAY, 0, R(1, 8));
      if (ch(150)) one_conf(t + R(-2 * kTick, 2 * kTick));
      if (ch(120)) op(t + R(0, 2 * kTick), OP_CAMPAIGN, kSelFollower);
    }
    for (int i = static_cast<int>(R(0, 5)); i > 0; i--) one_fault(R(2 * E(), c.horizon));
  }

  void flow() {
    Cfg& c = p.cfg;
    timing(); net(); disk(); size(5);
    if (c.n_init < 2) c.n_init = 3;
    static const int64_t inf[] = {1, 1, 2, 3, 4, 6, 16};
    c.inflight = r.pick(inf);
    static const int64_t mm[] = {-1, 0, 1, 40, 100, 300, 1000};
    c.maxmsg = r.pick(mm);
    static const int64_t mc[] = {0, 0, 1, 40, 120, 600};
    c.maxcomm = r.pick(mc);
    static const int64_t mu[] = {0, 1, 30, 100, 300, 1000};
    c.maxunc = r.pick(mu);
    snapcfg(300);
    c.unreach = ch(600) ? R(100, 1000) : 0;
    c.horizon = R(20, 50) * E();
    synths(12);
    work(2 * E(), c.horizon, R(200, 1500), 60, 850);
    int k = static_cast<int>(R(3, 14));
    for (int i = 0; i < k; i++) {
      int64_t t = R(3 * E(), c.horizon);
      if (ch(600)) op(t + R(0, 2 * kTick), OP_PROPBURST, kSelLeader, R(4, 40), R(1, 100));
      if (ch(300)) op(t + R(0, 2 * kTick), OP_BATCH, kSelLeader, R(2, 10), R(1, 100));
      if (ch(300)) op(t, OP_LOSSY, R(200, 900), dur(1, 6));
      if (ch(250)) op(t, OP_STALL, kSelFollower, dur(1, 6));
      if (ch(250)) op(t, OP_ISOL, ch(700) ? kSelFollower : kSelLeader, dur(2, 8));
      if (ch(150)) op(t, OP_ONEWAY, kSelFollower, 0, dur(2, 8));
      if (ch(250)) op(t, OP_UNREACH, kSelLeader, R(1, n()));
      if (ch(200)) op(t, OP_SLOW, ch(500) ? kSelFollower : kSelLeader, R(300, 4000), dur(2, 8));
      if (ch(200)) op(t, OP_DELAYLINK, ch(500) ? kSelFollower : kSelLeader, 0, R(1, 8) * kTick, dur(1, 6));
      if (ch(150)) op(t, OP_CRASH, node_sel(400), dur(1, 6));
      if (ch(100)) op(t, OP_SNAPUNAVAIL, kSelLeader, dur(2, 6));
      if (ch(150)) op(t, OP_CAMPAIGN, kSelFollower);
      if (ch(100)) op(t, OP_TRANSFER, kSelLeader, kSelVoter);
    }
    for (int i = static_cast<int>(R(0, 4)); i > 0; i--) one_fault(R(2 * E(), c.horizon));
  }

  void lease() {
    Cfg& c = p.cfg;
    timing();
    c.lease = 1;
    c.checkq = 1;
    c.prevote = ch(500);
    c.H = 1;
    c.E = R(4, 10);
    c.lat = R(1, 150); c.jit = R(0, 200);
    c.pdelay = R(0, 60); c.adelay = R(0, 60); c.rdelay = 0;
    if (ch(500)) { c.drop = R(0, 150); c.dup = R(0, 100); }
    c.skew = 0;
    limits();
    c.nofwd = ch(100);
    size(5);
    if (ch(850)) c.n_init = ch(500) ? 3 : 5;
    c.horizon = R(25, 60) * E();
    bool hasty = ch(500);
    if (hasty && ch(700)) { c.lat = R(1, 60); c.jit = R(0, 60); c.drop = 0; c.pdelay = R(0, 30); c.adelay = R(0, 30); }
    if (hasty && ch(300)) c.H = 2;
    work(3 * E(), c.horizon, R(200, 900), 600, 500);
    int64_t t = 4 * E();
    while (t < c.horizon) {
      int64_t d = R(2, 10) * E() / 2;
      switch (R(0, 6)) {
        case 0: case 1: op(t, OP_ISOL, kSelLeader, d); break;
        case 2: op(t, OP_PART, static_cast<int64_t>(r.next() % (1u << (n() + 1))), d); break;
        case 3: op(t, OP_ISOLDEST, kSelLeader, d); break;
        case 4: op(t, OP_ONEWAY, kSelLeader, 0, d); break;
        case 5: op(t, OP_LOSSY, R(100, 800), d); break;
        default: op(t, OP_ISOL, kSelFollower, d); break;
      }
      if (hasty && ch(700)) {
        // The leader loses its followers one after the other, and is asked just
        // when the first of them may have replaced it.
        int64_t x = t + d + R(2, 4) * E();
        t = x;
        d = R(2, 5) * E();
        for (int64_t y = 1; y <= n(); y++) op(x + (ch(500) ? 0 : R(0, 3 * kTick)), OP_ONEWAY, kSelLeader, y, d);
        for (int64_t j = R(4, 12); j > 0; j--) op(x + E() + R(-2 * kTick, 4 * kTick), OP_READ, kSelOldLeader);
      }
      int k = static_cast<int>(R(2, 8));
      for (int i = 0; i < k; i++) {
        int64_t x = t + R(0, d + E());
        if (ch(600)) op(x, OP_READ, ch(700) ? kSelOldLeader : kSelLeader);
        else op(x, OP_PROPOSE, kSelLeader, sz());
      }
      t += d + R(1, 5) * E();
    }
  }

  void quiet() {
    Cfg& c = p.cfg;
    timing();
    c.E = R(10, 14);
    c.H = 1;
    c.lat = R(1, 100); c.jit = R(0, 150);
    c.pdelay = R(0, 100); c.adelay = R(0, 100); c.rdelay = 0;
    c.drop = c.dup = c.reord = c.skew = 0;
    disk(); limits(); size(5); snapcfg(300);
    if (c.n_init < 2) c.n_init = ch(500) ? 3 : 5;
    int64_t t = 3 * E();
    int rounds = static_cast<int>(R(2, 5));
    for (int i = 0; i < rounds; i++) {
      work(t, t + 2 * E(), R(400, 2000), 100, 800);
      int nf = static_cast<int>(R(0, 2));
      for (int j = 0; j < nf; j++) {
        int64_t x = t + R(0, 2 * E());
        switch (R(0, 5)) {
          case 0: op(x, OP_ISOL, kSelAny, E()); break;
          case 1: op(x, OP_CRASH, node_sel(400), R(0, E())); break;
          case 2: op(x, OP_TRANSFER, kSelLeader, kSelVoter); break;
          case 3: op(x, OP_CAMPAIGN, kSelFollower); break;
          case 4: one_conf(x); break;
          default: op(x, OP_STALL, node_sel(300), R(0, E())); break;
        }
      }
      t += 7 * E();
      int k = static_cast<int>(R(1, 3));
      for (int j = 0; j < k; j++) {
        op(t, OP_TRANSFERQ);
        t += 2 * E();
      }
      if (ch(400)) work(t - E(), t, 800, 100, 800);
    }
    c.horizon = t + E();
  }
};

}  // namespace

Plan gen_plan(int prop, uint64_t seed) {
  Gen g(prop, seed);
  const int* w = kWeights[prop >= 1 && prop <= kNumProp ? prop : 0];
  int tot = 0;
  for (int i = 0; i < kNumShape; i++) tot += w[i];
  int x = static_cast<int>(g.R(0, tot - 1)), s = 0;
  while (x >= w[s]) x -= w[s++];
  switch (s) {
    case kMix: g.mix(); break;
    case kRounds: g.rounds(); break;
    case kStable: g.stable(); break;
    case kMember: g.member(); break;
    case kSnap: g.snap(); break;
    case kTransfer: g.transfer(); break;
    case kFlow: g.flow(); break;
    case kLease: g.lease(); break;
    case kDuel: g.duel(); break;
    case kTails: g.tails(); break;
    default: g.quiet(); break;
  }
  g.p.cfg.shape = s;
  if (prop == 13 && s != kStable) {
    g.p.cfg.checkq = 1;
    if (g.ch(600)) g.p.cfg.prevote = 1;
  }
  if (prop == 21 && s != kStable && g.ch(300)) {
    // long enough alone to see many timeouts of one node
    int64_t t = g.R(2 * g.E(), g.p.cfg.horizon);
    g.p.cfg.prevote = 0;
    g.op(t, OP_ISOL, g.ch(500) ? kSelAny : kSelFollower, 80 * g.E());
    g.p.cfg.horizon = std::max(g.p.cfg.horizon, t + 81 * g.E());
  }
  if (prop == 7 && g.ch(60)) g.p.cfg.duprd = 1;
  if (prop == 8 && g.ch(200)) g.p.cfg.nofwd = 2;
  if ((s == kMix || s == kRounds || s == kMember || s == kSnap || s == kTransfer || s == kDuel) && g.ch(120)) g.p.cfg.hetero = 1;
  g.p.cfg.fifo = g.ch(550);
  if (g.ch(s == kSnap || prop == 11 || prop == 17 ? 500 : 250)) {
    // storage work of other application threads falls into library calls
    static const int64_t rs[] = {150, 500, 1000};
    g.p.cfg.race = g.r.pick(rs);
  }
  if (g.p.cfg.boot && g.ch(400)) {
    static const int64_t bs[] = {2, 1000, 70000, 5000000, (1ll << 31) - 20, (1ll << 32) - 20, 1ll << 40};
    static const int64_t bt[] = {1, 2, 9, 70000, (1ll << 31) - 3, (1ll << 32) - 3};
    g.p.cfg.base = g.r.pick(bs);
    g.p.cfg.bterm = g.r.pick(bt);
    if (g.p.cfg.bterm > g.p.cfg.base) g.p.cfg.bterm = g.p.cfg.base;
  }
  g.p.cfg.cctx = g.ch(400);
  if (g.ch(prop == 21 ? 350 : 100)) {
    static const int64_t qs[] = {30, 200, 700};
    g.p.cfg.quiesce = g.r.pick(qs);
  }
  g.p.cfg.stayjoint = g.ch(prop == 12 || prop == 25 ? 300 : 100);
  if (g.p.cfg.snap_every && g.ch(prop == 11 || prop == 6 ? 400 : 150)) {
    static const int64_t ns[] = {200, 600, 1000};
    g.p.cfg.resnap = g.r.pick(ns);
    if (g.ch(600)) g.p.cfg.interleave = 1;
    if (g.ch(600)) g.p.cfg.pdelay = std::max<int64_t>(g.p.cfg.pdelay, g.R(50, 2 * kTick));
  }
  g.p.prop = prop;
  g.p.seed = seed;
  std::stable_sort(g.p.ops.begin(), g.p.ops.end(), [](const Op& a, const Op& b) { return a.t < b.t; });
  return g.p;
}

std::string plan_to_text(const Plan& p) {
  std::ostringstream o;
  o << "raftsim-replay 1\n";
  o << "property C" << (p.prop < 10 ? "0" : "") << p.prop << "\n";
  o << "seed " << p.seed << "\n";
  if (!p.build.empty()) o << "build " << p.build << "\n";
  if (!p.expect_code.empty()) {
    char b[32];
    snprintf(b, sizeof b, "%016" PRIx64, p.expect_hash);
    o << "expect " << p.expect_code << " " << b << "\n";
  }
  o << "# configuration (shape " << shape_name(static_cast<int>(p.cfg.shape)) << ")\n";
  Cfg def;
#define X(n, d) o << "cfg " #n " " << p.cfg.n << "\n";
  CFG_FIELDS(X)
#undef X
  o << "# operations: time(1000 = one tick) name a b c d\n";
  for (auto& x : p.ops) o << "op " << x.t << " " << kOpName[x.kind] << " " << x.a << " " << x.b << " " << x.c << " " << x.d << "\n";
  if (!p.nofault.empty()) o << "# link faults (from to n-th message) the minimiser switched off\n";
  for (auto& x : p.nofault) o << "nofault " << std::get<0>(x) << " " << std::get<1>(x) << " " << std::get<2>(x) << "\n";
  return o.str();
}

bool plan_from_text(const std::string& s, Plan* p, std::string* err) {
  *p = Plan();
  std::istringstream in(s);
  std::string line;
  bool head = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "raftsim-replay") head = true;
    else if (k == "property") { std::string x; l >> x; p->prop = atoi(x.c_str() + 1); }
    else if (k == "seed") l >> p->seed;
    else if (k == "build") l >> p->build;
    else if (k == "expect") { std::string h; l >> p->expect_code >> h; p->expect_hash = strtoull(h.c_str(), nullptr, 16); }
    else if (k == "cfg") {
      std::string n; int64_t v;
      l >> n >> v;
      bool ok = false;
#define X(nm, d) if (n == #nm) { p->cfg.nm = v; ok = true; }
      CFG_FIELDS(X)
#undef X
      if (!ok) { *err = "unknown cfg " + n; return false; }
    } else if (k == "op") {
      Op o; std::string n;
      l >> o.t >> n >> o.a >> o.b >> o.c >> o.d;
      o.kind = -1;
      for (int i = 0; i < OP_NUM; i++) if (n == kOpName[i]) o.kind = i;
      if (o.kind < 0) { *err = "unknown op " + n; return false; }
      p->ops.push_back(o);
    } else if (k == "nofault") {
      int a, b; int64_t c;
      l >> a >> b >> c;
      p->nofault.insert(std::make_tuple(a, b, c));
    } else { *err = "unknown line " + line; return false; }
  }
  if (!head || p->prop < 1 || p->prop > kNumProp) { *err = "not a replay file"; return false; }
  return true;
}

}  // namespace sim
