// Runtime support: PRNG, hashing, control of the library's randomness, and
// containment of the library's fatal paths (fatal log, assert, signals,
// runaways) at the boundary of each API call.
#pragma once
#include <setjmp.h>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>

namespace rt {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hc(uint64_t h, uint64_t v) { return mix(h * 0x100000001b3ull ^ v); }
inline uint64_t hs(const void* p, size_t n, uint64_t h = 0x1234567) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  while (n >= 8) {
    uint64_t v;
    memcpy(&v, c, 8);
    h = hc(h, v);
    c += 8;
    n -= 8;
  }
  uint64_t v = 0;
  if (n) memcpy(&v, c, n);
  return hc(h, v ^ (static_cast<uint64_t>(n) << 56));
}
inline uint64_t hs(const std::string& s, uint64_t h = 0x1234567) {
  return hc(hs(s.data(), s.size(), h), s.size());
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // [lo, hi]
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int64_t>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool chance(int permille) { return static_cast<int>(next() % 1000) < permille; }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[next() % N]; }
};

enum PanicKind { kNoPanic = 0, kFatalLog, kAssert, kSignal, kException, kRunaway };
struct Panic {
  PanicKind kind = kNoPanic;
  char what[240] = {0};
};

// Runs fn; returns false and fills *p if the library panicked inside.
bool guarded(const std::function<void()>& fn, Panic* p);
[[noreturn]] void raise_fatal(const char* msg);  // used by the logger
void install(double cpu_limit_s);
bool in_guard();
uint64_t live_bytes();              // heap in use
void histogram(uint64_t* sizes);     // count blocks freed, by size / 16 (developer aid)
void track(bool on);                // follow what is allocated inside library calls ...
uint64_t tracked(uint64_t* count);  // ... and is not freed

// Randomness of the library under test.
void seed_device(uint64_t seed);           // what std::random_device yields
struct GenState { bool init = false; alignas(16) unsigned char raw[5200]; };
bool gen_swappable();
void gen_load(GenState* st, uint64_t seed);  // make st the library's generator
void gen_save(GenState* st);

}  // namespace rt
