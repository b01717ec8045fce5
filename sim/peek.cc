// Built with -fno-access-control. Swaps the library's per-thread generator so
// that each simulated node has its own random stream. If the generator has
// moved, the fallback is the shared stream (still fully determined by the seed,
// because every run starts in a fresh process with a seeded random_device).
#include <new>
#include <random>
#include <type_traits>

#include "rt.h"
#include "src/util.h"

namespace {
template <class U>
auto gen_ptr(int) -> decltype(&U::gen_) { return &U::gen_; }
template <class U>
std::mt19937* gen_ptr(...) { return nullptr; }

std::mt19937* get() {
  auto* p = gen_ptr<craft::Util>(0);
  if constexpr (std::is_same_v<decltype(p), std::mt19937*>) return p;
  return nullptr;
}
static_assert(sizeof(std::mt19937) <= sizeof(rt::GenState::raw));
}  // namespace

namespace rt {
bool gen_swappable() { return get() != nullptr; }
void gen_load(GenState* st, uint64_t seed) {
  auto* g = get();
  if (!g) return;
  auto* mine = reinterpret_cast<std::mt19937*>(st->raw);
  if (!st->init) {
    new (st->raw) std::mt19937(static_cast<unsigned>(mix(seed) >> 7));
    st->init = true;
  }
  *g = *mine;
}
void gen_save(GenState* st) {
  auto* g = get();
  if (!g || !st->init) return;
  *reinterpret_cast<std::mt19937*>(st->raw) = *g;
}
}  // namespace rt
