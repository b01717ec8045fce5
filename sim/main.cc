// raftsim: runs seeded simulations in bulk, replays and minimises them.
//
//   raftsim batch --prop N --seed S --runs R --secs T --workers W --out FILE
//   raftsim one --prop N --seed S [--trace]        one generated run
//   raftsim gen --prop N --seed S                  print its plan
//   raftsim replay FILE [--trace]                  replay a plan file
//   raftsim shrink FILE --secs T --out FILE        minimise a failing plan (--known K: one that shows finding DK)
//
// Every run happens in a forked child, so that no state of the library leaks
// from one run into another.
#include <inttypes.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

#include "plan.h"
#include "rt.h"
#include "sim.h"

using namespace sim;

namespace {

double wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

template <class T> T* shared(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
  return static_cast<T*>(p);
}

#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_get_report_description();
extern "C" int __asan_report_present();
Result* g_res = nullptr;
void on_sanitizer_death() {
  if (!g_res || g_res->status != kRunning) return;
  const char* d = __asan_report_present() ? __asan_get_report_description() : "undefined behaviour";
  snprintf(g_res->code, sizeof g_res->code, "memory-error");
  snprintf(g_res->detail, sizeof g_res->detail, "sanitizer report: %s", d);
  g_res->status = kViolation;
}
#endif

constexpr uint64_t kLeftBehind = 4000;

// What protobuf and the library set up once and keep.
void warm_up() {
  raftpb::Message m;
  raftpb::ConfChange c1;
  raftpb::ConfChangeV2 c2;
  c2.add_changes();
  m.add_entries()->set_data(c1.SerializeAsString());
  m.mutable_snapshot()->mutable_metadata()->mutable_conf_state()->add_voters(1);
  volatile size_t n = m.DebugString().size() + c1.DebugString().size() + c2.DebugString().size() + raftpb::MessageType_Name(m.type()).size() +
                      raftpb::EntryType_Name(raftpb::EntryNormal).size() + raftpb::ConfChangeType_Name(raftpb::ConfChangeAddNode).size();
  (void)n;
}

[[noreturn]] void child(const Plan& plan, Result* res, uint8_t* bm, bool trace) {
  rlimit rl;
  rl.rlim_cur = rl.rlim_max = 120;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
  rl.rlim_cur = rl.rlim_max = static_cast<rlim_t>(6) << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
#ifdef __SANITIZE_ADDRESS__
  g_res = res;
  __sanitizer_set_death_callback(on_sanitizer_death);
  rt::seed_device(plan.seed);
  rt::install(30.0);
#else
  rt::seed_device(plan.seed);
  rt::install(4.0);
#endif
  {
    bool mem = plan.prop == 26 || plan.prop == 0;
    if (mem) {
      warm_up();
      rt::track(true);
    }
    Sim* s = new Sim(plan, res, bm, trace);
    s->run();
    if (mem && res->status == kOk && !res->faults[F_LIBCRASH]) {
      // Everything is given back: nothing the library allocated may be left.
      rt::Panic p;
      uint64_t count = 0, bytes = 0;
      if (rt::guarded([&] { delete s; }, &p)) bytes = rt::tracked(&count);
      if (trace) printf("# left behind: %" PRIu64 " bytes in %" PRIu64 " pieces %s\n", bytes, count, p.what);
      if (p.kind != rt::kNoPanic || bytes > kLeftBehind) {
        snprintf(res->code, sizeof res->code, "memory-left");
        if (p.kind != rt::kNoPanic) snprintf(res->detail, sizeof res->detail, "giving everything back: %s", p.what);
        else snprintf(res->detail, sizeof res->detail, "%" PRIu64 " bytes in %" PRIu64 " pieces allocated by the library are left after everything was given back", bytes, count);
        if (plan.prop == 26) {
          res->status = kViolation;
          res->vmask = 1u << 26;
        } else {
          snprintf(res->noted_code, sizeof res->noted_code, "%s", res->code);
          snprintf(res->noted_detail, sizeof res->noted_detail, "%.390s", res->detail);
        }
        res->noted |= 1u << 26;
      }
    }
  }
  fflush(stdout);
  _exit(0);
}

// status kRunning afterwards means the child died
void run_plan(const Plan& plan, Result* res, uint8_t* bm, bool trace = false) {
  memset(res, 0, sizeof *res);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(99); }
  if (pid == 0) child(plan, res, bm, trace);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (res->status == kRunning || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (res->status != kViolation) {
      res->status = kInternal;
      snprintf(res->code, sizeof res->code, "process-died");
      if (WIFSIGNALED(st)) snprintf(res->detail, sizeof res->detail, "the run's process died of signal %d", WTERMSIG(st));
      else snprintf(res->detail, sizeof res->detail, "the run's process exited with %d", WEXITSTATUS(st));
    }
  }
}

std::string esc(const char* s) {
  std::string o;
  for (; *s; s++) {
    unsigned char c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

struct Agg {
  uint64_t runs, ok, internal, sim_units, calls, msgs, applied, elections, reads, props, confs, snaps, faults[F_NUM], sit[S_NUM], known[kMaxFinding], known_runs[kMaxFinding], nontrivial, healed, heal_ticks, heal_max, checks;
  uint64_t by_shape[kNumShape], noted_runs[32], det_checked, det_bad, det_seed;
  char known_detail[kMaxFinding][240];
  uint64_t known_seed[kMaxFinding];
  char internal_detail[300];
  uint64_t internal_seed;
  int viol;
  uint64_t viol_seed, viol_i;
  Result vres;
  struct { uint64_t n, seed; char code[48]; char detail[400]; } noted[8];
};

uint64_t run_seed(uint64_t base, uint64_t i) { return rt::hc(rt::mix(base), i) >> 1; }

int batch(int prop, uint64_t seed, uint64_t runs, double secs, int workers, const std::string& out, bool cont) {
  double t0 = wall();
  Agg* agg = shared<Agg>(workers);
  uint64_t* hashes = shared<uint64_t>(runs + 1);
  uint8_t* bms = shared<uint8_t>(kBitmapBits / 8 * static_cast<size_t>(workers));
  int* stop = shared<int>();
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 3; }
    if (p == 0) {
      Agg& a = agg[w];
      Result* res = shared<Result>();
      Result* res2 = shared<Result>();
      uint8_t* bm = bms + kBitmapBits / 8 * static_cast<size_t>(w);
      for (uint64_t i = static_cast<uint64_t>(w); i < runs; i += static_cast<uint64_t>(workers)) {
        if (*stop || wall() - t0 > secs) break;
        uint64_t s = run_seed(seed, i);
        Plan p2 = gen_plan(prop, s);
        run_plan(p2, res, bm);
        const Result& r = *res;
        a.runs++;
        a.by_shape[p2.cfg.shape]++;
        if (r.status == kOk) a.ok++;
        if (r.status == kInternal) {
          if (!a.internal++) { memcpy(a.internal_detail, r.detail, sizeof a.internal_detail - 1); a.internal_seed = s; }
        }
        a.sim_units += static_cast<uint64_t>(r.sim_units);
        a.calls += r.calls; a.msgs += r.msgs; a.applied += r.applied; a.elections += r.elections;
        a.reads += r.reads; a.props += r.props; a.confs += r.confs; a.snaps += r.snaps;
        for (int k = 0; k < F_NUM; k++) a.faults[k] += r.faults[k];
        for (int k = 0; k < S_NUM; k++) a.sit[k] += r.sit[k];
        for (int k = 0; k < kMaxFinding; k++) {
          if (!r.known[k]) continue;
          if (!a.known[k]) { memcpy(a.known_detail[k], r.known_detail[k], sizeof a.known_detail[k]); a.known_seed[k] = s; }
          a.known[k] += r.known[k];
          a.known_runs[k]++;
        }
        a.nontrivial += static_cast<uint64_t>(r.nontrivial);
        if (r.healed) { a.healed++; a.heal_ticks += static_cast<uint64_t>(r.heal_ticks); if (static_cast<uint64_t>(r.heal_ticks) > a.heal_max) a.heal_max = static_cast<uint64_t>(r.heal_ticks); }
        a.checks += r.checks;
        for (int b = 0; b < 32; b++) if (r.noted >> b & 1) a.noted_runs[b]++;
        if (r.noted_code[0]) {
          for (auto& x : a.noted) {
            if (x.n && strcmp(x.code, r.noted_code)) continue;
            if (!x.n++) { x.seed = s; snprintf(x.code, sizeof x.code, "%s", r.noted_code); snprintf(x.detail, sizeof x.detail, "%s", r.noted_detail); }
            break;
          }
        }
        if (r.nontrivial) hashes[i] = r.hash | 1;
        if (r.status == kViolation && !a.viol) {
          a.viol = 1; a.viol_seed = s; a.viol_i = i; a.vres = r;
          if (!cont) { *stop = 1; break; }
        }
        if (s % 50 == 0 && r.status != kInternal) {  // determinism sample
          a.det_checked++;
          uint64_t h = r.hash; int st = r.status;
          run_plan(p2, res2, nullptr);
          if (res2->hash != h || res2->status != st) { a.det_bad++; a.det_seed = s; }
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double el = wall() - t0;
  Agg t;
  memset(&t, 0, sizeof t);
  size_t bits = 0;
  for (size_t b = 0; b < kBitmapBits / 8; b++) {
    uint8_t x = 0;
    for (int w = 0; w < workers; w++) x |= bms[kBitmapBits / 8 * static_cast<size_t>(w) + b];
    bits += static_cast<size_t>(__builtin_popcount(x));
  }
  std::unordered_set<uint64_t> hs;
  for (uint64_t i = 0; i < runs; i++) if (hashes[i]) hs.insert(hashes[i]);
  std::ostringstream noted;
  for (int w = 0; w < workers; w++) {
    Agg& a = agg[w];
    uint64_t* d = &t.runs; uint64_t* s = &a.runs;
    (void)d; (void)s;
#define ADD(f) t.f += a.f
    ADD(runs); ADD(ok); ADD(internal); ADD(sim_units); ADD(calls); ADD(msgs); ADD(applied); ADD(elections); ADD(reads); ADD(props); ADD(confs); ADD(snaps);
    for (int k = 0; k < F_NUM; k++) ADD(faults[k]);
    for (int k = 0; k < S_NUM; k++) ADD(sit[k]);
    for (int k = 0; k < kNumShape; k++) ADD(by_shape[k]);
    for (int k = 0; k < 32; k++) ADD(noted_runs[k]);
    ADD(nontrivial); ADD(healed); ADD(heal_ticks); ADD(checks); ADD(det_checked); ADD(det_bad);
    if (a.det_bad) t.det_seed = a.det_seed;
    if (a.heal_max > t.heal_max) t.heal_max = a.heal_max;
    for (int k = 0; k < kMaxFinding; k++) {
      if (a.known[k] && !t.known[k]) { memcpy(t.known_detail[k], a.known_detail[k], sizeof t.known_detail[k]); t.known_seed[k] = a.known_seed[k]; }
      ADD(known[k]); ADD(known_runs[k]);
    }
    if (a.internal && !t.internal_detail[0]) { memcpy(t.internal_detail, a.internal_detail, sizeof t.internal_detail); t.internal_seed = a.internal_seed; }
    if (a.viol && (!t.viol || a.viol_i < t.viol_i)) { t.viol = 1; t.viol_seed = a.viol_seed; t.viol_i = a.viol_i; t.vres = a.vres; }
    for (auto& x : a.noted)
      if (x.n) noted << (noted.tellp() > 0 ? ", " : "") << "{\"code\": \"" << x.code << "\", \"runs\": " << x.n << ", \"seed\": " << x.seed << ", \"detail\": \"" << esc(x.detail) << "\"}";
  }
  std::ostringstream o;
  o << "{\n";
  o << "  \"prop\": " << prop << ", \"base_seed\": " << seed << ", \"wall_s\": " << el << ", \"workers\": " << workers << ",\n";
  o << "  \"runs\": " << t.runs << ", \"ok\": " << t.ok << ", \"internal\": " << t.internal << ", \"internal_detail\": \"" << esc(t.internal_detail) << "\", \"internal_seed\": " << t.internal_seed << ",\n";
  o << "  \"distinct\": " << hs.size() << ", \"nontrivial\": " << t.nontrivial << ", \"states_bits\": " << bits << ", \"bitmap_bits\": " << kBitmapBits << ",\n";
  o << "  \"sim_ticks\": " << t.sim_units / kTick << ", \"calls\": " << t.calls << ", \"msgs\": " << t.msgs << ", \"applied\": " << t.applied << ", \"elections\": " << t.elections
    << ", \"reads\": " << t.reads << ", \"proposals\": " << t.props << ", \"conf_changes\": " << t.confs << ", \"snapshots\": " << t.snaps << ", \"checks\": " << t.checks << ",\n";
  o << "  \"healed\": " << t.healed << ", \"heal_ticks_avg\": " << (t.healed ? t.heal_ticks / t.healed : 0) << ", \"heal_ticks_max\": " << t.heal_max << ",\n";
  o << "  \"det_checked\": " << t.det_checked << ", \"det_bad\": " << t.det_bad << ", \"det_seed\": " << t.det_seed << ",\n";
  o << "  \"known\": {";
  bool kfirst = true;
  for (int k = 0; k < kMaxFinding; k++) {
    if (!t.known[k]) continue;
    o << (kfirst ? "" : ", ") << "\"D" << k << "\": {\"events\": " << t.known[k] << ", \"runs\": " << t.known_runs[k] << ", \"seed\": " << t.known_seed[k] << ", \"detail\": \"" << esc(t.known_detail[k]) << "\"}";
    kfirst = false;
  }
  o << "},\n";
  o << "  \"faults\": {";
  for (int k = 0; k < F_NUM; k++) o << (k ? ", " : "") << "\"" << kFaultName[k] << "\": " << t.faults[k];
  o << "},\n  \"situations\": {";
  for (int k = 0; k < S_NUM; k++) o << (k ? ", " : "") << "\"" << kSituation[k] << "\": " << t.sit[k];
  o << "},\n  \"shapes\": {";
  for (int k = 0; k < kNumShape; k++) o << (k ? ", " : "") << "\"" << shape_name(k) << "\": " << t.by_shape[k];
  o << "},\n  \"noted_runs\": {";
  for (int k = 1; k <= kNumProp; k++) o << (k > 1 ? ", " : "") << "\"C" << (k < 10 ? "0" : "") << k << "\": " << t.noted_runs[k];
  o << "},\n  \"noted\": [" << noted.str() << "],\n";
  o << "  \"sample_seeds\": [" << run_seed(seed, 0) << ", " << run_seed(seed, 1) << ", " << run_seed(seed, 2) << "],\n";
  o << "  \"violation\": ";
  if (t.viol) o << "{\"seed\": " << t.viol_seed << ", \"i\": " << t.viol_i << ", \"code\": \"" << t.vres.code << "\", \"detail\": \"" << esc(t.vres.detail) << "\", \"hash\": \"" << std::hex << t.vres.hash << std::dec << "\"}";
  else o << "null";
  o << "\n}\n";
  if (out.empty() || out == "-") std::cout << o.str();
  else { std::ofstream f(out); f << o.str(); }
  return t.viol ? 1 : 0;
}

bool load(const std::string& f, Plan* p) {
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string err;
  if (!plan_from_text(ss.str(), p, &err)) { fprintf(stderr, "%s: %s\n", f.c_str(), err.c_str()); return false; }
  return true;
}

void print_res(const Result& r) {
  static const char* st[] = {"running", "ok", "violation", "internal"};
  std::string kn;
  for (int k = 0; k < kMaxFinding; k++)
    if (r.known[k]) kn += (kn.empty() ? "\"D" : ", \"D") + std::to_string(k) + "\": \"" + esc(r.known_detail[k]) + "\"";
  printf("{\"status\": \"%s\", \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%016" PRIx64 "\", \"ticks\": %" PRId64 ", \"healed\": %d, \"heal_ticks\": %" PRId64
         ", \"noted\": %u, \"noted_code\": \"%s\", \"noted_detail\": \"%s\", \"known\": {%s}, \"calls\": %" PRIu64 ", \"checks\": %" PRIu64 "}\n",
         st[r.status], r.code, esc(r.detail).c_str(), r.hash, r.sim_units / kTick, r.healed, r.heal_ticks, r.noted, r.noted_code, esc(r.noted_detail).c_str(), kn.c_str(), r.calls, r.checks);
}

int shrink(const std::string& file, double secs, const std::string& out, int known) {
  Plan p;
  if (!load(file, &p)) return 3;
  Result* res = shared<Result>();
  double t0 = wall();
  run_plan(p, res, nullptr);
  if (known ? !(res->status == kOk && res->known[known]) : res->status != kViolation && res->status != kInternal) { fprintf(stderr, "does not fail\n"); return 2; }
  int status = res->status;
  std::string code = res->code;
  Result best = *res;
  uint64_t tries = 1;
  auto left = [&] { return wall() - t0 < secs; };
  auto fails = [&](const Plan& q) {
    tries++;
    run_plan(q, res, nullptr);
    if (res->status == status && code == res->code && (!known || res->known[known])) { best = *res; return true; }
    return false;
  };
  auto end_time = [&](Plan* q) {  // nothing after the violation matters
    q->ops.erase(std::remove_if(q->ops.begin(), q->ops.end(), [&](const Op& o) { return o.t > best.sim_units; }), q->ops.end());
  };
  {
    Plan q = p;
    end_time(&q);
    if (q.ops.size() < p.ops.size() && fails(q)) p = q;
  }
  bool progress = true;
  while (progress && left()) {
    progress = false;
    // ops, by chunks
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); left(); chunk /= 2) {
      for (size_t i = 0; i < p.ops.size() && left();) {
        Plan q = p;
        size_t e = std::min(p.ops.size(), i + chunk);
        q.ops.erase(q.ops.begin() + static_cast<long>(i), q.ops.begin() + static_cast<long>(e));
        if (fails(q)) { p = q; progress = true; } else i = e;
      }
      if (chunk <= 1) break;
    }
    Cfg def;
    // configuration towards the plain values
#define X(n, d)                                                                                                          \
    if (left() && std::string(#n) != "shape" && std::string(#n) != "horizon" && p.cfg.n != def.n) {                       \
      Plan q = p;                                                                                                         \
      q.cfg.n = def.n;                                                                                                    \
      if (fails(q)) { p = q; progress = true; }                                                                           \
    }
    CFG_FIELDS(X)
#undef X
    // the window of random link faults
    if (p.cfg.drop || p.cfg.dup || p.cfg.reord) {
      if (p.cfg.fate_to > p.cfg.horizon) { Plan q = p; q.cfg.fate_to = p.cfg.horizon; if (fails(q)) p = q; }
      for (int k = 0; k < 8 && left(); k++) {
        Plan q = p;
        int64_t mid = (p.cfg.fate_from + p.cfg.fate_to) / 2;
        q.cfg.fate_from = mid;
        if (fails(q)) { p = q; progress = true; continue; }
        q = p;
        q.cfg.fate_to = mid;
        if (fails(q)) { p = q; progress = true; continue; }
        break;
      }
    }
    // pull the end of the run closer
    if (p.cfg.horizon > best.sim_units + kTick) { Plan q = p; q.cfg.horizon = best.sim_units + kTick; if (fails(q)) p = q; }
  }
  run_plan(p, res, nullptr);
  if (res->status != status || code != res->code || (known && !res->known[known])) { fprintf(stderr, "minimised plan is not stable\n"); return 2; }
#ifdef __SANITIZE_ADDRESS__
  p.build = "asan";
#endif
  p.expect_code = code;
  p.expect_hash = res->hash;
  std::ofstream f(out);
  f << plan_to_text(p);
  f.close();
  printf("{\"tries\": %" PRIu64 ", \"ops\": %zu, \"code\": \"%s\", \"detail\": \"%s\", \"hash\": \"%016" PRIx64 "\"}\n", tries, p.ops.size(), code.c_str(), esc(res->detail).c_str(), res->hash);
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  // The same addresses every time: a run must not depend on where it is loaded.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("RAFTSIM_NOREEXEC")) {
    setenv("RAFTSIM_NOREEXEC", "1", 1);
    if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string cmd = argc > 1 ? argv[1] : "", file, out;
  int prop = 0, workers = 8, known = 0;
  uint64_t seed = 1, runs = 1000;
  double secs = 30;
  bool trace = false, cont = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : "0"; };
    if (a == "--prop") prop = atoi(val());
    else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(val(), nullptr, 10);
    else if (a == "--secs") secs = atof(val());
    else if (a == "--workers") workers = atoi(val());
    else if (a == "--known") known = atoi(val());
    else if (a == "--out") out = val();
    else if (a == "--trace") trace = true;
    else if (a == "--continue") cont = true;
    else file = a;
  }
  Result* res = shared<Result>();
  if (cmd == "batch") return batch(prop, seed, runs, secs, workers, out, cont);
  if (cmd == "gen") { std::cout << plan_to_text(gen_plan(prop, seed)); return 0; }
  if (cmd == "one") {
    run_plan(gen_plan(prop, seed), res, nullptr, trace);
    print_res(*res);
    return res->status == kOk ? 0 : 1;
  }
  if (cmd == "replay") {
    Plan p;
    if (!load(file, &p)) return 3;
    run_plan(p, res, nullptr, trace);
    print_res(*res);
    if (!p.expect_code.empty()) return p.expect_code == res->code && (p.expect_hash == res->hash) ? 1 : 2;
    return res->status == kOk ? 0 : 1;
  }
  if (cmd == "shrink") return shrink(file, secs, out, known);
  fprintf(stderr, "usage: raftsim batch|one|gen|replay|shrink ...\n");
  return 3;
}

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() {
  return "handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_leaks=0:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:log_path=/dev/null:symbolize=0";
}
extern "C" const char* __ubsan_default_options() { return "log_path=/dev/null:print_stacktrace=0"; }
#endif
