M = []
def mut(name, props, *edits):
    M.append({"name": name, "props": props.split(), "edits": list(edits)})
# Several threads: state shared by nodes that have nothing to do with each other, and what was handed out.
mut("th-gen-plain-static", "C24", ("src/util.h", "static thread_local std::mt19937 gen_;", "static std::mt19937 gen_;"), ("src/util.cc", "thread_local std::mt19937 Util::gen_", "std::mt19937 Util::gen_"))
mut("th-logger-unlocked", "C24", ("src/logger.cc", "  std::lock_guard lg(lock_);\n", ""))
mut("th-logger-two-locks", "C24", ("src/logger.cc", "  std::lock_guard lg(lock_);\n  printf(GetPrefix(level));\n  vprintf(format, ap);\n  printf(\"\\n\");\n", "  {\n    std::lock_guard lg(lock_);\n    printf(GetPrefix(level));\n    vprintf(format, ap);\n  }\n  std::lock_guard lg(lock_);\n  printf(\"\\n\");\n"))
mut("th-static-commit-buffer", "C24", ("src/quorum/majority.cc", "  uint64_t stk[7] = {0};\n", "  static uint64_t stk[7];\n  std::fill(stk, stk + 7, 0);\n"))
mut("th-shared-no-acks", "C24", ("src/read_only.cc", "    static std::map<uint64_t, bool> empty_acks;\n    return empty_acks;", "    static std::map<uint64_t, bool> empty_acks;\n    empty_acks.clear();\n    return empty_acks;"))
mut("th-static-id-slice", "C24", ("src/quorum/majority.cc", "  std::vector<uint64_t> sl;\n  for (uint64_t id : config_) {\n    sl.push_back(id);\n  }\n  std::sort", "  static std::vector<uint64_t> sl;\n  sl.clear();\n  for (uint64_t id : config_) {\n    sl.push_back(id);\n  }\n  std::sort"))
mut("th-snapshot-cleared", "C24 C19", ("src/log_unstable.cc", "    snapshot_ = nullptr;", "    snapshot_->Clear();\n    snapshot_ = nullptr;"))
mut("th-log-count", "C24", ("src/logger.cc", "void Logger::Log(LogLevel level, const char* format, ...) {\n", "static uint64_t g_lines = 0;\nvoid Logger::Log(LogLevel level, const char* format, ...) {\n  g_lines++;\n"))
mut("th-size-cache", "C24", ("src/util.cc", "  uint64_t size = 0;\n  for (auto it = ents.begin(); it != ents.end(); ++it) {\n    size += static_cast<uint64_t>((*it)->ByteSizeLong());", "  static EntryPtr last;\n  static uint64_t last_size = 0;\n  uint64_t size = 0;\n  for (auto it = ents.begin(); it != ents.end(); ++it) {\n    if (*it != last) {\n      last = *it;\n      last_size = last->ByteSizeLong();\n    }\n    size += last_size;"))
