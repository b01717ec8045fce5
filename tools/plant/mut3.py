M = []
def mut(name, props, *edits):
    M.append({"name": name, "props": props.split(), "edits": list(edits)})
R = "src/raft.cc"; L = "src/log.cc"; U = "src/log_unstable.cc"; N = "src/rawnode.cc"; P = "src/tracker/progress.cc"

# Storage used by other threads of the application in the middle of a call.
mut("rc-slice-compacted-fatal", "C11 C17", (L, "      if (std::strstr(status.Str(), kErrCompacted)) {\n        return std::make_tuple(EntryPtrs(), std::move(status));\n      } else if", "      if"))
mut("rc-snap-by-first-index", "C11 C17", (R, "  if (!st.IsOK() || !se.IsOK()) {\n    if (!pr->RecentActive())", "  if (pr->Next() < raft_log_->FirstIndex() || (se.IsOK() && !st.IsOK())) {\n    if (!pr->RecentActive())"))
mut("rc-term-compacted-fatal", "C11 C17", (L, "  if (std::strstr(status.Str(), kErrCompacted) ||\n      std::strstr(status.Str(), kErrUnavailable)) {", "  if (std::strstr(status.Str(), kErrUnavailable)) {"))
mut("rc-only-entries-error", "C11 C17", (R, "  if (!st.IsOK() || !se.IsOK()) {\n    if (!pr->RecentActive())", "  if (!se.IsOK()) {\n    if (!pr->RecentActive())"))
mut("rc-slice-first-then-storage", "C11 C17", (L, "  uint64_t fi = FirstIndex();\n  if (lo < fi) {\n    return Status::Error(kErrCompacted);", "  uint64_t fi = FirstIndex();\n  assert(lo >= FirstIndex() || lo < fi);\n  if (lo < fi) {\n    return Status::Error(kErrCompacted);"))
mut("rc-conflict-search-fatal", "C11 C17", (L, "    if (log_term <= term || !status.IsOK()) {\n      break;", "    if (!status.IsOK()) CRAFT_LOG_FATAL(logger_, \"term(%llu): %s\", index, status.Str());\n    if (log_term <= term) {\n      break;"))
