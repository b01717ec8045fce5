#include "refcfg.h"

namespace sim {

static std::string bits(uint64_t m) {
  std::string s;
  for (int i = 0; i < 64; i++)
    if (m >> i & 1) s += (s.empty() ? "" : ",") + std::to_string(i);
  return "{" + s + "}";
}
std::string RefCfg::str() const {
  return "in" + bits(in) + " out" + bits(out) + " lrn" + bits(lrn) + " next" + bits(lnext) + (autol ? " auto" : "");
}

static bool apply_changes(RefCfg* c, const std::vector<RefChange>& ch) {
  for (auto& x : ch) {
    if (x.id == 0) continue;
    uint64_t b = bit(x.id);
    switch (x.type) {
      case raftpb::ConfChangeAddNode:
        c->in |= b;
        c->lrn &= ~b;
        c->lnext &= ~b;
        break;
      case raftpb::ConfChangeAddLearnerNode:
        if (c->lrn & b) break;
        c->in &= ~b;
        c->lnext &= ~b;
        if (c->out & b) c->lnext |= b;
        else c->lrn |= b;
        break;
      case raftpb::ConfChangeRemoveNode:
        c->in &= ~b;
        c->lrn &= ~b;
        c->lnext &= ~b;
        break;
      case raftpb::ConfChangeUpdateNode:
        break;
      default:
        return false;
    }
  }
  return c->in != 0;
}

bool ref_apply(RefCfg* c, const RefCC& cc) {
  RefCfg n = *c;
  if (cc.leave()) {
    if (!n.joint()) return false;
    n.lrn |= n.lnext;
    n.lnext = 0;
    n.out = 0;
    n.autol = false;
    *c = n;
    return true;
  }
  if (n.joint()) return false;
  if (cc.transition != raftpb::ConfChangeTransitionAuto || cc.ch.size() > 1) {
    if (n.in == 0) return false;
    n.out = n.in;
    if (!apply_changes(&n, cc.ch)) return false;
    n.autol = cc.transition != raftpb::ConfChangeTransitionJointExplicit;
    *c = n;
    return true;
  }
  if (!apply_changes(&n, cc.ch)) return false;
  if (popc(n.in ^ c->in) > 1) return false;
  *c = n;
  return true;
}

bool ref_parse(int entry_type, const std::string& data, RefCC* out) {
  out->ch.clear();
  out->transition = 0;
  if (entry_type == raftpb::EntryConfChange) {
    raftpb::ConfChange cc;
    if (!cc.ParseFromString(data)) return false;
    out->ch.push_back({cc.type(), cc.node_id()});
    return true;
  }
  raftpb::ConfChangeV2 cc;
  if (!cc.ParseFromString(data)) return false;
  out->transition = cc.transition();
  for (auto& c : cc.changes()) out->ch.push_back({c.type(), c.node_id()});
  return true;
}

RefCfg ref_from(const raftpb::ConfState& cs) {
  RefCfg c;
  for (auto v : cs.voters()) c.in |= bit(v);
  for (auto v : cs.voters_outgoing()) c.out |= bit(v);
  for (auto v : cs.learners()) c.lrn |= bit(v);
  for (auto v : cs.learners_next()) c.lnext |= bit(v);
  c.autol = cs.auto_leave();
  return c;
}
void ref_to(const RefCfg& c, raftpb::ConfState* cs) {
  cs->Clear();
  for (int i = 0; i < 64; i++) {
    if (c.in >> i & 1) cs->add_voters(i);
    if (c.out >> i & 1) cs->add_voters_outgoing(i);
    if (c.lrn >> i & 1) cs->add_learners(i);
    if (c.lnext >> i & 1) cs->add_learners_next(i);
  }
  cs->set_auto_leave(c.autol);
}

}  // namespace sim
