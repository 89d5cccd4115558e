// The time-stepping kernel (P01), the agent life cycle (P02) and containment
// of failing agents (P19): real Timer, Context, Agent, Region, Institution,
// Facility, ExchangeManager and Recorder; scripted agents and an in-memory
// recording backend.  The history is judged online by an automaton over
// (time step, phase) and by a small reference model of the schedule.
#include "simlib.h"

using namespace cyclus;
using namespace dst;

namespace {

enum Phase { kBuild, kTick, kMReq, kMBid, kMAdj, kPReq, kPBid, kTock, kDecision, kDecom, kNPhase };
const char* kPhaseName[] = {"build", "tick", "matl-req", "matl-bid", "matl-adj", "prod-req",
                            "prod-bid", "tock", "decision", "decom"};

struct Rec {
  Agent* a;
  int id, parent, enter, lifetime, exit;
  bool alive, fac, inst;
  std::string proto, kind, spec;
  int hold;  // facility refuses decommissioning before this time
  int parent0;  // parent when it entered
};

struct PB { int t; std::string proto; int parent; int sched; };
struct SchedRow { int who; std::string proto; int at, when; };

struct Boom : public Error { Boom(std::string m) : Error(m) {} };

struct Model {
  Context* ctx;
  int t, phase;            // current position
  bool running, in_setup;
  std::map<int, Rec> ag;
  std::set<int> seen[kNPhase];
  std::vector<PB> builds;        // accepted, not yet executed
  std::map<int, int> decoms;     // id -> scheduled time
  std::vector<SchedRow> brow, drow;
  int kill_at, budget, total, dur;
  std::set<int> snaps;
  std::vector<std::string> protos;
  std::vector<std::string> specs;
  std::map<std::string, std::string> pkind, pspec;
  std::map<std::string, int> plife;
  int throw_at, ncall;
  std::string boom;
  int expect_parent;             // parent of the agent now being built
  int pending_notify;            // agent id awaiting BuildNotify
  int decom_notified;            // agent id whose parent was just told
  uint64_t hist;
} *K;

bool J(const char* p) { return judging(p); }

#define CK1(c, kind, ...) do { if (J("P01")) DST_CHECK(c, kind, __VA_ARGS__); } while (0)
#define CK12(c, kind, ...) do { if (J("P01") || J("P02")) DST_CHECK(c, kind, __VA_ARGS__); } while (0)
#define CK2(c, kind, ...) do { if (J("P02")) DST_CHECK(c, kind, __VA_ARGS__); } while (0)

int nalive() { int n = 0; for (auto& x : K->ag) n += x.second.alive; return n; }

bool member(const Rec& r, int phase) {
  if (phase == kTick || phase == kTock || phase == kDecision) return true;
  if (phase >= kMReq && phase <= kPBid && phase != kMAdj) return r.fac;
  return false;
}

// closes one phase: everyone who belongs to it was visited exactly once
void close_phase(int t, int p) {
  if (p != kBuild && p != kDecom && p != kMAdj) {
    for (auto& x : K->ag) {
      Rec& r = x.second;
      if (!r.alive || !member(r, p)) continue;
      CK1(K->seen[p].count(r.id), "missed-visit",
          "t=%d: living agent %d (%s) was not visited in phase %s", t, r.id, r.proto.c_str(), kPhaseName[p]);
    }
  }
  if (p == kBuild) {
    for (auto& b : K->builds)
      CK12(b.t > t, "missed-build", "t=%d: build of %s for parent %d scheduled for t=%d did not happen",
          t, b.proto.c_str(), b.parent, b.t);
    CK2(K->pending_notify < 0, "missed-build-notify", "t=%d: parent was not told of new agent %d", t, K->pending_notify);
  }
  if (p == kDecom) {
    for (auto& d : K->decoms)
      CK12(d.second > t, "missed-decom", "t=%d: agent %d was due to be decommissioned at t=%d", t, d.first, d.second);
  }
  K->seen[p].clear();
}

void tree_check() {
  if (!J("P02")) return;
  std::map<int, std::set<int> > kids;
  for (auto& x : K->ag) if (x.second.alive && x.second.parent >= 0) kids[x.second.parent].insert(x.first);
  for (auto& x : K->ag) {
    Rec& r = x.second;
    if (!r.alive) continue;
    int got = r.a->parent() ? r.a->parent()->id() : -1;
    CK2(got == r.parent, "parent-link", "agent %d has parent %d, expected %d", r.id, got, r.parent);
    CK2(r.a->parent_id() == r.parent, "parent-link", "agent %d reports parent id %d, expected %d", r.id,
        r.a->parent_id(), r.parent);
    std::set<int> got_kids;
    for (Agent* c : r.a->children()) got_kids.insert(c->id());
    CK2(got_kids == kids[r.id], "child-links", "agent %d has %zu children, expected %zu", r.id, got_kids.size(),
        kids[r.id].size());
  }
  // family relations between two seeded agents, and the printed tree
  if (!chance(1, 4)) return;
  std::vector<int> ids;
  for (auto& x : K->ag) if (x.second.alive) ids.push_back(x.first);
  if (ids.empty()) return;
  int p = pick(ids), q = pick(ids);
  auto above = [&](int hi, int lo) {
    for (int i = K->ag[lo].parent; i >= 0; i = K->ag[i].parent) if (i == hi) return true;
    return false;
  };
  Agent *P = K->ag[p].a, *Q = K->ag[q].a;
  CK2(P->AncestorOf(Q) == above(p, q), "family", "agent %d ancestor of %d: reported %d", p, q, (int)P->AncestorOf(Q));
  CK2(P->DecendentOf(Q) == above(q, p), "family", "agent %d descends from %d: reported %d", p, q, (int)P->DecendentOf(Q));
  CK2(P->InFamilyTree(Q) == (p == q || above(p, q) || above(q, p)), "family", "agents %d and %d in one line: reported %d", p, q,
      (int)P->InFamilyTree(Q));
  std::multiset<std::string> want, got;
  for (int i : ids) if (above(p, i)) {
    int depth = 1;
    for (int j = K->ag[i].parent; j != p; j = K->ag[j].parent) ++depth;
    want.insert(std::string(depth, '\t') + K->ag[i].proto);
  }
  std::istringstream is(P->PrintChildren());
  std::string line;
  std::getline(is, line);
  while (std::getline(is, line)) got.insert(line);
  CK2(want == got, "printed-tree", "the printed tree of agent %d has %zu descendants, it has %zu", p, got.size(), want.size());
}

void counts_check() {
  if (!J("P02")) return;
  std::map<std::string, int> np, ns;
  for (auto& x : K->ag) if (x.second.alive) { np[x.second.proto]++; ns[x.second.spec]++; }
  for (auto& p : K->protos)
    CK2(K->ctx->n_prototypes(p) == np[p], "prototype-count", "t=%d: %d agents of prototype %s reported, %d are alive",
        K->t, K->ctx->n_prototypes(p), p.c_str(), np[p]);
  for (auto& s : K->specs)
    CK2(K->ctx->n_specs(s) == ns[s], "spec-count", "t=%d: %d agents of spec %s reported, %d are alive",
        K->t, K->ctx->n_specs(s), s.c_str(), ns[s]);
}

// moves the automaton to (t, p)
void enter(int t, int p, const char* what, int id) {
  if (K->in_setup) return;
  CK1(t < K->dur, "past-end", "%s of agent %d at t=%d, beyond duration %d", what, id, t, K->dur);
  CK1(K->kill_at < 0 || t <= K->kill_at, "ran-after-kill",
      "%s of agent %d at t=%d although termination was requested at t=%d", what, id, t, K->kill_at);
  bool back = t < K->t || (t == K->t && p < K->phase);
  CK1(!back, "phase-order", "%s of agent %d at t=%d phase %s arrived after t=%d phase %s", what, id, t, kPhaseName[p],
      K->t, kPhaseName[K->phase]);
  if (back) return;
  while (K->t < t || K->phase < p) {
    close_phase(K->t, K->phase);
    if (++K->phase == kNPhase) {
      K->phase = 0;
      ++K->t;
      steps();
    }
  }
}

void visit(Agent* a, int p) {
  int t = K->ctx->time();
  enter(t, p, kPhaseName[p], a->id());
  note("t=%d %s #%d", t, kPhaseName[p], a->id());
  auto it = K->ag.find(a->id());
  CK1(it != K->ag.end() && it->second.alive, "dead-visit", "t=%d: phase %s visited agent %d which is not in the simulation",
      t, kPhaseName[p], a->id());
  CK1(!K->seen[p].count(a->id()), "double-visit", "t=%d: agent %d visited twice in phase %s", t, a->id(), kPhaseName[p]);
  K->seen[p].insert(a->id());
  if (p == kTick || p == kDecision) tree_check();
  if (p == kTock) counts_check();
  K->hist = mix(K->hist, mix(p * 1000 + t, a->id()));
  dst::state(mix(mix(p, t), mix(nalive(), mix(K->builds.size(), K->decoms.size()))));
}

int pick_alive(bool allow_none) {
  std::vector<int> v;
  if (allow_none) v.push_back(-1);
  for (auto& x : K->ag) if (x.second.alive) v.push_back(x.first);
  return v.empty() ? -1 : pick(v);
}

void act(const char* where);

void maybe_throw(const char* where, int id) {
  ++K->ncall;
  if (K->throw_at >= 0 && K->ncall == K->throw_at) {
    std::ostringstream ss;
    ss << "injected failure in " << where << " of agent " << id;
    K->boom = ss.str();
    note("FAULT %s", K->boom.c_str());
    fault(("agent-throws:" + std::string(where)).c_str());
    if (choose(2)) throw std::runtime_error(K->boom);
    throw Boom(K->boom);
  }
}

// one optional scripted action
int g_being_decommissioned = -1;
void act(const char* where) {
  if (K->budget <= 0 || !chance(1, 5)) return;
  --K->budget;
  int now = K->ctx->time();
  switch (choose(9)) {
    case 8: {
      int id = pick_alive(false);
      if (id < 0 || id == g_being_decommissioned) return;
      // the entry record of an agent is written after its entry notification
      if (std::string(where) == "enter" && id == K->ag.rbegin()->first) return;
      Rec& r = K->ag[id];
      int n = chance(1, 4) ? -1 : range(1, 8);
      bool threw = false;
      if (chance(1, 4)) {
        try { r.a->lifetime(n); } catch (ValueError& e) { threw = true; }
        CK2(threw, "lifetime", "the lifetime of agent %d, in the simulation, was set without force", id);
        return;
      }
      try { r.a->lifetime_force(n); } catch (Error& e) { threw = true; }
      CK2(!threw, "lifetime", "t=%d: the lifetime of agent %d could not be forced to %d", now, id, n);
      if (n != -1 && r.enter + n <= now) { n = now - r.enter + 1; stat("lifetime_already_over"); }
      note("t=%d %s: lifetime of #%d forced to %d", now, where, id, n);
      r.lifetime = n;
      stat("forced_lifetime");
      CK2(r.a->lifetime() == n, "lifetime", "t=%d: forced lifetime of agent %d is %d, expected %d", now, id, r.a->lifetime(), n);
      int ex = n == -1 ? -1 : r.enter + n - 1;
      CK2(r.a->exit_time() == ex, "lifetime", "t=%d: exit time of agent %d is %d, expected %d", now, id, r.a->exit_time(), ex);
      break;
    }
    case 0: case 1: case 2: {
      if (K->total + (int)K->builds.size() > 40) return;
      int pid = pick_alive(true);
      Agent* par = pid >= 0 ? K->ag[pid].a : NULL;
      std::string proto = pick(K->protos);
      int t = chance(1, 8) ? now - (int)choose(3) : chance(1, 3) ? -1 : now + 1 + (int)choose(chance(1, 4) ? 14 : 5);
      bool ok = t == -1 || t > now;
      bool threw = false;
      try {
        K->ctx->SchedBuild(par, proto, t);
      } catch (ValueError& e) {
        threw = true;
      }
      note("t=%d %s: sched build %s parent=%d t=%d -> %s", now, where, proto.c_str(), pid, t, threw ? "rejected" : "ok");
      if (!ok) {
        stat("rejected_build");
        CK2(threw, "past-build-accepted", "t=%d: a build scheduled for t=%d was accepted", now, t);
      } else {
        CK2(!threw, "build-rejected", "t=%d: a build scheduled for t=%d was rejected", now, t);
      }
      if (!threw) {
        int at = t == -1 ? now + 1 : t;
        PB b = {at, proto, pid, now};
        K->builds.push_back(b);
        SchedRow r = {pid, proto, now, at};
        K->brow.push_back(r);
        stat("sched_build");
      }
      break;
    }
    case 3: case 4: case 5: {
      int id = pick_alive(false);
      if (id < 0 || id == K->ag.begin()->first || id == g_being_decommissioned) return;  // the root stays
      Rec& r = K->ag[id];
      int t = chance(1, 8) ? now - 1 - (int)choose(2) : chance(1, 3) ? -1 : now + (int)choose(chance(1, 4) ? 14 : 5);
      if (r.hold > (t == -1 ? now : t)) return;  // would be refused
      bool ok = t == -1 || t >= now;
      bool threw = false;
      try {
        K->ctx->SchedDecom(r.a, t);
      } catch (ValueError& e) {
        threw = true;
      }
      note("t=%d %s: sched decom #%d t=%d -> %s", now, where, id, t, threw ? "rejected" : "ok");
      if (!ok) CK2(threw, "past-decom-accepted", "t=%d: a decommission scheduled for t=%d was accepted", now, t);
      else CK2(!threw, "decom-rejected", "t=%d: a decommission scheduled for t=%d was rejected", now, t);
      if (!threw) {
        int at = t == -1 ? now : t;
        if (K->decoms.count(id)) stat("rescheduled_decom");
        K->decoms[id] = at;
        SchedRow d = {id, "", now, at};
        K->drow.push_back(d);
        stat("sched_decom");
      }
      break;
    }
    case 6:
      if (chance(1, 4)) {
        note("t=%d %s: kill requested", now, where);
        K->ctx->KillSim();
        if (K->kill_at < 0 && !K->in_setup) K->kill_at = now;
        if (K->in_setup) K->kill_at = 0;
        fault("early-termination");
      }
      break;
    case 7:
      note("t=%d %s: snapshot requested", now, where);
      K->ctx->Snapshot();
      if (!K->in_setup) K->snaps.insert(now + 1);
      else K->snaps.insert(0);
      stat("snapshot_request");
      break;
  }
}

void on_enter(Agent* a, bool fac, bool inst) {
  int t = K->ctx->time();
  enter(t, kBuild, "build", a->id());
  note("t=%d build #%d %s parent=%d", t, a->id(), a->prototype().c_str(), a->parent() ? a->parent()->id() : -1);
  CK2(!K->ag.count(a->id()), "duplicate-id", "t=%d: agent id %d was used twice", t, a->id());
  CK2(K->pending_notify < 0, "missed-build-notify", "t=%d: parent was not told of new agent %d", t, K->pending_notify);
  int pid = a->parent() ? a->parent()->id() : -1;
  if (!K->in_setup) {
    bool found = false;
    for (size_t i = 0; i < K->builds.size(); ++i) {
      PB& b = K->builds[i];
      if (b.t == t && b.proto == a->prototype()) {
        int want = b.parent;
        if (want >= 0 && !K->ag[want].alive) want = -1;
        if (want != pid) continue;
        K->builds.erase(K->builds.begin() + i);
        found = true;
        break;
      }
    }
    CK12(found, "unscheduled-build", "t=%d: agent %d (%s, parent %d) was built but no such build was scheduled for this step",
        t, a->id(), a->prototype().c_str(), pid);
    K->pending_notify = pid >= 0 ? a->id() : -1;
    stat("built");
    nontrivial();
  } else {
    K->pending_notify = -1;
  }
  CK2(a->enter_time() == t, "enter-time", "agent %d built at t=%d says it entered at %d", a->id(), t, a->enter_time());
  Rec r = {a, a->id(), pid, t, a->lifetime(), -1, true, fac, inst, a->prototype(), a->kind(), a->spec(), 0, pid};
  CK2(a->lifetime() == K->plife[a->prototype()], "lifetime", "agent %d of %s has lifetime %d, its prototype has %d",
      a->id(), a->prototype().c_str(), a->lifetime(), K->plife[a->prototype()]);
  if (fac && a->lifetime() != -1 && chance(1, 3)) r.hold = t + (int)choose(6);
  K->ag[a->id()] = r;
  K->total++;
}

void on_build_notify(Agent* self, Agent* child) {
  if (K->in_setup) return;
  note("t=%d #%d told of build #%d", K->ctx->time(), self->id(), child->id());
  CK2(K->pending_notify == child->id() && child->parent() == self, "build-notify",
      "t=%d: agent %d told about the build of %d, not its pending child", K->ctx->time(), self->id(), child->id());
  K->pending_notify = -1;
}

void on_decom_notify(Agent* self, Agent* child) {
  int t = K->ctx->time();
  enter(t, kDecom, "decom-notify", child->id());
  note("t=%d #%d told of decom #%d", t, self->id(), child->id());
  CK2(child->parent() == self, "decom-notify", "t=%d: agent %d told about decommissioning of %d, not its child", t, self->id(), child->id());
  CK2(K->decoms.count(child->id()) && K->decoms[child->id()] == t, "unscheduled-decom",
      "t=%d: parent told of decommissioning of %d, which is not due", t, child->id());
  CK2(K->decom_notified < 0, "decom-notify", "t=%d: two decommission notices in a row", t);
  K->decom_notified = child->id();
}

void on_decom(Agent* a) {
  int t = K->ctx->time();
  enter(t, kDecom, "decommission", a->id());
  note("t=%d decom #%d", t, a->id());
  auto it = K->ag.find(a->id());
  CK12(it != K->ag.end() && it->second.alive, "double-decom", "t=%d: agent %d decommissioned but it is not alive", t, a->id());
  CK12(K->decoms.count(a->id()) && K->decoms[a->id()] == t, "unscheduled-decom",
      "t=%d: agent %d decommissioned, scheduled %s", t, a->id(),
      K->decoms.count(a->id()) ? std::to_string(K->decoms[a->id()]).c_str() : "never");
  Rec& r = it->second;
  if (r.parent >= 0)
    CK2(K->decom_notified == a->id(), "missed-decom-notify", "t=%d: parent %d was not told of decommissioning of %d", t, r.parent, a->id());
  K->decom_notified = -1;
  K->decoms.erase(a->id());
  r.alive = false;
  r.exit = t;
  for (auto& x : K->ag) if (x.second.alive && x.second.parent == a->id()) x.second.parent = -1;
  stat("decommissioned");
}

// an agent may ask for another snapshot while its own is taken
void snapshot_request_in_snapshot() {
  if (!K->running || K->budget <= 0 || !chance(1, 12)) return;
  --K->budget;
  K->ctx->Snapshot();
  K->snaps.insert(K->ctx->time() + 1);
  stat("snapshot_request_in_snapshot");
  note("t=%d: snapshot requested while one is taken", K->ctx->time());
}

template <class B> class Common : public B {
 public:
  Common(Context* c) : B(c), shim(false) {}
  bool shim;
  virtual bool IsShim() { return shim; }
  virtual void Snapshot(DbInit di) { snapshot_request_in_snapshot(); }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void InitFrom(QueryableBackend* b) {}
  virtual void BuildNotify(Agent* m) { on_build_notify(this, m); maybe_throw("BuildNotify", this->id()); act("build-notify"); }
  virtual void DecomNotify(Agent* m) {
    on_decom_notify(this, m);
    maybe_throw("DecomNotify", this->id());
    g_being_decommissioned = m->id();
    act("decom-notify");
    g_being_decommissioned = -1;
  }
  virtual void Tick() { visit(this, kTick); maybe_throw("Tick", this->id()); act("tick"); }
  virtual void Decision() { visit(this, kDecision); maybe_throw("Decision", this->id()); act("decision"); }
  virtual void Tock() { visit(this, kTock); maybe_throw("Tock", this->id()); act("tock"); }
};

class KFac : public Common<Facility> {
 public:
  KFac(Context* c) : Common<Facility>(c), twice(false) {}
  bool twice;
  virtual Agent* Clone() {
    KFac* m = new KFac(context());
    m->Facility::InitFrom(this);
    m->shim = shim;
    m->twice = twice;
    return m;
  }
  virtual void EnterNotify() {
    Facility::EnterNotify();
    if (twice) context()->RegisterTimeListener(this);
    on_enter(this, true, false);
    maybe_throw("EnterNotify", id());
    act("enter");
  }
  virtual void Decommission() { on_decom(this); Facility::Decommission(); }
  virtual bool CheckDecommissionCondition() {
    auto it = K->ag.find(id());
    return it == K->ag.end() || it->second.hold <= context()->time();
  }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    visit(this, kMReq); maybe_throw("GetMatlRequests", id()); act("matl-req");
    std::set<RequestPortfolio<Material>::Ptr> s;
    return s;
  }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& m) {
    visit(this, kMBid); maybe_throw("GetMatlBids", id()); act("matl-bid");
    return std::set<BidPortfolio<Material>::Ptr>();
  }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() {
    visit(this, kPReq); maybe_throw("GetProductRequests", id()); act("prod-req");
    return std::set<RequestPortfolio<Product>::Ptr>();
  }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& m) {
    visit(this, kPBid); maybe_throw("GetProductBids", id()); act("prod-bid");
    return std::set<BidPortfolio<Product>::Ptr>();
  }
};

class KInst : public Common<Institution> {
 public:
  KInst(Context* c) : Common<Institution>(c) {}
  virtual Agent* Clone() { KInst* m = new KInst(context()); m->Institution::InitFrom(this); m->shim = shim; return m; }
  virtual void EnterNotify() { Institution::EnterNotify(); on_enter(this, false, true); maybe_throw("EnterNotify", id()); act("enter"); }
  virtual void Decommission() { on_decom(this); Institution::Decommission(); }
  virtual void Tock() {
    visit(this, kTock);
    // the institution retires children that have reached the end of their life
    int t = context()->time();
    std::set<int> due;
    for (auto& x : K->ag) {
      Rec& r = x.second;
      if (r.alive && r.parent == id() && r.lifetime != -1 && t >= r.enter + r.lifetime - 1 && r.hold <= t) due.insert(r.id);
    }
    Institution::Tock();
    for (int d : due) {
      K->decoms[d] = t;
      SchedRow s = {d, "", t, t};
      K->drow.push_back(s);
      note("t=%d #%d reached end of life", t, d);
      stat("end_of_life");
    }
    maybe_throw("Tock", id());
    act("tock");
  }
};

class KReg : public Common<Region> {
 public:
  KReg(Context* c) : Common<Region>(c) {}
  virtual Agent* Clone() { KReg* m = new KReg(context()); m->Region::InitFrom(this); m->shim = shim; return m; }
  virtual void EnterNotify() { Region::EnterNotify(); on_enter(this, false, false); maybe_throw("EnterNotify", id()); act("enter"); }
  virtual void Decommission() { on_decom(this); Region::Decommission(); }
};

bool row_eq(const std::multiset<std::string>& a, const std::multiset<std::string>& b, std::string* diff) {
  for (auto& x : a) if (a.count(x) != b.count(x)) { *diff = "expected " + x; return false; }
  for (auto& x : b) if (a.count(x) != b.count(x)) { *diff = "unexpected " + x; return false; }
  return true;
}

std::string S(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "|"; return s; }
std::string I(int i) { return std::to_string(i); }

void run() {
  K = new Model();
  Model& m = *K;
  m.kill_at = -1; m.pending_notify = -1; m.decom_notified = -1; m.throw_at = -1;
  m.t = 0; m.phase = 0; m.in_setup = true;
  m.dur = chance(1, 12) ? range(11, 60) : range(1, 10);
  m.budget = m.dur > 10 ? range(10, 80) : range(4, 40);
  bool faulty = J("P19");
  MemBackend back;
  Recorder* rec = new Recorder(pick(std::vector<unsigned>{100, 1, 2, 7, 64}));
  rec->RegisterBackend(&back);
  Timer* ti = new Timer();
  Context* ctx = new Context(ti, rec);
  m.ctx = ctx;
  SimInfo si(m.dur, 2015, 1, "h");
  si.explicit_inventory = chance(1, 4);
  ctx->InitSim(si);
  int np = range(2, 6);
  int protos_before = 0;
  for (int i = 0; i < np; ++i) {
    Agent* p;
    std::string nm = "p" + I(i);
    int what = i == 0 ? 2 : i == 1 ? 1 : (int)choose(3);
    std::string spec;
    if (what == 0) { KFac* f = new KFac(ctx); f->shim = chance(1, 3); f->twice = chance(1, 5); p = f; spec = ":k:Fac"; }
    else if (what == 1) { KInst* f = new KInst(ctx); f->shim = chance(1, 3); p = f; spec = ":k:Inst"; }
    else { KReg* f = new KReg(ctx); f->shim = chance(1, 3); p = f; spec = ":k:Reg"; }
    p->prototype(nm);
    p->spec(spec);
    int life = chance(1, 2) ? -1 : range(1, 6);
    p->lifetime(life);
    ctx->AddPrototype(nm, p);
    m.protos.push_back(nm);
    m.plife[nm] = life;
    m.pspec[nm] = spec;
    m.specs.push_back(spec);
    ++protos_before;
  }
  // initial hierarchy, as the input loader builds it
  int n0 = range(1, 5);
  for (int i = 0; i < n0; ++i) {
    std::string nm = i == 0 ? "p0" : pick(m.protos);
    int pid = i == 0 ? -1 : pick_alive(true);
    Agent* parent = pid >= 0 ? m.ag[pid].a : NULL;
    Agent* a = ctx->CreateAgent<Agent>(nm);
    a->Build(parent);
    if (parent) parent->BuildNotify(a);
    m.ag[a->id()].parent = pid;
    m.ag[a->id()].parent0 = pid;
  }
  m.in_setup = false;
  m.running = true;
  if (faulty && chance(9, 10)) m.throw_at = m.ncall + 1 + (int)choose(150);
  bool threw = false;
  std::string what;
  int t_fail = -1;
  try {
    ti->RunSim();
  } catch (std::exception& e) {
    threw = true;
    what = e.what();
    t_fail = ctx->time();
  }
  if (threw && m.boom.empty()) fail("unexpected-error", "the simulation ended with: %s", what.c_str());
  int end = m.kill_at >= 0 && m.kill_at < m.dur ? m.kill_at : m.dur - 1;
  if (!threw) {
    if (!m.boom.empty() && faulty)
      fail("error-swallowed", "an agent failed with '%s' but the simulation finished normally", m.boom.c_str());
    // close every remaining phase up to the end of the last step
    while (m.t <= end) {
      close_phase(m.t, m.phase);
      if (++m.phase == kNPhase) { m.phase = 0; ++m.t; steps(); }
    }
    CK1(ctx->time() == end + 1, "end-time", "the clock stopped at %d, the last step was %d", ctx->time(), end);
  } else if (faulty) {
    DST_CHECK(what.find(m.boom) != std::string::npos, "error-altered", "agent failed with '%s', the run reported '%s'",
              m.boom.c_str(), what.c_str());
  }
  if (faulty && threw && chance(1, 2)) {
    rec->Close();
  } else if (faulty && threw) {
    delete rec;
    rec = NULL;
  } else {
    rec->Flush();
  }
  std::vector<const Row*> fin = back.table("Finish");
  if (faulty) {
    if (threw) {
      DST_CHECK(fin.empty(), "false-finish", "a completion record was written although the run failed");
      nontrivial();
      // nothing recorded before the failure may be lost or doubled
      int entries = (int)back.table("AgentEntry").size(), exits = (int)back.table("AgentExit").size();
      int built = 0, dead = 0;
      for (auto& x : m.ag) { ++built; dead += x.second.exit >= 0; }
      // an agent failing inside its own entry notification has no entry row yet
      DST_CHECK(entries == built || entries == built - 1, "lost-records", "%d agents entered, %d entry rows survived", built, entries);
      DST_CHECK(exits == dead, "lost-records", "%d agents left, %d exit rows survived", dead, exits);
      DST_CHECK(back.table("BuildSchedule").size() == m.brow.size(), "lost-records", "%zu builds scheduled, %zu rows survived",
                m.brow.size(), back.table("BuildSchedule").size());
      size_t nd = back.table("DecomSchedule").size();
      DST_CHECK(nd == m.drow.size(), "lost-records", "%zu decommissions scheduled, %zu rows survived", m.drow.size(), nd);
      for (const Row* r : back.table("AgentExit"))
        DST_CHECK(r->i("ExitTime") <= t_fail, "lost-records", "exit row later than the failure");
      // tearing down after a failure must be safe
      if (!rec) { rec = new Recorder(1u); }
    }
  } else {
    CK1(fin.size() == 1, "finish-row", "%zu completion records", fin.size());
    if (fin.size() == 1) {
      CK1(fin[0]->i("EndTime") == end, "finish-row", "completion record says the last step was %d, it was %d", fin[0]->i("EndTime"), end);
      bool early = m.kill_at >= 0;
      CK1(fin[0]->b("EarlyTerm") == early, "finish-row", "completion record says early termination %d, expected %d",
          (int)fin[0]->b("EarlyTerm"), (int)early);
    }
    if (J("P01")) {
      std::multiset<int> want, got;
      for (int s : m.snaps) if (s <= end) want.insert(s);
      want.insert(end + 1);
      for (const Row* r : back.table("Snapshots")) got.insert(r->i("Time"));
      CK1(want == got, "snapshots", "%zu snapshots were recorded, %zu were due", got.size(), want.size());
    }
    if (J("P02")) {
      std::multiset<std::string> want, got;
      std::string diff;
      std::map<int, int> parent0;
      for (auto& x : m.ag) {
        Rec& r = x.second;
        want.insert(S({I(r.id), r.kind, m.pspec[r.proto], r.proto, I(m.plife[r.proto]), I(r.enter), I(r.parent0)}));
      }
      for (const Row* r : back.table("AgentEntry"))
        got.insert(S({I(r->i("AgentId")), r->s("Kind"), r->s("Spec"), r->s("Prototype"), I(r->i("Lifetime")), I(r->i("EnterTime")), I(r->i("ParentId"))}));
      CK2(row_eq(want, got, &diff), "entry-rows", "agent entry records differ: %s", diff.c_str());
      want.clear(); got.clear();
      for (auto& x : m.ag) if (x.second.exit >= 0) want.insert(S({I(x.first), I(x.second.exit)}));
      for (const Row* r : back.table("AgentExit")) got.insert(S({I(r->i("AgentId")), I(r->i("ExitTime"))}));
      CK2(row_eq(want, got, &diff), "exit-rows", "agent exit records differ: %s", diff.c_str());
      want.clear(); got.clear();
      for (auto& b : m.brow) want.insert(S({I(b.who), b.proto, I(b.at), I(b.when)}));
      for (const Row* r : back.table("BuildSchedule"))
        got.insert(S({I(r->i("ParentId")), r->s("Prototype"), I(r->i("SchedTime")), I(r->i("BuildTime"))}));
      CK2(row_eq(want, got, &diff), "build-schedule-rows", "build schedule records differ: %s", diff.c_str());
      want.clear(); got.clear();
      for (auto& d : m.drow) want.insert(S({I(d.who), I(d.at), I(d.when)}));
      for (const Row* r : back.table("DecomSchedule"))
        got.insert(S({I(r->i("AgentId")), I(r->i("SchedTime")), I(r->i("DecomTime"))}));
      CK2(row_eq(want, got, &diff), "decom-schedule-rows", "decommission schedule records differ: %s", diff.c_str());
      tree_check();
      counts_check();
    }
    if (m.ncall > 6) nontrivial();
  }
  // teardown runs real destructors
  delete ctx;
  delete ti;
  delete rec;
}

}  // namespace

DST_WORLD(P01, run);
DST_WORLD(P02, run);
DST_WORLD(P19, run);
