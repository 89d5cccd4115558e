// Initialisation and restart (P15).  A simulation of state-keeping agents is
// run once without interruption (the reference), its output going both to a
// list and to a database that a simulated crash cuts off at a seeded row.  The
// process state is then reset as in a fresh process and the simulation is
// restarted from a snapshot that was completely written.  The restored agents
// must be those of the snapshot, and the continued run must repeat the
// reference from that step on.  Agents decide by a fixed pseudo-random function
// of their own state, id and time, so that both runs can be compared.
#include "simlib.h"
#include <algorithm>
#include <memory>
#include <malloc.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "dynamic_module.h"
#include "hdf5_back.h"
#include "toolkit/res_buf.h"

using namespace cyclus;
using namespace cyclus::toolkit;
using namespace dst;

typedef std::string Str;

// every clock of the process can be shifted
static long dst_clock_offset = 0;
extern "C" time_t time(time_t* p) {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  time_t t = ts.tv_sec + dst_clock_offset;
  if (p) *p = t;
  return t;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) throw() {
  int r = (int)syscall(SYS_clock_gettime, c, ts);
  if (c == CLOCK_REALTIME) ts->tv_sec += dst_clock_offset;
  return r;
}

// the seam the simulation's own tests use to reach static and private state
class SimInitTest {
 public:
  static void ctor(const Str& spec, AgentCtor* c) { DynamicModule::man_ctors_[spec] = c; }
  static int agent_id() { return Agent::next_id_; }
  static int comp_id() { return Composition::next_id_; }
  static int state_id() { return Resource::nextstate_id_; }
  static int obj_id() { return Resource::nextobj_id_; }
  static int qual_id() { return Product::next_qualid_; }
  static int trans_id(Context* c) { return c->trans_id_; }
  static void fresh_process(int k) {
    Agent::next_id_ = k;
    Composition::next_id_ = k + 1;
    Resource::nextstate_id_ = k + 1;
    Resource::nextobj_id_ = k + 1;
    Product::next_qualid_ = k + 1;
    Product::qualids_.clear();
    cy_eps = 1e-6;
    cy_eps_rsrc = 1e-6;
  }
  static std::set<Agent*> agents(Context* c) { return c->agent_list_; }
};

namespace {

struct Knobs {
  uint64_t key;
  int dur, acts, max_agents;
  bool random;               // agents also draw from the simulation's generator
  int w[10];                 // action weights
};

struct Ev {
  int t; const char* phase; int id; Str what;
  bool operator==(const Ev& o) const { return t == o.t && Str(phase) == o.phase && id == o.id && what == o.what; }
};

struct Snap {                // what a snapshot has to preserve
  std::map<int, Str> agents;
  int next[6];
  std::map<Str, int> protos, specs;
};

struct Run {
  Context* ctx;
  std::vector<Ev> ev;
  std::map<int, Snap> snaps;
  bool capture;
  // agent contents at the end of the tock phase (P18)
  int watched;
  std::map<int, std::map<int, Inventories> > held;   // step -> agent -> contents
  Run() : ctx(NULL), capture(false), watched(-2) {}
};

struct W {
  Knobs k;
  std::vector<Str> protos;
  Run* cur;
  bool mixed;                // agents also report an empty and a mixed inventory
  W() : cur(NULL), mixed(false) {}
};
W* X;
void watch(Context* ctx);

uint64_t prf(int id, int t, int salt, uint64_t h) {
  uint64_t x = mix(mix(mix(mix(X->k.key, id), t), salt), h);
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29;
  return x;
}

Str fnum(double d) { char b[40]; snprintf(b, sizeof b, "%.9g", d); return b; }
Str fnum6(double d) { char b[40]; snprintf(b, sizeof b, "%.6f", d); return b; }

Str res_str(Resource::Ptr r, bool ids) {
  std::stringstream ss;
  ss << r->type() << " " << fnum(r->quantity()) << " " << r->package_name() << " [";
  Material::Ptr m = boost::dynamic_pointer_cast<Material>(r);
  if (m) {
    CompMap c = m->comp()->mass();
    double s = 0;
    for (CompMap::iterator i = c.begin(); i != c.end(); ++i) s += i->second;
    for (CompMap::iterator i = c.begin(); i != c.end(); ++i) ss << i->first << ":" << fnum6(i->second / s) << " ";
    ss << "d" << m->prev_decay_time();
  } else {
    Product::Ptr p = boost::dynamic_pointer_cast<Product>(r);
    ss << p->quality();
  }
  ss << "]";
  if (ids) ss << " s" << r->state_id() << " o" << r->obj_id() << " q" << r->qual_id();
  return ss.str();
}

bool by_id(Agent* a, Agent* b) { return a->id() < b->id(); }

// state and behaviour shared by all three kinds of agents
struct Core {
  int h, role, n;
  double x;
  Str tag;
  std::vector<double> hist;
  std::map<Str, int> memo;
  ResBuf<Material> a, b;
  ResBuf<Product> p;
  Core() : h(7), role(0), n(0), x(0.5) { tag = "new"; }

  void copy(const Core& o) { h = o.h; role = o.role; n = o.n; x = o.x; tag = o.tag; hist = o.hist; memo = o.memo; }
  void snap(DbInit di) {
    di.NewDatum("Info")->AddVal("h", h)->AddVal("role", role)->AddVal("n", n)->AddVal("x", x)->AddVal("tag", tag)->Record();
    di.NewDatum("More")->AddVal("hist", hist)->AddVal("memo", memo)->Record();
  }
  void load(QueryableBackend* q) {
    QueryResult r = q->Query("Info", NULL);
    h = r.GetVal<int>("h"); role = r.GetVal<int>("role"); n = r.GetVal<int>("n");
    x = r.GetVal<double>("x"); tag = r.GetVal<Str>("tag");
    r = q->Query("More", NULL);
    hist = r.GetVal<std::vector<double> >("hist");
    memo = r.GetVal<std::map<Str, int> >("memo");
  }
  template <class T> static std::vector<typename T::Ptr> all(ResBuf<T>& buf) {
    std::vector<typename T::Ptr> v = buf.PopN(buf.count());
    buf.Push(v);
    return v;
  }
  template <class T> static void put(Inventories& inv, const char* name, ResBuf<T>& buf) {
    std::vector<typename T::Ptr> v = all(buf);
    for (size_t i = 0; i < v.size(); ++i) inv[name].push_back(v[i]);
  }
  Inventories inv() {
    Inventories r;
    put(r, "a", a); put(r, "b", b); put(r, "p", p);
    return r;
  }
  void set_inv(Inventories& i) { a.Push(i["a"]); b.Push(i["b"]); p.Push(i["p"]); }
  Str inv_str(bool ids) {
    std::stringstream ss;
    Inventories i = inv();
    for (Inventories::iterator it = i.begin(); it != i.end(); ++it)
      for (size_t k = 0; k < it->second.size(); ++k) ss << " " << it->first << "{" << res_str(it->second[k], ids) << "}";
    return ss.str();
  }
  Str digest(Agent* me, bool ids, bool kids) {
    std::stringstream ss;
    ss << me->prototype() << " " << me->spec() << " " << me->kind() << " #" << me->id() << " parent " << me->parent_id() << "/"
       << (me->parent() ? me->parent()->id() : -1) << " in " << me->enter_time() << " life " << me->lifetime() << " h" << h
       << " role" << role << " n" << n << " x" << fnum(x) << " " << tag << " [";
    for (size_t i = 0; i < hist.size(); ++i) ss << fnum(hist[i]) << " ";
    ss << "] {";
    for (std::map<Str, int>::iterator i = memo.begin(); i != memo.end(); ++i) ss << i->first << "=" << i->second << " ";
    ss << "}";
    if (kids) {
      std::vector<Agent*> c(me->children().begin(), me->children().end());
      std::sort(c.begin(), c.end(), by_id);
      ss << " kids";
      for (size_t i = 0; i < c.size(); ++i) ss << " " << c[i]->id();
    }
    ss << inv_str(ids);
    return ss.str();
  }
  void log(Agent* me, const char* phase, const Str& extra = "") {
    Ev e;
    e.t = me->context()->time(); e.phase = phase; e.id = me->id();
    e.what = digest(me, false, true) + (extra.empty() ? "" : " | " + extra);
    X->cur->ev.push_back(e);
  }

  // draws from the simulation's random numbers; out-of-range values are judged
  void draw(Context* ctx, uint64_t r) {
    int lo = (int)((r >> 8) % 20), hi = lo + 1 + (int)((r >> 13) % 9);
    double v = 0;
    Str bad;
    switch (r % 7) {
      case 0: v = ctx->random_01(); if (v < 0 || v >= 1) bad = "random_01"; break;
      case 1: v = ctx->random_uniform_int(lo, hi); if (v < lo || v > hi) bad = "random_uniform_int"; break;
      case 2: v = ctx->random_uniform_real(lo, hi); if (v < lo || v > hi) bad = "random_uniform_real"; break;
      case 3: v = ctx->random_normal_real(lo + 1, 2, lo, hi); if (v < lo || v > hi) bad = "random_normal_real"; break;
      case 4: v = ctx->random_normal_int(lo + 1, 2, lo, hi); if (v < lo || v > hi) bad = "random_normal_int"; break;
      case 5: v = ctx->random() % 4096; break;
      case 6: {
        std::vector<double> f = ctx->GetPackage("box")->GetFillMass(7.5);
        for (size_t i = 0; i < f.size(); ++i) v += f[i];
        break;
      }
    }
    if (!bad.empty()) { tag = "OUT OF RANGE " + bad + " " + fnum(v) + " for " + std::to_string(lo) + ".." + std::to_string(hi); return; }
    h = (int)(((uint64_t)h + (uint64_t)(v * 1024)) & 0x3fffffff);
    x = v;
  }

  // one seeded action, decided by the agent's state alone
  void act(Agent* me, int slot) {
    Context* ctx = me->context();
    int t = ctx->time();
    uint64_t r = prf(me->id(), t, slot, (uint64_t)h * 31 + n);
    int tot = 0, a_ = 0;
    for (int i = 0; i < 10; ++i) tot += X->k.w[i];
    int pick = (int)(r % tot);
    for (a_ = 0; pick >= X->k.w[a_]; ++a_) pick -= X->k.w[a_];
    r >>= 16;
    if (X->k.random && (r & 0x30) == 0x30) draw(ctx, r);
    int population = 0;
    std::vector<Agent*> kids(me->children().begin(), me->children().end());
    std::sort(kids.begin(), kids.end(), by_id);
    std::set<Agent*> ags = SimInitTest::agents(ctx);
    for (std::set<Agent*>::iterator i = ags.begin(); i != ags.end(); ++i) if ((*i)->enter_time() != -1) ++population;
    switch (a_) {
      case 0: break;
      case 1: {
        Material::Ptr m = Material::Create(me, (1 + r % 12) * 0.25, ctx->GetRecipe(r & 0x1000 ? "r0" : "r1"));
        (r & 0x2000 ? a : b).Push(m);
        break;
      }
      case 2:
        p.Push(Product::Create(me, (1 + r % 6) * 0.5, (r & 0x100) ? "gold" : (r & 0x200) ? "tin" : "lead"));
        break;
      case 3: {
        if (population >= X->k.max_agents) break;
        Agent* par = (r & 3) == 0 ? NULL : (r & 3) == 1 && !kids.empty() ? kids[(r >> 4) % kids.size()] : me;
        ctx->SchedBuild(par, X->protos[(r >> 8) % X->protos.size()], t + 1 + (int)((r >> 16) % 4));
        break;
      }
      case 4: {
        if (population <= 2) break;
        Agent* who = !kids.empty() && (r & 3) ? kids[(r >> 4) % kids.size()] : me;
        ctx->SchedDecom(who, t + (int)((r >> 8) % 5));
        break;
      }
      case 5: ctx->Snapshot(); break;
      case 6:
        if (a.count() > 0 && (r & 1)) {
          Material::Ptr m = a.Pop();
          if ((r & 2) && m->quantity() > 0.3) { b.Push(m->ExtractQty(0.25)); }
          a.Push(m);
        } else if (b.count() > 1) {
          Material::Ptr m = b.Pop();
          Material::Ptr o = b.Pop();
          m->Absorb(o);
          a.Push(m);
        }
        break;
      case 7:
        if (a.count() > 0) {
          Material::Ptr m = a.Pop();
          bool fits = m->quantity() >= ctx->GetPackage("box")->fill_min() && m->quantity() <= ctx->GetPackage("box")->fill_max();
          m->ChangePackage((r & 1) && fits ? "box" : Package::unpackaged_name());
          a.Push(m);
        } else if (p.count() > 0) {
          Product::Ptr q = p.Pop();
          bool fits = q->quantity() >= ctx->GetPackage("box")->fill_min() && q->quantity() <= ctx->GetPackage("box")->fill_max();
          q->ChangePackage((r & 1) && fits ? "box" : Package::unpackaged_name());
          p.Push(q);
        }
        break;
      case 8: {
        int life = (int)(r % 9) + 1;
        if (me->enter_time() + life > t) me->lifetime_force(life);
        break;
      }
      case 9:
        hist.push_back((double)(r % 1000) / 8);
        if (hist.size() > 4) hist.erase(hist.begin());
        memo["k" + std::to_string(r % 3)] = (int)(r >> 8) % 1000;
        tag = (r & 1) ? "" : "tag" + std::to_string(r % 100);
        x = -(double)(1 + r % 4096) / 64;
        break;
    }
    h = (int)((prf(me->id(), t, slot + 100, (uint64_t)h) + a_) & 0x3fffffff);
  }
  void step(Agent* me, const char* phase, int base) {
    ++n;
    for (int i = 0; i < X->k.acts; ++i) act(me, base + i);
    log(me, phase);
    steps();
  }
};

void capture(Agent* me, Core& c) {
  if (!X->cur || !X->cur->capture) return;
  int t = me->context()->time();
  if (me->enter_time() == -1) return;
  Snap& s = X->cur->snaps[t];
  s.agents[me->id()] = c.digest(me, true, true);
  s.next[0] = SimInitTest::agent_id(); s.next[1] = SimInitTest::trans_id(me->context());
  s.next[2] = SimInitTest::comp_id(); s.next[3] = SimInitTest::state_id();
  s.next[4] = SimInitTest::obj_id(); s.next[5] = SimInitTest::qual_id();
  for (size_t i = 0; i < X->protos.size(); ++i) s.protos[X->protos[i]] = me->context()->n_prototypes(X->protos[i]);
  s.specs[me->spec()] = me->context()->n_specs(me->spec());
}

inline void base_tock(Region* a) { a->Region::Tock(); }
inline void base_tock(Institution* a) { a->Institution::Tock(); }
inline void base_tock(Facility*) {}

template <class B> class Ag : public B {
 public:
  Core c;
  Ag(Context* ctx, const char* spec) : B(ctx) { Agent::spec(spec); }
  virtual void InfileToDb(InfileTree*, DbInit) {}
  virtual void InitFrom(QueryableBackend* b) { B::InitFrom(b); c.load(b); }
  void InitFrom(Ag* m) { B::InitFrom(m); c.copy(m->c); }
  virtual void Snapshot(DbInit di) { B::Snapshot(di); capture(this, c); c.snap(di); }
  virtual void InitInv(Inventories& i) { c.set_inv(i); }
  virtual Inventories SnapshotInv() {
    Inventories r = c.inv();
    if (X->mixed) {
      r["none"];
      std::vector<Resource::Ptr>& m = r["mix"];
      Inventories q = c.inv();
      std::vector<Resource::Ptr> &u = q["b"], &v = q["p"];
      for (size_t i = 0; i < std::max(u.size(), v.size()); ++i) {
        bool odd = (this->id() + i) & 1;
        if (odd && i < v.size()) m.push_back(v[i]);
        if (i < u.size()) m.push_back(u[i]);
        if (!odd && i < v.size()) m.push_back(v[i]);
      }
    }
    return r;
  }
  virtual void Tick() { c.step(this, "tick", 1); }
  virtual void Tock() { base_tock(this); c.step(this, "tock", 20); }
  virtual void Decision() { watch(this->context()); B::Decision(); c.step(this, "decision", 40); }
  virtual void Build(Agent* par) {
    B::Build(par);
    c.h = (int)(prf(this->id(), this->context()->time(), 60, c.h) & 0x3fffffff);
    c.log(this, "build");
  }
  virtual void BuildNotify(Agent* m) { c.n += 10; c.h = (c.h + 3 * m->id()) & 0x3fffffff; c.log(this, "buildnotify"); }
  virtual void DecomNotify(Agent* m) { c.n += 100; c.h = (c.h + 5 * m->id()) & 0x3fffffff; }
  virtual void Decommission() { c.log(this, "exit"); B::Decommission(); }
};

class AReg : public Ag<Region> {
 public:
  AReg(Context* ctx) : Ag<Region>(ctx, ":dst:Reg") {}
  virtual Agent* Clone() { AReg* m = new AReg(context()); m->InitFrom(this); return m; }
};
class AInst : public Ag<Institution> {
 public:
  AInst(Context* ctx) : Ag<Institution>(ctx, ":dst:Inst") {}
  virtual Agent* Clone() { AInst* m = new AInst(context()); m->InitFrom(this); return m; }
};

template <class T> struct Traits;
template <> struct Traits<Material> { static const char* commod() { return "cm"; } };
template <> struct Traits<Product> { static const char* commod() { return "cp"; } };

class AFac : public Ag<Facility> {
 public:
  AFac(Context* ctx) : Ag<Facility>(ctx, ":dst:Fac") {}
  virtual Agent* Clone() { AFac* m = new AFac(context()); m->InitFrom(this); return m; }

  ResBuf<Material>& stock(Material*) { return c.a; }
  ResBuf<Product>& stock(Product*) { return c.p; }
  ResBuf<Material>& in(Material*) { return c.b; }
  ResBuf<Product>& in(Product*) { return c.p; }
  Material::Ptr want(Material*, double q) { return Material::CreateUntracked(q, context()->GetRecipe("r0")); }
  Product::Ptr want(Product*, double q) { return Product::CreateUntracked(q, "gold"); }

  template <class T> std::set<typename RequestPortfolio<T>::Ptr> req(int bit) {
    std::set<typename RequestPortfolio<T>::Ptr> s;
    if (!(c.role & bit)) return s;
    uint64_t r = prf(id(), context()->time(), 70 + bit, c.h);
    if (r % 3 == 0) return s;
    typename RequestPortfolio<T>::Ptr port(new RequestPortfolio<T>());
    port->AddRequest(want((T*)NULL, (1 + (r >> 8) % 16) * 0.25), this, Traits<T>::commod(), 1 + (double)(r >> 12) / 1e18);
    s.insert(port);
    return s;
  }
  template <class T> std::set<typename BidPortfolio<T>::Ptr> bid(typename CommodMap<T>::type& m, int bit) {
    std::set<typename BidPortfolio<T>::Ptr> s;
    double have = stock((T*)NULL).quantity();
    if (!(c.role & bit) || have < 0.2 || !m.count(Traits<T>::commod())) return s;
    typename BidPortfolio<T>::Ptr port(new BidPortfolio<T>());
    std::vector<Request<T>*>& rq = m[Traits<T>::commod()];
    for (size_t i = 0; i < rq.size(); ++i) {
      double q = std::min(have, rq[i]->target()->quantity());
      port->AddBid(rq[i], want((T*)NULL, q), this);
    }
    port->AddConstraint(CapacityConstraint<T>(have));
    s.insert(port);
    return s;
  }
  template <class T> void pref(typename PrefMap<T>::type& m) {
    typename PrefMap<T>::type::iterator i;
    for (i = m.begin(); i != m.end(); ++i) {
      typename std::map<Bid<T>*, double>::iterator j;
      for (j = i->second.begin(); j != i->second.end(); ++j) {
        uint64_t r = prf(i->first->requester()->manager()->id(), context()->time(), 90 + j->first->bidder()->manager()->id(), 5);
        j->second = 1 + (double)(r >> 11) / 9007199254740992.0;
      }
    }
  }
  template <class T> static bool tr_less(const Trade<T>& a, const Trade<T>& b) {
    return a.request->requester()->manager()->id() < b.request->requester()->manager()->id();
  }
  template <class T> void give(const std::vector<Trade<T> >& trades,
                               std::vector<std::pair<Trade<T>, typename T::Ptr> >& resp) {
    std::vector<Trade<T> > v = trades;
    std::sort(v.begin(), v.end(), tr_less<T>);
    for (size_t i = 0; i < v.size(); ++i) {
      std::vector<typename T::Ptr> ms;
      double need = v[i].amt;
      // whole resources first, then a part of the last one
      while (need > 1e-9 && stock((T*)NULL).count() > 0) {
        typename T::Ptr m = stock((T*)NULL).Pop();
        if (m->quantity() > need + 1e-9) {
          typename T::Ptr part = boost::dynamic_pointer_cast<T>(m->ExtractRes(need));
          stock((T*)NULL).Push(m);
          m = part;
        }
        need -= m->quantity();
        ms.push_back(m);
      }
      typename T::Ptr out = ms[0];
      for (size_t k = 1; k < ms.size(); ++k) absorb(out, ms[k]);
      resp.push_back(std::make_pair(v[i], out));
      c.log(this, "give", fnum(v[i].amt) + " to " + std::to_string(v[i].request->requester()->manager()->id()));
    }
  }
  void absorb(Material::Ptr a, Material::Ptr b) { a->Absorb(b); }
  void absorb(Product::Ptr a, Product::Ptr b) {
    if (a->quality() == b->quality()) a->Absorb(b);
    else c.p.Push(b);        // cannot be merged: stays behind
  }
  template <class T> static bool got_less(const std::pair<Trade<T>, typename T::Ptr>& a,
                                          const std::pair<Trade<T>, typename T::Ptr>& b) {
    return a.first.bid->bidder()->manager()->id() < b.first.bid->bidder()->manager()->id();
  }
  template <class T> void take(const std::vector<std::pair<Trade<T>, typename T::Ptr> >& resp) {
    std::vector<std::pair<Trade<T>, typename T::Ptr> > v = resp;
    std::sort(v.begin(), v.end(), got_less<T>);
    for (size_t i = 0; i < v.size(); ++i) {
      in((T*)NULL).Push(v[i].second);
      c.log(this, "take", fnum(v[i].first.amt) + " from " + std::to_string(v[i].first.bid->bidder()->manager()->id()));
    }
  }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { return req<Material>(1); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { return req<Product>(4); }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& m) { return bid<Material>(m, 2); }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& m) { return bid<Product>(m, 8); }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& m) { pref<Material>(m); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& m) { pref<Product>(m); }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& t,
                             std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { give<Material>(t, r); }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& t,
                                std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { give<Product>(t, r); }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { take<Material>(r); }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { take<Product>(r); }
};

// records what every agent holds before the first decision of a step
void watch(Context* ctx) {
  Run* r = X->cur;
  if (r->watched == -2 || r->watched == ctx->time()) return;
  r->watched = ctx->time();
  std::set<Agent*> ags = SimInitTest::agents(ctx);
  for (std::set<Agent*>::iterator i = ags.begin(); i != ags.end(); ++i) {
    if ((*i)->enter_time() == -1) continue;
    Inventories inv = (*i)->SnapshotInv(), &to = r->held[r->watched][(*i)->id()];
    for (Inventories::iterator j = inv.begin(); j != inv.end(); ++j)
      for (size_t k = 0; k < j->second.size(); ++k) to[j->first].push_back(j->second[k]->Clone());
  }
}

Agent* mk_reg(Context* c) { return new AReg(c); }
Agent* mk_inst(Context* c) { return new AInst(c); }
Agent* mk_fac(Context* c) { return new AFac(c); }

// passes whole batches to the database until the crash point is reached
class CrashBackend : public RecBackend {
 public:
  RecBackend* to;
  uint64_t limit, seen;
  bool crashed;
  CrashBackend(RecBackend* t, uint64_t l) : to(t), limit(l), seen(0), crashed(false) {}
  virtual void Notify(DatumList d) {
    if (!crashed && seen + d.size() > limit) { crashed = true; fault("crash"); }
    seen += d.size();
    if (!crashed) to->Notify(d);
  }
  virtual Str Name() { return "crash"; }
  virtual void Flush() { if (!crashed) to->Flush(); }
  virtual void Close() {}
};

Str row_str(const Row& r) {
  std::stringstream ss;
  for (size_t i = 0; i < r.f.size(); ++i) {
    if (r.f[i] == "SimId") continue;
    ss << r.f[i] << "=";
    const Any& v = r.v[i];
    if (v.type() == typeid(int)) ss << v.cast<int>();
    else if (v.type() == typeid(bool)) ss << v.cast<bool>();
    else if (v.type() == typeid(Str)) ss << v.cast<Str>();
    else ss << "?";
    ss << " ";
  }
  return ss.str();
}

const char* const kTables[] = {"AgentEntry", "AgentExit", "BuildSchedule", "DecomSchedule", "Finish", "Snapshots"};
const char* const kTimeCol[] = {"EnterTime", "ExitTime", "SchedTime", "SchedTime", "EndTime", "Time"};

void check_state(const char* what, Context* ctx, const Snap& want, int t) {
  std::map<int, Str> got;
  std::set<Agent*> ags = SimInitTest::agents(ctx);
  for (std::set<Agent*>::iterator i = ags.begin(); i != ags.end(); ++i) {
    Agent* a = *i;
    if (a->enter_time() == -1) continue;
    Core* c = NULL;
    if (AReg* r = dynamic_cast<AReg*>(a)) c = &r->c;
    if (AInst* r = dynamic_cast<AInst*>(a)) c = &r->c;
    if (AFac* r = dynamic_cast<AFac*>(a)) c = &r->c;
    if (!c) fail("foreign-agent", "%s has an agent of unknown kind", what);
    got[a->id()] = c->digest(a, true, true);
  }
  for (std::map<int, Str>::const_iterator i = want.agents.begin(); i != want.agents.end(); ++i) {
    if (!got.count(i->first))
      fail("agent-missing", "%s from step %d lacks agent %s", what, t, i->second.c_str());
    if (got[i->first] != i->second)
      fail("agent-differs", "%s from step %d has\n  %s\nbut the snapshot was taken of\n  %s", what, t,
           got[i->first].c_str(), i->second.c_str());
  }
  for (std::map<int, Str>::iterator i = got.begin(); i != got.end(); ++i)
    if (!want.agents.count(i->first))
      fail("agent-extra", "%s from step %d has an agent that was not in the simulation then: %s", what, t, i->second.c_str());
  int next[6] = {SimInitTest::agent_id(), SimInitTest::trans_id(ctx), SimInitTest::comp_id(),
                 SimInitTest::state_id(), SimInitTest::obj_id(), SimInitTest::qual_id()};
  static const char* nm[6] = {"agent", "transaction", "composition", "resource state", "resource object", "product quality"};
  for (int i = 0; i < 6; ++i)
    if (next[i] != want.next[i])
      fail("next-id", "%s from step %d would give the next %s the id %d; it was %d", what, t, nm[i], next[i], want.next[i]);
  for (std::map<Str, int>::const_iterator i = want.protos.begin(); i != want.protos.end(); ++i)
    if (ctx->n_prototypes(i->first) != i->second)
      fail("population", "%s from step %d counts %d agents of prototype %s; there were %d", what, t,
           ctx->n_prototypes(i->first), i->first.c_str(), i->second);
  for (std::map<Str, int>::const_iterator i = want.specs.begin(); i != want.specs.end(); ++i)
    if (ctx->n_specs(i->first) != i->second)
      fail("population", "%s from step %d counts %d agents of %s; there were %d", what, t,
           ctx->n_specs(i->first), i->first.c_str(), i->second);
}

struct Settings {
  double eps, eps_rsrc;
  int dur, y0, m0, seed, stride, dt;
  Str handle, decay;
  bool inv, invc, excl;
  std::map<Str, CompMap> recipes;
  double pk_lo, pk_hi; Str pk_strat;
  int tu_lo, tu_hi; Str tu_strat;
};

void check_settings(const char* what, Context* ctx, const Settings& s) {
  SimInfo si = ctx->sim_info();
  if (si.duration != s.dur || si.y0 != s.y0 || si.m0 != s.m0 || si.handle != s.handle || si.decay != s.decay ||
      (int)si.seed != s.seed || (int)si.stride != s.stride || (int)si.dt != s.dt || si.explicit_inventory != s.inv ||
      si.explicit_inventory_compact != s.invc || si.eps != s.eps || si.eps_rsrc != s.eps_rsrc)
    fail("settings", "%s runs with other settings than the simulation had: duration %d for %d, start %d/%d for %d/%d, handle "
         "'%s' for '%s', decay %s for %s, seed %d for %d, stride %d for %d, dt %d for %d", what, si.duration, s.dur, si.m0, si.y0,
         s.m0, s.y0, si.handle.c_str(), s.handle.c_str(), si.decay.c_str(), s.decay.c_str(), (int)si.seed, s.seed,
         (int)si.stride, s.stride, (int)si.dt, s.dt);
  if (eps() != s.eps || eps_rsrc() != s.eps_rsrc)
    fail("tolerance", "%s uses tolerances %g and %g; the simulation used %g and %g", what, eps(), eps_rsrc(), s.eps, s.eps_rsrc);
  for (std::map<Str, CompMap>::const_iterator i = s.recipes.begin(); i != s.recipes.end(); ++i) {
    CompMap c = ctx->GetRecipe(i->first)->mass();
    double tot = 0, want = 0;
    for (CompMap::iterator j = c.begin(); j != c.end(); ++j) tot += j->second;
    for (CompMap::const_iterator j = i->second.begin(); j != i->second.end(); ++j) want += j->second;
    bool ok = c.size() == i->second.size();
    for (CompMap::const_iterator j = i->second.begin(); ok && j != i->second.end(); ++j)
      ok = c.count(j->first) && near(c[j->first] / tot, j->second / want, 1e-9);
    if (!ok) fail("recipe", "%s has a different recipe %s", what, i->first.c_str());
  }
  Package::Ptr p = ctx->GetPackage("box");
  if (p->fill_min() != s.pk_lo || p->fill_max() != s.pk_hi || p->strategy() != s.pk_strat)
    fail("package", "%s has a different package", what);
  TransportUnit::Ptr u = ctx->GetTransportUnit("tu");
  if (u->fill_min() != s.tu_lo || u->fill_max() != s.tu_hi || u->strategy() != s.tu_strat)
    fail("transport-unit", "%s has a different transport unit", what);
}

struct ProtoSpec { int kind, h, role, life; Str name; bool hist; double hv; };
struct InitSpec { int proto, parent; };      // parent: index of an earlier one, -1 for none
struct Scen {
  Settings s;
  Knobs k;
  std::vector<ProtoSpec> protos;
  std::vector<InitSpec> init;
  int sched_proto, sched_t, decom_who, decom_t;
  unsigned dump;
};

void gen(Scen* sc) {
  Knobs& k = sc->k;
  k.key = choose(1u << 30);
  k.dur = range(2, 14);
  k.acts = 1 + (int)choose(2);
  k.max_agents = range(3, 12);
  k.random = false;
  // nothing, material, product, build, decom, snapshot, move, package, lifetime, state
  static const int base[10] = {4, 4, 2, 3, 2, 2, 3, 2, 1, 2};
  for (int i = 0; i < 10; ++i) k.w[i] = i == 0 ? 4 : i != 5 && chance(1, 4) ? 0 : base[i];
  Settings& s = sc->s;
  s.eps = chance(1, 3) ? 1e-8 : 1e-6;
  s.eps_rsrc = chance(1, 3) ? 1e-7 : 1e-6;
  s.dur = k.dur;
  s.y0 = range(1990, 2030); s.m0 = range(1, 12);
  s.seed = (int)choose(1u << 20); s.stride = (int)choose(1000);
  s.dt = chance(1, 2) ? 2629846 : 86400 * range(1, 40);
  s.handle = chance(1, 2) ? "" : "handle" + std::to_string(choose(100));
  s.decay = chance(1, 2) ? "never" : "manual";
  s.inv = chance(1, 3); s.invc = chance(1, 3);
  s.excl = chance(1, 2);
  static const char* st[] = {"first", "equal", "uniform", "normal"};
  s.pk_lo = range(0, 4) * 0.5; s.pk_hi = s.pk_lo + range(1, 4); s.pk_strat = st[choose(4)];
  static const char* ts[] = {"first", "equal", "hybrid"};
  s.tu_lo = range(1, 3); s.tu_hi = s.tu_lo + (int)choose(4); s.tu_strat = ts[choose(3)];
  s.recipes["r0"][922350000] = range(1, 9); s.recipes["r0"][922380000] = range(1, 9);
  s.recipes["r1"][942390000] = range(1, 9); if (chance(1, 2)) s.recipes["r1"][922380000] = 4;
  static const unsigned bufs[] = {1, 7, 40, 300};
  sc->dump = bufs[choose(4)];
  int np = range(3, 6);
  for (int i = 0; i < np; ++i) {
    ProtoSpec p;
    p.kind = i < 3 ? i : (int)choose(3);
    p.name = Str(p.kind == 0 ? "reg" : p.kind == 1 ? "inst" : "fac") + std::to_string(i);
    p.h = (int)choose(1000); p.role = (int)choose(16);
    p.hist = chance(1, 2); p.hv = p.hist ? range(-4, 4) : 0;
    p.life = chance(1, 3) ? range(1, k.dur) : -1;
    sc->protos.push_back(p);
  }
  int n = range(1, 5);
  for (int i = 0; i < n; ++i) {
    InitSpec a;
    a.proto = i < 3 ? i : (int)choose(np);
    a.parent = i == 0 || chance(1, 6) ? -1 : (int)choose(i);
    sc->init.push_back(a);
  }
  sc->sched_t = chance(1, 4) ? range(1, k.dur) : 0;
  sc->sched_proto = sc->sched_t ? (int)choose(np) : 0;
  sc->decom_who = chance(1, 4) ? (int)choose(n) : -1;
  sc->decom_t = sc->decom_who >= 0 ? (int)choose(k.dur) : 0;
}

void use(const Scen& sc) {
  X->k = sc.k;
  X->protos.clear();
  for (size_t i = 0; i < sc.protos.size(); ++i) X->protos.push_back(sc.protos[i].name);
  SimInitTest::ctor(":dst:Reg", mk_reg);
  SimInitTest::ctor(":dst:Inst", mk_inst);
  SimInitTest::ctor(":dst:Fac", mk_fac);
}

// fills a database the way the input file loader leaves it
void load(const Scen& sc, Recorder* rec) {
  const Settings& s = sc.s;
  cy_eps = s.eps; cy_eps_rsrc = s.eps_rsrc;
  Timer ti0;
  Context ctx0(&ti0, rec);
  SimInfo si(s.dur, s.y0, s.m0, s.handle, s.decay);
  si.seed = s.seed; si.stride = s.stride; si.dt = s.dt; si.eps = s.eps; si.eps_rsrc = s.eps_rsrc;
  si.explicit_inventory = s.inv; si.explicit_inventory_compact = s.invc;
  ctx0.InitSim(si);
  ctx0.NewDatum("SolverInfo")->AddVal("Solver", Str("greedy"))->AddVal("ExclusiveOrders", s.excl)->Record();
  for (std::map<Str, CompMap>::const_iterator i = s.recipes.begin(); i != s.recipes.end(); ++i) {
    Composition::Ptr c = Composition::CreateFromMass(i->second);
    c->Record(&ctx0);
    ctx0.AddRecipe(i->first, c);
  }
  ctx0.AddPackage("box", s.pk_lo, s.pk_hi, s.pk_strat);
  ctx0.AddTransportUnit("tu", s.tu_lo, s.tu_hi, s.tu_strat);
  for (size_t i = 0; i < sc.protos.size(); ++i) {
    const ProtoSpec& p = sc.protos[i];
    Agent* a;
    Core* c;
    if (p.kind == 0) { AReg* m = new AReg(&ctx0); a = m; c = &m->c; }
    else if (p.kind == 1) { AInst* m = new AInst(&ctx0); a = m; c = &m->c; }
    else { AFac* m = new AFac(&ctx0); a = m; c = &m->c; }
    c->h = p.h; c->role = p.role; c->tag = "p" + std::to_string(i);
    if (p.hist) c->hist.push_back(p.hv);
    a->prototype(p.name);
    if (p.life > 0) a->lifetime(p.life);
    ctx0.AddPrototype(p.name, a);
  }
  std::vector<Agent*> in;
  for (size_t i = 0; i < sc.init.size(); ++i) {
    Agent* a = ctx0.CreateAgent<Agent>(sc.protos[sc.init[i].proto].name);
    a->Build(sc.init[i].parent < 0 ? NULL : in[sc.init[i].parent]);
    in.push_back(a);
  }
  if (sc.sched_t) ctx0.SchedBuild(in[0], sc.protos[sc.sched_proto].name, sc.sched_t);
  if (sc.decom_who >= 0) ctx0.SchedDecom(in[sc.decom_who], sc.decom_t);
  SimInit::Snapshot(&ctx0);
  rec->Flush();
}

void run() {
  W w;
  X = &w;
  stub_atomic_masses();
  Scen sc;
  gen(&sc);
  use(sc);
  Settings& s = sc.s;
  unsigned dump = sc.dump;
  bool h5 = chance(1, 25);
  Str path = h5 ? Str(scratch()) + "/out.h5" : Str(":memory:");
  FullBackend* db = h5 ? (FullBackend*)new Hdf5Back(path) : (FullBackend*)new SqliteBack(path);
  CrashBackend* crash = new CrashBackend(db, chance(1, 3) ? ~0ull : 120 + choose(700));
  MemBackend* mem = new MemBackend();
  Recorder* rec = new Recorder(dump);
  const boost::uuids::uuid sim_id = rec->sim_id();
  rec->RegisterBackend(crash);
  rec->RegisterBackend(mem);
  Run A;
  A.capture = true;
  w.cur = &A;
  load(sc, rec);
  A.ev.clear();
  Snap start = A.snaps[0];
  A.snaps.clear();
  if (crash->crashed) discard("crashed before the simulation was set up");

  // the uninterrupted run
  SimInitTest::fresh_process((int)choose(2) * 50);
  cy_eps = s.eps; cy_eps_rsrc = s.eps_rsrc;   // same process as the loader
  Str err;
  SimInit* si = new SimInit();
  try { si->Init(rec, db); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("init-failed", "the simulation could not be set up: %s", err.c_str());
  check_state("the simulation initialised", si->context(), start, 0);
  check_settings("the simulation initialised", si->context(), s);
  A.ctx = si->context();
  try { si->timer()->RunSim(); rec->Flush(); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("run-failed", "the simulation failed: %s", err.c_str());
  rec->Flush();
  for (size_t i = 0; i < A.ev.size(); ++i) if (verbose()) note("A %d %s %d %s", A.ev[i].t, A.ev[i].phase, A.ev[i].id, A.ev[i].what.c_str());

  // which snapshots were completely written before the crash
  uint64_t written = crash->crashed ? 0 : ~0ull;
  if (crash->crashed) {
    // whole batches up to the limit
    written = crash->limit;
  }
  std::vector<int> ts_;
  std::map<int, size_t> snap_row;
  {
    int nid = 0, cur = -1;
    for (size_t i = 0; i < mem->rows.size(); ++i) {
      const Row& r = mem->rows[i];
      if (r.title == "Snapshots") { cur = r.i("Time"); nid = 0; snap_row[cur] = i; }
      if (r.title == "NextIds" && ++nid == 6 && i + dump < written && cur > 0 && cur < s.dur) ts_.push_back(cur);
    }
  }
  stat("snapshots", ts_.size());
  if (ts_.empty()) { stat("no-snapshot"); return; }
  int t = ts_[choose((uint32_t)ts_.size())];
  Snap want = A.snaps[t];
  note("restart at %d of %d, %zu agents, crash %s", t, s.dur, want.agents.size(), crash->crashed ? "yes" : "no");
  if (want.agents.empty()) { stat("empty-snapshot"); return; }
  nontrivial();
  state(mix(hstr(want.agents.begin()->second), want.agents.size()));

  // a fresh process
  delete si;
  rec->Close();
  delete rec;
  if (h5) { delete db; db = new Hdf5Back(path); fault("reopen"); }
  SimInitTest::fresh_process((int)choose(2) * 100);
  Run R;
  R.capture = true;
  w.cur = &R;
  if (chance(1, 8)) {
    // the database fails once while it is read: the restart is refused, and
    // can be tried again
    FaultyDb bad(db);
    bad.rfail = choose(chance(1, 2) ? 12 : 150);
    SimInit* sx = new SimInit();
    bool refused = false;
    try { sx->Restart(&bad, sim_id, t); } catch (std::exception& e) { refused = true; }
    if (bad.fired && !refused) fail("read-error-ignored", "the simulation was restarted although reading the database failed");
    if (!bad.fired && refused) fail("restart-failed", "restarting from step %d failed", t);
    stat("restart-read-fault");
    SimInitTest::fresh_process((int)choose(2) * 100);
    R.ev.clear(); R.snaps.clear();
  }
  SimInit* sr = new SimInit();
  try { sr->Restart(db, sim_id, t); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("restart-failed", "restarting from step %d failed: %s", t, err.c_str());
  check_state("the simulation restarted", sr->context(), want, t);
  check_settings("the simulation restarted", sr->context(), s);
  if (sr->context()->time() != t) fail("restart-time", "the simulation restarted from step %d begins at step %d", t, sr->context()->time());
  R.snaps.clear();
  R.ev.clear();
  MemBackend* mem2 = new MemBackend();
  sr->recorder()->RegisterBackend(mem2);
  R.ctx = sr->context();
  try { sr->timer()->RunSim(); sr->recorder()->Flush(); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("restarted-run-failed", "the simulation restarted from step %d failed: %s", t, err.c_str());

  // the continuation repeats the reference
  struct K {
    static bool less(const Ev& a, const Ev& b) {
      // callbacks of one step are compared per agent and phase: the order in
      // which traders and leaving agents are visited follows memory addresses
      if (a.t != b.t) return a.t < b.t;
      if (a.id != b.id) return a.id < b.id;
      return false;
    }
  };
  std::vector<Ev> ea, er = R.ev;
  for (size_t i = 0; i < A.ev.size(); ++i) if (A.ev[i].t >= t) ea.push_back(A.ev[i]);
  std::stable_sort(ea.begin(), ea.end(), K::less);
  std::stable_sort(er.begin(), er.end(), K::less);
  for (size_t i = 0; i < ea.size() || i < er.size(); ++i) {
    if (i < ea.size() && i < er.size() && ea[i] == er[i]) continue;
    fail("diverges", "restarted from step %d, the simulation diverges: it had\n  %s\nbut the original had\n  %s", t,
         i < er.size() ? ("step " + std::to_string(er[i].t) + " " + er[i].phase + " " + er[i].what).c_str() : "(nothing more)",
         i < ea.size() ? ("step " + std::to_string(ea[i].t) + " " + ea[i].phase + " " + ea[i].what).c_str() : "(nothing more)");
  }
  for (int k = 0; k < 6; ++k) {
    std::multiset<Str> ra, rr;
    std::vector<const Row*> v = mem->table(kTables[k]);
    for (size_t i = 0; i < v.size(); ++i) {
      int when = v[i]->i(kTimeCol[k]);
      if (when > t || (when == t && k != 5)) ra.insert(row_str(*v[i]));
    }
    v = mem2->table(kTables[k]);
    for (size_t i = 0; i < v.size(); ++i) rr.insert(row_str(*v[i]));
    if (ra != rr) {
      Str miss, extra;
      for (std::multiset<Str>::iterator i = ra.begin(); i != ra.end(); ++i) if (rr.count(*i) < ra.count(*i)) { miss = *i; break; }
      for (std::multiset<Str>::iterator i = rr.begin(); i != rr.end(); ++i) if (ra.count(*i) < rr.count(*i)) { extra = *i; break; }
      fail("output-differs", "restarted from step %d, table %s differs from the original's later part: missing '%s', extra '%s'", t,
           kTables[k], miss.c_str(), extra.c_str());
    }
  }
  // transactions: same trades, ids never reused
  {
    std::multiset<Str> ta, tr;
    std::set<int> used;
    int at = want.next[1];
    std::vector<const Row*> v = mem->table("Transactions");
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i]->i("Time") >= t) ta.insert(std::to_string(v[i]->i("Time")) + " " + std::to_string(v[i]->i("SenderId")) + ">" +
                                          std::to_string(v[i]->i("ReceiverId")) + " " + v[i]->s("Commodity"));
    v = mem2->table("Transactions");
    for (size_t i = 0; i < v.size(); ++i) {
      tr.insert(std::to_string(v[i]->i("Time")) + " " + std::to_string(v[i]->i("SenderId")) + ">" +
                std::to_string(v[i]->i("ReceiverId")) + " " + v[i]->s("Commodity"));
      int id = v[i]->i("TransactionId");
      if (id < at || !used.insert(id).second) fail("transaction-id", "the restarted simulation reuses transaction id %d", id);
    }
    if (ta != tr) fail("trades-differ", "restarted from step %d, the simulation records %zu trades instead of %zu (or different ones)", t, tr.size(), ta.size());
    stat("continued-trades", tr.size());
  }
  {
    std::set<int> used;
    std::vector<const Row*> v = mem2->table("Resources");
    for (size_t i = 0; i < v.size(); ++i) {
      int id = v[i]->i("ResourceId");
      if (id < want.next[3] || !used.insert(id).second)
        fail("resource-id", "the restarted simulation reuses resource id %d", id);
    }
    v = mem2->table("AgentEntry");
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i]->i("AgentId") < want.next[0]) fail("agent-id", "the restarted simulation reuses agent id %d", v[i]->i("AgentId"));
    v = mem2->table("Info");
    if (v.size() != 1 || v[0]->i("BranchTime") != t || v[0]->s("ParentType") != "restart" ||
        v[0]->get<boost::uuids::uuid>("ParentSimId") != sim_id)
      fail("lineage", "the restarted simulation does not record which simulation and step it continues");
  }
  stat("restarts");
}


// ---- P16: reproducibility and random numbers -----------------------------

Str any_str(const Any& v) {
  std::stringstream ss;
  if (v.type() == typeid(int)) ss << v.cast<int>();
  else if (v.type() == typeid(bool)) ss << v.cast<bool>();
  else if (v.type() == typeid(double)) { char b[64]; snprintf(b, sizeof b, "%a", v.cast<double>()); ss << b; }
  else if (v.type() == typeid(float)) ss << v.cast<float>();
  else if (v.type() == typeid(Str)) ss << v.cast<Str>();
  else if (v.type() == typeid(boost::uuids::uuid)) ss << v.cast<boost::uuids::uuid>();
  else if (v.type() == typeid(std::vector<double>)) {
    std::vector<double> x = v.cast<std::vector<double> >();
    for (size_t i = 0; i < x.size(); ++i) { char b[64]; snprintf(b, sizeof b, "%a,", x[i]); ss << b; }
  } else if (v.type() == typeid(std::map<int, double>)) {
    std::map<int, double> x = v.cast<std::map<int, double> >();
    for (std::map<int, double>::iterator i = x.begin(); i != x.end(); ++i) { char b[64]; snprintf(b, sizeof b, "%d:%a,", i->first, i->second); ss << b; }
  } else if (v.type() == typeid(std::map<Str, int>)) {
    std::map<Str, int> x = v.cast<std::map<Str, int> >();
    for (std::map<Str, int>::iterator i = x.begin(); i != x.end(); ++i) ss << i->first << ":" << i->second << ",";
  } else ss << "?";
  return ss.str();
}

bool ev_less(const Ev& a, const Ev& b) {
  if (a.t != b.t) return a.t < b.t;
  return a.id < b.id;
}

// runs one whole simulation; returns its output, row by row (exact), or its
// history up to the order of simultaneous trades
std::vector<Str> simulate(const Scen& sc, bool exact) {
  std::vector<Str> out;
  use(sc);
  SimInitTest::fresh_process(0);
  FullBackend* db = new SqliteBack(":memory:");
  MemBackend* mem = new MemBackend();
  Recorder* rec = new Recorder(sim_uuid());
  rec->set_dump_count(sc.dump);
  rec->RegisterBackend(db);
  rec->RegisterBackend(mem);
  Run A;
  A.capture = false;
  X->cur = &A;
  try {
    load(sc, rec);
    SimInit* si = new SimInit();
    si->Init(rec, db);
    A.ctx = si->context();
    si->timer()->RunSim();
    rec->Flush();
    delete si;
  } catch (std::exception& e) { out.push_back(Str("ERROR ") + e.what()); }
  if (exact) {
    for (size_t i = 0; i < mem->rows.size(); ++i) {
      const Row& r = mem->rows[i];
      Str l = r.title + " ";
      for (size_t k = 0; k < r.f.size(); ++k) l += r.f[k] + "=" + any_str(r.v[k]) + " ";
      out.push_back(l);
    }
  } else {
    std::stable_sort(A.ev.begin(), A.ev.end(), ev_less);
    for (size_t i = 0; i < A.ev.size(); ++i)
      out.push_back("step " + std::to_string(A.ev[i].t) + " " + A.ev[i].phase + " " + A.ev[i].what);
  }
  for (size_t i = 0; i < A.ev.size(); ++i)
    if (A.ev[i].what.find("OUT OF RANGE") != Str::npos) { out.insert(out.begin(), A.ev[i].what); break; }
  delete rec;
  return out;
}

struct Nuisance {
  int perturb;               // what freshly allocated memory contains
  long clock;                // offset of every clock
  bool before;               // another simulation ran first
  int draws;                 // random numbers drawn before
  int junk;                  // live allocations made before
};

struct Child { int fd; pid_t pid; };
Child start_child(const Scen& sc, const Scen& other, const Nuisance& nu, bool exact) {
  int fd[2];
  if (pipe(fd)) fail("harness", "pipe");
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    mallopt(M_PERTURB, nu.perturb);
    dst_clock_offset = nu.clock;
    std::vector<void*> keep;
    for (int i = 0; i < nu.junk; ++i) keep.push_back(malloc(16 + (i * 37) % 900));
    for (size_t i = 0; i < keep.size(); i += 2) free(keep[i]);
    char e[8];
    for (int i = 0; i < nu.perturb % 5; ++i) if (getentropy(e, 1 + nu.perturb % 8)) _exit(3);
    std::vector<Str> o;
    if (nu.before) simulate(other, false);
    for (int i = 0; i < nu.draws; ++i) { RandomNumberGenerator g; g.random(); if (i % 3 == 0) g.random_normal_real(1, 1, 0, 9); }
    o = simulate(sc, exact);
    FILE* f = fdopen(fd[1], "w");
    for (size_t i = 0; i < o.size(); ++i) { fputs(o[i].c_str(), f); fputc('\n', f); }
    fputs("END\n", f);
    fclose(f);
    _exit(0);
  }
  close(fd[1]);
  Child c = {fd[0], pid};
  return c;
}

std::vector<Str> finish_child(Child c) {
  Str all;
  char b[65536];
  ssize_t n;
  while ((n = read(c.fd, b, sizeof b)) > 0) all.append(b, n);
  close(c.fd);
  int st;
  waitpid(c.pid, &st, 0);
  std::vector<Str> v;
  std::stringstream ss(all);
  Str l;
  while (std::getline(ss, l)) v.push_back(l);
  return v;
}

template <class D> struct Stat {
  static void check(const char* name, D& d, double lo, double hi, double mean, double sd, int n) {
    double s = 0;
    for (int i = 0; i < n; ++i) {
      double v = d.sample();
      if (!(v >= lo && v <= hi)) fail("range", "%s drew %g, outside its range %g to %g", name, v, lo, hi);
      s += v;
    }
    if (sd >= 0 && fabs(s / n - mean) > 9 * sd / sqrt(n) + 1e-9)
      fail("distribution", "the mean of %d draws from %s is %g; it should be near %g", n, name, s / n, mean);
  }
};

void distributions() {
  Timer ti;
  Recorder rec;
  Context ctx(&ti, &rec);
  SimInfo si(5);
  si.seed = choose(1u << 30);
  ctx.InitSim(si);
  int n = range(20, 400);
  double a = range(-40, 40) * 0.25, w = range(1, 40) * 0.25, p = range(1, 9) / 10.0;
  switch (choose(9)) {
    case 0: { FixedDoubleDist d(a); Stat<FixedDoubleDist>::check("FixedDoubleDist", d, a, a, a, 0, n); break; }
    case 1: { UniformDoubleDist d(a, a + w); Stat<UniformDoubleDist>::check("UniformDoubleDist", d, a, a + w, a + w / 2, w / 3.4, n); break; }
    case 2: { NormalDoubleDist d(a, w / 3, a - w, a + w); Stat<NormalDoubleDist>::check("NormalDoubleDist", d, a - w, a + w, a, w / 3, n); break; }
    case 3: { FixedIntDist d((int)a); Stat<FixedIntDist>::check("FixedIntDist", d, (int)a, (int)a, (int)a, 0, n); break; }
    case 4: { int lo = (int)a, k = (int)w + 1; UniformIntDist d(lo, lo + k); Stat<UniformIntDist>::check("UniformIntDist", d, lo, lo + k, lo + k / 2.0, (k + 1) / 3.4, n); break; }
    case 5: { int lo = (int)a, k = (int)w + 1; NormalIntDist d(lo, k / 3.0, lo - k, lo + k); Stat<NormalIntDist>::check("NormalIntDist", d, lo - k, lo + k, lo, k / 3.0 + 0.3, n); break; }
    case 6: { int k = range(1, 20); BinomialIntDist d(k, p); Stat<BinomialIntDist>::check("BinomialIntDist", d, 0, k, k * p, sqrt(k * p * (1 - p)), n); break; }
    case 7: { double m = range(1, 40) * 0.5; PoissonIntDist d(m); Stat<PoissonIntDist>::check("PoissonIntDist", d, 0, 1e6, m, sqrt(m), n);
               DST_CHECK(d.mean() == m, "parameter", "PoissonIntDist of mean %g reports mean %g", m, d.mean()); break; }
    case 8: { BinaryIntDist d(p, 2, 5); Stat<BinaryIntDist>::check("BinaryIntDist", d, 2, 5, 5 - 3 * p, 3 * sqrt(p * (1 - p)), n);
               DST_CHECK(d.p() == p, "parameter", "BinaryIntDist of probability %g reports %g", p, d.p()); break; }
  }
  // the context's own draws, and seeds that differ
  int lo = (int)choose(20) - 10, hi = lo + 1 + (int)choose(9);
  double s1 = 0, s2 = 0, s3 = 0;
  for (int i = 0; i < n; ++i) {
    double v = ctx.random_01();
    DST_CHECK(v >= 0 && v < 1, "range", "random_01 drew %g", v);
    s1 += v;
    v = ctx.random_uniform_int(lo, hi);
    DST_CHECK(v >= lo && v <= hi, "range", "random_uniform_int(%d, %d) drew %g", lo, hi, v);
    s2 += v;
    v = ctx.random_uniform_real(lo, hi);
    DST_CHECK(v >= lo && v <= hi, "range", "random_uniform_real(%d, %d) drew %g", lo, hi, v);
    v = ctx.random_normal_real(0.5 * (lo + hi), 1.5, lo, hi);
    DST_CHECK(v >= lo && v <= hi, "range", "random_normal_real(.., %d, %d) drew %g", lo, hi, v);
    s3 += v;
    v = ctx.random_normal_int(0.5 * (lo + hi), 1.5, lo, hi);
    DST_CHECK(v >= lo && v <= hi, "range", "random_normal_int(.., %d, %d) drew %g", lo, hi, v);
  }
  double q = sqrt((double)n);
  DST_CHECK(fabs(s1 / n - 0.5) < 9 * 0.3 / q, "distribution", "the mean of %d draws of random_01 is %g", n, s1 / n);
  DST_CHECK(fabs(s2 / n - 0.5 * (lo + hi)) < 9 * (hi - lo + 1) / 3.4 / q, "distribution", "the mean of %d draws of random_uniform_int(%d, %d) is %g", n, lo, hi, s2 / n);
  DST_CHECK(fabs(s3 / n - 0.5 * (lo + hi)) < 9 * 1.5 / q, "distribution", "the mean of %d draws of random_normal_real(%g, 1.5, %d, %d) is %g", n, 0.5 * (lo + hi), lo, hi, s3 / n);
  Context c1(&ti, &rec), c2(&ti, &rec);
  SimInfo i1(5), i2(5);
  i1.seed = si.seed;
  i2.seed = chance(1, 2) ? si.seed + 1 + choose(1000) : si.seed ^ (1u << choose(30));
  std::vector<uint32_t> d1, d2, d3;
  c1.InitSim(i1);
  for (int i = 0; i < 6; ++i) d1.push_back((uint32_t)c1.random());
  c2.InitSim(i2);
  for (int i = 0; i < 6; ++i) d2.push_back((uint32_t)c2.random());
  c1.InitSim(i1);
  for (int i = 0; i < 6; ++i) d3.push_back((uint32_t)c1.random());
  DST_CHECK(d1 != d2, "seed-ignored", "seeds %u and %u give the same random numbers", (unsigned)i1.seed, (unsigned)i2.seed);
  DST_CHECK(d1 == d3, "seed-irreproducible", "seed %u gives different random numbers the second time", (unsigned)i1.seed);
  steps(n);
  stat("distribution-runs");
}

void repro() {
  W w;
  X = &w;
  stub_atomic_masses();
  if (chance(1, 3)) { distributions(); nontrivial(); return; }
  Scen sc, other;
  gen(&sc);
  sc.k.random = true;
  Nuisance a = {0, 0, false, 0, 0}, b = {0, 0, false, 0, 0};
  b.perturb = 1 + (int)choose(255);
  b.clock = chance(1, 2) ? 0 : (long)choose(1u << 28);
  bool exact = chance(1, 2);
  if (!exact) {
    gen(&other);
    other.k.random = true;
    b.before = chance(1, 2);
    b.draws = (int)choose(20);
    b.junk = (int)choose(200);
    if (b.before) fault("other-simulation-first");
    if (b.junk) fault("heap-layout");
  }
  if (b.clock) fault("clock-jump");
  fault("memory-fill");
  // both start from the same memory image
  Child ca = start_child(sc, other, a, exact), cb = start_child(sc, other, b, exact);
  std::vector<Str> x = finish_child(ca), y = finish_child(cb);
  if (x.empty() || x.back() != "END") fail("crashed", "the simulation died");
  if (y.empty() || y.back() != "END") fail("crashed-under-nuisance", "the simulation died in one of two runs of the same input");
  if (x[0].find("OUT OF RANGE") != Str::npos) fail("range", "%s", x[0].c_str());
  if (x[0].compare(0, 5, "ERROR") == 0) fail("unexpected-error", "%s", x[0].c_str());
  for (size_t i = 0; i < x.size() || i < y.size(); ++i)
    if (i >= x.size() || i >= y.size() || x[i] != y[i])
      fail("irreproducible", "two runs of the same input with the same seed differ:\n  %s\n  %s", i < x.size() ? x[i].c_str() : "(nothing)",
           i < y.size() ? y[i].c_str() : "(nothing)");
  for (size_t i = 0; i < x.size(); ++i) hash_bytes(x[i].data(), x[i].size());
  state(trace_hash());
  steps(sc.k.dur);
  stat("output-rows", x.size());
  nontrivial();
}

// ---- P18: explicit inventories --------------------------------------------

// runs a simulation; the output rows stay in mem
void observe(const Scen& sc, Run* r, MemBackend* mem, int sim) {
  use(sc);
  SimInitTest::fresh_process(0);
  FullBackend* db = new SqliteBack(":memory:");
  Recorder* rec = new Recorder((unsigned)sc.dump);
  rec->RegisterBackend(db);
  rec->RegisterBackend(mem);
  X->cur = r;
  load(sc, rec);
  r->ev.clear();
  r->watched = -1;
  SimInit* si = new SimInit();
  si->Init(rec, db);
  r->ctx = si->context();
  si->timer()->RunSim();
  rec->Flush();
}

void inventories() {
  W w;
  X = &w;
  stub_atomic_masses();
  Scen sc;
  gen(&sc);
  sc.s.inv = !chance(1, 4);
  sc.s.invc = !chance(1, 4);
  sc.s.decay = chance(1, 2) ? "never" : "manual";
  w.mixed = chance(1, 2);
  Run A;
  MemBackend mem;
  Str err;
  try { observe(sc, &A, &mem, 1); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("run-failed", "the simulation failed: %s", err.c_str());

  typedef std::pair<std::pair<int, int>, Str> Key;       // step, agent, inventory
  std::map<Key, CompMap> full, comp;
  std::map<Key, double> qty;
  std::vector<const Row*> v = mem.table("ExplicitInventory");
  if (!sc.s.inv && !v.empty()) fail("not-asked", "inventories were recorded although that is switched off");
  for (size_t i = 0; i < v.size(); ++i) {
    Key k(std::make_pair(v[i]->i("Time"), v[i]->i("AgentId")), v[i]->s("InventoryName"));
    if (full[k].count(v[i]->i("NucId")))
      fail("recorded-twice", "nuclide %d of inventory %s of agent %d is recorded twice at step %d", v[i]->i("NucId"), k.second.c_str(), k.first.second, k.first.first);
    full[k][v[i]->i("NucId")] = v[i]->d("Quantity");
    if (v[i]->s("Units") != "kg") fail("units", "an inventory is recorded in '%s'", v[i]->s("Units").c_str());
  }
  v = mem.table("ExplicitInventoryCompact");
  if (!sc.s.invc && !v.empty()) fail("not-asked", "compact inventories were recorded although that is switched off");
  for (size_t i = 0; i < v.size(); ++i) {
    Key k(std::make_pair(v[i]->i("Time"), v[i]->i("AgentId")), v[i]->s("InventoryName"));
    if (comp.count(k)) fail("recorded-twice", "inventory %s of agent %d is recorded twice at step %d", k.second.c_str(), k.first.second, k.first.first);
    comp[k] = v[i]->get<CompMap>("Composition");
    qty[k] = v[i]->d("Quantity");
    if (v[i]->s("Units") != "kg") fail("units", "an inventory is recorded in '%s'", v[i]->s("Units").c_str());
  }
  size_t n = 0;
  std::map<int, std::map<int, Inventories> >::iterator t;
  for (t = A.held.begin(); t != A.held.end(); ++t)
    for (std::map<int, Inventories>::iterator a = t->second.begin(); a != t->second.end(); ++a)
      for (Inventories::iterator b = a->second.begin(); b != a->second.end(); ++b) {
        CompMap want;
        double tot = 0;
        for (size_t i = 0; i < b->second.size(); ++i) {
          Material::Ptr m = boost::dynamic_pointer_cast<Material>(b->second[i]);
          if (!m) continue;
          CompMap c = m->comp()->mass();
          double s = 0;
          for (CompMap::iterator j = c.begin(); j != c.end(); ++j) s += j->second;
          for (CompMap::iterator j = c.begin(); j != c.end(); ++j) want[j->first] += m->quantity() * j->second / s;
          tot += m->quantity();
        }
        Key k(std::make_pair(t->first, a->first), b->first);
        if (want.empty()) continue;
        ++n;
        steps();
        if (sc.s.inv) {
          CompMap& got = full[k];
          for (CompMap::iterator j = want.begin(); j != want.end(); ++j)
            if (!got.count(j->first) || !near(got[j->first], j->second, 1e-7))
              fail("quantity", "at step %d agent %d holds %.9g kg of %d in inventory %s; recorded is %.9g", k.first.first, k.first.second,
                   j->second, j->first, k.second.c_str(), got.count(j->first) ? got[j->first] : -1.0);
          for (CompMap::iterator j = got.begin(); j != got.end(); ++j)
            if (!want.count(j->first) && j->second != 0) fail("phantom-nuclide", "nuclide %d is recorded in inventory %s, which has none", j->first, k.second.c_str());
          full.erase(k);
        }
        if (sc.s.invc) {
          if (!comp.count(k)) fail("not-recorded", "at step %d inventory %s of agent %d, %g kg, is not recorded", k.first.first, k.second.c_str(), k.first.second, tot);
          if (!near(qty[k], tot, 1e-7)) fail("quantity", "at step %d inventory %s of agent %d holds %.9g kg; recorded is %.9g", k.first.first, k.second.c_str(), k.first.second, tot, qty[k]);
          CompMap& got = comp[k];
          for (CompMap::iterator j = want.begin(); j != want.end(); ++j)
            if (!got.count(j->first) || !near(got[j->first], j->second / tot, 1e-7))
              fail("composition", "at step %d %d makes up %.9g of inventory %s of agent %d; recorded is %.9g", k.first.first, j->first,
                   j->second / tot, k.second.c_str(), k.first.second, got.count(j->first) ? got[j->first] : -1.0);
          comp.erase(k);
        }
      }
  if (!full.empty()) fail("phantom-inventory", "inventory %s of agent %d is recorded at step %d, but holds no material then",
                          full.begin()->first.second.c_str(), full.begin()->first.first.second, full.begin()->first.first.first);
  if (!comp.empty()) fail("phantom-inventory", "inventory %s of agent %d is recorded at step %d, but holds no material then",
                          comp.begin()->first.second.c_str(), comp.begin()->first.first.second, comp.begin()->first.first.first);
  stat("inventories", n);
  for (size_t i = 0; i < A.ev.size(); ++i) hash_bytes(A.ev[i].what.data(), A.ev[i].what.size());
  state(trace_hash());
  if (n > 0) nontrivial();
  // recording them changes nothing else
  if (!chance(1, 3)) return;
  stat("twin-runs");
  Scen off = sc;
  off.s.inv = off.s.invc = false;
  Run B;
  MemBackend mem2;
  try { observe(off, &B, &mem2, 2); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("run-failed", "the simulation failed with inventory recording off: %s", err.c_str());
  std::stable_sort(A.ev.begin(), A.ev.end(), ev_less);
  std::stable_sort(B.ev.begin(), B.ev.end(), ev_less);
  for (size_t i = 0; i < A.ev.size() || i < B.ev.size(); ++i)
    if (i >= A.ev.size() || i >= B.ev.size() || !(A.ev[i] == B.ev[i]))
      fail("side-effect", "recording inventories changes the simulation:\n  %s\n  %s", i < A.ev.size() ? A.ev[i].what.c_str() : "(nothing)",
           i < B.ev.size() ? B.ev[i].what.c_str() : "(nothing)");
  static const char* same[] = {"Resources", "ResCreators", "Products", "MaterialInfo", "Transactions", "AgentStateInventories", "AgentEntry", "AgentExit"};
  for (size_t i = 0; i < sizeof same / sizeof *same; ++i)
    if (mem.table(same[i]).size() != mem2.table(same[i]).size())
      fail("side-effect", "recording inventories changes table %s: %zu rows instead of %zu", same[i], mem.table(same[i]).size(), mem2.table(same[i]).size());
}

}  // namespace

DST_WORLD(P18, inventories);
DST_WORLD(P15, run);
DST_WORLD(P16, repro);
