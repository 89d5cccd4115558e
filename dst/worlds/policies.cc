// Buy and sell policies (P10): facilities whose inventories are run entirely by
// MatlBuyPolicy and MatlSellPolicy trade with each other through the real
// resource exchange inside a real simulation.  Scripted facilities move material
// between their buffers, come and go, stop, restart and reconfigure policies at
// seeded points.  A spy trader sees every request; the Transactions and
// Resources tables show every trade; a reference model of the documented
// inventory rules predicts both.
#include "simlib.h"
#include <algorithm>
#include "toolkit/matl_buy_policy.h"
#include "toolkit/matl_sell_policy.h"
#include "toolkit/total_inv_tracker.h"

using namespace cyclus;
using namespace cyclus::toolkit;
using namespace dst;

namespace {

typedef std::string Str;
const double kInf = std::numeric_limits<double>::max();
const int kNucs[] = {922350000, 922380000, 942390000};

struct PkgM { Str name, strat; double lo, hi; };
struct TuM { Str name, strat; int lo, hi; };

struct BuyM {
  bool on, cyc;
  double thr, fill, req, quant, cap;
  double size_lo, size_hi;
  bool cycles, cumulative;
  int a_lo, a_hi, d_lo, d_hi;
  std::map<Str, double> pref;
  std::map<Str, Composition::Ptr> comp;
  double got;                // received in this cumulative cycle
  int entered;
};
struct SellM {
  bool on, ign;
  double thr, quant;
  Str pkg, tu;
  std::set<Str> commods;
};

class PFac;
struct ReqSeen { double qty; bool excl; double pref; Str commod; const void* port; Composition::Ptr comp; };
struct StepLog {
  int t, agent;
  bool expect_known, buy_on;
  double amt, lo_amt, hi_amt;      // what the rules allow when not dormant
  double requested;
  int nport;
  bool cycles;
};

struct W {
  Context* ctx;
  Recorder* rec;
  MemBackend* back;
  std::vector<PFac*> facs;
  std::vector<PkgM> pk;
  std::vector<TuM> tu;
  std::vector<Composition::Ptr> comps;
  std::map<const Trader*, PFac*> by_policy;
  std::map<int, std::vector<ReqSeen> > seen;      // per agent id, this step
  std::vector<StepLog> log;
  std::map<int, BuyM> buym;                       // last model per agent id
  double total;
  std::map<int, double> nuc;
  int tpos;                                       // transactions judged so far
  bool transmuting;
  int trades;
} *X;

double rq() {
  switch (choose(3)) {
    case 0: return range(1, 40) / 4.0;
    case 1: return range(1, 60) * 0.1;
    default: return range(1, 12);
  }
}

bool achievable(const TuM& u, int k) {
  if (k == 0) return true;
  int l = std::max(u.lo, 1);
  long nu = ((long)k + u.hi - 1) / u.hi;
  return nu * l <= k;
}

const char* kCommods[] = {"A", "B", "C"};

class PFac : public Facility {
 public:
  ResBuf<Material> *in, *out;
  bool in_bulk, out_bulk;
  MatlBuyPolicy* buy;
  MatlSellPolicy* sell;
  TotalInvTracker* tit;
  double tcap;
  BuyM b;
  SellM s;
  bool source, sink;
  bool alive;
  double in0, out0;           // quantities just before the exchange
  PFac(Context* c) : Facility(c), in(NULL), out(NULL), buy(NULL), sell(NULL), tit(NULL), source(false), sink(false), alive(false) {}
  virtual ~PFac() {
    delete buy;
    delete sell;
    delete tit;
    delete in;
    delete out;
    if (X) {
      X->by_policy.erase(buy);
      X->facs.erase(std::remove(X->facs.begin(), X->facs.end(), this), X->facs.end());
    }
  }
  Str version() { return "1"; }
  Agent* Clone() { PFac* m = new PFac(context()); m->InitFrom(this); return m; }
  void InitInv(Inventories&) {}
  Inventories SnapshotInv() { return Inventories(); }
  void InitFrom(QueryableBackend*) {}
  void InitFrom(PFac* m) { Facility::InitFrom(m); }
  void Snapshot(DbInit) {}

  void init_buy(bool again) {
    BuyM m;
    m.on = true; m.thr = m.fill = m.req = kInf; m.quant = -1; m.cap = -1; m.size_lo = m.size_hi = 1;
    m.cycles = m.cumulative = false; m.a_lo = m.a_hi = 1; m.d_lo = m.d_hi = 0; m.got = 0;
    m.entered = context()->time();
    m.pref = b.pref; m.comp = b.comp;
    double cap = in->capacity();
    TotalInvTracker* t = tit;
    int k = choose(again ? 5 : 6);
    // a quantized policy needs some limit to quantize
    bool bounded = std::min(cap, tcap) < 1e9;
    Str nm = "buy";
    if (again) { buy->ResetBehavior(); fault("policy-reconfigured"); }
    if (k == 0) {
      buy->Init(this, in, nm, t);
    } else if (k == 1) {
      m.thr = rq();
      buy->Init(this, in, nm, t, m.thr);
    } else if (k == 2) {
      m.thr = bounded && chance(1, 3) ? kInf : rq() * 2;
      m.quant = rq() / 2;
      buy->Init(this, in, nm, t, m.thr, m.quant);
    } else if (k == 3) {
      m.req = std::min(cap, rq());
      double S = rq() + (chance(3, 4) ? m.req : 0);
      m.fill = std::min(cap, S);
      if (choose(2)) { m.thr = rq(); buy->Init(this, in, nm, t, m.thr, choose(2) ? "sS" : "ss", S, m.req); }
      else buy->Init(this, in, nm, t, "SS", S, m.req);
    } else if (k == 4) {
      m.req = std::min(cap, rq());
      m.quant = rq();
      m.fill = std::min(cap, m.req + m.quant);
      if (choose(2)) { m.thr = rq() * 2; buy->Init(this, in, nm, t, m.thr, choose(2) ? "RQ" : "qr", m.quant, m.req); }
      else buy->Init(this, in, nm, t, "rq", m.quant, m.req);
    } else {
      m.d_lo = range(0, 3);
      m.d_hi = m.d_lo + (int)choose(2);
      IntDistribution::Ptr dd = m.d_lo == m.d_hi && choose(2) ? IntDistribution::Ptr(new FixedIntDist(m.d_lo)) : IntDistribution::Ptr(new UniformIntDist(m.d_lo, m.d_hi));
      m.thr = chance(1, 3) ? kInf : rq() * 2;
      if (choose(2)) {
        m.cumulative = true;
        double x = rq() * 2;
        m.cap = std::min(x, cap);
        buy->Init(this, in, nm, t, m.thr, x, dd);
      } else {
        m.cycles = true;
        m.a_lo = range(1, 3);
        m.a_hi = m.a_lo + (int)choose(2);
        IntDistribution::Ptr ad = m.a_lo == m.a_hi && choose(2) ? IntDistribution::Ptr(new FixedIntDist(m.a_lo)) : IntDistribution::Ptr(new UniformIntDist(m.a_lo, m.a_hi));
        if (choose(2)) {
          m.size_lo = range(1, 4) * 0.2;
          m.size_hi = std::min(1.0, m.size_lo + choose(3) * 0.2);
          DoubleDistribution::Ptr sd = m.size_lo == m.size_hi ? DoubleDistribution::Ptr(new FixedDoubleDist(m.size_lo)) : DoubleDistribution::Ptr(new UniformDoubleDist(m.size_lo, m.size_hi));
          buy->Init(this, in, nm, t, m.thr, ad, dd, sd);
        } else {
          buy->Init(this, in, nm, t, m.thr, ad, dd);
        }
      }
    }
    b = m;
    if (!again) {
      int nc = range(1, 2);
      for (int i = 0; i < nc; ++i) {
        Str c = kCommods[choose(3)];
        double p = 1;
        Composition::Ptr cp;
        switch (choose(3)) {
          case 0: buy->Set(c); break;
          case 1: cp = pick(X->comps); buy->Set(c, cp); break;
          default: cp = pick(X->comps); p = range(1, 5); buy->Set(c, cp, p);
        }
        b.pref[c] = p;
        b.comp[c] = cp;
      }
    }
    note("facility %d: %s buyer %s: throughput %g fill %g at %g quantize %g cap %g %s[%d,%d]/[%d,%d] size [%g,%g]; buffer %g tracker %g", id(), again ? "new" : "a", in_bulk ? "(bulk)" : "", m.thr, m.fill, m.req, m.quant, m.cap,
         m.cycles ? "cycles " : m.cumulative ? "cumulative " : "", m.a_lo, m.a_hi, m.d_lo, m.d_hi, m.size_lo, m.size_hi, cap, tcap);
  }

  void init_sell() {
    SellM m;
    m.on = true;
    m.ign = chance(1, 4);
    m.thr = chance(1, 3) ? kInf : rq() * 2;
    m.quant = 0;
    m.pkg = Package::unpackaged_name();
    m.tu = TransportUnit::unrestricted_name();
    sell = new MatlSellPolicy();
    Str nm = "sell";
    int k = choose(5);
    if (k == 0) { m.ign = false; m.thr = kInf; sell->Init(this, out, nm); }
    else if (k == 1) { m.ign = false; sell->Init(this, out, nm, m.thr); }
    else if (k == 2) { m.thr = kInf; sell->Init(this, out, nm, m.ign); }
    else if (k == 3) { sell->Init(this, out, nm, m.thr, m.ign); }
    else {
      const PkgM* p = NULL;
      const TuM* u = NULL;
      if (chance(1, 2)) m.quant = rq() / 2;
      if (chance(2, 3)) { p = &X->pk[choose((uint32_t)X->pk.size())]; m.pkg = p->name; }
      if (chance(1, 2)) { u = &X->tu[choose((uint32_t)X->tu.size())]; m.tu = u->name; }
      // quantized offers must each be one package that can be shipped alone
      bool rnd = p && (p->strat == "uniform" || p->strat == "normal");
      bool edge = p && m.quant > 0 && (near(m.quant, p->lo) || near(m.quant, p->hi));
      bool refuse = m.quant > 0 && ((p && (rnd || m.quant < p->lo || m.quant > p->hi)) || (u && u->lo > 1) || (u && u->strat == "first" && u->hi > 1));
      bool threw = false;
      try { sell->Init(this, out, nm, m.thr, m.ign, m.quant, m.pkg, m.tu); } catch (ValueError&) { threw = true; }
      if (threw || refuse) fault("incompatible-policy");
      if (!edge) DST_CHECK(!refuse || threw, "bad-policy-accepted", "a sell policy quantized at %g was accepted with package %s [%g,%g] and transport unit %s [%d,%d]", m.quant, m.pkg.c_str(), p ? p->lo : 0, p ? p->hi : 0,
                m.tu.c_str(), u ? u->lo : 0, u ? u->hi : 0);
      if (!edge) DST_CHECK(refuse || !threw, "good-policy-refused", "a sell policy quantized at %g was refused with package %s [%g,%g] and transport unit %s [%d,%d]", m.quant, m.pkg.c_str(), p ? p->lo : 0, p ? p->hi : 0,
                m.tu.c_str(), u ? u->lo : 0, u ? u->hi : 0);
      if (threw) {
        m.quant = 0; m.pkg = Package::unpackaged_name(); m.tu = TransportUnit::unrestricted_name();
        sell->Init(this, out, nm, m.thr, m.ign, 0);
      }
    }
    if (m.ign) X->transmuting = true;
    int nc = range(1, 2);
    for (int i = 0; i < nc; ++i) { Str c = kCommods[choose(3)]; sell->Set(c); m.commods.insert(c); }
    s = m;
    note("facility %d: seller: throughput %g quantize %g package %s unit %s%s", id(), m.thr, m.quant, m.pkg.c_str(), m.tu.c_str(), m.ign ? " ignoring composition" : "");
  }

  void EnterNotify() {
    Facility::EnterNotify();
    alive = true;
    X->facs.push_back(this);
    in_bulk = chance(1, 3);
    out_bulk = chance(1, 3);
    in = new ResBuf<Material>(in_bulk, !in_bulk && chance(1, 3));
    out = new ResBuf<Material>(out_bulk, !out_bulk && chance(1, 3));
    if (!chance(1, 4)) in->capacity(rq() * 2);
    tcap = chance(1, 3) ? kInf : rq() * 4;
    tit = new TotalInvTracker(std::vector<ResBuf<Material>*>{in, out}, tcap);
    int kind = choose(4);
    source = kind == 0 || kind == 3;
    sink = kind != 3;
    b.on = s.on = false;
    if (kind != 0) { buy = new MatlBuyPolicy(); init_buy(false); buy->Start(); X->by_policy[buy] = this; }
    if (kind != 1) { init_sell(); sell->Start(); }
    make();
    if (buy) X->buym[id()] = b;
  }
  void make() {
    if (!source) return;
    int n = choose(3);
    for (int i = 0; i < n; ++i) {
      double q = rq();
      if (tit->space() < q) break;
      Material::Ptr m = Material::Create(this, q, pick(X->comps));
      if (out_bulk == false && chance(1, 4)) {  // comes in a package already
        const PkgM& p = pick(X->pk);
        if (q > p.lo && q < p.hi) m->ChangePackage(p.name);
      }
      ledger(m, 1);
      out->Push(m);
      note("facility %d makes %g", id(), q);
    }
  }
  void ledger(Material::Ptr m, int sign) {
    double q = m->quantity();
    X->total += sign * q;
    CompMap c = m->comp()->mass();
    double t = 0;
    for (auto& kv : c) t += kv.second;
    if (t > 0) for (auto& kv : c) X->nuc[kv.first] += sign * q * kv.second / t;
  }
  void Tick() {
    make();
    if (buy && !b.cycles && !b.cumulative && chance(1, 8)) {
      if (b.on) { buy->Stop(); if (choose(2)) buy->Stop(); } else { buy->Start(); if (choose(2)) buy->Start(); }
      b.on = !b.on;
      fault(b.on ? "policy-restarted" : "policy-stopped");
      note("facility %d buy policy %s", id(), b.on ? "started" : "stopped");
    }
    if (buy && !b.cycles && !b.cumulative && chance(1, 12)) { bool on = b.on; init_buy(true); b.on = on; if (b.cycles || b.cumulative) fail("harness", "unexpected"); }
    if (buy && chance(1, 10)) {  // commodities come and go
      Str c = kCommods[choose(3)];
      if (b.pref.count(c)) { buy->Unset(c); b.pref.erase(c); b.comp.erase(c); }
      else { double p = range(1, 5); Composition::Ptr cp = pick(X->comps); buy->Set(c, cp, p); b.pref[c] = p; b.comp[c] = cp; }
      fault("commodity-changed");
      note("facility %d %s buys %s", id(), b.pref.count(c) ? "now" : "no longer", c.c_str());
    }
    if (sell && chance(1, 10)) {
      if (s.on) sell->Stop(); else sell->Start();
      s.on = !s.on;
      fault(s.on ? "policy-restarted" : "policy-stopped");
      note("facility %d sell policy %s", id(), s.on ? "started" : "stopped");
    }
    if (buy) X->buym[id()] = b;
  }
  void Tock() {
    // use up or pass on what came in
    if (in->quantity() > 1e-5 && chance(2, 3)) {
      double q = chance(1, 3) ? in->quantity() : in->quantity() * range(1, 9) / 10.0;
      Material::Ptr m;
      if (q == in->quantity()) { std::vector<Material::Ptr> v = in->PopN(in->count()); m = v[0]; for (size_t i = 1; i < v.size(); ++i) m->Absorb(v[i]); }
      else m = in->Pop(q, eps_rsrc());
      if (sell && (!sink || choose(3))) { note("facility %d moves %g on", id(), m->quantity()); out->Push(m); }
      else { note("facility %d uses %g", id(), m->quantity()); ledger(m, -1); }
    }
  }
  static bool same_comp(Composition::Ptr a, Composition::Ptr b) {
    CompMap x = a->mass(), y = b->mass();
    double sx = 0, sy = 0;
    for (auto& kv : x) sx += kv.second;
    for (auto& kv : y) sy += kv.second;
    if (x.size() != y.size()) return false;
    for (auto& kv : x) if (!y.count(kv.first) || !near(kv.second / sx, y[kv.first] / sy, 1e-5)) return false;
    return true;
  }
  void Decommission() {
    note("facility %d leaves", id());
    for (ResBuf<Material>* q : {in, out}) { std::vector<Material::Ptr> v = q->PopN(q->count()); for (auto& m : v) ledger(m, -1); }
    Facility::Decommission();
  }
};

double avail_of(PFac* f) {
  BuyM& b = f->b;
  double in = f->in0, tot = f->in0 + f->out0;
  double a = std::min(b.thr, std::min(b.fill - in, f->in->capacity() - in));
  double tc = std::min(f->tcap, f->in->capacity() + f->out->capacity());
  a = std::min(a, std::max(0.0, tc - tot));
  return a;
}

// Sees every request of the step before anything is traded.
class Spy : public Facility {
 public:
  Spy(Context* c) : Facility(c) {}
  Str version() { return "1"; }
  Agent* Clone() { Spy* m = new Spy(context()); m->InitFrom(this); return m; }
  void InitFrom(Spy* m) { Facility::InitFrom(m); }
  void InitFrom(QueryableBackend*) {}
  void InitInv(Inventories&) {}
  Inventories SnapshotInv() { return Inventories(); }
  void Snapshot(DbInit) {}
  void EnterNotify() { Facility::EnterNotify(); context()->RegisterTrader(this); }
  void Tick() {}
  std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    // a request nobody serves, so that there is always an exchange to see
    std::set<RequestPortfolio<Material>::Ptr> s;
    RequestPortfolio<Material>::Ptr p(new RequestPortfolio<Material>());
    p->AddRequest(Material::CreateUntracked(1, X->comps[0]), this, "nothing", 1);
    s.insert(p);
    X->seen.clear();
    for (PFac* f : X->facs) { f->in0 = f->in->quantity(); f->out0 = f->out->quantity(); }
    return s;
  }
  std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& reqs) {
    for (auto& kv : reqs)
      for (Request<Material>* r : kv.second) {
        if (r->requester() == this) continue;
        auto it = X->by_policy.find(r->requester());
        DST_CHECK(it != X->by_policy.end(), "unknown-requester", "a request for %s comes from a policy that does not exist any more", kv.first.c_str());
        ReqSeen q;
        q.qty = r->target()->quantity(); q.excl = r->exclusive(); q.pref = r->preference(); q.commod = kv.first;
        q.port = r->portfolio().get(); q.comp = r->target()->comp();
        X->seen[it->second->id()].push_back(q);
      }
    judge_requests();
    return std::set<BidPortfolio<Material>::Ptr>();
  }
  void judge_requests() {
    int t = context()->time();
    for (PFac* f : X->facs) {
      if (!f->buy) continue;
      BuyM& b = f->b;
      std::vector<ReqSeen>& v = X->seen[f->id()];
      std::map<const void*, std::vector<ReqSeen*> > ports;
      for (ReqSeen& q : v) ports[q.port].push_back(&q);
      if (!b.on) { DST_CHECK(v.empty(), "stopped-policy-trades", "step %d: facility %d requests although its policy is stopped", t, f->id()); continue; }
      double a = avail_of(f), tot = f->in0 + f->out0;
      double sum = 0;
      for (auto& kv : ports) {
        std::set<Str> cs;
        double pq = kv.second[0]->qty;
        for (ReqSeen* q : kv.second) {
          DST_CHECK(b.pref.count(q->commod) && cs.insert(q->commod).second, "wrong-commodity", "step %d: facility %d requests %s", t, f->id(), q->commod.c_str());
          DST_CHECK(q->pref == b.pref[q->commod] && (!b.comp[q->commod] || b.comp[q->commod] == q->comp), "wrong-request", "step %d: facility %d requests %s with another preference or composition than was set", t, f->id(), q->commod.c_str());
          DST_CHECK(q->excl == (b.quant > 0), "wrong-request", "step %d: facility %d request exclusive=%d, quantize %g", t, f->id(), (int)q->excl, b.quant);
          DST_CHECK(q->qty == pq, "wrong-request", "step %d: facility %d asks for different amounts of its commodities", t, f->id());
          if (b.quant > 0) DST_CHECK(near(q->qty, b.quant, 1e-12), "wrong-request", "step %d: facility %d requests %.10g at a time, quantize is %.10g", t, f->id(), q->qty, b.quant);
        }
        DST_CHECK(cs.size() == b.pref.size(), "wrong-request", "step %d: facility %d requests %zu of %zu commodities", t, f->id(), cs.size(), b.pref.size());
        sum += pq;
      }
      a = std::max(a, 0.0);
      double lo = a * b.size_lo, hi = a * b.size_hi;
      if (b.cumulative) { lo = std::min(lo, b.cap - b.got); hi = std::min(hi, b.cap - b.got); }
      bool below = tot <= b.req;
      bool unsure = fabs(tot - b.req) < 1e-8 && tot != b.req;
      StepLog l;
      l.t = t; l.agent = f->id(); l.buy_on = true; l.requested = sum; l.nport = (int)ports.size(); l.cycles = b.cycles || b.cumulative;
      if (b.pref.empty()) lo = hi = 0;
      if (!below && !unsure) { DST_CHECK(v.empty(), "request-above-level", "step %d: facility %d holds %.10g, above its request level %.10g, but requests %.10g", t, f->id(), tot, b.req, sum); lo = hi = 0; }
      DST_CHECK(sum <= hi + 1e-6, "over-request", "step %d: facility %d requests %.10g, its limits allow %.10g (throughput %g, fill to %g, buffer %g of %g, total %g of %g, cycle %g of %g)", t, f->id(), sum, hi, b.thr, b.fill,
                f->in0, f->in->capacity(), tot, f->tcap, b.got, b.cap);
      l.lo_amt = lo; l.hi_amt = hi; l.amt = b.quant;
      l.expect_known = !unsure;
      X->log.push_back(l);
      stat("requests judged");
      f->b.entered = b.entered;
    }
  }
  void Tock() { judge_trades(); }
  // the facilities' parent, so it sees what they are offered
  void AdjustMatlPrefs(PrefMap<Material>::type& prefs) {
    int t = context()->time();
    for (auto& rq : prefs)
      for (auto& bp : rq.second) {
        Bid<Material>* bid = bp.first;
        PFac* g = dynamic_cast<PFac*>(bid->bidder()->manager());
        DST_CHECK(g && g->alive && g->sell, "unknown-bidder", "step %d: something is offered by nobody", t);
        SellM& m = g->s;
        double q = bid->offer()->quantity(), lim = std::min(m.thr, g->out->quantity());
        Str c = rq.first->commodity();
        stat("offers judged");
        DST_CHECK(m.on, "stopped-policy-trades", "step %d: facility %d offers although its policy is stopped", t, g->id());
        DST_CHECK(m.commods.count(c), "wrong-commodity", "step %d: facility %d offers %s", t, g->id(), c.c_str());
        DST_CHECK(q <= lim + 1e-6 * (1 + lim), "over-offer", "step %d: facility %d offers %.10g, throughput %g, stock %g", t, g->id(), q, m.thr, g->out->quantity());
        DST_CHECK(bid->exclusive() == (m.quant > 0) && (m.quant <= 0 || near(q, m.quant)), "not-quantized", "step %d: facility %d offers %.10g (exclusive=%d), quantize %.10g", t, g->id(), q, (int)bid->exclusive(), m.quant);
        for (PkgM& p : X->pk) if (p.name == m.pkg)
          DST_CHECK(q >= p.lo - 1e-6 && q <= p.hi + 1e-6, "package-limits", "step %d: facility %d offers %.10g in package %s [%g,%g]", t, g->id(), q, p.name.c_str(), p.lo, p.hi);
        Composition::Ptr want = m.ign ? rq.first->target()->comp() : g->out->Peek()->comp();
        DST_CHECK(PFac::same_comp(bid->offer()->comp(), want), "wrong-offer", "step %d: what facility %d offers does not have the composition %s", t, g->id(), m.ign ? "requested" : "of its stock");
      }
  }
  void judge_trades();
};

void Spy::judge_trades() {
  int t = context()->time();
  X->rec->Flush();
  std::map<int, const Row*> res;
  for (const Row* r : X->back->table("Resources")) res[r->i("ResourceId")] = r;
  std::map<int, PFac*> by_id;
  for (PFac* f : X->facs) by_id[f->id()] = f;
  std::map<int, double> sent, got;
  std::map<int, int> nsent;
  std::map<int, std::map<Str, int> > came;
  std::vector<const Row*> tr = X->back->table("Transactions");
  for (; X->tpos < (int)tr.size(); ++X->tpos) {
    const Row* r = tr[X->tpos];
    DST_CHECK(r->i("Time") == t, "trade-time", "a trade of step %d is recorded at %d", t, r->i("Time"));
    PFac* a = by_id[r->i("SenderId")];
    PFac* b = by_id[r->i("ReceiverId")];
    DST_CHECK(a && b && a->sell && b->buy, "trade-party", "a trade between facilities %d and %d that do not both exist", r->i("SenderId"), r->i("ReceiverId"));
    DST_CHECK(a->s.on && b->b.on, "stopped-policy-trades", "step %d: %d -> %d trade although a policy is stopped", t, a->id(), b->id());
    Str c = r->s("Commodity");
    DST_CHECK(a->s.commods.count(c) && b->b.pref.count(c), "wrong-commodity", "step %d: facilities %d and %d trade %s", t, a->id(), b->id(), c.c_str());
    int rid = r->i("ResourceId");
    DST_CHECK(res.count(rid), "untracked-trade", "step %d: facility %d sends facility %d something that is not in the Resources output", t, a->id(), b->id());
    const Row* m = res[rid];
    double q = m->d("Quantity");
    note("step %d: %d -> %d %g of %s (%s)", t, a->id(), b->id(), q, c.c_str(), m->s("PackageName").c_str());
    sent[a->id()] += q;
    got[b->id()] += q;
    ++nsent[a->id()];
    ++came[b->id()][c];
    ++X->trades;
    if (a->s.quant > 0) DST_CHECK(near(q, a->s.quant), "not-quantized", "step %d: facility %d sells %.10g, quantize is %.10g", t, a->id(), q, a->s.quant);
    if (b->b.quant > 0) DST_CHECK(near(q, b->b.quant), "not-quantized", "step %d: facility %d receives %.10g, quantize is %.10g", t, b->id(), q, b->b.quant);
    if (a->s.pkg != Package::unpackaged_name()) {
      for (PkgM& p : X->pk) if (p.name == a->s.pkg)
        DST_CHECK(m->s("PackageName") == p.name && q >= p.lo - 1e-6 && q <= p.hi + 1e-6, "package-limits", "step %d: facility %d ships %.10g in package '%s', its policy packages in %s [%g,%g]", t, a->id(), q, m->s("PackageName").c_str(), p.name.c_str(), p.lo, p.hi);
    } else {
      DST_CHECK(m->s("PackageName") == Package::unpackaged_name(), "package-limits", "step %d: facility %d ships package '%s', its policy does not package", t, a->id(), m->s("PackageName").c_str());
    }
    if (a->s.ign && b->b.comp[c]) {
      bool ok = false;
      for (const Row* x : X->back->table("Compositions")) ok |= x->i("QualId") == m->i("QualId");
      std::map<int, double> fr;
      for (const Row* x : X->back->table("Compositions")) if (x->i("QualId") == m->i("QualId")) fr[x->i("NucId")] = x->d("MassFrac");
      CompMap w = b->b.comp[c]->mass();
      double s = 0;
      for (auto& kv : w) s += kv.second;
      for (auto& kv : w) ok &= near(fr[kv.first], kv.second / s, 1e-5);
      ok &= fr.size() == w.size();
      DST_CHECK(ok, "composition-not-matched", "step %d: facility %d ignores composition, but what it sends to %d does not have the requested composition", t, a->id(), b->id());
    }
  }
  double total = 0;
  std::map<int, double> nuc;
  for (PFac* f : X->facs) {
    int id = f->id();
    double ds = sent[id], dg = got[id];
    if (f->sell) {
      double lim = f->s.quant > 0 ? f->s.quant * std::floor(f->out0 / f->s.quant + 1e-9) : f->out0;
      lim = std::min(lim, f->s.thr);
      DST_CHECK(ds <= lim + 1e-6 * (1 + lim), "over-sale", "step %d: facility %d sold %.10g, its limit is %.10g (throughput %g, stock %g)", t, id, ds, lim, f->s.thr, f->out0);
      // a matched amount below the package's minimum is not shipped, which may leave a unit short
      bool partial = false;
      for (PkgM& p : X->pk) partial |= p.name == f->s.pkg && p.lo > 0;
      for (TuM& u : X->tu) if (u.name == f->s.tu && !partial)
        DST_CHECK(achievable(u, nsent[id]), "transport-limits", "step %d: facility %d ships %d packages, its transport units take %d to %d", t, id, nsent[id], u.lo, u.hi);
      DST_CHECK(near(f->out->quantity(), f->out0 - ds, 1e-6), "seller-balance", "step %d: facility %d had %.10g, sold %.10g, has %.10g", t, id, f->out0, ds, f->out->quantity());
    }
    if (f->buy) {
      double rqd = 0;
      if (!X->log.empty()) for (size_t k = X->log.size(); k-- > 0 && X->log[k].t == t;) if (X->log[k].agent == id) rqd = X->log[k].requested;
      DST_CHECK(dg <= rqd + 1e-6 * (1 + rqd), "over-delivery", "step %d: facility %d requested %.10g and received %.10g", t, id, rqd, dg);
      DST_CHECK(near(f->in->quantity(), f->in0 + dg, 1e-6), "buyer-balance", "step %d: facility %d had %.10g, received %.10g, has %.10g", t, id, f->in0, dg, f->in->quantity());
      DST_CHECK(f->in->quantity() <= f->in->capacity() + 1e-6 && f->in->quantity() + f->out->quantity() <= f->tcap + 1e-5 + ds * 0, "over-capacity", "step %d: facility %d holds %.10g of %.10g, in total %.10g of %.10g", t, id, f->in->quantity(),
                f->in->capacity(), f->in->quantity() + f->out->quantity(), f->tcap);
      if (f->b.cumulative) {
        f->b.got += dg;
        DST_CHECK(f->b.got <= f->b.cap + 1e-5, "cumulative-cap", "step %d: facility %d received %.10g in one cycle, its cap is %.10g", t, id, f->b.got, f->b.cap);
        X->buym[id] = f->b;
      }
      if (f->b.on) {
        std::map<Str, int> said;
        for (auto& kv : f->buy->rsrc_commods()) ++said[kv.second];
        DST_CHECK(said == came[id], "wrong-commodity", "step %d: the policy of facility %d reports other commodities than it received", t, id);
      }
      // no unmet demand next to free matching stock
      bool may_cancel = false;  // matched trades that cannot be packaged or shipped are dropped
      for (PFac* g : X->facs) may_cancel |= g->sell && (g->s.pkg != Package::unpackaged_name() || g->s.tu != TransportUnit::unrestricted_name());
      if (f->b.on && !may_cancel && f->b.quant <= 0 && rqd - dg > 2e-5)
        for (PFac* g : X->facs) {
          if (!g->sell || !g->s.on || g->s.quant > 0 || g->s.pkg != Package::unpackaged_name() || g->s.tu != TransportUnit::unrestricted_name()) continue;
          bool match = false;
          for (auto& c : f->b.pref) match |= g->s.commods.count(c.first) > 0;
          double left = std::min(g->s.thr, g->out0) - sent[g->id()];
          DST_CHECK(!match || left <= 2e-5, "missed-trade", "step %d: facility %d still wants %.6g although facility %d still offers %.6g", t, id, rqd - dg, g->id(), left);
        }
    }
    for (ResBuf<Material>* q : {f->in, f->out}) {
      total += q->quantity();
      int n = q->count();
      std::vector<Material::Ptr> v;
      std::vector<Material::Ptr> all = q->PopN(n);
      for (auto& m : all) {
        CompMap c = m->comp()->mass();
        double s = 0;
        for (auto& kv : c) s += kv.second;
        if (s > 0) for (auto& kv : c) nuc[kv.first] += m->quantity() * kv.second / s;
      }
      q->Push(all);
    }
  }
  DST_CHECK(near(total, X->total, 1e-6), "conservation", "step %d: all inventories hold %.10g, %.10g was put in and not used", t, total, X->total);
  if (!X->transmuting)
    for (int k = 0; k < 3; ++k) DST_CHECK(fabs(nuc[kNucs[k]] - X->nuc[kNucs[k]]) <= 1e-5 * (1 + X->total), "conservation", "step %d: all inventories hold %.10g of nuclide %d, expected %.10g", t, nuc[kNucs[k]], kNucs[k], X->nuc[kNucs[k]]);
  // cumulative cycles end when the cap is reached
  for (PFac* f : X->facs)
    if (f->buy && f->b.cumulative && f->b.cap - f->b.got < 1e-6) { f->b.got = 0; X->buym[f->id()] = f->b; note("facility %d reaches its cap", f->id()); stat("cumulative cycles"); }
  state(mix(mix(sent.size(), got.size()), X->trades));
  steps();
}

// requests against the recorded active and dormant periods
void judge_periods() {
  std::map<int, std::vector<const Row*> > rows;
  for (const Row* r : X->back->table("BuyPolActiveDormant")) rows[r->i("Agent")].push_back(r);
  std::map<int, std::map<int, bool> > dorm;
  for (auto& kv : rows) {
    BuyM& b = X->buym[kv.first];
    int next = b.entered;
    if (b.cycles) {
      for (size_t i = 0; i < kv.second.size(); ++i) {
        const Row* r = kv.second[i];
        bool act = i % 2 == 0;
        DST_CHECK(r->s("Type") == (act ? "Active" : "Dormant"), "period-record", "facility %d: period %zu is recorded as %s", kv.first, i, r->s("Type").c_str());
        int lo = act ? b.a_lo : b.d_lo, hi = act ? b.a_hi : b.d_hi, len = r->i("Length");
        DST_CHECK(len >= lo && len <= hi, "period-length", "facility %d: a %s period of %d steps, configured %d to %d", kv.first, r->s("Type").c_str(), len, lo, hi);
        DST_CHECK(r->i("Time") == next, "period-record", "facility %d: period %zu starts at %d, the one before ended at %d", kv.first, i, r->i("Time"), next);
        next = r->i("Time") + len;
        if (!act) for (int k = r->i("Time"); k < next; ++k) dorm[kv.first][k] = true;
      }
    } else if (b.cumulative) {
      for (const Row* r : kv.second) {
        if (r->s("Type") != "Dormant") continue;
        DST_CHECK(r->i("Length") >= b.d_lo && r->i("Length") <= b.d_hi, "period-length", "facility %d: a dormant period of %d steps, configured %d to %d", kv.first, r->i("Length"), b.d_lo, b.d_hi);
        for (int k = r->i("Time"); k < r->i("Time") + r->i("Length"); ++k) dorm[kv.first][k] = true;
      }
    }
  }
  for (StepLog& l : X->log) {
    bool d = l.cycles && dorm[l.agent].count(l.t);
    if (d) { stat("dormant steps"); DST_CHECK(l.nport == 0, "request-while-dormant", "step %d: facility %d requests %.10g in a dormant period", l.t, l.agent, l.requested); continue; }
    if (!l.expect_known) continue;
    double q = l.amt;
    if (q > 0) {
      double n = l.lo_amt / q;
      int want = (int)std::floor(n + 1e-9);
      if (fabs(n - std::round(n)) < 1e-7 && n != std::round(n)) continue;
      if (l.lo_amt < 1e-5) continue;
      DST_CHECK(l.nport == want, "under-request", "step %d: facility %d has room for %.10g, %d requests of %g, but makes %d", l.t, l.agent, l.lo_amt, want, q, l.nport);
    } else if (l.lo_amt > 1e-5) {
      DST_CHECK(l.nport == 1 && l.requested >= l.lo_amt - 1e-6, "under-request", "step %d: facility %d may request %.10g but requests %.10g", l.t, l.agent, l.lo_amt, l.requested);
    }
  }
}

void run() {
  stub_atomic_masses();
  X = new W();
  W& w = *X;
  MemBackend back;
  w.back = &back;
  Recorder* rec = new Recorder(pick(std::vector<unsigned>{64, 3, 200}));
  rec->RegisterBackend(&back);
  w.rec = rec;
  Timer* ti = new Timer();
  Context* ctx = new Context(ti, rec);
  w.ctx = ctx;
  int dur = range(2, 10);
  SimInfo si(dur, 2015, 1, "h");
  si.decay = "never";
  si.seed = range(1, 1000);
  ctx->InitSim(si);
  ctx->solver(new GreedySolver());
  w.total = 0; w.tpos = 0; w.transmuting = false; w.trades = 0;
  for (int i = 0; i < 3; ++i) {
    CompMap m;
    int mask = 1 + (int)choose(7);
    for (int k = 0; k < 3; ++k) if (mask & (1 << k)) m[kNucs[k]] = range(1, 9);
    w.comps.push_back(Composition::CreateFromMass(m));
  }
  static const char* strat[] = {"first", "equal", "uniform", "normal"};
  for (int i = 0; i < 2; ++i) {
    PkgM p;
    p.name = "pkg" + std::to_string(i);
    p.strat = strat[choose(4)];
    p.lo = chance(1, 3) ? 0 : range(1, 12) * 0.25;
    p.hi = p.lo + range(1, 16) * 0.25;
    ctx->AddPackage(p.name, p.lo, p.hi, p.strat);
    w.pk.push_back(p);
    TuM u;
    static const char* ts[] = {"first", "equal", "hybrid"};
    u.name = "tu" + std::to_string(i);
    u.strat = ts[choose(3)];
    u.lo = (int)choose(4);
    u.hi = std::max(1, u.lo + (int)choose(4));
    ctx->AddTransportUnit(u.name, u.lo, u.hi, u.strat);
    w.tu.push_back(u);
    note("package %s %s [%g,%g], transport unit %s %s [%d,%d]", p.name.c_str(), p.strat.c_str(), p.lo, p.hi, u.name.c_str(), u.strat.c_str(), u.lo, u.hi);
  }
  Agent* proto = new PFac(ctx);
  proto->prototype("fac");
  ctx->AddPrototype("fac", proto);
  Agent* sp = new Spy(ctx);
  sp->prototype("spy");
  ctx->AddPrototype("spy", sp);
  Agent* spy = ctx->CreateAgent<Agent>("spy");
  spy->Build(NULL);
  std::string err;
  int n = range(2, 5);
  try {
    for (int i = 0; i < n; ++i) {
      if (chance(1, 5)) { ctx->SchedBuild(spy, "fac", range(1, dur)); continue; }
      Agent* a = ctx->CreateAgent<Agent>("fac");
      a->Build(spy);
      if (chance(1, 6)) { ctx->SchedDecom(a, (int)choose(dur)); fault("facility-leaves"); }
    }
    ti->RunSim();
  } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("unexpected-error", "a simulation run by policies failed: %s", err.c_str());
  rec->Flush();
  judge_periods();
  stat("trades", w.trades);
  if (w.trades > 1) nontrivial();
  delete X;
  X = NULL;
  delete ctx;
  delete ti;
  delete rec;
}

}  // namespace

DST_WORLD(P10, run);
