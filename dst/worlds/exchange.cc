// The dynamic resource exchange: feasibility (P03), trade execution (P04),
// greedy order (P05), optimising solver (P06).  Real Timer, Context,
// ExchangeManager, translators, solvers (greedy and CBC/CLP) and trade
// executor; scripted traders draw every request, bid, constraint, preference
// adjustment and delivery from the seed, and misbehave as suppliers.
#include "simlib.h"
#include <algorithm>
#include <limits>
#include "greedy_solver.h"
#include "greedy_preconditioner.h"
#include "prog_solver.h"
#include "exchange_solver.h"

#include <sys/resource.h>
#include <sys/time.h>

// ---- simulated solver clock ---------------------------------------------
// CLP and CBC measure their time limits with getrusage and gettimeofday; the
// simulator owns both, so that a stalled machine is a seeded event.
static double g_clock = 1000;
static long g_stall_after = -1;
static double g_stall = 0;
static bool g_stalled = false;
static double tick_clock() {
  g_clock += 1e-6;
  if (g_stall_after >= 0 && g_stall_after-- == 0) { g_clock += g_stall; g_stalled = true; }
  return g_clock;
}
extern "C" int getrusage(__rusage_who_t who, struct rusage* u) {
  memset(u, 0, sizeof *u);
  double t = tick_clock();
  u->ru_utime.tv_sec = (long)t;
  u->ru_utime.tv_usec = (long)((t - (long)t) * 1e6);
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  double t = tick_clock();
  tv->tv_sec = (long)t;
  tv->tv_usec = (long)((t - (long)t) * 1e6);
  return 0;
}

using namespace cyclus;
using namespace dst;

namespace {

typedef std::string Str;

template <class T> struct Tr;
template <> struct Tr<Material> { static const char* nm() { return "matl"; } };
template <> struct Tr<Product> { static const char* nm() { return "prod"; } };

bool J(const char* p) { return judging(p); }
const double kTol = 1e-6;
const double kInf = std::numeric_limits<double>::infinity();

template <class T> typename T::Ptr mk(double q, Agent* creator);
template <> Material::Ptr mk<Material>(double q, Agent* a) {
  CompMap m; m[922350000] = 1;
  Composition::Ptr c = Composition::CreateFromMass(m);
  return a ? Material::Create(a, q, c) : Material::CreateUntracked(q, c);
}
template <> Product::Ptr mk<Product>(double q, Agent* a) {
  return a ? Product::Create(a, q, "qual") : Product::CreateUntracked(q, "qual");
}

// what a request-side constraint makes of an offer depends on the offer too
double offer_factor(double qty) { return fmod(floor(qty * 4), 2) == 0 ? 1 : 0.5; }

// a constraint converter: coefficient by request and offer (request side) or
// by offer (bid side)
template <class T> struct CoefConv : public Converter<T> {
  std::map<Request<T>*, double> byreq;
  std::map<T*, double> byoffer;
  virtual double convert(boost::shared_ptr<T> offer, Arc const* a, ExchangeTranslationContext<T> const* ctx) const {
    double c = 1;
    if (!byreq.empty()) c = byreq.at(ctx->node_to_request.at(a->unode())) * offer_factor(offer->quantity());
    else c = byoffer.at(offer.get());
    return c * offer->quantity();
  }
  virtual bool operator==(Converter<T>& o) const { return this == &o; }
};

template <class T> struct Port {
  typename RequestPortfolio<T>::Ptr p;
  Trader* who; int id;
  double qty;
  bool mutual;
  std::vector<int> reqs;
  std::vector<double> caps;
  std::vector<std::map<int, double> > coef;  // per extra constraint, per request index
};
template <class T> struct Req {
  Request<T>* r; int port; double qty; Str commod; double pref; bool excl; double mcoef;
};
template <class T> struct BPort {
  typename BidPortfolio<T>::Ptr p;
  Trader* who; int id;
  std::vector<int> bids;
  std::vector<double> caps;
  std::vector<std::map<int, double> > coef;   // per constraint, per bid index
};
template <class T> struct BidM {
  Bid<T>* b; int req, port; double qty; bool excl; double pref; T* offer;
};
struct M3 { int req, bid; double amt; };

template <class T> struct Ex {
  std::vector<Port<T> > ports;
  std::vector<Req<T> > reqs;
  std::vector<BPort<T> > bports;
  std::vector<BidM<T> > bids;
  std::map<Request<T>*, int> rix;
  std::map<Bid<T>*, int> bix;
  std::vector<M3> trades;
  struct Resp { int req, bid; typename T::Ptr r; int state; double qty; Agent* from; bool got; };
  std::vector<Resp> resp;
  std::map<int, int> adj;        // requester id -> adjustment calls
  std::map<int, int> accepted;   // requester id -> accept calls
  std::set<int> asked;           // suppliers asked
  std::vector<M3> greedy;        // P06: matches of the greedy solver
  bool dual; double pseudo;
  int t;
  void clear() { *this = Ex<T>(); }
  Ex() : dual(false), pseudo(0), t(-1) {}
  int R(Request<T>* r) { auto it = rix.find(r); return it == rix.end() ? -1 : it->second; }
  int B(Bid<T>* b) { auto it = bix.find(b); return it == bix.end() ? -1 : it->second; }
};
Ex<Material> EM;
Ex<Product> EP;
template <class T> Ex<T>& E();
template <> Ex<Material>& E<Material>() { return EM; }
template <> Ex<Product>& E<Product>() { return EP; }

struct W {
  Context* ctx;
  std::map<int, Agent*> agents;
  double scale;
  std::vector<Str> commods;
  bool coarse, zero_coef, solver_excl, use_cond, ties;
  std::map<Str, double> weights;   // effective commodity weights
  Str solver;
  double tmax;
  int throw_in;  // supplier call that throws
  int ncalls;
  bool stalled;
  Str boom;
  struct Tx { int from, to, state; Str commod; int t; };
  std::vector<Tx> tx;
} *X;

double rq() { return X->scale * (X->coarse ? range(1, 64) / 4.0 : (chance(1, 2) ? range(1, 200) * 0.1 : range(1, 3000) / 7.0)); }
double rp() { return X->ties && chance(1, 2) ? 1.0 : range(1, 4096) / 64.0; }

template <class T> void gen_requests(Trader* who, std::set<typename RequestPortfolio<T>::Ptr>* out) {
  Ex<T>& e = E<T>();
  if (e.t != X->ctx->time()) { e.clear(); e.t = X->ctx->time(); }
  int np = X->use_cond ? (int)choose(3) : (int)choose(2);
  for (int k = 0; k < np; ++k) {
    Port<T> P;
    P.p = typename RequestPortfolio<T>::Ptr(new RequestPortfolio<T>());
    P.who = who; P.id = who->manager()->id(); P.mutual = false;
    int nr = 1 + (int)choose(chance(1, 6) ? 7 : 3);
    int pi = (int)e.ports.size();
    P.qty = 0;
    std::vector<Request<T>*> rs;
    for (int i = 0; i < nr; ++i) {
      Req<T> q;
      q.port = pi; q.qty = rq(); q.commod = pick(X->commods); q.pref = rp(); q.excl = chance(1, 4); q.mcoef = 1;
      typename T::Ptr tgt = mk<T>(q.qty, NULL);
      q.r = P.p->AddRequest(tgt, who, q.commod, q.pref, q.excl);
      rs.push_back(q.r);
      e.rix[q.r] = (int)e.reqs.size();
      P.reqs.push_back((int)e.reqs.size());
      e.reqs.push_back(q);
      P.qty += q.qty;
      note("%s req r%d port=%d by #%d %s qty=%g pref=%g excl=%d", Tr<T>::nm(), (int)e.reqs.size() - 1, pi, P.id,
           q.commod.c_str(), q.qty, q.pref, q.excl);
    }
    if (nr > 1 && chance(1, 4)) {
      P.mutual = true;
      P.p->AddMutualReqs(rs);
      double avg = P.qty / nr;
      P.qty = avg;
      for (int i : P.reqs) e.reqs[i].mcoef = e.reqs[i].qty / avg;
      note("   mutual: port qty=%g", P.qty);
    }
    for (int nc = chance(1, 5) ? 1 + (int)chance(1, 4) : 0; nc > 0; --nc) {
      CoefConv<T>* cc = new CoefConv<T>();
      typename Converter<T>::Ptr cp(cc);
      std::map<int, double> co;
      for (int i : P.reqs) co[i] = cc->byreq[e.reqs[i].r] = pick(std::vector<double>{1, 0.5, 2, 0.25});
      double cap = rq();
      P.p->AddConstraint(CapacityConstraint<T>(cap, cp));
      P.caps.push_back(cap);
      P.coef.push_back(co);
      note("   request constraint cap=%g", cap);
    }
    e.ports.push_back(P);
    out->insert(P.p);
  }
}

template <class T> void gen_bids(Trader* who, typename CommodMap<T>::type& cr,
                                 std::set<typename BidPortfolio<T>::Ptr>* out) {
  Ex<T>& e = E<T>();
  // what is shown to bidders is exactly what was requested
  if (J("P03")) {
    size_t n = 0;
    for (auto& kv : cr) {
      for (Request<T>* r : kv.second) {
        int i = e.R(r);
        DST_CHECK(i >= 0 && e.reqs[i].commod == kv.first, "bid-board", "bidders see a request that was not made for %s", kv.first.c_str());
        ++n;
      }
    }
    DST_CHECK(n == e.reqs.size(), "bid-board", "bidders see %zu requests, %zu were made", n, e.reqs.size());
  }
  int np = (int)choose(3);
  for (int k = 0; k < np; ++k) {
    BPort<T> P;
    P.p = typename BidPortfolio<T>::Ptr(new BidPortfolio<T>());
    P.who = who; P.id = who->manager()->id();
    int pi = (int)e.bports.size();
    typename T::Ptr shared;
    double sq = 0; bool sx = false;
    if (chance(1, 4)) { sq = rq(); shared = mk<T>(sq, NULL); sx = chance(1, 2); }
    for (size_t i = 0; i < e.reqs.size() && e.bids.size() < 40; ++i) {
      if (e.ports[e.reqs[i].port].who == who && !chance(1, 4)) continue;
      if (!chance(2, 3)) continue;
      BidM<T> b;
      b.req = (int)i; b.port = pi;
      b.excl = chance(1, 5);
      typename T::Ptr off;
      if (shared) { off = shared; b.qty = sq; b.excl = sx; }
      else {
        b.qty = chance(1, 4) ? e.reqs[i].qty : rq();
        off = mk<T>(b.qty, NULL);
      }
      b.offer = off.get();
      b.pref = chance(1, 2) ? NAN : (chance(1, 8) ? -rp() : rp());
      if (std::isnan(b.pref)) b.b = P.p->AddBid(e.reqs[i].r, off, who, b.excl);
      else b.b = P.p->AddBid(e.reqs[i].r, off, who, b.excl, b.pref);
      if (std::isnan(b.pref)) b.pref = e.reqs[i].pref;
      e.bix[b.b] = (int)e.bids.size();
      P.bids.push_back((int)e.bids.size());
      e.bids.push_back(b);
      note("%s bid b%d port=%d by #%d on r%zu qty=%g excl=%d pref=%g%s", Tr<T>::nm(), (int)e.bids.size() - 1, pi, P.id, i,
           b.qty, b.excl, b.pref, shared ? " shared" : "");
    }
    if (P.bids.empty()) continue;
    int nc = (int)choose(chance(1, 5) ? 5 : 3);
    for (int c = 0; c < nc; ++c) {
      std::map<int, double> co;
      double cap = rq();
      if (chance(1, 10)) cap = std::numeric_limits<double>::max();
      if (choose(2)) {
        CoefConv<T>* cc = new CoefConv<T>();
        typename Converter<T>::Ptr cp(cc);
        for (int i : P.bids) {
          double v = X->zero_coef && chance(1, 4) ? 0 : pick(std::vector<double>{1, 0.5, 2, 0.25});
          if (cc->byoffer.count(e.bids[i].offer)) v = cc->byoffer[e.bids[i].offer];
          co[i] = cc->byoffer[e.bids[i].offer] = v;
        }
        P.p->AddConstraint(CapacityConstraint<T>(cap, cp));
      } else {
        for (int i : P.bids) co[i] = 1;
        P.p->AddConstraint(CapacityConstraint<T>(cap));
      }
      P.caps.push_back(cap);
      P.coef.push_back(co);
      note("   bid constraint cap=%g", cap);
    }
    e.bports.push_back(P);
    out->insert(P.p);
  }
}

template <class T> void adjust(Agent* self, typename PrefMap<T>::type& prefs) {
  Ex<T>& e = E<T>();
  // identify the requester this map belongs to
  int owner = -1;
  for (auto& kv : prefs) {
    int i = e.R(kv.first);
    if (i < 0) fail("pref-map", "a preference map names an unknown request");
    int o = e.ports[e.reqs[i].port].id;
    if (owner >= 0 && J("P05")) DST_CHECK(o == owner, "pref-map", "a preference map mixes requesters %d and %d", o, owner);
    owner = o;
  }
  if (owner < 0) return;
  int level = 0;   // generations between the requester and this agent
  Agent* up = X->agents[owner];
  while (up && up != self) { up = up->parent(); ++level; }
  if (!up) { if (J("P05")) fail("adjust-order", "#%d was shown the preferences of #%d, which does not descend from it", self->id(), owner); return; }
  if (J("P05")) {
    int& seen = e.adj[owner];
    DST_CHECK(seen == level, "adjust-order", "%s preferences of #%d offered for adjustment at level %d after %d levels", Tr<T>::nm(),
              owner, level, seen);
    seen++;
    size_t n = 0;
    for (size_t b = 0; b < e.bids.size(); ++b) {
      BidM<T>& bm = e.bids[b];
      if (e.ports[e.reqs[bm.req].port].id != owner) continue;
      ++n;
      Request<T>* r = e.reqs[bm.req].r;
      DST_CHECK(prefs.count(r) && prefs[r].count(bm.b), "pref-map", "bid b%zu is missing from the preferences shown to level %d", b, level);
      DST_CHECK(prefs[r][bm.b] == bm.pref, "pref-map", "level %d sees preference %g for b%zu, expected %g", level, prefs[r][bm.b], b, bm.pref);
    }
    size_t m = 0;
    for (auto& kv : prefs) m += kv.second.size();
    DST_CHECK(m == n, "pref-map", "level %d sees %zu preferences, expected %zu", level, m, n);
  }
  if (!chance(1, 3)) return;
  for (size_t b = 0; b < e.bids.size(); ++b) {
    BidM<T>& bm = e.bids[b];
    if (e.ports[e.reqs[bm.req].port].id != owner || !chance(1, 3)) continue;
    bm.pref = chance(1, 5) ? -1 : rp();
    prefs[e.reqs[bm.req].r][bm.b] = bm.pref;
    note("%s level %d sets pref of b%zu to %g", Tr<T>::nm(), level, b, bm.pref);
  }
}

template <class T> void supply(Trader* who, const std::vector<Trade<T> >& trades,
                               std::vector<std::pair<Trade<T>, typename T::Ptr> >& out) {
  Ex<T>& e = E<T>();
  int id = who->manager()->id();
  if (J("P04")) DST_CHECK(!e.asked.count(id), "asked-twice", "supplier #%d was asked for its trades twice in one exchange", id);
  if (J("P04")) DST_CHECK(e.accepted.empty(), "asked-late", "supplier #%d was asked for its trades after deliveries had begun", id);
  e.asked.insert(id);
  bool boom = J("P04") && X->throw_in >= 0 && X->ncalls++ == X->throw_in;
  for (size_t i = 0; i < trades.size(); ++i) {
    const Trade<T>& t = trades[i];
    int r = e.R(t.request), b = e.B(t.bid);
    if (r < 0 || b < 0) fail("unknown-trade", "a trade names a request or bid nobody made");
    M3 m = {r, b, t.amt};
    e.trades.push_back(m);
    note("%s trade r%d <- b%d amt=%.12g", Tr<T>::nm(), r, b, t.amt);
    if (J("P04") || J("P03")) {
      DST_CHECK(e.bids[b].req == r, "cross-trade", "trade pairs request r%d with a bid on r%d", r, e.bids[b].req);
      DST_CHECK(e.bports[e.bids[b].port].who == who, "misdirected-trade", "trade of bidder #%d's bid sent to supplier #%d",
                e.bports[e.bids[b].port].id, id);
    }
    // delivery: honest, partial, split, nothing, or an empty parcel
    int mode = J("P04") ? (int)choose(8) : 0;
    std::vector<double> parts;
    if (mode <= 3) parts.push_back(t.amt);
    else if (mode == 4) { parts.push_back(t.amt * 0.5); fault("partial-delivery"); }
    else if (mode == 5) { parts.push_back(t.amt * 0.25); parts.push_back(t.amt * 0.75); fault("split-delivery"); }
    else if (mode == 6) { fault("missing-delivery"); }
    else if (choose(2)) { parts.push_back(0); fault("empty-delivery"); }
    else { parts.push_back(pick(std::vector<double>{1e-4, 1e-7, 1e-8, 5e-10})); fault("tiny-delivery"); }
    for (double q : parts) {
      typename T::Ptr rs = mk<T>(q, who->manager());
      typename Ex<T>::Resp rp = {r, b, rs, rs->state_id(), q, who->manager(), false};
      e.resp.push_back(rp);
      out.push_back(std::make_pair(t, rs));
      note("%s #%d delivers %g on r%d", Tr<T>::nm(), id, q, r);
    }
    if (boom && (i + 1 == trades.size() || choose(2))) {
      fault("supplier-throws");
      X->boom = "supplier failed";
      throw ValueError(X->boom);
    }
  }
}

template <class T> void accept(Trader* who, const std::vector<std::pair<Trade<T>, typename T::Ptr> >& in) {
  Ex<T>& e = E<T>();
  int id = who->manager()->id();
  note("%s #%d receives %zu", Tr<T>::nm(), id, in.size());
  if (J("P04")) DST_CHECK(e.accepted[id]++ == 0, "accepted-twice", "requester #%d was handed its deliveries twice", id);
  for (size_t i = 0; i < in.size(); ++i) {
    bool found = false;
    for (auto& r : e.resp) {
      if (r.got || r.r != in[i].second) continue;
      r.got = found = true;
      if (!J("P04")) break;
      DST_CHECK(e.ports[e.reqs[r.req].port].who == who, "misdelivered", "delivery for #%d was handed to #%d",
                e.ports[e.reqs[r.req].port].id, id);
      DST_CHECK(e.reqs[r.req].r == in[i].first.request && e.bids[r.bid].b == in[i].first.bid, "misdelivered",
                "delivery to #%d is labelled with another trade", id);
      DST_CHECK(fabs(r.r->quantity() - r.qty) == 0, "delivery-changed", "delivered quantity changed from %g to %g", r.qty, r.r->quantity());
      break;
    }
    if (J("P04")) DST_CHECK(found, "unknown-delivery", "#%d was handed a resource nobody sent it, or one twice", id);
  }
  // receivers process what they are given right away
  if (J("P04"))
    for (size_t i = 0; i < in.size(); ++i) {
      typename T::Ptr r = in[i].second;
      switch (choose(3)) {
        case 1: mk<T>(1, who->manager())->Absorb(r); stat("receiver_absorbs"); break;
        case 2: r->ExtractRes(r->quantity() * 0.5); stat("receiver_splits"); break;
        default: break;
      }
    }
}

// ---- oracles -----------------------------------------------------------
template <class T> bool excl_ok(Ex<T>& e, const M3& m) {
  Req<T>& q = e.reqs[m.req];
  BidM<T>& b = e.bids[m.bid];
  if (q.excl && !near(m.amt, q.qty, kTol)) return false;
  if (b.excl && !near(m.amt, b.qty, kTol)) return false;
  return true;
}

template <class T> void check_feasible(Ex<T>& e, const std::vector<M3>& ms, const char* who, bool excl, bool req_limits, bool port_limits) {
  const char* nm = Tr<T>::nm();
  std::vector<double> perreq(e.reqs.size(), 0), perbid(e.bids.size(), 0), perport(e.ports.size(), 0);
  std::map<int, int> nmatch_req, nmatch_bid;
  for (const M3& m : ms) {
    DST_CHECK(std::isfinite(m.amt) && m.amt > 0, "nonpositive-trade", "%s %s trade r%d<-b%d has amount %g", who, nm, m.req, m.bid, m.amt);
    DST_CHECK(e.bids[m.bid].pref > 0, "vetoed-trade", "%s %s trade r%d<-b%d although its preference is %g", who, nm, m.req, m.bid,
              e.bids[m.bid].pref);
    perreq[m.req] += m.amt;
    perbid[m.bid] += m.amt;
    perport[e.reqs[m.req].port] += m.amt;
    if (excl)
      DST_CHECK(excl_ok(e, m), "exclusive-split",
                "%s %s trade r%d<-b%d of %.10g although request (%g, exclusive=%d) and bid (%g, exclusive=%d) are all-or-nothing", who, nm, m.req,
                m.bid, m.amt, e.reqs[m.req].qty, e.reqs[m.req].excl, e.bids[m.bid].qty, e.bids[m.bid].excl);
    nmatch_req[m.req]++;
    nmatch_bid[m.bid]++;
  }
  for (size_t i = 0; i < e.bids.size(); ++i)
    DST_CHECK(perbid[i] <= e.bids[i].qty * (1 + kTol) + kTol, "bid-exceeded", "%s %s bid b%zu offered %g, %.10g was traded", who, nm, i,
              e.bids[i].qty, perbid[i]);
  if (req_limits) {
    for (size_t i = 0; i < e.reqs.size(); ++i)
      DST_CHECK(perreq[i] <= e.reqs[i].qty * (1 + kTol) + kTol, "request-exceeded", "%s %s request r%zu asked for %g, %.10g was traded", who,
                nm, i, e.reqs[i].qty, perreq[i]);
    for (size_t i = 0; i < e.ports.size(); ++i)
      if (port_limits || !e.ports[i].mutual) DST_CHECK(perport[i] <= e.ports[i].qty * (1 + kTol) + kTol, "portfolio-exceeded", "%s %s request portfolio %zu asked for %g, %.10g was traded",
                who, nm, i, e.ports[i].qty, perport[i]);
  }
  if (excl) {
    for (auto& kv : nmatch_req)
      DST_CHECK(!e.reqs[kv.first].excl || kv.second == 1, "exclusive-split", "%s %s exclusive request r%d was served by %d trades", who, nm,
                kv.first, kv.second);
  }
  for (size_t p = 0; p < e.bports.size(); ++p) {
    BPort<T>& P = e.bports[p];
    for (size_t c = 0; c < P.caps.size(); ++c) {
      double s = 0;
      for (int b : P.bids) s += perbid[b] * P.coef[c][b];
      DST_CHECK(s <= P.caps[c] * (1 + kTol) + kTol, "constraint-exceeded",
                "%s %s bid portfolio %zu of #%d has capacity %g, trades use %.10g", who, nm, p, P.id, P.caps[c], s);
    }
    if (excl) {
      // one exclusive resource offered on several requests is traded at most once
      std::map<T*, int> n;
      for (int b : P.bids) if (e.bids[b].excl && perbid[b] > 0) n[e.bids[b].offer]++;
      for (auto& kv : n)
        DST_CHECK(kv.second <= 1, "exclusive-offer", "%s %s one exclusive offer of #%d was traded %d times", who, nm, P.id, kv.second);
    }
  }
}

// reference model of the greedy order; returns false when a tie or a
// borderline exclusivity decision makes the outcome unspecified
template <class T> bool reference(Ex<T>& e, std::vector<M3>* out) {
  size_t ng = e.ports.size();
  std::vector<std::vector<int> > arcs(e.reqs.size());
  for (size_t b = 0; b < e.bids.size(); ++b) if (e.bids[b].pref > 0) arcs[e.bids[b].req].push_back((int)b);
  std::vector<double> avg(e.reqs.size(), 0);
  for (size_t r = 0; r < e.reqs.size(); ++r) {
    for (int b : arcs[r]) avg[r] += e.bids[b].pref;
    if (!arcs[r].empty()) avg[r] /= arcs[r].size();
  }
  std::vector<std::pair<double, int> > order;
  for (size_t g = 0; g < ng; ++g) {
    double w = 0;
    for (int r : e.ports[g].reqs) {
      double cw = X->weights.empty() ? 1 : (X->weights.count(e.reqs[r].commod) ? X->weights[e.reqs[r].commod] : 0);
      w += cw * (1 + avg[r] / (1 + avg[r]));
    }
    w /= e.ports[g].reqs.size();
    bool live = false;
    for (int r : e.ports[g].reqs) live |= !arcs[r].empty();
    if (!live) continue;
    order.push_back(std::make_pair(X->use_cond ? -w : 0.0, (int)g));
  }
  std::stable_sort(order.begin(), order.end(), [](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first < b.first; });
  if (X->use_cond)
    for (size_t i = 1; i < order.size(); ++i) if (fabs(order[i].first - order[i - 1].first) < 1e-9) return false;
  std::vector<std::vector<double> > bcap(e.bports.size()), rcap(ng);
  for (size_t p = 0; p < e.bports.size(); ++p) bcap[p] = e.bports[p].caps;
  for (size_t g = 0; g < ng; ++g) { rcap[g] = e.ports[g].caps; rcap[g].push_back(e.ports[g].qty); }
  std::vector<double> rdone(e.reqs.size(), 0), bdone(e.bids.size(), 0);
  std::set<std::pair<int, T*> > excl_used;
  for (auto& og : order) {
    Port<T>& P = e.ports[og.second];
    std::vector<int> rs = P.reqs;
    std::stable_sort(rs.begin(), rs.end(), [&](int a, int b) { return avg[a] > avg[b]; });
    for (size_t i = 1; i < rs.size(); ++i)
      if (fabs(avg[rs[i]] - avg[rs[i - 1]]) < 1e-9 && !(arcs[rs[i]].empty() && arcs[rs[i - 1]].empty())) return false;
    double got = 0;
    for (int r : rs) {
      std::vector<int> as = arcs[r];
      std::stable_sort(as.begin(), as.end(), [&](int a, int b) { return e.bids[a].pref > e.bids[b].pref; });
      for (size_t i = 1; i < as.size(); ++i) if (fabs(e.bids[as[i]].pref - e.bids[as[i - 1]].pref) < 1e-9) return false;
      for (int b : as) {
        BidM<T>& bm = e.bids[b];
        BPort<T>& BP = e.bports[bm.port];
        double ucap = -kInf;
        for (size_t c = 0; c < rcap[og.second].size(); ++c) {
          double co = c < P.coef.size() ? P.coef[c][r] * offer_factor(bm.qty) : e.reqs[r].mcoef;
          ucap = std::max(ucap, rcap[og.second][c] / co);
        }
        double vcap = kInf;
        for (size_t c = 0; c < BP.caps.size(); ++c)
          if (BP.caps[c] < 1e300 && BP.coef[c][b] > 0) vcap = std::min(vcap, bcap[bm.port][c] / BP.coef[c][b]);
        double amt = std::min(P.qty - got, std::min(std::min(ucap, e.reqs[r].qty - rdone[r]), std::min(vcap, bm.qty - bdone[b])));
        if (bm.excl || e.reqs[r].excl) {
          double need = bm.excl ? bm.qty : e.reqs[r].qty;
          if (bm.excl && e.reqs[r].excl && bm.qty != e.reqs[r].qty) {
            if (near(bm.qty, e.reqs[r].qty, 1e-9)) return false;
            continue;
          }
          if (amt != need && near(amt, need, 1e-9)) return false;
          if (amt < need) continue;
          if (bm.excl && excl_used.count(std::make_pair(bm.port, bm.offer))) continue;
          amt = need;
        }
        if (amt > 0 && amt < 1e-5) return false;
        if (amt <= 0) continue;
        if (bm.excl) excl_used.insert(std::make_pair(bm.port, bm.offer));
        for (size_t c = 0; c < rcap[og.second].size(); ++c) {
          double co = c < P.coef.size() ? P.coef[c][r] * offer_factor(bm.qty) : e.reqs[r].mcoef;
          rcap[og.second][c] -= amt * co;
        }
        for (size_t c = 0; c < BP.caps.size(); ++c) if (BP.caps[c] < 1e300) bcap[bm.port][c] -= amt * BP.coef[c][b];
        rdone[r] += amt; bdone[b] += amt; got += amt;
        M3 m = {r, b, amt};
        out->push_back(m);
      }
    }
  }
  return true;
}

// nothing that could still be traded was left on the table
template <class T> void check_saturated(Ex<T>& e, const std::vector<M3>& ms) {
  std::vector<double> perreq(e.reqs.size(), 0), perbid(e.bids.size(), 0), perport(e.ports.size(), 0);
  for (const M3& m : ms) { perreq[m.req] += m.amt; perbid[m.bid] += m.amt; perport[e.reqs[m.req].port] += m.amt; }
  for (size_t b = 0; b < e.bids.size(); ++b) {
    BidM<T>& bm = e.bids[b];
    Req<T>& q = e.reqs[bm.req];
    Port<T>& P = e.ports[q.port];
    if (bm.pref <= 0 || bm.excl || q.excl) continue;
    double room = std::min(std::min(P.qty - perport[q.port], q.qty - perreq[bm.req]), bm.qty - perbid[b]);
    double ucap = -kInf, use = 0;
    for (int r : P.reqs) use += perreq[r] * e.reqs[r].mcoef;
    ucap = (P.qty - use) / q.mcoef;
    for (size_t c = 0; c < P.caps.size(); ++c) {
      use = 0;
      for (const M3& m : ms) if (e.reqs[m.req].port == q.port) use += m.amt * P.coef[c][m.req] * offer_factor(e.bids[m.bid].qty);
      ucap = std::max(ucap, (P.caps[c] - use) / (P.coef[c][bm.req] * offer_factor(bm.qty)));
    }
    room = std::min(room, ucap);
    BPort<T>& BP = e.bports[bm.port];
    for (size_t c = 0; c < BP.caps.size(); ++c) {
      double s = 0;
      for (int x : BP.bids) s += perbid[x] * BP.coef[c][x];
      if (BP.coef[c][b] > 0) room = std::min(room, (BP.caps[c] - s) / BP.coef[c][b]);
    }
    DST_CHECK(room <= 1e-4, "unmatched", "%s: %g more could have been traded on r%d<-b%zu", Tr<T>::nm(), room, bm.req, b);
  }
}

template <class T> double cost(Ex<T>& e, const std::vector<M3>& ms) {
  double c = 0;
  std::vector<double> perreq(e.reqs.size(), 0);
  std::vector<bool> live(e.ports.size(), false);
  for (auto& b : e.bids) if (b.pref > 0) live[e.reqs[b.req].port] = true;
  for (const M3& m : ms) { c += m.amt / e.bids[m.bid].pref; perreq[m.req] += m.amt; }
  for (size_t g = 0; g < e.ports.size(); ++g) {
    if (!live[g]) continue;
    Port<T>& P = e.ports[g];
    double use = 0, shortf = 0;
    for (int r : P.reqs) use += perreq[r] * e.reqs[r].mcoef;
    shortf = std::max(0.0, P.qty - use);
    for (size_t k = 0; k < P.caps.size(); ++k) {
      use = 0;
      for (const M3& m : ms) if (e.reqs[m.req].port == (int)g) use += m.amt * P.coef[k][m.req] * offer_factor(e.bids[m.bid].qty);
      shortf = std::max(shortf, P.caps[k] - use);
    }
    c += shortf * e.pseudo;
  }
  return c;
}

template <class T> void finish_exchange() {
  Ex<T>& e = E<T>();
  if (e.t != X->ctx->time()) return;
  if (J("P03")) {
    check_feasible(e, e.trades, "greedy", true, true, true);
    if (!e.trades.empty()) nontrivial();
  }
  if (J("P04")) {
    for (auto& r : e.resp) {
      DST_CHECK(r.got, "lost-delivery", "t=%d: %s of %g sent by #%d for r%d never arrived", e.t, Tr<T>::nm(), r.qty, r.from->id(), r.req);
      if (r.qty > eps_rsrc()) {
        W::Tx x = {r.from->id(), e.ports[e.reqs[r.req].port].id, r.state, e.reqs[r.req].commod, e.t};
        X->tx.push_back(x);
      }
    }
    if (!e.resp.empty()) nontrivial();
  }
  if (J("P05")) {
    // every requester with bids, and every agent above it, saw its preferences
    std::set<int> owners;
    for (auto& b : e.bids) owners.insert(e.ports[e.reqs[b.req].port].id);
    for (int o : owners) {
      int depth = 0;
      for (Agent* a = X->agents[o]; a; a = a->parent()) ++depth;
      DST_CHECK(e.adj[o] == depth, "adjust-missed", "%s preferences of #%d were offered for adjustment to %d of %d agents", Tr<T>::nm(), o, e.adj[o], depth);
    }
    check_saturated(e, e.trades);
    std::vector<M3> ref;
    if (!X->zero_coef && reference(e, &ref)) {
      stat("compared_with_reference");
      std::map<std::pair<int, int>, double> a, b;
      for (auto& m : e.trades) a[std::make_pair(m.req, m.bid)] += m.amt;
      for (auto& m : ref) b[std::make_pair(m.req, m.bid)] += m.amt;
      for (auto& kv : b)
        DST_CHECK(near(a[kv.first], kv.second, 1e-6), "greedy-order", "%s t=%d: r%d<-b%d should trade %.10g by preference order, got %.10g",
                  Tr<T>::nm(), e.t, kv.first.first, kv.first.second, kv.second, a[kv.first]);
      for (auto& kv : a)
        DST_CHECK(b.count(kv.first) || kv.second < 1e-6, "greedy-order", "%s t=%d: r%d<-b%d traded %.10g, should not trade by preference order",
                  Tr<T>::nm(), e.t, kv.first.first, kv.first.second, kv.second);
      if (!ref.empty()) nontrivial();
    } else {
      stat("tie_skipped");
    }
  }
  if (J("P06")) {
    check_feasible(e, e.trades, "optimising", X->solver_excl, true, false);
    if (e.dual) {
      double cm = cost(e, e.trades), cg = cost(e, e.greedy);
      if (g_stalled) { fault("solver-stall"); g_stalled = false; X->stalled = true; }
      note("%s t=%d cost optimising=%.10g greedy=%.10g", Tr<T>::nm(), e.t, cm, cg);
      bool mutual = false;
      for (auto& P : e.ports) mutual |= P.mutual;
      // with a stalled clock an incumbent is compared on greedy's own scale,
      // which differs for mutual requests
      if (!(X->stalled && mutual)) DST_CHECK(cm <= cg * (1 + 1e-6) + 1e-4, "worse-than-greedy", "%s t=%d: the optimising solver's result costs %.10g, greedy's %.10g", Tr<T>::nm(),
                e.t, cm, cg);
      if (cm < cg - 1e-6) stat("better_than_greedy");
      nontrivial();
    }
  }
  uint64_t h = 7;
  for (auto& m : e.trades) h = mix(h, mix(m.req, m.bid));
  state(mix(mix(e.ports.size(), e.reqs.size()), mix(e.bids.size(), h)));
  stat("trades", e.trades.size());
  e.clear();
}

// runs greedy first (kept for comparison), then the real optimising solver
class DualSolver : public ExchangeSolver {
 public:
  DualSolver(bool excl, double tmax) : ExchangeSolver(excl), tmax(tmax) {}
  double tmax;
  virtual double SolveGraph() {
    {
      GreedySolver g(exclusive_orders_);
      g.Solve(graph_);
    }
    std::vector<Match> gm = graph_->matches();
    double pseudo = PseudoCost();
    graph_->ClearMatches();
    double ret;
    {
      ProgSolver p(X->solver, tmax, exclusive_orders_, false, false);
      ret = p.Solve(graph_);
    }
    grab<Material>(gm, pseudo);
    grab<Product>(gm, pseudo);
    return ret;
  }
  // matches carry only nodes; identify them through quantity and commodity is
  // ambiguous, so the graph's arc order (bids in portfolio order) is used
  template <class T> void grab(const std::vector<Match>& gm, double pseudo) {
    Ex<T>& e = E<T>();
    if (e.t != X->ctx->time() || e.bids.empty() || e.dual) return;
    // arcs are added per bid portfolio in set order; rebuild that order
    std::vector<int> order;
    std::vector<BPort<T>*> bps;
    for (auto& p : e.bports) bps.push_back(&p);
    // traders in id order, portfolios of one trader in pointer order
    std::stable_sort(bps.begin(), bps.end(), [](BPort<T>* a, BPort<T>* b) {
      return a->id != b->id ? a->id < b->id : a->p < b->p;
    });
    for (auto* p : bps)
      for (Bid<T>* b : p->p->bids()) {
        int i = e.B(b);
        if (e.bids[i].pref > 0) order.push_back(i);
      }
    std::vector<Arc>& arcs = graph_->arcs();
    if (arcs.size() != order.size()) return;
    for (auto& m : gm)
      for (size_t k = 0; k < arcs.size(); ++k)
        if (arcs[k] == m.first) {
          M3 x = {e.bids[order[k]].req, order[k], m.second};
          // cross-check the identification
          if (arcs[k].vnode()->qty != e.bids[order[k]].qty) return;
          e.greedy.push_back(x);
        }
    e.dual = true;
    e.pseudo = pseudo;
  }
};

template <class B> class Adj : public B {
 public:
  Adj(Context* c) : B(c) {}
  virtual void Snapshot(DbInit di) {}
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void InitFrom(QueryableBackend* b) {}
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { adjust<Material>(this, p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { adjust<Product>(this, p); }
  virtual void EnterNotify() { B::EnterNotify(); X->agents[this->id()] = this; }
  virtual void Decommission() { X->agents.erase(this->id()); B::Decommission(); }
  virtual void Tick() {}
  virtual void Tock() {}
};

class XReg : public Adj<Region> {
 public:
  XReg(Context* c) : Adj<Region>(c) {}
  virtual Agent* Clone() { XReg* m = new XReg(context()); m->Region::InitFrom(this); return m; }
};
class XInst : public Adj<Institution> {
 public:
  XInst(Context* c) : Adj<Institution>(c) {}
  virtual Agent* Clone() { XInst* m = new XInst(context()); m->Institution::InitFrom(this); return m; }
};
class XFac : public Adj<Facility> {
 public:
  XFac(Context* c) : Adj<Facility>(c) {}
  virtual Agent* Clone() { XFac* m = new XFac(context()); m->Facility::InitFrom(this); return m; }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    std::set<RequestPortfolio<Material>::Ptr> s; gen_requests<Material>(this, &s); return s;
  }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() {
    std::set<RequestPortfolio<Product>::Ptr> s; gen_requests<Product>(this, &s); return s;
  }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& c) {
    std::set<BidPortfolio<Material>::Ptr> s; gen_bids<Material>(this, c, &s); return s;
  }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& c) {
    std::set<BidPortfolio<Product>::Ptr> s; gen_bids<Product>(this, c, &s); return s;
  }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { adjust<Material>(this, p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { adjust<Product>(this, p); }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& t, std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) {
    supply<Material>(this, t, r);
  }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& t, std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) {
    supply<Product>(this, t, r);
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { accept<Material>(this, r); }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { accept<Product>(this, r); }
};

// judges each step's exchanges at the tock, which follows both of them
class Judge : public TimeListener {
 public:
  virtual void Tick() {
    steps();
    if (!chance(1, 5)) return;
    // traders come and go
    std::vector<Agent*> v;
    for (auto& x : X->agents) if (dynamic_cast<Facility*>(x.second)) v.push_back(x.second);
    if (!v.empty() && chance(1, 2)) X->ctx->SchedDecom(pick(v));
    else if (v.size() < 8) X->ctx->SchedBuild(NULL, "fac");
    stat("traders_change");
  }
  virtual void Tock() { finish_exchange<Material>(); finish_exchange<Product>(); }
  virtual void Decision() {}
  virtual const int id() const { return 100000; }
};

void run() {
  X = new W();
  W& w = *X;
  EM.clear(); EP.clear();
  w.throw_in = -1; w.ncalls = 0;
  w.coarse = J("P05") || chance(1, 2);
  w.ties = !J("P05") && chance(1, 3);
  w.zero_coef = chance(1, 10);
  w.use_cond = chance(2, 3);
  w.solver_excl = true;
  w.scale = (J("P03") || J("P04")) && chance(1, 6) ? pick(std::vector<double>{1e3, 1e6}) : 1;
  if (chance(1, 8)) setenv("CYCLUS_DEBUG_DRE", "1", 1);
  if (J("P04")) {
    cy_eps_rsrc = pick(std::vector<double>{1e-6, 1e-3, 1e-9});
    cy_eps = pick(std::vector<double>{1e-6, 1e-6, 1e-8});
  }
  int nc = 1 + (int)choose(3);
  for (int i = 0; i < nc; ++i) w.commods.push_back("c" + std::to_string(i));
  MemBackend back;
  Recorder* rec = new Recorder(64u);
  rec->RegisterBackend(&back);
  Timer* ti = new Timer();
  Context* ctx = new Context(ti, rec);
  w.ctx = ctx;
  int dur = chance(1, 10) ? range(4, 14) : range(1, 3);
  ctx->InitSim(SimInfo(dur, 2015, 1, "h"));
  ExchangeSolver* solver;
  if (J("P06")) {
    w.solver_excl = chance(2, 3);
    w.solver = chance(1, 4) ? "clp" : "cbc";
    w.tmax = 1000;
    if (chance(1, 3)) {
      w.tmax = pick(std::vector<double>{10, 1, 0.001});
      g_stall_after = (long)choose(200);
      g_stall = 1e5;
    }
    solver = new DualSolver(w.solver_excl, w.tmax);
  } else if (w.use_cond) {
    std::map<Str, double> cw;
    GreedyPreconditioner* c;
    int k = (int)choose(3);
    if (k == 0) c = new GreedyPreconditioner();
    else {
      for (auto& s : w.commods) if (!chance(1, 6)) cw[s] = range(1, 16) / 4.0;
      w.weights = cw;
      if (k == 1) c = new GreedyPreconditioner(cw);
      else {
        c = new GreedyPreconditioner(cw, GreedyPreconditioner::REVERSE);
        double lo = kInf, hi = -kInf;
        for (auto& kv : cw) { lo = std::min(lo, kv.second); hi = std::max(hi, kv.second); }
        for (auto& kv : w.weights) kv.second = hi + lo - kv.second;
      }
    }
    solver = new GreedySolver(choose(2) == 0, c);
  } else {
    solver = new GreedySolver(choose(2) == 0, (GreedyPreconditioner*)NULL);
  }
  ctx->solver(solver);
  ctx->AddPrototype("reg", [&] { Agent* a = new XReg(ctx); a->prototype("reg"); return a; }());
  ctx->AddPrototype("inst", [&] { Agent* a = new XInst(ctx); a->prototype("inst"); return a; }());
  ctx->AddPrototype("fac", [&] { Agent* a = new XFac(ctx); a->prototype("fac"); return a; }());
  int nr = 1 + (int)choose(2);
  int nf = range(2, 6);
  std::vector<Agent*> insts;
  for (int i = 0; i < nr; ++i) {
    Agent* r = ctx->CreateAgent<Agent>("reg");
    r->Build(NULL);
    Agent* n = ctx->CreateAgent<Agent>("inst");
    n->Build(r);
    insts.push_back(n);
    if (chance(1, 5)) { Agent* n2 = ctx->CreateAgent<Agent>("inst"); n2->Build(n); insts.push_back(n2); }
    if (chance(1, 5)) insts.push_back(r);
    if (chance(1, 5)) insts.push_back(NULL);
  }
  for (int i = 0; i < nf; ++i) ctx->CreateAgent<Agent>("fac")->Build(pick(insts));
  Judge judge;
  ctx->RegisterTimeListener(&judge);
  if (J("P04") && chance(1, 4)) w.throw_in = (int)choose(8);
  Str err;
  try {
    ti->RunSim();
  } catch (std::exception& e) {
    err = e.what();
  }
  if (!err.empty() && w.boom.empty()) fail("unexpected-error", "the exchange failed: %s", err.c_str());
  rec->Flush();
  if (J("P04")) {
    std::multiset<Str> want, got;
    std::set<int> ids;
    for (auto& x : w.tx) {
      char b[200]; snprintf(b, sizeof b, "%d->%d state %d %s t=%d", x.from, x.to, x.state, x.commod.c_str(), x.t);
      want.insert(b);
    }
    std::map<int, int> known;   // resource states that appear as deliveries
    for (const Row* r : back.table("Transactions")) {
      char b[200];
      snprintf(b, sizeof b, "%d->%d state %d %s t=%d", r->i("SenderId"), r->i("ReceiverId"), r->i("ResourceId"), r->s("Commodity").c_str(), r->i("Time"));
      got.insert(b);
      DST_CHECK(ids.insert(r->i("TransactionId")).second, "duplicate-transaction-id", "transaction id %d was used twice", r->i("TransactionId"));
    }
    if (w.boom.empty()) {
      for (auto& s : want) DST_CHECK(want.count(s) == got.count(s), "transactions", "delivery %s happened %zu times, recorded %zu times", s.c_str(), want.count(s), got.count(s));
      for (auto& s : got) DST_CHECK(want.count(s) == got.count(s), "transactions", "transaction %s recorded %zu times, happened %zu times", s.c_str(), got.count(s), want.count(s));
    } else {
      // the failing exchange: anything recorded must at least have been delivered
      for (auto& r : EM.resp) { char b[200]; snprintf(b, sizeof b, "%d->%d state %d %s t=%d", r.from->id(), EM.ports[EM.reqs[r.req].port].id, r.state, EM.reqs[r.req].commod.c_str(), EM.t); want.insert(b); }
      for (auto& r : EP.resp) { char b[200]; snprintf(b, sizeof b, "%d->%d state %d %s t=%d", r.from->id(), EP.ports[EP.reqs[r.req].port].id, r.state, EP.reqs[r.req].commod.c_str(), EP.t); want.insert(b); }
      for (auto& s : got) DST_CHECK(want.count(s) >= got.count(s), "transactions", "transaction %s recorded, never delivered", s.c_str());
    }
  }
  EM.clear(); EP.clear();
  ctx->UnregisterTimeListener(&judge);
  delete ctx;
  delete ti;
  delete rec;
}

}  // namespace

DST_WORLD(P03, run);
DST_WORLD(P04, run);
DST_WORLD(P05, run);
DST_WORLD(P06, run);
