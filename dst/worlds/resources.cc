// Resources and their containers: conservation and lineage (P07), buffers and
// inventory trackers (P08), packages and transport units (P09).  A scripted
// facility inside a real simulation (Timer, Context, Recorder) performs seeded
// sequences of operations, including ones that must be refused, on real
// Material, Product, ResBuf, ResMap, TotalInvTracker, Package objects.  A
// reference ledger predicts every quantity, composition and buffer content; the
// recorded tables are replayed as a lineage graph.
#include "simlib.h"
#include <algorithm>
#include <deque>
#include "toolkit/res_buf.h"
#include "toolkit/res_map.h"
#include "toolkit/res_manip.h"
#include "toolkit/total_inv_tracker.h"

using namespace cyclus;
using namespace cyclus::toolkit;
using namespace dst;

namespace {

typedef std::string Str;
bool J(const char* p) { return judging(p); }
#define CK(p, c, kind, ...) do { if (J(p)) DST_CHECK(c, kind, __VA_ARGS__); } while (0)

const int kNucs[] = {922350000, 922380000, 942390000, 10010000};

struct Obj {
  Resource::Ptr r;
  Material::Ptr m;
  Product::Ptr p;
  bool mat, tracked, live;
  double qty;
  std::map<int, double> mass;  // absolute, per nuclide
  Str qual, pkg;
  int loc;     // -1 held, else buffer index
  int state;
};

struct Buf {
  bool mat, bulk, keep;
  ResBuf<Material>* bm;
  ResBuf<Product>* bp;
  double cap;
  std::deque<int> c;  // object indices, front first
  double q() const;
};

struct PkgM { Str name, strat; double lo, hi; };

struct W {
  Context* ctx;
  Agent* me;
  std::vector<Obj> o;
  std::vector<Buf> b;
  std::vector<PkgM> pk;
  std::vector<Composition::Ptr> comps;
  double created_m, created_p;
  std::set<int> transmuted;  // states made by transmutation
  std::map<Str, int> qualid;
  TotalInvTracker* tit;
  std::vector<int> tbufs;
  double tcap;
  ResMap<int, Material>* rm;
  std::map<int, int> rmc;  // key -> object
  int nops;
  std::map<int, int> born;  // state id -> time it was first seen
  bool coarse;
} *X;

double Buf::q() const { double s = 0; for (int i : c) s += X->o[i].qty; return s; }

double rq() {
  switch (choose(4)) {
    case 0: return range(1, 64) / 4.0;
    case 1: return range(1, 100) * 0.1;
    case 2: return range(1, 3000) / 7.0;
    default: return range(1, 20);
  }
}

int count(const Buf& b) { return b.mat ? b.bm->count() : b.bp->count(); }
double bqty(const Buf& b) { return b.mat ? b.bm->quantity() : b.bp->quantity(); }
double bspace(const Buf& b) { return b.mat ? b.bm->space() : b.bp->space(); }

bool qnear(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)) + 1e-9; }

int add(Resource::Ptr r, double qty, bool tracked) {
  Obj o;
  o.r = r;
  o.m = boost::dynamic_pointer_cast<Material>(r);
  o.p = boost::dynamic_pointer_cast<Product>(r);
  o.mat = (bool)o.m;
  o.tracked = tracked; o.live = true; o.qty = qty; o.loc = -1; o.state = r->state_id();
  o.pkg = "unpackaged";
  X->o.push_back(o);
  return (int)X->o.size() - 1;
}

void kill(int i) {  // emptied: its owner lets go of it
  Obj& o = X->o[i];
  o.live = false;
  o.r.reset(); o.m.reset(); o.p.reset();
}

// the ledger for one object against the real one
void check_obj(int i, const char* after) {
  Obj& o = X->o[i];
  if (!o.live) return;
  double q = o.r->quantity();
  CK("P07", q >= 0 && std::isfinite(q), "negative-quantity", "after %s: resource %d has quantity %.17g", after, i, q);
  CK("P07", qnear(q, o.qty), "quantity", "after %s: resource %d has quantity %.12g, expected %.12g", after, i, q, o.qty);
  if (J("P07") && o.mat && o.qty > 1e-6) {
    CompMap m = o.m->comp()->mass();
    double s = 0;
    for (auto& kv : m) s += kv.second;
    std::set<int> nucs;
    for (auto& kv : m) nucs.insert(kv.first);
    for (auto& kv : o.mass) nucs.insert(kv.first);
    for (int n : nucs) {
      double got = s > 0 ? (m.count(n) ? m[n] : 0) / s * q : 0, want = o.mass.count(n) ? o.mass[n] : 0;
      DST_CHECK(fabs(got - want) <= 1e-6 * (1 + o.qty), "nuclide-mass", "after %s: resource %d holds %.10g of nuclide %d, expected %.10g", after, i, got,
                n, want);
    }
  }
  if (J("P07") && !o.mat)
    DST_CHECK(o.p->quality() == o.qual, "quality", "after %s: product %d has quality %s, expected %s", after, i, o.p->quality().c_str(), o.qual.c_str());
  CK("P09", o.r->package_name() == o.pkg, "package-name", "after %s: resource %d is in package '%s', expected '%s'", after, i,
     o.r->package_name().c_str(), o.pkg.c_str());
}

void check_buf(size_t i, const char* after) {
  if (!J("P08")) return;
  Buf& b = X->b[i];
  DST_CHECK(count(b) == (int)b.c.size(), "buffer-count", "after %s: buffer %zu holds %d resources, expected %zu", after, i, count(b), b.c.size());
  double want = 0;
  for (int k : b.c) want += X->o[k].r->quantity();
  DST_CHECK(fabs(bqty(b) - want) <= 1e-9 * (1 + want), "buffer-quantity", "after %s: buffer %zu reports %.15g, its contents add up to %.15g", after, i,
            bqty(b), want);
  DST_CHECK(bqty(b) >= 0, "buffer-quantity", "after %s: buffer %zu reports %.17g", after, i, bqty(b));
  DST_CHECK(qnear(b.q(), want), "buffer-quantity", "after %s: buffer %zu contents are %.12g, expected %.12g", after, i, want, b.q());
  DST_CHECK(bqty(b) <= b.cap + 1e-5 + 1e-9 * b.cap, "over-capacity", "after %s: buffer %zu holds %.12g, capacity %.12g", after, i, bqty(b), b.cap);
  double sp = b.cap - want;
  if (sp < 0) sp = 0;
  DST_CHECK(!std::isfinite(sp) || fabs(bspace(b) - sp) <= 1e-8 * (1 + b.cap), "buffer-space", "after %s: buffer %zu reports space %.12g, expected %.12g", after, i,
            bspace(b), sp);
  if (!b.c.empty()) {
    Resource::Ptr f = b.mat ? (Resource::Ptr)b.bm->Peek() : (Resource::Ptr)b.bp->Peek();
    DST_CHECK(f == X->o[b.c.front()].r, "buffer-order", "after %s: buffer %zu's next resource is not the oldest one", after, i);
  }
}

void check_all(const char* after) {
  for (size_t i = 0; i < X->o.size(); ++i) check_obj((int)i, after);
  for (size_t i = 0; i < X->b.size(); ++i) check_buf(i, after);
  if (J("P08")) {
    double q = 0, cap = 0;
    for (int k : X->tbufs) { q += bqty(X->b[k]); cap += X->b[k].cap; }
    DST_CHECK(qnear(X->tit->quantity(), q), "tracker", "after %s: inventory tracker reports %.12g, buffers hold %.12g", after, X->tit->quantity(), q);
    double tc = std::min(cap, X->tcap);
    DST_CHECK(!std::isfinite(tc) || qnear(X->tit->capacity(), tc), "tracker", "after %s: tracker capacity %.12g, expected %.12g", after, X->tit->capacity(), tc);
    DST_CHECK(!std::isfinite(tc) || tc > 1e300 || qnear(X->tit->space(), std::max(0.0, tc - q)), "tracker", "after %s: tracker space %.12g, expected %.12g", after, X->tit->space(), std::max(0.0, tc - q));
    double rq = 0;
    for (auto& kv : X->rmc) rq += X->o[kv.second].r->quantity();
    DST_CHECK(qnear(X->rm->quantity(), rq) && X->rm->size() == (int)X->rmc.size(), "resource-map", "after %s: map reports %.12g in %d, holds %.12g in %zu", after,
              X->rm->quantity(), X->rm->size(), rq, X->rmc.size());
  }
  if (J("P07")) for (auto& o : X->o) if (o.live && o.tracked) X->born.emplace(o.r->state_id(), X->ctx->time());
  double tm = 0, tp = 0;
  for (auto& o : X->o) if (o.live && o.tracked) (o.mat ? tm : tp) += o.r->quantity();
  CK("P07", fabs(tm - X->created_m) <= 1e-5 * (1 + X->created_m), "conservation", "after %s: %.12g of material exists, %.12g was created", after, tm, X->created_m);
  CK("P07", fabs(tp - X->created_p) <= 1e-5 * (1 + X->created_p), "conservation", "after %s: %.12g of product exists, %.12g was created", after, tp, X->created_p);
}

int held(bool any_tracked, int type) {  // a held object; type 0 mat, 1 prod, 2 any
  std::vector<int> v;
  for (size_t i = 0; i < X->o.size(); ++i) {
    Obj& o = X->o[i];
    if (!o.live || o.loc != -1 || o.qty < 1e-4) continue;
    if (!any_tracked && !o.tracked) continue;
    if (type != 2 && o.mat != (type == 0)) continue;
    v.push_back((int)i);
  }
  return v.empty() ? -1 : pick(v);
}

// ledger effects
void led_split(int i, int j, double q) {  // q moves from i to new j
  Obj &a = X->o[i], &c = X->o[j];
  double f = q / a.qty;
  if (f > 1) f = 1;
  for (auto& kv : a.mass) { c.mass[kv.first] = kv.second * f; kv.second -= kv.second * f; }
  c.qual = a.qual;
  c.qty = q;
  a.qty -= q;
  if (a.qty < 0) a.qty = 0;
}
void led_absorb(int i, int j) {
  Obj &a = X->o[i], &c = X->o[j];
  for (auto& kv : c.mass) a.mass[kv.first] += kv.second;
  a.qty += c.qty;
  c.qty = 0;
}

void op_create() {
  if (X->o.size() > 60) return;
  double q = rq();
  bool tracked = !chance(1, 6);
  int i;
  if (choose(2)) {
    Str ql = chance(1, 2) ? "widget" : "gadget";
    Product::Ptr p = tracked ? Product::Create(X->me, q, ql) : Product::CreateUntracked(q, ql);
    i = add(p, q, tracked);
    X->o[i].qual = ql;
    if (tracked) X->created_p += q;
  } else {
    Composition::Ptr c = pick(X->comps);
    if (chance(1, 6)) {  // an amount close to the sum of the composition vector
      double s = 0;
      for (auto& kv : c->mass()) s += kv.second;
      if (s < 2000) q = s * (1 + range(-9, 9) * 1e-5);
    }
    Material::Ptr m = tracked ? Material::Create(X->me, q, c) : Material::CreateUntracked(q, c);
    i = add(m, q, tracked);
    CompMap cm = c->mass();
    double s = 0;
    for (auto& kv : cm) s += kv.second;
    for (auto& kv : cm) X->o[i].mass[kv.first] = kv.second / s * q;
    if (tracked) X->created_m += q;
  }
  note("create %d %s qty=%g tracked=%d", i, X->o[i].mat ? "matl" : "prod", q, tracked);
}

double frac(double q) {
  switch (choose(5)) {
    case 0: return q;
    case 1: return q * 0.5;
    case 2: return q / 3;
    case 3: return q - 5e-7 > 0 ? q - 5e-7 : q;   // leaves a residue below the tolerance
    default: return q * range(1, 99) / 100.0;
  }
}

void op_extract() {
  int i = held(true, 2);
  if (i < 0) return;
  Obj& o = X->o[i];
  if (chance(1, 6)) {
    double q = o.qty * (1 + 0.01 * range(1, 50)) + 1e-3;
    bool threw = false;
    try { o.r->ExtractRes(q); } catch (ValueError&) { threw = true; }
    fault("over-extraction");
    CK("P07", threw, "over-extraction", "extracting %g from %g was allowed", q, o.qty);
    return;
  }
  if (chance(1, 12)) {  // barely too much: refused, or served without going below nothing
    double have = o.r->quantity(), q = have + pick(std::vector<double>{1e-12, 1e-9, 3e-7, 9e-7}) * std::max(1.0, have);
    Resource::Ptr x;
    try { x = o.r->ExtractRes(q); } catch (ValueError&) {}
    fault("slight-over-extraction");
    note("extract %.17g from %d (%.17g) -> %s", q, i, have, x ? "ok" : "refused");
    if (x) {
      CK("P07", o.r->quantity() >= 0 && x->quantity() <= have, "over-extraction", "extracting %.17g from %.17g gave %.17g and left %.17g", q, have, x->quantity(),
         o.r->quantity());
      int j = add(x, x->quantity(), o.tracked);
      led_split(i, j, x->quantity());
      if (!X->o[i].mat) X->o[j].pkg = X->o[i].pkg;
    }
    return;
  }
  double q = frac(o.qty);
  q = std::min(q, o.r->quantity());
  note("extract %g from %d (%g)", q, i, o.qty);
  Resource::Ptr x = o.r->ExtractRes(q);
  int j = add(x, q, o.tracked);
  led_split(i, j, q);
  if (!X->o[i].mat) X->o[j].pkg = X->o[i].pkg;
  if (J("P07")) DST_CHECK(x->units() == X->o[i].r->units() && x->type() == X->o[i].r->type(), "type", "an extracted resource changed its type");
}

void op_extract_comp() {
  int i = held(true, 0);
  if (i < 0) return;
  Obj& o = X->o[i];
  Composition::Ptr c = pick(X->comps);
  CompMap cm = c->mass();
  double s = 0;
  for (auto& kv : cm) s += kv.second;
  // largest amount of that composition contained
  double maxq = 1e300;
  for (auto& kv : cm) {
    if (kv.second <= 0) continue;
    double have = o.mass.count(kv.first) ? o.mass[kv.first] : 0;
    maxq = std::min(maxq, have / (kv.second / s));
  }
  maxq = std::min(maxq, o.qty);
  if (maxq < 1e-3 || chance(1, 5)) {
    double q = maxq + 0.5 * (o.qty - maxq) + 1e-2 * o.qty;
    if (q - maxq < 1e-3 || q > o.qty || o.m->comp() == c) return;
    CompMap before = o.m->comp()->mass();
    bool threw = false;
    try { o.m->ExtractComp(q, c); } catch (ValueError&) { threw = true; }
    fault("impossible-separation");
    CK("P07", threw, "impossible-separation", "extracted %g of a composition of which only %g is contained", q, maxq);
    return;
  }
  double q = maxq * range(1, 90) / 100.0;
  note("extract comp %g from %d", q, i);
  Material::Ptr x = o.m->ExtractComp(q, c);
  int j = add(x, q, o.tracked);
  for (auto& kv : cm) {
    double d = kv.second / s * q;
    X->o[j].mass[kv.first] = d;
    X->o[i].mass[kv.first] -= d;
  }
  X->o[i].qty -= q;
}

void op_absorb() {
  int i = held(true, 2);
  if (i < 0) return;
  int j = held(true, X->o[i].mat ? 0 : 1);
  if (j < 0 || j == i || X->o[i].tracked != X->o[j].tracked) return;
  Obj &a = X->o[i], &b = X->o[j];
  note("absorb %d (%g) into %d (%g)", j, b.qty, i, a.qty);
  if (a.mat) {
    a.m->Absorb(b.m);
  } else {
    bool threw = false;
    try { a.p->Absorb(b.p); } catch (ValueError&) { threw = true; }
    if (a.qual != b.qual) {
      fault("mixing-qualities");
      CK("P07", threw, "mixed-quality", "product %s absorbed product %s", a.qual.c_str(), b.qual.c_str());
      return;
    }
    CK("P07", !threw, "absorb-refused", "products of one quality could not be combined");
  }
  led_absorb(i, j);
  CK("P07", b.r->quantity() == 0, "absorbed-not-empty", "an absorbed resource still has %g", b.r->quantity());
  kill(j);
}

void op_transmute() {
  int i = held(true, 0);
  if (i < 0) return;
  Obj& o = X->o[i];
  Composition::Ptr c = pick(X->comps);
  note("transmute %d", i);
  o.m->Transmute(c);
  CompMap cm = c->mass();
  double s = 0;
  for (auto& kv : cm) s += kv.second;
  o.mass.clear();
  for (auto& kv : cm) o.mass[kv.first] = kv.second / s * o.qty;
  if (o.tracked) X->transmuted.insert(o.m->state_id());
}

void op_clone() {
  int i = held(true, 2);
  if (i < 0 || X->o.size() > 60) return;
  Resource::Ptr c = X->o[i].r->Clone();
  int j = add(c, X->o[i].qty, false);
  X->o[j].mass = X->o[i].mass;
  X->o[j].qual = X->o[i].qual;
  X->o[j].pkg = X->o[i].pkg;
  note("clone %d -> %d", i, j);
}

void op_change_package() {
  int i = held(true, 2);
  if (i < 0) return;
  Obj& o = X->o[i];
  if (!o.tracked) return;
  if (chance(1, 4)) {
    o.r->ChangePackage();
    o.pkg = "unpackaged";
    note("unpackage %d", i);
    return;
  }
  const PkgM& p = pick(X->pk);
  double q = o.r->quantity();
  if ((q != p.lo && fabs(q - p.lo) < 1e-6) || (q != p.hi && fabs(q - p.hi) < 1e-6)) return;
  if (q == p.lo || q == p.hi) stat("package limits met exactly");
  bool fits = q >= p.lo && q <= p.hi;
  bool threw = false;
  try { o.r->ChangePackage(p.name); } catch (ValueError&) { threw = true; }
  note("change package %d (%g) to %s [%g,%g] -> %s", i, q, p.name.c_str(), p.lo, p.hi, threw ? "refused" : "ok");
  if (o.pkg == p.name) return;  // already in it
  if (!fits) fault("package-misfit");
  CK("P09", fits == !threw, fits ? "package-refused" : "package-limits", "putting %g into package [%g,%g] was %s", q, p.lo, p.hi,
     threw ? "refused" : "allowed");
  if (!threw) o.pkg = p.name;
}

// what a package may hold, and what may be left over
void check_fill(const PkgM& p, double q, const std::vector<double>& f) {
  const double tol = 1e-6 * (1 + fabs(q));
  double s = 0;
  for (double x : f) {
    s += x;
    DST_CHECK(x > 0 && x <= p.hi + tol && x >= p.lo - tol, "package-limits", "%s package [%g,%g]: %g split into a package of %.10g", p.strat.c_str(), p.lo, p.hi, q, x);
  }
  DST_CHECK(s <= q + tol, "package-overfill", "%s package [%g,%g]: %g split into packages totalling %.12g", p.strat.c_str(), p.lo, p.hi, q, s);
  double left = q - s;
  double limit = std::max(p.lo, 1e-6);
  // with quantities that are exact in binary nothing is left to rounding
  auto exact = [](double x) { return fmod(x * 4, 1) == 0 && fabs(x) < 1e6; };
  bool ex = exact(q) && exact(p.lo) && exact(p.hi) && (p.strat == "first" || (p.strat == "equal" && q / std::ceil(q / p.hi) < p.lo));
  if (ex) { stat("exact_packagings"); DST_CHECK(left < limit, "package-leftover", "%s package [%g,%g]: %g of %g left over although it would fill a package", p.strat.c_str(), p.lo, p.hi, left, q); }
  DST_CHECK(left < limit + tol, "package-leftover", "%s package [%g,%g]: %g of %g left over although it would fill a package", p.strat.c_str(), p.lo, p.hi, left, q);
  if (p.strat == "first") {
    int nfull = 0;
    for (double x : f) nfull += fabs(x - p.hi) <= tol;
    DST_CHECK((int)f.size() - nfull <= 1, "package-strategy", "'first' package [%g,%g]: more than one package of %g is not full", p.lo, p.hi, q);
  }
  if (p.strat == "equal" && q >= p.lo && p.hi < 1e300) {
    double nmin = std::ceil(q / p.hi - 1e-9);
    if (nmin < 1) nmin = 1;
    double per = q / nmin;
    bool allex = exact(q) && exact(p.lo) && exact(p.hi);
    if (allex) { nmin = std::max(1.0, std::ceil(q / p.hi)); per = q / nmin; }
    if (allex && q == nmin * p.lo) stat("equal fills meet the minimum exactly");
    if (allex ? q >= nmin * p.lo : per >= p.lo + 1e-9 && fabs(q / p.hi - std::round(q / p.hi)) > 1e-6) {
      DST_CHECK(f.size() == (size_t)nmin, "package-strategy", "'equal' package [%g,%g]: %g fits %g equal packages, got %zu", p.lo, p.hi, q, nmin, f.size());
      for (double x : f)
        DST_CHECK(fabs(x - per) <= tol, "package-strategy", "'equal' package [%g,%g]: %g split unequally (%.10g, expected %.10g)", p.lo, p.hi, q, x, per);
    }
  }
}

void op_package() {
  int i = held(true, 2);
  if (i < 0 || X->o.size() > 60) return;
  Obj& o = X->o[i];
  const PkgM p = pick(X->pk);
  double q = o.r->quantity();
  if (q / p.hi > 40 || (p.lo > 0 && q / p.lo > 60) || (p.lo == 0 && (p.strat == "uniform" || p.strat == "normal") && q / p.hi > 5)) return;
  if (!o.tracked && !choose(3)) return;
  Package::Ptr pkg = X->ctx->GetPackage(p.name);
  std::vector<Resource::Ptr> got;
  note("package %d (%.12g) into %s %s [%g,%g]", i, q, p.name.c_str(), p.strat.c_str(), p.lo, p.hi);
  if (o.mat) { for (auto& x : o.r->Package<Material>(pkg)) got.push_back(x); }
  else { for (auto& x : o.r->Package<Product>(pkg)) got.push_back(x); }
  std::vector<double> f;
  for (auto& x : got) f.push_back(x->quantity());
  if (J("P09")) { check_fill(p, q, f); nontrivial(); }
  bool tracked = o.tracked;
  for (auto& x : got) {
    int j = add(x, x->quantity(), tracked);
    led_split(i, j, x->quantity());
    X->o[j].pkg = p.name;
  }
  // tell the residue's true amount, it may differ by rounding
  stat("packages", got.size());
  if (J("P09")) DST_CHECK(X->o[i].r->quantity() >= 0, "package-overfill", "packaging %.17g left %.17g", q, X->o[i].r->quantity());
}

void op_transport() {
  if (!J("P09")) return;
  static const char* st[] = {"first", "equal", "hybrid"};
  int lo = (int)choose(6), hi = lo + (int)choose(8);
  if (hi == 0) hi = 1;
  Str s = st[choose(3)];
  bool dflt = chance(1, 6);
  TransportUnit::Ptr t = dflt ? TransportUnit::Create("t", lo, std::numeric_limits<int>::max(), s) : TransportUnit::Create("t", lo, hi, s);
  if (dflt) hi = std::numeric_limits<int>::max();
  int n = (int)choose(60);
  int got = t->MaxShippablePackages(n);
  note("transport %s [%d,%d] of %d -> %d", s.c_str(), lo, hi, n, got);
  DST_CHECK(got >= 0 && got <= n, "transport-limits", "%s transport unit [%d,%d]: %d of %d packages shippable", s.c_str(), lo, hi, got, n);
  // is `got` a sum of units each within [max(lo,1),hi]?
  int l = std::max(lo, 1);
  auto ok = [&](int k) {
    if (k == 0) return true;
    long nu = ((long)k + hi - 1) / hi;
    return nu * l <= k;
  };
  DST_CHECK(ok(got), "transport-limits", "%s transport unit [%d,%d]: %d packages cannot be shipped in full units", s.c_str(), lo, hi, got);
  if (s == "hybrid") {
    int best = n;
    while (!ok(best)) --best;
    DST_CHECK(got == best, "transport-strategy", "hybrid transport unit [%d,%d]: %d of %d shippable, %d would fit", lo, hi, got, n, best);
  }
  if (s == "equal" && n > 0) {  // as few units as possible, all filled alike
    int u = (int)(((long)n + hi - 1) / hi), fill = n / u;
    if (fill >= l) DST_CHECK(got >= u * fill, "transport-strategy", "'equal' transport unit [%d,%d]: %d of %d shippable, %d units of %d would fit", lo, hi, got, n, u, fill);
  }
  if (s == "first" && hi < 1000) DST_CHECK(got == (n >= lo ? n / hi * hi : 0), "transport-strategy", "'first' transport unit [%d,%d]: %d of %d shippable", lo, hi, got, n);
}

// ---- buffers -------------------------------------------------------------
void stripped(Buf& b, int i) { if (!b.keep) X->o[i].pkg = "unpackaged"; }

void push_ledger(Buf& b, int bi, int i) {
  if (b.bulk && !b.c.empty()) {
    led_absorb(b.c.front(), i);
    kill(i);
  } else {
    if (X->o[i].tracked || true) { if (!b.keep) X->o[i].pkg = X->o[i].tracked || X->o[i].pkg == "unpackaged" ? "unpackaged" : X->o[i].r->package_name(); }
    b.c.push_back(i);
    X->o[i].loc = bi;
  }
}

bool push_ok(Buf& b, int i) { return X->o[i].mat == b.mat; }

void op_push() {
  int bi = (int)choose(X->b.size());
  Buf& b = X->b[bi];
  int i = held(false, 2);
  if (i < 0) return;
  // a product buffer in bulk mode holds one quality
  if (!b.mat && b.bulk && !b.c.empty() && !X->o[i].mat && X->o[b.c.front()].qual != X->o[i].qual) return;
  double q = X->o[i].r->quantity();
  bool fits = q - bspace(b) <= 1e-6;
  if (fabs(q - bspace(b) - 1e-6) < 1e-7) return;
  int err = 0;
  Resource::Ptr r = X->o[i].r;
  try { if (b.mat) b.bm->Push(r); else b.bp->Push(r); }
  catch (CastError&) { err = 1; }
  catch (ValueError&) { err = 2; }
  catch (KeyError&) { err = 3; }
  note("push %d (%g) to buffer %d -> %d", i, q, bi, err);
  if (!push_ok(b, i)) { fault("wrong-type-push"); CK("P08", err == 1, "push-type", "a resource of the wrong type was accepted"); }
  else if (!fits) { fault("overflow-push"); CK("P08", err == 2, "push-capacity", "%g was accepted into space %g", q, bspace(b)); }
  else CK("P08", err == 0, "push-refused", "%g was refused by a buffer with space %g", q, bspace(b));
  if (!err) push_ledger(b, bi, i);
}

void op_push_dup() {
  int bi = (int)choose(X->b.size());
  Buf& b = X->b[bi];
  if (b.c.empty()) return;
  int i = pick(std::vector<int>(b.c.begin(), b.c.end()));
  if (X->o[i].r->quantity() - bspace(b) > 0) return;
  bool threw = false;
  Resource::Ptr r = X->o[i].r;
  bool vec = choose(2);
  try {
    if (vec) {
      std::vector<Resource::Ptr> v(1, r);
      if (b.mat) b.bm->Push(v); else b.bp->Push(v);
    } else {
      if (b.mat) b.bm->Push(r); else b.bp->Push(r);
    }
  } catch (KeyError&) { threw = true; }
  fault("duplicate-push");
  note("push duplicate %d to buffer %d", i, bi);
  CK("P08", threw, "duplicate-push", "a resource already in the buffer was accepted again");
}

void op_push_vec() {
  int bi = (int)choose(X->b.size());
  Buf& b = X->b[bi];
  std::vector<int> v;
  std::vector<Resource::Ptr> rs;
  int n = 1 + (int)choose(4);
  bool dup = false, wrong = false;
  double tot = 0;
  for (int k = 0; k < n; ++k) {
    int i = held(false, chance(1, 12) ? 2 : b.mat ? 0 : 1);
    if (i < 0) return;
    if (!b.mat && b.bulk) {
      if (!b.c.empty() && !X->o[i].mat && X->o[b.c.front()].qual != X->o[i].qual) return;
      if (!v.empty() && X->o[v[0]].qual != X->o[i].qual) return;
    }
    if (std::find(v.begin(), v.end(), i) != v.end()) { if (!chance(1, 2)) continue; dup = true; }
    if (!push_ok(b, i)) wrong = true;
    v.push_back(i);
    rs.push_back(X->o[i].r);
    tot += X->o[i].r->quantity();
  }
  double sp = bspace(b);
  if (fabs(tot - sp - 1e-6) < 1e-7) return;
  bool fits = tot - sp <= 1e-6;
  int err = 0;
  try {
    if (b.mat) b.bm->Push(rs); else b.bp->Push(rs);
  } catch (CastError&) { err = 1; }
  catch (ValueError&) { err = 2; }
  catch (KeyError&) { err = 3; }
  note("push %zu resources (%g) to buffer %d%s -> %d", v.size(), tot, bi, dup ? " with a duplicate" : "", err);
  if (wrong) { fault("wrong-type-push"); CK("P08", err != 0, "push-type", "a resource of the wrong type was accepted"); }
  else if (!fits) { fault("overflow-push"); CK("P08", err != 0, "push-capacity", "%g was accepted into space %g", tot, sp); }
  else if (dup) { fault("duplicate-push"); CK("P08", err != 0, "duplicate-push", "one resource was accepted twice in one push"); }
  else CK("P08", err == 0, "push-refused", "%g was refused by a buffer with space %g", tot, sp);
  if (err) return;
  if (dup && !J("P08")) discard("duplicate accepted");
  for (int i : v) push_ledger(b, bi, i);
}

// hands out the front resources covering q; returns object indices
std::vector<int> led_pop(Buf& b, double q, const std::vector<Resource::Ptr>& rs) {
  std::vector<int> out;
  for (size_t k = 0; k < rs.size(); ++k) {
    if (b.c.empty()) { CK("P08", false, "pop-extra", "popping returned more resources than the buffer held"); discard("pop"); }
    int f = b.c.front();
    if (rs[k] == X->o[f].r) {
      b.c.pop_front();
      X->o[f].loc = -1;
      out.push_back(f);
    } else {
      CK("P08", k + 1 == rs.size(), "pop-order", "popping did not return the oldest resources first");
      int j = add(rs[k], rs[k]->quantity(), X->o[f].tracked);
      double x = rs[k]->quantity();
      led_split(f, j, x);
      if (!X->o[f].mat) X->o[j].pkg = X->o[f].pkg;
      out.push_back(j);
    }
  }
  return out;
}

bool uniform(const Buf& b) {
  for (int i : b.c) if (X->o[i].qual != X->o[b.c.front()].qual) return false;
  return true;
}

void op_pop() {
  int bi = (int)choose(X->b.size());
  Buf& b = X->b[bi];
  double have = bqty(b);
  int how = (int)choose(6);
  if (b.c.empty()) {
    bool threw = false;
    try { if (b.mat) b.bm->Pop(); else b.bp->Pop(); } catch (ValueError&) { threw = true; }
    fault("pop-empty");
    CK("P08", threw, "pop-empty", "popping an empty buffer succeeded");
    return;
  }
  if (how == 0) {
    Resource::Ptr r = b.mat ? (Resource::Ptr)b.bm->Pop() : (Resource::Ptr)b.bp->Pop();
    int f = b.c.front();
    note("pop front of buffer %d", bi);
    CK("P08", r == X->o[f].r, "pop-order", "Pop did not return the oldest resource");
    b.c.pop_front();
    X->o[f].loc = -1;
  } else if (how == 1) {
    Resource::Ptr r = b.mat ? (Resource::Ptr)b.bm->PopBack() : (Resource::Ptr)b.bp->PopBack();
    int f = b.c.back();
    note("pop back of buffer %d", bi);
    CK("P08", r == X->o[f].r, "pop-order", "PopBack did not return the newest resource");
    b.c.pop_back();
    X->o[f].loc = -1;
  } else if (how == 2) {
    int n = (int)choose(b.c.size() + 2);
    bool threw = false;
    std::vector<Resource::Ptr> rs;
    try {
      if (b.mat) { for (auto& x : b.bm->PopN(n)) rs.push_back(x); }
      else { for (auto& x : b.bp->PopN(n)) rs.push_back(x); }
    } catch (ValueError&) { threw = true; }
    note("pop %d resources of buffer %d -> %zu", n, bi, rs.size());
    if (n > (int)b.c.size()) { fault("over-pop"); CK("P08", threw, "over-pop", "%d resources popped from %zu", n, b.c.size()); return; }
    CK("P08", !threw && (int)rs.size() == n, "pop-count", "asked for %d resources, got %zu", n, rs.size());
    if (threw) return;
    led_pop(b, 0, rs);
  } else {
    double q = chance(1, 8) ? have * 1.1 + 0.01 : frac(have);
    bool over = q > have;
    bool threw = false;
    std::vector<Resource::Ptr> rs;
    if (how == 3) {
      try {
        if (b.mat) { for (auto& x : b.bm->PopVector(q)) rs.push_back(x); }
        else { for (auto& x : b.bp->PopVector(q)) rs.push_back(x); }
      } catch (ValueError&) { threw = true; }
      note("pop vector %g of %g from buffer %d -> %zu", q, have, bi, rs.size());
      if (over) { fault("over-pop"); CK("P08", threw, "over-pop", "%g popped from %g", q, have); return; }
      CK("P08", !threw, "pop-refused", "popping %g from %g was refused", q, have);
      double s = 0;
      for (auto& x : rs) s += x->quantity();
      CK("P08", fabs(s - q) <= 1e-9 * (1 + have), "pop-quantity", "asked for %.15g, got %.15g", q, s);
      led_pop(b, q, rs);
    } else {
      if (!uniform(b)) return;
      // remember what is in front so the merged result can be predicted
      std::deque<int> before = b.c;
      std::vector<double> bq;
      for (int i : before) bq.push_back(X->o[i].r->quantity());
      Resource::Ptr r;
      double eps = how == 5 ? 1e-6 : 0;
      try {
        if (how == 4) { if (b.mat) r = b.bm->Pop(q); else r = b.bp->Pop(q); }
        else { if (b.mat) r = b.bm->Pop(q, eps); else r = b.bp->Pop(q, eps); }
      } catch (ValueError&) { threw = true; }
      note("pop %g of %g from buffer %d", q, have, bi);
      if (over) { fault("over-pop"); CK("P08", threw, "over-pop", "%g popped from %g", q, have); return; }
      CK("P08", !threw, "pop-refused", "popping %g from %g was refused", q, have);
      if (threw) return;
      CK("P08", fabs(r->quantity() - q) <= 1e-9 * (1 + have), "pop-quantity", "asked for %.15g, got %.15g", q, r->quantity());
      // ledger: whole resources from the front, then a split of the next one;
      // which of the two happens is open where rounding decides it
      size_t gone = before.size() - std::min(before.size(), (size_t)count(b));
      double pre = 0;
      for (size_t k = 0; k < gone; ++k) pre += bq[k];
      const double rt = 1e-9 * (1 + have);
      CK("P08", pre <= q + rt && (gone == before.size() || pre + bq[gone] >= q - rt), "pop-order",
         "popping %.12g of %.12g removed %zu of %zu resources, the oldest %zu make up %.12g", q, have, gone, before.size(), gone, pre);
      int into = -1;
      for (size_t k = 0; k < gone; ++k) {
        int f = before[k];
        b.c.pop_front();
        X->o[f].loc = -1;
        if (into < 0) { into = f; continue; }
        led_absorb(into, f);
        kill(f);
      }
      double left = q - pre;
      if (gone < before.size() && (into < 0 || left > rt)) {
        int f = before[gone];
        if (into < 0) {
          into = add(r, left, X->o[f].tracked);
          led_split(f, into, left);
          if (!X->o[f].mat) X->o[into].pkg = X->o[f].pkg;
        } else {
          Obj tmp = X->o[f]; tmp.mass.clear(); tmp.r.reset(); tmp.m.reset(); tmp.p.reset(); tmp.live = false;
          X->o.push_back(tmp);
          int piece = (int)X->o.size() - 1;
          led_split(f, piece, left);
          led_absorb(into, piece);
        }
      }
      if (into >= 0) {
        // with the tolerant form a remainder smaller than rounding may come along
        CK("P08", X->o[into].r == r, "pop-order", "the popped resource is not made from the oldest one");
        if (X->o[into].tracked || X->o[into].pkg == "unpackaged") X->o[into].pkg = "unpackaged";
      }
    }
  }
}

void op_capacity() {
  int bi = (int)choose(X->b.size());
  Buf& b = X->b[bi];
  double c = choose(2) ? bqty(b) * 0.5 - 0.001 : bqty(b) + rq();
  int h = held(false, b.mat ? 0 : 1);
  if (h >= 0 && choose(2))  // almost, exactly or just enough room for something at hand
    c = bqty(b) + X->o[h].r->quantity() - pick(std::vector<double>{0, 1e-3, 1e-4, 1e-5, 3e-7, -1e-5});
  else if (chance(1, 6)) c = bqty(b) - pick(std::vector<double>{0, 1e-3, 1e-4, 1e-5, 3e-7});
  bool threw = false;
  try { if (b.mat) b.bm->capacity(c); else b.bp->capacity(c); } catch (ValueError&) { threw = true; }
  note("buffer %d capacity %g (holds %g) -> %s", bi, c, bqty(b), threw ? "refused" : "ok");
  bool bad = c < 0 || bqty(b) - c > 1e-6;
  if (bad) fault("capacity-below-content");
  CK("P08", bad == threw, "capacity", "capacity %g with content %g was %s", c, bqty(b), threw ? "refused" : "accepted");
  if (!threw) b.cap = c;
}

void op_tracker() {
  double q = X->tit->quantity();
  double c = choose(2) ? q * 0.5 - 0.001 : q + rq();
  bool threw = false;
  try { X->tit->set_capacity(c); } catch (ValueError&) { threw = true; }
  bool bad = q - c > 1e-6;
  note("tracker capacity %g (holds %g) -> %s", c, q, threw ? "refused" : "ok");
  CK("P08", bad == threw, "tracker-capacity", "tracker capacity %g with content %g was %s", c, q, threw ? "refused" : "accepted");
  if (!threw) X->tcap = c;
  if (J("P08"))
    for (int k : X->tbufs) {
      double want = std::min(bspace(X->b[k]), X->tit->space());
      DST_CHECK(X->tit->constrained_buf_space(X->b[k].bm) == want, "tracker", "constrained space of a tracked buffer is not the smaller of both spaces");
    }
}

void op_map() {
  if (!J("P08")) return;
  int k = (int)choose(5);
  ResMap<int, Material>& rm = *X->rm;
  if (choose(2)) X->rm->quantity();
  auto drop = [&](int key) { X->o[X->rmc[key]].loc = -1; X->rmc.erase(key); };
  switch (choose(8)) {
    case 0: case 1: case 2: {
      int i = held(false, 0);
      if (i < 0) return;
      if (X->rmc.count(k)) drop(k);  // an assignment to a used key replaces
      rm[k] = X->o[i].m;
      X->rmc[k] = i;
      X->o[i].loc = 1000;
      note("map[%d] = %d", k, i);
      break;
    }
    case 3: {
      if (X->rmc.count(k)) {
        Material::Ptr m = rm.Pop(k);
        DST_CHECK(m == X->o[X->rmc[k]].m, "map-value", "map returned another resource for key %d", k);
        drop(k);
      } else {
        bool threw = false;
        try { rm.Pop(k); } catch (KeyError&) { threw = true; }
        fault("pop-missing-key");
        DST_CHECK(threw, "map-missing", "popping a missing key succeeded");
      }
      note("map pop %d", k);
      break;
    }
    case 4: {
      size_t want = X->rmc.count(k), got = rm.erase(k);
      DST_CHECK(got == want, "map-erase", "erasing key %d removed %zu, expected %zu", k, got, want);
      if (want) drop(k);
      note("map erase %d", k);
      break;
    }
    case 5: {
      if (rm.empty()) return;
      int n = (int)choose(X->rmc.size()) + 1, z = 0;
      ResMap<int, Material>::iterator f = rm.begin(), l = rm.begin();
      for (; z < n; ++z) ++l;
      std::vector<int> ks;
      for (auto& kv : X->rmc) if ((int)ks.size() < n) ks.push_back(kv.first);
      if (n == 1 && choose(2)) rm.erase(f); else rm.erase(f, l);
      for (int q : ks) drop(q);
      note("map erases its first %d", n);
      break;
    }
    case 6: {
      if (!chance(1, 3)) return;
      rm.clear();
      while (!X->rmc.empty()) drop(X->rmc.begin()->first);
      note("map clear");
      break;
    }
    default: {  // saved by object id and restored into a map, as a restart does
      ResMap<int, Material>::obj_type ids = rm.obj_ids();
      DST_CHECK(ids.size() == X->rmc.size(), "map-ids", "map lists %zu object ids, holds %zu resources", ids.size(), X->rmc.size());
      for (auto& kv : X->rmc)
        DST_CHECK(ids.count(kv.first) && ids[kv.first] == X->o[kv.second].m->obj_id(), "map-ids", "map lists the wrong object for key %d", kv.first);
      std::vector<Resource::Ptr> vals = rm.ResValues();
      if (vals.size() > 1 && choose(2)) std::swap(vals[0], vals.back());
      ResMap<int, Material> m2;
      m2.obj_ids(ids);
      if (choose(2)) m2.quantity();
      m2.ResValues(vals);
      double q = 0;
      for (auto& kv : X->rmc) q += X->o[kv.second].r->quantity();
      DST_CHECK(m2.size() == (int)X->rmc.size() && qnear(m2.quantity(), q), "map-restore", "a restored map reports %.12g in %d, expected %.12g in %zu",
                m2.quantity(), m2.size(), q, X->rmc.size());
      for (auto& kv : X->rmc) DST_CHECK(m2[kv.first] == X->o[kv.second].m, "map-restore", "a restored map holds another resource under key %d", kv.first);
      note("map restored");
      break;
    }
  }
  std::vector<Material::Ptr> vals = rm.Values();
  DST_CHECK(vals.size() == X->rmc.size() && rm.empty() == X->rmc.empty(), "map-values", "map lists %zu values, holds %zu", vals.size(), X->rmc.size());
  size_t n = 0;
  for (auto& kv : X->rmc) DST_CHECK(vals[n++] == X->o[kv.second].m, "map-values", "map lists its values wrongly");
}

void step() {
  int n = range(2, 8);
  for (int i = 0; i < n; ++i) {
    const char* nm = "operation";
    switch (choose(24)) {
      case 0: case 1: nm = "create"; op_create(); break;
      case 2: case 3: nm = "extract"; op_extract(); break;
      case 4: nm = "extract-comp"; op_extract_comp(); break;
      case 5: case 6: nm = "absorb"; op_absorb(); break;
      case 7: nm = "transmute"; op_transmute(); break;
      case 8: nm = "clone"; op_clone(); break;
      case 9: nm = "change-package"; op_change_package(); break;
      case 10: case 11: nm = "package"; op_package(); break;
      case 12: nm = "transport"; op_transport(); break;
      case 13: case 20: case 21: case 22: nm = "push"; op_push(); break;
      case 14: case 23: nm = "push-vector"; op_push_vec(); break;
      case 15: nm = "push-duplicate"; op_push_dup(); break;
      case 16: case 17: nm = "pop"; op_pop(); break;
      case 18: nm = "capacity"; op_capacity(); if (chance(1, 3)) op_tracker(); break;
      case 19: nm = "map"; op_map(); if (J("P08")) { op_map(); op_map(); } break;
    }
    // emptied and residual resources are let go of
    check_all(nm);
    ++X->nops;
    uint64_t h = 3;
    int nl = 0;
    for (auto& o : X->o) nl += o.live;
    for (auto& b : X->b) h = mix(h, b.c.size());
    state(mix(mix(h, nl), hstr(nm)));
  }
  if (X->nops > 8) nontrivial();
}

class Fac : public Facility {
 public:
  Fac(Context* c) : Facility(c) {}
  virtual Agent* Clone() { Fac* m = new Fac(context()); m->Facility::InitFrom(this); return m; }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void InitFrom(QueryableBackend* b) {}
  virtual void Snapshot(DbInit di) {}
  virtual void Tick() { steps(); step(); }
  virtual void Tock() { step(); }
};

struct RR { int id, obj, p1, p2, qual, time; double q; Str type, pkg; };

void check_tables(MemBackend& back) {
  std::map<int, RR> rows;
  for (const Row* r : back.table("Resources")) {
    RR x = {r->i("ResourceId"), r->i("ObjId"), r->i("Parent1"), r->i("Parent2"), r->i("QualId"), r->i("TimeCreated"), r->d("Quantity"), r->s("Type"), r->s("PackageName")};
    if (J("P07")) {
      DST_CHECK(!rows.count(x.id), "duplicate-state", "resource state %d was recorded twice", x.id);
      DST_CHECK(x.p1 == 0 || rows.count(x.p1), "unknown-parent", "resource state %d names parent %d, which was not recorded before it", x.id, x.p1);
      DST_CHECK(x.p2 == 0 || rows.count(x.p2), "unknown-parent", "resource state %d names parent %d, which was not recorded before it", x.id, x.p2);
      DST_CHECK(x.q >= 0, "negative-quantity", "resource state %d recorded with quantity %g", x.id, x.q);
    }
    rows[x.id] = x;
  }
  if (J("P09") || J("P07"))
    for (size_t i = 0; i < X->o.size(); ++i) {
      Obj& o = X->o[i];
      if (!o.live || !o.tracked || o.r->quantity() <= 2e-6) continue;
      int s = o.r->state_id();
      DST_CHECK(rows.count(s), "state-not-recorded", "resource %zu is in state %d, which is not in the output", i, s);
      RR& x = rows[s];
      if (J("P07"))
        DST_CHECK(x.time == X->born[s], "state-time", "resource state %d came about at time %d, the output says %d", s, X->born[s], x.time);
      if (J("P07"))
        DST_CHECK(x.obj == o.r->obj_id() && fabs(x.q - o.r->quantity()) <= 2e-6 && x.qual == o.r->qual_id() && x.type == o.r->type(),
                  "stale-record", "resource %zu (state %d) holds %.10g of quality %d, the output says %.10g of quality %d", i, s, o.r->quantity(), o.r->qual_id(), x.q, x.qual);
      else
        DST_CHECK(x.pkg == o.r->package_name(), "package-record", "resource %zu (state %d) is in package '%s', the output says '%s'", i, s,
                  o.r->package_name().c_str(), x.pkg.c_str());
    }
  if (!J("P07")) return;
  std::map<int, std::map<int, double> > comp;
  std::map<int, double> csum;
  for (const Row* r : back.table("Compositions")) {
    int q = r->i("QualId"), n = r->i("NucId");
    DST_CHECK(!comp[q].count(n), "composition-record", "nuclide %d of composition %d was recorded twice", n, q);
    comp[q][n] = r->d("MassFrac");
    csum[q] += r->d("MassFrac");
  }
  for (auto& kv : csum) DST_CHECK(fabs(kv.second - 1) < 1e-9, "composition-record", "mass fractions of composition %d add up to %.12g", kv.first, kv.second);
  std::map<int, int> minfo, creat;
  for (const Row* r : back.table("MaterialInfo")) minfo[r->i("ResourceId")]++;
  for (const Row* r : back.table("ResCreators")) {
    creat[r->i("ResourceId")]++;
    DST_CHECK(r->i("AgentId") == X->me->id(), "creator", "resource creator recorded as agent %d", r->i("AgentId"));
  }
  std::map<int, Str> quals;
  for (const Row* r : back.table("Products")) {
    DST_CHECK(!quals.count(r->i("QualId")), "product-record", "product quality %d was recorded twice", r->i("QualId"));
    quals[r->i("QualId")] = r->s("Quality");
  }
  std::map<int, std::vector<int> > split, merged;
  double made[2] = {0, 0};
  for (auto& kv : rows) {
    RR& x = kv.second;
    bool m = x.type == "Material";
    if (m) {
      DST_CHECK(minfo[x.id] == 1, "material-record", "material state %d has %d info records", x.id, minfo[x.id]);
      if (x.q > 1e-6) DST_CHECK(comp.count(x.qual), "composition-record", "composition %d of material state %d is not in the output", x.qual, x.id);
    } else {
      DST_CHECK(quals.count(x.qual), "product-record", "quality %d of product state %d is not in the output", x.qual, x.id);
    }
    DST_CHECK((x.p1 == 0) == (creat[x.id] == 1), "creator", "resource state %d with parent %d has %d creator records", x.id, x.p1, creat[x.id]);
    if (x.p1 == 0) { made[m] += x.q; continue; }
    DST_CHECK(rows[x.p1].type == x.type, "lineage-type", "state %d descends from a resource of another type", x.id);
    if (x.p2) { merged[x.p1].push_back(x.id); merged[x.p2].push_back(x.id); } else split[x.p1].push_back(x.id);
  }
  DST_CHECK(near(made[1], X->created_m, 1e-9) && near(made[0], X->created_p, 1e-9), "conservation", "recorded creations do not add up to what was created");
  auto mass = [&](int id) {
    std::map<int, double> v;
    for (auto& kv : comp[rows[id].qual]) v[kv.first] = kv.second * rows[id].q;
    return v;
  };
  // a split may leave a residue below the resource tolerance unrecorded; that
  // residue still goes by the old state and may be merged away later
  auto residue = [&](int id) {
    double t = rows[id].q;
    for (int c : split[id]) t -= rows[c].q;
    return split[id].empty() ? rows[id].q : t;
  };
  for (auto& kv : rows) {
    RR& x = kv.second;
    std::vector<int>&s = split[x.id], &g = merged[x.id];
    DST_CHECK(g.size() <= 1 && (g.empty() || s.empty() || fabs(residue(x.id)) <= 3e-6 + 1e-9 * x.q), "lineage-reuse", "resource state %d was used up %zu times by merging and %zu times by splitting", x.id,
              g.size(), s.size());
    if (!s.empty()) {
      double t = 0;
      bool tm = false;
      std::map<int, double> left = mass(x.id);
      for (int c : s) {
        t += rows[c].q;
        tm |= X->transmuted.count(c) > 0;
        for (auto& n : mass(c)) left[n.first] -= n.second;
      }
      DST_CHECK(fabs(t - x.q) <= 3e-6 + 1e-9 * x.q, "lineage-balance", "resource state %d of %.10g became states totalling %.10g", x.id, x.q, t);
      if (x.type == "Material" && !tm)
        for (auto& n : left) DST_CHECK(fabs(n.second) <= 4e-6 + 1e-6 * x.q, "lineage-nuclides", "splitting state %d changes nuclide %d by %g", x.id, n.first, n.second);
    }
    if (x.p2) {
      double t = residue(x.p1) + residue(x.p2);
      DST_CHECK(fabs(t - x.q) <= 3e-6 + 1e-9 * x.q, "lineage-balance", "merging states of %.10g and %.10g gave %.10g", rows[x.p1].q, rows[x.p2].q, x.q);
      if (x.type == "Material") {
        std::map<int, double> d = mass(x.id);
        if (split[x.p1].empty()) for (auto& n : mass(x.p1)) d[n.first] -= n.second;
        if (split[x.p2].empty()) for (auto& n : mass(x.p2)) d[n.first] -= n.second;
        for (auto& n : d) DST_CHECK(fabs(n.second) <= 4e-6 + 1e-6 * x.q, "lineage-nuclides", "merging into state %d changes nuclide %d by %g", x.id, n.first, n.second);
      }
    }
  }
  // what the output says exists is what exists
  std::set<int> alive;
  for (auto& o : X->o) if (o.live && o.tracked) alive.insert(o.r->state_id());
  for (auto& kv : rows)
    if (split[kv.first].empty() && merged[kv.first].empty() && kv.second.q > 3e-6)
      DST_CHECK(alive.count(kv.first), "phantom-resource", "the output says %.10g exists in state %d, no such resource exists", kv.second.q, kv.first);
}

void one_sim(bool first) {
  X = new W();
  W& w = *X;
  MemBackend back;
  Recorder* rec = new Recorder(pick(std::vector<unsigned>{64, 3, 200}));
  rec->RegisterBackend(&back);
  Timer* ti = new Timer();
  Context* ctx = new Context(ti, rec);
  w.ctx = ctx;
  SimInfo si(range(1, 4), 2015, 1, "h");
  si.decay = "never";
  si.seed = range(1, 1000);
  ctx->InitSim(si);
  Agent* proto = new Fac(ctx);
  proto->prototype("fac");
  ctx->AddPrototype("fac", proto);
  Agent* a = ctx->CreateAgent<Agent>("fac");
  w.me = a;
  a->Build(NULL);
  int nc = range(2, 4);
  for (int i = 0; i < nc; ++i) {
    CompMap m;
    int mask = 1 + (int)choose(15);
    for (int k = 0; k < 4; ++k) if (mask & (1 << k)) m[kNucs[k]] = range(1, 9);
    w.comps.push_back(choose(2) ? Composition::CreateFromMass(m) : Composition::CreateFromAtom(m));
  }
  static const char* strat[] = {"first", "equal", "uniform", "normal"};
  int np = range(1, 3);
  for (int i = 0; i < np; ++i) {
    PkgM p;
    p.name = "pkg" + std::to_string(i);
    p.strat = strat[choose(4)];
    p.lo = chance(1, 4) ? 0 : range(1, 40) * (choose(2) ? 0.25 : 0.1);
    p.hi = p.lo + (chance(1, 5) ? 0 : range(1, 40) * (choose(2) ? 0.25 : 0.1));
    if (p.hi == 0) p.hi = 1;
    if ((p.strat == "uniform" || p.strat == "normal") && p.hi <= p.lo) p.hi = p.lo + 1;
    ctx->AddPackage(p.name, p.lo, p.hi, p.strat);
    w.pk.push_back(p);
  }
  int nb = range(2, 4);
  for (int i = 0; i < nb; ++i) {
    Buf b;
    b.mat = i == 0 || choose(2);
    b.bulk = chance(1, 3);
    b.keep = !b.bulk && chance(1, 2);
    b.bm = NULL; b.bp = NULL;
    if (b.mat) b.bm = new ResBuf<Material>(b.bulk, b.keep); else b.bp = new ResBuf<Product>(b.bulk, b.keep);
    b.cap = chance(1, 3) ? INFINITY : 10 * rq();
    if (b.mat) b.bm->capacity(b.cap); else b.bp->capacity(b.cap);
    if (b.mat) w.tbufs.push_back(i);
    w.b.push_back(b);
  }
  std::vector<ResBuf<Material>*> tb;
  for (int k : w.tbufs) tb.push_back(w.b[k].bm);
  w.tcap = 20 * rq();
  w.tit = new TotalInvTracker(tb, w.tcap);
  w.rm = new ResMap<int, Material>();
  std::string err;
  try { ti->RunSim(); } catch (std::exception& e) { err = e.what(); }
  if (!err.empty()) fail("unexpected-error", "an operation that should work failed: %s", err.c_str());
  rec->Flush();
  check_tables(back);
  for (auto& b : w.b) { delete b.bm; delete b.bp; }
  delete w.tit;
  delete w.rm;
  delete X;
  X = NULL;
  delete ctx;
  delete ti;
  delete rec;
}

void run() {
  stub_atomic_masses();
  int n = chance(1, 4) ? 2 : 1;   // several simulations may share one process
  for (int i = 0; i < n; ++i) {
    if (i) note("--- next simulation in the same process");
    one_sim(i == 0);
  }
}

}  // namespace

DST_WORLD(P07, run);
DST_WORLD(P08, run);
DST_WORLD(P09, run);
