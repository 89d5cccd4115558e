// Input files (P17).  A description of a simulation is drawn, written to a
// scratch file in one of the two input layouts (with all the freedom the
// format gives: element order, white space, comments, number formats, included
// files), loaded by the real loaders into a database and initialised from it.
// The simulation that comes out must be the one described.  Input faults (torn,
// missing or unreadable files, invalid content) and database faults during the
// load must stop it.
#include "simlib.h"
#include <algorithm>
#include <fstream>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include "dynamic_module.h"
#include "infile_tree.h"
#include "prog_solver.h"
#include "xml_file_loader.h"
#include "xml_flat_loader.h"

using namespace cyclus;
using namespace dst;

typedef std::string Str;

class SimInitTest {
 public:
  static void ctor(const Str& spec, AgentCtor* c) { DynamicModule::man_ctors_[spec] = c; }
  static std::set<Agent*> agents(Context* c) { return c->agent_list_; }
};

namespace {

Str num(int i) { return std::to_string(i); }

struct Conf { int n; bool has_n; double x; Str tag; std::vector<int> vals; };

struct W {
  std::map<Str, double> got;          // commodity -> delivered in the market step
  std::map<int, int> builds;          // agent id -> BuildNotify calls it received while loading
  std::vector<Str> market;            // commodities requested, empty for none
  double supply, want;
  bool excl;
  int ticks;
  bool loading;
};
W* X;

Str schema_body() {
  return "<interleave><element name=\"x\"><data type=\"double\"/></element>"
         "<optional><element name=\"n\"><data type=\"int\"/></element></optional>"
         "<element name=\"tag\"><data type=\"string\"/></element>"
         "<optional><element name=\"vals\"><oneOrMore><element name=\"val\"><data type=\"int\"/></element></oneOrMore>"
         "</element></optional></interleave>";
}

template <class B> class Ag : public B {
 public:
  Conf c;
  Ag(Context* ctx) : B(ctx) { c.n = 0; c.x = 0; c.has_n = false; }
  virtual Str version() { return "v1"; }
  virtual Str schema() { return schema_body(); }
  virtual void InfileToDb(InfileTree* t, DbInit di) {
    B::InfileToDb(t, di);
    InfileTree* q = t->SubTree("config/*");
    double x = Query<double>(q, "x");
    int n = OptionalQuery<int>(q, "n", 7);
    Str tag = Query<Str>(q, "tag");
    std::vector<int> v;
    int k = q->NMatches("vals/val");
    if (k) {
      InfileTree* s = q->SubTree("vals");
      for (int i = 0; i < k; ++i) v.push_back(Query<int>(s, "val", i));
    }
    di.NewDatum("Info")->AddVal("x", x)->AddVal("n", n)->AddVal("tag", tag)->AddVal("vals", v)->Record();
  }
  virtual void InitFrom(QueryableBackend* b) {
    B::InitFrom(b);
    QueryResult r = b->Query("Info", NULL);
    c.x = r.GetVal<double>("x"); c.n = r.GetVal<int>("n"); c.tag = r.GetVal<Str>("tag");
    c.vals = r.GetVal<std::vector<int> >("vals");
  }
  void InitFrom(Ag* m) { B::InitFrom(m); c = m->c; }
  virtual void Snapshot(DbInit di) {
    B::Snapshot(di);
    di.NewDatum("Info")->AddVal("x", c.x)->AddVal("n", c.n)->AddVal("tag", c.tag)->AddVal("vals", c.vals)->Record();
  }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() { ++X->ticks; }
  virtual void Tock() {}
  virtual void BuildNotify(Agent* m) { if (X->loading) ++X->builds[m->id()]; }
};
class AReg : public Ag<Region> {
 public:
  AReg(Context* c) : Ag<Region>(c) {}
  virtual Agent* Clone() { AReg* m = new AReg(context()); m->InitFrom(this); return m; }
};
class AInst : public Ag<Institution> {
 public:
  AInst(Context* c) : Ag<Institution>(c) {}
  virtual Agent* Clone() { AInst* m = new AInst(context()); m->InitFrom(this); return m; }
};
class AFac : public Ag<Facility> {
 public:
  AFac(Context* c) : Ag<Facility>(c) {}
  virtual Agent* Clone() { AFac* m = new AFac(context()); m->InitFrom(this); return m; }
};
Agent* mk_reg(Context* c) { return new AReg(c); }
Agent* mk_inst(Context* c) { return new AInst(c); }
Agent* mk_fac(Context* c) { return new AFac(c); }

// the market used to see the effect of the solver's settings
class Mkt : public Facility {
 public:
  bool supplier;
  Str commod;
  Mkt(Context* ctx, bool s, const Str& c) : Facility(ctx), supplier(s), commod(c) {}
  virtual Agent* Clone() { return NULL; }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void InfileToDb(InfileTree*, DbInit) {}
  virtual void Snapshot(DbInit) {}
  virtual void Tick() {}
  virtual void Tock() {}
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() {
    std::set<RequestPortfolio<Product>::Ptr> s;
    if (supplier) return s;
    RequestPortfolio<Product>::Ptr p(new RequestPortfolio<Product>());
    p->AddRequest(Product::CreateUntracked(X->want, "q"), this, commod, 1.0, X->excl);
    s.insert(p);
    return s;
  }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& m) {
    std::set<BidPortfolio<Product>::Ptr> s;
    if (!supplier) return s;
    BidPortfolio<Product>::Ptr p(new BidPortfolio<Product>());
    CommodMap<Product>::type::iterator i;
    for (i = m.begin(); i != m.end(); ++i)
      for (size_t k = 0; k < i->second.size(); ++k)
        p->AddBid(i->second[k], Product::CreateUntracked(X->want, "q"), this);
    p->AddConstraint(CapacityConstraint<Product>(X->supply));
    s.insert(p);
    return s;
  }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& t,
                                std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) {
    for (size_t i = 0; i < t.size(); ++i) r.push_back(std::make_pair(t[i], Product::CreateUntracked(t[i].amt, "q")));
  }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) {
    if (context()->time() != 0) return;
    for (size_t i = 0; i < r.size(); ++i) X->got[commod] += r[i].first.amt;
  }
};

// ---------------------------------------------------------------- the input
struct Proto { int kind; Str name; int life; Conf c; };
struct Node { int proto, parent; Str name; };     // an initial agent
struct Rec { Str name; bool atom; std::vector<std::pair<int, double> > nuc; };
struct Pk { Str name; bool lo_set, hi_set, st_set; double lo, hi; Str st; };
struct Tu { Str name; bool lo_set, hi_set, st_set; int lo, hi; Str st; };
struct Com { Str name; double prio; };

struct In {
  bool flat;
  bool handle_set; Str handle;
  int dur, m0, y0;
  bool decay_set, dt_set, inv_set, invc_set, eps_set, epsr_set, seed_set, stride_set;
  Str decay;
  int dt, seed, stride;
  bool inv, invc;
  double eps, epsr;
  int solver;                 // 0 none, 1 greedy, 2 coin-or
  bool solver_el, precon_set, excl_set, excl, timeout_set, verb_set;
  int timeout;
  std::vector<Com> com;
  std::vector<Proto> protos;
  std::vector<Node> nodes;
  std::vector<Rec> recs;
  std::vector<Pk> pks;
  std::vector<Tu> tus;
  bool alias[3];
  bool include;               // recipes come from an included file
  // single-point mutations
  Str bad, dur_s, m0_s, seed_s, precon;
};

const char* kSpec[] = {"Reg", "Inst", "Fac"};
const char* kAlias[] = {"MyReg", "my-inst", "my_fac"};
const int kNuc[] = {922350000, 922380000, 942390000, 10010000};
const char* kForm[4][4] = {{"922350000", "92235", "U235", "u-235"}, {"922380000", "92238", "U-238", "u238"},
                           {"942390000", "94239", "Pu239", "PU-239"}, {"10010000", "1001", "H1", "h-1"}};

Str a_name(const char* base, int i) {
  static const char* deco[] = {"", " unit", "'s", " & co", "<x>", "-\xc3\xa9", "\"q\"", "_1", ".b", "%s"};
  return Str(base) + num(i) + deco[chance(1, 2) ? 0 : choose(10)];
}

double a_double(int lo, int hi) {
  switch (choose(4)) {
    case 0: return range(lo, hi);
    case 1: return range(lo * 100, hi * 100) / 100.0;
    case 2: return range(lo * 100 + 1, hi * 100) / 97.0;
    default: return range(1, 9) * 1e-5 + lo;
  }
}

Conf a_conf() {
  Conf c;
  c.has_n = chance(1, 2);
  c.n = c.has_n ? range(-5, 1000000) : 7;
  c.x = chance(1, 8) ? 1.0 / 3 : a_double(-3, 50);
  c.tag = a_name("t", (int)choose(50));
  int k = chance(1, 2) ? range(1, 4) : 0;
  for (int i = 0; i < k; ++i) c.vals.push_back(range(-9, 99999));
  return c;
}

void gen(In* n) {
  n->flat = chance(1, 3);
  n->handle_set = chance(1, 2); if (n->handle_set) n->handle = a_name("run", (int)choose(9));
  n->dur = range(1, 5); n->m0 = range(1, 12); n->y0 = range(1, 3000);
  n->decay_set = chance(1, 2); n->decay = n->decay_set ? (chance(1, 2) ? "never" : "lazy") : "manual";
  if (n->decay_set && chance(1, 4)) n->decay = "manual";
  n->dt_set = chance(1, 2); n->dt = n->dt_set ? range(1, 400) * 86400 : (int)kDefaultTimeStepDur;
  n->inv_set = chance(1, 2); n->inv = n->inv_set && chance(1, 2);
  n->invc_set = chance(1, 2); n->invc = n->invc_set && chance(1, 2);
  n->eps_set = chance(1, 2); n->eps = n->eps_set ? range(1, 9) * 1e-8 : 1e-6;
  n->epsr_set = chance(1, 2); n->epsr = n->epsr_set ? range(1, 9) * 1e-7 : 1e-6;
  n->seed_set = chance(1, 2); n->seed = n->seed_set ? range(1, 2000000000) : (int)kDefaultSeed;
  n->stride_set = chance(1, 2); n->stride = n->stride_set ? range(1, 100000) : (int)kDefaultStride;
  n->solver_el = chance(2, 3);
  n->solver = n->solver_el ? (int)choose(3) : 0;
  n->precon_set = n->solver == 1 && chance(1, 2); n->precon = "greedy";
  n->excl_set = n->solver_el && chance(1, 2); n->excl = !(n->excl_set && chance(1, 2));
  n->timeout_set = n->solver == 2 && chance(1, 2); n->timeout = range(5, 300);
  n->verb_set = n->solver == 2 && chance(1, 2);
  int nc = chance(1, 4) ? 0 : range(1, 4);
  std::vector<int> pr;
  for (int i = 1; i <= 12; ++i) pr.push_back(i);
  bool unspec = false;
  for (int i = 0; i < nc; ++i) {
    Com c;
    c.name = "com" + num(i);
    int k = (int)choose(pr.size());
    c.prio = pr[k] + (chance(1, 3) ? 0.5 : 0);
    pr.erase(pr.begin() + k);
    if (!unspec && chance(1, 6)) { c.prio = chance(1, 2) ? -1 : 0; unspec = true; }
    n->com.push_back(c);
  }
  for (int i = 0; i < 3; ++i) n->alias[i] = chance(1, 2);
  int nr = range(1, 2), nf = range(1, 3);
  int id = 0;
  static const char* kb[] = {"reg", "inst", "fac"};
  // prototypes: in the nested layout regions and institutions are both
  // prototypes and agents
  std::vector<int> fac;
  for (int i = 0; i < nf; ++i) {
    Proto p; p.kind = 2; p.name = a_name(kb[2], id++); p.life = chance(1, 2) ? range(1, 60) : -1; p.c = a_conf();
    fac.push_back((int)n->protos.size());
    n->protos.push_back(p);
  }
  for (int r = 0; r < nr; ++r) {
    Proto p; p.kind = 0; p.name = a_name(kb[0], id++); p.life = chance(1, 3) ? range(1, 60) : -1; p.c = a_conf();
    n->protos.push_back(p);
    int rn = -1;
    if (!n->flat) { Node d; d.proto = (int)n->protos.size() - 1; d.parent = -1; rn = (int)n->nodes.size(); n->nodes.push_back(d); }
    int ni = range(1, 2);
    for (int k = 0; k < ni; ++k) {
      Proto q; q.kind = 1; q.name = a_name(kb[1], id++); q.life = chance(1, 3) ? range(1, 60) : -1; q.c = a_conf();
      n->protos.push_back(q);
      if (n->flat) continue;
      Node d; d.proto = (int)n->protos.size() - 1; d.parent = rn;
      int in = (int)n->nodes.size();
      n->nodes.push_back(d);
      int ne = chance(1, 4) ? 0 : range(1, 3);
      for (int e = 0; e < ne; ++e) {
        int f = pick(fac), cnt = range(0, 3);
        for (int z = 0; z < cnt; ++z) { Node g; g.proto = f; g.parent = in; n->nodes.push_back(g); }
        // remember entries with count 0 as well
        if (cnt == 0) { Node g; g.proto = -1 - f; g.parent = in; n->nodes.push_back(g); }
      }
    }
  }
  if (n->flat) {
    int na = range(1, 6);
    for (int i = 0; i < na; ++i) {
      Node d;
      d.proto = (int)choose(n->protos.size());
      d.parent = i == 0 || chance(1, 4) ? -1 : (int)choose(i);
      // names in an order unrelated to the hierarchy
      d.name = Str(1, (char)('a' + choose(26))) + a_name("ag", i);
      n->nodes.push_back(d);
    }
  }
  int k = (int)choose(4);
  for (int i = 0; i < k; ++i) {
    Rec r; r.name = a_name("rec", i); r.atom = chance(1, 2);
    int m = range(1, 4);
    for (int j = 0; j < m; ++j) r.nuc.push_back(std::make_pair(j, a_double(1, 20)));
    n->recs.push_back(r);
  }
  n->include = k > 0 && chance(1, 4);
  k = (int)choose(4);
  static const char* st[] = {"first", "equal", "uniform", "normal"};
  for (int i = 0; i < k; ++i) {
    Pk p; p.name = a_name("pk", i);
    p.lo_set = chance(2, 3); p.lo = p.lo_set ? a_double(0, 5) : -1;
    p.hi_set = chance(2, 3); p.hi = p.hi_set ? a_double(6, 50) : std::numeric_limits<double>::max();
    p.st_set = chance(2, 3); p.st = p.st_set ? st[choose(p.hi_set ? 4 : 2)] : "first";
    n->pks.push_back(p);
  }
  k = (int)choose(3);
  static const char* ts[] = {"first", "equal", "hybrid"};
  for (int i = 0; i < k; ++i) {
    Tu t; t.name = a_name("tu", i);
    t.lo_set = chance(2, 3); t.lo = t.lo_set ? range(0, 4) : 0;
    t.hi_set = chance(2, 3); t.hi = t.hi_set ? range(5, 30) : std::numeric_limits<int>::max();
    t.st_set = chance(2, 3); t.st = t.st_set ? ts[choose(3)] : "first";
    n->tus.push_back(t);
  }
}

// ------------------------------------------------------------ rendering
Str esc(const Str& s) {
  Str o;
  for (size_t i = 0; i < s.size(); ++i)
    o += s[i] == '&' ? "&amp;" : s[i] == '<' ? "&lt;" : s[i] == '>' ? "&gt;" : s[i] == '"' && chance(1, 2) ? "&quot;" : Str(1, s[i]);
  return o;
}
Str el(const Str& n, const Str& body) { return "<" + n + ">" + body + "</" + n + ">"; }
Str pad(const Str& s) { return chance(1, 5) ? (chance(1, 2) ? " " + s + "\n" : "\t" + s) : s; }
Str el_i(const Str& n, int v) { return el(n, pad((v >= 0 && chance(1, 12) ? "0" : "") + num(v))); }
Str el_d(const Str& n, double v) {
  char b[64];
  snprintf(b, sizeof b, chance(1, 3) ? "%.17e" : "%.17g", v);
  return el(n, pad(b));
}
Str el_b(const Str& n, bool v) {
  return el(n, pad(v ? (chance(1, 2) ? "true" : "1") : (chance(1, 2) ? "false" : "0")));
}
Str el_s(const Str& n, const Str& v) { return el(n, esc(v)); }

// the children of an interleave may come in any order
Str shuffled(std::vector<Str> v) {
  if (chance(1, 2))
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[choose((uint32_t)i)]);
  Str o;
  for (size_t i = 0; i < v.size(); ++i) {
    o += v[i];
    switch (choose(8)) { case 0: o += "\n  "; break; case 1: o += "<!-- a comment <x> -->"; break; default: break; }
  }
  return o;
}

Str conf_xml(const In& n, const Proto& p, const Str& bad) {
  std::vector<Str> v;
  if (bad != "no-required") v.push_back(bad == "wrong-type" ? el("x", "many") : el_d("x", p.c.x));
  if (p.c.has_n) v.push_back(el_i("n", p.c.n));
  v.push_back(el_s("tag", p.c.tag));
  if (!p.c.vals.empty()) {
    Str s;
    for (size_t i = 0; i < p.c.vals.size(); ++i) s += el_i("val", p.c.vals[i]);
    v.push_back(el("vals", s));
  }
  Str a = n.alias[p.kind] ? kAlias[p.kind] : kSpec[p.kind];
  if (bad == "unlisted-archetype") a = "Nowhere";
  return el("config", el(a, shuffled(v)));
}

Str proto_xml(const In& n, const Proto& p, const char* tag, const Str& bad, const std::vector<Str>& more = std::vector<Str>()) {
  std::vector<Str> v = more;
  v.push_back(el_s("name", p.name));
  if (p.life >= 0) v.push_back(el_i("lifetime", p.life));
  v.push_back(conf_xml(n, p, bad));
  return el(tag, shuffled(v));
}

Str recipes_xml(const In& n) {
  Str o;
  for (size_t i = 0; i < n.recs.size(); ++i) {
    const Rec& r = n.recs[i];
    std::vector<Str> v;
    v.push_back(el_s("name", r.name));
    v.push_back(el("basis", n.bad == "basis" && i == 0 ? "moles" : r.atom ? "atom" : "mass"));
    for (size_t j = 0; j < r.nuc.size(); ++j) {
      std::vector<Str> u;
      u.push_back(el("id", n.bad == "nuclide" && i == 0 && j == 0 ? "Xx999" : kForm[r.nuc[j].first][choose(4)]));
      u.push_back(el_d("comp", n.bad == "negative-comp" && i == 0 && j == 0 ? -1.5 : r.nuc[j].second));
      v.push_back(el("nuclide", shuffled(u)));
    }
    o += el("recipe", shuffled(v));
  }
  return o;
}

Str render(In& n, const Str& dir) {
  std::vector<Str> c;
  if (n.handle_set) c.push_back(el_s("simhandle", n.handle));
  if (n.bad != "no-duration") c.push_back(n.dur_s.empty() ? el_i("duration", n.dur) : el("duration", n.dur_s));
  c.push_back(n.m0_s.empty() ? el_i("startmonth", n.m0) : el("startmonth", n.m0_s));
  c.push_back(el_i("startyear", n.y0));
  if (n.decay_set) c.push_back(el("decay", n.decay));
  if (n.dt_set) c.push_back(el_i("dt", n.dt));
  if (n.inv_set) c.push_back(el_b("explicit_inventory", n.inv));
  if (n.invc_set) c.push_back(el_b("explicit_inventory_compact", n.invc));
  if (n.eps_set) c.push_back(el_d("tolerance_generic", n.eps));
  if (n.epsr_set) c.push_back(el_d("tolerance_resource", n.epsr));
  if (n.seed_set || !n.seed_s.empty()) c.push_back(n.seed_s.empty() ? el_i("seed", n.seed) : el("seed", n.seed_s));
  if (n.stride_set) c.push_back(el_i("stride", n.stride));
  if (n.solver_el) {
    std::vector<Str> s;
    if (n.solver == 1) s.push_back(el("config", el("greedy", n.precon_set ? el("preconditioner", n.precon) : "")));
    if (n.solver == 2) {
      std::vector<Str> o;
      if (n.timeout_set) o.push_back(el_i("timeout", n.timeout));
      if (n.verb_set) o.push_back(el_b("verbose", false));
      s.push_back(el("config", el("coin-or", shuffled(o))));
    }
    if (n.excl_set) s.push_back(el_b("allow_exclusive_orders", n.excl));
    c.push_back(el("solver", shuffled(s)));
  }
  if (n.bad == "unknown-control") c.push_back(el("durration", "5"));
  std::vector<Str> t;
  t.push_back(el("control", shuffled(c)));
  for (size_t i = 0; i < n.com.size(); ++i) {
    std::vector<Str> v;
    v.push_back(el_s("name", n.com[i].name));
    v.push_back(el_d("solution_priority", n.com[i].prio));
    t.push_back(el("commodity", shuffled(v)));
  }
  {
    std::vector<Str> a;
    for (int i = 0; i < 3; ++i) {
      std::vector<Str> v;
      v.push_back(el("lib", "dst"));
      v.push_back(el("name", n.bad == "no-such-module" && i == 2 ? "Missing" : kSpec[i]));
      if (n.alias[i]) v.push_back(el("alias", kAlias[i]));
      a.push_back(el("spec", shuffled(v)));
    }
    t.push_back(el("archetypes", shuffled(a)));
  }
  int victim = -1;
  Str cbad;
  if (n.bad == "no-required" || n.bad == "wrong-type" || n.bad == "unlisted-archetype") { victim = (int)choose(n.protos.size()); cbad = n.bad; }
  if (n.flat) {
    for (size_t i = 0; i < n.protos.size(); ++i) t.push_back(proto_xml(n, n.protos[i], "prototype", (int)i == victim ? cbad : ""));
    for (size_t i = 0; i < n.nodes.size(); ++i) {
      std::vector<Str> v;
      v.push_back(el_s("name", n.nodes[i].name));
      v.push_back(el_s("prototype", n.bad == "unknown-prototype" && i == 0 ? "nobody" : n.protos[n.nodes[i].proto].name));
      Str par = n.nodes[i].parent < 0 ? "" : n.nodes[n.nodes[i].parent].name;
      if (n.bad == "unknown-parent" && i == n.nodes.size() - 1) par = "nobody";
      if (n.bad == "parent-cycle" && i == 0) {
        std::vector<size_t> down;
        for (size_t j = 0; j < n.nodes.size(); ++j) {
          int k = (int)j;
          while (k > 0) k = n.nodes[k].parent;
          if (k == 0) down.push_back(j);
        }
        par = n.nodes[pick(down)].name;
      }
      if (!par.empty()) v.push_back(el_s("parent", par));
      t.push_back(el("agent", shuffled(v)));
    }
    if (n.bad == "duplicate-agent") {
      std::vector<Str> v;
      v.push_back(el_s("name", n.nodes[0].name));
      v.push_back(el_s("prototype", n.protos[n.nodes[0].proto].name));
      t.push_back(el("agent", shuffled(v)));
    }
  } else {
    for (size_t i = 0; i < n.protos.size(); ++i)
      if (n.protos[i].kind == 2) t.push_back(proto_xml(n, n.protos[i], "facility", (int)i == victim ? cbad : ""));
    bool first = true;
    for (size_t i = 0; i < n.nodes.size(); ++i) {
      if (n.nodes[i].parent != -1) continue;
      std::vector<Str> insts;
      for (size_t j = 0; j < n.nodes.size(); ++j) {
        if (n.nodes[j].parent != (int)i) continue;
        std::vector<Str> more;
        Str list;
        for (size_t k = 0; k < n.nodes.size(); ++k) {
          if (n.nodes[k].parent != (int)j) continue;
          int p = n.nodes[k].proto, cnt = 1;
          if (p < 0) { p = -1 - p; cnt = 0; }
          else while (k + 1 < n.nodes.size() && n.nodes[k + 1].parent == (int)j && n.nodes[k + 1].proto == p) { ++cnt; ++k; }
          std::vector<Str> e;
          e.push_back(el_s("prototype", n.bad == "unknown-prototype" && first ? "nobody" : n.protos[p].name));
          e.push_back(el_i("number", n.bad == "unknown-prototype" && first ? 1 : cnt));
          first = false;
          list += el("entry", shuffled(e));
        }
        if (first && n.bad == "unknown-prototype") { list = el("entry", el("prototype", "nobody") + el("number", "1")); first = false; }
        if (!list.empty()) more.push_back(el("initialfacilitylist", list));
        int pi = n.nodes[j].proto;
        insts.push_back(proto_xml(n, n.protos[pi], "institution", pi == victim ? cbad : "", more));
      }
      int pi = n.nodes[i].proto;
      t.push_back(proto_xml(n, n.protos[pi], "region", pi == victim ? cbad : "", insts));
    }
  }
  if (n.bad == "duplicate-prototype") {
    Proto p = n.protos[choose(n.protos.size())];
    p.kind = 2;
    t.push_back(proto_xml(n, p, n.flat ? "prototype" : "facility", ""));
  }
  if (n.include || n.bad == "include-missing") {
    Str inc = dir + "/recipes.xml";
    if (n.bad != "include-missing") {
      std::ofstream f(inc.c_str());
      f << "<simulation>" << recipes_xml(n) << "</simulation>";
    }
    t.push_back("<xi:include href=\"" + inc + "\" xpointer=\"xpointer(/simulation/recipe)\"/>");
  } else {
    t.push_back(recipes_xml(n));
  }
  for (size_t i = 0; i < n.pks.size(); ++i) {
    const Pk& p = n.pks[i];
    std::vector<Str> v;
    v.push_back(el_s("name", p.name));
    bool b = n.bad == "package-limits" && i == 0;
    if (p.lo_set || b) v.push_back(el_d("fill_min", b ? 9.5 : p.lo));
    if (p.hi_set || b) v.push_back(el_d("fill_max", b ? 9.25 : p.hi));
    if (n.bad == "package-strategy" && i == 0) v.push_back(el("strategy", "last"));
    else if (p.st_set) v.push_back(el("strategy", p.st));
    t.push_back(el("package", shuffled(v)));
    if (n.bad == "duplicate-package" && i == 0) t.push_back(el("package", el_s("name", p.name)));
  }
  for (size_t i = 0; i < n.tus.size(); ++i) {
    const Tu& p = n.tus[i];
    std::vector<Str> v;
    v.push_back(el_s("name", p.name));
    bool b = n.bad == "unit-limits" && i == 0;
    if (p.lo_set || b) v.push_back(el_i("fill_min", b ? 5 : p.lo));
    if (p.hi_set || b) v.push_back(el_i("fill_max", b ? 4 : p.hi));
    if (n.bad == "unit-strategy" && i == 0) v.push_back(el("strategy", "uniform"));
    else if (p.st_set) v.push_back(el("strategy", p.st));
    t.push_back(el("transportunit", shuffled(v)));
  }
  if (n.bad == "unknown-element") t.push_back(el("facilty", ""));
  Str root = n.include || n.bad == "include-missing" ? "simulation xmlns:xi=\"http://www.w3.org/2001/XInclude\"" : "simulation";
  return (chance(1, 2) ? "<?xml version=\"1.0\"?>\n" : "") + ("<" + root + ">") + (n.flat ? el("schematype", "flat") : "") +
         shuffled(t) + "</simulation>";
}

// ------------------------------------------------------------ checking
bool same_conf(const Conf& a, const Conf& b) { return a.x == b.x && a.n == b.n && a.tag == b.tag && a.vals == b.vals; }

Str describe(const Str& proto, int life, const Conf& c, int kind) {
  std::stringstream s;
  s.precision(17);
  s << kSpec[kind] << " '" << proto << "' life " << life << " x " << c.x << " n " << c.n << " tag '" << c.tag << "' vals";
  for (size_t i = 0; i < c.vals.size(); ++i) s << " " << c.vals[i];
  return s.str();
}

template <class A> bool as(Agent* a, int kind, Str* d) {
  A* m = dynamic_cast<A*>(a);
  if (!m) return false;
  *d = describe(a->prototype(), a->lifetime(), m->c, kind);
  return true;
}
Str agent_str(Agent* a) {
  Str d = "an agent of another kind";
  if (!as<AReg>(a, 0, &d) && !as<AInst>(a, 1, &d)) as<AFac>(a, 2, &d);
  return d;
}
Str got_tree(Agent* a) {
  std::vector<Str> k;
  for (std::set<Agent*>::iterator i = a->children().begin(); i != a->children().end(); ++i) {
    if ((*i)->parent() != a) fail("tree", "a child does not name its parent");
    k.push_back(got_tree(*i));
  }
  std::sort(k.begin(), k.end());
  Str s = agent_str(a) + " {";
  for (size_t i = 0; i < k.size(); ++i) s += k[i] + ";";
  return s + "}";
}
Str want_tree(const In& n, int i) {
  const Proto& p = n.protos[n.nodes[i].proto];
  std::vector<Str> k;
  for (size_t j = 0; j < n.nodes.size(); ++j) if (n.nodes[j].parent == i && n.nodes[j].proto >= 0) k.push_back(want_tree(n, (int)j));
  std::sort(k.begin(), k.end());
  Str s = describe(p.name, p.life, p.c, p.kind) + " {";
  for (size_t j = 0; j < k.size(); ++j) s += k[j] + ";";
  return s + "}";
}

void check_sim(const In& n, Context* ctx) {
  SimInfo si = ctx->sim_info();
#define SAME(what, got, want) do { if (!((got) == (want))) { std::stringstream g_; g_.precision(17); g_ << (got) << ", the input says " << (want); \
    fail("setting", "%s is %s", what, g_.str().c_str()); } } while (0)
  SAME("the duration", si.duration, n.dur);
  SAME("the first month", si.m0, n.m0);
  SAME("the first year", si.y0, n.y0);
  SAME("the handle", si.handle, n.handle_set ? n.handle : Str(""));
  SAME("the decay mode", si.decay, n.decay);
  SAME("the time step", (int)si.dt, n.dt);
  SAME("the recording of inventories", si.explicit_inventory, n.inv);
  SAME("the compact recording of inventories", si.explicit_inventory_compact, n.invc);
  SAME("the seed", (int)si.seed, n.seed);
  SAME("the stride", (int)si.stride, n.stride);
  SAME("the generic tolerance", eps(), n.eps);
  SAME("the resource tolerance", eps_rsrc(), n.epsr);
  SAME("the generic tolerance", si.eps, n.eps);
  SAME("the resource tolerance", si.eps_rsrc, n.epsr);
  for (size_t i = 0; i < n.recs.size(); ++i) {
    Composition::Ptr c = ctx->GetRecipe(n.recs[i].name);
    CompMap m = n.recs[i].atom ? c->atom() : c->mass();
    double tot = 0, want = 0;
    for (CompMap::iterator j = m.begin(); j != m.end(); ++j) tot += j->second;
    for (size_t j = 0; j < n.recs[i].nuc.size(); ++j) want += n.recs[i].nuc[j].second;
    SAME("the number of nuclides of a recipe", m.size(), n.recs[i].nuc.size());
    for (size_t j = 0; j < n.recs[i].nuc.size(); ++j) {
      int id = kNuc[n.recs[i].nuc[j].first];
      double g = m.count(id) ? m[id] / tot : -1, w = n.recs[i].nuc[j].second / want;
      if (!near(g, w, 1e-9)) fail("recipe", "nuclide %d of recipe %s (%s basis) makes up %.12g, the input says %.12g", id,
                                  n.recs[i].name.c_str(), n.recs[i].atom ? "atom" : "mass", g, w);
    }
  }
  for (size_t i = 0; i < n.pks.size(); ++i) {
    Package::Ptr p = ctx->GetPackage(n.pks[i].name);
    SAME("the package minimum", p->fill_min(), n.pks[i].lo_set ? n.pks[i].lo : n.eps);
    SAME("the package maximum", p->fill_max(), n.pks[i].hi);
    SAME("the package strategy", p->strategy(), n.pks[i].st);
  }
  for (size_t i = 0; i < n.tus.size(); ++i) {
    TransportUnit::Ptr p = ctx->GetTransportUnit(n.tus[i].name);
    SAME("the transport unit minimum", p->fill_min(), n.tus[i].lo);
    SAME("the transport unit maximum", p->fill_max(), n.tus[i].hi);
    SAME("the transport unit strategy", p->strategy(), n.tus[i].st);
  }
  // prototypes
  for (size_t i = 0; i < n.protos.size(); ++i) {
    Agent* a = ctx->CreateAgent<Agent>(n.protos[i].name);
    Str g = agent_str(a), w = describe(n.protos[i].name, n.protos[i].life, n.protos[i].c, n.protos[i].kind);
    if (g != w) fail("prototype", "a prototype is\n  %s\nthe input says\n  %s", g.c_str(), w.c_str());
    ctx->DelAgent(a);
  }
  // initial agents
  std::vector<Str> g, w;
  std::set<Agent*> all = SimInitTest::agents(ctx);
  for (std::set<Agent*>::iterator i = all.begin(); i != all.end(); ++i)
    if ((*i)->enter_time() != -1 && (*i)->parent() == NULL) {
      if ((*i)->enter_time() != 0) fail("enter-time", "an initial agent entered at %d", (*i)->enter_time());
      g.push_back(got_tree(*i));
    }
  for (size_t i = 0; i < n.nodes.size(); ++i) if (n.nodes[i].parent == -1) w.push_back(want_tree(n, (int)i));
  std::sort(g.begin(), g.end());
  std::sort(w.begin(), w.end());
  for (size_t i = 0; i < std::max(g.size(), w.size()); ++i) {
    Str a = i < g.size() ? g[i] : "(nothing)", b = i < w.size() ? w[i] : "(nothing)";
    if (a != b) fail("initial-agents", "the simulation starts with\n  %s\nthe input says\n  %s", a.c_str(), b.c_str());
  }
  bool coin = dynamic_cast<ProgSolver*>(ctx->solver()) != NULL;
  SAME("the optimizing solver", coin, n.solver == 2);
}

void check_market(const In& n) {
  // one supplier, requests of equal preference for each commodity
  if (n.solver == 2) {
    // an exclusive order of more than there is
    bool traded = X->got.size() > 0;
    if (traded == n.excl)
      fail("exclusive-orders", "an exclusive order was%s filled in part; the input %s exclusive orders", traded ? "" : " not",
           n.excl ? "allows" : "does not allow");
    return;
  }
  std::vector<std::pair<double, Str> > o;
  double mx = 0;
  for (size_t i = 0; i < n.com.size(); ++i) mx = std::max(mx, n.com[i].prio);
  for (size_t i = 0; i < n.com.size(); ++i) o.push_back(std::make_pair(n.com[i].prio < 1 ? (mx < 1 ? 0 : mx) + 1 : n.com[i].prio, n.com[i].name));
  std::sort(o.begin(), o.end());
  if (n.com.size() > 0) o.push_back(std::make_pair(1e9, Str("unlisted")));
  double left = X->supply;
  for (size_t i = 0; i < o.size(); ++i) {
    double w = std::min(left, X->want);
    double g = X->got.count(o[i].second) ? X->got[o[i].second] : 0;
    if (!near(g, w, 1e-6))
      fail("solution-priority", "commodity %s (priority %g) received %g of %g; with %g to share in order of priority it should "
           "have received %g", o[i].second.c_str(), o[i].first, g, X->want, X->supply, w);
    left -= w;
  }
}

struct NullBuf : public std::streambuf { virtual int overflow(int c) { return c; } };

void run() {
  W w;
  X = &w;
  stub_atomic_masses();
  w.ticks = 0; w.supply = w.want = 0; w.excl = false; w.loading = true;
  SimInitTest::ctor(":dst:Reg", mk_reg);
  SimInitTest::ctor(":dst:Inst", mk_inst);
  SimInitTest::ctor(":dst:Fac", mk_fac);
  Str dir = scratch();
  static NullBuf nb;
  std::cout.rdbuf(&nb);
  std::cerr.rdbuf(&nb);
  In n;
  gen(&n);
  enum { NONE, CONTENT, TORN, MISSING, NOTAFILE, ZEROED, DBW, DBR } f = NONE;
  if (chance(1, 2)) {
    switch (choose(8)) {
      case 0: f = TORN; break;
      case 1: f = chance(1, 2) ? MISSING : NOTAFILE; break;
      case 2: f = ZEROED; break;
      case 3: f = DBW; break;
      case 4: f = DBR; break;
      default: f = CONTENT;
    }
  }
  if (f == CONTENT) {
    std::vector<Str> b;
    static const char* any[] = {"unknown-control", "unknown-element", "no-duration", "duration", "month", "seed", "no-such-module",
                                "no-required", "wrong-type", "unlisted-archetype", "duplicate-prototype", "unknown-prototype", "include-missing"};
    for (size_t i = 0; i < sizeof any / sizeof *any; ++i) b.push_back(any[i]);
    if (!n.recs.empty()) { b.push_back("basis"); b.push_back("nuclide"); b.push_back("negative-comp"); }
    if (!n.pks.empty()) { b.push_back("package-limits"); b.push_back("package-strategy"); b.push_back("duplicate-package"); }
    if (!n.tus.empty()) { b.push_back("unit-limits"); b.push_back("unit-strategy"); }
    if (n.flat) { b.push_back("unknown-parent"); b.push_back("parent-cycle"); b.push_back("duplicate-agent"); }
    if (n.solver == 1) b.push_back("preconditioner");
    n.bad = pick(b);
    static const char* durs[] = {"-3", "abc", "5000000000", "4.5", "12 months"};
    static const char* mons[] = {"0", "13", "-1", "jan"};
    static const char* seeds[] = {"0", "-5", "99999999999", "x"};
    if (n.bad == "duration") n.dur_s = durs[choose(5)];
    if (n.bad == "month") n.m0_s = mons[choose(4)];
    if (n.bad == "seed") n.seed_s = seeds[choose(4)];
    if (n.bad == "preconditioner") { n.precon_set = true; n.precon = "magic"; }
  }
  Str xml = render(n, dir);
  Str file = dir + "/input.xml";
  Str whole = xml;
  if (f == TORN) { xml = xml.substr(0, choose((uint32_t)xml.size())); fault("torn-file"); }
  if (f == ZEROED) {
    size_t a = choose((uint32_t)xml.size()), l = 1 + choose(64);
    for (size_t i = a; i < xml.size() && i < a + l; ++i) xml[i] = 0;
    fault("zeroed-block");
  }
  if (f == MISSING) fault("missing-file");
  else if (f == NOTAFILE) { mkdir(file.c_str(), 0700); fault("unreadable-file"); }
  else { std::ofstream o(file.c_str(), std::ios::binary); o.write(xml.data(), xml.size()); }
  if (f == CONTENT) fault("invalid-content");
  note("%s input, %s%s", n.flat ? "flat" : "nested", f == CONTENT ? n.bad.c_str() : f == NONE ? "valid" : "fault ", f > CONTENT ? num(f).c_str() : "");
  if (verbose()) printf("%s\n", xml.c_str());

  SqliteBack sql(":memory:");
  FaultyDb db(&sql);
  if (f == DBW) db.wfail = choose(60);
  if (f == DBR) db.rfail = choose(120);
  static const unsigned bufs[] = {1, 5, 60, 300};
  Recorder* rec = new Recorder(bufs[choose(4)]);
  rec->RegisterBackend(&db);
  Str err;
  bool stopped = false;
  SimInit* si = new SimInit();
  Str schema = Str(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + (n.flat ? "/share/cyclus-flat.rng.in" : "/share/cyclus.rng.in");
  try {
    if (n.flat) { XMLFlatLoader l(rec, &db, schema, file); l.LoadSim(); }
    else { XMLFileLoader l(rec, &db, schema, file); l.LoadSim(); }
    w.loading = false;
    si->Init(rec, &db);
  } catch (std::exception& e) {
    stopped = true;
    err = e.what();
  } catch (...) {
    stopped = true;
    err = "an exception of unknown type";
  }
  bool must_stop = f == DBW || f == DBR ? db.fired : f != NONE;
  steps();
  state(mix(mix(hstr(n.bad), f), mix(mix(n.flat, n.protos.size()), mix(n.nodes.size(), n.recs.size() * 16 + n.pks.size() * 4 + n.tus.size()))));
  if (must_stop) {
    nontrivial();
    stat("rejected-expected");
    if (!stopped) fail("accepted", "the simulation was set up although %s", f == CONTENT ? ("the input is invalid: " + n.bad).c_str()
                       : f == DBW ? "writing it to the database failed" : f == DBR ? "reading it back from the database failed"
                       : "the input file was damaged or missing");
    if (verbose()) printf("stopped: %s\n", err.c_str());
    return;
  }
  if (stopped) fail("rejected", "a valid input was rejected: %s", err.c_str());
  long wfail = db.wfail;
  db.wfail = -1;
  // every initial agent's parent was told once
  Context* ctx = si->context();
  check_sim(n, ctx);
  for (std::map<int, int>::iterator i = w.builds.begin(); i != w.builds.end(); ++i)
    if (i->second != 1) fail("notified", "the parent of initial agent %d was told %d times of it", i->first, i->second);
  size_t kids = 0;
  for (size_t i = 0; i < n.nodes.size(); ++i) if (n.nodes[i].parent >= 0 && n.nodes[i].proto >= 0) ++kids;
  if (w.builds.size() != kids) fail("notified", "parents were told of %d initial agents, there are %d with a parent", (int)w.builds.size(), (int)kids);

  // run it, with a market that shows what the solver was told
  bool market = n.solver == 2 || n.com.size() > 0;
  if (market) {
    w.want = range(2, 6);
    std::vector<Str> cs;
    if (n.solver == 2) { cs.push_back("com0"); w.excl = true; w.supply = w.want - 1; }
    else {
      for (size_t i = 0; i < n.com.size(); ++i) cs.push_back(n.com[i].name);
      cs.push_back("unlisted");
      w.supply = w.want * range(0, (int)cs.size()) + range(0, 1) * 0.5;
      if (w.supply <= 0) w.supply = 0.5;
    }
    if (chance(1, 2)) std::reverse(cs.begin(), cs.end());
    Agent* s = new Mkt(ctx, true, "");
    s->Build(NULL);
    for (size_t i = 0; i < cs.size(); ++i) { Agent* r = new Mkt(ctx, false, cs[i]); r->Build(NULL); }
  }
  w.ticks = 0;
  db.wfail = wfail >= db.w ? wfail : -1;
  try { si->timer()->RunSim(); rec->Flush(); } catch (std::exception& e) { stopped = true; err = e.what(); }
  if (db.fired) {
    nontrivial();
    stat("run-stopped-expected");
    if (!stopped) fail("accepted", "the simulation ran on although the database failed");
    return;
  }
  if (stopped) fail("run-failed", "the simulation failed: %s", err.c_str());
  steps(n.dur);
  int end = -1;
  try {
    QueryResult q = sql.Query("Finish", NULL);
    if (q.rows.size() != 1) fail("finish", "there are %d completion records", (int)q.rows.size());
    end = q.GetVal<int>("EndTime");
  } catch (std::exception& e) { stopped = true; err = e.what(); }
  if (stopped) fail("finish", "the completion record cannot be read: %s", err.c_str());
  if (end != n.dur - 1) fail("duration", "the simulation ended at step %d, the input asks for %d steps", end, n.dur);
  if (market) { stat("markets"); check_market(n); }
  nontrivial();
}

DST_WORLD(P17, run);

}  // namespace
