// The output path: recorder delivery (P11), SQLite durability and fault
// handling (P12), what is written is what is read back (P13), HDF5 write faults
// are reported (P14).  The recorder and both database backends are real; the
// disk underneath is simulated at the system-call seam (write, truncate, lock,
// read), where a seeded plan makes calls fail, fall short or the disk fill up.
#include "simlib.h"
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sqlite3.h>
#include "hdf5_back.h"
#include "blob.h"

// ---- simulated disk --------------------------------------------------------
namespace disk {
bool track[4096];
char prefix[256];
bool armed;
enum Kind { kNone, kWriteEio, kShort, kFull, kBusy, kReadEio, kTruncEio };
int kind;
long countdown;     // calls of the faulty kind still to succeed
bool sticky;        // keep failing while armed
long quota;         // kFull: no file may grow beyond
int fired;
bool once_done;
long nwrite;

void arm(int k, long n, bool st, long q) { armed = k != kNone; kind = k; countdown = n; sticky = st; quota = q; once_done = false; fired = 0; }
void disarm() { armed = false; }
bool hit(int k) {
  if (!armed || kind != k) return false;
  if (once_done && !sticky) return false;
  if (countdown-- > 0) return false;
  once_done = true;
  ++fired;
  return true;
}
bool mine(int fd) { return fd >= 0 && fd < 4096 && track[fd]; }
int opened(const char* path, int fd) {
  if (fd >= 0 && fd < 4096) track[fd] = prefix[0] && !strncmp(path, prefix, strlen(prefix));
  return fd;
}
ssize_t wr(int fd, const void* p, size_t n, off_t off, bool pos) {
  if (mine(fd)) {
    ++nwrite;
    if (hit(kWriteEio)) { dst::fault("disk-write-error"); errno = EIO; return -1; }
    if (n > 1 && hit(kShort)) { dst::fault("disk-short-write"); n = n / 2; }
    if (armed && kind == kFull) {
      struct stat st;
      fstat(fd, &st);
      off_t o = pos ? off : lseek(fd, 0, SEEK_CUR);
      if (o + (off_t)n > st.st_size && o + (off_t)n > quota) { ++fired; dst::fault("disk-full"); errno = ENOSPC; return -1; }
    }
  }
  return pos ? syscall(SYS_pwrite64, fd, p, n, off) : syscall(SYS_write, fd, p, n);
}
ssize_t rd(int fd, void* p, size_t n, off_t off, bool pos) {
  if (mine(fd) && hit(kReadEio)) { dst::fault("disk-read-error"); errno = EIO; return -1; }
  return pos ? syscall(SYS_pread64, fd, p, n, off) : syscall(SYS_read, fd, p, n);
}
int tr(int fd, off_t n) {
  if (mine(fd)) {
    if (hit(kTruncEio)) { dst::fault("disk-truncate-error"); errno = EIO; return -1; }
    if (armed && kind == kFull) {
      struct stat st;
      fstat(fd, &st);
      if (n > st.st_size && n > quota) { ++fired; dst::fault("disk-full"); errno = ENOSPC; return -1; }
    }
  }
  return (int)syscall(SYS_ftruncate, fd, n);
}
int lk(int fd, int cmd, void* arg) {
  if (mine(fd) && cmd == F_SETLK && ((struct flock*)arg)->l_type == F_WRLCK && hit(kBusy)) {
    dst::fault("file-locked-by-other"); errno = EAGAIN; return -1;
  }
  return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int nopen() { int n = 0; for (int i = 0; i < 4096; ++i) n += track[i]; return n; }
}  // namespace disk

extern "C" {
static int do_open(const char* p, int fl, mode_t m) { return disk::opened(p, (int)syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return do_open(p, fl | O_LARGEFILE, m); }
int close(int fd) { if (fd >= 0 && fd < 4096) disk::track[fd] = false; return (int)syscall(SYS_close, fd); }
ssize_t write(int fd, const void* p, size_t n) { return disk::wr(fd, p, n, 0, false); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return disk::wr(fd, p, n, o, true); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { return disk::wr(fd, p, n, o, true); }
ssize_t read(int fd, void* p, size_t n) { return disk::rd(fd, p, n, 0, false); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return disk::rd(fd, p, n, o, true); }
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { return disk::rd(fd, p, n, o, true); }
int ftruncate(int fd, off_t n) noexcept { return disk::tr(fd, n); }
int ftruncate64(int fd, off64_t n) noexcept { return disk::tr(fd, n); }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* x = va_arg(a, void*); va_end(a); return disk::lk(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void* x = va_arg(a, void*); va_end(a); return disk::lk(fd, cmd, x); }
}

using namespace cyclus;
using namespace dst;
typedef std::string Str;

namespace {

// ---- values of every supported type ---------------------------------------
bool g_nul;  // byte strings may contain NUL
Str gstr() {
  static const char* k[] = {"", "a", "b", "ab", "c", "bc", "abc", " x ", "<&>\"'", "\xc3\xa9\xe2\x98\xa2", "two\nlines", "a'b", "x;y", "%s", "0"};
  if (chance(1, 24)) return Str(range(1, 700), "qwertz"[choose(6)]);
  return k[choose(sizeof k / sizeof *k)];
}
void G(int& x) { static const int k[] = {0, 1, -1, 2, 7, 2147483647, -2147483647 - 1, 42}; x = chance(1, 2) ? k[choose(8)] : range(-50, 50); }
void G(double& x) {
  static const double k[] = {0, 1, -1.5, 0.1, 1e300, -1e-300, 1.0 / 3, 123456789.123456789, 5e-324, 0.5};
  x = chance(1, 2) ? k[choose(10)] : range(-500, 500) / 7.0;
}
void G(float& x) { static const float k[] = {0, 1, -1.5f, 0.1f, 1e30f, 3.14159274f}; x = chance(1, 2) ? k[choose(6)] : (float)(range(-500, 500) / 7.0); }
void G(bool& x) { x = choose(2); }
void G(Str& x) { x = gstr(); }
void G(Blob& x) { Str s = gstr(); if (g_nul && chance(1, 4)) s += Str("\0\x01\xff z", 5); x = Blob(s); }
void G(boost::uuids::uuid& u) { for (int i = 0; i < 16; ++i) u.data[i] = chance(1, 8) ? 0 : (uint8_t)choose(256); }
template <class A, class B> void G(std::pair<A, B>& p);
template <class T> void G(std::vector<T>& v);
template <class T> void G(std::list<T>& v);
template <class T> void G(std::set<T>& v);
template <class A, class B> void G(std::map<A, B>& v);
template <class A, class B> void G(std::pair<A, B>& p) { G(p.first); G(p.second); }
template <class T> void G(std::vector<T>& v) { int n = choose(4); for (int i = 0; i < n; ++i) { T t = T(); G(t); v.push_back(t); } }
template <class T> void G(std::list<T>& v) { int n = choose(4); for (int i = 0; i < n; ++i) { T t = T(); G(t); v.push_back(t); } }
template <class T> void G(std::set<T>& v) { int n = choose(4); for (int i = 0; i < n; ++i) { T t = T(); G(t); v.insert(t); } }
template <class A, class B> void G(std::map<A, B>& v) { int n = choose(4); for (int i = 0; i < n; ++i) { A a = A(); G(a); G(v[a]); } }

void S(std::ostream& o, const Blob& b) { o << b.str().size() << ":"; for (unsigned char c : b.str()) if (c > 31 && c < 127) o << c; else o << "\\" << (int)c; }
void S(std::ostream& o, const boost::uuids::uuid& b) { o << b; }
void S(std::ostream& o, const Str& b) { o << '"' << (b.size() > 40 ? b.substr(0, 40) + "..." : b) << '"'; }
void S(std::ostream& o, bool b) { o << b; }
void S(std::ostream& o, int b) { o << b; }
void S(std::ostream& o, double b) { o.precision(17); o << b; }
void S(std::ostream& o, float b) { o.precision(9); o << b; }
template <class A, class B> void S(std::ostream& o, const std::pair<A, B>& p);
template <class C> void S(std::ostream& o, const C& c) { o << "["; for (auto& x : c) { S(o, x); o << " "; } o << "]"; }
template <class A, class B> void S(std::ostream& o, const std::pair<A, B>& p) { o << "("; S(o, p.first); o << ","; S(o, p.second); o << ")"; }

struct TypeOps {
  const char* name;
  DbTypes sql, h5;
  Any (*gen)();
  bool (*eq)(const Any&, const Any&);
  Str (*str)(const Any&);
  bool ordered;  // usable in a condition
};
template <class T> Any gen_any() { T t = T(); G(t); return Any(t); }
template <class T> bool eq_any(const Any& a, const Any& b) {
  if (a.type() != typeid(T) || b.type() != typeid(T)) return false;
  return const_cast<Any&>(a).cast<T>() == const_cast<Any&>(b).cast<T>();
}
template <class T> Str str_any(const Any& a) {
  if (a.type() != typeid(T)) return Str("<type ") + a.type().name() + ">";
  std::ostringstream o;
  S(o, const_cast<Any&>(a).cast<T>());
  return o.str();
}
#define TY(T, SQ, H5, ORD) {#SQ, SQ, H5, gen_any<T>, eq_any<T>, str_any<T>, ORD}
typedef std::map<Str, std::map<int, double> > MSMID;
typedef std::map<Str, std::pair<double, std::map<int, double> > > MSPDMID;
typedef std::map<int, std::map<Str, double> > MIMSD;
typedef std::map<Str, std::vector<std::pair<int, std::pair<Str, Str> > > > MSVPIPSS;
typedef std::map<Str, std::pair<Str, std::vector<double> > > MSPSVD;
typedef std::list<std::pair<int, int> > LPII;
typedef std::map<Str, std::map<Str, int> > MSMSI;
typedef std::map<Str, std::map<Str, double> > MSMSD;
typedef std::vector<std::pair<std::pair<double, double>, std::map<Str, double> > > VPPDDMSD;
typedef std::map<std::pair<Str, Str>, int> MPSSI;
typedef std::map<int, double> MID; typedef std::map<int, int> MII; typedef std::map<int, Str> MIS;
typedef std::map<Str, int> MSI; typedef std::map<Str, double> MSD; typedef std::map<Str, Str> MSS;
typedef std::map<Str, std::vector<double> > MSVD;
const TypeOps kTypes[] = {
    TY(int, INT, INT, true), TY(double, DOUBLE, DOUBLE, true), TY(Str, STRING, VL_STRING, true), TY(bool, BOOL, BOOL, true),
    TY(float, FLOAT, FLOAT, true), TY(Blob, BLOB, BLOB, false), TY(boost::uuids::uuid, UUID, UUID, false),
    TY(std::vector<int>, VECTOR_INT, VL_VECTOR_INT, false), TY(std::vector<double>, VECTOR_DOUBLE, VL_VECTOR_DOUBLE, false),
    TY(std::vector<Str>, VECTOR_STRING, VL_VECTOR_VL_STRING, false), TY(std::set<int>, SET_INT, VL_SET_INT, false),
    TY(std::set<Str>, SET_STRING, VL_SET_VL_STRING, false), TY(std::list<int>, LIST_INT, VL_LIST_INT, false),
    TY(std::list<Str>, LIST_STRING, VL_LIST_VL_STRING, false), TY(MII, MAP_INT_INT, VL_MAP_INT_INT, false),
    TY(MID, MAP_INT_DOUBLE, VL_MAP_INT_DOUBLE, false), TY(MIS, MAP_INT_STRING, VL_MAP_INT_VL_STRING, false),
    TY(MSI, MAP_STRING_INT, VL_MAP_VL_STRING_INT, false), TY(MSD, MAP_STRING_DOUBLE, VL_MAP_VL_STRING_DOUBLE, false),
    TY(MSS, MAP_STRING_STRING, VL_MAP_VL_STRING_VL_STRING, false), TY(MSVD, MAP_STRING_VECTOR_DOUBLE, VL_MAP_VL_STRING_VL_VECTOR_DOUBLE, false),
    TY(MSMID, MAP_STRING_MAP_INT_DOUBLE, VL_MAP_VL_STRING_VL_MAP_INT_DOUBLE, false),
    TY(MSPDMID, MAP_STRING_PAIR_DOUBLE_MAP_INT_DOUBLE, VL_MAP_VL_STRING_PAIR_DOUBLE_VL_MAP_INT_DOUBLE, false),
    TY(MIMSD, MAP_INT_MAP_STRING_DOUBLE, VL_MAP_INT_VL_MAP_VL_STRING_DOUBLE, false),
    TY(MSVPIPSS, MAP_STRING_VECTOR_PAIR_INT_PAIR_STRING_STRING, VL_MAP_VL_STRING_VL_VECTOR_PAIR_INT_PAIR_VL_STRING_VL_STRING, false),
    TY(MSPSVD, MAP_STRING_PAIR_STRING_VECTOR_DOUBLE, VL_MAP_VL_STRING_PAIR_VL_STRING_VL_VECTOR_DOUBLE, false),
    TY(LPII, LIST_PAIR_INT_INT, VL_LIST_PAIR_INT_INT, false),
    TY(MSMSI, MAP_STRING_MAP_STRING_INT, VL_MAP_VL_STRING_VL_MAP_VL_STRING_INT, false),
    TY(VPPDDMSD, VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_MAP_STRING_DOUBLE, VL_VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_VL_MAP_VL_STRING_DOUBLE, false),
    TY(MPSSI, MAP_PAIR_STRING_STRING_INT, VL_MAP_PAIR_VL_STRING_VL_STRING_INT, false),
    TY(MSMSD, MAP_STRING_MAP_STRING_DOUBLE, VL_MAP_VL_STRING_VL_MAP_VL_STRING_DOUBLE, false)};
const int kNTypes = sizeof kTypes / sizeof *kTypes;

struct Col { Str name; int type; std::vector<int> shape; };
struct Table { Str name; std::vector<Col> cols; };
struct Rec { int table; boost::uuids::uuid sim; bool inj; std::vector<Any> v; int seq; };

bool uuid_eq(const Any& a, const boost::uuids::uuid& u) {
  return a.type() == typeid(boost::uuids::uuid) && const_cast<Any&>(a).cast<boost::uuids::uuid>() == u;
}

void put(Recorder* r, const Table& t, const Rec& x) {
  Datum* d = r->NewDatum(t.name);
  for (size_t i = 0; i < t.cols.size(); ++i) {
    std::vector<int> sh = t.cols[i].shape;
    std::vector<int>* shp = sh.empty() ? NULL : &sh;
    if (i % 2) d->AddVal(Str(t.cols[i].name), x.v[i], shp);  // the name is a temporary
    else d->AddVal(t.cols[i].name.c_str(), x.v[i], shp);
  }
  d->Record();
}

// ---- P11: delivery ----------------------------------------------------------
struct Fail : public IOError { Fail(int k) : IOError("injected"), id(k) {} int id; };

struct ScriptBack : public RecBackend {
  std::vector<Row> rows;     // everything presented
  std::vector<int> batches;  // sizes
  int flushed_at;            // rows presented when last flushed
  int fail_notify, fail_flush;
  int id;
  ScriptBack(int i) : flushed_at(0), fail_notify(-1), fail_flush(-1), id(i) {}
  void Notify(DatumList data) {
    for (size_t i = 0; i < data.size(); ++i) {
      Row r;
      r.title = data[i]->title();
      r.f = data[i]->fields();
      const Datum::Vals& vs = data[i]->vals();
      for (size_t j = 0; j < vs.size(); ++j) r.v.push_back(vs[j].second);
      rows.push_back(r);
    }
    batches.push_back((int)data.size());
    note("  backend %d is given %zu records", id, data.size());
    if (fail_notify >= 0 && fail_notify-- == 0) { fault("backend-notify-throws"); throw Fail(id * 2); }
  }
  Str Name() { return "script"; }
  void Flush() {
    flushed_at = (int)rows.size();
    if (fail_flush >= 0 && fail_flush-- == 0) { fault("backend-flush-throws"); throw Fail(id * 2 + 1); }
  }
  void Close() {}
};

void same_row(const Row& got, const Rec& x, const Table& t, int b, size_t k) {
  size_t off = x.inj ? 1 : 0;
  DST_CHECK(got.title == t.name, "record-order", "backend %d: record %zu is for table %s, expected %s", b, k, got.title.c_str(), t.name.c_str());
  DST_CHECK(got.f.size() == t.cols.size() + off && got.v.size() == got.f.size(), "record-fields", "backend %d: record %zu has %zu names and %zu values, expected %zu", b, k,
            got.f.size(), got.v.size(), t.cols.size() + off);
  if (x.inj) DST_CHECK(got.f[0] == "SimId" && uuid_eq(got.v[0], x.sim), "sim-id", "backend %d: record %zu does not carry the simulation id", b, k);
  for (size_t i = 0; i < t.cols.size(); ++i) {
    DST_CHECK(got.f[i + off] == t.cols[i].name, "record-fields", "backend %d: record %zu field %zu is named %s, expected %s", b, k, i, got.f[i + off].c_str(), t.cols[i].name.c_str());
    const TypeOps& ty = kTypes[t.cols[i].type];
    DST_CHECK(ty.eq(got.v[i + off], x.v[i]), "record-value", "backend %d: record %zu field %s is %s, recorded as %s", b, k, t.cols[i].name.c_str(), ty.str(got.v[i + off]).c_str(),
              ty.str(x.v[i]).c_str());
  }
}

std::vector<Table> gen_tables(int maxcols, int ntypes, bool fixed) {
  std::vector<Table> ts;
  int nt = range(1, 3);
  static const char* names[] = {"Alpha", "Beta", "GammaTable"};
  for (int i = 0; i < nt; ++i) {
    Table t;
    t.name = names[i];
    int nc = range(1, maxcols);
    for (int c = 0; c < nc; ++c) {
      Col k;
      k.type = choose(ntypes);
      k.name = "col" + std::to_string(c) + (chance(1, 3) ? "_with_a_rather_long_name" : "");
      if (fixed && chance(1, 5)) {
        if (kTypes[k.type].sql == STRING) k.shape.push_back(range(1, 24));
        if (kTypes[k.type].sql == VECTOR_INT || kTypes[k.type].sql == VECTOR_DOUBLE) k.shape.push_back(range(1, 4));
      }
      t.cols.push_back(k);
    }
    ts.push_back(t);
  }
  return ts;
}

Any fit(const Col& c, Any a) {  // a value of the column's fixed shape
  if (c.shape.empty()) return a;
  size_t n = c.shape[0];
  if (kTypes[c.type].sql == STRING) { Str s = a.cast<Str>(); if (s.size() > n) s.resize(n); return Any(s); }
  if (kTypes[c.type].sql == VECTOR_INT) { std::vector<int> v = a.cast<std::vector<int> >(); v.resize(n, 3); return Any(v); }
  std::vector<double> v = a.cast<std::vector<double> >(); v.resize(n, 0.25); return Any(v);
}

Rec gen_rec(const std::vector<Table>& ts, int seq) {
  Rec x;
  x.table = choose((uint32_t)ts.size());
  x.seq = seq;
  for (const Col& c : ts[x.table].cols) x.v.push_back(fit(c, kTypes[c.type].gen()));
  return x;
}

void run_p11() {
  g_nul = true;
  std::vector<Table> ts = gen_tables(12, 12, false);
  static const unsigned dumps[] = {1, 2, 3, 5, 7, 64, 0};
  unsigned dump = dumps[choose(7)];
  bool inj = !chance(1, 4);
  Recorder* r;
  boost::uuids::uuid sim;
  if (chance(1, 3)) { sim = sim_uuid(3); r = new Recorder(sim); r->set_dump_count(dump); }
  else { r = new Recorder(dump); sim = r->sim_id(); }
  DST_CHECK(r->sim_id() == sim, "sim-id", "the recorder does not keep the simulation id it was given");
  if (!inj) r->inject_sim_id(false);
  note("dump count %u, sim id %s", dump, inj ? "injected" : "not injected");
  struct B { ScriptBack* b; size_t lo, hi; bool on; std::vector<Rec> must; };
  std::vector<ScriptBack*> bs;
  // per backend: the records it must have been given, and how many before its
  // registration it may have been given in addition (they were still buffered)
  std::vector<std::vector<Rec> > want;
  std::vector<size_t> may;
  std::vector<bool> on;
  std::vector<Rec> pending;
  int seq = 0;
  auto reg = [&]() {
    ScriptBack* b = new ScriptBack((int)bs.size());
    r->RegisterBackend(b);
    bs.push_back(b); want.push_back(pending); may.push_back(pending.size()); on.push_back(true);
    note("register backend %d", b->id);
  };
  auto check = [&](bool drained, const char* after) {
    for (size_t i = 0; i < bs.size(); ++i) {
      ScriptBack& b = *bs[i];
      std::vector<Rec>& w = want[i];
      // skip buffered records from before the registration, if it was not given them
      size_t got = b.rows.size();
      DST_CHECK(got <= w.size(), "duplicate-record", "after %s: backend %zu was given %zu records of %zu", after, i, got, w.size());
      if (on[i]) {
        size_t lag = w.size() - got, lim = drained ? 0 : (dump > 1 ? dump - 1 : 0);
        DST_CHECK(lag <= lim, "lost-record", "after %s: backend %zu was given %zu of %zu records (buffer size %u)", after, i, got, w.size(), dump);
      }
      for (size_t k = 0; k < got; ++k) if (k + 8 > got || drained) same_row(b.rows[k], w[k], ts[w[k].table], (int)i, k);
    }
  };
  int nb = range(1, 3);
  for (int i = 0; i < nb; ++i) reg();
  int nops = range(3, 40);
  bool any_fail = false;
  for (int op = 0; op < nops; ++op) {
    int what = choose(20);
    if (chance(1, 8) && !bs.empty()) {
      ScriptBack* b = bs[choose((uint32_t)bs.size())];
      if (chance(2, 3)) b->fail_notify = 0; else b->fail_flush = 0;
      note("backend %d will fail its next %s", b->id, b->fail_notify == 0 ? "delivery" : "flush");
    }
    bool threw = false;
    int tid = -1;
    const char* after = "";
    bool drained = false;
    std::vector<int> arm_n, arm_f;
    for (auto b : bs) { arm_n.push_back(b->fail_notify); arm_f.push_back(b->fail_flush); }
    try {
      if (what < 13) {
        after = "a record";
        Rec x = gen_rec(ts, seq++);
        x.sim = sim; x.inj = inj;
        note("record %d in %s", x.seq, ts[x.table].name.c_str());
        for (size_t i = 0; i < bs.size(); ++i) if (on[i]) want[i].push_back(x);
        pending.push_back(x);
        put(r, ts[x.table], x);
      } else if (what < 15) {
        after = "a flush"; drained = true;
        note("flush");
        r->Flush();
      } else if (what == 15) {
        after = "changing the sim id injection"; drained = true;
        inj = !inj;
        note("inject sim id: %d", inj);
        r->inject_sim_id(inj);
        DST_CHECK(r->inject_sim_id() == inj, "sim-id", "sim id injection not changed");
      } else if (what == 16) {
        after = "changing the dump count";
        dump = dumps[choose(7)];
        note("dump count %u: buffered records are discarded", dump);
        // documented: what is buffered is deleted
        for (size_t i = 0; i < bs.size(); ++i) if (on[i]) want[i].resize(bs[i]->rows.size());
        r->set_dump_count(dump);
        pending.clear();
        DST_CHECK(r->dump_count() == dump, "dump-count", "dump count %u after setting %u", r->dump_count(), dump);
      } else if (what == 17 && bs.size() < 6) {
        reg();
        continue;
      } else if (what == 18) {
        after = "close"; drained = true;
        note("close");
        r->Close();
      } else {
        continue;
      }
    } catch (Fail& e) {
      threw = true;
      tid = e.id;
      note("  -> the failure is reported");
      inj = r->inject_sim_id();  // either outcome is fine when the flush before it fails
    }
    // did a backend fail during this call?
    bool failed = false;
    for (size_t i = 0; i < arm_n.size(); ++i)
      if ((arm_n[i] == 0 && bs[i]->fail_notify < 0) || (arm_f[i] == 0 && bs[i]->fail_flush < 0)) { failed = true; any_fail = true; }
    DST_CHECK(threw == failed, failed ? "failure-swallowed" : "unexpected-failure", "after %s: a backend %s but the caller %s", after, failed ? "failed" : "did not fail",
              threw ? "saw a failure" : "was not told");
    // delivered records are no longer buffered
    size_t undelivered = 0;
    for (size_t i = 0; i < bs.size(); ++i) if (on[i]) undelivered = std::max(undelivered, want[i].size() - std::min(want[i].size(), bs[i]->rows.size()));
    bool someone = false;
    for (size_t i = 0; i < bs.size(); ++i) someone |= on[i];
    if (someone) while (pending.size() > undelivered) pending.erase(pending.begin());
    else if (drained || pending.size() >= (dump ? dump : 1)) pending.clear();
    check(drained, after);
    if (drained && !failed && what < 16)
      for (size_t i = 0; i < bs.size(); ++i)
        if (on[i]) DST_CHECK(bs[i]->flushed_at == (int)bs[i]->rows.size(), "not-flushed", "after %s: backend %zu was given %zu records but flushed after %d", after, i, bs[i]->rows.size(), bs[i]->flushed_at);
    if (what == 18) {
      if (!failed) {
        for (size_t i = 0; i < bs.size(); ++i)
          if (on[i]) DST_CHECK(bs[i]->flushed_at == (int)bs[i]->rows.size(), "not-flushed", "after close: backend %zu was given %zu records but flushed after %d", i, bs[i]->rows.size(), bs[i]->flushed_at);
        for (size_t i = 0; i < bs.size(); ++i) on[i] = false;
      }
    }
    uint64_t h = mix(dump, pending.size());
    for (size_t i = 0; i < bs.size(); ++i) h = mix(h, mix(on[i], want[i].size() - bs[i]->rows.size()));
    state(h);
    steps();
  }
  note("destroy the recorder");
  bool sab = chance(1, 4) && !bs.empty();
  if (sab) bs[choose((uint32_t)bs.size())]->fail_notify = 0;
  delete r;
  check(true, "destruction");
  if (seq > 5 || any_fail) nontrivial();
}

// ---- shared by the database runs -------------------------------------------
struct Fwd : public RecBackend {
  FullBackend* b;
  std::vector<int> fate;                 // by sequence number: 0 unknown, 1 stored, 2 refused
  std::vector<std::vector<int> > batches;
  int errors, plan;
  void (*before)(Fwd*);
  Fwd(FullBackend* x) : b(x), errors(0), plan(0), before(0) {}
  void Notify(DatumList data) {
    std::vector<int> s;
    for (size_t i = 0; i < data.size(); ++i) s.push_back(const_cast<Any&>(data[i]->vals()[1].second).cast<int>());
    if (before) before(this);
    try {
      b->Notify(data);
    } catch (...) {
      note("  batch of %zu refused (faults fired %d)", s.size(), disk::fired);
      disk::disarm();
      ++errors;
      for (int k : s) { if ((int)fate.size() <= k) fate.resize(k + 1); fate[k] = 2; }
      throw;
    }
    note("  batch of %zu stored (faults fired %d)", s.size(), disk::fired);
    disk::disarm();
    for (int k : s) { if ((int)fate.size() <= k) fate.resize(k + 1); fate[k] = 1; }
  }
  Str Name() { return "fwd"; }
  void Flush() { b->Flush(); }
  void Close() {}
};

long fsize(const Str& p) { struct stat st; return ::stat(p.c_str(), &st) == 0 ? (long)st.st_size : 0; }

void copy_file(const Str& a, const Str& b) {
  int in = ::open(a.c_str(), O_RDONLY);
  if (in < 0) return;
  int out = ::open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  char buf[65536];
  ssize_t n;
  while ((n = syscall(SYS_read, in, buf, sizeof buf)) > 0) syscall(SYS_write, out, buf, (size_t)n);
  ::close(in); ::close(out);
}

// ---- P12: SQLite under faults ----------------------------------------------
std::vector<Table> g_tabs;
std::vector<Rec> g_recs;

Table seq_table(const char* name, bool wide) {
  Table t;
  t.name = name;
  Col s; s.name = "Seq"; s.type = 0; t.cols.push_back(s);
  Col p; p.name = "Payload"; p.type = 2; t.cols.push_back(p);
  if (wide) { Col q; q.name = "Num"; q.type = 1; t.cols.push_back(q); }
  return t;
}

Rec seq_rec(int seq, bool big) {
  Rec x;
  x.table = choose((uint32_t)g_tabs.size());
  x.seq = seq;
  x.v.push_back(Any(seq));
  Str s = gstr();
  if (big) s += Str(range(0, 9000), "abcdef"[choose(6)]);
  x.v.push_back(Any(s));
  if (g_tabs[x.table].cols.size() > 2) x.v.push_back(kTypes[1].gen());
  return x;
}

// what an independent reader finds in the file
void judge_file(const Str& path, const std::vector<int>& fate, const char* when) {
  sqlite3* db = 0;
  DST_CHECK(sqlite3_open_v2(path.c_str(), &db, SQLITE_OPEN_READWRITE, 0) == SQLITE_OK, "unreadable", "%s: the database cannot be opened", when);
  sqlite3_stmt* st = 0;
  DST_CHECK(sqlite3_prepare_v2(db, "PRAGMA integrity_check", -1, &st, 0) == SQLITE_OK && sqlite3_step(st) == SQLITE_ROW &&
            Str((const char*)sqlite3_column_text(st, 0)) == "ok", "corrupt", "%s: the database is corrupt", when);
  sqlite3_finalize(st);
  std::vector<int> seen(g_recs.size());
  for (size_t t = 0; t < g_tabs.size(); ++t) {
    Str q = "SELECT * FROM " + g_tabs[t].name;
    if (sqlite3_prepare_v2(db, q.c_str(), -1, &st, 0) != SQLITE_OK) { sqlite3_finalize(st); continue; }
    int last = -1;
    while (sqlite3_step(st) == SQLITE_ROW) {
      int s = sqlite3_column_int(st, 1);
      DST_CHECK(s >= 0 && s < (int)g_recs.size() && g_recs[s].table == (int)t, "foreign-row", "%s: table %s has a row that was never recorded", when, g_tabs[t].name.c_str());
      DST_CHECK(s > last, "row-order", "%s: table %s has record %d after %d", when, g_tabs[t].name.c_str(), s, last);
      last = s;
      seen[s]++;
      Rec& x = g_recs[s];
      Str p = x.v[1].cast<Str>();
      DST_CHECK(p == Str((const char*)sqlite3_column_text(st, 2), sqlite3_column_bytes(st, 2)), "row-value", "%s: record %d was altered", when, s);
      if (x.v.size() > 2) DST_CHECK(x.v[2].cast<double>() == sqlite3_column_double(st, 3), "row-value", "%s: record %d was altered", when, s);
    }
    sqlite3_finalize(st);
  }
  sqlite3_close(db);
  for (size_t s = 0; s < g_recs.size(); ++s) {
    int f = s < fate.size() ? fate[s] : 0;
    DST_CHECK(seen[s] <= 1, "duplicate-row", "%s: record %zu is there %d times", when, s, seen[s]);
    if (f == 1) DST_CHECK(seen[s] == 1, "lost-row", "%s: record %zu was accepted but is not in the file", when, s);
    else if (f == 2) DST_CHECK(seen[s] == 0, "partial-batch", "%s: record %zu is in the file although its batch was refused", when, s);
    else DST_CHECK(seen[s] == 0, "early-row", "%s: record %zu is in the file before it was delivered", when, s);
  }
}

bool g_calm;
Str g_path;
void arm_sqlite(Fwd*) {
  disk::disarm();
  disk::fired = 0;
  if (g_calm || !chance(1, 3)) return;
  static const int kinds[] = {disk::kWriteEio, disk::kFull, disk::kShort, disk::kBusy, disk::kReadEio};
  int k = kinds[choose(5)];
  long n = choose(6);
  disk::arm(k, n, false, fsize(g_path) + 4096 * (long)choose(3));
  note("  armed disk fault %d after %ld calls", k, n);
}

void run_p12() {
  disk::disarm();
  Str dir = scratch();
  snprintf(disk::prefix, sizeof disk::prefix, "%s/", dir.c_str());
  g_path = dir + "/out.sqlite";
  g_tabs.clear(); g_recs.clear();
  g_tabs.push_back(seq_table("Alpha", false));
  g_tabs.push_back(seq_table("Beta", true));
  if (chance(1, 2)) g_tabs.push_back(seq_table("Gamma", chance(1, 2)));
  bool big = chance(1, 2);
  g_calm = chance(1, 6);
  int nops = range(4, 36), copies = 0;
  SqliteBack* b = new SqliteBack(g_path);
  Fwd* f = new Fwd(b);
  f->before = arm_sqlite;
  Recorder* r = new Recorder((unsigned)range(1, 6));
  r->RegisterBackend(f);
  std::vector<int> fate;
  bool bad = false;  // a malformed record is buffered
  for (int op = 0; op < nops; ++op) {
    if (op == nops - 4) g_calm = true;  // faults stop: everything must work from here on
    int what = choose(16);
    bool calm = g_calm;
    int before = f->errors;
    try {
      if (what < 11 || op >= nops - 3) {
        Rec x = seq_rec((int)g_recs.size(), big);
        x.sim = r->sim_id(); x.inj = true;
        g_recs.push_back(x);
        note("record %d in %s (%zu bytes)", x.seq, g_tabs[x.table].name.c_str(), x.v[1].cast<Str>().size());
        if (!g_calm && chance(1, 24)) {
          fault("malformed-record");
          note("  its payload is of a type the database does not know");
          x.v[1] = Any((long)5);
          bad = true;
        }
        put(r, g_tabs[x.table], x);
      } else if (what < 13) {
        note("flush");
        r->Flush();
      } else if (what == 13) {
        note("a reader looks at the file");
        judge_file(g_path, f->fate, "a concurrent reader");
      } else if (what == 14) {
        // the process dies here: what it wrote so far survives, nothing else
        Str c = dir + "/crash" + std::to_string(copies++) + ".sqlite";
        note("crash and restart");
        bad = false;
        fault("process-crash");
        copy_file(g_path, c);
        copy_file(g_path + "-journal", c + "-journal");
        copy_file(g_path + "-wal", c + "-wal");
        judge_file(c, f->fate, "after a crash");
        // go on with the surviving file in a new process: old objects are gone
        for (Rec& x : g_recs) if (x.seq >= (int)f->fate.size() || f->fate[x.seq] == 0) { if ((int)f->fate.size() <= x.seq) f->fate.resize(x.seq + 1); f->fate[x.seq] = 2; }
        g_path = c;
        b = new SqliteBack(g_path);
        f->b = b;
        r = new Recorder((unsigned)range(1, 6));
        r->RegisterBackend(f);
      } else {
        note("close and reopen");
        int e0 = f->errors;
        try { r->Close(); } catch (...) { if (f->errors == e0) throw; delete r; r = 0; }
        bad = false;
        int open0 = disk::nopen();
        delete b;
        DST_CHECK(disk::nopen() == 0 || copies, "file-left-open", "%d file handles stay open after the database is closed (%d before)", disk::nopen(), open0);
        if (r) delete r;
        judge_file(g_path, f->fate, "after closing");
        b = new SqliteBack(g_path);
        f->b = b;
        r = new Recorder((unsigned)range(1, 6));
        r->RegisterBackend(f);
        calm = g_calm;
      }
    } catch (std::exception& e) {
      DST_CHECK(f->errors > before, "spurious-error", "an error without a refused batch: %s", e.what());
      DST_CHECK(!calm || bad, "no-recovery", "the disk works again but a batch is still refused: %s", e.what());
      note("  -> reported: %s", Str(e.what()).substr(0, 60).c_str());
      bad = false;
    }
    int acc = 0, ref = 0;
    for (int x : f->fate) { acc += x == 1; ref += x == 2; }
    state(mix(mix(acc, ref), fsize(g_path) / 4096));
    steps();
  }
  disk::disarm();
  note("end of the run");
  try { r->Close(); } catch (std::exception& e) { if (!bad) fail("no-recovery", "the disk works again but closing fails: %s", e.what()); }
  delete b;
  if (!copies) DST_CHECK(disk::nopen() == 0, "file-left-open", "%d file handles stay open after the database is closed", disk::nopen());
  judge_file(g_path, f->fate, "at the end");
  {
    SqliteBack q(g_path);
    for (size_t t = 0; t < g_tabs.size(); ++t) {
      std::vector<int> w;
      for (Rec& x : g_recs) if (x.table == (int)t && x.seq < (int)f->fate.size() && f->fate[x.seq] == 1) w.push_back(x.seq);
      if (w.empty()) continue;
      QueryResult qr = q.Query(g_tabs[t].name, NULL);
      DST_CHECK(qr.rows.size() == w.size(), "lost-row", "a query finds %zu of %zu rows of %s", qr.rows.size(), w.size(), g_tabs[t].name.c_str());
      for (size_t i = 0; i < w.size(); ++i) {
        DST_CHECK(qr.GetVal<int>("Seq", (int)i) == w[i], "row-order", "a query of %s finds record %d at row %zu, expected %d", g_tabs[t].name.c_str(), qr.GetVal<int>("Seq", (int)i), i, w[i]);
        DST_CHECK(qr.GetVal<Str>("Payload", (int)i) == g_recs[w[i]].v[1].cast<Str>(), "row-value", "record %d is read back altered", w[i]);
      }
    }
  }
  if (g_recs.size() > 3) nontrivial();
}
DST_WORLD(P12, run_p12);

// ---- P13: what is written is what is read ----------------------------------
bool cmp(const TypeOps& ty, const Any& a, const char* op, const Any& b) {
  Any& x = const_cast<Any&>(a); Any& y = const_cast<Any&>(b);
  int c;
#define CMP(T) { T p = x.cast<T>(), q = y.cast<T>(); c = p < q ? -1 : q < p ? 1 : 0; }
  switch (ty.sql) {
    case INT: CMP(int); break;
    case DOUBLE: CMP(double); break;
    case FLOAT: CMP(float); break;
    case BOOL: CMP(bool); break;
    default: CMP(Str);
  }
  Str o = op;
  return o == "<" ? c < 0 : o == ">" ? c > 0 : o == "<=" ? c <= 0 : o == ">=" ? c >= 0 : o == "==" ? c == 0 : c != 0;
}

FullBackend* open_db(bool h5, const Str& p) { return h5 ? (FullBackend*)new Hdf5Back(p) : (FullBackend*)new SqliteBack(p); }

void run_p13() {
  disk::disarm();
  disk::prefix[0] = 0;
  bool h5 = chance(2, 5);
  g_nul = !h5;
  Str path = Str(scratch()) + (h5 ? "/x.h5" : "/x.sqlite");
  std::vector<Table> ts = gen_tables(5, kNTypes, h5);
  std::vector<Rec> all;
  FullBackend* b = open_db(h5, path);
  int nsim = range(1, 2);
  note("%s, %zu tables, %d simulations", h5 ? "HDF5" : "SQLite", ts.size(), nsim);
  for (Table& t : ts) { Str s = t.name + ":"; for (Col& c : t.cols) s += Str(" ") + kTypes[c.type].name + (c.shape.empty() ? "" : "[" + std::to_string(c.shape[0]) + "]"); note("%s", s.c_str()); }
  auto check = [&](const char* when) {
    std::set<Str> have;
    for (Rec& x : all) have.insert(ts[x.table].name);
    std::set<Str> got = b->Tables();
    DST_CHECK(got == have, "table-list", "%s: %zu tables listed, expected %zu", when, got.size(), have.size());
    for (size_t t = 0; t < ts.size(); ++t) {
      if (!have.count(ts[t].name)) {
        bool threw = false;
        try { b->Query(ts[t].name, NULL); } catch (Error&) { threw = true; }
        DST_CHECK(threw, "phantom-table", "%s: querying the missing table %s does not fail", when, ts[t].name.c_str());
        continue;
      }
      int nq = range(1, 3);
      for (int q = 0; q < nq; ++q) {
        std::vector<Cond> cs;
        Str desc;
        std::vector<std::pair<int, std::pair<Str, Any> > > model;  // column (-1: SimId), op, value
        int nc = q == 0 ? 0 : choose(3);
        boost::uuids::uuid su;
        for (int k = 0; k < nc; ++k) {
          std::vector<int> ord;
          for (size_t c = 0; c < ts[t].cols.size(); ++c) if (kTypes[ts[t].cols[c].type].ordered) ord.push_back((int)c);
          if (ord.empty() || chance(1, 4)) {
            su = sim_uuid((uint8_t)range(1, 3));
            cs.push_back(Cond("SimId", "==", su));
            model.push_back(std::make_pair(-1, std::make_pair(Str("=="), Any(su))));
          } else {
            static const char* ops[] = {"==", "!=", "<", ">", "<=", ">="};
            int c = ord[choose((uint32_t)ord.size())];
            const char* op = ops[choose(6)];
            Any v = fit(ts[t].cols[c], kTypes[ts[t].cols[c].type].gen());
            if (chance(2, 3) && !all.empty()) { const Rec& x = all[choose((uint32_t)all.size())]; if (x.table == (int)t) v = x.v[c]; }
            cs.push_back(Cond(ts[t].cols[c].name, op, v));
            model.push_back(std::make_pair(c, std::make_pair(Str(op), v)));
            desc += ts[t].cols[c].name + op + kTypes[ts[t].cols[c].type].str(v) + " ";
          }
        }
        QueryResult r;
        std::vector<Cond> inj;
        bool wrap = chance(1, 4);
        if (wrap && !cs.empty()) { inj.push_back(cs.back()); cs.pop_back(); CondInjector ci(b, inj); r = ci.Query(ts[t].name, cs.empty() && chance(1, 2) ? NULL : &cs); }
        else if (chance(1, 4)) { PrefixInjector pi(b, ts[t].name.substr(0, 2)); r = pi.Query(ts[t].name.substr(2), cs.empty() ? NULL : &cs); }
        else r = b->Query(ts[t].name, cs.empty() && chance(2, 3) ? NULL : &cs);
        std::vector<const Rec*> w;
        for (Rec& x : all) {
          if (x.table != (int)t) continue;
          bool ok = true;
          for (auto& m : model) {
            if (m.first < 0) ok &= uuid_eq(m.second.second, x.sim);
            else ok &= cmp(kTypes[ts[t].cols[m.first].type], x.v[m.first], m.second.first.c_str(), m.second.second);
          }
          if (ok) w.push_back(&x);
        }
        DST_CHECK(r.fields.size() == ts[t].cols.size() + 1 && r.fields[0] == "SimId", "columns", "%s: %s has %zu columns, expected %zu", when, ts[t].name.c_str(), r.fields.size(), ts[t].cols.size() + 1);
        for (size_t c = 0; c < ts[t].cols.size(); ++c) {
          DST_CHECK(r.fields[c + 1] == ts[t].cols[c].name, "columns", "%s: column %zu of %s is %s, expected %s", when, c, ts[t].name.c_str(), r.fields[c + 1].c_str(), ts[t].cols[c].name.c_str());
        }
        DST_CHECK(r.rows.size() == w.size(), "row-count", "%s: query of %s where %s gives %zu rows, expected %zu", when, ts[t].name.c_str(), desc.c_str(), r.rows.size(), w.size());
        for (size_t i = 0; i < w.size(); ++i) {
          DST_CHECK(uuid_eq(r.rows[i][0], w[i]->sim), "sim-id", "%s: row %zu of %s has another simulation's id", when, i, ts[t].name.c_str());
          for (size_t c = 0; c < ts[t].cols.size(); ++c) {
            const TypeOps& ty = kTypes[ts[t].cols[c].type];
            DST_CHECK(ty.eq(r.rows[i][c + 1], w[i]->v[c]), "value", "%s: %s row %zu column %s (%s%s) is read as %s, written as %s", when, h5 ? "HDF5" : "SQLite", i, ts[t].cols[c].name.c_str(), ty.name,
                      ts[t].cols[c].shape.empty() ? "" : ", fixed length", ty.str(r.rows[i][c + 1]).c_str(), ty.str(w[i]->v[c]).c_str());
          }
        }
        stat("queries");
      }
      std::map<Str, DbTypes> ct = b->ColumnTypes(ts[t].name);
      std::list<ColumnInfo> sc = b->Schema(ts[t].name);
      DST_CHECK(ct.size() == ts[t].cols.size() + 1 && sc.size() == ct.size(), "schema", "%s: %s has %zu column types and %zu schema entries", when, ts[t].name.c_str(), ct.size(), sc.size());
      std::list<ColumnInfo>::iterator it = sc.begin();
      DST_CHECK(it->col == "SimId" && it->dbtype == UUID, "schema", "%s: the first column of %s is not the simulation id", when, ts[t].name.c_str());
      ++it;
      for (size_t c = 0; c < ts[t].cols.size(); ++c, ++it) {
        const TypeOps& ty = kTypes[ts[t].cols[c].type];
        DbTypes e = h5 && ts[t].cols[c].shape.empty() ? ty.h5 : ty.sql;
        DST_CHECK(it->col == ts[t].cols[c].name && it->index == (int)c + 1 && it->table == ts[t].name, "schema", "%s: schema entry %zu of %s is %s", when, c, ts[t].name.c_str(), it->col.c_str());
        DST_CHECK(it->dbtype == e && ct[it->col] == e, "schema", "%s: column %s of %s has type %d/%d, expected %d", when, it->col.c_str(), ts[t].name.c_str(), (int)it->dbtype, (int)ct[it->col], (int)e);
      }
    }
  };
  for (int s = 1; s <= nsim; ++s) {
    Recorder r(sim_uuid((uint8_t)s));
    r.set_dump_count((unsigned)range(1, 9));
    r.RegisterBackend(b);
    int n = range(1, 14);
    for (int i = 0; i < n; ++i) {
      Rec x = gen_rec(ts, (int)all.size());
      x.sim = r.sim_id(); x.inj = true;
      all.push_back(x);
      Str d;
      for (size_t c = 0; c < x.v.size(); ++c) d += kTypes[ts[x.table].cols[c].type].str(x.v[c]) + " | ";
      note("sim %d: %s: %s", s, ts[x.table].name.c_str(), d.substr(0, 400).c_str());
      put(&r, ts[x.table], x);
      if (chance(1, 12)) { r.Flush(); note("query during the run"); check("during the run"); }
    }
    r.Close();
    if (chance(1, 2)) {
      note("close and reopen");
      fault("reopen");
      b->Close();
      delete b;
      b = open_db(h5, path);
    }
    check("after the simulation");
    steps(n);
    state(mix(all.size(), hstr(kTypes[ts[0].cols[0].type].name)));
  }
  b->Close();
  delete b;
  stat(h5 ? "hdf5 runs" : "sqlite runs");
  nontrivial();
}
DST_WORLD(P13, run_p13);

// ---- P14: HDF5 under faults -------------------------------------------------
void arm_h5(Fwd*) {}

void run_p14() {
  disk::disarm();
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  Str dir = scratch();
  g_path = dir + "/out.h5";
  g_nul = false;
  std::vector<Table> ts = gen_tables(3, 12, false);
  std::vector<Rec> all;
  Hdf5Back* b = new Hdf5Back(g_path);  // the file exists before the disk starts failing
  b->Flush();
  snprintf(disk::prefix, sizeof disk::prefix, "%s/", dir.c_str());
  for (int fd = 3; fd < 64; ++fd) {  // track the file already open
    char l[64], t[300];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, t, sizeof t - 1);
    if (n > 0) { t[n] = 0; disk::opened(t, fd); }
  }
  int errors = 0;
  Recorder* r = new Recorder((unsigned)range(1, 8));
  r->RegisterBackend(b);
  int n = range(2, 24), at = choose(n + 2), until = at + 1 + choose(n + 2);
  static const int kinds[] = {disk::kWriteEio, disk::kFull, disk::kShort, disk::kTruncEio};
  int kind = kinds[choose(4)];
  bool st = chance(1, 2);
  long cnt = choose(8), quota = 2048 * (long)choose(8);
  bool none = chance(1, 8);
  int fired = 0;
  for (int i = 0; i <= n; ++i) {
    if (i == at && !none) { disk::arm(kind, cnt, st, fsize(g_path) + quota); note("disk fault %d armed (after %ld calls, %s)", kind, cnt, st ? "persistent" : "once"); }
    if (i == until) { fired = disk::fired; disk::disarm(); note("disk works again"); }
    try {
      if (i < n) {
        Rec x = gen_rec(ts, i);
        x.sim = r->sim_id(); x.inj = true;
        all.push_back(x);
        note("record in %s", ts[x.table].name.c_str());
        put(r, ts[x.table], x);
        if (chance(1, 6)) { note("flush"); r->Flush(); }
      } else {
        note("close");
        r->Close();
      }
    } catch (Error& e) {
      ++errors;
      note("  -> reported: %s", Str(e.what()).substr(0, 50).c_str());
    }
    if (errors) break;
    steps();
  }
  if (!errors) {
    try { b->Close(); } catch (Error& e) { ++errors; note("closing reports: %s", Str(e.what()).substr(0, 50).c_str()); }
  }
  fired += disk::armed ? disk::fired : 0;
  disk::disarm();
  if (fired) stat("runs with a fired fault");
  if (errors) {
    DST_CHECK(fired, "spurious-error", "an error was reported although the disk never failed");
    stat("faults reported");
    // teardown after a reported failure must not bring the process down
    try { r->Close(); } catch (Error&) {}
    delete r;
    delete b;
    nontrivial();
    return;
  }
  delete r;
  delete b;
  Hdf5Back* q = 0;
  try {
    q = new Hdf5Back(g_path);
    for (size_t t = 0; t < ts.size(); ++t) {
      std::vector<const Rec*> w;
      for (Rec& x : all) if (x.table == (int)t) w.push_back(&x);
      if (w.empty()) continue;
      QueryResult qr = q->Query(ts[t].name, NULL);
      DST_CHECK(qr.rows.size() == w.size(), "silent-loss", "no failure was reported (%d disk faults) but %s has %zu rows of %zu", fired, ts[t].name.c_str(), qr.rows.size(), w.size());
      for (size_t i = 0; i < w.size(); ++i)
        for (size_t c = 0; c < ts[t].cols.size(); ++c) {
          const TypeOps& ty = kTypes[ts[t].cols[c].type];
          DST_CHECK(ty.eq(qr.rows[i][c + 1], w[i]->v[c]), "silent-loss", "no failure was reported (%d disk faults) but %s row %zu column %zu reads %s, written as %s", fired, ts[t].name.c_str(), i, c,
                    ty.str(qr.rows[i][c + 1]).c_str(), ty.str(w[i]->v[c]).c_str());
        }
    }
  } catch (std::exception& e) {
    fail("silent-loss", "no failure was reported (%d disk faults) but the file cannot be read: %s", fired, e.what());
  }
  nontrivial();
}
DST_WORLD(P14, run_p14);
DST_WORLD(P11, run_p11);

}  // namespace
