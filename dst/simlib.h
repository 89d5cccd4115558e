// Shared pieces of the simulated worlds: an in-memory recording backend with
// fault injection, typed row access, and small numeric helpers.
#ifndef DST_SIMLIB_H_
#define DST_SIMLIB_H_
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <boost/uuid/uuid_io.hpp>
#include <boost/uuid/uuid_generators.hpp>

#include "cyclus.h"
#include "timer.h"
#include "sim_init.h"
#include "sqlite_back.h"
#include "pyne.h"
#include "dst.h"

namespace dst {

typedef boost::spirit::hold_any Any;

struct Row {
  std::string title;
  std::vector<std::string> f;
  std::vector<Any> v;
  int idx(const char* name) const {
    for (size_t i = 0; i < f.size(); ++i) if (f[i] == name) return (int)i;
    return -1;
  }
  bool has(const char* name) const { return idx(name) >= 0; }
  template <class T> T get(const char* name) const {
    int i = idx(name);
    if (i < 0) fail("missing-column", "table %s has a row without column %s", title.c_str(), name);
    try {
      return v[i].cast<T>();
    } catch (...) {
      fail("column-type", "table %s column %s has an unexpected type", title.c_str(), name);
    }
  }
  int i(const char* n) const { return get<int>(n); }
  double d(const char* n) const { return get<double>(n); }
  bool b(const char* n) const { return get<bool>(n); }
  std::string s(const char* n) const { return get<std::string>(n); }
};

// Records everything it is given, in order.
class MemBackend : public cyclus::RecBackend {
 public:
  std::vector<Row> rows;
  std::map<std::string, std::vector<size_t> > tab;
  int notifies, flushes;
  MemBackend() : notifies(0), flushes(0) {}
  virtual void Notify(cyclus::DatumList data) {
    ++notifies;
    for (size_t i = 0; i < data.size(); ++i) {
      Row r;
      r.title = data[i]->title();
      r.f = data[i]->fields();
      const cyclus::Datum::Vals& vs = data[i]->vals();
      for (size_t j = 0; j < vs.size(); ++j) r.v.push_back(vs[j].second);
      tab[r.title].push_back(rows.size());
      rows.push_back(r);
    }
  }
  virtual std::string Name() { return "mem"; }
  virtual void Flush() { ++flushes; }
  virtual void Close() {}
  std::vector<const Row*> table(const std::string& t) const {
    std::vector<const Row*> out;
    std::map<std::string, std::vector<size_t> >::const_iterator it = tab.find(t);
    if (it != tab.end())
      for (size_t i = 0; i < it->second.size(); ++i) out.push_back(&rows[it->second[i]]);
    return out;
  }
};

// a database whose k-th write or read fails
class FaultyDb : public cyclus::FullBackend {
 public:
  cyclus::FullBackend* d;
  long wfail, rfail, w, r;
  bool fired;
  FaultyDb(cyclus::FullBackend* b) : d(b), wfail(-1), rfail(-1), w(0), r(0), fired(false) {}
  virtual void Notify(cyclus::DatumList l) {
    if (w++ == wfail) { fired = true; fault("db-write-error"); throw cyclus::IOError("simulated write error"); }
    d->Notify(l);
  }
  virtual std::string Name() { return "faulty"; }
  virtual void Flush() { d->Flush(); }
  virtual void Close() {}
  virtual cyclus::QueryResult Query(std::string t, std::vector<cyclus::Cond>* c) {
    // an absent table is not an error of the database
    if (d->Tables().count(t) && r++ == rfail) { fired = true; fault("db-read-error"); throw cyclus::IOError("simulated read error of " + t); }
    return d->Query(t, c);
  }
  virtual std::map<std::string, cyclus::DbTypes> ColumnTypes(std::string t) { return d->ColumnTypes(t); }
  virtual std::list<cyclus::ColumnInfo> Schema(std::string t) { return ((cyclus::QueryableBackend*)d)->Schema(t); }
  virtual std::set<std::string> Tables() { return d->Tables(); }
};

inline bool near(double a, double b, double tol = 1e-6) {
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
  return fabs(a - b) <= tol * (m > 1 ? m : 1);
}

// Atomic masses of the nuclides the worlds use; the nuclear data file is not
// part of the repository.
inline void stub_atomic_masses() {
  pyne::atomic_mass_map[10010000] = 1.00782503223;
  pyne::atomic_mass_map[922350000] = 235.043930131;
  pyne::atomic_mass_map[922380000] = 238.050788423;
  pyne::atomic_mass_map[942390000] = 239.052163591;
}

// deterministic simulation id (never the system's entropy)
inline boost::uuids::uuid sim_uuid(uint8_t k = 1) {
  boost::uuids::uuid u;
  for (int i = 0; i < 16; ++i) u.data[i] = (uint8_t)(k * 17 + i);
  return u;
}

}  // namespace dst
#endif
