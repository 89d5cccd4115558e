// Deterministic-simulation core: every decision of a run (schedule, input,
// fault) is drawn through choose(); one seed is one run, one recorded choice
// list is one exact replay.
#ifndef DST_H_
#define DST_H_
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <string>
#include <vector>

namespace dst {

// ---- decisions ----------------------------------------------------------
uint32_t choose(uint32_t n);             // uniform in [0,n); 0 is "simplest"
bool chance(uint32_t num, uint32_t den); // true with probability num/den
int range(int lo, int hi);               // inclusive
template <class T> const T& pick(const std::vector<T>& v) {
  return v[choose((uint32_t)v.size())];
}
// ---- history ------------------------------------------------------------
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_bytes(const void* p, size_t n);      // folds into the trace hash only
// ---- measures -----------------------------------------------------------
void fault(const char* kind);                  // one injected fault fired
void stat(const char* name, uint64_t n = 1);   // any other counter
void steps(uint64_t n = 1);                    // simulated time covered
void state(uint64_t h);                        // a reached state (hash)
void nontrivial();                             // this run exercised the rule
uint64_t mix(uint64_t h, uint64_t v);
uint64_t hstr(const std::string& s);
uint64_t trace_hash();
// ---- verdicts -----------------------------------------------------------
// A failed check ends the run with a violation of the given kind.
[[noreturn]] void fail(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// Ends a run early without a verdict (the precondition was not met).
[[noreturn]] void discard(const char* why);
const char* property();                        // id the run is judged for
inline bool judging(const char* p) { return std::string(property()) == p; }
bool verbose();

#define DST_CHECK(cond, kind, ...) \
  do { if (!(cond)) ::dst::fail(kind, __VA_ARGS__); } while (0)

// ---- worlds -------------------------------------------------------------
struct World {
  const char* property;
  void (*run)();
  World* next;
  World(const char* p, void (*r)());
};
#define DST_WORLD(id, fn) static ::dst::World dst_world_##id(#id, fn)

// A private scratch directory of the run (created on first use, removed by
// the runner).
const char* scratch();

}  // namespace dst
#endif
