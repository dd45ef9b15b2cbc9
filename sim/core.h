// Deterministic simulation core: choice tape, event log, simulated clock,
// fault accounting.  Every random decision of a run is drawn from here.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <initializer_list>
#include <map>
#include <queue>
#include <string>
#include <vector>

namespace sim {

// A property violation found by an oracle.  cls is the violation class used by
// the minimiser (it must stay the same while shrinking).
struct Violation {
  std::string cls, msg;
};
// The run is not interesting / exceeds a bound: discarded, never a verdict.
struct Discard : Violation {};

constexpr uint32_t kMaxTape = 1u << 17;
constexpr uint32_t kMaxSpan = 1u << 15;

struct Span {
  uint32_t b, e;
};

// Lives in memory shared with the parent so that it survives a crash of the
// process under simulation.
struct SharedRun {
  uint64_t index;
  uint64_t seed;
  uint32_t ntape, nspan;
  int status; // 0 running, 1 finished, 2 violation, 3 discarded
  uint64_t hash;
  char cls[512];
  char msg[4096];
  uint64_t tape[kMaxTape];
  Span spans[kMaxSpan];
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

struct Event {
  uint64_t at, seq;
  std::function<void()> run;
};
struct EventLater {
  bool operator()(const Event &a, const Event &b) const {
    return a.at != b.at ? a.at > b.at : a.seq > b.seq;
  }
};

class Ctx {
public:
  // record mode: draws come from the PRNG.  replay mode: from the given tape.
  Ctx(SharedRun *shm, uint64_t seed);
  Ctx(SharedRun *shm, const std::vector<uint64_t> &tape);

  // uniform in [0,n); n==0: all 64 bits
  uint64_t draw(uint64_t n);
  // true with probability num/den; the simplest choice (0) is false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  // uniform in [lo,hi]
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
  // index drawn with the given weights
  int pick(std::initializer_list<int> w);
  template <class T> const T &one_of(const std::vector<T> &v) { return v[draw(v.size())]; }

  struct Scope {
    Ctx &c;
    uint32_t idx;
    Scope(Ctx &c);
    ~Scope();
  };

  // event log (part of the determinism hash)
  void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void hashv(uint64_t v) { hash_ = mix(hash_, v); }

  [[noreturn]] void fail(const std::string &cls, const char *fmt, ...)
      __attribute__((format(printf, 3, 4)));

  // accounting (shared over all runs)
  void fault(const char *kind, uint64_t n = 1) { count_("fault.", kind, n); ++nfaults; }
  void probe(const char *name, uint64_t n = 1) { count_("probe.", name, n); }
  void state(uint64_t h);      // an abstract state reached
  void interleave(uint64_t v) { ilv_ = mix(ilv_, v); } // schedule decision
  void nontrivial() { nontrivial_ = true; }

  // simulated time, in microseconds
  uint64_t now = 0;
  void after(uint64_t delay, std::function<void()> f) {
    queue_.push(Event{now + delay, ++seq_, std::move(f)});
  }
  bool step(); // run the next event; false when idle
  bool idle() const { return queue_.empty(); }

  bool keep_log = false;
  std::string log;
  uint64_t nfaults = 0;
  uint64_t hash() const { return hash_; }
  uint64_t ilv() const { return ilv_; }
  bool is_nontrivial() const { return nontrivial_; }
  uint64_t events = 0;

private:
  friend struct Scope;
  void count_(const char *pre, const char *kind, uint64_t n);
  SharedRun *shm_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  Rng rng_;
  uint64_t hash_ = 0x1234567, ilv_ = 7;
  bool nontrivial_ = false;
  uint64_t seq_ = 0;
  std::priority_queue<Event, std::vector<Event>, EventLater> queue_;
};

// ---- global statistics, in memory shared by all workers ----
struct Counter {
  char name[56];
  uint64_t n;
};
struct Stats {
  volatile int lock;
  uint64_t runs, discarded, nontrivial, simtime_us, events, faulty_runs, candidates, unreproducible;
  uint32_t ncounters;
  Counter counters[400];
  static constexpr uint64_t kBits = 1ull << 24;
  uint8_t states[kBits / 8];
  uint8_t ilv[kBits / 8];
  uint8_t runsh[kBits / 8];
};
extern Stats *g_stats;
bool bitmap_set(uint8_t *bm, uint64_t h);
uint64_t bitmap_count(const uint8_t *bm);

struct Prop {
  const char *id;
  const char *level;
  const char *rule;
  void (*run)(Ctx &);
  std::vector<std::string> real, stub, assumptions;
};
std::vector<Prop> &props();
struct Register {
  Register(Prop p) { props().push_back(std::move(p)); }
};

// hook run in each worker child before scenarios (sets up seams)
std::string hexstr(const void *p, size_t n, size_t max = 64);

} // namespace sim
