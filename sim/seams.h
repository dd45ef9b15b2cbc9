// Allocation seams: global operator new/delete and (via -Wl,--wrap) malloc,
// realloc, calloc, free as called from the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct AllocSeam {
  // while armed: the countdown-th allocation (1 = next) fails
  static bool armed;
  static int64_t countdown;
  static uint64_t failures;
  static bool sticky;      // keep failing after the first
  static size_t limit;     // single allocations larger than this fail (0=off)
  static uint64_t seen;    // allocations seen while armed
  // leak tracking
  static void track_begin();
  static size_t track_end(size_t *bytes); // number of live tracked blocks
  static bool tracking;
};
struct ArmAlloc {
  ArmAlloc(int64_t n, bool sticky = false) {
    AllocSeam::countdown = n;
    AllocSeam::sticky = sticky;
    AllocSeam::failures = 0;
    AllocSeam::seen = 0;
    AllocSeam::armed = true;
  }
  ~ArmAlloc() { AllocSeam::armed = false; AllocSeam::sticky = false; }
};
// harness code that runs inside an armed call (callbacks)
struct Disarm {
  bool a, t;
  Disarm() : a(AllocSeam::armed), t(AllocSeam::tracking) { AllocSeam::armed = false; AllocSeam::tracking = false; }
  ~Disarm() { AllocSeam::armed = a; AllocSeam::tracking = t; }
};
}
