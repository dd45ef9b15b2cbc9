#include "seams.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
void __real_free(void *);
}

namespace sim {
bool AllocSeam::armed = false;
int64_t AllocSeam::countdown = 0;
uint64_t AllocSeam::failures = 0;
bool AllocSeam::sticky = false;
size_t AllocSeam::limit = 1u << 28;
uint64_t AllocSeam::seen = 0;
bool AllocSeam::tracking = false;

static constexpr size_t kSlots = 1u << 16;
struct Slot { void *p; size_t n; };
static Slot *slots = nullptr;
static size_t live = 0, live_bytes = 0;
static void *const TOMB = (void *)1;

void AllocSeam::track_begin() {
  if (!slots)
    slots = (Slot *)mmap(nullptr, kSlots * sizeof(Slot), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(slots, 0, kSlots * sizeof(Slot));
  live = live_bytes = 0;
  tracking = true;
}
size_t AllocSeam::track_end(size_t *bytes) {
  tracking = false;
  if (bytes) *bytes = live_bytes;
  return live;
}
static size_t hp(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static void t_add(void *p, size_t n) {
  if (!AllocSeam::tracking || !p || live > kSlots / 2) return;
  size_t i = hp(p) & (kSlots - 1);
  while (slots[i].p && slots[i].p != TOMB) i = (i + 1) & (kSlots - 1);
  slots[i] = {p, n};
  ++live; live_bytes += n;
}
static void t_del(void *p) {
  if (!slots || !p || !live) return;
  size_t i = hp(p) & (kSlots - 1);
  for (size_t k = 0; slots[i].p && k < kSlots; ++k) {
    if (slots[i].p == p) { slots[i].p = TOMB; --live; live_bytes -= slots[i].n; return; }
    i = (i + 1) & (kSlots - 1);
  }
}
static bool inject(size_t n) {
  if (AllocSeam::limit && n > AllocSeam::limit) return true;
  if (!AllocSeam::armed) return false;
  ++AllocSeam::seen;
  if (AllocSeam::countdown > 0 && --AllocSeam::countdown == 0) {
    ++AllocSeam::failures;
    if (AllocSeam::sticky) AllocSeam::countdown = 1;
    return true;
  }
  return false;
}
} // namespace sim
using namespace sim;

extern "C" {
void *__wrap_malloc(size_t n) {
  if (inject(n)) return nullptr;
  void *p = __real_malloc(n);
  t_add(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (inject(a * b)) return nullptr;
  void *p = __real_calloc(a, b);
  t_add(p, a * b);
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (inject(n)) return nullptr;
  t_del(q);
  void *p = __real_realloc(q, n);
  t_add(p, n);
  return p;
}
void __wrap_free(void *p) { t_del(p); __real_free(p); }
}

// the XML parser of the system is not part of the code under test
extern "C" int __real__ZN8tinyxml211XMLDocument5ParseEPKcm(void *self, const char *xml, size_t n);
extern "C" int __wrap__ZN8tinyxml211XMLDocument5ParseEPKcm(void *self, const char *xml, size_t n) {
  bool a = AllocSeam::armed;
  AllocSeam::armed = false;
  int r = __real__ZN8tinyxml211XMLDocument5ParseEPKcm(self, xml, n);
  AllocSeam::armed = a;
  return r;
}

static void *op_new(size_t n) {
  if (inject(n)) throw std::bad_alloc();
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  t_add(p, n);
  return p;
}
void *operator new(size_t n) { return op_new(n); }
void *operator new[](size_t n) { return op_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return op_new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return op_new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { t_del(p); __real_free(p); }
void operator delete[](void *p) noexcept { t_del(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { t_del(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { t_del(p); __real_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { t_del(p); __real_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { t_del(p); __real_free(p); }
