#include "core.h"
#include <cstdio>
#include <cstring>

namespace sim {
Stats *g_stats = nullptr;

std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}

Ctx::Ctx(SharedRun *shm, uint64_t seed) : shm_(shm), replay_(false), rng_(seed) {
  shm_->ntape = shm_->nspan = 0;
}
Ctx::Ctx(SharedRun *shm, const std::vector<uint64_t> &tape)
    : shm_(shm), replay_(true), in_(tape), rng_(0) {
  shm_->ntape = shm_->nspan = 0;
}

uint64_t Ctx::draw(uint64_t n) {
  uint64_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    ++pos_;
  } else {
    v = rng_.next();
  }
  if (n) v %= n;
  if (shm_->ntape >= kMaxTape) throw Discard();
  shm_->tape[shm_->ntape++] = v;
  return v;
}

int Ctx::pick(std::initializer_list<int> w) {
  int tot = 0;
  for (int x : w) tot += x;
  int64_t r = (int64_t)draw(tot);
  int i = 0;
  for (int x : w) {
    if (r < x) return i;
    r -= x;
    ++i;
  }
  return 0;
}

Ctx::Scope::Scope(Ctx &c) : c(c) {
  idx = kMaxSpan;
  if (c.shm_->nspan < kMaxSpan) {
    idx = c.shm_->nspan++;
    c.shm_->spans[idx] = Span{c.shm_->ntape, c.shm_->ntape};
  }
}
Ctx::Scope::~Scope() {
  if (idx < kMaxSpan) c.shm_->spans[idx].e = c.shm_->ntape;
}

void Ctx::ev(const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  hash_ = mix(hash_, hash_bytes(buf, n));
  if (keep_log) {
    char pre[40];
    snprintf(pre, sizeof pre, "[%8llu us] ", (unsigned long long)now);
    log += pre;
    log.append(buf, n);
    log += '\n';
  }
  ++events;
}

void Ctx::fail(const std::string &cls, const char *fmt, ...) {
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  ev("VIOLATION %s: %s", cls.c_str(), buf);
  throw Violation{cls, buf};
}

static void lock() {
  while (__sync_lock_test_and_set(&g_stats->lock, 1)) {}
}
static void unlock() { __sync_lock_release(&g_stats->lock); }

void Ctx::count_(const char *pre, const char *kind, uint64_t n) {
  if (!g_stats) return;
  char name[56];
  snprintf(name, sizeof name, "%s%s", pre, kind);
  uint32_t k = g_stats->ncounters;
  for (uint32_t i = 0; i < k; ++i)
    if (!strcmp(g_stats->counters[i].name, name)) {
      __sync_fetch_and_add(&g_stats->counters[i].n, n);
      return;
    }
  lock();
  k = g_stats->ncounters;
  uint32_t i = 0;
  for (; i < k; ++i)
    if (!strcmp(g_stats->counters[i].name, name)) break;
  if (i == k && k < 400) {
    strcpy(g_stats->counters[k].name, name);
    __sync_synchronize();
    g_stats->ncounters = k + 1;
  }
  if (i < 400) __sync_fetch_and_add(&g_stats->counters[i].n, n);
  unlock();
}

bool bitmap_set(uint8_t *bm, uint64_t h) {
  h = mix(0x51ed, h) & (Stats::kBits - 1);
  uint8_t m = 1u << (h & 7);
  return (__sync_fetch_and_or(&bm[h >> 3], m) & m) == 0;
}
uint64_t bitmap_count(const uint8_t *bm) {
  uint64_t c = 0;
  for (size_t i = 0; i < Stats::kBits / 8; ++i) c += __builtin_popcount(bm[i]);
  return c;
}

void Ctx::state(uint64_t h) {
  if (g_stats) bitmap_set(g_stats->states, h);
}

bool Ctx::step() {
  if (queue_.empty()) return false;
  Event e = queue_.top();
  queue_.pop();
  now = e.at;
  interleave(e.seq);
  e.run();
  return true;
}

std::string hexstr(const void *p, size_t n, size_t max) {
  const unsigned char *c = (const unsigned char *)p;
  std::string s;
  char b[4];
  for (size_t i = 0; i < n && i < max; ++i) {
    snprintf(b, sizeof b, "%02x", c[i]);
    s += b;
  }
  if (n > max) s += "...";
  return s;
}
} // namespace sim
