// C15 arena allocator, C16 memory of long sessions.
#include "prop_common.h"
#include "mfast/arena_allocator.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <map>

namespace sim {

namespace {
struct Block { size_t n; unsigned char seed; bool filled; };
struct ArenaModel {
  Ctx &c;
  std::map<char *, Block> live; // by address
  size_t bytes = 0;
  explicit ArenaModel(Ctx &c) : c(c) {}
  static unsigned char at(unsigned char seed, size_t i) { return (unsigned char)(seed + i * 7 + (i >> 8)); }
  void add(void *v, size_t n, const char *op) {
    char *p = (char *)v;
    if (!p) c.fail("arena:null", "%s(%zu) returned no memory and no error", op, n);
    if ((uintptr_t)p % sizeof(void *)) c.fail("arena:alignment", "%s(%zu) returned a block that is not aligned", op, n);
    if (!n) return; // nothing may be stored there
    auto it = live.lower_bound(p);
    if (it != live.end() && it->first < p + n) c.fail("arena:overlap", "%s(%zu) returned memory that is still in use (a block of %zu bytes, %ld bytes further)", op, n, it->second.n, (long)(it->first - p));
    if (it != live.begin()) {
      --it;
      if (it->first + it->second.n > p) c.fail("arena:overlap", "%s(%zu) returned memory that is still in use (a block of %zu bytes, %ld bytes before)", op, n, it->second.n, (long)(p - it->first));
    }
    Block b{n, (unsigned char)c.draw(256), true};
    for (size_t i = 0; i < n; ++i) p[i] = (char)at(b.seed, i); // ASan: is all of it ours?
    live[p] = b;
    bytes += n;
  }
  void check(char *p, const Block &b, size_t n, unsigned char seed, const char *when) {
    for (size_t i = 0; i < n; ++i)
      if ((unsigned char)p[i] != at(seed, i)) c.fail("arena:contents", "byte %zu of a block of %zu bytes changed (%s)", i, b.n, when);
  }
  void check_all(const char *when) { for (auto &b : live) check(b.first, b.second, b.second.n, b.second.seed, when); }
  void clear() { live.clear(); bytes = 0; }
};

size_t arena_size(Ctx &c) {
  switch (c.pick({6, 3, 2, 2, 1})) {
  case 0: return c.draw(65);
  case 1: return c.draw(600);
  case 2: return mfast::arena_allocator::chunk_user_size - 80 + c.draw(160);
  case 3: return mfast::arena_allocator::chunk_user_size * (1 + c.draw(3)) - 16 + c.draw(32);
  default: return c.draw(40000);
  }
}

// one allocation step; returns false when memory ran out
struct Step { int kind; size_t n, victim; };
bool arena_step(Ctx &c, arena_allocator &a, ArenaModel &m, const Step &s, int64_t failing) {
  void *p = nullptr;
  size_t got = s.n;
  char *old = nullptr;
  Block ob{0, 0, false};
  if (s.kind == 1 && !m.live.empty()) {
    auto it = m.live.begin();
    std::advance(it, s.victim % m.live.size());
    old = it->first;
    ob = it->second;
  }
  try {
    ArmAlloc arm(failing);
    if (s.kind == 0) p = a.allocate(s.n);
    else { p = old; got = a.reallocate(p, ob.n, s.n); }
  } catch (const std::bad_alloc &) {
    if (!AllocSeam::failures) c.fail("arena:exception", "bad_alloc although the system had memory");
    c.fault("malloc-failed");
    m.check_all("after an allocation failed");
    return false;
  }
  if (c.keep_log) c.ev("%s %zu -> %zu", s.kind ? "reallocate" : "allocate", s.n, got);
  if (got < s.n) c.fail("arena:size", "reallocate() to %zu bytes returned a block of %zu", s.n, got);
  if (s.kind == 1 && old) {
    m.check((char *)p, ob, std::min(ob.n, s.n), ob.seed, "moved by reallocate");
    if (p != old) { a.deallocate(old, ob.n); }
    m.live.erase(old);
    m.bytes -= ob.n;
  }
  m.add(p, got, s.kind ? "reallocate" : "allocate");
  return true;
}

void run_arena(Ctx &c) {
  std::unique_ptr<arena_allocator> a;
  {
    bool failed = false;
    if (c.chance(1, 10)) {
      try { ArmAlloc arm(1 + c.draw(2)); a.reset(new arena_allocator); } catch (const std::bad_alloc &) { failed = true; c.fault("malloc-failed"); }
      if (!failed && AllocSeam::failures) c.fail("arena:swallowed", "no error although memory ran out");
    }
    if (!a) a.reset(new arena_allocator);
  }
  ArenaModel m(c);
  if (c.chance(1, 2)) { // random operations
    int n = 5 + (int)c.draw(120);
    for (int i = 0; i < n; ++i) {
      Ctx::Scope sc(c);
      switch (c.pick({10, 4, 2, 2})) {
      case 0: arena_step(c, *a, m, {0, arena_size(c), 0}, c.chance(1, 8) ? 1 + c.draw(2) : 0); break;
      case 1: arena_step(c, *a, m, {1, arena_size(c), c.draw(1000)}, c.chance(1, 8) ? 1 + c.draw(2) : 0); break;
      case 2:
        if (m.live.empty()) break;
        {
          auto it = m.live.begin();
          std::advance(it, c.draw(m.live.size()));
          m.check(it->first, it->second, it->second.n, it->second.seed, "before it was returned");
          a->deallocate(it->first, it->second.n);
          m.live.erase(it);
        }
        break;
      default:
        m.check_all("before a reset");
        if (!a->reset()) c.fail("arena:reset", "reset() failed");
        m.clear();
        c.ev("reset");
        c.probe("arena.resets");
        if (i > 5) c.nontrivial();
      }
      c.state(mix(m.live.size(), m.bytes / 512));
    }
    m.check_all("at the end");
    return;
  }
  // the same cycle again and again: the memory it takes must stay bounded
  std::vector<Step> cycle;
  for (int i = 0, n = 1 + (int)c.draw(14); i < n; ++i) { Ctx::Scope sc(c); cycle.push_back({c.chance(1, 3), arena_size(c), c.draw(100)}); }
  const int kRounds = 240;
  size_t peak = 0, mark = 0;
  std::vector<size_t> foot;
  foot.reserve(kRounds);
  AllocSeam::track_begin();
  for (int r = 0; r < kRounds; ++r) {
    size_t demand = 0;
    for (auto &s : cycle) {
      size_t got = s.n;
      void *p = nullptr;
      static char dummy[1];
      (void)dummy;
      if (s.kind == 0) a->allocate(s.n);
      else got = a->reallocate(p, 0, s.n);
      demand += (got + 7) / 8 * 8;
    }
    peak = demand;
    a->reset();
    size_t b = 0;
    AllocSeam::track_end(&b);
    AllocSeam::tracking = true;
    foot.push_back(b);
    if (r == kRounds * 2 / 3) mark = b;
  }
  size_t b = 0;
  AllocSeam::track_end(&b);
  if (c.keep_log) for (auto &s : cycle) c.ev("cycle %s %zu", s.kind ? "reallocate" : "allocate", s.n);
  c.ev("cycle of %zu steps, demand %zu, held %zu bytes after %d rounds", cycle.size(), peak, b, kRounds);
  if (b > mark + 0) c.fail("arena:growth", "a cycle that needs %zu bytes and is reset each time holds %zu bytes after %d rounds, %zu after %d", peak, mark, kRounds * 2 / 3, b, kRounds);
  if (cycle.size() > 2) c.nontrivial();
  c.probe("arena.cycles");
}


// ---- life cycle of everything a process creates for a session ----
struct Life {
  Ctx &c;
  std::vector<std::shared_ptr<Doc>> docs; // run-time loaded, or
  const GenSet *set = nullptr;
  Schema plan;               // used while generating the traffic
  std::vector<Msg> block;    // starts with a reset
  std::vector<std::string> enc_bytes[2];   // what the encoders write when nothing fails
  std::vector<std::string> damaged; // what is lost on the way to decoders ("" = arrives)
  bool copies = false, json = false, alloc_arena = false;
  // allocation failures: the k-th of all allocations inside of the library
  int64_t fail_at = 0;
  bool sticky = false;
  int64_t used = 0;
  bool hit = false;
  std::map<std::string, std::vector<std::pair<int64_t, int64_t>>> where; // the allocations of every kind of operation, when nothing fails

  explicit Life(Ctx &c) : c(c) {}
  Schema load() {
    if (set) return gen_schema(*set);
    return load_schema(docs);
  }
  // runs library code under the failing allocator; false: it reported that memory ran out
  template <class F> bool lib(const char *what, F f) {
    int64_t at = fail_at > used ? fail_at - used : (fail_at && sticky && hit ? 0 : 0);
    bool ok = true, other = false;
    uint64_t seen, failures;
    std::string e;
    {
      ArmAlloc arm(at, sticky);
      try { f(); } catch (const Violation &) { throw; } catch (const std::bad_alloc &) { ok = false; } catch (...) { AllocSeam::armed = false; ok = false; other = true; e = describe_exception(); }
      AllocSeam::armed = false;
      seen = AllocSeam::seen;
      failures = AllocSeam::failures;
    }
    if (!fail_at && seen) where[what].push_back({used + 1, used + (int64_t)seen});
    used += (int64_t)seen;
    if (failures) hit = true;
    if (other) c.fail(std::string("oom:exception:") + e, "%s threw %s%s", what, e.c_str(), failures ? " when memory ran out" : "");
    if (!ok && !failures) c.fail("oom:spurious", "%s reported that memory ran out, which it had not", what);
    return ok;
  }
};

std::string silent_encode(Life &l, EncoderIf &e, const Msg &m, const message_cref &mc, bool reset, bool *ok) {
  std::vector<char> out;
  *ok = l.lib("encode", [&]() { e.encode(mc, out, reset); });
  return std::string(out.begin(), out.end());
}

bool make_life(Ctx &c, Life &l) {
  auto &gs = gen_sets();
  GenOpts o = profile(c);
  if (!gs.empty() && c.chance(1, 3)) {
    l.set = &gs[c.draw(gs.size())];
    c.ev("generated set %d", l.set->idx);
  } else {
    int n = c.chance(1, 5) ? 2 : 1;
    for (int i = 0; i < n; ++i) {
      o.id_base = 1 + 50000 * i;
      o.name_prefix = i ? "U" : "T";
      l.docs.push_back(std::make_shared<Doc>(gen_doc(c, o)));
      if (i) l.docs[i]->ns = l.docs[0]->ns;
      if (c.keep_log) c.log += l.docs[i]->xml();
    }
  }
  l.plan = l.load();
  RefEncoder ref(*l.plan.r, nullptr);
  ref.o.refuse_empty = true;
  Gens vg;
  int n = 1 + (int)c.draw(6);
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, l.plan, ref, vg, m, i == 0)) { if (!i) return false; continue; }
    log_msg(c, l.plan, m, m.bytes);
    l.block.push_back(m);
  }
  l.copies = c.chance(1, 2);
  return true;
}

// C16: the same traffic for a long time
size_t long_session(Ctx &c, Life &l, int rounds, std::vector<size_t> *foot) {
  size_t errors = 0;
  {
  Schema s = l.load();
  std::vector<std::unique_ptr<EncoderIf>> encs;
  encs.push_back(make_v1_encoder(s.desc));
  if (s.set) encs.push_back(s.set->enc2(std_alloc()));
  auto decs = pick_decoders(c, s, true);
  for (int r = 0; r < rounds; ++r) {
    {
    for (size_t i = 0; i < l.block.size(); ++i) {
      const Msg &m = l.block[i];
      message_type mt = build_message(s, m.gt, m.v);
      for (size_t k = 0; k < encs.size(); ++k) {
        auto &e = encs[k];
        std::vector<char> out;
        e->encode(mt.cref(), out, m.reset);
        if (!foot) l.enc_bytes[k].emplace_back(out.begin(), out.end());
        else if (std::string(out.begin(), out.end()) != l.enc_bytes[k][i]) c.fail("longrun:bytes", "%s writes other bytes in round %d than in the first", e->name.c_str(), r);
      }
      const std::string &b = l.damaged[i].empty() ? m.bytes : l.damaged[i];
      for (auto &d : decs) {
        Exact x(b);
        const char *q = x.p;
        try {
          message_cref g = d->decode(q, x.p + x.n, m.reset, (unsigned)(i % 3));
          if (l.copies) message_type cp(g, std_alloc());
        } catch (const std::exception &) { if (!documented_codec_exception()) throw; ++errors; }
      }
    }
    }
    if (foot) {
      size_t b = 0;
      AllocSeam::track_end(&b);
      AllocSeam::tracking = true;
      (*foot)[r] = b;
    }
  }
  }
  return errors;
}

void run_long(Ctx &c) {
  Life l(c);
  if (!make_life(c, l)) return;
  l.damaged.resize(l.block.size());
  bool unbounded = false; // a damaged length may then mean any number of elements
  for (auto d : l.plan.desc) for (auto t : *d) unbounded |= endless(t);
  for (size_t i = 1; i < l.block.size(); ++i)
    if (!unbounded && c.chance(1, 4)) {
      std::string b = l.block[i].bytes;
      if (c.chance(1, 2)) b.resize(1 + c.draw(b.size())), c.fault("truncated");
      else b[c.draw(b.size())] ^= char(1 << c.draw(8)), c.fault("bit-flipped");
      l.damaged[i] = b;
    }
  const int kRounds = 24;
  std::vector<size_t> foot(kRounds);
  long_session(c, l, 1, nullptr); // creates what is created once per process
  AllocSeam::track_begin();
  size_t errors = long_session(c, l, kRounds, &foot);
  size_t bytes = 0, n = AllocSeam::track_end(&bytes);
  c.ev("%zu messages, %d rounds, %zu errors, holds %zu bytes", l.block.size(), kRounds, errors, foot[kRounds - 1]);
  c.probe("longrun.messages", l.block.size() * kRounds);
  if (n) c.fail("longrun:leak", "%zu blocks (%zu bytes) are still allocated after everything was destroyed", n, bytes);
  if (foot[kRounds - 1] > foot[kRounds / 2]) c.fail("longrun:growth", "the same %zu messages again and again: %zu bytes held after round %d, %zu after round %d", l.block.size(), foot[kRounds / 2], kRounds / 2, foot[kRounds - 1], kRounds);
  c.nontrivial();
}

// C08: memory runs out anywhere
void session_with_oom(Ctx &c, Life &l) {
  l.used = 0;
  l.hit = false;
  Schema s;
  template_registry *reg = nullptr;
  std::unique_ptr<template_registry> regp;
  std::vector<std::unique_ptr<dynamic_templates_description>> dyn;
  if (l.set) s = gen_schema(*l.set);
  else {
    if (!l.lib("template_registry()", [&]() { regp.reset(new template_registry); }) ) regp.reset(new template_registry);
    reg = regp.get();
    std::vector<const Doc *> dp;
    for (size_t i = 0; i < l.docs.size(); ++i) {
      std::string x = l.docs[i]->xml(), ns = "dyn" + std::to_string(i);
      dyn.emplace_back();
      for (int k = 0; k < 2 && !dyn.back(); ++k)
        if (!l.lib("loading templates", [&]() { dyn.back().reset(new dynamic_templates_description(x.c_str(), ns.c_str(), reg)); }) && k) c.fail("oom:unusable", "templates cannot be loaded any more");
      if (!dyn.back()) c.fail("oom:unusable", "templates cannot be loaded any more");
      s.desc.push_back(dyn.back().get());
      dp.push_back(l.docs[i].get());
    }
    s.docs = l.docs;
    s.r.reset(new RDoc(dp));
  }
  std::unique_ptr<EncoderIf> encs[2];
  for (int k = 0; k < 2 && !encs[0]; ++k) l.lib("encoder", [&]() { encs[0] = make_v1_encoder(s.desc); });
  if (s.set) for (int k = 0; k < 2 && !encs[1]; ++k) l.lib("encoder", [&]() { encs[1] = s.set->enc2(std_alloc()); });
  std::vector<std::unique_ptr<DecoderIf>> decs(s.set ? 4 : 1);
  for (size_t i = 0; i < decs.size(); ++i) for (int k = 0; k < 2 && !decs[i]; ++k) l.lib("decoder", [&]() { decs[i] = i ? s.set->dec2(i == 3 ? 3 : i - 1, std_alloc()) : make_v1_decoder(s.desc); });
  for (auto &d : decs) if (!d) c.fail("oom:unusable", "no decoder can be created any more");
  if (!encs[0]) c.fail("oom:unusable", "no encoder can be created any more");
  std::map<int, std::unique_ptr<message_type>> kept; // messages the application uses again and again
  // traffic; whatever fails is repeated from the start of the block with a reset
  for (int pass = 0; pass < 3; ++pass) {
    bool failed = false;
    for (size_t i = 0; i < l.block.size() && !failed; ++i) {
      const Msg &m = l.block[i];
      std::unique_ptr<message_type> mt;
      for (int k = 0; k < 3 && !mt; ++k)
        if (!l.lib("building a message", [&]() {
              message_type x(std_alloc(), s.inst(m.gt));
              fill(x.mref(), s.fields(m.gt), m.v, s.doc_of(m.gt), s.inst_of(m.gt));
              AllocSeam::armed = false;
              mt.reset(new message_type(std::move(x)));
            })) mt.reset();
      if (!mt) c.fail("oom:unusable", "no message can be created any more");
      auto &k = kept[m.gt];
      if (!k) k.reset(new message_type(std_alloc(), s.inst(m.gt)));
      auto refill = [&]() { fill(k->mref(), s.fields(m.gt), m.v, s.doc_of(m.gt), s.inst_of(m.gt)); };
      if (!l.lib("writing to a message", refill)) {
        extract(k->cref(), s.fields(m.gt), s.doc_of(m.gt)); // whatever it holds can be read, copied
        message_type cp(k->cref(), std_alloc());
        std::string w;
        extract(cp.cref(), s.fields(m.gt), s.doc_of(m.gt));
        refill();
      }
      std::string w;
      if (!same(s.fields(m.gt), m.v, extract(k->cref(), s.fields(m.gt), s.doc_of(m.gt)), s.doc_of(m.gt), &w)) c.fail("oom:message", "the message that was written to holds something else at %s", w.c_str());
      const message_cref source = mt->cref();
      if (!l.lib("assigning a message", [&]() { k->mref().as(source); })) {
        extract(k->cref(), s.fields(m.gt), s.doc_of(m.gt));
        k->mref().as(source);
      }
      if (!same(s.fields(m.gt), m.v, extract(k->cref(), s.fields(m.gt), s.doc_of(m.gt)), s.doc_of(m.gt), &w)) c.fail("oom:message", "the message that was assigned to holds something else at %s", w.c_str());
      for (int k = 0; k < 2; ++k) {
        auto &e = encs[k];
        if (!e) continue;
        bool ok;
        std::string b = silent_encode(l, *e, m, mt->cref(), m.reset, &ok);
        if (!ok) { failed = true; continue; }
        if (!l.fail_at) l.enc_bytes[k].push_back(b);
        else if (b != l.enc_bytes[k][i]) c.fail("oom:bytes", "%s writes %s, otherwise %s", e->name.c_str(), hexstr(b.data(), b.size()).c_str(), hexstr(l.enc_bytes[k][i].data(), l.enc_bytes[k][i].size()).c_str());
      }
      if (failed) break;
      for (auto &d : decs) {
        Exact x(m.bytes);
        const char *q = x.p;
        std::unique_ptr<message_cref> gp;
        bool ok = l.lib("decode", [&]() { message_cref r = d->decode(q, x.p + x.n, m.reset, (unsigned)(i % 3)); AllocSeam::armed = false; gp.reset(new message_cref(r)); });
        if (!ok) { failed = true; break; }
        message_cref g(*gp);
        if (q != x.p + x.n) c.fail("oom:framing", "%s consumed %ld of %zu bytes", d->name.c_str(), (long)(q - x.p), x.n);
        expect_message(c, s, m, g, d->name, "oom", true);
        if (l.copies) {
          bool k = l.lib("copying a message", [&]() { message_type cp(g, std_alloc()); });
          expect_message(c, s, m, g, d->name + (k ? " (copied)" : " (copy failed)"), "oom", true);
        }
      }
    }
    if (!failed) return;
  }
  c.fail("oom:unusable", "the session does not recover after one failure");
}

void run_oom(Ctx &c) {
  Life l(c);
  if (!make_life(c, l)) return;
  session_with_oom(c, l);
  int64_t total = l.used;
  c.ev("%ld allocations inside of the library", (long)total);
  if (total < 1) return;
  int n = 1 + (int)c.draw(4);
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    l.fail_at = 1 + (int64_t)c.draw(total);
    if (!l.where.empty() && c.chance(3, 4)) { // all kinds of operations alike
      auto it = l.where.begin();
      std::advance(it, c.draw(l.where.size()));
      auto r = it->second[c.draw(it->second.size())];
      l.fail_at = r.first + (int64_t)c.draw(r.second - r.first + 1);
      c.probe(("oom.while " + it->first).c_str());
    }
    l.sticky = false;
    c.interleave(l.fail_at);
    c.ev("allocation %ld fails", (long)l.fail_at);
    AllocSeam::track_begin();
    session_with_oom(c, l);
    size_t bytes = 0, k = AllocSeam::track_end(&bytes);
    if (l.hit) { c.fault("allocation-failed"); c.nontrivial(); }
    if (k) c.fail("oom:leak", "%zu blocks (%zu bytes) are lost when allocation %ld fails", k, bytes, (long)l.fail_at);
  }
}

} // namespace

static Register r15(Prop{"C15", "exploration", "one run = up to 125 requests to an arena with failing system memory and resets, all blocks compared with a model, or one cycle of requests repeated 48 times; non-trivial when the arena was reset while blocks were live, or a cycle of at least 3 steps was repeated",
  run_arena, {"arena_allocator"}, {"system memory (fails on schedule)", "users of the arena (random requests)"}, {"blocks of 0 bytes may share addresses"}});

static Register r16(Prop{"C16", "exploration", "one run = the whole life of a session, with damaged and cut messages, in which one block of traffic is repeated 24 times; live allocations counted after every round and at the end; non-trivial whenever there was traffic", run_long, kCodecReal, {"network link", "application"}, kCodecAssume});
static Register r8(Prop{"C08", "exploration", "one run = the whole life of a session from loading templates to destruction, repeated with 1..4 allocations failing (any of those that the library makes); non-trivial when a failure was hit", run_oom, {"templates_builder", "template_registry", "fast_encoder", "fast_decoder", "fast_encoder_v2", "fast_decoder_v2", "dictionary_builder", "message containers"}, {"system memory (fails on schedule)", "network link", "application"}, {"the XML parser tinyxml2 itself is not made to fail"}});

} // namespace sim
