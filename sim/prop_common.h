// Helpers shared by the session properties.
#pragma once
#include "session.h"
#include "seams.h"
#include "mfast/malloc_allocator.h"
#include <cstring>
#include <functional>

namespace sim {
using namespace mfast;
typedef std::map<int, std::unique_ptr<ValGen>> Gens;

inline void expect_message(Ctx &c, const Schema &s, const Msg &m, const message_cref &got, const std::string &who, const char *cls, bool lenient) {
  unsigned want = s.r->t[m.gt].t->id;
  if (got.instruction()->id() != want) c.fail(std::string(cls) + ":template", "%s: template %u expected, got %u", who.c_str(), want, got.instruction()->id());
  std::vector<Val> g = extract(got, s.fields(m.gt), s.doc_of(m.gt));
  std::string w;
  if (!same(s.fields(m.gt), m.v, g, s.doc_of(m.gt), &w, lenient))
    c.fail(std::string(cls) + ":value", "%s: message of template %s differs at %s", who.c_str(), s.r->t[m.gt].t->name.c_str(), w.c_str());
}

// decodes one message out of a stream; the message must end exactly at its boundary
inline void decode_expect(Ctx &c, const Schema &s, DecoderIf &d, const Msg &m, const char *&p, const char *end, const char *bound, unsigned token, const char *cls, bool lenient) {
  const char *q = p;
  try {
    message_cref g = d.decode(q, end, m.reset, token);
    if (q != bound) c.fail(std::string(cls) + ":framing", "%s consumed %ld bytes of a %ld byte message", d.name.c_str(), (long)(q - p), (long)(bound - p));
    expect_message(c, s, m, g, d.name, cls, lenient);
  } catch (const Violation &) { throw;
  } catch (...) {
    std::string e = describe_exception();
    c.fail(std::string(cls) + ":exception:" + e, "%s threw %s on a legal message (%s)", d.name.c_str(), e.c_str(), hexstr(p, bound - p).c_str());
  }
  p = q;
}

inline std::string encode_expect(Ctx &c, const Schema &s, EncoderIf &e, const Msg &m, const char *cls) {
  message_type mt = build_message(s, m.gt, m.v);
  try {
    return encode_one(c, e, mt.cref(), m.reset);
  } catch (const Violation &) { throw;
  } catch (...) {
    std::string x = describe_exception();
    c.fail(std::string(cls) + ":encode-exception:" + x, "%s threw %s while encoding template %s", e.name.c_str(), x.c_str(), s.r->t[m.gt].t->name.c_str());
  }
}

inline void log_msg(Ctx &c, const Schema &s, const Msg &m, const std::string &bytes) {
  if (c.keep_log)
    c.ev("message %s%s %s -> %s", m.reset ? "reset " : "", s.r->t[m.gt].t->name.c_str(), show(s.fields(m.gt), m.v, s.doc_of(m.gt)).c_str(), hexstr(bytes.data(), bytes.size()).c_str());
  else
    c.hashv(hash_bytes(bytes.data(), bytes.size()));
}

inline GenOpts profile(Ctx &c) {
  GenOpts o;
  switch (c.pick({6, 2, 1, 1})) {
  case 1: o.heavy_share = true; break;
  case 2: o.many_bits = true; o.scalars_only = true; break;
  case 3: o.max_templates = 2; o.max_fields = 3; o.depth = 3; break;
  default: break;
  }
  o.sets = c.chance(1, 2);
  o.empties = c.chance(1, 4);
  return o;
}


// index of the template of a decoded message
inline int template_of(const Schema &s, const message_cref &m) {
  for (size_t k = 0; k < s.r->t.size(); ++k) if (s.r->t[k].t->id == m.instruction()->id()) return (int)k;
  return -1;
}

// an allocator whose calls are scheduling points
struct HookAlloc : allocator {
  std::function<void()> hook;
  bool inside = false;
  std::exception_ptr err;
  void point() {
    if (!hook || inside || err) return;
    inside = true;
    try { hook(); } catch (...) { err = std::current_exception(); }
    inside = false;
  }
  // what was found at a scheduling point must not travel through the library
  void check() { if (err) { auto e = err; err = nullptr; std::rethrow_exception(e); } }
  void *allocate(std::size_t n) override { point(); return malloc_allocator::instance()->allocate(n); }
  std::size_t reallocate(void *&p, std::size_t o, std::size_t n) override { point(); return malloc_allocator::instance()->reallocate(p, o, n); }
  void deallocate(void *p, std::size_t n) override { point(); malloc_allocator::instance()->deallocate(p, n); }
};

inline const std::vector<std::string> kCodecReal = {"fast_encoder", "fast_decoder", "fast_encoder_v2", "fast_decoder_v2", "fast_type_gen output", "dynamic_templates_description", "message containers"};
inline const std::vector<std::string> kCodecStub = {"network link", "application (random messages)", "clock"};
inline const std::vector<std::string> kCodecAssume = {"the reference model sim/refcodec.cpp states the FAST 1.1 rules", "values are encodable: ascii strings of characters 1..127, exponents in -63..63, deltas fit 64 bits"};
// elements that take no bytes may be repeated without end
inline bool takes_bytes(const mfast::group_field_instruction *g) {
  if (g->segment_pmap_size() > 0) return true;
  for (auto s : g->subinstructions()) {
    auto ft = s->field_type();
    if (ft == mfast::field_type_templateref) return true;
    if (ft == mfast::field_type_group) { if (s->optional() || takes_bytes(static_cast<const mfast::group_field_instruction *>(s))) return true; continue; }
    const mfast::field_instruction *x = s;
    if (ft == mfast::field_type_sequence) x = static_cast<const mfast::sequence_field_instruction *>(s)->length_instruction();
    if (x && (x->field_operator() == mfast::operator_none || x->field_operator() == mfast::operator_delta)) return true;
  }
  return false;
}
inline bool endless(const mfast::group_field_instruction *g) {
  for (auto s : g->subinstructions()) {
    auto ft = s->field_type();
    if (ft != mfast::field_type_group && ft != mfast::field_type_sequence) continue;
    auto q = static_cast<const mfast::group_field_instruction *>(s);
    if ((ft == mfast::field_type_sequence && !takes_bytes(q)) || endless(q)) return true;
  }
  return false;
}

} // namespace sim
