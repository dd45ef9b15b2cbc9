#include "session.h"
#include "mfast/coder/fast_decoder.h"
#include <iostream>
#include "mfast/coder/fast_encoder.h"
#include "mfast/coder/encoder/fast_ostreambuf.h"
#include "mfast/coder/common/exceptions.h"
#include "mfast/malloc_allocator.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <algorithm>
#include <cstring>
#include <cxxabi.h>

namespace sim {
using namespace mfast;

allocator *std_alloc() { return malloc_allocator::instance(); }

namespace {
struct V1E : EncoderIf {
  fast_encoder e;
  V1E(const std::vector<const templates_description *> &d, allocator *a) : e(a ? a : std_alloc()) {
    e.include(d.data(), d.size());
    name = "v1-encoder";
  }
  size_t encode(const message_cref &m, char *b, size_t n, bool r) override { return e.encode(m, b, n, r); }
  void encode(const message_cref &m, std::vector<char> &b, bool r) override { e.encode(m, b, r); }
  void allow_overlong(bool v) override { e.allow_overlong_pmap(v); }
};
struct V1D : DecoderIf {
  fast_decoder d;
  V1D(const std::vector<const templates_description *> &x, allocator *a) : d(a ? a : std_alloc()) {
    d.include(x.data(), x.size());
    name = "v1-decoder";
    if (getenv("SIM_V1_DEBUG")) d.debug_log(&std::cerr);
  }
  message_cref decode(const char *&f, const char *l, bool r, unsigned) override { return d.decode(f, l, r); }
};
} // namespace

std::unique_ptr<EncoderIf> make_v1_encoder(const std::vector<const templates_description *> &d, allocator *a) {
  return std::unique_ptr<EncoderIf>(new V1E(d, a));
}
std::unique_ptr<DecoderIf> make_v1_decoder(const std::vector<const templates_description *> &d, allocator *a) {
  return std::unique_ptr<DecoderIf>(new V1D(d, a));
}

std::vector<GenSet> &gen_sets() { static std::vector<GenSet> v; return v; }
RegisterSet::RegisterSet(GenSet s) {
  gen_sets().push_back(s);
  std::sort(gen_sets().begin(), gen_sets().end(), [](const GenSet &a, const GenSet &b) { return a.idx < b.idx; });
}
static const Doc &set_doc(int idx) {
  static std::map<int, Doc> cache;
  auto it = cache.find(idx);
  if (it == cache.end()) it = cache.emplace(idx, gen_set_doc(idx)).first;
  return it->second;
}
const Doc &GenSet::doc() const { return set_doc(idx); }
const Doc &TypeSet::doc() const { return set_doc(idx); }
std::vector<TypeSet> &type_sets() { static std::vector<TypeSet> v; return v; }
RegisterTypes::RegisterTypes(TypeSet s) {
  type_sets().push_back(s);
  std::sort(type_sets().begin(), type_sets().end(), [](const TypeSet &a, const TypeSet &b) { return a.idx < b.idx; });
}

const template_instruction *Schema::inst(int gt) const {
  unsigned id = r->t[gt].t->id;
  for (auto *d : desc) if (auto *i = d->instruction_with_id(id)) return i;
  return nullptr;
}
InstOf Schema::inst_of(int gt) const {
  int base = r->t[gt].doc_base;
  const Schema *self = this;
  return [self, base](int ti) { return self->inst(base + ti); };
}

namespace {
struct Dyn {
  template_registry reg;
  std::vector<std::unique_ptr<dynamic_templates_description>> d;
};
} // namespace

Schema load_schema(std::vector<std::shared_ptr<Doc>> docs) {
  Schema s;
  s.docs = std::move(docs);
  auto k = std::make_shared<Dyn>();
  std::vector<const Doc *> dp;
  int n = 0;
  for (auto &d : s.docs) {
    std::string ns = "dyn" + std::to_string(n++);
    k->d.emplace_back(new dynamic_templates_description(d->xml().c_str(), ns.c_str(), &k->reg));
    s.desc.push_back(k->d.back().get());
    dp.push_back(d.get());
  }
  s.keep = k;
  s.r.reset(new RDoc(dp));
  return s;
}

Schema dynamic_schema(Ctx &c, const GenOpts &o, int max_docs) {
  int n = max_docs > 1 && c.chance(1, 6) ? 2 : 1;
  std::vector<std::shared_ptr<Doc>> docs;
  GenOpts g = o;
  if (n == 2 && !o.scalars_only && c.chance(1, 2)) { // the second refers to the first
    g.refs = g.statref = true;
    g.dynref = false;
    g.min_templates = 3;
    g.max_templates = std::max(o.max_templates, 4);
    docs.push_back(std::make_shared<Doc>());
    docs.push_back(std::make_shared<Doc>(gen_doc(c, g)));
    *docs[0] = docs[1]->split(1 + c.draw(2));
    n = 0;
  }
  for (int i = 0; i < n; ++i) {
    g.id_base = o.id_base + 50000 * i;
    g.name_prefix = i ? "U" : "T";
    docs.push_back(std::make_shared<Doc>(gen_doc(c, g)));
    if (i) docs[i]->ns = docs[0]->ns;
  }
  if (c.keep_log) for (auto &d : docs) c.log += d->xml();
  return load_schema(std::move(docs));
}

Schema gen_schema(const GenSet &gs) {
  Schema s;
  s.docs.push_back(std::shared_ptr<Doc>(const_cast<Doc *>(&gs.doc()), [](Doc *) {}));
  s.desc.push_back(gs.desc);
  s.set = &gs;
  s.r.reset(new RDoc({s.docs[0].get()}));
  return s;
}
Schema any_schema(Ctx &c, const GenOpts &o, unsigned num, unsigned den) {
  auto &gs = gen_sets();
  if (!gs.empty() && c.chance(num, den)) {
    auto &g = gs[c.draw(gs.size())];
    c.ev("generated set %d", g.idx);
    if (c.keep_log) c.log += g.doc().base_xml + g.doc().xml();
    return gen_schema(g);
  }
  return dynamic_schema(c, o);
}

Exact::Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
Exact::~Exact() { free(p); }

message_type build_message(const Schema &s, int gt, const std::vector<Val> &v, allocator *a) {
  message_type m(a ? a : std_alloc(), s.inst(gt));
  fill(m.mref(), s.fields(gt), v, s.doc_of(gt), s.inst_of(gt));
  return m;
}

std::string describe_exception() {
  std::string o;
  const std::type_info *t = abi::__cxa_current_exception_type();
  if (!t) return "none";
  int st = 0;
  char *n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
  o = n ? n : t->name();
  free(n);
  size_t k;
  // strip boost wrappers
  while ((k = o.find("boost::wrapexcept<")) != std::string::npos) { o.erase(k, 18); o.erase(o.rfind('>'), 1); }
  while ((k = o.find("boost::exception_detail::")) != std::string::npos) o.erase(k, 25);
  try {
    throw;
  } catch (const fast_error &e) {
    // the error code ("D9", ...) is only reachable through the diagnostics
    std::string d = boost::diagnostic_information(e);
    size_t k = d.find("error_code");
    if (k != std::string::npos && (k = d.find("= ", k)) != std::string::npos) o += "[" + d.substr(k + 2, d.find('\n', k) - k - 2) + "]";
  } catch (...) {
  }
  return o;
}
bool documented_codec_exception() {
  try {
    throw;
  } catch (const fast_error &) { return true;
  } catch (const buffer_overflow_error &) { return true;
  } catch (const std::bad_alloc &) { return true;
  } catch (const std::ios_base::failure &) { return true;
  } catch (...) {}
  return false;
}

bool gen_encodable(Ctx &c, const Schema &s, RefEncoder &ref, std::map<int, std::unique_ptr<ValGen>> &vg, Msg &m, bool reset) {
  for (int k = 0; k < 6; ++k) {
    Ctx::Scope sc(c);
    m.gt = (int)c.draw(s.r->t.size());
    int base = s.r->t[m.gt].doc_base;
    auto &g = vg[base];
    if (!g) g.reset(new ValGen(c, s.doc_of(m.gt)));
    auto recent = g->recent;
    m.v = g->message(m.gt - base).sub;
    m.reset = reset;
    RState saved = ref.st;
    if (reset) {
      ref.st.reset();
      ref.st.tmpl = s.r->t.size() == 1 ? 0 : -1; // the receiver may have lost the template context
    }
    try {
      m.bytes = ref.encode(m.gt, m.v);
      return true;
    } catch (Unencodable &) {
      ref.st = saved;
      g->recent = recent;
    }
  }
  return false;
}

std::unique_ptr<EncoderIf> pick_encoder(Ctx &c, const Schema &s) {
  if (s.set && c.chance(1, 2)) return s.set->enc2(std_alloc());
  return make_v1_encoder(s.desc);
}
std::vector<std::unique_ptr<DecoderIf>> pick_decoders(Ctx &c, const Schema &s, bool all) {
  std::vector<std::unique_ptr<DecoderIf>> r;
  if (s.set) {
    int k = all ? 0 : 1 + (int)c.draw(4);
    if (k == 0 || k == 1) r.push_back(make_v1_decoder(s.desc));
    if (k == 0 || k == 2) r.push_back(s.set->dec2(0, std_alloc()));
    if (k == 0 || k == 3) r.push_back(s.set->dec2(1, std_alloc()));
    if (k == 0 || k == 4) r.push_back(s.set->dec2(3, std_alloc()));
  } else
    r.push_back(make_v1_decoder(s.desc));
  return r;
}

std::string encode_one(Ctx &c, EncoderIf &e, const message_cref &m, bool reset) {
  if (c.chance(1, 3)) {
    std::vector<char> b;
    size_t pre = c.draw(4);
    for (size_t i = 0; i < pre; ++i) b.push_back(char(0x51 + i));
    e.encode(m, b, reset);
    for (size_t i = 0; i < pre; ++i) if (b.size() <= i || b[i] != char(0x51 + i)) c.fail("vector-prefix", "%s: bytes already in the vector changed", e.name.c_str());
    return std::string(b.begin() + pre, b.end());
  }
  static const size_t cap = 1 << 17;
  std::unique_ptr<char[]> b(new char[cap]);
  size_t n = e.encode(m, b.get(), cap, reset);
  if (n > cap) c.fail("encode-size", "%s: returned size %zu exceeds the buffer", e.name.c_str(), n);
  return std::string(b.get(), n);
}
} // namespace sim
