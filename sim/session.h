// Simulated FAST endpoints: real mFAST encoders/decoders behind one interface.
#pragma once
#include "bridge.h"
#include "refcodec.h"
#include "mfast.h"
#include "mfast/instructions/templates_description.h"
#include <memory>

namespace sim {

struct EncoderIf {
  virtual ~EncoderIf() {}
  virtual size_t encode(const mfast::message_cref &m, char *buf, size_t n, bool reset) = 0;
  virtual void encode(const mfast::message_cref &m, std::vector<char> &buf, bool reset) = 0;
  virtual void allow_overlong(bool) = 0;
  std::string name;
};
struct DecoderIf {
  virtual ~DecoderIf() {}
  virtual mfast::message_cref decode(const char *&first, const char *last, bool reset, unsigned token) = 0;
  // modifiable result (v2 with tokens only)
  virtual mfast::message_mref decode_m(const char *&, const char *, bool, unsigned) { return mfast::message_mref(); }
  virtual unsigned tokens() const { return 0; }
  std::string name;
};

std::unique_ptr<EncoderIf> make_v1_encoder(const std::vector<const mfast::templates_description *> &d, mfast::allocator *a = nullptr);
std::unique_ptr<DecoderIf> make_v1_decoder(const std::vector<const mfast::templates_description *> &d, mfast::allocator *a = nullptr);

// a compiled-in (fast_type_gen) template set
struct GenSet {
  int idx;
  const mfast::templates_description *desc;
  std::unique_ptr<EncoderIf> (*enc2)(mfast::allocator *);
  std::unique_ptr<DecoderIf> (*dec2)(unsigned tokens, mfast::allocator *); // tokens in {0,1,3}
  void (*view)(int idx, const mfast::message_cref &m, std::vector<mfast::field_cref> &shown);
  const Doc &doc() const;
};
std::vector<GenSet> &gen_sets(); // ordered by idx

// what generated types say about a message
struct Acc {
  struct Cell {
    const void *storage = nullptr, *try_storage = nullptr;
    const mfast::field_instruction *inst = nullptr;
    bool absent = false, threw = false, has_try = false;
    uint64_t n = 0; // a number instead
    bool is_num = false;
  };
  std::vector<Cell> v;
  void num(uint64_t n) { Cell c; c.is_num = true; c.n = n; v.push_back(c); }
  // where a value is stored; of a group, where its first field is stored
  static const void *at(const mfast::field_cref &r) { return mfast::field_cref_core_access::storage_of(r); }
  static const void *at(const mfast::aggregate_cref &r) { return r.absent() ? nullptr : mfast::field_cref_core_access::storage_of(r[0]); }
  static const mfast::field_instruction *inst(const mfast::field_cref &r) { return r.instruction(); }
  static const mfast::field_instruction *inst(const mfast::aggregate_cref &r) { return r.instruction(); }
  template <class R> Cell &cell1(const R &r) { Cell c; c.storage = at(r); c.inst = inst(r); c.absent = r.absent(); v.push_back(c); return v.back(); }
  template <class R, class F> void cell(const R &r, F f) {
    Cell &c = cell1(r);
    c.has_try = true;
    try { c.try_storage = at(f()); } catch (const mfast::bad_optional_access &) { c.threw = true; }
  }
};
struct TypeUse {
  const mfast::template_instruction *inst;
  uint32_t the_id;
  void (*walk)(const mfast::message_cref &, Acc &);
  const void *(*set)(const mfast::message_mref &, int leaf, const size_t *ix);
  bool (*omit)(const mfast::message_mref &, int leaf, const size_t *ix);
  // through an object of the generated class: copied from a message and walked
  void (*object)(const mfast::message_cref &, mfast::allocator *, const std::function<void(const mfast::message_cref &, const mfast::message_mref &)> &);
};
// generated types, of the sets above and of others without codecs
struct TypeSet {
  int idx;
  const mfast::templates_description *desc;
  void (*view)(int idx, const mfast::message_cref &m, std::vector<mfast::field_cref> &shown);
  std::vector<TypeUse> uses;
  const Doc &doc() const;
};
std::vector<TypeSet> &type_sets();
struct RegisterTypes { RegisterTypes(TypeSet s); };
struct RegisterSet { RegisterSet(GenSet s); };
Doc gen_set_doc(int idx);

// One session schema: documents + the descriptions endpoints are built from.
struct Schema {
  std::vector<std::shared_ptr<Doc>> docs;
  std::vector<const mfast::templates_description *> desc; // what v1 endpoints include
  const GenSet *set = nullptr;                            // v2 endpoints available
  std::shared_ptr<void> keep;                             // registries, dynamic descriptions
  std::unique_ptr<RDoc> r;
  const mfast::template_instruction *inst(int gt) const;
  const Doc &doc_of(int gt) const { return *r->t[gt].doc; }
  const std::vector<Field> &fields(int gt) const { return r->t[gt].t->f; }
  InstOf inst_of(int gt) const;
};
// random run-time loaded schema of 1..2 documents
Schema dynamic_schema(Ctx &c, const GenOpts &o, int max_docs = 2);
// wraps given documents (loads their XML)
Schema load_schema(std::vector<std::shared_ptr<Doc>> docs);
Schema gen_schema(const GenSet &s);
// one of the above
Schema any_schema(Ctx &c, const GenOpts &o, unsigned gen_num, unsigned gen_den);

// owned, exactly sized input buffer (so that any over-read is visible)
struct Exact {
  char *p;
  size_t n;
  explicit Exact(const std::string &s);
  ~Exact();
  Exact(const Exact &) = delete;
};

struct Msg {
  int gt;
  std::vector<Val> v;
  std::string bytes;
  bool reset = false;
};

mfast::message_type build_message(const Schema &s, int gt, const std::vector<Val> &v, mfast::allocator *a = nullptr);
// exception classes the library documents for the codecs
std::string describe_exception();
bool documented_codec_exception(); // inside a catch block

// generates a message value that is encodable in the given reference state;
// returns false when none was found in a few attempts. Commits the state.
bool gen_encodable(Ctx &c, const Schema &s, RefEncoder &ref, std::map<int, std::unique_ptr<ValGen>> &vg, Msg &m, bool reset);

mfast::allocator *std_alloc();

// All encoder/decoder kinds usable with a schema.
std::unique_ptr<EncoderIf> pick_encoder(Ctx &c, const Schema &s);
std::vector<std::unique_ptr<DecoderIf>> pick_decoders(Ctx &c, const Schema &s, bool all);
std::string encode_one(Ctx &c, EncoderIf &e, const mfast::message_cref &m, bool reset);

} // namespace sim
