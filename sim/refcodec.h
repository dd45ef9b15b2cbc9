// An executable reference model of a FAST 1.1 session: encoder, decoder and
// dictionary, written from the specification, sharing no code with mFAST.
#pragma once
#include "model.h"

namespace sim {

struct Unencodable { std::string why; };  // the value has no encoding in this state
struct RefError { std::string code; };    // the specification makes this an error
struct RefTrunc {};                       // stream ended inside the message
struct RefUnspecified { std::string why; };// outcome left open by the property

struct RField {
  const Field *f = nullptr;
  int slot = -1, mslot = -1;
  std::vector<RField> sub;
  std::shared_ptr<RField> len;
  bool pmap = false; // group / element segment has its own presence map
};
struct RTemplate {
  const Template *t;
  const Doc *doc;
  int doc_base;
  std::vector<RField> f;
};
// resolved session schema (possibly several documents in one session)
struct RDoc {
  std::vector<RTemplate> t;
  std::vector<std::string> slot_keys;
  explicit RDoc(const std::vector<const Doc *> &docs);
  int by_id(unsigned id) const;
  std::vector<int> slot_users; // number of fields sharing the entry
};

struct Entry {
  enum S { UNDEF, EMPTY, ASSIGNED } s = UNDEF;
  Val v;
};
struct RState {
  std::vector<Entry> e;
  int tmpl = -1; // current template context
  void reset() { for (auto &x : e) x = Entry(); }
  uint64_t hash() const;
};

struct EncOpts {
  bool overlong_pmap = false; // allow trailing zero bytes in presence maps
  bool alternatives = true;   // use the tape to choose among legal encodings
  bool refuse_empty = false;  // mandatory copy/increment of an empty entry (error D6 in mFAST)
};

class RefEncoder {
public:
  const RDoc &d;
  RState st;
  Ctx *c;
  EncOpts o;
  RefEncoder(const RDoc &d, Ctx *c = nullptr) : d(d), c(c) { st.e.resize(d.slot_keys.size()); if (d.t.size() == 1) st.tmpl = 0; }
  // gt: index in RDoc::t.  Throws Unencodable and leaves the state unchanged.
  std::string encode(int gt, const std::vector<Val> &v, bool force_id = false);
  int alts = 0; // non-canonical choices taken
private:
  struct Seg { std::vector<bool> bits; std::string body; };
  bool alt(unsigned num, unsigned den) { if (c && o.alternatives && c->chance(num, den)) { ++alts; return true; } return false; }
  void fields(Seg &s, const std::vector<RField> &fs, const std::vector<Val> &v, int base);
  void field(Seg &s, const RField &f, const Val &v, int base);
  void scalar(Seg &s, const Field &f, Op op, FT ft, bool opt, bool has_init, const Val &init, int slot, const Val &v);
  void put_value(std::string &o, FT ft, bool nullable, const Val &v);
  void put_null(std::string &o) { o += char(0x80); }
  std::string put_pmap(const std::vector<bool> &bits);
};

class RefDecoder {
public:
  const RDoc &d;
  RState st;
  RefDecoder(const RDoc &d) : d(d) { st.e.resize(d.slot_keys.size()); if (d.t.size() == 1) st.tmpl = 0; }
  bool strict = false;            // record departures from canonical form
  std::string where; // the field that was decoded last
  std::string notes;              // strict findings
  uint64_t max_elems = 20000;     // RefUnspecified above this
  // returns the global template index; p advances past the message
  int decode(const unsigned char *&p, const unsigned char *e, std::vector<Val> &out, bool force_reset = false);
private:
  struct PMap { std::vector<bool> bits; size_t pos = 0; size_t bytes = 0; bool next() { bool b = pos < bits.size() && bits[pos]; ++pos; return b; } };
  const unsigned char *p = nullptr, *e = nullptr;
  unsigned char byte() { if (p == e) throw RefTrunc(); return *p++; }
  PMap pmap();
  void check_pmap(const PMap &m);
  bool integer(bool sg, int bits, bool nullable, uint64_t &u, bool delta = false);
  bool value(FT ft, bool nullable, Val &v);
  bool ascii(bool nullable, std::string &s, bool delta = false);
  void scalar(PMap &m, Op op, FT ft, bool opt, bool has_init, const Val &init, int slot, Val &v);
  void fields(PMap &m, const std::vector<RField> &fs, std::vector<Val> &v, int base);
  void field(PMap &m, const RField &f, Val &v, int base);
  bool note_trailing(const PMap &);
};

bool val_eq(FT ft, const Val &a, const Val &b);
} // namespace sim
