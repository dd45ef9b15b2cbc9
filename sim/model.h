// Template documents and message values as the simulator sees them,
// independent of the implementation's own XML parser and instructions.
#pragma once
#include "core.h"
#include <memory>
#include <map>
#include <string>
#include <vector>

namespace sim {

enum FT { I32, U32, I64, U64, DEC, ASC, UNI, BYT, VI32, VU32, VI64, VU64, GRP, SEQ, TREF, ENM, BOO, SET_, NFT };
enum Op { NONE, CONSTANT, DELTA, DEFAULT, COPY, INCREMENT, TAIL };
extern const char *const op_names[];

struct Val {
  bool present = false;
  uint64_t u = 0; // integers (sign-extended), decimal mantissa
  int exp = 0;
  std::string s;
  std::vector<uint64_t> vec; // integer vectors
  std::vector<Val> sub;      // group fields / sequence elements / nested message fields
  int tmpl = -1;             // nested message: template index
};

struct Field {
  std::string name;
  unsigned id = 0;
  FT ft = I32;
  bool opt = false;
  Op op = NONE;
  std::string key, dict, opns;
  bool has_init = false, init_implicit = false; // the predefined type boolean has the initial value false
  Val init;
  // decimal with individual operators: op/key/init.exp are the exponent's
  bool indiv = false;
  Op mop = NONE;
  std::string mkey, mdict;
  bool mhas_init = false;
  int64_t minit = 0;
  std::vector<Field> sub;
  std::shared_ptr<Field> len; // sequence length
  bool explicit_len = false;
  std::vector<std::string> enames;
  std::vector<uint64_t> evals; // wire values of the elements
  bool evals_in_xml = false;
  std::vector<bool> eplain;    // elements that leave their value out: one more than the one before
  std::string gdict, typeref; // group / sequence
  std::string via_ref;        // emitted through a static templateRef
  int via_n = 0;              // group id of that reference
  unsigned tag = 0;           // mfast:tag
  std::string via_define;     // emitted through a define
  std::string slen_name;      // name and id of the length of a string or byte vector
  unsigned slen_id = 0;
};

struct Template {
  std::string name;
  unsigned id = 0;
  bool reset = false;
  std::string dict, typeref;
  std::vector<Field> f;
};

// one alternative of a field of a view: field indices, an element index after each sequence but the last
struct ViewRef {
  std::string text;
  std::vector<int> path;
};
struct View {
  std::string name;
  int t = 0;
  std::vector<std::vector<ViewRef>> f;
};

struct Doc {
  std::string ns, dict;
  std::vector<Template> t;
  std::string defines;
  std::vector<View> views;
  std::string base_xml; // another document, with all the types and templates that this one refers to
  std::string xml() const;
  std::string describe() const;
  Doc split(size_t k); // moves the types and the first k templates into the other document
};

struct GenOpts {
  int min_templates = 1, max_templates = 4, max_fields = 7, depth = 2;
  bool dicts = true;       // dictionary / key attributes
  bool heavy_share = false; // scoping profile: few names, many shared keys
  bool dynref = true, statref = true, seqs = true, groups = true, vectors = true, enums = true, decimals = true, sets = false;
  bool resets = true;
  bool defines = true;
  bool empties = false;    // groups and templates without fields
  bool many_bits = false;  // templates with large presence maps
  bool codegen = false;
  bool scalars_only = false;
  bool gdefs = true;       // defined groups and sequences
  bool views = false;
  bool refs = false;       // many references to types and templates
  bool odd = false;        // odd characters in names and initial values
  bool json = false;       // tags and sequences of unnamed elements
  unsigned id_base = 1;
  std::string name_prefix = "T";
};

Doc gen_doc(Ctx &c, const GenOpts &o);
View gen_view(Ctx &c, const Doc &d, int t, const std::string &name);
// what a view shows at a reference; false: absent
bool view_value(const Doc &d, int t, const std::vector<Val> &v, const ViewRef &r, Field *f, Val *out);

struct ValGen {
  Ctx &c;
  const Doc &d;
  std::map<std::string, Val> recent; // last value by field name
  int max_seq = 4;
  int max_str = 14;
  ValGen(Ctx &c, const Doc &d) : c(c), d(d) {}
  Val field(const Field &f, int depth);
  std::vector<Val> fields(const std::vector<Field> &f, int depth);
  Val message(int ti, int depth = 0); // sub = fields
};

bool needs_pmap_bit(const Field &f);
bool segment_needs_pmap(const std::vector<Field> &f);
bool has_dynref(const std::vector<Field> &f);

// lenient: an optional field with the default operator and an initial value that
// was absent when it was encoded may arrive as its initial value
bool same(const std::vector<Field> &f, const std::vector<Val> &a, const std::vector<Val> &b, const Doc &d, std::string *where, bool lenient = false);
std::string show(const std::vector<Field> &f, const std::vector<Val> &v, const Doc &d);
uint64_t hash_vals(const std::vector<Val> &v);
} // namespace sim
