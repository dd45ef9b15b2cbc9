#include "model.h"
#include <algorithm>
#include <cstring>
#include <set>

namespace sim {
const char *const op_names[] = {"none", "constant", "delta", "default", "copy", "increment", "tail"};
static const char *const ft_tag[] = {"int32", "uInt32", "int64", "uInt64", "decimal", "string", "string", "byteVector",
                                     "int32Vector", "uInt32Vector", "int64Vector", "uInt64Vector", "group", "sequence",
                                     "templateRef", "enum", "boolean", "set"};
static const char *const ft_pool[] = {"ia", "ub", "ic", "ud", "de", "as", "un", "by", "va", "vb", "vc", "vd", "g", "s", "t", "en", "bo", "sx"};

static std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '&') o += "&amp;";
    else if (c == '<') o += "&lt;";
    else if (c == '>') o += "&gt;";
    else if (c == '"') o += "&quot;";
    else o += c;
  }
  return o;
}

static std::string init_text(const Field &f) {
  switch (f.ft) {
  case I32: case I64: return std::to_string((int64_t)f.init.u);
  case U32: case U64: return std::to_string(f.init.u);
  case DEC: {
    if (f.indiv) return std::to_string(f.init.exp);
    int64_t m = (int64_t)f.init.u;
    std::string o = std::to_string(m < 0 ? -m : m);
    size_t frac = (size_t)-f.init.exp;
    if (frac) {
      while (o.size() <= frac) o = "0" + o;
      o.insert(o.size() - frac, ".");
    }
    return (m < 0 ? "-" : "") + o;
  }
  case ASC: case UNI: return esc(f.init.s);
  case BYT: {
    std::string o;
    char b[4];
    for (unsigned char ch : f.init.s) { snprintf(b, sizeof b, "%02x", ch); o += b; }
    return o;
  }
  case ENM: for (size_t i = 0; i < f.evals.size(); ++i) if (f.evals[i] == f.init.u) return f.enames[i]; return "";
  case SET_: for (size_t i = 0; i < f.enames.size(); ++i) if ((1ull << i) == f.init.u) return f.enames[i]; return "";
  case BOO: return f.init.u ? "true" : "false";
  default: return "";
  }
}

static void emit_op(std::string &o, Op op, const std::string &key, const std::string &dict, const std::string &ns, bool has_init,
                    const std::string &init) {
  if (op == NONE) return;
  o += std::string("<") + op_names[op];
  if (has_init) o += " value=\"" + init + "\"";
  if (!key.empty()) o += " key=\"" + key + "\"";
  if (!dict.empty()) o += " dictionary=\"" + dict + "\"";
  if (!ns.empty()) o += " ns=\"" + ns + "\"";
  o += "/>";
}

static void emit_fields(std::string &o, const std::vector<Field> &fs, const std::string &ind);

static const char *type_ns = ""; // what follows the names of types
static void emit_field(std::string &o, const Field &f, const std::string &ind) {
  o += ind;
  if (f.ft == TREF) { o += "<templateRef/>\n"; return; }
  std::string tag = ft_tag[f.ft];
  bool def = !f.via_define.empty();
  if (def && (f.ft == GRP || f.ft == SEQ)) {
    o += "<field name=\"" + f.name + "\"" + (f.opt ? " presence=\"optional\"" : "") + "><type name=\"" + f.via_define + "\"" + type_ns + "/></field>\n";
    return;
  }
  o += "<" + (def ? std::string("field") : tag) + " name=\"" + f.name + "\"";
  if (f.id) o += " id=\"" + std::to_string(f.id) + "\"";
  if (f.opt) o += " presence=\"optional\"";
  if (f.tag) o += " mfast:tag=\"" + std::to_string(f.tag) + "\"";
  if (f.ft == UNI && !def) o += " charset=\"unicode\"";
  if ((f.ft == GRP || f.ft == SEQ) && !f.gdict.empty()) o += " dictionary=\"" + f.gdict + "\"";
  o += ">";
  if (def) o += "<type name=\"" + f.via_define + "\"" + type_ns + "/>";
  if (!f.slen_name.empty()) o += "<length name=\"" + f.slen_name + "\"" + (f.slen_id ? " id=\"" + std::to_string(f.slen_id) + "\"" : "") + "/>";
  if (f.ft == GRP || f.ft == SEQ) {
    o += "\n";
    if (!f.typeref.empty()) o += ind + "  <typeRef name=\"" + f.typeref + "\"/>\n";
    if (f.ft == SEQ && f.explicit_len) {
      o += ind + "  <length name=\"" + f.len->name + "\">";
      emit_op(o, f.len->op, f.len->key, f.len->dict, f.len->opns, f.len->has_init, init_text(*f.len));
      o += "</length>\n";
    }
    emit_fields(o, f.sub, ind + "  ");
    o += ind;
  } else if (f.indiv) {
    o += "<exponent>";
    emit_op(o, f.op, f.key, f.dict, "", f.has_init, init_text(f));
    o += "</exponent><mantissa>";
    emit_op(o, f.mop, f.mkey, f.mdict, "", f.mhas_init, std::to_string(f.minit));
    o += "</mantissa>";
  } else {
    if (!def && (f.ft == ENM || f.ft == SET_))
      for (size_t i = 0; i < f.enames.size(); ++i) {
        o += "<element name=\"" + f.enames[i] + "\"";
        if (f.evals_in_xml && !(i < f.eplain.size() && f.eplain[i])) o += " value=\"" + std::to_string(f.evals[i]) + "\"";
        o += "/>";
      }
    emit_op(o, f.op, f.key, f.dict, f.opns, f.has_init && !f.init_implicit, init_text(f));
  }
  o += "</" + (def ? std::string("field") : tag) + ">\n";
}

static void emit_fields(std::string &o, const std::vector<Field> &fs, const std::string &ind) {
  for (size_t i = 0; i < fs.size();) {
    if (!fs[i].via_ref.empty()) {
      o += ind + "<templateRef name=\"" + fs[i].via_ref + "\"/>\n";
      int n = fs[i].via_n;
      while (i < fs.size() && fs[i].via_n == n && !fs[i].via_ref.empty()) ++i;
      continue;
    }
    emit_field(o, fs[i], ind);
    ++i;
  }
}

std::string Doc::xml() const {
  std::string o = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\"";
  if (!ns.empty()) o += " ns=\"" + ns + "\"";
  if (!dict.empty()) o += " dictionary=\"" + dict + "\"";
  o += ">\n" + defines;
  type_ns = base_xml.empty() ? "" : " ns=\"\"";
  for (auto &x : t) {
    o += "<template name=\"" + x.name + "\" id=\"" + std::to_string(x.id) + "\"";
    if (!x.dict.empty()) o += " dictionary=\"" + x.dict + "\"";
    if (x.reset) o += " reset=\"yes\"";
    o += ">\n";
    if (!x.typeref.empty()) o += "  <typeRef name=\"" + x.typeref + "\"/>\n";
    emit_fields(o, x.f, "  ");
    o += "</template>\n";
  }
  for (auto &v : views) {
    o += "<view name=\"" + v.name + "\" reference=\"" + t[v.t].name + "\">\n";
    int n = 0;
    for (auto &f : v.f) {
      o += "  <field name=\"v" + std::to_string(n++) + "\">";
      for (auto &r : f) o += "<reference name=\"" + r.text + "\"/>";
      o += "</field>\n";
    }
    o += "</view>\n";
  }
  type_ns = "";
  return o + "</templates>\n";
}

Doc Doc::split(size_t k) {
  Doc b;
  ns.clear();
  b.dict = dict;
  b.defines.swap(defines);
  b.t.assign(t.begin(), t.begin() + k);
  base_xml = b.xml();
  t.erase(t.begin(), t.begin() + k);
  std::vector<View> v;
  for (auto &x : views) if ((size_t)x.t >= k) { v.push_back(x); v.back().t -= (int)k; }
  views.swap(v);
  return b;
}

// ---------------------------------------------------------------- templates
namespace {
struct Gen {
  Ctx &c;
  const GenOpts &o;
  bool in_seq = false;
  Doc d;
  int ngroup = 0, nref = 0, nenum = 0;
  std::vector<Field> enum_defs; // define'd enums
  std::vector<Field> group_defs; // define'd groups and sequences
  Gen(Ctx &c, const GenOpts &o) : c(c), o(o) {}

  // names must differ in generated code too
  static bool taken(const std::set<std::string> &used, const std::string &s) {
    for (auto x : {"", "-p", ".q", "_", "-1"}) if (used.count(s + x)) return true;
    return false;
  }
  std::string pool_name(FT ft, const std::set<std::string> &used, const char *suffix = "") {
    int n = o.heavy_share ? 3 : 6;
    for (int k = 0; k < 8; ++k) {
      std::string s = std::string(ft_pool[ft]) + suffix + char('a' + c.draw(n));
      if (!taken(used, s)) return s;
    }
    for (int k = 0;; ++k) {
      std::string s = std::string(ft_pool[ft]) + suffix + "x" + std::to_string(k);
      if (!taken(used, s)) return s;
    }
  }

  void odd_name(std::string &s) {
    static const char *const suffixes[] = {"", "-p", ".q", "_", "-1"};
    if (o.odd) s += suffixes[c.pick({4, 1, 1, 1, 1})];
  }

  int64_t int_init(FT ft) {
    switch (c.draw(5)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (int64_t)c.draw(200);
    case 3: return (ft == I32 || ft == I64) ? -(int64_t)c.draw(100) : (int64_t)c.draw(100);
    default:
      if (ft == I32) return c.chance(1, 2) ? 2147483647 : -2147483648LL;
      if (ft == U32) return 4294967295LL;
      if (ft == I64) return c.chance(1, 2) ? 9223372036854775807LL : (-9223372036854775807LL - 1);
      return 9223372036854775807LL;
    }
  }

  std::string str_init(FT ft) {
    size_t n = c.draw(6);
    std::string s;
    static const char *const uni[] = {"a", "Z", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "0"};
    for (size_t i = 0; i < n; ++i) {
      if (o.odd && ft != BYT && c.chance(1, 2)) s += "\"\\'?%<& /\t"[c.draw(10)];
      else if (ft == ASC) s += "ABCdef012_.-"[c.draw(12)];
      else if (ft == UNI) s += uni[c.draw(6)];
      else s += char(c.draw(256));
    }
    return s;
  }

  void dict_attrs(std::string &key, std::string &dict, const char *pool, bool uses_dict) {
    if (!o.dicts || !uses_dict) return;
    unsigned num = o.heavy_share ? 1 : 1, den = o.heavy_share ? 2 : 5;
    if (c.chance(num, den)) key = std::string("k") + pool + char('0' + c.draw(o.heavy_share ? 2 : 3));
    if (c.chance(num, den)) {
      static const char *const ds[] = {"global", "template", "type", "user1", "user2"};
      dict = ds[c.draw(5)];
    }
  }

  static bool op_uses_dict(Op op) { return op == COPY || op == DELTA || op == INCREMENT || op == TAIL; }

  Op pick_op(FT ft) {
    if (ft == ASC || ft == UNI || ft == BYT) {
      static const Op ops[] = {NONE, COPY, DELTA, TAIL, DEFAULT, CONSTANT};
      return ops[c.pick({2, 4, 4, 4, 2, 1})];
    }
    if (ft == DEC) {
      static const Op ops[] = {NONE, COPY, DELTA, DEFAULT, CONSTANT};
      return ops[c.pick({2, 4, 4, 2, 1})];
    }
    static const Op ops[] = {NONE, COPY, DELTA, INCREMENT, DEFAULT, CONSTANT};
    return ops[c.pick({2, 4, 4, 4, 2, 1})];
  }

  void set_init(Field &f) {
    f.init = Val();
    f.init.present = true;
    switch (f.ft) {
    case I32: case U32: case I64: case U64: f.init.u = (uint64_t)int_init(f.ft); break;
    case DEC: if (f.indiv) f.init.exp = (int)c.draw(9) - 4; else {
      // only values whose normalised form is not in doubt
      int64_t m = (int64_t)c.draw(2001) - 1000;
      while (m && m % 10 == 0) m /= 10;
      f.init.u = (uint64_t)m;
      f.init.exp = m ? -(int)c.draw(4) : 0;
    } break;
    case ASC: case UNI: case BYT: f.init.s = str_init(f.ft); break;
    case ENM: f.init.u = f.evals[c.draw(f.evals.size())]; break;
    case SET_: f.init.u = 1ull << c.draw(f.enames.size()); break;
    case BOO: f.init.u = c.draw(2); break;
    default: break;
    }
  }

  Field scalar(FT ft, const std::set<std::string> &used) {
    Field f;
    f.ft = ft;
    if (ft == DEC) f.indiv = c.chance(1, 2);
    f.name = pool_name(ft, used, f.indiv ? "s" : "");
    odd_name(f.name);
    f.opt = c.chance(1, 2);
    if (c.chance(1, 3)) f.id = 1 + c.draw(200);
    if ((ft == UNI || ft == BYT) && c.chance(1, 6)) {
      f.slen_name = "sl" + std::to_string(c.draw(3));
      if (c.chance(1, 2)) f.slen_id = 300 + c.draw(9);
    }
    if (ft >= VI32 && ft <= VU64) return f;
    if (ft == ENM || ft == SET_) {
      if (ft == ENM && o.defines && !enum_defs.empty() && (o.refs ? c.chance(3, 4) : c.chance(1, 3))) {
        const Field &e = enum_defs[c.draw(enum_defs.size())];
        f.enames = e.enames;
        f.evals = e.evals;
        f.evals_in_xml = e.evals_in_xml;
        f.eplain = e.eplain;
        f.via_define = e.name;
      } else {
        size_t n = 1 + c.draw(5);
        if (ft == SET_ && c.chance(1, 6)) n = 20 + c.draw(44);
        f.evals_in_xml = ft == ENM && c.chance(1, 2);
        uint64_t v = 0;
        int tag = nenum++;
        for (size_t i = 0; i < n; ++i) {
          f.enames.push_back("E" + std::to_string(tag) + "_" + std::to_string(i));
          odd_name(f.enames.back());
          f.eplain.push_back(f.evals_in_xml && c.chance(1, 3));
          if (f.evals_in_xml) v = f.eplain[i] ? (i ? v + 1 : 0) : (i ? v + 1 : 0) + c.draw(9);
          f.evals.push_back(f.evals_in_xml ? v : i);
        }
      }
    }
    f.op = pick_op(ft);
    bool must = f.op == CONSTANT || (f.op == DEFAULT && !f.opt);
    f.has_init = f.op != NONE && (must || c.chance(2, 5));
    if (f.has_init) set_init(f);
    if (ft == BOO && f.op != NONE && !f.has_init) { f.has_init = f.init_implicit = f.init.present = true; }
    if (f.indiv) {
      if (f.has_init && f.op == NONE) f.has_init = false;
      dict_attrs(f.key, f.dict, "exp", op_uses_dict(f.op));
      static const Op ops[] = {NONE, COPY, DELTA, INCREMENT, DEFAULT, CONSTANT};
      f.mop = ops[c.pick({2, 4, 4, 3, 2, 1})];
      f.mhas_init = f.mop == CONSTANT || f.mop == DEFAULT || (f.mop != NONE && c.chance(2, 5));
      if (f.mhas_init) f.minit = (int64_t)c.draw(2001) - 1000;
      dict_attrs(f.mkey, f.mdict, "man", op_uses_dict(f.mop));
    } else {
      dict_attrs(f.key, f.dict, (ft == ENM || ft == BOO || ft == SET_) ? ft_pool[U64] : ft_pool[ft], op_uses_dict(f.op));
      if (o.dicts && op_uses_dict(f.op) && !f.key.empty() && c.chance(1, 6)) f.opns = "n1";
    }
    return f;
  }

  FT pick_scalar() {
    static const FT fts[] = {I32, U32, I64, U64, ASC, UNI, BYT, DEC, ENM, BOO, VI32, VU32, VI64, VU64, SET_};
    if (o.heavy_share) {
      static const FT h[] = {U32, ASC, I64, BYT, DEC};
      return h[c.pick({4, 3, 2, 1, o.decimals ? 2 : 0})];
    }
    int v = o.vectors ? 1 : 0, e = o.enums ? 2 : 0;
    return fts[c.pick({4, 4, 4, 4, 5, 3, 3, o.decimals ? 5 : 0, e, e / 2, v, v, v, v, o.sets ? 2 : 0})];
  }

  std::vector<Field> container(int depth, bool allow_dyn, int ti) {
    std::vector<Field> fs;
    std::set<std::string> used;
    int n = 1 + c.draw(o.max_fields);
    bool none = o.empties && !in_seq && c.chance(1, depth ? 15 : 40); // parts without any field
    if (none) return fs;
    if (o.many_bits && depth == 0 && c.chance(2, 3)) n += c.chance(1, 2) ? 10 + c.draw(60) : 70 + c.draw(70);
    for (int i = 0; i < n; ++i) {
      Ctx::Scope sc(c);
      int k = c.pick({20, (o.groups && depth < o.depth) ? 3 : 0, (o.seqs && depth < o.depth) ? 4 : 0, (o.dynref && allow_dyn) ? 1 : 0,
                      (o.statref && ti > 0) ? (o.refs ? 4 : 1) : 0});
      if (o.scalars_only) k = 0;
      if (k == 0) {
        fs.push_back(scalar(pick_scalar(), used));
        if (o.json && c.chance(1, 4)) fs.back().tag = 1 + c.draw(3);
        used.insert(fs.back().name);
      } else if (k == 1 || k == 2) {
        if (!group_defs.empty() && depth + 1 < o.depth + 1 && (o.refs ? c.chance(1, 2) : c.chance(1, 4))) {
          Field f = group_defs[c.draw(group_defs.size())];
          f.via_define = f.name;
          f.name = std::string(ft_pool[f.ft]) + "d" + std::to_string(ngroup++);
          odd_name(f.name);
          f.opt = c.chance(1, 2);
          if (f.len) { f.len = std::make_shared<Field>(*f.len); f.len->opt = f.opt; }
          if (!(f.len && f.len->op == DEFAULT && !f.len->has_init && !f.opt)) { fs.push_back(std::move(f)); continue; }
        }
        Field f;
        f.ft = k == 1 ? GRP : SEQ;
        f.name = std::string(ft_pool[f.ft]) + "r" + std::to_string(ngroup++);
        odd_name(f.name);
        f.opt = c.chance(1, 2);
        if (o.dicts && c.chance(1, 6)) {
          static const char *const ds[] = {"global", "template", "type", "user1"};
          f.gdict = ds[c.draw(4)];
        }
        if (o.dicts && c.chance(1, 6)) f.typeref = c.chance(1, 2) ? "Ty1" : "Ty2";
        if (k == 2) {
          f.len = std::make_shared<Field>();
          f.len->ft = U32;
          f.len->opt = f.opt;
          f.explicit_len = c.chance(1, 2);
          if (f.explicit_len) {
            f.len->name = std::string("ln") + char('a' + c.draw(3));
            // a length field may not share its name with a sibling's storage
            static const Op ops[] = {NONE, COPY, DELTA, INCREMENT, DEFAULT, CONSTANT};
            f.len->op = ops[c.pick({3, 4, 3, 3, 3, 1})];
            bool must = f.len->op == CONSTANT || (f.len->op == DEFAULT && !f.opt);
            f.len->has_init = f.len->op != NONE && (must || c.chance(1, 3));
            if (f.len->has_init) { f.len->init.present = true; f.len->init.u = c.draw(4); }
            dict_attrs(f.len->key, f.len->dict, ft_pool[U32], op_uses_dict(f.len->op));
          }
        }
        if (o.json && k == 2 && c.chance(1, 3)) { // elements without a name
          f.sub.push_back(scalar(pick_scalar(), {}));
          f.sub[0].name = "";
          // a field without a name needs a key of its own type
          FT uft = f.sub[0].ft;
          f.sub[0].key = op_uses_dict(f.sub[0].op) ? std::string("ku") + (f.sub[0].indiv ? "exp" : uft == ENM || uft == BOO || uft == SET_ ? ft_pool[U64] : ft_pool[uft]) : "";
          if (f.sub[0].indiv) f.sub[0].mkey = op_uses_dict(f.sub[0].mop) ? "kuman" : "";
          if (f.sub[0].opt && c.chance(3, 4)) f.sub[0].opt = false;
          if (f.sub[0].op == DEFAULT && !f.sub[0].has_init) f.sub[0].op = NONE;
        } else
        { bool e = in_seq; in_seq |= f.ft == SEQ; f.sub = container(depth + 1, allow_dyn, ti); in_seq = e; }
        fs.push_back(std::move(f));
      } else if (k == 3) {
        Field f;
        f.ft = TREF;
        fs.push_back(f);
      } else {
        const Template &r = d.t[c.draw(ti)];
        if (!r.dict.empty() || !r.typeref.empty() || r.f.empty()) continue;
        bool ok = true;
        for (auto &x : r.f) if (used.count(x.name) || !ref_safe(x)) ok = false;
        if (!ok) continue;
        for (auto &x : fs) if (x.via_ref == r.name) ok = false;
        if (!ok || (!allow_dyn && has_dynref(r.f))) continue;
        ++nref;
        for (auto x : r.f) {
          x.via_ref = r.name;
          x.via_n = nref;
          if (!x.name.empty()) used.insert(x.name);
          fs.push_back(std::move(x));
        }
      }
    }
    // the compiled codecs have no sequences whose only member is a dynamic reference
    if (fs.empty() || (o.codegen && depth && fs.size() == 1 && fs[0].ft == TREF)) fs.push_back(scalar(U32, used));
    return fs;
  }

  // a field may be pulled in through a static reference only if its
  // dictionary scoping does not depend on the enclosing template
  static bool ref_safe(const Field &f) {
    auto bad = [](const std::string &s) { return s == "template" || s == "type"; };
    if (bad(f.dict) || bad(f.mdict) || bad(f.gdict) || !f.typeref.empty()) return false;
    if (f.ft == TREF) return true;
    if (f.len && bad(f.len->dict)) return false;
    for (auto &x : f.sub) if (!ref_safe(x)) return false;
    return true;
  }

  Doc run() {
    if (o.dicts && c.chance(1, 5)) {
      static const char *const ds[] = {"template", "user1", "type", "global"};
      d.dict = ds[c.draw(4)];
    }
    if (o.dicts && c.chance(1, 6)) d.ns = "http://n0";
    if (o.enums && o.defines && (o.refs || c.chance(1, 2))) {
      int n = 1 + c.draw(2);
      for (int i = 0; i < n; ++i) {
        Field e;
        e.ft = ENM;
        e.name = "En" + std::to_string(i);
        odd_name(e.name);
        size_t k = 1 + c.draw(4);
        e.evals_in_xml = c.chance(1, 2);
        uint64_t v = 0;
        for (size_t j = 0; j < k; ++j) {
          e.enames.push_back("D" + std::to_string(i) + "_" + std::to_string(j));
          e.eplain.push_back(e.evals_in_xml && c.chance(1, 3));
          if (e.evals_in_xml) v = e.eplain[j] ? (j ? v + 1 : 0) : (j ? v + 1 : 0) + c.draw(5);
          e.evals.push_back(e.evals_in_xml ? v : j);
        }
        d.defines += "<define name=\"" + e.name + "\"><enum>";
        for (size_t j = 0; j < k; ++j) {
          d.defines += "<element name=\"" + e.enames[j] + "\"";
          if (e.evals_in_xml && !e.eplain[j]) d.defines += " value=\"" + std::to_string(e.evals[j]) + "\"";
          d.defines += "/>";
        }
        d.defines += "</enum></define>\n";
        enum_defs.push_back(e);
      }
    }
    if (o.gdefs && !o.scalars_only && !o.json && (o.refs || c.chance(1, 3))) {
      int n = 1 + c.draw(2);
      for (int i = 0; i < n; ++i) {
        Ctx::Scope sc(c);
        std::vector<Field> keep;
        keep.swap(group_defs);
        Field g;
        g.ft = c.chance(1, 2) && o.groups ? GRP : SEQ;
        g.name = std::string(o.name_prefix) + "Gd" + std::to_string(i);
        odd_name(g.name);
        if (o.dicts && c.chance(1, 5)) g.gdict = c.chance(1, 2) ? "user1" : "template";
        if (g.ft == SEQ) {
          g.len = std::make_shared<Field>();
          g.len->ft = U32;
          if ((g.explicit_len = c.chance(1, 2))) {
            g.len->name = "lnd";
            static const Op ops[] = {NONE, COPY, DELTA, INCREMENT};
            g.len->op = ops[c.pick({3, 4, 3, 3})];
            if (g.len->op != NONE && c.chance(1, 3)) { g.len->has_init = g.len->init.present = true; g.len->init.u = c.draw(4); }
            dict_attrs(g.len->key, g.len->dict, ft_pool[U32], op_uses_dict(g.len->op));
          }
        }
        bool e = in_seq;
        in_seq |= g.ft == SEQ;
        g.sub = container(o.depth > 1 ? o.depth - 1 : o.depth, false, 0);
        in_seq = e;
        d.defines += "<define name=\"" + g.name + "\">";
        emit_field(d.defines, g, "");
        d.defines += "</define>\n";
        keep.swap(group_defs);
        group_defs.push_back(std::move(g));
      }
    }
    int n = o.min_templates + c.draw(o.max_templates - o.min_templates + 1);
    for (int i = 0; i < n; ++i) {
      Ctx::Scope sc(c);
      Template t;
      t.name = o.name_prefix + std::to_string(i);
      odd_name(t.name);
      t.id = o.id_base + i;
      if (!o.codegen && c.chance(1, 8)) t.id += 100 + 1000 * c.draw(40);
      if (o.dicts && c.chance(1, 4)) {
        static const char *const ds[] = {"template", "user1", "type", "global"};
        t.dict = ds[c.draw(4)];
      }
      if (o.dicts && c.chance(1, 5)) t.typeref = c.chance(1, 2) ? "Ty1" : "Ty2";
      if (o.resets && c.chance(1, 12)) t.reset = true;
      for (auto &x : d.t) if (x.id == t.id) t.id += 1;
      t.f = container(0, i > 0, i);
      d.t.push_back(std::move(t));
    }
    if (o.views) for (int i = 0, n = 1 + c.draw(3); i < n; ++i) d.views.push_back(gen_view(c, d, (int)c.draw(d.t.size()), o.name_prefix + "View" + std::to_string(i)));
    return std::move(d);
  }
};
} // namespace

Doc gen_doc(Ctx &c, const GenOpts &o) {
  Ctx::Scope sc(c);
  Gen g(c, o);
  return g.run();
}

static bool view_path(Ctx &c, const std::vector<Field> &fs, ViewRef &r) {
  std::vector<int> cand;
  for (size_t i = 0; i < fs.size(); ++i) if (fs[i].ft != TREF && (!fs[i].name.empty())) cand.push_back((int)i);
  if (cand.empty()) return false;
  int i = cand[c.draw(cand.size())];
  const Field &f = fs[i];
  if (!r.text.empty()) r.text += ".";
  r.text += f.name;
  r.path.push_back(i);
  if ((f.ft == GRP || f.ft == SEQ) && !c.chance(1, 8)) {
    ViewRef keep = r;
    if (f.ft == SEQ) { int k = (int)c.draw(3); r.text += "[" + std::to_string(k) + "]"; r.path.push_back(k); }
    if (!view_path(c, f.sub, r)) r = keep;
  }
  return true;
}
View gen_view(Ctx &c, const Doc &d, int t, const std::string &name) {
  Ctx::Scope sc(c);
  View v;
  v.name = name;
  v.t = t;
  int n = 1 + (int)c.draw(6);
  for (int i = 0; i < n; ++i) {
    std::vector<ViewRef> alts;
    int k = 1 + c.pick({3, 2, 1});
    for (int j = 0; j < k; ++j) { ViewRef r; if (view_path(c, d.t[t].f, r)) alts.push_back(r); }
    if (!alts.empty()) v.f.push_back(alts);
  }
  return v;
}
bool view_value(const Doc &d, int t, const std::vector<Val> &v, const ViewRef &r, Field *f, Val *out) {
  const std::vector<Field> *fs = &d.t[t].f;
  const std::vector<Val> *vs = &v;
  for (size_t i = 0;;) {
    const Field &x = (*fs)[r.path[i]];
    const Val &y = (*vs)[r.path[i]];
    ++i;
    if (f) *f = x;
    if (!y.present) return false;
    if (i == r.path.size()) { if (out) *out = y; return true; }
    fs = &x.sub;
    if (x.ft == SEQ) {
      size_t k = (size_t)r.path[i++];
      if (k >= y.sub.size()) return false;
      vs = &y.sub[k].sub;
    } else vs = &y.sub;
  }
}

bool needs_pmap_bit(const Field &f) {
  switch (f.ft) {
  case GRP: return f.opt;
  case SEQ: return needs_pmap_bit(*f.len);
  case TREF: return false;
  default: break;
  }
  if (f.ft >= VI32 && f.ft <= VU64) return false;
  auto bit = [](Op op, bool opt) {
    switch (op) {
    case NONE: case DELTA: return false;
    case CONSTANT: return opt;
    default: return true;
    }
  };
  bool r = bit(f.op, f.opt);
  if (f.ft == DEC && f.indiv) r = r || bit(f.mop, false);
  return r;
}
bool segment_needs_pmap(const std::vector<Field> &fs) {
  for (auto &f : fs) if (needs_pmap_bit(f)) return true;
  return false;
}
bool has_dynref(const std::vector<Field> &fs) {
  for (auto &f : fs) if (f.ft == TREF || has_dynref(f.sub)) return true;
  return false;
}

// ------------------------------------------------------------------ values
static int64_t gen_int(Ctx &c, FT ft, const Val *prev) {
  if (prev && prev->present)
    switch (c.pick({3, 3, 2, 6})) {
    case 0: return (int64_t)prev->u;
    case 1:
      if (ft == I32 && (int64_t)prev->u == 2147483647) break;
      if (ft == U32 && prev->u == 4294967295u) break;
      if (ft == I64 && (int64_t)prev->u == INT64_MAX) break;
      if (ft == U64 && prev->u == ~0ull) break;
      return (int64_t)(prev->u + 1);
    case 2: {
      int64_t r = (int64_t)(prev->u + c.draw(9) - 4);
      if (ft == I32 && (r > 2147483647 || r < -2147483648LL)) break;
      if (ft == U32 && (r < 0 || r > 4294967295LL)) break;
      if (ft == U64 && r < 0) break;
      return r;
    }
    default: break;
    }
  bool sg = ft == I32 || ft == I64;
  int bits = (ft == I32 || ft == U32) ? 32 : 64;
  switch (c.draw(6)) {
  case 0: return (int64_t)c.draw(4);
  case 1: return sg ? -(int64_t)c.draw(70) : (int64_t)c.draw(70);
  case 2: { // around a 7-bit boundary
    int k = 7 * (1 + c.draw(bits / 7)) - c.draw(2);
    if (k > bits - (sg ? 1 : 0)) k = bits - (sg ? 1 : 0);
    uint64_t b = k >= 64 ? 0 : 1ull << k;
    uint64_t v = b + c.draw(5) - 2;
    if (sg && c.chance(1, 2)) v = -v;
    if (ft == U32) v &= 0xffffffffu;
    if (ft == I32) v = (int64_t)(int32_t)v;
    return (int64_t)v;
  }
  case 3: // extremes
    if (ft == I32) { static const int64_t e[] = {2147483647, -2147483648LL, 2147483646, -2147483647}; return e[c.draw(4)]; }
    if (ft == U32) { static const int64_t e[] = {4294967295LL, 4294967294LL, 2147483648LL}; return e[c.draw(3)]; }
    if (ft == I64) { static const int64_t e[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1}; return e[c.draw(4)]; }
    { static const uint64_t e[] = {~0ull, ~0ull - 1, 1ull << 63}; return (int64_t)e[c.draw(3)]; }
  default: {
    uint64_t v = c.draw(0);
    v >>= c.draw(bits);
    if (ft == U32) v &= 0xffffffffu;
    if (ft == I32) v = (int64_t)(int32_t)v;
    return (int64_t)v;
  }
  }
}

static std::string gen_str(Ctx &c, FT ft, const Val *prev, int maxlen) {
  auto ch = [&]() -> char {
    if (ft == ASC) return c.chance(1, 8) ? char(1 + c.draw(127)) : "abcdefgh"[c.draw(8)];
    return c.chance(1, 3) ? char(c.draw(256)) : "abcdefgh"[c.draw(8)];
  };
  auto fresh = [&](size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += ch(); return s; };
  if (prev && prev->present) {
    std::string p = prev->s;
    switch (c.pick({3, 3, 3, 3, 3, 2, 8})) {
    case 0: return p;
    case 1: return p + fresh(1 + c.draw(3));
    case 2: return fresh(1 + c.draw(3)) + p;
    case 3: { size_t k = c.draw(p.size() + 1); return p.substr(0, p.size() - k) + fresh(k); }
    case 4: { size_t k = c.draw(p.size() + 1); return p.substr(0, p.size() - k); }
    case 5: { size_t k = c.draw(p.size() + 1); return p.substr(k); }
    default: break;
    }
  }
  if (c.chance(1, 40)) return fresh(100 + c.draw(200));
  return fresh(c.draw(maxlen + 1));
}

Val ValGen::field(const Field &f, int depth) {
  Val v;
  const std::string key = f.name.empty() ? std::to_string(f.ft) : f.name;
  auto it = recent.find(key);
  const Val *prev = it == recent.end() ? nullptr : &it->second;
  if (f.ft != GRP && f.ft != SEQ && f.ft != TREF) {
    if (f.opt && c.chance(1, 4)) return v;
    v.present = true;
    if (f.op == CONSTANT && !f.indiv) { v = f.init; v.present = true; return v; }
    if (f.has_init && !f.indiv && c.chance(1, 3)) { v = f.init; v.present = true; recent[key] = v; return v; }
  }
  switch (f.ft) {
  case I32: case U32: case I64: case U64: v.u = (uint64_t)gen_int(c, f.ft, prev); break;
  case DEC: {
    if (prev && c.chance(1, 3)) { v.exp = prev->exp; v.u = prev->u; if (c.chance(1, 2)) v.u = (uint64_t)((int64_t)v.u / 2 + (int64_t)c.draw(5)); }
    else {
      v.exp = c.chance(1, 5) ? (int)c.draw(127) - 63 : (int)c.draw(9) - 4;
      v.u = c.chance(1, 4) ? (uint64_t)((int64_t)c.draw(0) >> (1 + c.draw(40))) : (uint64_t)((int64_t)c.draw(100000) - 50000);
    }
    if (f.indiv) {
      if (f.op == CONSTANT) v.exp = f.init.exp;
      else if (f.has_init && c.chance(1, 3)) v.exp = f.init.exp;
      if (f.mop == CONSTANT) v.u = (uint64_t)f.minit;
      else if (f.mhas_init && c.chance(1, 3)) v.u = (uint64_t)f.minit;
      else if (f.mop == INCREMENT && prev && c.chance(1, 2) && (int64_t)prev->u < INT64_MAX) v.u = prev->u + 1;
    }
    break;
  }
  case ASC: case UNI: case BYT: v.s = gen_str(c, f.ft, prev, max_str); break;
  case VI32: case VU32: case VI64: case VU64: {
    size_t n = c.chance(1, 20) ? 20 + c.draw(40) : c.draw(5);
    FT e = FT(I32 + (f.ft - VI32));
    for (size_t i = 0; i < n; ++i) v.vec.push_back((uint64_t)gen_int(c, e, nullptr));
    break;
  }
  case ENM: v.u = f.evals[c.draw(f.evals.size())]; break;
  case BOO: v.u = c.draw(2); break;
  case SET_: v.u = c.draw(1ull << f.enames.size()); break;
  case GRP:
    if (f.opt && c.chance(1, 3)) return v;
    v.present = true;
    v.sub = fields(f.sub, depth);
    break;
  case SEQ: {
    bool konst = f.len->op == CONSTANT;
    if (f.opt && c.chance(1, 3)) return v;
    v.present = true;
    uint64_t n = c.draw(max_seq + 1);
    if (c.chance(1, 60)) n = 40 + c.draw(60);
    if (konst || (f.len->has_init && c.chance(1, 3))) n = f.len->init.u;
    for (uint64_t i = 0; i < n; ++i) {
      Ctx::Scope sc(c);
      Val e;
      e.present = true;
      e.sub = fields(f.sub, depth + 1);
      v.sub.push_back(std::move(e));
    }
    return v;
  }
  case TREF: {
    v.present = true;
    int cand = (int)c.draw(d.t.size());
    if (depth >= 2 || has_dynref(d.t[cand].f)) {
      // fall back to the nearest template without further nesting
      if (depth >= 1) while (has_dynref(d.t[cand].f)) --cand;
    }
    v.tmpl = cand;
    v.sub = fields(d.t[cand].f, depth + 1);
    return v;
  }
  default: break;
  }
  if (f.ft != GRP) recent[key] = v;
  return v;
}

std::vector<Val> ValGen::fields(const std::vector<Field> &fs, int depth) {
  std::vector<Val> r;
  for (auto &f : fs) r.push_back(field(f, depth));
  return r;
}

Val ValGen::message(int ti, int depth) {
  Ctx::Scope sc(c);
  Val v;
  v.present = true;
  v.tmpl = ti;
  v.sub = fields(d.t[ti].f, depth);
  return v;
}

static bool same1(const Field &f, const Val &a, const Val &b, const Doc &d, std::string *w, bool len) {
  auto no = [&](const std::string &m) { if (w) *w = f.name + ": " + m + *w; return false; };
  if (len && !a.present && b.present && f.op == DEFAULT && f.opt && f.has_init && !f.indiv && f.ft != SEQ && f.ft != GRP && f.ft != TREF) {
    Val i = f.init;
    i.present = true;
    return same1(f, i, b, d, w, false);
  }
  if (a.present != b.present) return no(std::string("presence ") + (a.present ? "expected present" : "expected absent"));
  if (!a.present) return true;
  switch (f.ft) {
  case I32: case I64: if (a.u != b.u) return no("expected " + std::to_string((int64_t)a.u) + " got " + std::to_string((int64_t)b.u)); return true;
  case U32: case U64: case ENM: case BOO: case SET_: if (a.u != b.u) return no("expected " + std::to_string(a.u) + " got " + std::to_string(b.u)); return true;
  case DEC: if (a.u != b.u || a.exp != b.exp) return no("expected " + std::to_string((int64_t)a.u) + "e" + std::to_string(a.exp) + " got " + std::to_string((int64_t)b.u) + "e" + std::to_string(b.exp)); return true;
  case ASC: case UNI: case BYT: if (a.s != b.s) return no("expected <" + hexstr(a.s.data(), a.s.size()) + "> got <" + hexstr(b.s.data(), b.s.size()) + ">"); return true;
  case VI32: case VU32: case VI64: case VU64: if (a.vec != b.vec) return no("integer vector differs"); return true;
  case GRP: return same(f.sub, a.sub, b.sub, d, w, len);
  case SEQ:
    if (a.sub.size() != b.sub.size()) return no("length expected " + std::to_string(a.sub.size()) + " got " + std::to_string(b.sub.size()));
    for (size_t i = 0; i < a.sub.size(); ++i) if (!same(f.sub, a.sub[i].sub, b.sub[i].sub, d, w, len)) return no("[" + std::to_string(i) + "].");
    return true;
  case TREF:
    if (a.tmpl != b.tmpl) return no("nested template differs");
    return same(d.t[a.tmpl].f, a.sub, b.sub, d, w, len);
  default: return true;
  }
}

bool same(const std::vector<Field> &f, const std::vector<Val> &a, const std::vector<Val> &b, const Doc &d, std::string *where, bool len) {
  if (a.size() != f.size() || b.size() != f.size()) { if (where) *where = "field count"; return false; }
  for (size_t i = 0; i < f.size(); ++i) if (!same1(f[i], a[i], b[i], d, where, len)) return false;
  return true;
}

static void show1(std::string &o, const Field &f, const Val &v, const Doc &d) {
  if (f.ft != TREF) o += f.name + "=";
  if (!v.present) { o += "-"; return; }
  switch (f.ft) {
  case I32: case I64: o += std::to_string((int64_t)v.u); break;
  case U32: case U64: case ENM: case BOO: case SET_: o += std::to_string(v.u); break;
  case DEC: o += std::to_string((int64_t)v.u) + "e" + std::to_string(v.exp); break;
  case ASC: case UNI: case BYT: o += "<" + hexstr(v.s.data(), v.s.size(), 24) + ">"; break;
  case VI32: case VU32: case VI64: case VU64: o += "[" + std::to_string(v.vec.size()) + " ints]"; break;
  case GRP: o += "{" + show(f.sub, v.sub, d) + "}"; break;
  case SEQ:
    o += "[";
    for (auto &e : v.sub) o += "{" + show(f.sub, e.sub, d) + "}";
    o += "]";
    break;
  case TREF: o += d.t[v.tmpl].name + "{" + show(d.t[v.tmpl].f, v.sub, d) + "}"; break;
  default: break;
  }
}
std::string show(const std::vector<Field> &f, const std::vector<Val> &v, const Doc &d) {
  std::string o;
  for (size_t i = 0; i < f.size() && i < v.size(); ++i) {
    if (i) o += ' ';
    show1(o, f[i], v[i], d);
    if (o.size() > 400) { o += "..."; break; }
  }
  return o;
}
uint64_t hash_vals(const std::vector<Val> &v) {
  uint64_t h = v.size();
  for (auto &x : v) {
    h = mix(h, x.present);
    if (!x.present) continue;
    h = mix(h, x.u);
    h = mix(h, x.exp);
    h = mix(h, hash_bytes(x.s.data(), x.s.size()));
    for (auto e : x.vec) h = mix(h, e);
    h = mix(h, hash_vals(x.sub) + x.tmpl);
  }
  return h;
}
std::string Doc::describe() const {
  std::string o;
  std::function<void(const std::vector<Field> &)> w = [&](const std::vector<Field> &fs) {
    for (auto &f : fs) {
      o += f.name + ":" + ft_tag[f.ft] + (f.opt ? "?" : "") + (f.op ? std::string("/") + op_names[f.op] : "") + " ";
      if (!f.sub.empty()) { o += "{"; w(f.sub); o += "}"; }
    }
  };
  for (auto &x : t) { o += x.name + "(" + std::to_string(x.id) + "): "; w(x.f); o += "; "; }
  return o;
}
} // namespace sim
