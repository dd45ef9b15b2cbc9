#include "describe.h"
#include "session.h"
#include <cstring>

namespace sim {
using namespace mfast;
namespace {
const char *z(const char *s) { return s ? s : ""; }
std::string q(const char *s) { return "'" + std::string(z(s)) + "'"; }
std::string ctx_text(const op_context_t *c) { return c ? " key=" + q(c->key_) + " opns=" + q(c->ns_) + " opdict=" + q(c->dictionary_) : ""; }
std::string int_init(const value_storage &v) { return v.is_empty() ? "" : " init=" + std::to_string(v.get<int64_t>()); }

struct Dumper : field_instruction_visitor {
  std::string o;
  int depth = 0;
  void head(const field_instruction *i) {
    o += std::string(2 * depth, ' ') + "type" + std::to_string(i->field_type()) + " " + q(i->name()) + " ns=" + q(i->ns()) + " id=" + std::to_string(i->id()) + (i->optional() ? " optional" : "") + (i->is_nullable() ? " nullable" : "") + " op=" + std::to_string(i->field_operator()) + " tag=" + std::to_string(i->tag().to_uint64()) + " pmap=" + std::to_string(i->pmap_size());
  }
  template <class I> void integer(const I *i) { head(i); o += ctx_text(i->op_context()) + int_init(i->initial_value()) + "\n"; }
  void visit(const int32_field_instruction *i, void *) override { integer(i); }
  void visit(const uint32_field_instruction *i, void *) override { integer(i); }
  void visit(const int64_field_instruction *i, void *) override { integer(i); }
  void visit(const uint64_field_instruction *i, void *) override { integer(i); }
  void visit(const decimal_field_instruction *i, void *) override {
    head(i);
    o += ctx_text(i->op_context());
    const value_storage &v = i->initial_value();
    if (!v.is_empty()) o += " init=" + std::to_string(v.of_decimal.mantissa_) + "e" + std::to_string(v.of_decimal.exponent_);
    if (auto m = i->mantissa_instruction()) o += " mantissa op=" + std::to_string(m->field_operator()) + ctx_text(m->op_context()) + int_init(m->initial_value());
    o += "\n";
  }
  void string(const ascii_field_instruction *i) {
    head(i);
    o += ctx_text(i->op_context());
    const value_storage &v = i->initial_value();
    if (!v.is_empty()) o += " init=" + hexstr(v.get<const char *>(), v.array_length(), 1000);
  }
  void visit(const ascii_field_instruction *i, void *) override { string(i); o += "\n"; }
  void visit(const unicode_field_instruction *i, void *) override { string(i); o += " len=" + q(i->length_name()) + "," + q(i->length_ns()) + "," + std::to_string(i->length_id()) + "\n"; }
  void visit(const byte_vector_field_instruction *i, void *) override { string(i); o += " len=" + q(i->length_name()) + "," + q(i->length_ns()) + "," + std::to_string(i->length_id()) + "\n"; }
  void subs(const group_field_instruction *g) {
    o += " dict=" + q(g->dictionary()) + " typeref=" + q(g->typeref_name()) + "," + q(g->typeref_ns()) + " segment=" + std::to_string(g->segment_pmap_size()) + "\n";
    ++depth;
    if (depth > 200) throw Violation{"load:depth", "description without end"};
    for (auto s : g->subinstructions()) s->accept(*this, nullptr);
    --depth;
  }
  void visit(const group_field_instruction *i, void *) override { head(i); subs(i); }
  void visit(const sequence_field_instruction *i, void *) override {
    head(i);
    const uint32_field_instruction *l = i->length_instruction();
    o += " length=" + q(l->name()) + (l->optional() ? " optional" : "") + " op=" + std::to_string(l->field_operator()) + ctx_text(l->op_context()) + int_init(l->initial_value());
    if (i->element_instruction()) o += " element=" + q(i->element_instruction()->name());
    subs(i);
  }
  void visit(const template_instruction *i, void *) override {
    head(i);
    o += " templateNs=" + q(i->template_ns()) + (i->has_reset_attribute() ? " reset" : "");
    subs(i);
  }
  void visit(const templateref_instruction *i, void *) override { head(i); o += "\n"; }
  void visit(const int32_vector_field_instruction *i, void *) override { head(i); o += "\n"; }
  void visit(const uint32_vector_field_instruction *i, void *) override { head(i); o += "\n"; }
  void visit(const int64_vector_field_instruction *i, void *) override { head(i); o += "\n"; }
  void visit(const uint64_vector_field_instruction *i, void *) override { head(i); o += "\n"; }
  void visit(const enum_field_instruction *i, void *) override {
    head(i);
    o += ctx_text(i->op_context()) + int_init(i->initial_value()) + " {";
    for (uint64_t k = 0; k < i->num_elements(); ++k) o += q(i->elements()[k]) + "=" + std::to_string(i->element_values() ? i->element_values()[k] : k) + " ";
    o += "}\n";
  }
  void visit(const set_field_instruction *i, void *) override {
    head(i);
    o += ctx_text(i->op_context()) + int_init(i->initial_value()) + " {";
    for (uint64_t k = 0; k < i->num_elements(); ++k) o += q(i->elements()[k]) + " ";
    o += "}\n";
  }
};
} // namespace

std::string describe(const field_instruction *i) { Dumper d; i->accept(d, nullptr); return d.o; }
std::string describe(const templates_description &d) {
  std::string o = "ns=" + q(d.ns()) + " templateNs=" + q(d.template_ns()) + " dict=" + q(d.dictionary()) + "\n";
  for (auto t : d) o += describe(static_cast<const field_instruction *>(t));
  return o;
}
std::string describe(const aggregate_view_info &v) {
  std::string o = "view " + q(v.name_) + " of " + q(v.instruction_->name()) + " depth=" + std::to_string(v.max_depth_) + "\n";
  for (size_t i = 0; i + 1 < v.data_.size(); ++i) {
    o += std::string("  ") + (v.data_[i].cont() ? "or-next " : "") + "prefix " + std::to_string(v.data_[i].prefix_diff()) + ":";
    for (auto p = v.data_[i].nest_indices; *p != -1; ++p) o += " " + std::to_string(*p);
    o += "\n";
  }
  return o;
}
std::string describe_all(const dynamic_templates_description &d) {
  std::string o = describe(static_cast<const templates_description &>(d));
  for (auto i : d.defined_type_instructions()) o += "defined " + describe(i);
  for (auto &v : d.view_infos()) o += describe(v);
  return o;
}
std::string first_diff(const std::string &a, const std::string &b) {
  size_t i = 0, l = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') l = i + 1; ++i; }
  auto line = [&](const std::string &s) { size_t e = s.find('\n', l); return l < s.size() ? s.substr(l, e == std::string::npos ? e : e - l) : std::string("(end)"); };
  return "[" + line(a) + "] / [" + line(b) + "]";
}

namespace {
bool opctx(const op_context_t *c, const std::string &key, const std::string &dict, const std::string &ns, std::string *why) {
  bool ok = std::string(c ? z(c->key_) : "") == key && std::string(c ? z(c->dictionary_) : "") == dict && std::string(c ? z(c->ns_) : "") == ns;
  if (!ok) *why = "key, dictionary or namespace of the operator";
  return ok;
}
bool int_is(const value_storage &v, bool has, uint64_t u, std::string *why) {
  if (v.is_empty() == has || (has && v.get<uint64_t>() != u)) { *why = "initial value"; return false; }
  return true;
}
bool agree_list(const std::vector<Field> &fs, const instructions_view_t &is, std::string *why);
bool agree_field(const Field &f, const field_instruction *i, std::string *why) {
  static const field_type_enum_t fts[] = {field_type_int32, field_type_uint32, field_type_int64, field_type_uint64, field_type_decimal, field_type_ascii_string, field_type_unicode_string, field_type_byte_vector, field_type_int32_vector, field_type_uint32_vector, field_type_int64_vector, field_type_uint64_vector, field_type_group, field_type_sequence, field_type_templateref, field_type_enum, field_type_enum, field_type_set};
  if (i->field_type() != (f.indiv ? field_type_exponent : fts[f.ft])) { *why = "field type"; return false; }
  if (f.ft == TREF) return true;
  if (f.name != z(i->name())) { *why = "name"; return false; }
  if (f.id != i->id()) { *why = "id"; return false; }
  if (f.opt != i->optional()) { *why = "presence"; return false; }
  if (f.tag != i->tag().to_uint64()) { *why = "tag"; return false; }
  if ((int)i->field_operator() != (f.ft == GRP || f.ft == SEQ ? 0 : (int)f.op)) { *why = "operator"; return false; }
  switch (f.ft) {
  case GRP: case SEQ: {
    auto g = static_cast<const group_field_instruction *>(i);
    if (f.gdict != z(g->dictionary())) { *why = "dictionary"; return false; }
    if (f.typeref != z(g->typeref_name())) { *why = "typeRef"; return false; }
    if (f.ft == SEQ) {
      auto l = static_cast<const sequence_field_instruction *>(i)->length_instruction();
      if (l->optional() != f.opt) { *why = "presence of the length"; return false; }
      if (f.explicit_len) {
        if (f.len->name != z(l->name()) || (int)l->field_operator() != (int)f.len->op) { *why = "length"; return false; }
        if (!opctx(l->op_context(), f.len->key, f.len->dict, f.len->opns, why) || !int_is(l->initial_value(), f.len->has_init, f.len->init.u, why)) { *why += " of the length"; return false; }
      } else if (l->field_operator() != operator_none) { *why = "operator of the length"; return false; }
    }
    return agree_list(f.sub, g->subinstructions(), why);
  }
  case I32: case U32: case I64: case U64: case BOO: case ENM: case SET_: {
    auto n = static_cast<const integer_field_instruction_base *>(i);
    if (!opctx(n->op_context(), f.key, f.dict, f.opns, why)) return false;
    if (f.has_init && f.init_implicit) return true;
    if (f.ft != BOO && f.ft != ENM && f.ft != SET_) {
      uint64_t u = f.init.u;
      if (f.ft == I32 || f.ft == U32) { if (f.has_init && (uint32_t)n->initial_value().get<uint64_t>() != (uint32_t)u) { *why = "initial value"; return false; } return n->initial_value().is_empty() != f.has_init || (*why = "initial value", false); }
      return int_is(n->initial_value(), f.has_init, u, why);
    }
    if (f.has_init && n->initial_value().get<uint64_t>() != f.init.u) { *why = "initial value"; return false; }
    if (f.ft == ENM) {
      auto e = static_cast<const enum_field_instruction *>(i);
      if (e->num_elements() != f.enames.size()) { *why = "number of elements"; return false; }
      for (size_t k = 0; k < f.enames.size(); ++k)
        if (f.enames[k] != e->elements()[k] || f.evals[k] != (e->element_values() ? e->element_values()[k] : k)) { *why = "element"; return false; }
    }
    if (f.ft == SET_) {
      auto e = static_cast<const set_field_instruction *>(i);
      if (e->num_elements() != f.enames.size()) { *why = "number of elements"; return false; }
      for (size_t k = 0; k < f.enames.size(); ++k) if (f.enames[k] != e->elements()[k]) { *why = "element"; return false; }
    }
    return true;
  }
  case DEC: {
    auto d = static_cast<const decimal_field_instruction *>(i);
    const value_storage &v = d->initial_value();
    if (!opctx(d->op_context(), f.key, f.dict, f.opns, why)) return false;
    if (v.is_empty() == f.has_init || (f.has_init && v.of_decimal.exponent_ != f.init.exp)) { *why = "initial value"; return false; }
    if (!f.indiv) {
      if (d->mantissa_instruction()) { *why = "individual operators"; return false; }
      if (f.has_init && (uint64_t)v.of_decimal.mantissa_ != f.init.u) { *why = "initial value"; return false; }
      return true;
    }
    auto m = d->mantissa_instruction();
    if (!m || (int)m->field_operator() != (int)f.mop) { *why = "mantissa"; return false; }
    return opctx(m->op_context(), f.mkey, f.mdict, "", why) && int_is(m->initial_value(), f.mhas_init, (uint64_t)f.minit, why);
  }
  case ASC: case UNI: case BYT: {
    auto s = static_cast<const ascii_field_instruction *>(i);
    const value_storage &v = s->initial_value();
    if (!opctx(s->op_context(), f.key, f.dict, f.opns, why)) return false;
    if (v.is_empty() == f.has_init || (f.has_init && std::string(v.get<const char *>(), v.array_length()) != f.init.s)) { *why = "initial value"; return false; }
    return true;
  }
  default: return true;
  }
}
bool agree_list(const std::vector<Field> &fs, const instructions_view_t &is, std::string *why) {
  if (fs.size() != is.size()) { *why = "number of fields"; return false; }
  for (size_t k = 0; k < fs.size(); ++k)
    if (!agree_field(fs[k], is[k], why)) { *why += " of " + fs[k].name; return false; }
  return true;
}
} // namespace
bool agrees(const Template &t, const template_instruction *i, std::string *why) {
  if (t.name != z(i->name()) || t.id != i->id()) { *why = "name or id of template " + t.name; return false; }
  if (t.reset != i->has_reset_attribute()) { *why = "reset of template " + t.name; return false; }
  if (t.dict != z(i->dictionary()) || t.typeref != z(i->typeref_name())) { *why = "dictionary or typeRef of template " + t.name; return false; }
  if (!agree_list(t.f, i->subinstructions(), why)) { *why += " in template " + t.name; return false; }
  return true;
}
} // namespace sim
