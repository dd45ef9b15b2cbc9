#include "bridge.h"
#include "mfast/nested_message_ref.h"
#include "mfast/sequence_ref.h"
#include "mfast/enum_ref.h"
#include "mfast/set_ref.h"
#include "mfast/vector_ref.h"

namespace sim {
using namespace mfast;

template <class T> static void fill_vec(const field_mref &fm, const Val &v) {
  int_vector_mref<T> m(fm);
  m.resize(v.vec.size());
  for (size_t i = 0; i < v.vec.size(); ++i) m[i] = (T)v.vec[i];
}

static void fill1(const field_mref &fm, const Field &f, const Val &v, const Doc &d, const InstOf &inst) {
  switch (f.ft) {
  case I32: { int32_mref m(fm); if (v.present) m.as((int32_t)v.u); else m.omit(); break; }
  case U32: { uint32_mref m(fm); if (v.present) m.as((uint32_t)v.u); else m.omit(); break; }
  case I64: { int64_mref m(fm); if (v.present) m.as((int64_t)v.u); else m.omit(); break; }
  case U64: { uint64_mref m(fm); if (v.present) m.as((uint64_t)v.u); else m.omit(); break; }
  case ENM: case BOO: { enum_mref m(fm); if (v.present) m.as((uint64_t)v.u); else m.omit(); break; }
  case SET_: { set_mref m(fm); if (v.present) m.as((uint64_t)v.u); else m.omit(); break; }
  case DEC: { decimal_mref m(fm); if (v.present) m.as((int64_t)v.u, (int16_t)v.exp); else m.omit(); break; }
  case ASC: { ascii_string_mref m(fm); if (v.present) m.assign(v.s.begin(), v.s.end()); else m.omit(); break; }
  case UNI: { unicode_string_mref m(fm); if (v.present) m.assign(v.s.begin(), v.s.end()); else m.omit(); break; }
  case BYT: { byte_vector_mref m(fm); if (v.present) m.assign(v.s.begin(), v.s.end()); else m.omit(); break; }
  case VI32: if (v.present) fill_vec<int32_t>(fm, v); else int32_vector_mref(fm).omit(); break;
  case VU32: if (v.present) fill_vec<uint32_t>(fm, v); else uint32_vector_mref(fm).omit(); break;
  case VI64: if (v.present) fill_vec<int64_t>(fm, v); else int64_vector_mref(fm).omit(); break;
  case VU64: if (v.present) fill_vec<uint64_t>(fm, v); else uint64_vector_mref(fm).omit(); break;
  case GRP: {
    group_mref m(fm);
    if (!v.present) { m.omit(); break; }
    fill(aggregate_mref(m), f.sub, v.sub, d, inst);
    break;
  }
  case SEQ: {
    sequence_mref m(fm);
    if (!v.present) { m.omit(); break; }
    m.resize(v.sub.size());
    for (size_t i = 0; i < v.sub.size(); ++i) fill(m[i], f.sub, v.sub[i].sub, d, inst);
    break;
  }
  case TREF: {
    if (!v.present) break; // not bound yet
    nested_message_mref m(fm);
    message_mref t = m.rebind(inst(v.tmpl));
    fill(t, d.t[v.tmpl].f, v.sub, d, inst);
    break;
  }
  default: break;
  }
}

void fill(const aggregate_mref &m, const std::vector<Field> &fs, const std::vector<Val> &v, const Doc &d, const InstOf &inst) {
  for (size_t i = 0; i < fs.size(); ++i) fill1(m[i], fs[i], v[i], d, inst);
}

template <class T> static void get_vec(const field_cref &c, Val &v) {
  int_vector_cref<T> m(c);
  v.present = m.present();
  if (!v.present) return;
  for (size_t i = 0; i < m.size(); ++i) v.vec.push_back((uint64_t)(int64_t)m[i]);
}
template <> void get_vec<uint64_t>(const field_cref &c, Val &v) {
  uint64_vector_cref m(c);
  v.present = m.present();
  if (!v.present) return;
  for (size_t i = 0; i < m.size(); ++i) v.vec.push_back(m[i]);
}

static Val get1(const field_cref &c, const Field &f, const Doc &d) {
  Val v;
  switch (f.ft) {
  case I32: { int32_cref m(c); if ((v.present = m.present())) v.u = (uint64_t)(int64_t)m.value(); break; }
  case U32: { uint32_cref m(c); if ((v.present = m.present())) v.u = m.value(); break; }
  case I64: { int64_cref m(c); if ((v.present = m.present())) v.u = (uint64_t)m.value(); break; }
  case U64: { uint64_cref m(c); if ((v.present = m.present())) v.u = m.value(); break; }
  case ENM: case BOO: { enum_cref m(c); if ((v.present = m.present())) v.u = m.value(); break; }
  case SET_: { set_cref m(c); if ((v.present = m.present())) v.u = m.value(); break; }
  case DEC: { decimal_cref m(c); if ((v.present = m.present())) { v.u = (uint64_t)m.mantissa(); v.exp = m.exponent(); } break; }
  case ASC: { ascii_string_cref m(c); if ((v.present = m.present())) v.s.assign(m.data(), m.size()); break; }
  case UNI: { unicode_string_cref m(c); if ((v.present = m.present())) v.s.assign((const char *)m.data(), m.size()); break; }
  case BYT: { byte_vector_cref m(c); if ((v.present = m.present())) v.s.assign((const char *)m.data(), m.size()); break; }
  case VI32: get_vec<int32_t>(c, v); break;
  case VU32: get_vec<uint32_t>(c, v); break;
  case VI64: get_vec<int64_t>(c, v); break;
  case VU64: get_vec<uint64_t>(c, v); break;
  case GRP: { group_cref m(c); if ((v.present = m.present())) v.sub = extract(aggregate_cref(m), f.sub, d); break; }
  case SEQ: {
    sequence_cref m(c);
    if (!(v.present = m.present())) break;
    for (size_t i = 0; i < m.size(); ++i) {
      Val e;
      e.present = true;
      e.sub = extract(m[i], f.sub, d);
      v.sub.push_back(std::move(e));
    }
    break;
  }
  case TREF: {
    nested_message_cref m(c);
    const template_instruction *ti = m.target_instruction();
    if (!ti) break;
    v.present = true;
    for (size_t i = 0; i < d.t.size(); ++i) if (d.t[i].id == ti->id()) v.tmpl = (int)i;
    if (v.tmpl >= 0) v.sub = extract(m.target(), d.t[v.tmpl].f, d);
    break;
  }
  default: break;
  }
  return v;
}

Val extract1(const field_cref &c, const Field &f, const Doc &d) { return get1(c, f, d); }
std::vector<Val> extract(const aggregate_cref &m, const std::vector<Field> &fs, const Doc &d) {
  std::vector<Val> r;
  for (size_t i = 0; i < fs.size(); ++i) r.push_back(get1(m[i], fs[i], d));
  return r;
}
} // namespace sim
