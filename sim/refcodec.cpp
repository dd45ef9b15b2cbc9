#include "refcodec.h"
#include <algorithm>

namespace sim {
typedef unsigned __int128 u128;
typedef __int128 i128;

// --------------------------------------------------------------- resolution
namespace {
struct Scope3 { std::string dict, type; };
struct Resolver {
  RDoc &r;
  std::map<std::string, int> idx;
  std::string tmpl, ns;
  Resolver(RDoc &r) : r(r) {}
  static bool uses(Op op) { return op == COPY || op == DELTA || op == INCREMENT || op == TAIL; }
  int slot(Op op, const std::string &name, const std::string &key, const std::string &dict, const std::string &opns, const Scope3 &s) {
    if (!uses(op)) return -1;
    std::string dn = !dict.empty() ? dict : !s.dict.empty() ? s.dict : "global";
    std::string k = dn;
    if (dn == "template") k += "#" + tmpl;
    if (dn == "type") k += "#" + s.type;
    k += "/" + (opns.empty() ? ns : opns) + "|" + (key.empty() ? name : key);
    auto it = idx.find(k);
    if (it != idx.end()) { r.slot_users[it->second]++; return it->second; }
    int n = (int)r.slot_keys.size();
    r.slot_keys.push_back(k);
    r.slot_users.push_back(1);
    idx[k] = n;
    return n;
  }
  std::vector<RField> list(const std::vector<Field> &fs, const Scope3 &s) {
    std::vector<RField> o;
    for (auto &f : fs) o.push_back(one(f, s));
    return o;
  }
  RField one(const Field &f, const Scope3 &s) {
    RField x;
    x.f = &f;
    if (f.ft == GRP || f.ft == SEQ) {
      Scope3 in = s;
      if (!f.gdict.empty()) in.dict = f.gdict;
      if (!f.typeref.empty()) in.type = "|" + f.typeref;
      x.sub = list(f.sub, in);
      x.pmap = segment_needs_pmap(f.sub);
      if (f.ft == SEQ) {
        x.len = std::make_shared<RField>();
        x.len->f = f.len.get();
        // the length belongs to the scope that encloses the sequence
        x.len->slot = slot(f.len->op, f.len->name, f.len->key, f.len->dict, f.len->opns, s);
      }
    } else if (f.ft != TREF) {
      if (f.ft == DEC && f.indiv) {
        x.mslot = slot(f.mop, f.name + "....mantissa", f.mkey, f.mdict, "", s);
        x.slot = slot(f.op, f.name + "....exponent", f.key, f.dict, "", s);
      } else
        x.slot = slot(f.op, f.name, f.key, f.dict, f.opns, s);
    }
    return x;
  }
};
} // namespace

RDoc::RDoc(const std::vector<const Doc *> &docs) {
  Resolver rs(*this);
  for (auto *d : docs) {
    int base = (int)t.size();
    rs.ns = d->ns;
    for (auto &x : d->t) {
      RTemplate rt;
      rt.t = &x;
      rt.doc = d;
      rt.doc_base = base;
      rs.tmpl = d->ns + "|" + x.name;
      Scope3 s;
      s.dict = x.dict.empty() ? d->dict : x.dict;
      if (!x.typeref.empty()) s.type = "|" + x.typeref;
      rt.f = rs.list(x.f, s);
      t.push_back(std::move(rt));
    }
  }
}
int RDoc::by_id(unsigned id) const {
  for (size_t i = 0; i < t.size(); ++i) if (t[i].t->id == id) return (int)i;
  return -1;
}
uint64_t RState::hash() const {
  uint64_t h = tmpl + 1;
  for (auto &x : e) { h = mix(h, x.s); if (x.s == Entry::ASSIGNED) h = mix(h, hash_vals({x.v})); }
  return h;
}
bool val_eq(FT ft, const Val &a, const Val &b) {
  switch (ft) {
  case ASC: case UNI: case BYT: return a.s == b.s;
  case DEC: return a.u == b.u && a.exp == b.exp;
  default: return a.u == b.u;
  }
}
static Val absent() { return Val(); }
static Val pres(Val v) { v.present = true; return v; }

// ------------------------------------------------------------------ encoder
static void enc_u(std::string &o, u128 v) {
  unsigned char b[12];
  int n = 0;
  do { b[n++] = (unsigned char)(v & 0x7f); v >>= 7; } while (v);
  for (int i = n - 1; i >= 0; --i) o += char(b[i] | (i == 0 ? 0x80 : 0));
}
static void enc_s(std::string &o, i128 v) {
  unsigned char b[12];
  int n = 0;
  for (;;) {
    b[n++] = (unsigned char)(v & 0x7f);
    bool sign = b[n - 1] & 0x40;
    v >>= 7;
    if ((v == 0 && !sign) || (v == -1 && sign)) break;
  }
  for (int i = n - 1; i >= 0; --i) o += char(b[i] | (i == 0 ? 0x80 : 0));
}
static void enc_sn(std::string &o, i128 v, bool nullable) { enc_s(o, nullable && v >= 0 ? v + 1 : v); }
static void enc_un(std::string &o, u128 v, bool nullable) { enc_u(o, nullable ? v + 1 : v); }
static void enc_ascii(std::string &o, const std::string &s, bool nullable) {
  if (s.empty()) {
    if (nullable) o += char(0);
    o += char(0x80);
    return;
  }
  for (size_t i = 0; i < s.size(); ++i) o += char((unsigned char)s[i] | (i + 1 == s.size() ? 0x80 : 0));
}
static void enc_bytes(std::string &o, const std::string &s, bool nullable) {
  enc_un(o, s.size(), nullable);
  o += s;
}

void RefEncoder::put_value(std::string &o, FT ft, bool nullable, const Val &v) {
  switch (ft) {
  case I32: case I64: enc_sn(o, (int64_t)v.u, nullable); break;
  case U32: case U64: case ENM: case BOO: case SET_: enc_un(o, v.u, nullable); break;
  case DEC: enc_sn(o, v.exp, nullable); enc_s(o, (int64_t)v.u); break;
  case ASC: enc_ascii(o, v.s, nullable); break;
  case UNI: case BYT: enc_bytes(o, v.s, nullable); break;
  case VI32: case VU32: case VI64: case VU64:
    enc_un(o, v.vec.size(), nullable);
    for (auto x : v.vec) if (ft == VI32 || ft == VI64) enc_s(o, (int64_t)x); else enc_u(o, x);
    break;
  default: break;
  }
}

std::string RefEncoder::put_pmap(const std::vector<bool> &bits) {
  std::string r;
  size_t n = bits.size();
  while (n && !bits[n - 1]) --n;
  size_t bytes = std::max<size_t>(1, (n + 6) / 7);
  if (o.overlong_pmap && alt(1, 3)) bytes += 1 + c->draw(3);
  for (size_t i = 0; i < bytes; ++i) {
    unsigned b = 0;
    for (size_t k = 0; k < 7; ++k) if (i * 7 + k < bits.size() && bits[i * 7 + k]) b |= 0x40 >> k;
    if (i + 1 == bytes) b |= 0x80;
    r += char(b);
  }
  return r;
}

static bool fits_i64(i128 v, bool nullable) { return v >= INT64_MIN && v <= (i128)INT64_MAX - (nullable ? 1 : 0); }

void RefEncoder::scalar(Seg &s, const Field &f, Op op, FT ft, bool opt, bool has_init, const Val &init, int slot, const Val &v) {
  Entry *e = slot >= 0 ? &st.e[slot] : nullptr;
  bool str = ft == ASC || ft == UNI || ft == BYT;
  if (!v.present && !opt) throw Unencodable{"absent mandatory field"};
  switch (op) {
  case NONE:
    if (!v.present) put_null(s.body); else put_value(s.body, ft, opt, v);
    return;
  case CONSTANT:
    if (v.present && !val_eq(ft, v, init)) throw Unencodable{"not the constant"};
    if (opt) s.bits.push_back(v.present);
    return;
  case DEFAULT: {
    bool impl = v.present ? has_init && val_eq(ft, v, init) : !has_init;
    bool bit = !impl || alt(1, 4);
    s.bits.push_back(bit);
    if (bit) { if (!v.present) put_null(s.body); else put_value(s.body, ft, opt, v); }
    return;
  }
  case COPY: case INCREMENT: {
    bool impl = false;
    if (o.refuse_empty && !opt && e->s == Entry::EMPTY) throw Unencodable{"empty dictionary entry"};
    if (e->s == Entry::ASSIGNED) {
      if (v.present) {
        Val pv = e->v;
        if (op == INCREMENT) {
          if ((ft == I32 && (int64_t)pv.u == INT32_MAX) || (ft == U32 && pv.u == UINT32_MAX) || (ft == I64 && (int64_t)pv.u == INT64_MAX) || (ft == U64 && pv.u == UINT64_MAX)) impl = false;
          else { pv.u += 1; impl = val_eq(ft, pv, v); }
        } else
          impl = val_eq(ft, pv, v);
      }
    } else if (e->s == Entry::UNDEF) {
      if (has_init) impl = v.present && val_eq(ft, v, init);
      else impl = !v.present;
    } else
      impl = !v.present;
    bool bit = !impl || alt(1, 4);
    s.bits.push_back(bit);
    if (bit) { if (!v.present) put_null(s.body); else put_value(s.body, ft, opt, v); }
    e->s = v.present ? Entry::ASSIGNED : Entry::EMPTY;
    e->v = v;
    return;
  }
  case TAIL: {
    bool impl = false;
    std::string base;
    if (e->s == Entry::ASSIGNED) { base = e->v.s; impl = v.present && v.s == base; }
    else {
      if (has_init) base = init.s;
      if (e->s == Entry::UNDEF) impl = has_init ? v.present && v.s == base : !v.present;
      else impl = !v.present;
    }
    std::string tail;
    bool can = false;
    if (v.present) {
      if (v.s.size() > base.size()) { tail = v.s; can = true; }
      else if (v.s.size() == base.size()) {
        size_t k = 0;
        while (k < base.size() && base[k] == v.s[k]) ++k;
        if (alt(1, 4)) k = c->draw(k + 1);
        tail = v.s.substr(k);
        can = true;
      }
    }
    if (v.present && !can && !impl) throw Unencodable{"tail shorter than the base"};
    bool bit = !impl || alt(1, 4);
    s.bits.push_back(bit);
    if (bit) {
      if (!v.present) put_null(s.body);
      else { Val t; t.s = tail; put_value(s.body, ft, opt, t); }
    }
    e->s = v.present ? Entry::ASSIGNED : Entry::EMPTY;
    e->v = v;
    return;
  }
  case DELTA: {
    if (!v.present) { put_null(s.body); return; }
    if (e->s == Entry::EMPTY) throw Unencodable{"delta without a base"};
    if (str) {
      const std::string base = e->s == Entry::ASSIGNED ? e->v.s : has_init ? init.s : std::string();
      const std::string &x = v.s;
      size_t pre = 0, suf = 0;
      while (pre < base.size() && pre < x.size() && base[pre] == x[pre]) ++pre;
      while (suf < base.size() && suf < x.size() && base[base.size() - 1 - suf] == x[x.size() - 1 - suf]) ++suf;
      bool front = suf > pre;
      if (alt(1, 4)) front = !front;
      if (alt(1, 4)) { pre = c->draw(pre + 1); suf = c->draw(suf + 1); }
      if (front) {
        enc_sn(s.body, -(int64_t)(base.size() - suf) - 1, opt);
        Val t; t.s = x.substr(0, x.size() - suf);
        put_value(s.body, ft, false, t);
      } else {
        enc_sn(s.body, (int64_t)(base.size() - pre), opt);
        Val t; t.s = x.substr(pre);
        put_value(s.body, ft, false, t);
      }
    } else if (ft == DEC) {
      Val base; if (e->s == Entry::ASSIGNED) base = e->v; else if (has_init) base = init;
      int de = v.exp - base.exp;
      i128 dm = (i128)(int64_t)v.u - (int64_t)base.u;
      if (de < -63 || de > 63 || !fits_i64(dm, false)) throw Unencodable{"delta too large"};
      enc_sn(s.body, de, opt);
      enc_s(s.body, dm);
    } else {
      Val base; if (e->s == Entry::ASSIGNED) base = e->v; else if (has_init) base = init;
      i128 dl;
      if (ft == I32 || ft == I64) dl = (i128)(int64_t)v.u - (int64_t)base.u;
      else dl = (i128)v.u - (i128)base.u;
      if (!fits_i64(dl, opt)) throw Unencodable{"delta too large"};
      enc_sn(s.body, dl, opt);
    }
    e->s = Entry::ASSIGNED;
    e->v = v;
    return;
  }
  }
}

void RefEncoder::field(Seg &s, const RField &r, const Val &v, int base) {
  const Field &f = *r.f;
  switch (f.ft) {
  case GRP: {
    if (f.opt) { s.bits.push_back(v.present); if (!v.present) return; }
    else if (!v.present) throw Unencodable{"absent mandatory group"};
    if (r.pmap) {
      Seg in;
      fields(in, r.sub, v.sub, base);
      s.body += put_pmap(in.bits) + in.body;
    } else fields(s, r.sub, v.sub, base);
    return;
  }
  case SEQ: {
    Val l;
    l.present = v.present;
    l.u = v.sub.size();
    scalar(s, *r.len->f, r.len->f->op, U32, f.opt, r.len->f->has_init, r.len->f->init, r.len->slot, l);
    if (v.present)
      for (auto &el : v.sub) {
        if (r.pmap) {
          Seg in;
          fields(in, r.sub, el.sub, base);
          s.body += put_pmap(in.bits) + in.body;
        } else fields(s, r.sub, el.sub, base);
      }
    return;
  }
  case TREF: {
    if (!v.present) throw Unencodable{"empty nested message"};
    Seg in;
    const RTemplate &t = d.t[base + v.tmpl];
    int saved = st.tmpl;
    bool same = st.tmpl == base + v.tmpl && alt(1, 2);
    in.bits.push_back(!same);
    if (!same) enc_u(in.body, t.t->id);
    if (t.t->reset) st.reset();
    st.tmpl = base + v.tmpl;
    fields(in, t.f, v.sub, base);
    st.tmpl = saved;
    s.body += put_pmap(in.bits) + in.body;
    return;
  }
  case VI32: case VU32: case VI64: case VU64:
    if (!v.present) { if (!f.opt) throw Unencodable{"absent mandatory field"}; put_null(s.body); } else put_value(s.body, f.ft, f.opt, v);
    return;
  case DEC:
    if (f.indiv) {
      Val ex, mi;
      ex.present = v.present;
      ex.u = (uint64_t)(int64_t)v.exp;
      Val xi;
      xi.present = true;
      xi.u = (uint64_t)(int64_t)f.init.exp;
      if (v.present && f.op == DELTA && r.slot >= 0) {
        const Entry &e = st.e[r.slot];
        int64_t b = e.s == Entry::ASSIGNED ? (int64_t)e.v.u : f.has_init ? f.init.exp : 0;
        if (v.exp - b < -63 || v.exp - b > 63) throw Unencodable{"exponent delta too large"};
      }
      scalar(s, f, f.op, I32, f.opt, f.has_init, xi, r.slot, ex);
      if (!v.present) return;
      Val m;
      m.present = true;
      m.u = v.u;
      mi.present = true;
      mi.u = (uint64_t)f.minit;
      scalar(s, f, f.mop, I64, false, f.mhas_init, mi, r.mslot, m);
      return;
    }
    // fallthrough
  default:
    scalar(s, f, f.op, f.ft, f.opt, f.has_init, f.init, r.slot, v);
  }
}
void RefEncoder::fields(Seg &s, const std::vector<RField> &fs, const std::vector<Val> &v, int base) {
  for (size_t i = 0; i < fs.size(); ++i) field(s, fs[i], v[i], base);
}

std::string RefEncoder::encode(int gt, const std::vector<Val> &v, bool force_id) {
  RState saved = st;
  try {
    Seg s;
    const RTemplate &t = d.t[gt];
    bool id = force_id || st.tmpl != gt || alt(1, 4);
    s.bits.push_back(id);
    if (id) enc_u(s.body, t.t->id);
    st.tmpl = gt;
    if (t.t->reset) st.reset();
    fields(s, t.f, v, t.doc_base);
    return put_pmap(s.bits) + s.body;
  } catch (Unencodable &) {
    st = saved;
    throw;
  }
}

// ------------------------------------------------------------------ decoder
RefDecoder::PMap RefDecoder::pmap() {
  PMap m;
  for (;;) {
    unsigned char b = byte();
    ++m.bytes;
    for (int k = 0; k < 7; ++k) m.bits.push_back(b & (0x40 >> k));
    if (b & 0x80) break;
    if (m.bytes > 4096) throw RefUnspecified{"presence map"};
  }
  if (strict && m.bytes > 1) {
    bool any = false;
    for (int k = 0; k < 7; ++k) any |= m.bits[m.bits.size() - 1 - k];
    if (!any) notes += "overlong presence map; ";
  }
  return m;
}
void RefDecoder::check_pmap(const PMap &m) {
  for (size_t i = m.pos; i < m.bits.size(); ++i) if (m.bits[i]) { if (strict) notes += "unused presence map bit set; "; return; }
}

bool RefDecoder::integer(bool sg, int bits, bool nullable, uint64_t &u, bool delta) {
  (void)delta;
  unsigned char b = byte();
  i128 v = sg && (b & 0x40) ? -1 : 0;
  int n = 1;
  unsigned char first = b, second = 0;
  for (;;) {
    v = (i128)((u128)v << 7 | (b & 0x7f));
    if (b & 0x80) break;
    b = byte();
    if (++n == 2) second = b;
    if (n > 11) throw RefUnspecified{"overlong integer"};
  }
  if (n > 1) {
    bool over = sg ? ((first & 0x7f) == 0 && !(second & 0x40)) || ((first & 0x7f) == 0x7f && (second & 0x40)) : (first & 0x7f) == 0;
    if (over) { if (strict) notes += "overlong integer; "; }
  }
  if (nullable) {
    if (v == 0) { if (n > 1) throw RefUnspecified{"overlong null"}; return false; }
    if (v > 0) v -= 1;
  }
  i128 lo = 0, hi = 0;
  if (sg) { lo = -((i128)1 << (bits - 1)); hi = ((i128)1 << (bits - 1)) - 1; }
  else hi = ((i128)1 << bits) - 1;
  if (v < lo || v > hi) throw RefError{"R4/R6"};
  u = (uint64_t)v;
  return true;
}

bool RefDecoder::ascii(bool nullable, std::string &s, bool) {
  s.clear();
  unsigned char b;
  do { b = byte(); s += char(b & 0x7f); if (s.size() > 1u << 20) throw RefUnspecified{"string"}; } while (!(b & 0x80));
  if (s[0] == 0) {
    if (s.size() == 1) { s.clear(); return !nullable; }
    bool allz = true;
    for (char ch : s) if (ch) allz = false;
    if (nullable && allz && s.size() == 2) { s.clear(); return true; }
    throw RefUnspecified{"ascii with leading zero"};
  }
  return true;
}

bool RefDecoder::value(FT ft, bool nullable, Val &v) {
  v = Val();
  uint64_t u = 0;
  switch (ft) {
  case I32: if (!integer(true, 32, nullable, v.u)) return false; break;
  case U32: if (!integer(false, 32, nullable, v.u)) return false; break;
  case I64: if (!integer(true, 64, nullable, v.u)) return false; break;
  case U64: case ENM: case BOO: case SET_: if (!integer(false, 64, nullable, v.u)) return false; break;
  case DEC:
    if (!integer(true, 32, nullable, u)) return false;
    v.exp = (int)(int64_t)u;
    if (v.exp < -63 || v.exp > 63) throw RefUnspecified{"exponent"}; // R1
    integer(true, 64, false, v.u);
    break;
  case ASC: if (!ascii(nullable, v.s)) return false; break;
  case UNI: case BYT: {
    if (!integer(false, 32, nullable, u)) return false;
    if (u > (uint64_t)(e - p)) throw RefTrunc();
    v.s.assign((const char *)p, u);
    p += u;
    break;
  }
  case VI32: case VU32: case VI64: case VU64: {
    if (!integer(false, 32, nullable, u)) return false;
    if (u > max_elems) { if (u > (uint64_t)(e - p)) throw RefTrunc(); throw RefUnspecified{"long vector"}; }
    for (uint64_t i = 0; i < u; ++i) {
      uint64_t x = 0;
      integer(ft == VI32 || ft == VI64, ft == VI32 || ft == VU32 ? 32 : 64, false, x);
      v.vec.push_back(x);
    }
    break;
  }
  default: break;
  }
  v.present = true;
  return true;
}

void RefDecoder::scalar(PMap &m, Op op, FT ft, bool opt, bool has_init, const Val &init, int slot, Val &v) {
  Entry *en = slot >= 0 ? &st.e[slot] : nullptr;
  bool str = ft == ASC || ft == UNI || ft == BYT;
  switch (op) {
  case NONE: value(ft, opt, v); return;
  case CONSTANT:
    if (opt && !m.next()) { v = absent(); return; }
    v = pres(init);
    return;
  case DEFAULT:
    if (m.next()) value(ft, opt, v);
    else if (has_init) v = pres(init);
    else v = absent();
    return;
  case COPY: case INCREMENT:
    if (m.next()) value(ft, opt, v);
    else if (en->s == Entry::ASSIGNED) {
      v = pres(en->v);
      if (op == INCREMENT) {
        if (ft == I32) v.u = (uint64_t)(int64_t)(int32_t)((uint32_t)v.u + 1);
        else if (ft == U32) v.u = (uint32_t)(v.u + 1);
        else v.u += 1;
      }
    } else if (en->s == Entry::UNDEF) {
      if (has_init) v = pres(init);
      else if (opt) v = absent();
      else throw RefError{"D5"};
    } else {
      if (!opt) throw RefError{"D6"};
      v = absent();
    }
    en->s = v.present ? Entry::ASSIGNED : Entry::EMPTY;
    en->v = v;
    return;
  case TAIL:
    if (m.next()) {
      std::string base = en->s == Entry::ASSIGNED ? en->v.s : has_init ? init.s : std::string();
      if (value(ft, opt, v)) {
        if (v.s.size() < base.size()) v.s = base.substr(0, base.size() - v.s.size()) + v.s;
      }
    } else if (en->s == Entry::ASSIGNED) v = pres(en->v);
    else if (en->s == Entry::UNDEF) {
      if (has_init) v = pres(init);
      else if (opt) v = absent();
      else throw RefError{"D6"};
    } else {
      if (!opt) throw RefError{"D7"};
      v = absent();
    }
    en->s = v.present ? Entry::ASSIGNED : Entry::EMPTY;
    en->v = v;
    return;
  case DELTA: {
    v = Val();
    if (str) {
      uint64_t u;
      if (!integer(true, 32, opt, u)) return; // absent, entry unchanged
      int64_t sub = (int64_t)u;
      Val t;
      value(ft, false, t);
      if (en->s == Entry::EMPTY) throw RefError{"D6"};
      std::string base = en->s == Entry::ASSIGNED ? en->v.s : has_init ? init.s : std::string();
      uint64_t cut = sub >= 0 ? (uint64_t)sub : (uint64_t)(-sub - 1);
      if (cut > base.size()) throw RefError{"D7"};
      v.s = sub >= 0 ? base.substr(0, base.size() - cut) + t.s : t.s + base.substr(cut);
    } else if (ft == DEC) {
      uint64_t u;
      if (!integer(true, 32, opt, u)) return;
      int64_t de = (int64_t)u;
      integer(true, 64, false, u);
      if (en->s == Entry::EMPTY) throw RefError{"D6"};
      Val base; if (en->s == Entry::ASSIGNED) base = en->v; else if (has_init) base = init;
      int64_t ne = base.exp + de;
      i128 nm = (i128)(int64_t)base.u + (int64_t)u;
      if (ne < -63 || ne > 63 || nm < INT64_MIN || nm > INT64_MAX) throw RefUnspecified{"delta overflow"};
      v.exp = (int)ne;
      v.u = (uint64_t)(int64_t)nm;
    } else {
      uint64_t u;
      if (!integer(true, 64, opt, u)) return;
      if (en->s == Entry::EMPTY) throw RefError{"D6"};
      Val base; if (en->s == Entry::ASSIGNED) base = en->v; else if (has_init) base = init;
      i128 b = (ft == I32 || ft == I64) ? (i128)(int64_t)base.u : (i128)base.u;
      b += (int64_t)u;
      i128 lo = ft == I32 ? INT32_MIN : ft == I64 ? INT64_MIN : 0;
      i128 hi = ft == I32 ? (i128)INT32_MAX : ft == I64 ? (i128)INT64_MAX : ft == U32 ? (i128)UINT32_MAX : (i128)UINT64_MAX;
      if (b < lo || b > hi) throw RefUnspecified{"delta overflow"};
      v.u = (uint64_t)b;
    }
    v.present = true;
    en->s = Entry::ASSIGNED;
    en->v = v;
    return;
  }
  }
}

void RefDecoder::field(PMap &m, const RField &r, Val &v, int base) {
  const Field &f = *r.f;
  where = f.name;
  switch (f.ft) {
  case GRP:
    if (f.opt && !m.next()) { v = Val(); return; }
    v.present = true;
    if (r.pmap) { PMap in = pmap(); fields(in, r.sub, v.sub, base); check_pmap(in); }
    else fields(m, r.sub, v.sub, base);
    return;
  case SEQ: {
    Val l;
    scalar(m, r.len->f->op, U32, f.opt, r.len->f->has_init, r.len->f->init, r.len->slot, l);
    if (!l.present) { v = Val(); return; }
    v.present = true;
    if (l.u > max_elems) throw RefUnspecified{"long sequence"};
    for (uint64_t i = 0; i < l.u; ++i) {
      Val el;
      el.present = true;
      if (r.pmap) { PMap in = pmap(); fields(in, r.sub, el.sub, base); check_pmap(in); }
      else fields(m, r.sub, el.sub, base);
      v.sub.push_back(std::move(el));
    }
    return;
  }
  case TREF: {
    PMap in = pmap();
    int saved = st.tmpl, gt = st.tmpl;
    if (in.next()) {
      uint64_t id;
      integer(false, 32, false, id);
      gt = d.by_id((unsigned)id);
      if (gt < 0) throw RefError{"D9"};
    } else if (gt < 0) throw RefError{"D9"};
    if (d.t[gt].doc_base != base) throw RefUnspecified{"foreign nested template"};
    if (d.t[gt].t->reset) st.reset();
    st.tmpl = gt;
    v.present = true;
    v.tmpl = gt - base;
    fields(in, d.t[gt].f, v.sub, base);
    check_pmap(in);
    st.tmpl = saved;
    return;
  }
  case VI32: case VU32: case VI64: case VU64: value(f.ft, f.opt, v); return;
  case DEC:
    if (f.indiv) {
      Val ex, xi, mi, mv;
      xi.present = mi.present = true;
      xi.u = (uint64_t)(int64_t)f.init.exp;
      scalar(m, f.op, I32, f.opt, f.has_init, xi, r.slot, ex);
      if (!ex.present) { v = Val(); return; }
      if ((int64_t)ex.u < -63 || (int64_t)ex.u > 63) throw RefUnspecified{"exponent"};
      mi.u = (uint64_t)f.minit;
      scalar(m, f.mop, I64, false, f.mhas_init, mi, r.mslot, mv);
      v = Val();
      v.present = true;
      v.exp = (int)(int64_t)ex.u;
      v.u = mv.u;
      return;
    }
    // fallthrough
  default:
    scalar(m, f.op, f.ft, f.opt, f.has_init, f.init, r.slot, v);
  }
}
void RefDecoder::fields(PMap &m, const std::vector<RField> &fs, std::vector<Val> &v, int base) {
  v.clear();
  v.resize(fs.size());
  for (size_t i = 0; i < fs.size(); ++i) field(m, fs[i], v[i], base);
}

int RefDecoder::decode(const unsigned char *&pp, const unsigned char *ee, std::vector<Val> &out, bool force_reset) {
  if (force_reset) st.tmpl = d.t.size() == 1 ? 0 : -1;
  p = pp;
  e = ee;
  PMap m = pmap();
  if (m.next()) {
    uint64_t id;
    integer(false, 32, false, id);
    st.tmpl = d.by_id((unsigned)id);
  }
  if (st.tmpl < 0) throw RefError{"D9"};
  int gt = st.tmpl;
  if (force_reset || d.t[gt].t->reset) st.reset();
  fields(m, d.t[gt].f, out, d.t[gt].doc_base);
  check_pmap(m);
  pp = p;
  return gt;
}
} // namespace sim
