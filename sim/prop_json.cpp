// C17 messages as JSON text over unreliable streams.
#include "prop_common.h"
#include "mfast/json/json.h"
#include "mfast/sequence_ref.h"
#include <algorithm>
#include <set>
#include <sstream>

namespace sim {
namespace {

// ------------------------------------------------ a strict JSON reader (ECMA-404)
struct JV {
  enum K { NUL, TRUE_, FALSE_, NUM, STR, ARR, OBJ } k = NUL;
  std::string s; // text of a number, contents of a string
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV>> o;
};
struct JBad { std::string why; size_t at; };
struct JParser {
  const std::string &t;
  size_t p = 0;
  explicit JParser(const std::string &t) : t(t) {}
  [[noreturn]] void bad(const char *w) { throw JBad{w, p}; }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
  char peek() { if (p >= t.size()) bad("text ends"); return t[p]; }
  void lit(const char *w) { for (; *w; ++w, ++p) if (p >= t.size() || t[p] != *w) bad("bad literal"); }
  static void utf8(std::string &o, uint32_t v) {
    if (v < 0x80) o += char(v);
    else if (v < 0x800) { o += char(0xC0 | v >> 6); o += char(0x80 | (v & 63)); }
    else if (v < 0x10000) { o += char(0xE0 | v >> 12); o += char(0x80 | (v >> 6 & 63)); o += char(0x80 | (v & 63)); }
    else { o += char(0xF0 | v >> 18); o += char(0x80 | (v >> 12 & 63)); o += char(0x80 | (v >> 6 & 63)); o += char(0x80 | (v & 63)); }
  }
  uint32_t hex4() {
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i, ++p) {
      char c = peek();
      v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (bad("bad \\u"), 0));
    }
    return v;
  }
  std::string str() {
    std::string o;
    if (peek() != '"') bad("string expected");
    ++p;
    for (;;) {
      unsigned char c = (unsigned char)peek();
      ++p;
      if (c == '"') return o;
      if (c < 0x20) bad("control character in a string");
      if (c != '\\') { o += (char)c; continue; }
      char e = peek();
      ++p;
      switch (e) {
      case '"': case '\\': case '/': o += e; break;
      case 'b': o += '\b'; break;
      case 'f': o += '\f'; break;
      case 'n': o += '\n'; break;
      case 'r': o += '\r'; break;
      case 't': o += '\t'; break;
      case 'u': {
        uint32_t v = hex4();
        if (v >= 0xD800 && v < 0xDC00) {
          if (peek() != '\\') bad("lone surrogate");
          ++p;
          if (peek() != 'u') bad("lone surrogate");
          ++p;
          v = 0x10000 + ((v - 0xD800) << 10) + (hex4() - 0xDC00);
        }
        utf8(o, v);
        break;
      }
      default: bad("bad escape");
      }
    }
  }
  JV value() {
    JV v;
    ws();
    switch (peek()) {
    case '{':
      v.k = JV::OBJ;
      ++p; ws();
      if (peek() == '}') { ++p; return v; }
      for (;;) {
        ws();
        std::string k = str();
        ws();
        if (peek() != ':') bad(": expected");
        ++p;
        v.o.emplace_back(k, value());
        ws();
        char c = peek();
        ++p;
        if (c == '}') return v;
        if (c != ',') bad(", expected");
      }
    case '[':
      v.k = JV::ARR;
      ++p; ws();
      if (peek() == ']') { ++p; return v; }
      for (;;) {
        v.a.push_back(value());
        ws();
        char c = peek();
        ++p;
        if (c == ']') return v;
        if (c != ',') bad(", expected");
      }
    case '"': v.k = JV::STR; v.s = str(); return v;
    case 't': v.k = JV::TRUE_; lit("true"); return v;
    case 'f': v.k = JV::FALSE_; lit("false"); return v;
    case 'n': lit("null"); return v;
    default: {
      size_t b = p;
      auto digits = [&]() { if (p >= t.size() || !isdigit((unsigned char)t[p])) bad("digit expected"); while (p < t.size() && isdigit((unsigned char)t[p])) ++p; };
      if (t[p] == '-') ++p;
      if (p < t.size() && t[p] == '0') ++p; else digits();
      if (p < t.size() && t[p] == '.') { ++p; digits(); }
      if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; digits(); }
      v.k = JV::NUM;
      v.s = t.substr(b, p - b);
      return v;
    }
    }
  }
};

// exact value of a decimal: sign, digits without leading and trailing zeros, exponent
struct Dec { bool neg = false; std::string d; long e = 0; bool operator==(const Dec &o) const { return d == o.d && (d.empty() || (neg == o.neg && e == o.e)); } };
Dec canon(std::string digits, bool neg, long e) {
  Dec r;
  r.neg = neg;
  size_t b = digits.find_first_not_of('0');
  if (b == std::string::npos) return r;
  digits.erase(0, b);
  while (digits.back() == '0') { digits.pop_back(); ++e; }
  r.d = digits;
  r.e = e;
  return r;
}
Dec dec_of(const std::string &t) {
  size_t p = 0;
  bool neg = t[0] == '-';
  if (neg) ++p;
  std::string d;
  long e = 0;
  for (; p < t.size() && isdigit((unsigned char)t[p]); ++p) d += t[p];
  if (p < t.size() && t[p] == '.') for (++p; p < t.size() && isdigit((unsigned char)t[p]); ++p) { d += t[p]; --e; }
  if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) e += atol(t.c_str() + p + 1);
  return canon(d, neg, e);
}
Dec dec_of(const Val &v) {
  int64_t m = (int64_t)v.u;
  return canon(std::to_string(m < 0 ? 0 - (uint64_t)m : (uint64_t)m), m < 0, v.exp);
}

std::string hexof(const std::string &s) {
  std::string o;
  char b[4];
  for (size_t i = 0; i < s.size(); ++i) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
  return o;
}

struct Masks { unsigned object = 0, ignore = 0; };

bool written(const Field &f, const Val &v, const Masks &m) { return v.present && !(f.tag & m.ignore); }

bool agree(const Field &f, const Val &v, const JV &j, const Doc &d, const Masks &m, std::string *w);
bool agree_obj(const std::vector<Field> &fs, const std::vector<Val> &v, const JV &j, const Doc &d, const Masks &m, std::string *w) {
  auto no = [&](const std::string &x) { *w = x + *w; return false; };
  if (fs.size() == 1 && fs[0].ft == TREF) return agree_obj(d.t[v[0].tmpl].f, v[0].sub, j, d, m, w);
  if (j.k != JV::OBJ) return no("an object expected");
  size_t n = 0;
  for (size_t i = 0; i < fs.size(); ++i) {
    if (!written(fs[i], v[i], m)) continue;
    std::string nm = fs[i].ft == TREF ? "" : fs[i].name;
    if (n >= j.o.size()) return no(nm + ": is missing");
    if (j.o[n].first != nm) return no(nm + ": expected here, found " + j.o[n].first);
    if (!agree(fs[i], v[i], j.o[n].second, d, m, w)) return no(nm + ".");
    ++n;
  }
  if (n != j.o.size()) return no(j.o[n].first + ": is written without being present");
  return true;
}
bool agree(const Field &f, const Val &v, const JV &j, const Doc &d, const Masks &m, std::string *w) {
  auto no = [&](const std::string &x) { *w = x + *w; return false; };
  auto num = [&](const std::string &x) { return (j.k == JV::NUM && j.s == x) || no("expected " + x + " got " + j.s); };
  switch (f.ft) {
  case I32: case I64: return num(std::to_string((int64_t)v.u));
  case U32: case U64: case ENM: case SET_: return num(std::to_string(v.u));
  case BOO: return j.k == (v.u ? JV::TRUE_ : JV::FALSE_) || no("wrong boolean");
  case DEC: return (j.k == JV::NUM && dec_of(j.s) == dec_of(v)) || no("expected " + std::to_string((int64_t)v.u) + "e" + std::to_string(v.exp) + " got " + j.s);
  case ASC: case UNI: return (j.k == JV::STR && j.s == v.s) || no("expected <" + hexstr(v.s.data(), v.s.size()) + "> got <" + hexstr(j.s.data(), j.s.size()) + ">");
  case BYT: {
    if (f.tag & m.object) {
      JParser p(v.s);
      JV x = p.value();
      return (j.k == JV::OBJ && x.o.size() == j.o.size()) || no("embedded object differs");
    }
    std::string h = j.s;
    if (v.s.size() == 16) h.erase(std::remove(h.begin(), h.end(), '-'), h.end());
    return (j.k == JV::STR && h == hexof(v.s)) || no("expected <" + hexof(v.s) + "> got <" + j.s + ">");
  }
  case VI32: case VI64: case VU32: case VU64:
    if (j.k != JV::ARR || j.a.size() != v.vec.size()) return no("array of other size");
    for (size_t i = 0; i < v.vec.size(); ++i) {
      std::string x = f.ft == VI32 || f.ft == VI64 ? std::to_string((int64_t)v.vec[i]) : std::to_string(f.ft == VU32 ? (uint32_t)v.vec[i] : v.vec[i]);
      if (j.a[i].k != JV::NUM || j.a[i].s != x) return no("[" + std::to_string(i) + "] expected " + x + " got " + j.a[i].s);
    }
    return true;
  case GRP: return agree_obj(f.sub, v.sub, j, d, m, w);
  case SEQ:
    if (j.k != JV::ARR || j.a.size() != v.sub.size()) return no("array of other size");
    for (size_t i = 0; i < v.sub.size(); ++i) {
      bool ok = f.sub.size() == 1 && f.sub[0].name.empty() && f.sub[0].ft != TREF ? agree(f.sub[0], v.sub[i].sub[0], j.a[i], d, m, w) : agree_obj(f.sub, v.sub[i].sub, j.a[i], d, m, w);
      if (!ok) return no("[" + std::to_string(i) + "].");
    }
    return true;
  case TREF: return agree_obj(d.t[v.tmpl].f, v.sub, j, d, m, w);
  default: return true;
  }
}

// ------------------------------------------------ another producer of JSON
struct JWriter {
  Ctx &c;
  const Doc &d;
  const Masks &m;
  bool plain; // only what mFAST itself would write
  JWriter(Ctx &c, const Doc &d, const Masks &m) : c(c), d(d), m(m) {}
  std::string sp() {
    if (!c.chance(1, 4)) return "";
    static const char *const s[] = {" ", "\n", "\t", "  ", "\r\n"};
    return s[c.draw(5)];
  }
  std::string str(const std::string &s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size();) {
      unsigned char ch = (unsigned char)s[i];
      uint32_t v = ch;
      int n = ch < 0x80 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : 4;
      if (n > 1) { v = ch & (0xFF >> (n + 1)); for (int k = 1; k < n; ++k) v = v << 6 | ((unsigned char)s[i + k] & 63); }
      static const char from[] = "\b\t\n\f\r\"/\\", to[] = "btnfr\"/\\";
      const char *q = ch && ch < 0x80 ? strchr(from, ch) : nullptr;
      bool must = ch < 0x20 || ch == '"' || ch == '\\';
      if (q && (must ? c.chance(3, 4) : c.chance(1, 6))) { o += '\\'; o += to[q - from]; }
      else if (must || c.chance(1, 8)) {
        char b[16];
        const char *fmt = c.chance(1, 2) ? "\\u%04x" : "\\u%04X";
        if (v >= 0x10000) { snprintf(b, sizeof b, fmt, 0xD800 + ((v - 0x10000) >> 10)); o += b; v = 0xDC00 + ((v - 0x10000) & 0x3FF); c.probe("json.surrogate-pairs"); }
        snprintf(b, sizeof b, fmt, v);
        o += b;
      } else o += s.substr(i, n);
      i += n;
    }
    return o + "\"";
  }
  std::string any(int depth) { // a value of an unknown member
    switch (c.draw(depth > 2 ? 6 : 8)) {
    case 0: return "null";
    case 1: return "true";
    case 2: return "false";
    case 3: return std::to_string((int64_t)c.draw(100000) - 50000);
    case 4: { static const char *const n[] = {"0", "-0", "1.5", "-12.25e3", "1E-7", "18446744073709551615", "0.1"}; return n[c.draw(7)]; }
    case 5: { static const char *const s[] = {"", "a", "]", "}", "\"", "\\", "{[", "\xc3\xa9", "\\\"", "null"}; return str(s[c.draw(10)]); }
    case 6: { std::string o = "["; for (int i = 0, n = (int)c.draw(4); i < n; ++i) o += (i ? "," : "") + sp() + any(depth + 1) + sp(); return o + "]"; }
    default: { std::string o = "{"; for (int i = 0, n = (int)c.draw(4); i < n; ++i) o += (i ? "," : "") + sp() + str("k" + std::to_string(i)) + sp() + ":" + sp() + any(depth + 1) + sp(); return o + "}"; }
    }
  }
  std::string dec(const Val &v) {
    int64_t mt = (int64_t)v.u;
    std::string s = std::to_string(mt < 0 ? 0 - (uint64_t)mt : (uint64_t)mt), o = mt < 0 ? "-" : "";
    long e = v.exp;
    int style = (int)c.draw(3);
    if (style == 0 || e > 25 || e < -40) { // exponent notation
      if (s.size() > 1 && c.chance(1, 2)) { e += (long)s.size() - 1; s.insert(1, "."); }
      static const char *const es[] = {"e", "E"};
      return o + s + (e || c.chance(1, 2) ? std::string(es[c.draw(2)]) + (e >= 0 && c.chance(1, 2) ? "+" : "") + std::to_string(e) : "");
    }
    if (e >= 0) { s += s == "0" ? "" : std::string(e, '0'); return o + s + (style == 2 ? ".0" : ""); }
    while ((long)s.size() <= -e) s = "0" + s;
    s.insert(s.size() + e, ".");
    return o + s + (style == 2 ? "00" : "");
  }
  std::string value(const Field &f, const Val &v) {
    switch (f.ft) {
    case I32: case I64: return std::to_string((int64_t)v.u);
    case BOO: return c.chance(1, 8) ? (v.u ? "1" : "0") : (v.u ? "true" : "false");
    case DEC: return dec(v);
    case ASC: case UNI: return str(v.s);
    case BYT: {
      if (f.tag & m.object) return v.s;
      std::string h = hexof(v.s);
      if (c.chance(1, 3)) for (auto &x : h) x = (char)toupper(x);
      if (v.s.size() == 16 && c.chance(1, 2)) for (int at : {20, 16, 12, 8}) h.insert(at, "-");
      return "\"" + h + "\"";
    }
    case VI32: case VI64: case VU32: case VU64: {
      std::string o = "[" + sp();
      for (size_t i = 0; i < v.vec.size(); ++i) {
        if (i) o += "," + sp();
        o += (f.ft == VI32 || f.ft == VI64 ? std::to_string((int64_t)v.vec[i]) : std::to_string(f.ft == VU32 ? (uint32_t)v.vec[i] : v.vec[i])) + sp();
      }
      return o + "]";
    }
    case GRP: return object(f.sub, v.sub);
    case SEQ: {
      std::string o = "[" + sp();
      for (size_t i = 0; i < v.sub.size(); ++i) {
        if (i) o += "," + sp();
        o += (f.sub.size() == 1 && f.sub[0].name.empty() ? value(f.sub[0], v.sub[i].sub[0]) : object(f.sub, v.sub[i].sub)) + sp();
      }
      return o + "]";
    }
    default: return std::to_string(v.u);
    }
  }
  std::string object(const std::vector<Field> &fs, const std::vector<Val> &v) {
    std::vector<std::string> mem;
    for (size_t i = 0; i < fs.size(); ++i) {
      if (written(fs[i], v[i], m)) mem.push_back(str(fs[i].name) + sp() + ":" + sp() + value(fs[i], v[i]) + sp());
      else if (c.chance(1, 4)) { mem.push_back(str(fs[i].name) + sp() + ":" + sp() + "null" + sp()); c.probe("json.nulls"); }
    }
    if (c.chance(1, 3)) for (size_t i = mem.size(); i > 1; --i) std::swap(mem[i - 1], mem[c.draw(i)]); // any order
    if (c.chance(1, 5)) { mem.insert(mem.begin() + c.draw(mem.size() + 1), str("unknown" + std::to_string(c.draw(9))) + sp() + ":" + sp() + any(0) + sp()); c.probe("json.unknown-members"); }
    std::string o = "{" + sp();
    for (size_t i = 0; i < mem.size(); ++i) o += (i ? "," + sp() : "") + mem[i];
    return o + "}";
  }
};

// ------------------------------------------------ unreliable streams
struct InBuf : std::streambuf { // delivers in pieces, ends or fails early
  std::string t;
  std::vector<size_t> cuts;
  size_t pos = 0, k = 0;
  bool fails;
  InBuf(std::string s, std::vector<size_t> cuts, bool fails) : t(std::move(s)), cuts(std::move(cuts)), fails(fails) {}
  int_type underflow() override {
    if (pos >= t.size()) { if (fails) throw std::runtime_error("read error"); return traits_type::eof(); }
    size_t n = std::min(t.size() - pos, cuts.empty() ? t.size() : cuts[k++ % cuts.size()]);
    char *b = &t[0];
    setg(b + (pos ? pos - 1 : 0), b + pos, b + pos + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
  size_t consumed() const { return pos - (size_t)(egptr() - gptr()); }
};
struct OutBuf : std::streambuf { // accepts a limited number of bytes
  std::string got;
  size_t limit, refused = 0;
  bool throws;
  OutBuf(size_t limit, bool throws) : limit(limit), throws(throws) {}
  int_type overflow(int_type ch) override {
    if (got.size() >= limit) { ++refused; if (throws) throw std::runtime_error("write error"); return traits_type::eof(); }
    got += traits_type::to_char_type(ch);
    return ch;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize k = std::min<std::streamsize>(n, (std::streamsize)(limit - got.size()));
    got.append(s, (size_t)k);
    if (k < n) { ++refused; if (throws) throw std::runtime_error("write error"); }
    return k;
  }
};

std::string utf8_text(Ctx &c, bool ascii) {
  std::string s;
  size_t n = c.chance(1, 20) ? 60 + c.draw(100) : c.draw(12);
  for (size_t i = 0; i < n; ++i)
    switch (c.pick({8, 2, 2, ascii ? 0 : 2, ascii ? 0 : 2})) {
    case 0: s += "abcXYZ 019{}[],:"[c.draw(16)]; break;
    case 1: s += "\"\\/\b\f\n\r\t"[c.draw(8)]; break;
    case 2: s += char(ascii ? 1 + c.draw(127) : c.draw(128)); break;
    case 3: JParser::utf8(s, 0x80 + (uint32_t)c.draw(0xD800 - 0x80)); break;
    default: JParser::utf8(s, c.chance(1, 2) ? 0xE000 + (uint32_t)c.draw(0x2000) : 0x10000 + (uint32_t)c.draw(0x100000)); break;
    }
  return s;
}

// values that JSON can express exactly
void jsonable(Ctx &c, const std::vector<Field> &fs, std::vector<Val> &v, const Doc &d) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    Val &x = v[i];
    if (f.name.empty() && f.ft != TREF && !x.present) { // an element without a name is there
      x.present = true;
      if (f.op == CONSTANT) { x = f.init; x.present = true; }
      if (f.ft == ENM) x.u = f.evals[0];
    }
    if (!x.present) continue;
    switch (f.ft) {
    case ASC: case UNI: if (f.op != CONSTANT) x.s = utf8_text(c, f.ft == ASC); break;
    case BYT:
      if (f.op == CONSTANT) break;
      if (f.tag & 1) { Masks m; JWriter w(c, d, m); std::string o = "{"; for (int k = 0, n = (int)c.draw(4); k < n; ++k) o += (k ? "," : "") + w.str("m" + std::to_string(k)) + ":" + w.any(1); x.s = o + "}"; }
      else if (c.chance(1, 6)) { x.s.clear(); for (int k = 0; k < 16; ++k) x.s += char(c.draw(256)); }
      break;
    case DEC: {
      bool konst = (f.op == CONSTANT); // of the exponent or of the value
      if (f.op == CONSTANT && !f.indiv) break;
      if (konst) break;
      int64_t m = (int64_t)x.u;
      while (m && m % 10 == 0) { m /= 10; ++x.exp; }
      if (x.exp > 63) x.exp = 63;
      if (!m) x.exp = 0;
      x.u = (uint64_t)m;
      break;
    }
    case GRP: jsonable(c, f.sub, x.sub, d); break;
    case SEQ: for (auto &e : x.sub) jsonable(c, f.sub, e.sub, d); break;
    case TREF: jsonable(c, d.t[x.tmpl].f, x.sub, d); break;
    default: break;
    }
  }
}
bool plain_names(const std::vector<Field> &fs) {
  std::set<std::string> s;
  for (auto &f : fs) {
    if (!s.insert(f.name).second) return false;
    if (f.ft == BYT && f.op == CONSTANT && (f.tag & 1)) return false; // not a JSON object
    if (f.ft == DEC && f.indiv && f.op == CONSTANT && f.init.exp > 0 && f.mop == CONSTANT) continue;
    if (!plain_names(f.sub)) return false;
  }
  return true;
}
void drop_ignored(const std::vector<Field> &fs, std::vector<Val> &v, const Masks &m) {
  for (size_t i = 0; i < fs.size(); ++i) {
    if (!v[i].present) continue;
    if ((fs[i].tag & m.ignore) && !fs[i].name.empty()) { v[i] = Val(); continue; }
    if (fs[i].ft == GRP) drop_ignored(fs[i].sub, v[i].sub, m);
    if (fs[i].ft == SEQ) for (auto &e : v[i].sub) drop_ignored(fs[i].sub, e.sub, m);
  }
}
// mandatory fields that were not mentioned are not specified
void unmentioned(const std::vector<Field> &fs, std::vector<Val> &want, const std::vector<Val> &got) {
  for (size_t i = 0; i < fs.size(); ++i) {
    if (!want[i].present && !fs[i].opt && got[i].present) want[i] = got[i];
    if (want[i].present && got[i].present && fs[i].ft == GRP) unmentioned(fs[i].sub, want[i].sub, got[i].sub);
    if (want[i].present && got[i].present && fs[i].ft == SEQ)
      for (size_t k = 0; k < want[i].sub.size() && k < got[i].sub.size(); ++k) unmentioned(fs[i].sub, want[i].sub[k].sub, got[i].sub[k].sub);
  }
}

void run_json(Ctx &c) {
  GenOpts o = profile(c);
  o.json = true;
  o.dynref = c.chance(1, 3);
  o.statref = false;
  o.many_bits = o.scalars_only = false;
  auto &gs = gen_sets();
  Schema s;
  if (!gs.empty() && c.chance(1, 5)) s = gen_schema(gs[c.draw(gs.size())]);
  else s = dynamic_schema(c, o, 1);
  int gt = (int)c.draw(s.r->t.size());
  const auto &fs = s.fields(gt);
  const Doc &d = s.doc_of(gt);
  for (auto &t : d.t) if (!plain_names(t.f)) throw Discard();
  bool nested = has_dynref(fs);
  ValGen vg(c, d);
  Masks m;
  m.object = 1;
  bool ign = c.chance(1, 3);
  if (ign) m.ignore = 2;
  message_type target(std_alloc(), s.inst(gt));
  int n = 1 + (int)c.draw(4);
  std::string line;               // several documents in one stream
  std::vector<std::vector<Val>> lined;
  auto check_target = [&](std::vector<Val> want, const char *who) {
    std::vector<Val> g = extract(target.cref(), fs, d);
    unmentioned(fs, want, g);
    std::string w;
    if (!same(fs, want, g, d, &w)) c.fail("json:value", "%s differs at %s", who, w.c_str());
  };
  auto decode = [&](std::istream &is) { json::decode(is, target.mref(), m.object); };
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    std::vector<Val> v = vg.message(gt).sub;
    jsonable(c, fs, v, d);
    message_type mt = build_message(s, gt, v);
    if (c.keep_log) c.ev("message %s", show(fs, v, d).c_str());
    // written to a stream that works
    std::ostringstream os;
    bool ok = ign ? json::encode(os, mt.cref(), m.object, m.ignore) : json::encode(os, mt.cref(), m.object);
    std::string text = os.str();
    if (c.keep_log) c.ev("text %s", text.c_str()); else c.hashv(hash_bytes(text.data(), text.size()));
    if (!ok) c.fail("json:encode", "encode() reports failure of a stream that works");
    try {
      JParser p(text);
      JV j = p.value();
      p.ws();
      if (p.p != text.size()) c.fail("json:syntax", "text goes on after the value: %s", text.c_str());
      std::string w;
      if (!agree_obj(fs, v, j, d, m, &w)) c.fail("json:text", "the text differs from the message at %s: %s", w.c_str(), text.substr(0, 300).c_str());
    } catch (const JBad &b) {
      c.fail("json:syntax", "%s at %zu of %s", b.why.c_str(), b.at, text.substr(0, 600).c_str());
    }
    c.nontrivial();
    // written to a stream that fails
    if (c.chance(1, 2) && text.size() > 1) {
      size_t k = c.draw(text.size());
      bool throws = c.chance(1, 4);
      OutBuf b(k, throws);
      std::ostream fo(&b);
      c.fault(throws ? "write-error" : "short-write");
      bool r = false;
      try { r = ign ? json::encode(fo, mt.cref(), m.object, m.ignore) : json::encode(fo, mt.cref(), m.object); } catch (const std::exception &) { }
      if (r) c.fail("json:unreported", "encode() reports success although only %zu of %zu bytes were written", b.got.size(), text.size());
      if (b.got != text.substr(0, b.got.size())) c.fail("json:prefix", "a failing stream got other text: %s", b.got.c_str());
    }
    if (nested) continue;
    std::vector<Val> want = v;
    if (ign) drop_ignored(fs, want, m);
    // what a foreign producer would write
    std::string in = text;
    if (c.chance(2, 3)) { JWriter w(c, d, m); in = w.sp() + w.object(fs, v); if (c.keep_log) c.ev("foreign text %s", in.c_str()); c.probe("json.foreign"); }
    line += in;
    lined.push_back(want);
    auto pieces = [&]() { std::vector<size_t> k; if (c.chance(2, 3)) { c.fault("short-read"); for (int i = 0, n = 1 + (int)c.draw(5); i < n; ++i) k.push_back(1 + c.draw(20)); } return k; };
    // disturbed reading first, into the same message
    int dist = c.pick({3, 3, 2, 2});
    if (dist) {
      std::string bad = in;
      bool fails = false;
      size_t end = in.size();
      if (dist == 1) { size_t lo = in.find('{'); bad = in.substr(0, lo + c.draw(in.size() - lo)); fails = c.chance(1, 3); c.fault(fails ? "read-error" : "stream-ends"); }
      if (dist == 2) { for (int k = 0, e = 1 + (int)c.draw(3); k < e; ++k) { size_t at = c.draw(bad.size()); if (c.chance(1, 2)) bad[at] = char(c.draw(256)); else if (c.chance(1, 2)) bad.erase(at, 1); else bad.insert(bad.begin() + at, "{}[]\",:\\-.e0n"[c.draw(13)]); if (bad.empty()) bad = "x"; } c.fault("text-damaged"); }
      InBuf b(bad, pieces(), fails);
      std::istream is(&b);
      bool threw = false, oom = false;
      try {
        if (dist == 3) { c.fault("allocation-failed"); ArmAlloc arm(1 + (int)c.draw(12), c.chance(1, 2)); decode(is); AllocSeam::armed = false; }
        else decode(is);
      } catch (const Violation &) { throw;
      } catch (const std::bad_alloc &) { AllocSeam::armed = false; threw = oom = true;
      } catch (const std::exception &e) { AllocSeam::armed = false; threw = true; if (c.keep_log) c.ev("refused: %s", e.what());
      } catch (...) { AllocSeam::armed = false; c.fail("json:undocumented", "decode() threw %s", describe_exception().c_str()); }
      (void)end;
      if (dist == 1 && !threw && is.good()) c.fail("json:cut", "decode() reports no error on cut text: %s", bad.c_str());
      if (dist == 3 && !threw && is.good() && !AllocSeam::failures) check_target(want, "text read");
      if (dist == 3 && threw && !oom && !AllocSeam::failures) c.fail("json:refused", "decode() refuses %s", in.c_str());
      extract(target.cref(), fs, d); // all of it can be read
      message_type copy(target.cref(), std_alloc());
    }
    InBuf b(in, pieces(), false);
    std::istream is(&b);
    try { decode(is); } catch (const Violation &) { throw; } catch (...) { std::string e = describe_exception(); c.fail("json:refused:" + e, "decode() threw %s on %s", e.c_str(), in.substr(0, 600).c_str()); }
    if (!is.good()) c.fail("json:stream", "the stream is not good after decode() of %s", in.c_str());
    if (b.consumed() != in.size()) c.fail("json:framing", "decode() consumed %zu of %zu bytes", b.consumed(), in.size());
    check_target(want, "text read");
    c.state(hash_bytes(in.data(), std::min<size_t>(in.size(), 24)));
    // a sequence of the message by itself
    for (size_t k = 0; k < fs.size(); ++k) {
      if (fs[k].ft != SEQ || !want[k].present || !written(fs[k], v[k], m) || ign) continue;
      std::ostringstream so;
      sequence_cref sq(mt.cref()[k]);
      if (!json::encode(so, sq, m.object)) c.fail("json:encode", "encode() of a sequence reports failure");
      InBuf sb(so.str(), pieces(), false);
      std::istream sis(&sb);
      message_type other(std_alloc(), s.inst(gt));
      try { json::decode(sis, sequence_mref(other.mref()[k]), m.object); } catch (...) { std::string e = describe_exception(); c.fail("json:refused:" + e, "decode() of a sequence threw %s on %s", e.c_str(), so.str().c_str()); }
      std::vector<Val> g = extract(other.cref(), fs, d);
      std::vector<Field> f1{fs[k]};
      std::vector<Val> w1{want[k]}, g1{g[k]};
      unmentioned(f1, w1, g1);
      std::string w;
      if (!same(f1, w1, g1, d, &w)) c.fail("json:sequence", "a sequence read back differs at %s (%s)", w.c_str(), so.str().substr(0, 300).c_str());
      c.probe("json.sequences");
      break;
    }
  }
  if (lined.size() > 1) { // one after another from the same stream
    std::vector<size_t> k;
    for (int i = 0, n = (int)c.draw(4); i < n; ++i) k.push_back(1 + c.draw(30));
    InBuf b(line, k, false);
    std::istream is(&b);
    for (auto &w : lined) {
      try { decode(is); } catch (const Violation &) { throw; } catch (...) { std::string e = describe_exception(); c.fail("json:stream:" + e, "decode() threw %s on a stream of messages: %s", e.c_str(), line.substr(0, 600).c_str()); }
      check_target(w, "message of a stream");
    }
    c.probe("json.streams");
  }
}

} // namespace
static Register r17(Prop{"C17", "exploration", "one run = 1..4 messages of a random template written as JSON to good and failing streams, checked by a strict JSON reader, and read back from that text and from equivalent text of a foreign producer through streams that deliver in pieces, end early, fail or are damaged, always into the same message; non-trivial when a message was written", run_json, {"json::encode", "json::decode", "message containers", "dynamic_templates_description"}, {"streams", "other JSON producers and consumers", "application"}, {"strings are valid UTF-8", "decimals are normalised unless their exponent is constant", "dynamic nested messages are written but not read"}});
} // namespace sim
