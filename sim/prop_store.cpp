// Message storage: C13 (fields hold what was put into them), C14 (copies are
// independent, memory is accounted for exactly).
#include "prop_common.h"
#include "mfast/nested_message_ref.h"
#include "mfast/sequence_ref.h"
#include "mfast/sequence_type.h"
#include "mfast/enum_ref.h"
#include "mfast/set_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/boolean_ref.h"
#include "mfast/field_comparator.h"
#include <cmath>
#include <list>

namespace sim {

// An allocator that plays an adversary within the documented contract: every
// block moves when it grows, sizes returned are odd, memory is exactly as large
// as promised (ASan sees every byte beyond), calls fail on demand, and every
// block must come back once, with the size that was agreed on.
struct CheckAlloc : allocator {
  std::map<void *, size_t> live;
  std::string broken;
  int slack = 0;
  int64_t countdown = 0; // the countdown-th call fails
  uint64_t failures = 0, calls = 0;
  bool fail() {
    ++calls;
    if (countdown > 0 && --countdown == 0) { ++failures; return true; }
    return false;
  }
  void note(const char *m) { if (broken.empty()) broken = m; }
  void *get(size_t n) {
    void *p = malloc(n ? n : 1);
    memset(p, 0xA5, n);
    live[p] = n;
    return p;
  }
  void put(void *p, size_t n, const char *who) {
    auto it = live.find(p);
    if (it == live.end()) { note(who); return; }
    if (it->second != n) note("a block was returned with a size it never had");
    live.erase(it);
    free(p);
  }
  void *allocate(std::size_t n) override {
    if (fail()) throw std::bad_alloc();
    return get(n);
  }
  std::size_t reallocate(void *&p, std::size_t o, std::size_t n) override {
    if (p) {
      auto it = live.find(p);
      if (it == live.end()) note("reallocate() of a foreign block");
      else if (it->second != o) note("reallocate() with a size the block never had");
    } else if (o) note("reallocate() of nothing with a size");
    if (fail()) throw std::bad_alloc();
    size_t k = n + slack;
    void *q = get(k);
    if (p && live.count(p)) {
      memcpy(q, p, std::min(live[p], k));
      put(p, live[p], "");
    }
    p = q;
    return k;
  }
  void deallocate(void *p, std::size_t n) override {
    if (!p && !n) return;
    put(p, n, "a block was returned twice or never belonged to the allocator");
  }
  ~CheckAlloc() { for (auto &b : live) free(b.first); }
};

struct Foreign { // memory of the application that fields may refer to
  char *p;
  std::string was;
  explicit Foreign(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), was(s) { memcpy(p, s.data(), s.size()); }
  ~Foreign() { free(p); }
  Foreign(const Foreign &) = delete;
};

template <class T> struct OneWay { // input iterator
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const T *pointer;
  typedef const T &reference;
  const T *p;
  reference operator*() const { return *p; }
  OneWay &operator++() { ++p; return *this; }
  OneWay operator++(int) { OneWay o = *this; ++p; return o; }
  bool operator==(const OneWay &o) const { return p == o.p; }
  bool operator!=(const OneWay &o) const { return p != o.p; }
};

struct Store {
  Ctx &c;
  const Schema &s;
  ValGen &vg;
  std::list<Foreign> &foreign;
  const Doc &d;
  const InstOf inst;
  int ops = 0;
  bool swaps = true; // a mandatory field that was never set has no presence to exchange
  Store(Ctx &c, const Schema &s, int gt, ValGen &vg, std::list<Foreign> &f) : c(c), s(s), vg(vg), foreign(f), d(s.doc_of(gt)), inst(s.inst_of(gt)) {}

  void done(const char *n) { ++ops; c.probe((std::string("op.") + n).c_str()); if (c.keep_log) c.ev("  %s", n); }

  template <class T, class M> void array_op(const M &m, Val &v, std::vector<T> x, const std::function<void(const std::vector<T> &)> &put, bool chars) {
    auto rnd = [&]() { return chars ? (T)(1 + c.draw(127)) : (T)c.draw(0); };
    auto some = [&](size_t mx) { std::vector<T> r; size_t n = c.chance(1, 12) ? 40 + c.draw(60) : c.draw(mx + 1); while (n--) r.push_back(rnd()); return r; };
    auto pos = [&]() { return (size_t)c.draw(x.size() + 1); };
    bool was = v.present;
    if (!was) x.clear();
    bool now = true;
    switch (c.draw(21)) {
    case 0: { x = some(10); m.assign(x.begin(), x.end()); done("assign"); break; }
    case 1: { x = some(10); m.assign(OneWay<T>{x.data()}, OneWay<T>{x.data() + x.size()}); done("assign-input-range"); break; }
    case 2: { size_t n = c.draw(12); T t = rnd(); x.assign(n, t); m.assign(n, t); done("assign-n"); break; }
    case 3: { T t = rnd(); x.push_back(t); m.push_back(t); done("push_back"); break; }
    case 4: if (!was || x.empty()) return; x.pop_back(); m.pop_back(); done("pop_back"); break;
    case 5: { if (!was) return; size_t p = pos(); T t = rnd(); auto it = m.insert(m.begin() + p, t); x.insert(x.begin() + p, t); if (it != m.begin() + p) c.fail("store:insert-position", "insert() returned a wrong position"); done("insert"); break; }
    case 6: { if (!was) return; size_t p = pos(), n = c.draw(9); T t = rnd(); m.insert(m.begin() + p, n, t); x.insert(x.begin() + p, n, t); done("insert-n"); break; }
    case 7: { if (!was) return; size_t p = pos(); auto r = some(8); m.insert(m.begin() + p, r.begin(), r.end()); x.insert(x.begin() + p, r.begin(), r.end()); done("insert-range"); break; }
    case 8: { if (!was) return; size_t p = pos(); auto r = some(8); m.insert(m.begin() + p, OneWay<T>{r.data()}, OneWay<T>{r.data() + r.size()}); x.insert(x.begin() + p, r.begin(), r.end()); done("insert-input-range"); break; }
    case 9: { size_t n = c.draw(20); char f = (char)(1 + c.draw(127)); m.resize(n, f); x.resize(n, (T)f); done("resize"); break; }
    case 10: { if (!was) return; m.reserve(x.size() + c.draw(100)); done("reserve"); break; }
    case 11: {
      if (!was) return;
      size_t p = pos(), n = c.draw(x.size() - p + 1);
      auto r = some(8);
      m.replace(p, n, r.data(), r.size());
      x.erase(x.begin() + p, x.begin() + p + n);
      x.insert(x.begin() + p, r.begin(), r.end());
      done("replace");
      break;
    }
    case 12: {
      x = some(10);
      foreign.emplace_back(std::string((const char *)x.data(), x.size() * sizeof(T)));
      if (x.empty()) return;
      refer(m, (const T *)foreign.back().p, x.size());
      done("refers_to");
      break;
    }
    case 13: { if (!was || x.empty()) return; m.reserve(x.size()); size_t p = c.draw(x.size()); m[p] = x[p] = rnd(); done("element"); break; }
    case 14: m.omit(); if (v_optional) now = false; else return; x.clear(); done("omit"); break;
    case 15: m.clear(); if (v_optional) now = false; x.clear(); done("clear"); break;
    case 16: { // self assignment through a constant reference
      if (!was) return;
      self_assign(m);
      done("self-assign");
      break;
    }
    case 17: { // writing through iterators
      if (!was) return;
      m.reserve(x.size());
      std::reverse(m.begin(), m.end());
      std::reverse(x.begin(), x.end());
      done("iterators");
      break;
    }
    case 18: { // seen from behind and through the constant reference
      if (!was) return;
      const auto &k = as_cref(m);
      bool same = k.size() == x.size() && k.length() == x.size() && (size_t)(k.end() - k.begin()) == x.size() && std::equal(x.begin(), x.end(), k.cbegin()) && k.cend() - k.cbegin() == k.end() - k.begin();
      size_t n = 0;
      for (auto it = k.rbegin(); it != k.rend(); ++it) same = same && n < x.size() && *it == x[x.size() - 1 - n++];
      same = same && n == x.size() && k.crend() - k.crbegin() == (std::ptrdiff_t)n;
      n = 0;
      for (auto it = m.rbegin(); it != m.rend(); ++it) same = same && n < x.size() && *it == x[x.size() - 1 - n++];
      for (size_t i = 0; same && i < x.size(); ++i) same = k[i] == x[i];
      if (!same || n != x.size()) c.fail("store:array-iterate", "the elements seen through constant references and reverse iterators are not the %zu elements of the field", x.size());
      done("iterate");
      return;
    }
    case 19: { // compared with a relative: the same, a prefix, one element more, one changed
      if (!was) return;
      std::vector<T> y = x;
      switch (c.draw(5)) {
      case 0: break;
      case 1: if (!y.empty()) y.pop_back(); break;
      case 2: y.push_back(rnd()); break;
      case 3: if (!y.empty()) y[c.draw(y.size())] = rnd(); break;
      default: y = some(4);
      }
      compare(m, x, y);
      done("compare");
      return;
    }
    default: { auto r = some(6); size_t k = x.size(); m.resize(k + r.size()); std::copy(r.begin(), r.end(), m.begin() + k); x.insert(x.end(), r.begin(), r.end()); done("grow"); break; }
    }
    v = Val();
    v.present = now;
    if (now) put(x);
  }
  template <class T> static const vector_cref<T> &as_cref(const vector_mref_base<T> &m) { return m; }
  template <class T> void compare(const int_vector_mref<T> &m, const std::vector<T> &x, const std::vector<T> &y) { equality<T>(as_cref(m), x, y); }
  void compare(const byte_vector_mref &m, const std::vector<unsigned char> &x, const std::vector<unsigned char> &y) { equality<unsigned char>(as_cref(m), x, y); }
  template <class T> void equality(const vector_cref<T> &a, const std::vector<T> &x, const std::vector<T> &y) {
    value_storage st;
    st.of_array.content_ = const_cast<T *>(y.data());
    st.array_length((uint32_t)y.size());
    st.of_array.capacity_in_bytes_ = 0;
    vector_cref<T> b(&st, a.instruction());
    if ((a == b) != (x == y) || (a != b) == (x == y)) c.fail("store:array-compare", "vectors of %zu and %zu elements compare as %s", x.size(), y.size(), a == b ? "equal" : "different");
  }
  template <class M> void compare(const M &m, const std::vector<char> &x, const std::vector<char> &y) {
    std::string xs(x.begin(), x.end()), ys(y.begin(), y.end());
    boost::string_ref r(ys.data(), ys.size());
    value_storage st;
    st.of_array.content_ = const_cast<char *>(ys.data());
    st.array_length((uint32_t)ys.size());
    st.of_array.capacity_in_bytes_ = 0;
    const auto &a = as_cref(m);
    typename std::decay<decltype(a)>::type b(&st, a.instruction());
    auto sign = [](int n) { return n < 0 ? -1 : n > 0; };
    int e = sign(xs.compare(ys));
    bool ok = sign(a.compare(r)) == e && sign(a.compare(b)) == e;
    ok = ok && (a == r) == (e == 0) && (a != r) == (e != 0) && (a < r) == (e < 0) && (a <= r) == (e <= 0) && (a > r) == (e > 0) && (a >= r) == (e >= 0);
    ok = ok && (a < b) == (e < 0) && (a <= b) == (e <= 0) && (a > b) == (e > 0) && (a >= b) == (e >= 0) && (b < a) == (e > 0) && (b > a) == (e < 0);
    ok = ok && a.value() == boost::string_ref(xs);
    if (!ok) c.fail("store:text-compare", "<%s> compared with <%s> gives %d instead of %d, or one of the operators does not agree", hexstr(xs.data(), xs.size()).c_str(), hexstr(ys.data(), ys.size()).c_str(), a.compare(r), e);
  }
  bool v_optional = false;
  template <class T> static void self_assign(const int_vector_mref<T> &m) { m.as(static_cast<const vector_cref<T> &>(m)); }
  static void self_assign(const byte_vector_mref &m) { m.as(static_cast<const vector_cref<unsigned char> &>(m)); }
  static void self_assign(const ascii_string_mref &m) { ascii_string_mref k(m); k.as(static_cast<const vector_cref<char> &>(m)); }
  static void self_assign(const unicode_string_mref &) {}
  template <class M, class T> static void refer(const M &m, const T *p, size_t n) { m.refers_to(p, n); }
  static void refer(const ascii_string_mref &m, const char *p, size_t n) { m.refers_to(boost::string_ref(p, n)); }
  static void refer(const unicode_string_mref &m, const char *p, size_t n) { m.refers_to(boost::string_ref(p, n)); }

  template <class T> void ints(const field_mref &fm, Val &v) {
    std::vector<T> x;
    for (auto u : v.vec) x.push_back((T)u);
    int_vector_mref<T> m(fm);
    array_op<T>(m, v, x, [&](const std::vector<T> &y) { for (auto t : y) v.vec.push_back(std::is_same<T, uint64_t>::value ? (uint64_t)t : (uint64_t)(int64_t)t); }, false);
  }
  template <class T, class M> void chars(const M &m, Val &v) {
    std::vector<T> x(v.s.begin(), v.s.end());
    array_op<T>(m, v, x, [&](const std::vector<T> &y) { v.s.assign(y.begin(), y.end()); }, true);
  }
  template <class M> void text(const M &m, const Field &f, Val &v) {
    if (c.chance(1, 5)) {
      std::string t;
      for (size_t n = c.draw(12); n; --n) t += char(1 + c.draw(127));
      std::string old = v.present ? v.s : "";
      switch (c.draw(8)) {
      case 3: { size_t p = c.draw(t.size() + 1), n = c.draw(t.size() - p + 1); m.append(boost::string_ref(t), p, n); old.append(t, p, n); done("append-part"); break; }
      case 4: { size_t n = c.draw(t.size() + 1); m.append(t.data(), n); old.append(t.data(), n); done("append-chars"); break; }
      case 5: { size_t n = c.draw(7); m.append(n, 'z'); old.append(n, 'z'); done("append-n"); break; }
      case 6: { if (!v.present && t.empty()) return; std::list<char> l(t.begin(), t.end()); m.append(l.begin(), l.end()); old += t; done("append-range"); break; }
      case 0: m.as(boost::string_ref(t)); old = t; done("as"); break;
      case 1: m.append(boost::string_ref(t)); old += t; done("append"); break;
      case 2: m += (char)'q'; old += 'q'; done("append-char"); break;
      default:
        if (!v.present) return;
        m.reserve(v.s.size());
        if (memcmp(m.c_str(), v.s.c_str(), v.s.size() + 1)) c.fail("store:c_str", "c_str() is <%s> instead of <%s>", hexstr(m.c_str(), v.s.size() + 1).c_str(), hexstr(v.s.data(), v.s.size()).c_str());
        done("c_str");
        break;
      }
      v = Val();
      v.present = true;
      v.s = old;
      return;
    }
    chars<char>(m, v);
  }

  void initial(const field_mref &fm, const Field &f, Val &v) {
    switch (f.ft) {
    case I32: int32_mref(fm).to_initial_value(); break;
    case U32: uint32_mref(fm).to_initial_value(); break;
    case I64: int64_mref(fm).to_initial_value(); break;
    case U64: uint64_mref(fm).to_initial_value(); break;
    case ENM: case BOO: enum_mref(fm).to_initial_value(); break;
    case SET_: set_mref(fm).to_initial_value(); break;
    case DEC: decimal_mref(fm).to_initial_value(); break;
    case ASC: ascii_string_mref(fm).to_initial_value(); break;
    case UNI: unicode_string_mref(fm).to_initial_value(); break;
    case BYT: byte_vector_mref(fm).to_initial_value(); break;
    default: return;
    }
    v = f.init;
    v.present = true;
    done("to_initial_value");
  }

  void set(const field_mref &fm, const Field &f, Val v) { // through the same path as everybody else
    std::vector<Field> one{f};
    struct H { field_mref m; };
    (void)one;
    set1(fm, f, v);
  }
  void set1(const field_mref &fm, const Field &f, const Val &v) {
    switch (f.ft) {
    case I32: { int32_mref m(fm); if (v.present) m.as((int32_t)v.u); else m.omit(); break; }
    case U32: { uint32_mref m(fm); if (v.present) m.as((uint32_t)v.u); else m.omit(); break; }
    case I64: { int64_mref m(fm); if (v.present) m.as((int64_t)v.u); else m.omit(); break; }
    case U64: { uint64_mref m(fm); if (v.present) m.as((uint64_t)v.u); else m.omit(); break; }
    case ENM: case BOO: { enum_mref m(fm); if (v.present) m.as((uint64_t)v.u); else m.omit(); break; }
    case SET_: { set_mref m(fm); if (v.present) m.as((uint64_t)v.u); else m.omit(); break; }
    case DEC: {
      decimal_mref m(fm);
      if (!v.present) { m.omit(); break; }
      if (c.chance(1, 4)) { m.set_mantissa((int64_t)v.u); m.set_exponent(v.exp); }
      else m.as((int64_t)v.u, (int16_t)v.exp);
      break;
    }
    default: break;
    }
    done("set");
  }

  static void normalize(Val &v) {
    int64_t m = (int64_t)v.u;
    while (m && m % 10 == 0) { m /= 10; ++v.exp; }
    if (!m) v.exp = 0;
    v.u = (uint64_t)m;
  }
  // assignment without the knowledge of the type: converted, or refused without effect
  template <class F> void untyped1(bool legal, const char *what, const F &f) {
    bool refused = false;
    try { f(); } catch (const incompatible_type_conversion_error &e) {
      refused = true;
      auto *to = boost::get_error_info<output_type_info>(e);
      if (!to || to->compare(0, 11, "field_type_")) c.fail("store:conversion-error", "the error about %s does not name the type of the field", what);
    }
    if (refused == legal) c.fail("store:conversion", "assigning %s to a field was %s", what, legal ? "refused" : "accepted");
    done(what);
  }
  void untyped(field_mref fm, const Field &f, Val &v) {
    Val n;
    n.present = true;
    bool number = f.ft == I32 || f.ft == U32 || f.ft == I64 || f.ft == U64 || f.ft == ENM || f.ft == BOO || f.ft == SET_ || f.ft == DEC;
    switch (c.draw(9)) {
    case 0: case 1: {
      int64_t x = f.ft == ENM || f.ft == BOO || f.ft == SET_ ? (int64_t)vg.field(f, 1).u : (int64_t)c.draw(3) == 0 ? (int64_t)c.draw(5) * 1000 : (int64_t)c.draw(1u << 31);
      if ((f.ft == I32 || f.ft == I64 || f.ft == DEC) && c.chance(1, 2)) x = -x;
      n.u = (uint64_t)x;
      if (f.ft == DEC) normalize(n);
      if (c.chance(1, 2) && x == (int32_t)x) untyped1(number, "an int", [&] { fm.as((int)x); });
      else untyped1(number, "an int64", [&] { fm.as((int64_t)x); });
      if (number) v = n;
      break;
    }
    case 2: {
      uint64_t x = f.ft == ENM || f.ft == BOO || f.ft == SET_ ? vg.field(f, 1).u : f.ft == U64 ? c.draw(0) : c.draw(1u << 31);
      n.u = x;
      if (f.ft == DEC) normalize(n);
      untyped1(number, "an uint64", [&] { fm.as((uint64_t)x); });
      if (number) v = n;
      break;
    }
    case 3: {
      std::string t;
      for (size_t k = c.draw(12); k; --k) t += char(1 + c.draw(127));
      n.s = t;
      untyped1(f.ft == ASC || f.ft == UNI, "a C string", [&] { fm.as(t.c_str()); });
      if (f.ft == ASC || f.ft == UNI) v = n;
      break;
    }
    case 4: {
      n.u = (uint64_t)((int64_t)c.draw(c.chance(1, 2) ? 1000 : 100000000000000000ull) * (c.chance(1, 2) ? 1 : -1));
      n.exp = (int)c.draw(60) - 30;
      decimal x = make_decimal((int64_t)n.u, (int16_t)n.exp);
      normalize(n);
      untyped1(f.ft == DEC, "a decimal", [&] { fm.as(x); });
      if (f.ft == DEC) v = n;
      break;
    }
    case 5: {
      unsigned char x[5];
      for (auto &b : x) b = (unsigned char)c.draw(256);
      n.s.assign((const char *)x, 5);
      untyped1(f.ft == BYT, "an array of bytes", [&] { fm.as(x); });
      if (f.ft == BYT) v = n;
      break;
    }
    case 6: {
      std::vector<unsigned char> x(c.draw(9));
      for (auto &b : x) b = (unsigned char)c.draw(256);
      n.s.assign(x.begin(), x.end());
      untyped1(f.ft == BYT, "a vector of bytes", [&] { fm.as(x); });
      if (f.ft == BYT) v = n;
      break;
    }
    case 7: { // decimals written as text
      if (f.ft != DEC) return;
      decimal_mref m(fm);
      int64_t mant = (int64_t)c.draw(c.chance(1, 2) ? 1000 : 1000000000000000000ull);
      int point = (int)c.draw(20), e = c.chance(1, 3) ? (int)c.draw(40) - 20 : 0;
      std::string t = std::to_string(mant);
      if ((int)t.size() <= point) t = std::string(point + 1 - t.size(), '0') + t;
      if (point) t.insert(t.size() - point, ".");
      if (e) t += (c.chance(1, 2) ? "e" : "E") + std::to_string(e);
      bool neg = c.chance(1, 2), bad = c.chance(1, 5);
      if (neg) t = "-" + t;
      if (bad) t = std::string(c.chance(1, 2) ? "x" : ".") + (c.chance(1, 2) ? "" : "-");
      n.u = (uint64_t)(neg ? -mant : mant);
      n.exp = e - point;
      normalize(n);
      bool threw = false;
      try { m.as(boost::string_ref(t)); } catch (const std::runtime_error &) { threw = true; }
      if (threw != bad) c.fail("store:decimal-text", "<%s> was %s as a decimal", t.c_str(), threw ? "refused" : "accepted");
      if (!bad) v = n;
      done("decimal-from-text");
      break;
    }
    default: { // takes over the value of another field of its type, which may be absent
      if (f.ft > DEC && f.ft != ENM && f.ft != BOO && f.ft != SET_) return;
      if (f.ft == DEC && f.indiv) return;
      n = vg.field(f, 1);
      value_storage vs;
      memset(&vs, 0, sizeof vs);
      field_mref o(fm.allocator(), &vs, fm.instruction());
      set1(o, f, n);
      if (!n.present && !f.opt) n.present = true;
      switch (f.ft) {
      case I32: int32_mref(fm).as(int32_cref(o)); break;
      case U32: uint32_mref(fm).as(uint32_cref(o)); break;
      case I64: int64_mref(fm).as(int64_cref(o)); break;
      case U64: uint64_mref(fm).as(uint64_cref(o)); break;
      case ENM: enum_mref(fm).as(enum_cref(o)); break;
      case SET_: set_mref(fm).as(set_cref(o)); break;
      case BOO: if (n.present) { boolean_mref b(fm); if (n.u) b.as_true(); else b.as_false(); } else boolean_mref(fm).omit(); break;
      default: decimal_mref(fm).as(decimal_cref(o));
      }
      v = n;
      done("as-reference");
    }
    }
  }

  // one operation somewhere below m; `at' names the field for the report
  void mutate(const aggregate_mref &m, const std::vector<Field> &fs, std::vector<Val> &v, std::string &at) {
    if (fs.empty()) return;
    Ctx::Scope sc(c);
    size_t i = c.draw(fs.size());
    const Field &f = fs[i];
    at += "." + f.name;
    if (f.op == CONSTANT && f.ft != SEQ) return;
    if (f.ft == DEC && f.indiv && (f.op == CONSTANT || f.mop == CONSTANT)) return;
    field_mref fm = m[i];
    v_optional = f.opt;
    if (f.has_init && !f.init_implicit && !f.indiv && f.ft < GRP && c.chance(1, 10)) { initial(fm, f, v[i]); return; }
    if (f.ft != TREF && c.chance(1, 8)) { untyped(fm, f, v[i]); return; }
    if (f.ft == ENM || f.ft == BOO || f.ft == SET_ || f.ft <= DEC) {
      Val n = vg.field(f, 1);
      set(fm, f, n);
      v[i] = n;
      return;
    }
    // two fields of the same kind exchange their contents
    if (f.ft != TREF && f.ft != GRP && c.chance(1, 10) && swaps) {
      for (size_t j = 0; j < fs.size(); ++j)
        if (j != i && fs[j].ft == f.ft && fs[j].op != CONSTANT && v[i].present && v[j].present && f.ft != SEQ) {
          field_mref o = m[j];
          if (f.ft == ASC) ascii_string_mref(fm).swap(ascii_string_mref(o));
          else if (f.ft == UNI) unicode_string_mref(fm).swap(unicode_string_mref(o));
          else if (f.ft == BYT) byte_vector_mref(fm).swap(byte_vector_mref(o));
          else if (f.ft == VI32) int32_vector_mref(fm).swap(int32_vector_mref(o));
          else if (f.ft == VU32) uint32_vector_mref(fm).swap(uint32_vector_mref(o));
          else if (f.ft == VI64) int64_vector_mref(fm).swap(int64_vector_mref(o));
          else uint64_vector_mref(fm).swap(uint64_vector_mref(o));
          std::swap(v[i], v[j]);
          done("swap");
          return;
        }
    }
    switch (f.ft) {
    case ASC: text(ascii_string_mref(fm), f, v[i]); break;
    case UNI: text(unicode_string_mref(static_cast<const field_mref_base &>(fm)), f, v[i]); break;
    case BYT: chars<unsigned char>(byte_vector_mref(fm), v[i]); break;
    case VI32: ints<int32_t>(fm, v[i]); break;
    case VU32: ints<uint32_t>(fm, v[i]); break;
    case VI64: ints<int64_t>(fm, v[i]); break;
    case VU64: ints<uint64_t>(fm, v[i]); break;
    case GRP: {
      if (f.opt && v[i].present && c.chance(1, 4)) {
        group_mref g(fm);
        g.omit();
        v[i] = Val();
        done("group-omit");
        break;
      }
      if (!v[i].present) {
        group_mref g(fm);
        Val n = vg.field(f, 1);
        while (!n.present) { n.present = true; n.sub = vg.fields(f.sub, 1); }
        fill(aggregate_mref(g), f.sub, n.sub, d, inst);
        v[i] = n;
        done("group-set");
        break;
      }
      group_mref g(fm);
      mutate(aggregate_mref(g), f.sub, v[i].sub, at);
      break;
    }
    case SEQ: sequence(sequence_mref(fm), f, v[i], at); break;
    case TREF: {
      nested_message_mref n(fm);
      if (v[i].present && v[i].tmpl >= 0 && c.chance(2, 3)) {
        message_mref t = n.target();
        mutate(t, d.t[v[i].tmpl].f, v[i].sub, at);
        break;
      }
      Val x = vg.field(f, 1);
      if (!x.present) return;
      message_mref t = n.rebind(inst(x.tmpl));
      fill(t, d.t[x.tmpl].f, x.sub, d, inst);
      v[i] = x;
      done("rebind");
      break;
    }
    default: break;
    }
  }

  void fill_element(const sequence_mref &m, const Field &f, Val &v, size_t k) {
    Val e;
    e.present = true;
    e.sub = vg.fields(f.sub, 2);
    fill(m[k], f.sub, e.sub, d, inst);
    if (k == v.sub.size()) v.sub.push_back(e); else v.sub[k] = e;
  }
  void sequence(const sequence_mref &m, const Field &f, Val &v, std::string &at) {
    bool konst = f.len && f.len->op == CONSTANT;
    switch (c.draw(13)) {
    case 10: { // positions: distances, order, random access, from behind
      if (!v.present || f.sub.empty()) return;
      sequence_cref k = static_cast<const sequence_cref &>(m);
      long n = (long)v.sub.size();
      long a = (long)c.draw(n + 1), b = (long)c.draw(n + 1);
      auto ia = k.begin() + a, ib = k.end() - (n - b);
      auto ma = m.begin() + a, mb = m.end() - (n - b);
      if (ib - ia != b - a || mb - ma != b - a || (ia < ib) != (a < b) || (ia > ib) != (a > b) || (ia <= ib) != (a <= b) || (ia == ib) != (a == b) || (mb >= ma) != (b >= a))
        c.fail("store:seq-positions", "the positions %ld and %ld of a sequence have the distance %ld, or are in the wrong order", a, b, (long)(ib - ia));
      std::string w;
      long i = n;
      for (auto it = k.rbegin(); it != k.rend(); ++it) {
        if (--i < 0) break;
        if (!same(f.sub, v.sub[i].sub, extract(aggregate_cref(*it), f.sub, d), d, &w)) c.fail("store:seq-iterate", "element %ld seen from behind differs at %s", i, w.c_str());
      }
      if (i) c.fail("store:seq-iterate", "reverse iteration stops %ld elements too early", i);
      if (n && (!same(f.sub, v.sub[0].sub, extract(aggregate_cref(m.front()), f.sub, d), d, &w) || !same(f.sub, v.sub[n - 1].sub, extract(aggregate_cref(k.back()), f.sub, d), d, &w))) c.fail("store:seq-iterate", "front() or back() differs at %s", w.c_str());
      if (a < n && !same(f.sub, v.sub[a].sub, extract(aggregate_cref(*(k.begin() + a)), f.sub, d), d, &w)) c.fail("store:seq-iterate", "element %ld by random access differs at %s", a, w.c_str());
      done("seq-positions");
      break;
    }
    case 11: { // the elements of a part of a copy
      if (!v.present || konst || v.sub.empty() || f.sub.empty()) return;
      sequence_type t(static_cast<const sequence_cref &>(m), m.allocator());
      sequence_cref k = t.cref();
      size_t a = c.draw(v.sub.size() + 1), n = c.draw(v.sub.size() - a + 1);
      std::vector<sequence_element_cref> part;
      for (size_t i = a; i < a + n; ++i) part.push_back(k[i]);
      m.assign(part.begin(), part.end());
      v.sub = std::vector<Val>(v.sub.begin() + a, v.sub.begin() + a + n);
      done("seq-assign");
      break;
    }
    case 0: {
      if (konst) return;
      size_t n = c.draw(7), k = v.present ? v.sub.size() : 0;
      m.resize(n);
      v.present = true;
      v.sub.resize(std::min(n, k));
      for (size_t i = v.sub.size(); i < n; ++i) fill_element(m, f, v, i);
      done("seq-resize");
      break;
    }
    case 1: {
      if (konst) return;
      size_t n = c.draw(4), k = v.present ? v.sub.size() : 0;
      auto it = m.grow_by(n);
      if (it != m.begin() + (std::ptrdiff_t)k) c.fail("store:grow_by", "grow_by() returned a wrong position");
      v.present = true;
      v.sub.resize(k);
      for (size_t i = k; i < k + n; ++i) fill_element(m, f, v, i);
      done("seq-grow_by");
      break;
    }
    case 2: if (!v.present) return; m.reserve(v.sub.size() + c.draw(9)); done("seq-reserve"); break;
    case 3: if (!f.opt) return; m.omit(); v = Val(); done("seq-omit"); break;
    case 4: if (konst) return; m.clear(); v.sub.clear(); v.present = !f.opt; done("seq-clear"); break;
    case 5: { // an element takes over the contents of another one
      if (!v.present || v.sub.size() < 2) return;
      size_t a = c.draw(v.sub.size()), b = c.draw(v.sub.size());
      m[a].as(m[b]);
      v.sub[a] = v.sub[b];
      done("seq-element-as");
      break;
    }
    case 6: { // the elements in reverse order, through iterators
      if (!v.present) return;
      size_t k = v.sub.size();
      for (auto &&e : m) {
        if (!k) c.fail("store:seq-iterate", "iteration yields too many elements");
        std::string w;
        --k;
        size_t idx = v.sub.size() - 1 - k;
        if (!same(f.sub, v.sub[idx].sub, extract(aggregate_cref(e), f.sub, d), d, &w)) c.fail("store:seq-iterate", "element %zu seen through an iterator differs at %s", idx, w.c_str());
      }
      if (k) c.fail("store:seq-iterate", "iteration misses %zu elements", k);
      done("seq-iterate");
      break;
    }
    case 7: { // the sequence of a copy is taken over
      if (!v.present) return;
      sequence_type t(static_cast<const sequence_cref &>(m), m.allocator());
      sequence_mref tm = t.mref();
      if (!konst) { tm.resize(v.sub.size() + 1); v.sub.resize(v.sub.size()); fill_element(tm, f, v, v.sub.size()); }
      m.swap(tm);
      done("seq-swap");
      break;
    }
    default:
      if (!v.present || v.sub.empty()) return;
      size_t k = c.draw(v.sub.size());
      at += "[" + std::to_string(k) + "]";
      mutate(m[k], f.sub, v.sub[k].sub, at);
    }
  }
};

static void alloc_ok(Ctx &c, CheckAlloc &a, const char *what) {
  if (!a.broken.empty()) c.fail("store:allocator-contract", "%s: %s", what, a.broken.c_str());
}

static GenOpts store_opts(Ctx &c) {
  GenOpts o;
  o.sets = c.chance(1, 2);
  o.max_templates = 3;
  o.max_fields = 8;
  o.many_bits = false;
  o.empties = c.chance(1, 3);
  return o;
}

// what a newly constructed message holds
static bool fresh_ok(const std::vector<Field> &fs, const std::vector<Val> &got, const Doc &d, std::string *w) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    Val e;
    if (f.ft == TREF) { if (got[i].present) { *w = f.name; return false; } continue; }
    if (f.opt) { if (got[i].present) { *w = f.name + ": an optional field is present"; return false; } continue; }
    if (f.ft == GRP) { std::string x; if (!fresh_ok(f.sub, got[i].sub, d, &x)) { *w = f.name + "." + x; return false; } continue; }
    if (f.ft == SEQ || f.indiv || !f.has_init) continue;
    e = f.init;
    e.present = true;
    std::string x;
    if (!same({f}, {e}, {got[i]}, d, &x)) { *w = x; return false; }
  }
  return true;
}

// other ways to look at a value
static void readings(Ctx &c, const aggregate_cref &m, const std::vector<Field> &fs, const std::vector<Val> &v, const Doc &d) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    field_cref r = m[i];
    if (f.ft != TREF && r.optional() != f.opt) c.fail("store:reading", "%s: optional() is wrong", f.name.c_str());
    if (!v[i].present) continue;
    const char *n = f.name.c_str();
    switch (f.ft) {
    case DEC: {
      decimal_cref x(r);
      int64_t mant = (int64_t)v[i].u;
      long double want = (long double)mant * powl(10.0L, v[i].exp);
      double got = x;
      if (fabsl(got - want) > fabsl(want) * 1e-14L) c.fail("store:reading", "%s: %lde%d reads as %.17g", n, (long)mant, v[i].exp, got);
      if (x.value().compare(make_decimal(mant, (int16_t)v[i].exp)) != 0 || fabsl((long double)static_cast<double>(x.value()) - want) > fabsl(want) * 1e-14L) c.fail("store:reading", "%s: value() of %lde%d is %s", n, (long)mant, v[i].exp, x.value().str().c_str());
      if (std::abs(v[i].exp) <= 63 && mant != INT64_MIN && (v[i].exp <= 0 || mant == 0)) {
        decimal_type t;
        decimal_mref back = t.mref();
        std::string text = x.to_string();
        back.as(boost::string_ref(text));
        Val w = v[i];
        Store::normalize(w);
        if (back.mantissa() != (int64_t)w.u || back.exponent() != w.exp) c.fail("store:reading", "%s: %lde%d is written as %s", n, (long)mant, v[i].exp, text.c_str());
      }
      break;
    }
    case ENM: {
      const char *got = enum_cref(r).value_name();
      for (size_t k = 0; k < f.evals.size(); ++k) if (f.evals[k] == v[i].u && (!got || f.enames[k] != got)) c.fail("store:reading", "%s: value %lu is called %s instead of %s", n, (unsigned long)v[i].u, got ? got : "(null)", f.enames[k].c_str());
      break;
    }
    case BOO: if (boolean_cref(r).is_true() != (v[i].u != 0) || boolean_cref(r).is_false() != (v[i].u == 0)) c.fail("store:reading", "%s: the boolean is wrong", n); break;
    case ASC: if (ascii_string_cref(r).value() != boost::string_ref(v[i].s) || !(ascii_string_cref(r) == boost::string_ref(v[i].s))) c.fail("store:reading", "%s: value() is wrong", n); break;
    case UNI: if (unicode_string_cref(r).value() != boost::string_ref(v[i].s)) c.fail("store:reading", "%s: value() is wrong", n); break;
    case GRP: readings(c, aggregate_cref(group_cref(r)), f.sub, v[i].sub, d); break;
    case SEQ: for (size_t k = 0; k < v[i].sub.size(); ++k) readings(c, sequence_cref(r)[k], f.sub, v[i].sub[k].sub, d); break;
    case TREF: readings(c, nested_message_cref(r).target(), d.t[v[i].tmpl].f, v[i].sub, d); break;
    default: break;
    }
  }
}

static void c13(Ctx &c) {
  Schema s = any_schema(c, store_opts(c), 1, 3);
  CheckAlloc al;
  al.slack = (int)c.draw(3) * 7 + (c.chance(1, 8) ? 100 : 0);
  std::list<Foreign> foreign;
  int gt = (int)c.draw(s.r->t.size());
  int ops = 0;
  {
    message_type mt(&al, s.inst(gt));
    const auto &fs = s.fields(gt);
    const Doc &d = s.doc_of(gt);
    std::string w;
    if (!fresh_ok(fs, extract(mt.cref(), fs, d), d, &w)) c.fail("store:fresh", "a new message of template %s does not hold its initial values: %s", s.r->t[gt].t->name.c_str(), w.c_str());
    ValGen vg(c, d);
    std::vector<Val> v = vg.message(gt - s.r->t[gt].doc_base).sub;
    if (c.keep_log) c.ev("start %s", show(fs, v, d).c_str());
    fill(mt.mref(), fs, v, d, s.inst_of(gt));
    Store st(c, s, gt, vg, foreign);
    int n = 5 + (int)c.draw(40);
    for (int i = 0; i <= n; ++i) {
      alloc_ok(c, al, "store");
      if (!same(fs, v, extract(mt.cref(), fs, d), d, &w)) c.fail("store:value", "after operation %d the message differs at %s", i, w.c_str());
      if (i == n) break;
      std::string at;
      std::vector<Val> before = v;
      bool oom = c.chance(1, 10);
      if (oom) al.countdown = 1 + (int64_t)c.draw(3);
      try {
        c.ev("op %d", i);
        st.mutate(mt.mref(), fs, v, at);
        c.ev("at %s", at.c_str());
        al.countdown = 0;
        c.interleave(hash_bytes(at.data(), at.size()));
      } catch (const std::bad_alloc &) {
        al.countdown = 0;
        if (!oom) c.fail("store:bad_alloc", "bad_alloc without a failing allocation");
        c.fault("allocation-failed");
        alloc_ok(c, al, "store");
        // the field may hold anything readable, all others hold what they held
        std::vector<Val> got = extract(mt.cref(), fs, d);
        std::string top = at.substr(1, at.find_first_of(".[", 1) == std::string::npos ? std::string::npos : at.find_first_of(".[", 1) - 1);
        for (size_t k = 0; k < fs.size(); ++k)
          if (fs[k].name != top && !same({fs[k]}, {before[k]}, {got[k]}, d, &w)) c.fail("store:oom-damage", "an operation on %s that ran out of memory changed %s", at.c_str(), w.c_str());
        v = vg.message(gt - s.r->t[gt].doc_base).sub;
        fill(mt.mref(), fs, v, d, s.inst_of(gt));
      }
      c.state(hash_vals(v));
    }
    // by name and by id
    aggregate_cref m = mt.cref();
    readings(c, m, fs, v, d);
    for (size_t i = 0; i < fs.size(); ++i) {
      if (fs[i].name.empty() || fs[i].ft == TREF) continue;
      int k = m.field_index_with_name(fs[i].name.c_str());
      if (k < 0 || fs[k].name != fs[i].name) c.fail("store:lookup", "field %s is not found by its name", fs[i].name.c_str());
      if (!fs[i].id) continue;
      k = m.field_index_with_id(fs[i].id);
      if (k < 0 || fs[k].id != fs[i].id) c.fail("store:lookup", "field %s is not found by its id %u", fs[i].name.c_str(), fs[i].id);
    }
    size_t k = 0;
    for (auto &&f : m) {
      if (k >= fs.size() || (fs[k].ft != TREF && fs[k].name != f.name())) c.fail("store:iterate", "iteration over the fields is out of order");
      ++k;
    }
    if (k != fs.size()) c.fail("store:iterate", "iteration yields %zu of %zu fields", k, fs.size());
    ops = st.ops;
  }
  alloc_ok(c, al, "destruction");
  if (!al.live.empty()) c.fail("store:leak", "%zu blocks were not returned to the allocator", al.live.size());
  for (auto &f : foreign) if (memcmp(f.p, f.was.data(), f.was.size())) c.fail("store:foreign-write", "memory a field referred to was written to");
  if (ops >= 3) c.nontrivial();
}

static void c14(Ctx &c) {
  Schema s = any_schema(c, store_opts(c), 1, 3);
  CheckAlloc al[2];
  al[0].slack = (int)c.draw(20);
  al[1].slack = 0;
  std::list<Foreign> foreign;
  std::vector<std::unique_ptr<DecoderIf>> old; // copies of messages use the instructions of their decoder
  std::unique_ptr<DecoderIf> dec;
  struct Copy { std::unique_ptr<message_type> m; int gt = 0; std::vector<Val> v; std::list<Foreign> own; };
  std::vector<std::unique_ptr<Copy>> cs;
  struct Part { std::unique_ptr<sequence_type> m; const Field *f; int gt; Val v; std::list<Foreign> own; }; // sequences that live outside of messages
  std::vector<std::unique_ptr<Part>> ps;
  auto elements = [&](const Part &p) {
    Val v;
    sequence_cref k = static_cast<const sequence_type &>(*p.m).cref();
    v.present = !k.absent();
    if (v.present) for (auto &&e : k) { Val x; x.present = true; x.sub = extract(aggregate_cref(e), p.f->sub, s.doc_of(p.gt)); v.sub.push_back(x); }
    return v;
  };
  Gens vgs;
  auto gen = [&](int gt) -> ValGen & { auto &g = vgs[s.r->t[gt].doc_base]; if (!g) g.reset(new ValGen(c, s.doc_of(gt))); return *g; };
  auto verify = [&](const char *what) {
    for (auto &a : al) alloc_ok(c, a, what);
    for (size_t i = 0; i < cs.size(); ++i) {
      std::string w;
      if (!same(s.fields(cs[i]->gt), cs[i]->v, extract(cs[i]->m->cref(), s.fields(cs[i]->gt), s.doc_of(cs[i]->gt)), s.doc_of(cs[i]->gt), &w)) c.fail("copy:value", "after %s message %zu differs at %s", what, i, w.c_str());
    }
    for (size_t i = 0; i < ps.size(); ++i) {
      std::string w;
      if (!same({*ps[i]->f}, {ps[i]->v}, {elements(*ps[i])}, s.doc_of(ps[i]->gt), &w)) c.fail("copy:part", "after %s the sequence %zu outside of messages differs at %s", what, i, w.c_str());
    }
  };
  // messages may also come out of decoders
  RefEncoder ref(*s.r, &c);
  ref.o.refuse_empty = true;
  int n = 4 + (int)c.draw(26), copies = 0;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    const char *what = "";
    bool oom = c.chance(1, 8);
    int which = (int)c.draw(2);
    Copy *src = cs.empty() ? nullptr : cs[c.draw(cs.size())].get();
    int op = src ? (int)c.draw(13) : (int)c.draw(2);
    c.interleave(op);
    auto arm = [&]() { if (oom) for (auto &a : al) a.countdown = 1 + (int64_t)c.draw(6); };
    auto disarm = [&]() { for (auto &a : al) a.countdown = 0; };
    try {
      switch (op) {
      case 0: { // new message
        what = "construction";
        auto k = std::make_unique<Copy>();
        k->gt = (int)c.draw(s.r->t.size());
        k->v = gen(k->gt).message(k->gt - s.r->t[k->gt].doc_base).sub;
        arm();
        k->m.reset(new message_type(&al[which], s.inst(k->gt)));
        fill(k->m->mref(), s.fields(k->gt), k->v, s.doc_of(k->gt), s.inst_of(k->gt));
        disarm();
        cs.push_back(std::move(k));
        break;
      }
      case 1: { // copy of a decoded message; packet and decoder go away
        what = "copy of a decoded message";
        Msg m;
        if (!gen_encodable(c, s, ref, vgs, m, !dec)) break;
        if (!dec) dec = std::move(pick_decoders(c, s, false)[0]);
        auto k = std::make_unique<Copy>();
        k->gt = m.gt;
        {
          Exact x(m.bytes);
          const char *p = x.p;
          message_cref g = dec->decode(p, x.p + x.n, m.reset, (unsigned)c.draw(3));
          k->v = extract(g, s.fields(m.gt), s.doc_of(m.gt));
          arm();
          k->m.reset(new message_type(g, &al[which]));
          disarm();
        }
        cs.push_back(std::move(k));
        if (c.chance(1, 4)) { old.push_back(std::move(dec)); ref.st.reset(); ref.st.tmpl = s.r->t.size() == 1 ? 0 : -1; }
        ++copies;
        break;
      }
      case 2: { what = "copy construction"; auto k = std::make_unique<Copy>(); arm(); k->m.reset(new message_type(*src->m)); disarm(); k->gt = src->gt; k->v = src->v; cs.push_back(std::move(k)); ++copies; break; }
      case 3: { what = "copy into another allocator"; auto k = std::make_unique<Copy>(); arm(); k->m.reset(new message_type(src->m->cref(), &al[which])); disarm(); k->gt = src->gt; k->v = src->v; cs.push_back(std::move(k)); ++copies; break; }
      case 4: { what = "copy assignment"; auto &k = cs[c.draw(cs.size())]; arm(); *k->m = *src->m; disarm(); k->gt = src->gt; k->v = src->v; ++copies; break; }
      case 5: { what = "move construction"; auto k = std::make_unique<Copy>(); k->m.reset(new message_type(std::move(*src->m))); k->gt = src->gt; k->v = src->v; for (auto &q : cs) if (q.get() == src) { q->m.reset(); q = std::move(k); break; } ++copies; break; }
      case 6: { what = "move assignment"; size_t t = c.draw(cs.size()); if (cs[t].get() == src) break; *cs[t]->m = std::move(*src->m); cs[t]->gt = src->gt; cs[t]->v = src->v; for (size_t q = 0; q < cs.size(); ++q) if (cs[q].get() == src) { cs.erase(cs.begin() + q); break; } ++copies; break; }
      case 7: { // contents taken over by a message of the same template
        what = "assignment through references";
        Copy *t = nullptr;
        for (auto &q : cs) if (q->gt == src->gt && (q.get() != src || c.chance(1, 4))) t = q.get();
        if (!t) break;
        arm();
        t->m->mref().as(src->m->cref());
        disarm();
        t->v = src->v;
        ++copies;
        break;
      }
      case 8: { what = "destruction"; if (cs.size() < 2) break; for (size_t q = 0; q < cs.size(); ++q) if (cs[q].get() == src) { cs.erase(cs.begin() + q); break; } break; }
      case 9: { // a sequence is copied out of its message
        what = "copy of a sequence";
        const auto &fs = s.fields(src->gt);
        for (size_t q = 0, at = c.draw(fs.size() + 1); q < fs.size(); ++q) {
          size_t x = (at + q) % fs.size();
          if (fs[x].ft != SEQ || !src->v[x].present || fs[x].sub.empty()) continue;
          auto p = std::make_unique<Part>();
          p->f = &fs[x];
          p->gt = src->gt;
          p->v = src->v[x];
          arm();
          p->m.reset(new sequence_type(sequence_cref(src->m->cref()[x]), &al[which]));
          disarm();
          ps.push_back(std::move(p));
          ++copies;
          c.probe("copy.sequence");
          break;
        }
        break;
      }
      case 10: { // and lives on its own
        what = "use of a sequence";
        if (ps.empty()) break;
        size_t at = c.draw(ps.size()), other = c.draw(ps.size());
        auto &p = ps[at];
        switch (c.draw(5)) {
        case 0: { auto k = std::make_unique<Part>(); k->m.reset(new sequence_type(std::move(*p->m))); k->f = p->f; k->gt = p->gt; k->v = p->v; p = std::move(k); break; }
        case 1: if (at == other) break; *ps[other]->m = std::move(*p->m); ps[other]->f = p->f; ps[other]->gt = p->gt; ps[other]->v = p->v; ps.erase(ps.begin() + at); break;
        case 2: ps.erase(ps.begin() + at); break;
        case 3: { // back into a message
          if (cs.empty()) break;
          Copy &k = *cs[c.draw(cs.size())];
          if (k.gt != p->gt || k.m->allocator() != p->m->allocator()) break;
          const auto &fs = s.fields(k.gt);
          for (size_t x = 0; x < fs.size(); ++x) if (&fs[x] == p->f && k.v[x].present) { sequence_mref(k.m->mref()[x]).swap(p->m->mref()); std::swap(k.v[x], p->v); }
          break;
        }
        default: {
          Store st(c, s, p->gt, gen(p->gt), p->own);
          std::string w;
          st.sequence(p->m->mref(), *p->f, p->v, w);
          foreign.splice(foreign.end(), p->own);
        }
        }
        break;
      }
      default: {
        what = "modification";
        Store st(c, s, src->gt, gen(src->gt), src->own);
        std::string at;
        for (int k = 0; k < 3; ++k) st.mutate(src->m->mref(), s.fields(src->gt), src->v, at);
        // the memory fields refer to goes away with the message
        for (auto &f : src->own) (void)f;
        foreign.splice(foreign.end(), src->own);
      }
      }
    } catch (const std::bad_alloc &) {
      disarm();
      c.ev("out of memory"); if (!oom) c.fail("copy:bad_alloc", "bad_alloc without a failing allocation");
      c.fault("allocation-failed");
    }
    disarm();
    c.ev("%s", what);
    verify(what);
    c.state(cs.size() * 1000 + (cs.empty() ? 0 : hash_vals(cs[0]->v)));
  }
  // all copies must survive what their originals referred to
  if (!cs.empty()) {
    std::vector<std::unique_ptr<Copy>> k;
    for (auto &q : cs) {
      auto x = std::make_unique<Copy>();
      x->m.reset(new message_type(q->m->cref(), &al[0]));
      x->gt = q->gt;
      x->v = q->v;
      k.push_back(std::move(x));
    }
    cs.clear();
    ps.clear();
    for (auto &f : foreign) if (memcmp(f.p, f.was.data(), f.was.size())) c.fail("store:foreign-write", "memory a field referred to was written to");
    foreign.clear();
    cs = std::move(k);
    verify("the end of all originals");
  }
  ps.clear();
  cs.clear();
  for (auto &a : al) {
    alloc_ok(c, a, "destruction");
    if (!a.live.empty()) c.fail("copy:leak", "%zu blocks were not returned to the allocator (one of %zu bytes)", a.live.size(), a.live.begin()->second);
  }
  if (copies >= 2) c.nontrivial();
}

// What comparing two fields must say: 0 different, 1 equal, 2 either (equal in
// structure, but of different templates or types).
static int model_cmp(const Field &f, const Val &a, const Doc &da, const Field &g, const Val &b, const Doc &db);
static int model_cmp(const std::vector<Field> &f, const std::vector<Val> &a, const Doc &da, const std::vector<Field> &g, const std::vector<Val> &b, const Doc &db) {
  if (f.size() != g.size()) return 0;
  int r = &f == &g ? 1 : 2;
  for (size_t i = 0; i < f.size(); ++i) {
    int k = model_cmp(f[i], a[i], da, g[i], b[i], db);
    if (!k) return 0;
    r = std::max(r, k);
  }
  return r;
}
static int model_cmp(const Field &f, const Val &a, const Doc &da, const Field &g, const Val &b, const Doc &db) {
  auto kind = [](const Field &x) { return x.ft == BOO ? ENM : x.ft; };
  if (kind(f) != kind(g)) return 0;
  if (a.present != b.present) return 0;
  int r = &f == &g ? 1 : f.ft == ENM || f.ft == BOO || f.ft == SET_ || f.ft == GRP || f.ft == SEQ || f.ft == TREF || f.indiv != g.indiv ? 2 : 1;
  if (!a.present) return r;
  switch (f.ft) {
  case ASC: case UNI: case BYT: return a.s == b.s ? r : 0;
  case VI32: case VU32: case VI64: case VU64: return a.vec == b.vec ? r : 0;
  case DEC: return a.u == b.u && a.exp == b.exp ? r : 0;
  case GRP: {
    int k = model_cmp(f.sub, a.sub, da, g.sub, b.sub, db);
    return k ? std::max(r, k) : 0;
  }
  case SEQ: {
    if (a.sub.size() != b.sub.size()) return 0;
    for (size_t i = 0; i < a.sub.size(); ++i) {
      int k = model_cmp(f.sub, a.sub[i].sub, da, g.sub, b.sub[i].sub, db);
      if (!k) return 0;
      r = std::max(r, k);
    }
    return r;
  }
  case TREF: {
    int k = model_cmp(da.t[a.tmpl].f, a.sub, da, db.t[b.tmpl].f, b.sub, db);
    return k ? std::max(r, k) : 0;
  }
  default: return a.u == b.u ? r : 0;
  }
}

static void c18(Ctx &c) {
  Schema s = any_schema(c, store_opts(c), 1, 3);
  std::list<Foreign> foreign;
  std::vector<std::unique_ptr<DecoderIf>> decs = pick_decoders(c, s, false); // outlive the copies of their messages
  struct M { std::unique_ptr<message_type> m; int gt; std::vector<Val> v; bool raw = false; };
  std::vector<M> ms;
  Gens vgs;
  auto gen = [&](int gt) -> ValGen & { auto &g = vgs[s.r->t[gt].doc_base]; if (!g) g.reset(new ValGen(c, s.doc_of(gt))); return *g; };
  RefEncoder ref(*s.r, &c);
  ref.o.refuse_empty = true;
  uint64_t equal = 0, different = 0, close = 0;
  auto judge = [&](int want, bool got, bool back, bool ne, const std::string &what) {
    if (got != back) c.fail("equal:asymmetric", "%s: the comparison depends on the order", what.c_str());
    if (ne == got) c.fail("equal:negation", "%s: == and != agree", what.c_str());
    if (want == 1 && !got) c.fail("equal:false-difference", "%s: equal, but said to differ", what.c_str());
    if (want == 0 && got) c.fail("equal:false-equality", "%s: different, but said to be equal", what.c_str());
    ++(want ? equal : different);
  };
  auto compare = [&](size_t i, size_t j) {
    M &a = ms[i], &b = ms[j];
    const auto &f = s.fields(a.gt), &g = s.fields(b.gt);
    const Doc &da = s.doc_of(a.gt), &db = s.doc_of(b.gt);
    message_cref x = a.m->cref(), y = b.m->cref();
    int want = model_cmp(f, a.v, da, g, b.v, db);
    judge(want, x == y, y == x, x != y, "message " + std::to_string(i) + " and " + std::to_string(j));
    // field by field, and with a field of another position
    int shift = c.chance(1, 4) && g.size() ? (int)c.draw(g.size()) : 0;
    int diff = 0;
    for (size_t k = 0; k < f.size() && !g.empty(); ++k) {
      size_t l = (k + shift) % g.size();
      field_cref p = x[k], q = y[l];
      int w = model_cmp(f[k], a.v[k], da, g[l], b.v[l], db);
      if (!w) ++diff;
      judge(w, p == q, q == p, p != q, "field " + f[k].name + " of message " + std::to_string(i) + " and " + g[l].name + " of " + std::to_string(j) + " (" + show({f[k]}, {a.v[k]}, da) + ", " + show({g[l]}, {b.v[l]}, db) + ")");
    }
    if (diff == 1 && !shift) ++close; // messages that differ in one field only
  };
  int n = 4 + (int)c.draw(20);
  for (int step = 0; step < n; ++step) {
    Ctx::Scope sc(c);
    size_t at = 0;
    int op = ms.empty() ? 0 : (int)c.draw(8);
    if (ms.size() >= 6 && op < 3) op = 4;
    c.interleave(op);
    switch (op) {
    case 0: { // new message
      M k;
      k.gt = (int)c.draw(s.r->t.size());
      k.v = gen(k.gt).message(k.gt - s.r->t[k.gt].doc_base).sub;
      k.m.reset(new message_type(malloc_allocator::instance(), s.inst(k.gt)));
      if (c.chance(1, 5)) k.raw = true, k.v = extract(k.m->cref(), s.fields(k.gt), s.doc_of(k.gt)); // as it is new
      else fill(k.m->mref(), s.fields(k.gt), k.v, s.doc_of(k.gt), s.inst_of(k.gt));
      ms.push_back(std::move(k));
      at = ms.size() - 1;
      break;
    }
    case 1: { // a copy
      M k;
      M &o = ms[c.draw(ms.size())];
      k.gt = o.gt; k.v = o.v; k.raw = o.raw;
      k.m.reset(new message_type(o.m->cref(), malloc_allocator::instance()));
      ms.push_back(std::move(k));
      at = ms.size() - 1;
      break;
    }
    case 2: { // a decoded message
      Msg m;
      if (!gen_encodable(c, s, ref, vgs, m, false)) break;
      const char *p;
      Exact x(m.bytes);
      p = x.p;
      message_cref g = decs[0]->decode(p, x.p + x.n, m.reset, (unsigned)c.draw(3));
      M k;
      k.gt = m.gt;
      k.v = extract(g, s.fields(m.gt), s.doc_of(m.gt));
      k.m.reset(new message_type(g, malloc_allocator::instance()));
      ms.push_back(std::move(k));
      at = ms.size() - 1;
      break;
    }
    case 3: { // the contents are built again, in another way
      at = c.draw(ms.size());
      M &o = ms[at];
      o.raw = false;
      o.m.reset(new message_type(malloc_allocator::instance(), s.inst(o.gt)));
      fill(o.m->mref(), s.fields(o.gt), o.v, s.doc_of(o.gt), s.inst_of(o.gt));
      break;
    }
    default: { // a copy that differs a little, or not
      at = c.draw(ms.size());
      Store st(c, s, ms[at].gt, gen(ms[at].gt), foreign);
      std::string w;
      st.swaps = !ms[at].raw;
      st.mutate(ms[at].m->mref(), s.fields(ms[at].gt), ms[at].v, w);
      c.ev("changed %s", w.c_str());
      break;
    }
    }
    if (at < ms.size()) {
      std::string w;
      const auto &f = s.fields(ms[at].gt);
      if (!same(f, ms[at].v, extract(ms[at].m->cref(), f, s.doc_of(ms[at].gt)), s.doc_of(ms[at].gt), &w)) c.fail("equal:contents", "message %zu differs from its model at %s", at, w.c_str());
    }
    for (size_t j = 0; j < ms.size(); ++j) compare(at, j);
    c.state(ms.size() * 1000 + (ms.empty() ? 0 : hash_vals(ms[at].v)));
  }
  c.probe("compared-equal", equal);
  c.probe("compared-different", different);
  c.probe("differ-in-one-field", close);
  if (equal > ms.size() && different) c.nontrivial();
}

static Register r18(Prop{"C18", "exploration", "one run = up to 24 steps that create, copy, decode, rebuild and modify up to 6 messages; after every step the changed message and each of its fields are compared with those of all messages, in both orders, and the answer with that of the model; non-trivial when comparisons had both outcomes", c18, {"field_comparator", "message containers", "instructions", "fast_decoder", "fast_decoder_v2", "fast_type_gen output"}, {"peer (reference encoder)", "application"}, {"messages of different templates with equal structure and values may or may not be equal"}});
static Register r13(Prop{"C13", "exploration", "one run = a message of a random template and 5..45 operations on random fields of it (assignment, insertion, replacement, growth, aliasing of foreign memory, swaps, sequence and nested message operations) with failing and moving allocations, compared with a model after every operation; non-trivial with at least 3 operations", c13, {"message containers", "field references", "instructions", "dynamic_templates_description", "fast_type_gen output"}, {"allocator (adversarial, contract-checking)", "application"}, {"elements of a sequence that appear by growing it are set before they are read", "optional parts that were omitted are set before they are read"}});
static Register r14(Prop{"C14", "exploration", "one run = up to 30 steps that create, decode, copy, move, assign, modify and destroy messages over two allocators, all messages compared with their models after every step; non-trivial with at least 2 copies", c14, {"message containers", "composite_type", "instructions", "fast_decoder", "fast_decoder_v2"}, {"allocators (adversarial, contract-checking)", "peer (reference encoder)", "application"}, {"moved-from messages are not used again", "a decoder outlives the copies of its messages (they use its instructions)"}});
} // namespace sim
