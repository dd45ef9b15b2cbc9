// C04 damaged input, C05 recovery by reset, C06 framing, C07 bounded output,
// C09 isolation of sessions, C10 tokens of the generated decoders.
#include "prop_common.h"
#include <algorithm>

namespace sim {

// One damaged copy of a message as a faulty link delivers it.
static std::string damage(Ctx &c, const std::string &m, const std::vector<std::string> &other, bool *prefix) {
  *prefix = false;
  std::string b = m;
  switch (c.pick({4, 4, 2, 2, 2, 2, 1, 2})) {
  case 0: // cut off
    if (b.size() < 2) return "";
    b.resize(1 + c.draw(b.size() - 1));
    *prefix = true;
    c.fault("truncated");
    return b;
  case 1: {
    int n = 1 + (int)c.draw(3);
    for (int i = 0; i < n; ++i) b[c.draw(b.size())] ^= char(1 << c.draw(8));
    c.fault("bit-flipped");
    return b;
  }
  case 2: {
    size_t at = c.draw(b.size() + 1);
    int n = 1 + (int)c.draw(4);
    for (int i = 0; i < n; ++i) b.insert(b.begin() + at, char(c.draw(256)));
    c.fault("bytes-inserted");
    return b;
  }
  case 3: {
    if (b.size() < 2) return "";
    size_t at = c.draw(b.size() - 1), n = 1 + c.draw(std::min<size_t>(4, b.size() - 1 - at));
    b.erase(at, n);
    c.fault("bytes-deleted");
    return b;
  }
  case 4: { // the stop bits of a range are lost
    size_t at = c.draw(b.size()), n = 1 + c.draw(12);
    for (size_t i = at; i < b.size() && i < at + n; ++i) b[i] &= 0x7f;
    c.fault("stop-bits-lost");
    return b;
  }
  case 5: { // two messages overlap
    if (other.empty()) return "";
    const std::string &o = c.one_of(other);
    b = b.substr(0, c.draw(b.size() + 1)) + o.substr(c.draw(o.size()));
    if (b.empty()) return "";
    c.fault("spliced");
    return b;
  }
  case 6: {
    size_t n = 1 + c.draw(60);
    b.clear();
    for (size_t i = 0; i < n; ++i) b += char(c.draw(256));
    c.fault("garbage");
    return b;
  }
  default: { // a byte is replaced by an interesting value
    static const unsigned char v[] = {0x80, 0x00, 0x7f, 0xff, 0x81, 0x82, 0x40, 0xc0, 0x0f, 0x8f};
    int n = 1 + (int)c.draw(6);
    size_t at = c.draw(b.size());
    for (int i = 0; i < n && at < b.size(); ++i, ++at) b[at] = char(v[c.draw(10)]);
    c.fault("bytes-overwritten");
    return b;
  }
  }
}

struct Reader {
  std::unique_ptr<DecoderIf> d;
};

// Feeds bytes to a decoder; returns true when a message came out.
static bool feed(Ctx &c, const Schema &s, DecoderIf &d, const std::string &bytes, bool reset, unsigned token, const char *cls, std::vector<Val> *out, int *gt, size_t *used) {
  Exact x(bytes);
  const char *q = x.p;
  try {
    message_cref g = d.decode(q, x.p + x.n, reset, token);
    if (q <= x.p || q > x.p + x.n) c.fail(std::string(cls) + ":cursor", "%s left the cursor at %ld of %zu", d.name.c_str(), (long)(q - x.p), x.n);
    *gt = template_of(s, g);
    if (*gt < 0) c.fail(std::string(cls) + ":template", "%s returned a message of an unknown template", d.name.c_str());
    *out = extract(g, s.fields(*gt), s.doc_of(*gt)); // every part can be read
    message_type copy(g, std_alloc());
    *used = (size_t)(q - x.p);
    return true;
  } catch (const Violation &) { throw;
  } catch (...) {
    if (!documented_codec_exception()) {
      std::string e = describe_exception();
      c.fail(std::string(cls) + ":undocumented:" + e, "%s threw %s on damaged input %s", d.name.c_str(), e.c_str(), hexstr(bytes.data(), bytes.size()).c_str());
    }
    if (c.keep_log) c.ev("%s refused: %s", d.name.c_str(), describe_exception().c_str());
    return false;
  }
}

// The line delivers intact and damaged messages.  Nothing the decoders do may
// touch memory outside of the packet; what the rules make of the damaged bytes
// is what the decoders make of it.
static void damaged(Ctx &c, bool recovery) {
  GenOpts o = profile(c);
  o.empties = false; // the length of a sequence whose elements take no bytes is not bounded by the packet
  Schema s = any_schema(c, o, 1, 2);
  auto decs = pick_decoders(c, s, true);
  RefEncoder ref(*s.r, &c);
  ref.o.overlong_pmap = c.chance(1, 3);
  RefDecoder oracle(*s.r);
  oracle.strict = true;
  Gens vg;
  bool insync = true;
  int n = 3 + (int)c.draw(14), good = 0, bad = 0;
  std::vector<std::string> sent;
  struct Lim { size_t old = AllocSeam::limit; ~Lim() { AllocSeam::limit = old; } } lim;
  AllocSeam::limit = 8u << 20;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    bool want_reset = i && (insync ? c.chance(1, 12) : c.chance(recovery ? 2 : 1, 4));
    if (want_reset) ref.o.alternatives = false;
    if (!gen_encodable(c, s, ref, vg, m, want_reset)) { ref.o.alternatives = true; continue; }
    ref.o.alternatives = true;
    bool prefix = false;
    std::string b = m.bytes;
    bool hurt = i && !want_reset && c.chance(1, 3);
    if (hurt) {
      b = damage(c, m.bytes, sent, &prefix);
      if (b.empty() || b == m.bytes) { b = m.bytes; hurt = prefix = false; }
    }
    sent.push_back(m.bytes);
    c.interleave(hurt);
    log_msg(c, s, m, b);
    if (want_reset) { insync = true; c.fault("session-reset"); }
    // what the rules say
    const unsigned char *p = (const unsigned char *)b.data(), *e = p + b.size();
    std::vector<Val> want;
    int gt = -1;
    std::string err;
    bool unspecified = !insync;
    oracle.notes.clear();
    if (insync) {
      try {
        gt = oracle.decode(p, e, want, want_reset);
        if (hurt && !oracle.notes.empty()) unspecified = true;
      } catch (RefError &x) { err = x.code;
      } catch (RefTrunc &) { err = "truncated";
      } catch (RefUnspecified &) { unspecified = true; }
    }
    if (insync && hurt) { err.empty() && !unspecified ? ++good : ++bad; }
    for (auto &d : decs) {
      std::vector<Val> got;
      int g2 = -1;
      size_t used = 0;
      bool ok = feed(c, s, *d, b, want_reset, (unsigned)c.draw(3), recovery ? "recovery" : "damaged", &got, &g2, &used);
      if (unspecified) continue;
      if (err.empty()) {
        if (!ok) c.fail(std::string(recovery ? "recovery" : "damaged") + ":refused", "%s refused a message the rules accept: %s", d->name.c_str(), hexstr(b.data(), b.size()).c_str());
        std::string w;
        if (g2 != gt || !same(s.fields(gt), want, got, s.doc_of(gt), &w, false))
          c.fail(std::string(recovery ? "recovery" : "damaged") + ":value", "%s: message of template %s differs at %s", d->name.c_str(), s.r->t[gt].t->name.c_str(), w.c_str());
        if (used != (size_t)(p - (const unsigned char *)b.data())) c.fail(std::string(recovery ? "recovery" : "damaged") + ":framing", "%s consumed %zu bytes", d->name.c_str(), used);
      } else if (ok && err != "R4/R6") {
        c.fail(std::string(recovery ? "recovery" : "damaged") + ":accepted:" + err, "%s made a message out of a %s one: %s", d->name.c_str(), err.c_str(), hexstr(b.data(), b.size()).c_str());
      }
    }
    if (unspecified || !err.empty()) { insync = false; c.probe("lost-sync"); if (!err.empty()) c.probe(("error-" + err).c_str()); }
    else if (hurt) {
      // the sender does not know: the rules are applied to what arrived
      c.probe("damaged-but-legal");
    }
    c.state(oracle.st.hash());
  }
  if (bad + good) c.nontrivial();
}
static void c04(Ctx &c) { damaged(c, false); }

// ---- C05: after any failure one reset makes an endpoint as good as new ----
static void c05(Ctx &c) {
  if (c.chance(1, 3)) { damaged(c, true); return; }
  Schema s = any_schema(c, profile(c), 1, 2);
  bool gen = s.set && c.chance(1, 2);
  auto make = [&]() { return gen ? s.set->enc2(std_alloc()) : make_v1_encoder(s.desc); };
  auto enc = make();
  auto decs = pick_decoders(c, s, true);
  bool overlong = c.chance(1, 2);
  enc->allow_overlong(overlong);
  Gens vg;
  RefEncoder ref(*s.r, nullptr);
  ref.o.refuse_empty = true;
  int rounds = 1 + (int)c.draw(3), compared = 0;
  std::vector<std::string> sent;
  Schema foreign;
  std::vector<Val> fm;
  for (int r = 0; r < rounds; ++r) {
    Ctx::Scope sc(c);
    // a disturbed phase
    int n = 1 + (int)c.draw(4);
    for (int i = 0; i < n; ++i) {
      Ctx::Scope s2(c);
      Msg m;
      if (!gen_encodable(c, s, ref, vg, m, false)) continue;
      message_type mt = build_message(s, m.gt, m.v);
      int k = c.pick({2, 3, 3, 2});
      std::string b;
      if (k == 3) { // a message of a template the encoder does not know
        if (!foreign.r) { GenOpts fo; fo.id_base = 900000; fo.max_templates = 1; fo.dynref = false; foreign = dynamic_schema(c, fo, 1); }
        ValGen fg(c, foreign.doc_of(0));
        fm = fg.message(0).sub;
        mt = build_message(foreign, 0, fm);
        c.fault("unknown-template");
      }
      try {
        if (k == 1) {
          size_t cap = 1 + c.draw(m.bytes.size() + 4);
          Exact x(std::string(cap, 'x'));
          c.fault("output-buffer-too-small");
          size_t w = enc->encode(mt.cref(), x.p, x.n, false);
          b.assign(x.p, w);
        } else if (k == 2) {
          std::vector<char> out;
          c.fault("allocation-failed");
          ArmAlloc arm(1 + (int)c.draw(12), c.chance(1, 3));
          enc->encode(mt.cref(), out, false);
          AllocSeam::armed = false;
          b.assign(out.begin(), out.end());
        } else
          b = encode_one(c, *enc, mt.cref(), false);
      } catch (const Violation &) { throw;
      } catch (...) {
        AllocSeam::armed = false;
        c.probe("encode-failed");
        if (!documented_codec_exception()) c.fail("recovery:undocumented", "%s threw %s", enc->name.c_str(), describe_exception().c_str());
      }
      if (b.empty()) b = m.bytes;
      bool prefix;
      if (c.chance(1, 2)) { std::string x = damage(c, b, sent, &prefix); if (!x.empty()) b = x; }
      sent.push_back(b);
      for (auto &d : decs) {
        std::vector<Val> got;
        int gt;
        size_t used;
        Exact x(b);
        const char *q = x.p;
        bool arm = c.chance(1, 4);
        int64_t at = 1 + (int64_t)c.draw(12);
        try {
          if (arm) { c.fault("allocation-failed"); ArmAlloc a(at); d->decode(q, x.p + x.n, false, (unsigned)at % 3); }
          else feed(c, s, *d, b, false, (unsigned)at % 3, "recovery", &got, &gt, &used);
        } catch (const Violation &) { throw;
        } catch (...) {
          AllocSeam::armed = false;
          c.probe("decode-failed");
          if (!documented_codec_exception()) c.fail("recovery:undocumented", "%s threw %s", d->name.c_str(), describe_exception().c_str());
        }
      }
    }
    // the reset: from here on everything is as with new endpoints
    auto fresh = make();
    fresh->allow_overlong(overlong);
    n = 1 + (int)c.draw(5);
    bool first = true;
    for (int i = 0; i < n; ++i) {
      Ctx::Scope s2(c);
      Msg m;
      if (!gen_encodable(c, s, ref, vg, m, first)) continue;
      first = false;
      if (m.reset) c.fault("session-reset");
      std::string b = encode_expect(c, s, *enc, m, "recovery");
      std::string f = encode_expect(c, s, *fresh, m, "recovery");
      log_msg(c, s, m, b);
      if (b != f) c.fail("recovery:bytes", "%s writes %s after a failure and a reset, a new one writes %s", enc->name.c_str(), hexstr(b.data(), b.size()).c_str(), hexstr(f.data(), f.size()).c_str());
      Exact x(b);
      for (auto &d : decs) {
        const char *p = x.p;
        decode_expect(c, s, *d, m, p, x.p + x.n, x.p + x.n, (unsigned)c.draw(3), "recovery", true);
        ++compared;
      }
      sent.push_back(b);
      c.state(ref.st.hash());
    }
    if (first) return;
  }
  if (compared) c.nontrivial();
}

// ---- C06: message boundaries do not depend on packets ----
static void c06(Ctx &c) {
  Schema s = any_schema(c, profile(c), 1, 2);
  bool gen = s.set && c.chance(1, 2);
  auto make = [&]() { return gen ? s.set->enc2(std_alloc()) : make_v1_encoder(s.desc); };
  auto e1 = make(), e2 = make();
  bool overlong = c.chance(1, 2);
  e1->allow_overlong(overlong);
  e2->allow_overlong(overlong);
  auto da = pick_decoders(c, s, true), db = pick_decoders(c, s, true), dc = pick_decoders(c, s, true);
  RefEncoder ref(*s.r, nullptr);
  ref.o.refuse_empty = true;
  Gens vg;
  int n = 2 + (int)c.draw(10);
  std::vector<Msg> ms;
  std::vector<char> stream; // one packet of everything
  std::vector<size_t> bound;
  std::string raw(1 << 18, 'z');
  size_t fill_at = 0;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, s, ref, vg, m, !ms.empty() && c.chance(1, 10))) continue;
    message_type mt = build_message(s, m.gt, m.v);
    size_t before = stream.size();
    std::vector<char> copy = stream;
    size_t w;
    try {
      e1->encode(mt.cref(), stream, m.reset);
      w = e2->encode(mt.cref(), &raw[fill_at], raw.size() - fill_at, m.reset);
    } catch (...) {
      c.fail("framing:encode-exception", "%s threw %s", e1->name.c_str(), describe_exception().c_str());
    }
    if (stream.size() < before || !std::equal(copy.begin(), copy.end(), stream.begin())) c.fail("framing:prefix", "%s changed bytes already in the buffer", e1->name.c_str());
    if (w != stream.size() - before || memcmp(&raw[fill_at], stream.data() + before, w)) c.fail("framing:buffer-kind", "%s wrote different bytes to a vector and to a buffer", e1->name.c_str());
    if (w == 0) c.fail("framing:empty", "%s wrote nothing", e1->name.c_str());
    fill_at += w;
    m.bytes.assign(stream.begin() + before, stream.end());
    bound.push_back(stream.size());
    ms.push_back(m);
    log_msg(c, s, m, m.bytes);
    c.state(ref.st.hash());
  }
  if (ms.empty()) return;
  std::string all(stream.begin(), stream.end());
  Exact whole(all);
  for (size_t k = 0; k < da.size(); ++k) {
    const char *p = whole.p;
    for (size_t i = 0; i < ms.size(); ++i) {
      unsigned token = (unsigned)c.draw(3);
      decode_expect(c, s, *da[k], ms[i], p, whole.p + whole.n, whole.p + bound[i], token, "framing", true);
      // alone in its packet
      Exact x(ms[i].bytes);
      const char *q = x.p;
      decode_expect(c, s, *db[k], ms[i], q, x.p + x.n, x.p + x.n, token, "framing", true);
      // followed by something else
      std::string tail;
      size_t t = 1 + c.draw(9);
      for (size_t j = 0; j < t; ++j) tail += char(c.draw(256));
      c.fault("trailing-bytes");
      Exact y(ms[i].bytes + tail);
      q = y.p;
      decode_expect(c, s, *dc[k], ms[i], q, y.p + y.n, y.p + x.n, token, "framing", true);
      c.interleave(t);
    }
  }
  if (ms.size() >= 2) c.nontrivial();
}

// ---- C07: bounded output ----
static void c07(Ctx &c) {
  Schema s = any_schema(c, profile(c), 1, 2);
  bool gen = s.set && c.chance(1, 2);
  auto make = [&]() { return gen ? s.set->enc2(std_alloc()) : make_v1_encoder(s.desc); };
  auto big = make(), roomy = make(), tight = make();
  bool overlong = c.chance(1, 2);
  big->allow_overlong(overlong);
  roomy->allow_overlong(true);
  tight->allow_overlong(overlong);
  RefEncoder ref(*s.r, nullptr);
  ref.o.refuse_empty = true;
  Gens vg;
  int n = 2 + (int)c.draw(10), done = 0;
  bool next_reset = false;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    bool rs = next_reset || (i && c.chance(1, 12));
    if (!gen_encodable(c, s, ref, vg, m, rs)) { if (rs) next_reset = true; continue; }
    next_reset = false;
    m.reset = rs;
    std::string b = encode_expect(c, s, *big, m, "bounded");
    std::string l = encode_expect(c, s, *roomy, m, "bounded"); // the space needed while a message is written
    size_t need = std::max(b.size(), l.size());
    message_type mt = build_message(s, m.gt, m.v);
    bool small = c.chance(1, 3);
    // between the size of the message and the space needed while it is written both are fine
    size_t cap = small ? c.draw(b.size()) : c.chance(1, 2) ? need : c.chance(1, 2) ? b.size() : need + c.draw(5);
    if (cap == 0) cap = 1, small = b.size() > 1;
    Exact x(std::string(cap, char(0x5a)));
    log_msg(c, s, m, b);
    c.interleave(cap < b.size());
    try {
      size_t w = tight->encode(mt.cref(), x.p, x.n, m.reset);
      if (small) c.fail("bounded:accepted", "%s reported %zu bytes for a buffer of %zu, the message takes %zu", tight->name.c_str(), w, cap, b.size());
      if (w != b.size() || memcmp(x.p, b.data(), w)) c.fail("bounded:bytes", "%s wrote %s into a buffer of %zu bytes instead of %s", tight->name.c_str(), hexstr(x.p, std::min(w, cap)).c_str(), cap, hexstr(b.data(), b.size()).c_str());
      ++done;
      if (cap == b.size()) c.probe("exact-fit");
    } catch (const Violation &) { throw;
    } catch (...) {
      if (!documented_codec_exception()) c.fail("bounded:undocumented", "%s threw %s", tight->name.c_str(), describe_exception().c_str());
      if (cap >= need) c.fail("bounded:refused", "%s refused a buffer of %zu bytes for a message of %zu bytes (%s)", tight->name.c_str(), cap, b.size(), describe_exception().c_str());
      c.fault("output-buffer-too-small");
      next_reset = true;
      // everybody starts over
    }
    c.state(ref.st.hash());
  }
  if (done) c.nontrivial();
}

// ---- C09: sessions do not influence each other ----
struct Session {
  const Schema *s;
  std::unique_ptr<HookAlloc> ha, hd;
  std::unique_ptr<EncoderIf> enc;
  std::vector<std::unique_ptr<DecoderIf>> decs;
  std::vector<Msg> script;
  std::vector<std::string> want; // bytes of the session when it runs alone
  size_t at = 0;
  bool busy = false;
  int kind = 0;
};

static void c09(Ctx &c) {
  GenOpts o = profile(c);
  int ns = 1 + (int)c.draw(2);
  std::vector<Schema> schemas;
  for (int i = 0; i < ns; ++i) schemas.push_back(any_schema(c, o, 1, 2));
  int k = 2 + (int)c.draw(3);
  std::vector<Session> ss(k);
  bool fine = c.chance(1, 2);
  auto endpoints = [&](Session &S, bool hooked) {
    S.decs.clear();
    S.enc.reset();
    S.ha.reset(new HookAlloc);
    S.hd.reset(new HookAlloc);
    allocator *a = hooked ? (allocator *)S.ha.get() : std_alloc(), *b = hooked ? (allocator *)S.hd.get() : std_alloc();
    S.enc = S.kind & 1 && S.s->set ? S.s->set->enc2(a) : make_v1_encoder(S.s->desc, a);
    S.decs.push_back(make_v1_decoder(S.s->desc, b));
    if (S.s->set) S.decs.push_back(S.s->set->dec2(S.kind & 2 ? 3 : 0, b));
  };
  int total = 0;
  for (auto &S : ss) {
    Ctx::Scope sc(c);
    S.s = &schemas[c.draw(schemas.size())];
    S.kind = (int)c.draw(4);
    Gens vg;
    RefEncoder ref(*S.s->r, nullptr);
    ref.o.refuse_empty = true;
    int n = 1 + (int)c.draw(6);
    for (int i = 0; i < n; ++i) {
      Ctx::Scope s2(c);
      Msg m;
      if (!gen_encodable(c, *S.s, ref, vg, m, i && c.chance(1, 8))) continue;
      S.script.push_back(m);
    }
    // alone
    endpoints(S, false);
    for (auto &m : S.script) S.want.push_back(encode_expect(c, *S.s, *S.enc, m, "isolation"));
    total += (int)S.script.size();
  }
  for (auto &S : ss) endpoints(S, true);
  int depth = 0;
  std::function<void(Session &)> step;
  auto other = [&]() {
    if (depth >= 2 || !c.chance(1, 6)) return;
    std::vector<Session *> r;
    for (auto &S : ss) if (!S.busy && S.at < S.script.size()) r.push_back(&S);
    if (r.empty()) return;
    c.fault("preempted");
    step(*c.one_of(r));
  };
  step = [&](Session &S) {
    Ctx::Scope sc(c);
    ++depth;
    S.busy = true;
    const Msg &m = S.script[S.at];
    c.interleave((uint64_t)(&S - &ss[0]) * 4 + depth);
    c.ev("session %d step %zu depth %d", (int)(&S - &ss[0]), S.at, depth);
    S.ha->hook = S.hd->hook = nullptr;
    if (fine) S.ha->hook = S.hd->hook = other;
    message_type mt = build_message(*S.s, m.gt, m.v, fine ? (allocator *)S.ha.get() : std_alloc());
    std::string b;
    try {
      std::vector<char> buf;
      S.enc->encode(mt.cref(), buf, m.reset);
      b.assign(buf.begin(), buf.end());
    } catch (const Violation &) { throw;
    } catch (...) { S.ha->check(); c.fail("isolation:encode-exception", "%s threw %s in an interleaved session", S.enc->name.c_str(), describe_exception().c_str()); }
    S.ha->check();
    if (b != S.want[S.at]) c.fail("isolation:bytes", "session %d: %s wrote %s, alone it writes %s", (int)(&S - &ss[0]), S.enc->name.c_str(), hexstr(b.data(), b.size()).c_str(), hexstr(S.want[S.at].data(), S.want[S.at].size()).c_str());
    if (!fine && c.chance(1, 3)) other();
    Exact x(b);
    for (auto &d : S.decs) {
      const char *p = x.p;
      decode_expect(c, *S.s, *d, m, p, x.p + x.n, x.p + x.n, (unsigned)S.at % 3, "isolation", true);
      S.hd->check();
    }
    ++S.at;
    S.busy = false;
    S.ha->hook = S.hd->hook = nullptr;
    --depth;
  };
  for (;;) {
    std::vector<Session *> r;
    for (auto &S : ss) if (S.at < S.script.size()) r.push_back(&S);
    if (r.empty()) break;
    if (c.chance(1, 10)) {
      // connections come and go while others are in use
      Session t;
      t.s = r[0]->s;
      t.kind = (int)c.draw(4);
      endpoints(t, false);
      c.fault("endpoint-created-and-destroyed");
    }
    step(*c.one_of(r));
  }
  // descriptions are shared and must not have been changed: a new session behaves like the first one
  for (auto &S : ss) {
    endpoints(S, false);
    for (size_t i = 0; i < S.script.size(); ++i)
      if (encode_expect(c, *S.s, *S.enc, S.script[i], "isolation") != S.want[i]) c.fail("isolation:later", "a later session writes different bytes");
  }
  if (total >= 2) c.nontrivial();
}

// ---- C10: tokens ----
static void c10(Ctx &c) {
  auto &gs = gen_sets();
  if (gs.empty()) return;
  auto &g = gs[c.draw(gs.size())];
  c.ev("generated set %d", g.idx);
  if (c.keep_log) c.log += g.doc().base_xml + g.doc().xml();
  Schema s = gen_schema(g);
  HookAlloc ha;
  unsigned tokens = c.chance(1, 4) ? 1 : 3;
  auto dec = g.dec2(tokens, &ha);
  RefEncoder ref(*s.r, &c);
  Gens vg, mg;
  struct Held { bool live = false; message_mref m; int gt = 0; std::vector<Val> v; };
  std::vector<Held> held(tokens);
  std::vector<bool> locked(tokens, false);
  int n = 3 + (int)c.draw(14), ok = 0;
  // consumers own the messages of tokens that are not being decoded into
  auto consumer = [&]() {
    if (!c.chance(1, 4)) return;
    unsigned t = (unsigned)c.draw(tokens);
    Held &h = held[t];
    if (!h.live || locked[t]) return;
    c.interleave(t);
    std::vector<Val> v = extract(h.m, s.fields(h.gt), s.doc_of(h.gt));
    std::string w;
    if (!same(s.fields(h.gt), h.v, v, s.doc_of(h.gt), &w, false)) c.fail("token:changed", "the message of token %u changed at %s while other tokens were used", t, w.c_str());
    if (c.chance(1, 2)) {
      // the consumer edits its message
      auto &vgp = mg[0];
      if (!vgp) vgp.reset(new ValGen(c, s.doc_of(h.gt)));
      std::vector<Val> nv = vgp->message(h.gt).sub;
      fill(h.m, s.fields(h.gt), nv, s.doc_of(h.gt), s.inst_of(h.gt));
      h.v = extract(h.m, s.fields(h.gt), s.doc_of(h.gt));
      c.fault("message-modified");
    }
  };
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, s, ref, vg, m, i && c.chance(1, 12))) continue;
    unsigned t = (unsigned)c.draw(tokens);
    log_msg(c, s, m, m.bytes);
    c.ev("token %u", t);
    locked[t] = true;
    held[t].live = false;
    Exact x(m.bytes);
    const char *p = x.p;
    message_mref r;
    ha.hook = consumer; // consumers of other tokens run in the middle of decoding
    try {
      r.refers_to(dec->decode_m(p, x.p + x.n, m.reset, t));
    } catch (const Violation &) { throw;
    } catch (...) { c.fail("token:exception:" + describe_exception(), "%s threw %s", dec->name.c_str(), describe_exception().c_str()); }
    ha.hook = nullptr;
    ha.check();
    locked[t] = false;
    if (p != x.p + x.n) c.fail("token:framing", "%s consumed %ld of %zu bytes", dec->name.c_str(), (long)(p - x.p), x.n);
    expect_message(c, s, m, message_cref(r), dec->name, "token", false);
    held[t].live = true;
    held[t].m.refers_to(r);
    held[t].gt = m.gt;
    held[t].v = extract(r, s.fields(m.gt), s.doc_of(m.gt));
    ++ok;
    int k = (int)c.draw(4);
    for (int j = 0; j < k; ++j) consumer();
    c.state(ref.st.hash());
  }
  for (unsigned t = 0; t < tokens; ++t)
    if (held[t].live) {
      std::string w;
      if (!same(s.fields(held[t].gt), held[t].v, extract(held[t].m, s.fields(held[t].gt), s.doc_of(held[t].gt)), s.doc_of(held[t].gt), &w, false))
        c.fail("token:changed", "the message of token %u changed at %s", t, w.c_str());
    }
  if (ok >= 2) c.nontrivial();
}

static Register r4(Prop{"C04", "exploration", "one run = a stream of intact and damaged messages (cut, bit flips, insertions, deletions, lost stop bits, splices, garbage) fed to all decoders in exactly sized buffers, judged by the reference decoder as long as the damaged bytes have a meaning; non-trivial when a damaged message was fed in sync", c04, kCodecReal, {"peer (reference encoder)", "network link", "memory limit"}, kCodecAssume});
static Register r5(Prop{"C05", "exploration", "one run = 1..3 rounds of disturbed traffic (damaged input, allocation failures, too small buffers, unencodable messages) followed by a reset and undisturbed traffic, which must be identical to that of new endpoints; non-trivial when messages after a reset were compared", c05, kCodecReal, {"network link", "memory", "application"}, kCodecAssume});
static Register r6(Prop{"C06", "exploration", "one run = one message history written to a growing vector and to a raw buffer and read back as one packet, as one packet per message and with trailing bytes; non-trivial with at least 2 messages", c06, kCodecReal, kCodecStub, kCodecAssume});
static Register r7(Prop{"C07", "exploration", "one run = one message history written to exactly sized heap buffers of random sizes around the size needed; non-trivial when at least one message fit", c07, kCodecReal, {"application"}, kCodecAssume});
static Register r9(Prop{"C09", "exploration", "one run = 2..4 sessions over shared descriptions, scheduled message by message and, in half of the runs, preempted inside of allocator calls of encoders, decoders and messages; bytes compared with the session running alone; non-trivial with at least 2 messages", c09, kCodecReal, {"scheduler", "allocator wrapper", "application"}, kCodecAssume});
static Register r10(Prop{"C10", "exploration", "one run = a generated decoder with tokens, consumers that read and modify messages of other tokens between and inside of decode calls (at allocator calls); non-trivial when at least 2 messages were decoded", c10, {"fast_decoder_v2<1>", "fast_decoder_v2<3>", "fast_type_gen output", "message containers"}, {"peer (reference encoder)", "scheduler", "allocator wrapper", "consumers"}, kCodecAssume});
} // namespace sim
