// C01 fidelity, C02 wire conformance, C03 decoding of any legal stream,
// C06 framing, C11 dictionary scoping.
#include "prop_common.h"
#include <cstring>

namespace sim {
using namespace mfast;

// Streams travel over a simulated link that splits and joins messages into
// packets at random; every decoder sees whole messages, several per packet.
static void fidelity(Ctx &c, const GenOpts *forced) {
  GenOpts o = forced ? *forced : profile(c);
  Schema s = any_schema(c, o, 1, 2);
  auto enc = pick_encoder(c, s);
  auto decs = pick_decoders(c, s, c.chance(1, 2));
  bool overlong = true;
  if (c.chance(1, 3)) { overlong = false; enc->allow_overlong(false); }
  RefEncoder ref(*s.r, nullptr);
  ref.o.refuse_empty = true;
  Gens vg;
  int n = 2 + (int)c.draw(12);
  if (c.chance(1, 20)) n += 30;
  std::vector<Msg> pending;
  std::string packet;
  std::vector<size_t> bound;
  int sent = 0, resets = 0;
  auto deliver = [&]() {
    if (pending.empty()) return;
    Exact x(packet);
    c.interleave(pending.size());
    for (auto &d : decs) {
      const char *p = x.p;
      unsigned token = (unsigned)c.draw(3);
      for (size_t i = 0; i < pending.size(); ++i) {
        if (d->tokens() > 1) token = (unsigned)c.draw(3);
        decode_expect(c, s, *d, pending[i], p, x.p + x.n, x.p + bound[i], token, "fidelity", true);
      }
    }
    pending.clear();
    packet.clear();
    bound.clear();
  };
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, s, ref, vg, m, sent && c.chance(1, 12))) continue;
    if (m.reset) { ++resets; c.fault("session-reset"); }
    std::string b = encode_expect(c, s, *enc, m, "fidelity");
    log_msg(c, s, m, b);
    packet += b;
    bound.push_back(packet.size());
    pending.push_back(std::move(m));
    ++sent;
    c.state(ref.st.hash());
    if (c.chance(1, 10)) { overlong = !overlong; enc->allow_overlong(overlong); }
    if (!c.chance(1, 3)) deliver();
    else c.fault("packet-coalesced");
  }
  deliver();
  if (sent >= 2) c.nontrivial();
}
static void c01(Ctx &c) { fidelity(c, nullptr); }

// The bytes written are judged by the strict reference decoder.
static void wire(Ctx &c, const GenOpts *forced) {
  Schema s = any_schema(c, forced ? *forced : profile(c), 1, 2);
  auto enc = pick_encoder(c, s);
  RefEncoder ref(*s.r, nullptr);
  ref.o.refuse_empty = true;
  RefDecoder dec(*s.r);
  dec.strict = true;
  bool overlong = true;
  if (c.chance(2, 3)) { overlong = false; enc->allow_overlong(false); }
  Gens vg;
  int n = 2 + (int)c.draw(14), sent = 0;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, s, ref, vg, m, sent && c.chance(1, 12))) continue;
    if (m.reset) c.fault("session-reset");
    std::string b = encode_expect(c, s, *enc, m, "wire");
    log_msg(c, s, m, b);
    ++sent;
    const unsigned char *p = (const unsigned char *)b.data(), *e = p + b.size();
    std::vector<Val> got;
    int gt = -1;
    dec.notes.clear();
    try {
      gt = dec.decode(p, e, got, m.reset);
    } catch (RefError &x) { c.fail("wire:error:" + x.code, "%s wrote a message the specification rejects with %s: %s", enc->name.c_str(), x.code.c_str(), hexstr(b.data(), b.size()).c_str());
    } catch (RefTrunc &) { c.fail("wire:truncated", "%s wrote a truncated message: %s", enc->name.c_str(), hexstr(b.data(), b.size()).c_str());
    } catch (RefUnspecified &x) { c.fail("wire:form:" + x.why, "%s wrote %s: %s", enc->name.c_str(), x.why.c_str(), hexstr(b.data(), b.size()).c_str()); }
    if (p != e) c.fail("wire:length", "%s wrote %zu bytes, the message ends after %zu", enc->name.c_str(), b.size(), b.size() - (size_t)(e - p));
    if (gt != m.gt) c.fail("wire:template", "%s wrote the wrong template", enc->name.c_str());
    std::string w;
    if (!same(s.fields(m.gt), m.v, got, s.doc_of(m.gt), &w, true)) c.fail("wire:value", "%s: on the wire %s differs at %s", enc->name.c_str(), s.r->t[m.gt].t->name.c_str(), w.c_str());
    if (!dec.notes.empty() && (!overlong || dec.notes.find("presence map; ") == std::string::npos || dec.notes.find("integer") != std::string::npos || dec.notes.find("unused") != std::string::npos))
      c.fail("wire:canonical:" + dec.notes.substr(0, 24), "%s: %s in %s", enc->name.c_str(), dec.notes.c_str(), hexstr(b.data(), b.size()).c_str());
    c.state(dec.st.hash());
  }
  if (sent >= 2) c.nontrivial();
}

// A foreign, conforming sender that uses every encoding freedom; the network
// loses, repeats and reorders whole messages.
static void foreign(Ctx &c, const GenOpts *forced) {
  Schema s = any_schema(c, forced ? *forced : profile(c), 1, 2);
  auto decs = pick_decoders(c, s, true);
  EncOpts eo;
  eo.overlong_pmap = c.chance(1, 2);
  RefEncoder ref(*s.r, &c);
  ref.o = eo;
  RefDecoder oracle(*s.r);
  Gens vg;
  int n = 2 + (int)c.draw(14), sent = 0;
  bool faulty = c.chance(1, 3);
  std::vector<Msg> wire;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, s, ref, vg, m, sent && c.chance(1, 12))) continue;
    ++sent;
    wire.push_back(m);
  }
  // the network: one message leaves every 100us, takes 50us, and longer when it is delayed
  std::vector<Msg> arrive;
  uint64_t at = 0;
  for (auto &m : wire) {
    const Msg *mp = &m;
    int k = faulty ? c.pick({8, 1, 1, 1}) : 0;
    auto deliver = [&arrive, &c, mp]() { c.ev("arrival"); arrive.push_back(*mp); };
    at += 100;
    if (k == 1) { c.fault("message-lost"); }
    else c.after(at + 50 + (k == 3 ? 120 * (1 + c.draw(3)) : 0), deliver);
    if (k == 2) { c.fault("message-duplicated"); c.after(at + 50 + c.draw(300), deliver); }
    if (k == 3) c.fault("message-delayed");
    c.interleave(k);
  }
  while (c.step()) {}
  for (auto &m : arrive) {
    log_msg(c, s, m, m.bytes);
    const unsigned char *p = (const unsigned char *)m.bytes.data(), *e = p + m.bytes.size();
    std::vector<Val> want;
    int gt = -1;
    std::string err;
    try {
      gt = oracle.decode(p, e, want, m.reset);
    } catch (RefError &x) { err = x.code;
    } catch (RefTrunc &) { err = "truncated";
    } catch (RefUnspecified &) { return; }
    if (!faulty && !err.empty()) c.fail("harness:reference", "reference rejects its own message: %s", err.c_str());
    Exact x(m.bytes);
    if (err.empty() && p != e) err = "short"; // lost context shifted the message boundary
    for (auto &d : decs) {
      const char *q = x.p;
      if (err.empty()) {
        Msg w = m;
        w.gt = gt;
        w.v = want;
        decode_expect(c, s, *d, w, q, x.p + x.n, x.p + x.n, (unsigned)c.draw(3), "foreign", false);
      } else {
        try {
          message_cref g = d->decode(q, x.p + x.n, m.reset, 0);
          if (c.keep_log)
            for (size_t k = 0; k < s.r->t.size(); ++k)
              if (s.inst((int)k)->id() == g.id()) c.ev("%s decoded %s", d->name.c_str(), show(s.fields((int)k), extract(g, s.fields((int)k), s.doc_of((int)k)), s.doc_of((int)k)).c_str());
          if (err != "short" && err != "truncated" && err != "R4/R6") c.fail("foreign:accepted:" + err, "%s accepted a message that must be rejected with %s at %s", d->name.c_str(), err.c_str(), oracle.where.c_str());
        } catch (const Violation &) { throw;
        } catch (...) {
          if (!documented_codec_exception()) c.fail("foreign:undocumented", "%s threw %s", d->name.c_str(), describe_exception().c_str());
        }
      }
    }
    c.state(oracle.st.hash());
    if (!err.empty()) { c.probe("rejected-after-loss"); return; }
  }
  if (arrive.size() >= 2) c.nontrivial();
}

static void c02(Ctx &c) { wire(c, nullptr); }
static void c03(Ctx &c) { foreign(c, nullptr); }

static void c11(Ctx &c) {
  GenOpts o;
  o.heavy_share = true;
  o.min_templates = 2;
  o.max_templates = 5;
  o.max_fields = 5;
  o.vectors = false;
  switch (c.draw(3)) {
  case 0: fidelity(c, &o); break;
  case 1: wire(c, &o); break;
  default: foreign(c, &o); break;
  }
}

static Register r1(Prop{"C01", "exploration", "one run = one session: random template set (run-time loaded or compiled in), random encoder and decoders, 2..44 random messages, random packets and resets; non-trivial when at least 2 messages were decoded and compared; distinct by the hash of all bytes and events", c01, kCodecReal, kCodecStub, kCodecAssume});
static Register r2(Prop{"C02", "exploration", "one run = one session of 2..15 messages encoded by a random encoder and judged byte by byte by the strict reference decoder; non-trivial when at least 2 messages were encoded", c02, kCodecReal, {"peer (strict reference decoder)", "application", "clock"}, kCodecAssume});
static Register r3(Prop{"C03", "exploration", "one run = a reference sender using random legal encodings, a network that loses, repeats and delays messages, all decoders; non-trivial when at least 2 messages were decoded and compared", c03, kCodecReal, {"peer (reference encoder)", "network link", "clock"}, kCodecAssume});
static Register r11(Prop{"C11", "exploration", "one run = one session over a template set with heavily shared dictionary entries, as in C01, C02 or C03 (chosen at random); non-trivial when at least 2 messages were processed", c11, kCodecReal, {"peer (reference codec)", "network link", "clock"}, kCodecAssume});
} // namespace sim
