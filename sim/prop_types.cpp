// C12: generated code and the template document it was generated from.
#include "prop_common.h"
#include "describe.h"
#include "session_docs.h"
#include "mfast/xml_parser/dynamic_templates_description.h"

namespace sim {
namespace {
struct Loaded { // a document loaded at run time, once per process
  std::shared_ptr<template_registry> reg;
  std::shared_ptr<dynamic_templates_description> base, d;
  std::string text, gen_text;
};
Loaded &loaded(const TypeSet &s) {
  static std::map<int, Loaded> cache;
  Loaded &l = cache[s.idx];
  if (!l.d) {
    l.reg = std::make_shared<template_registry>();
    if (!s.doc().base_xml.empty()) l.base = std::make_shared<dynamic_templates_description>(s.doc().base_xml.c_str(), "b", l.reg.get());
    l.d = std::make_shared<dynamic_templates_description>(s.doc().xml().c_str(), "x", l.reg.get());
    l.text = describe(static_cast<const templates_description &>(*l.d));
    l.gen_text = describe(*s.desc);
  }
  return l;
}

// the accessors must name the same storage as positions do
struct Walker {
  Ctx &c;
  const Acc &a;
  size_t at = 0;
  std::string who;
  const Acc::Cell &next() {
    if (at >= a.v.size()) c.fail("types:walk", "%s: the accessors end early", who.c_str());
    return a.v[at++];
  }
  void num(uint64_t n, const std::string &what) {
    auto &x = next();
    if (!x.is_num || x.n != n) c.fail("types:number", "%s: %s is %llu instead of %llu", who.c_str(), what.c_str(), (unsigned long long)x.n, (unsigned long long)n);
  }
  template <class R> void cell(const R &r, const Field &f) {
    auto &x = next();
    const void *st = Acc::at(r);
    if (x.is_num || x.storage != st) c.fail("types:storage", "%s: the accessor of %s refers to another field", who.c_str(), f.name.c_str());
    if (x.inst != Acc::inst(r) && f.ft != TREF && !(f.ft == GRP && r.absent())) c.fail("types:instruction", "%s: the accessor of %s has another instruction", who.c_str(), f.name.c_str());
    if (x.absent != r.absent()) c.fail("types:absent", "%s: the accessor of %s says %s", who.c_str(), f.name.c_str(), x.absent ? "absent" : "present");
    if (x.has_try) {
      bool want = f.opt && r.absent();
      if (x.threw != want) c.fail("types:try", "%s: try_get of %s %s", who.c_str(), f.name.c_str(), x.threw ? "throws" : "does not throw");
      if (!x.threw && x.try_storage != st) c.fail("types:try", "%s: try_get of %s refers to another field", who.c_str(), f.name.c_str());
    }
  }
  void fields(const aggregate_cref &m, const std::vector<Field> &fs, const std::vector<Val> &v) {
    for (size_t i = 0; i < fs.size(); ++i) {
      const Field &f = fs[i];
      field_cref r = m[i];
      if (f.ft != GRP) cell(r, f);
      else if (r.absent()) cell(aggregate_cref(), f);
      else cell(aggregate_cref(r), f);
      if (f.ft == ENM || f.ft == SET_) {
        num(1, f.name + " compared with itself");
        num(v[i].present, f.name + " compared with the value stored");
        num(!v[i].present, f.name + " compared with the value stored");
      }
      if (!v[i].present) continue;
      if (f.ft == ENM || f.ft == BOO || f.ft == SET_) {
        num(v[i].u, "the value of " + f.name);
        if (f.ft != BOO) for (size_t k = 0; k < f.enames.size(); ++k) num(f.ft == ENM ? v[i].u == f.evals[k] : (v[i].u >> k) & 1, f.enames[k] + " of " + f.name);
      } else if (f.ft == GRP) fields(aggregate_cref(r), f.sub, v[i].sub);
      else if (f.ft == SEQ) {
        num(v[i].sub.size(), "the size of " + f.name);
        sequence_cref s(r);
        for (size_t k = 0; k < v[i].sub.size(); ++k) fields(s[k], f.sub, v[i].sub[k].sub);
      }
    }
  }
  void end() { if (at != a.v.size()) c.fail("types:walk", "%s: the accessors see %zu more things", who.c_str(), a.v.size() - at); }
};

struct Leaf { int id; const Field *f; std::vector<std::pair<int, size_t>> path; std::vector<size_t> ix; };
void leaves(Ctx &c, const std::vector<Field> &fs, const std::vector<Val> *v, std::vector<std::pair<int, size_t>> path, std::vector<size_t> ix, int &id, std::vector<Leaf> &out) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    path.push_back({(int)i, 0});
    if (v && !f.name.empty()) out.push_back({id, &f, path, ix});
    ++id;
    if (f.ft == GRP) leaves(c, f.sub, v && (*v)[i].present ? &(*v)[i].sub : nullptr, path, ix, id, out);
    else if (f.ft == SEQ) {
      bool some = v && (*v)[i].present && !(*v)[i].sub.empty();
      size_t e = some ? c.draw((*v)[i].sub.size()) : 0;
      path.back().second = e;
      auto jx = ix;
      jx.push_back(e);
      leaves(c, f.sub, some ? &(*v)[i].sub[e].sub : nullptr, path, jx, id, out);
    }
    path.pop_back();
  }
}
const void *locate(const aggregate_cref &m, const std::vector<std::pair<int, size_t>> &path, size_t k = 0) {
  field_cref r = m[path[k].first];
  bool group = r.instruction()->field_type() == field_type_group;
  if (k + 1 == path.size()) return group ? Acc::at(aggregate_cref(r)) : Acc::at(r);
  if (group) return locate(aggregate_cref(r), path, k + 1);
  return locate(sequence_cref(r)[path[k].second], path, k + 1);
}
// the value at a path: groups hold fields, sequences hold elements that hold fields
Val &value_at(const std::vector<Field> *fs, std::vector<Val> *v, const std::vector<std::pair<int, size_t>> &path) {
  for (size_t k = 0;; ++k) {
    Val &x = (*v)[path[k].first];
    const Field &f = (*fs)[path[k].first];
    if (k + 1 == path.size()) return x;
    fs = &f.sub;
    v = f.ft == SEQ ? &x.sub[path[k].second].sub : &x.sub;
  }
}

// fast_encoder_v2 lets the receiver default these
bool absent_default(const std::vector<Field> &fs, const std::vector<Val> &v, const Doc &d) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    if (!v[i].present) {
      if (f.op == DEFAULT && f.opt && f.has_init && f.ft != SEQ && f.ft != GRP && f.ft != TREF) return true;
    } else if (f.ft == GRP) {
      if (absent_default(f.sub, v[i].sub, d)) return true;
    } else if (f.ft == TREF) {
      if (absent_default(d.t[v[i].tmpl].f, v[i].sub, d)) return true;
    } else if (f.ft == SEQ)
      for (auto &e : v[i].sub) if (absent_default(f.sub, e.sub, d)) return true;
  }
  return false;
}

void run_types(Ctx &c) {
  auto &ts = type_sets();
  if (ts.empty()) throw Discard();
  const TypeSet &s = ts[c.draw(ts.size())];
  const Doc &d = s.doc();
  c.ev("set %d", s.idx);
  if (c.keep_log) c.log += d.base_xml + d.xml();
  Loaded &l = loaded(s);
  if (l.text != l.gen_text) c.fail("types:description", "generated code and the document differ: %s", first_diff(l.gen_text, l.text).c_str());
  if (s.uses.size() != d.t.size() || s.desc->size() != d.t.size()) c.fail("types:description", "%zu templates instead of %zu", s.uses.size(), d.t.size());
  for (size_t k = 0; k < d.t.size(); ++k) {
    std::string w;
    if (!agrees(d.t[k], (*s.desc)[k], &w)) c.fail("types:description", "generated code: %s differs from the document", w.c_str());
    if (s.uses[k].the_id != d.t[k].id || s.uses[k].inst != (*s.desc)[k]) c.fail("types:description", "id or instruction of template %s", d.t[k].name.c_str());
  }
  std::shared_ptr<Doc> dp(const_cast<Doc *>(&d), [](Doc *) {});
  Schema gen, dyn;
  for (Schema *x : {&gen, &dyn}) {
    x->docs.push_back(dp);
    x->desc.push_back(x == &gen ? s.desc : l.d.get());
    x->r.reset(new RDoc({dp.get()}));
  }
  if (s.idx < TYPE_SETS) for (auto &g : gen_sets()) if (g.idx == s.idx) gen.set = &g;
  auto enc_g = pick_encoder(c, gen);
  auto enc_d = make_v1_encoder(dyn.desc);
  auto dec_g = pick_decoders(c, gen, c.chance(1, 3));
  auto dec_d = make_v1_decoder(dyn.desc);
  RefEncoder ref(*gen.r, nullptr);
  ref.o.refuse_empty = true;
  Gens vg;
  int n = 2 + (int)c.draw(8), sent = 0;
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    Msg m;
    if (!gen_encodable(c, gen, ref, vg, m, sent && c.chance(1, 12))) continue;
    const auto &fs = gen.fields(m.gt);
    message_type g = build_message(gen, m.gt, m.v), y = build_message(dyn, m.gt, m.v);
    // the accessors of a message, and of an object of the generated class
    std::string name = d.t[m.gt].name;
    auto walk = [&](const message_cref &x, const char *who) {
      Acc a;
      s.uses[m.gt].walk(x, a);
      Walker w{c, a};
      w.who = name + " (" + who + ")";
      w.fields(x, fs, m.v);
      w.end();
    };
    walk(g.cref(), "message");
    s.uses[m.gt].object(g.cref(), std_alloc(), [&](const message_cref &o, const message_mref &om) {
      std::string w;
      if (!same(fs, m.v, extract(o, fs, d), d, &w)) c.fail("types:copy", "an object of class %s differs from the message it was made of at %s", name.c_str(), w.c_str());
      walk(o, "object");
      std::vector<Leaf> ls;
      int id = 0;
      leaves(c, fs, &m.v, {}, {}, id, ls);
      for (int k = 0; k < 3 && !ls.empty(); ++k) {
        const Leaf &f = ls[c.draw(ls.size())];
        bool constant = f.f->ft != GRP && f.f->ft != SEQ && f.f->ft != TREF && f.f->op == CONSTANT && !(f.f->indiv && f.f->mop != CONSTANT);
        size_t pad[8] = {};
        for (size_t j = 0; j < f.ix.size() && j < 8; ++j) pad[j] = f.ix[j];
        if (k < 2) {
          const void *p = s.uses[m.gt].set(om, f.id, pad);
          if (constant ? p != nullptr : p != locate(om, f.path)) c.fail("types:set", "the setter of %s in %s refers to another field", f.f->name.c_str(), name.c_str());
        } else if (f.f->opt && !constant) {
          // setters may have made optional groups present
          std::vector<Val> now = extract(o, fs, d), then = now;
          if (!s.uses[m.gt].omit(om, f.id, pad)) c.fail("types:omit", "%s in %s cannot be omitted", f.f->name.c_str(), name.c_str());
          Val &x = value_at(&fs, &then, f.path);
          x = Val();
          if (!same(fs, then, extract(o, fs, d), d, &w)) c.fail("types:omit", "omitting %s in %s: %s", f.f->name.c_str(), name.c_str(), w.c_str());
        }
      }
    });
    // both ends speak the same language
    std::string b = encode_one(c, *enc_g, g.cref(), m.reset), b2 = encode_one(c, *enc_d, y.cref(), m.reset);
    log_msg(c, gen, m, b);
    if (b != b2 && (enc_g->name == enc_d->name || !absent_default(fs, m.v, d))) c.fail("types:bytes", "%s: generated code gives %s, the loaded document %s", name.c_str(), hexstr(b.data(), b.size()).c_str(), hexstr(b2.data(), b2.size()).c_str());
    Exact x(b);
    const char *p = x.p;
    decode_expect(c, dyn, *dec_d, m, p, x.p + x.n, x.p + x.n, 0, "types", true);
    for (auto &e : dec_g) {
      p = x.p;
      decode_expect(c, gen, *e, m, p, x.p + x.n, x.p + x.n, e->tokens() > 1 ? (unsigned)c.draw(3) : 0, "types", true);
    }
    ++sent;
    c.state(mix(ref.st.hash(), s.idx));
  }
  if (sent) c.nontrivial();
}
} // namespace
static Register r12(Prop{"C12", "exploration", "one run = one of the template documents that fast_type_gen compiled: the generated description against the document loaded at run time and against the document model, then 2..9 random messages used through every generated accessor, setter and class and exchanged between generated and loaded endpoints; non-trivial when a message was exchanged", run_types, {"fast_type_gen", "generated code", "dynamic_templates_description", "fast_encoder", "fast_decoder", "fast_encoder_v2", "fast_decoder_v2"}, {"application (random messages)", "network link"}, {"the compiled documents are drawn from fixed seeds: 10 with codecs and 5 without in the quick tier, 20 and 10 in the thorough one"}});
} // namespace sim
