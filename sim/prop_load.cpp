// C19 loading of template documents, C20 views of messages, C12 generated code
// and run-time loaded descriptions.
#include "prop_common.h"
#include "describe.h"
#include "session_docs.h"
#include <algorithm>
#include <set>

namespace sim {
namespace {

// ---------------------------------------------------------------- damage
// places of a document: attribute values, tags, whole elements
struct Place { size_t b, e; };
std::vector<Place> attr_values(const std::string &x) {
  std::vector<Place> r;
  for (size_t p = x.find("<templates"); (p = x.find("=\"", p)) != std::string::npos;) {
    size_t e = x.find('"', p + 2);
    if (e == std::string::npos) break;
    r.push_back({p + 2, e});
    p = e + 1;
  }
  return r;
}
std::vector<Place> tags(const std::string &x) { // <...>
  std::vector<Place> r;
  for (size_t p = x.find("<templates"); (p = x.find('<', p)) != std::string::npos;) {
    size_t e = x.find('>', p);
    if (e == std::string::npos) break;
    r.push_back({p, e + 1});
    p = e + 1;
  }
  return r;
}
// elements with their contents
std::vector<Place> elements(const std::string &x) {
  std::vector<Place> r;
  std::vector<size_t> open;
  for (auto &t : tags(x)) {
    if (x[t.b + 1] == '!' || x[t.b + 1] == '?') continue;
    if (x[t.b + 1] == '/') { if (!open.empty()) { r.push_back({open.back(), t.e}); open.pop_back(); } }
    else if (x[t.e - 2] == '/') r.push_back({t.b, t.e});
    else open.push_back(t.b);
  }
  return r;
}
std::string damage(Ctx &c, std::string x) {
  static const char *const vals[] = {"", "0", "-1", "1", "99999999999999999999", "4294967296", "abc", "optional", "mandatory", "T0", "T1", "type", "template", "global", " 7", "7 ", "1e9", "0x10", "unicode", "yes", "true", "&#0;", "&lt;", "[", "a.b[", "[0]", "s[9]", "..", "|", "1|2", "__length__"};
  static const char *const names[] = {"int32", "uInt32", "int64", "uInt64", "decimal", "string", "byteVector", "int32Vector", "uInt64Vector", "group", "sequence", "template", "templateRef", "typeRef", "field", "type", "length", "enum", "element", "set", "boolean", "exponent", "mantissa", "constant", "default", "copy", "increment", "delta", "tail", "define", "view", "reference", "templates", "timestamp", "x"};
  static const char *const attrs[] = {"name", "id", "presence", "ns", "templateNs", "dictionary", "key", "value", "charset", "reset", "mfast:tag", "reference", "xmlns", "q"};
  static const char *const inserts[] = {"<group name=\"x\"/>", "<sequence name=\"x\"/>", "<group name=\"x\"></group>", "<sequence><length/></sequence>", "<field/>", "<field name=\"x\"><type/></field>", "<templateRef name=\"nosuch\"/>", "<templateRef name=\"T0\"/>", "<templateRef/>", "<template name=\"T0\" id=\"1\"/>", "<define/>", "<define name=\"d\"/>", "<define name=\"d\"><group/></define>", "<view/>", "<view name=\"v\"/>", "<view name=\"v\" reference=\"T0\"/>", "<view name=\"v\" reference=\"T0\"><field/></view>", "<view name=\"v\" reference=\"T0\"><field name=\"a\"><reference/></field></view>", "<enum name=\"e\"/>", "<enum name=\"e\"><copy value=\"q\"/></enum>", "<set name=\"s\"/>", "<set name=\"s\"><default value=\"zz\"/></set>", "<!-- c -->", "text", "<![CDATA[x]]>", "<decimal name=\"d\"><exponent/></decimal>", "<decimal name=\"d\"><mantissa><default value=\"x\"/></mantissa></decimal>", "<string name=\"s\" charset=\"unicode\"><length id=\"x\"/></string>", "<byteVector name=\"b\"><default value=\"0g\"/></byteVector>", "<byteVector name=\"b\"><default value=\"abc\"/></byteVector>", "<boolean name=\"b\"><default value=\"x\"/></boolean>", "<int32/>", "<int32 id=\"x\"/>", "<group><templateRef/></group>", "<sequence name=\"r\"><templateRef name=\"T0\"/></sequence>", "<group name=\"r\"><templateRef name=\"T0\"/></group>"};
  int n = 1 + c.pick({6, 2, 1});
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    auto pick = [&](const std::vector<Place> &v) { return v.empty() ? Place{0, 0} : v[c.draw(v.size())]; };
    switch (c.pick({2, 4, 3, 3, 3, 4, 2, 2, 2})) {
    case 0: // bytes
      for (int k = 0, m = 1 + (int)c.draw(3); k < m && !x.empty(); ++k) {
        size_t at = c.draw(x.size());
        switch (c.draw(3)) { case 0: x[at] = char(1 + c.draw(255)); break; case 1: x.erase(at, 1); break; default: x.insert(x.begin() + at, "<>/\"=& a0"[c.draw(9)]); }
      }
      break;
    case 1: { Place p = pick(attr_values(x)); if (p.e) x.replace(p.b, p.e - p.b, vals[c.draw(sizeof vals / sizeof *vals)]); break; }
    case 2: { // attribute removed
      Place p = pick(attr_values(x));
      if (!p.e) break;
      size_t b = x.rfind(' ', p.b);
      if (b != std::string::npos) x.erase(b, p.e + 1 - b);
      break;
    }
    case 3: { // attribute added or renamed
      Place p = pick(tags(x));
      if (!p.e || x[p.b + 1] == '/') break;
      size_t e = x.find_first_of(" />", p.b + 1);
      x.insert(e, std::string(" ") + attrs[c.draw(sizeof attrs / sizeof *attrs)] + "=\"" + vals[c.draw(sizeof vals / sizeof *vals)] + "\"");
      break;
    }
    case 4: { // element renamed
      Place p = pick(elements(x));
      if (!p.e) break;
      size_t e = x.find_first_of(" />", p.b + 1);
      std::string old = x.substr(p.b + 1, e - p.b - 1), nn = names[c.draw(sizeof names / sizeof *names)];
      std::string el = x.substr(p.b, p.e - p.b);
      if (el.size() > old.size() + 3 && el.compare(el.size() - old.size() - 3, std::string::npos, "</" + old + ">") == 0) el.replace(el.size() - old.size() - 1, old.size(), nn);
      el.replace(1, old.size(), nn);
      x.replace(p.b, p.e - p.b, el);
      break;
    }
    case 5: { Place p = pick(tags(x)); if (p.e) x.insert(c.chance(1, 2) ? p.e : p.b, inserts[c.draw(sizeof inserts / sizeof *inserts)]); break; }
    case 6: { Place p = pick(elements(x)); x.erase(p.b, p.e - p.b); break; }
    case 7: { // contents removed
      Place p = pick(elements(x));
      if (!p.e) break;
      size_t o = x.find('>', p.b), q = x.rfind("</", p.e);
      if (o != std::string::npos && q != std::string::npos && o + 1 < q && q < p.e) x.erase(o + 1, q - o - 1);
      break;
    }
    default: { // an element copied or moved elsewhere
      Place p = pick(elements(x));
      if (!p.e) break;
      std::string el = x.substr(p.b, p.e - p.b);
      if (c.chance(1, 2)) x.erase(p.b, p.e - p.b);
      Place t = pick(tags(x));
      if (t.e && x.size() < 20000) x.insert(t.e, el);
      break;
    }
    }
    if (x.empty()) x = " ";
  }
  return x;
}

// formatting that means nothing
std::string reformat(Ctx &c, const std::string &x) {
  std::string o;
  bool tag = false, quoted = false;
  for (size_t i = 0; i < x.size(); ++i) {
    char ch = x[i];
    if (tag && ch == '"') quoted = !quoted;
    if (ch == '<' && !quoted) {
      tag = true;
      if (i > 30 && !c.draw(6)) o += c.draw(2) ? "<!-- <group name='no'/> -->" : "\n\t ";
    }
    if (tag && !quoted && (ch == ' ' || (ch == '>' && x[i - 1] != '/') || (ch == '/' && i + 1 < x.size() && x[i + 1] == '>' )) && i > 30 && !c.draw(12)) { size_t lt = x.rfind('<', i); if (x[lt + 1] != '/' || ch == '>') o += "\n "; }
    if (ch == '>' && !quoted) tag = false;
    o += ch;
  }
  return o;
}

struct Loaded {
  std::unique_ptr<dynamic_templates_description> d;
  Doc doc;
  std::string text;
};

// everything a user does with a description that was accepted
void use_description(Ctx &c, const dynamic_templates_description &d, const char *who) {
  try {
    std::string t = describe_all(d);
    if (c.keep_log) c.ev("%s accepted: %s", who, t.substr(0, 3000).c_str());
    for (auto ti : d) {
      message_type m(std_alloc(), ti), k(m.cref(), std_alloc());
      for (size_t i = 0; i < m.cref().num_fields(); ++i) (void)m.cref()[i].present();
    }
    for (auto ti : d) if (endless(ti)) return;
    auto dec = make_v1_decoder({&d});
    auto enc = make_v1_encoder({&d});
    std::string bytes;
    for (int i = 0, n = 4 + (int)c.draw(24); i < n; ++i) bytes += char(c.draw(3) ? 0x80 | c.draw(128) : c.draw(256));
    if (d.size() && c.chance(2, 3)) bytes = std::string("\xc0", 1) + char(0x80 | (d[c.draw(d.size())]->id() & 0x7f)) + bytes;
    Exact in(bytes);
    const char *p = in.p;
    for (int i = 0; i < 4 && p < in.p + in.n; ++i) {
      message_cref m = dec->decode(p, in.p + in.n, true, 0);
      message_type k(m, std_alloc());
    }
  } catch (const Violation &) { throw;
  } catch (const std::exception &) {
  } catch (...) { c.fail("load:undocumented", "using an accepted description throws %s", describe_exception().c_str()); }
}

void run_load(Ctx &c) {
  // static tables of the library are set up before leaks are counted
  static bool warm = false;
  if (!warm) { template_registry r; try { dynamic_templates_description d(gen_set_doc(0).xml().c_str(), "w", &r); dynamic_templates_description e("<templates><template name=\"w\"><byteVector name=\"b\"><default value=\"00\"/></byteVector><string name=\"u\" charset=\"unicode\"/></template></templates>", "w", &r); } catch (...) {} warm = true; }
  GenOpts o = profile(c);
  o.views = c.chance(1, 2);
  o.json = c.chance(1, 4);
  std::vector<Loaded> ls;
  std::unique_ptr<template_registry> reg(new template_registry);
  int steps = 2 + (int)c.draw(6);
  auto unchanged = [&](const char *after) {
    for (size_t k = 0; k < ls.size(); ++k) {
      std::string t = describe_all(*ls[k].d);
      if (t != ls[k].text) c.fail("load:earlier", "description %zu changed after %s: %s", k, after, first_diff(ls[k].text, t).c_str());
    }
  };
  // what an undisturbed loader makes of a document
  auto alone = [&](const std::string &x) {
    template_registry r;
    dynamic_templates_description d(x.c_str(), "ns", &r);
    return describe_all(d);
  };
  std::set<char> tainted; // names that a damaged document may have taken
  for (int i = 0; i < steps; ++i) {
    Ctx::Scope sc(c);
    bool again = !ls.empty() && c.chance(1, 4);
    Doc d;
    if (again) d = ls[c.draw(ls.size())].doc;
    else { GenOpts g = o; g.name_prefix = std::string(1, char('A' + i)); g.id_base = 1 + 1000 * i; d = gen_doc(c, g); }
    std::string x = d.xml();
    // a template of an earlier document, by reference
    int from = -1;
    size_t ft = 0;
    if (!again && !ls.empty() && c.chance(1, 3)) {
      from = (int)c.draw(ls.size());
      ft = c.draw(ls[from].doc.t.size());
      if (tainted.count(ls[from].doc.t[0].name[0])) from = -1;
    }
    int kind = c.pick({4, 3, 2, 2});
    c.hashv(mix(hash_bytes(x.data(), x.size()), kind));
    if (c.keep_log) c.ev("step %d kind %d%s\n%s", i, kind, again ? " again" : "", x.c_str());
    if (kind == 1) { // damaged
      std::string y = damage(c, x);
      if (c.keep_log) c.ev("damaged:\n%s", y.c_str());
      c.fault("document-damaged");
      bool tr = c.chance(1, 2), threw = false;
      size_t bytes = 0, n = 0;
      if (tr) AllocSeam::track_begin();
      {
        template_registry own;
        template_registry *r = tr ? &own : reg.get();
        if (!tr) tainted.insert(d.t[0].name[0]);
        try {
          dynamic_templates_description e(y.c_str(), "ns", r);
          Disarm dis;
          use_description(c, e, "damaged document");
          c.probe("load.damaged-accepted");
        } catch (const Violation &) { AllocSeam::tracking = false; throw;
        } catch (const std::exception &e) { Disarm dis; threw = true; if (c.keep_log) c.ev("refused: %s", describe_exception().c_str());
        } catch (...) { AllocSeam::tracking = false; c.fail("load:undocumented", "loading throws %s", describe_exception().c_str()); }
      }
      if (tr) n = AllocSeam::track_end(&bytes);
      if (n) c.fail("load:leak", "%zu blocks (%zu bytes) are left after %s", n, bytes, threw ? "a refused document" : "an accepted document");
      if (threw) c.probe("load.damaged-refused");
      unchanged("a damaged document");
    } else if (kind == 2) { // cut off
      size_t last = x.rfind("</templates>");
      std::string y = x.substr(0, x.find("<templates") + c.draw(last + 11 - x.find("<templates")));
      c.fault("document-cut");
      bool threw = false;
      try { dynamic_templates_description e(y.c_str(), "ns", reg.get()); } catch (const std::exception &) { threw = true; } catch (...) { c.fail("load:undocumented", "loading throws %s", describe_exception().c_str()); }
      if (!threw) c.fail("load:cut", "a document cut off after %zu of %zu characters is accepted", y.size(), x.size());
      unchanged("a cut document");
    } else if (kind == 3) { // memory runs out
      c.fault("allocation-failed");
      size_t bytes = 0, n = 0;
      bool threw = false;
      bool tr = c.chance(1, 2);
      int64_t when = 1 + (int64_t)c.draw(c.chance(1, 2) ? 12 : 120);
      bool sticky = c.chance(1, 4);
      if (tr) AllocSeam::track_begin();
      {
        std::unique_ptr<template_registry> own(tr ? new template_registry : nullptr);
        template_registry *r = tr ? own.get() : reg.get();
        std::unique_ptr<dynamic_templates_description> e;
        try {
          ArmAlloc arm(when, sticky);
          e.reset(new dynamic_templates_description(x.c_str(), "ns", r));
          AllocSeam::armed = false;
        } catch (const std::exception &) { threw = true;
        } catch (...) { threw = true; AllocSeam::armed = false; AllocSeam::tracking = false; c.fail("load:undocumented", "loading throws %s", describe_exception().c_str()); }
        AllocSeam::armed = false;
        if (threw && !AllocSeam::failures) c.fail("load:refused", "a good document is refused");
        if (e) { Disarm dis; std::string a = alone(x), b = describe_all(*e); if (a != b) c.fail("load:differs", "a document loaded while memory ran out differs: %s", first_diff(a, b).c_str()); }
      }
      if (tr) n = AllocSeam::track_end(&bytes);
      if (n) c.fail("load:leak", "%zu blocks (%zu bytes) are left after memory ran out", n, bytes);
      if (threw) c.probe("load.out-of-memory");
      unchanged("memory ran out");
    } else {
      std::string y = x, extra;
      if (from >= 0) {
        extra = "<template name=\"X" + std::to_string(i) + "\" id=\"" + std::to_string(900000 + i) + "\"><templateRef name=\"" + ls[from].doc.t[ft].name + "\"/></template>\n";
        y.insert(y.rfind("</templates>"), extra);
        if (c.keep_log) c.ev("with %s", extra.c_str());
      }
      if (c.chance(1, 2)) {
        y = reformat(c, y);
        if (c.keep_log) c.ev("reformatted:\n%s", y.c_str());
      }
      Loaded l;
      try { l.d.reset(new dynamic_templates_description(y.c_str(), "ns", reg.get())); } catch (...) { std::string e = describe_exception(); c.fail("load:refused:" + e, "a good document is refused: %s", e.c_str()); }
      l.doc = d;
      l.text = describe_all(*l.d);
      if (l.d->size() != d.t.size() + (from >= 0)) c.fail("load:differs", "%zu templates were loaded as %u", d.t.size(), l.d->size());
      if (d.dict != (l.d->dictionary() ? l.d->dictionary() : "") || d.ns != (l.d->ns() ? l.d->ns() : "")) c.fail("load:differs", "attributes of the document");
      for (size_t k = 0; k < d.t.size(); ++k) {
        std::string w;
        if (!agrees(d.t[k], (*l.d)[k], &w)) c.fail("load:differs", "%s differs from the document", w.c_str());
        if (l.d->instruction_with_id(d.t[k].id) != (*l.d)[k]) c.fail("load:differs", "template %u is not found by its id", d.t[k].id);
      }
      if (from < 0) {
        std::string a = alone(x);
        if (a != l.text) c.fail("load:history", "the description depends on what was loaded before: %s", first_diff(a, l.text).c_str());
      } else {
        const template_instruction *t = (*l.d)[d.t.size()], *s = (*ls[from].d)[ft];
        // every earlier document of that name is the same
        if (t->subinstructions().size() != s->subinstructions().size()) c.fail("load:reference", "a referenced template has %zu fields instead of %zu", t->subinstructions().size(), s->subinstructions().size());
        for (size_t k = 0; k < t->subinstructions().size(); ++k) {
          std::string a = describe(s->subinstructions()[k]), b = describe(t->subinstructions()[k]);
          if (a != b) c.fail("load:reference", "a field differs from that of the referenced template: %s", first_diff(a, b).c_str());
        }
        c.probe("load.cross-reference");
      }
      if (d.views.size() != l.d->view_infos().size()) c.fail("load:views", "%zu views were loaded as %zu", d.views.size(), l.d->view_infos().size());
      use_description(c, *l.d, "document");
      ls.push_back(std::move(l));
      unchanged("another document");
      c.nontrivial();
      c.state(hash_bytes(ls.back().text.data(), std::min<size_t>(200, ls.back().text.size())));
    }
  }
}

// ---------------------------------------------------------------- views
typedef std::vector<std::pair<const View *, const aggregate_view_info *>> Views;

void check_view(Ctx &c, const Schema &s, const View &v, const std::vector<Val> &m, const std::vector<field_cref> &shown, const std::string &who) {
  const Doc &d = *s.docs[0];
  if (shown.size() != v.f.size()) c.fail("view:count", "%s of %s shows %zu fields instead of %zu", who.c_str(), v.name.c_str(), shown.size(), v.f.size());
  for (size_t k = 0; k < v.f.size(); ++k) {
    bool any = false;
    for (auto &r : v.f[k]) {
      Field f;
      Val want;
      if (!view_value(d, v.t, m, r, &f, &want)) continue;
      any = true;
      if (shown[k].absent()) c.fail("view:absent", "%s: field %zu of view %s is absent, %s is present", who.c_str(), k, v.name.c_str(), r.text.c_str());
      if (f.name != shown[k].name()) c.fail("view:field", "%s: field %zu of view %s shows %s instead of %s", who.c_str(), k, v.name.c_str(), shown[k].name(), r.text.c_str());
      Val got = extract1(shown[k], f, d);
      std::string w;
      if (!same({f}, {want}, {got}, d, &w)) c.fail("view:value", "%s: field %zu of view %s shows another value at %s", who.c_str(), k, v.name.c_str(), w.c_str());
      break;
    }
    if (!any && shown[k].present()) c.fail("view:present", "%s: field %zu of view %s shows %s although no alternative is present", who.c_str(), k, v.name.c_str(), shown[k].name());
  }
}

void run_view(Ctx &c) {
  auto &gs = gen_sets();
  Schema s;
  std::vector<View> views;
  const GenSet *set = nullptr;
  std::shared_ptr<template_registry> reg;
  std::shared_ptr<dynamic_templates_description> dd;
  if (!gs.empty() && c.chance(1, 3)) {
    set = &gs[c.draw(gs.size())];
    s = gen_schema(*set);
    if (c.keep_log) c.log += s.docs[0]->xml();
  } else {
    GenOpts o = profile(c);
    o.views = true;
    o.groups = o.seqs = true;
    o.scalars_only = false;
    o.depth = 3;
    auto doc = std::make_shared<Doc>(gen_doc(c, o));
    if (c.keep_log) c.log += doc->xml();
    s = load_schema({doc});
    reg = std::make_shared<template_registry>();
    try { dd = std::make_shared<dynamic_templates_description>(doc->xml().c_str(), "dyn0", reg.get()); } catch (...) { std::string e = describe_exception(); c.fail("view:refused:" + e, "a document with views is refused: %s", e.c_str()); }
    if (dd->view_infos().size() != doc->views.size()) c.fail("view:count", "%zu views were loaded as %zu", doc->views.size(), dd->view_infos().size());
  }
  const Doc &d = *s.docs[0];
  if (d.views.empty()) throw Discard();
  ValGen vg(c, d);
  std::map<int, std::unique_ptr<message_type>> kept; // messages that are changed over and over
  int n = 2 + (int)c.draw(10);
  for (int i = 0; i < n; ++i) {
    Ctx::Scope sc(c);
    size_t vi = c.draw(d.views.size());
    const View &v = d.views[vi];
    std::vector<Val> m = vg.message(v.t).sub;
    auto &msg = kept[v.t];
    if (!msg || c.chance(1, 2)) msg.reset(new message_type(build_message(s, v.t, m)));
    else fill(msg->mref(), s.fields(v.t), m, d, s.inst_of(v.t));
    if (c.keep_log) c.ev("view %s of %s", v.name.c_str(), show(s.fields(v.t), m, d).c_str());
    c.nontrivial();
    c.hashv(mix(hash_vals(m), vi));
    c.state(mix(hash_vals(m), vi));
    std::vector<field_cref> shown;
    if (set) {
      if (!set->view) throw Discard();
      set->view((int)vi, msg->cref(), shown);
      check_view(c, s, v, m, shown, "generated view");
      // presented to a visitor
      c.probe("view.generated");
    } else {
      const aggregate_view_info &info = dd->view_infos()[vi];
      view_iterator it(msg->cref(), info.data_.begin(), info.max_depth_), end(info.data_.end() - 1);
      for (; it != end; ++it) { shown.push_back(*it); if (shown.size() > v.f.size() + 100) break; }
      check_view(c, s, v, m, shown, "view");
      c.probe("view.loaded");
    }
  }
}

} // namespace
static Register r19(Prop{"C19", "exploration", "one run = 2..7 loads into one registry: good documents (also reformatted, repeated, or referring to earlier ones), documents that are cut off or damaged in bytes, attributes or structure, and loads during which memory runs out; every good description is compared with the document model, with an undisturbed loader, and again after every later load; non-trivial when a good document was loaded", run_load, {"dynamic_templates_description", "template_registry", "arena_allocator", "fast_encoder/fast_decoder construction"}, {"documents (generated)", "global and C allocation"}, {"the XML parser tinyxml2 of the system is not under test", "mutations never make documents larger than about 20 kB"}});
static Register r20(Prop{"C20", "exploration", "one run = 2..11 looks through the views of a random document (or a generated template set) at messages that are built and changed over and over, compared field by field with the document model; non-trivial when a view was read", run_view, {"view_iterator", "dynamic_templates_description views", "fast_type_gen views", "message containers"}, {"application"}, {"nested messages are not shown"}});
} // namespace sim
