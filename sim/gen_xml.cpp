// Writes the template documents that are compiled in, and code that uses what
// fast_type_gen makes of them: gen_xml DIR SETS TYPE_SETS
#include "session_docs.h"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <fstream>
using namespace sim;
namespace {
// C++ identifier of a name
std::string id(const std::string &n) {
  std::string o = isalpha((unsigned char)n[0]) ? "" : "_";
  for (unsigned char ch : n) o += isalnum(ch) ? char(ch) : '_';
  return o;
}
struct Acc {
  std::string walk, set, omit;
  int leaf = 0, temps = 0;
  std::string member(const Field &f, size_t i) { return f.ft == TREF ? "nested_message" + std::to_string(i) : id(f.name); }
  void fields(const std::vector<Field> &fs, const std::string &r, const std::string &w, int depth, const std::string &ind) {
    for (size_t i = 0; i < fs.size(); ++i) {
      const Field &f = fs[i];
      std::string n = member(f, i), me = std::to_string(leaf++);
      bool constant = f.ft != GRP && f.ft != SEQ && f.ft != TREF && f.op == CONSTANT && !(f.indiv && f.mop != CONSTANT);
      walk += ind + "a.cell(" + r + ".get_" + n + "(), [&] { return " + r + ".try_get_" + n + "(); });\n";
      if (f.ft == ENM || f.ft == BOO || f.ft == SET_) {
        std::string g = r + ".get_" + n + "()";
        if (f.ft != BOO) walk += ind + "a.num(" + g + " == " + g + "); a.num(" + g + " == " + g + ".value()); a.num(" + g + " != " + g + ".value());\n";
        walk += ind + "if (" + r + ".get_" + n + "().present()) { a.num((uint64_t)" + r + ".get_" + n + "().value());";
        if (f.ft != BOO) for (auto &e : f.enames) walk += " a.num(" + r + ".get_" + n + "()." + (f.ft == ENM ? "is_" : "has_") + id(e) + "());";
        walk += " }\n";
      }
      if (!constant) set += "    case " + me + ": return storage(" + w + ".set_" + n + "());\n";
      if (f.opt) omit += "    case " + me + ": " + w + ".omit_" + n + "(); return true;\n";
      if (f.ft == GRP) {
        std::string t = "g" + std::to_string(temps++);
        walk += ind + "if (" + r + ".get_" + n + "().present()) {\n" + ind + "  auto " + t + " = " + r + ".get_" + n + "();\n";
        fields(f.sub, t, w + ".set_" + n + "()", depth, ind + "  ");
        walk += ind + "}\n";
      } else if (f.ft == SEQ) {
        std::string t = "s" + std::to_string(temps), e = "e" + std::to_string(temps++);
        walk += ind + "if (" + r + ".get_" + n + "().present()) {\n" + ind + "  auto " + t + " = " + r + ".get_" + n + "();\n" + ind + "  a.num(" + t + ".size());\n" + ind + "  for (size_t k" + e + " = 0; k" + e + " < " + t + ".size(); ++k" + e + ") {\n";
        if (f.sub.size() == 1 && f.sub[0].name.empty() && f.sub[0].ft != TREF) {
          ++leaf;
          walk += ind + "    a.cell1(" + t + "[k" + e + "]);\n";
        } else {
          walk += ind + "    auto " + e + " = " + t + "[k" + e + "];\n";
          fields(f.sub, e, w + ".set_" + n + "()[ix[" + std::to_string(depth) + "]]", depth + 1, ind + "    ");
        }
        walk += ind + "  }\n" + ind + "}\n";
      }
    }
  }
};
} // namespace
std::string sim::acc_code(const Doc &d) {
  std::string o;
  for (size_t k = 0; k < d.t.size(); ++k) {
    Acc a;
    std::string T = id(d.t[k].name);
    a.fields(d.t[k].f, "r", "w", 0, "    ");
    o += "struct Use" + std::to_string(k) + " {\n  typedef SET_NS::" + T + " type;\n  typedef SET_NS::" + T + "_cref cref;\n";
    o += "  static void walk(const mfast::message_cref &m, Acc &a) {\n    SET_NS::" + T + "_cref r(m);\n" + a.walk + "  }\n";
    o += "  static const void *set(const mfast::message_mref &m, int leaf, const size_t *ix) {\n    SET_NS::" + T + "_mref w(m);\n    switch (leaf) {\n" + a.set + "    }\n    return nullptr;\n  }\n";
    o += "  static bool omit(const mfast::message_mref &m, int leaf, const size_t *ix) {\n    SET_NS::" + T + "_mref w(m);\n    switch (leaf) {\n" + a.omit + "    }\n    return false;\n  }\n};\n";
  }
  o += "void fill_uses(std::vector<TypeUse> &u) {\n";
  for (size_t k = 0; k < d.t.size(); ++k) o += "  u.push_back(use<Use" + std::to_string(k) + ">());\n";
  return o + "}\n";
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  auto one = [&](int i, const std::string &name) {
    Doc d = gen_set_doc(i);
    std::string p = std::string(argv[1]) + "/" + name, v;
    for (size_t k = 0; k < d.views.size(); ++k) v += "VIEW(" + std::to_string(k) + ", " + d.views[k].name + ", " + d.t[d.views[k].t].name + ")\n";
    std::ofstream(p + ".views") << v;
    std::ofstream(p + ".acc") << acc_code(d);
    std::ofstream(p + ".xml") << d.xml();
    if (!d.base_xml.empty()) std::ofstream(p + "b.xml") << d.base_xml;
  };
  for (int i = 0; i < atoi(argv[2]); ++i) one(i, "gs" + std::to_string(i));
  for (int i = 0; i < atoi(argv[3]); ++i) one(TYPE_SETS + i, "ts" + std::to_string(i));
}
