// The fixed template documents that are compiled in through fast_type_gen.
#include "session_docs.h"
#include <sys/mman.h>
namespace sim {
bool in_two_documents(int idx) { return idx >= TYPE_SETS ? idx % 5 == 1 || idx % 5 == 4 : idx % 5 == 4; } // as in mkninja.py
Doc gen_set_doc(int idx) {
  static SharedRun *shm = nullptr;
  if (!shm) {
    void *p = mmap(nullptr, sizeof(SharedRun), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shm = (SharedRun *)p;
  }
  Ctx c(shm, 0xC0DE0000ull + idx * 7919);
  GenOpts o;
  if (idx >= TYPE_SETS) { // types only, without the compiled codecs
    o.codegen = true;
    o.min_templates = 2;
    o.max_templates = 5;
    o.max_fields = 9;
    o.depth = 3;
    o.id_base = 100 * (idx - TYPE_SETS) + 50001;
    o.sets = o.vectors = true;
    o.json = idx % 3 == 0; // with tags and unnamed elements
    o.odd = idx % 2 == 0;
    o.views = !o.odd;
    o.name_prefix = "Y";
    if (in_two_documents(idx)) { o.dynref = false; o.refs = true; o.min_templates = 3; }
    Doc d = gen_doc(c, o);
    if (in_two_documents(idx)) d.split(1 + c.draw(2));
    return d;
  }
  o.codegen = true;
  o.vectors = false; // the compiled codecs have no integer vectors
  o.min_templates = 2;
  o.max_templates = 4;
  o.max_fields = 8;
  o.id_base = 100 * idx + 1;
  o.sets = false;
  o.heavy_share = idx % 5 == 3;
  o.many_bits = idx % 5 == 2;
  o.views = true;
  o.name_prefix = "T";
  if (in_two_documents(idx)) { o.dynref = false; o.refs = true; o.min_templates = 3; }
  Doc d = gen_doc(c, o);
  if (in_two_documents(idx)) d.split(1 + c.draw(2));
  return d;
}
} // namespace sim
