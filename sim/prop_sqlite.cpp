// C21: messages stored in a database, on a simulated disk.
#include "prop_common.h"
#include "mfast/sqlite3/converter.h"
#include "mfast/sqlite3/error.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <cmath>
#include <sqlite3.h>

namespace sim {
namespace {

// ---- the disk: what was written and not yet synchronised is lost, kept or torn by a crash ----
struct Pending { bool trunc; size_t off; std::string data; };
struct DiskFile {
  std::string cur, durable;
  std::vector<Pending> pending;
  std::vector<struct Handle *> handles;
};
struct Disk {
  Ctx *c = nullptr;
  std::map<std::string, std::shared_ptr<DiskFile>> files;
  bool dead = false;
  int64_t crash_in = 0, fail_in = 0, fail_len = 0; // operations until then, 0: never
  bool full = false;
  int handles = 0;
  uint64_t ops = 0, failed = 0;
  Rng rng{1};
  void calm() { crash_in = fail_in = fail_len = 0; full = false; failed = 0; }
  enum { OK_, FAIL_, DEAD_ };
  int op() {
    ++ops;
    if (dead) return DEAD_;
    if (crash_in && --crash_in == 0) { dead = true; return DEAD_; }
    if (fail_in) {
      if (fail_in > 1) { --fail_in; return OK_; }
      if (fail_len-- > 0) { ++failed; return FAIL_; }
      fail_in = 0;
    }
    return OK_;
  }
  static void put(std::string &s, size_t off, const char *p, size_t n) {
    if (s.size() < off + n) s.resize(off + n);
    memcpy(&s[off], p, n);
  }
  static constexpr size_t kSector = 512;
  // sectors of a write that is cut off
  static void put_torn(Ctx &c, std::string &s, size_t off, const std::string &d) {
    if (d.empty()) return;
    size_t keep = c.draw((d.size() + kSector - 1) / kSector + 1) * kSector;
    if (keep > d.size()) keep = d.size();
    if (keep) put(s, off, d.data(), keep);
  }
  void crash(Ctx &c) {
    for (auto &kv : files) {
      DiskFile &f = *kv.second;
      std::string img = f.durable;
      int mode = f.pending.empty() ? 0 : (int)c.draw(3); // none of them, each or not, all of them
      for (auto &p : f.pending) {
        int what = mode == 0 ? 0 : mode == 2 ? 1 : (int)c.draw(3);
        if (what == 0) { c.fault("disk.lost-write"); continue; }
        if (p.trunc) { if (img.size() > p.off) img.resize(p.off); continue; }
        if (what == 2) { c.fault("disk.torn-write"); put_torn(c, img, p.off, p.data); }
        else put(img, p.off, p.data.data(), p.data.size());
      }
      f.cur = f.durable = img;
      f.pending.clear();
    }
    dead = false;
    calm();
  }
};
Disk *g_disk = nullptr;
struct Handle {
  sqlite3_file base;
  Disk *disk;
  std::shared_ptr<DiskFile> *f;
  std::string *name;
  bool del;
  int lock;
};
Handle &H(sqlite3_file *p) { return *(Handle *)p; }
#define DISK_OP(err)                                                                                                     \
  Disarm disarm__;                                                                                                       \
  switch (H(p).disk->op()) { case Disk::DEAD_: case Disk::FAIL_: return err; default: break; }

int x_close(sqlite3_file *p) {
  Disarm d;
  Handle &h = H(p);
  auto &hs = (*h.f)->handles;
  for (size_t i = 0; i < hs.size(); ++i) if (hs[i] == &h) { hs.erase(hs.begin() + i); break; }
  if (h.del && !h.disk->dead) h.disk->files.erase(*h.name);
  --h.disk->handles;
  delete h.f;
  delete h.name;
  h.base.pMethods = nullptr;
  return SQLITE_OK;
}
int x_read(sqlite3_file *p, void *b, int n, sqlite3_int64 off) {
  DISK_OP(SQLITE_IOERR_READ)
  std::string &s = (*H(p).f)->cur;
  size_t have = (size_t)off < s.size() ? s.size() - off : 0;
  if (have >= (size_t)n) { memcpy(b, s.data() + off, n); return SQLITE_OK; }
  memset(b, 0, n);
  if (have) memcpy(b, s.data() + off, have);
  return SQLITE_IOERR_SHORT_READ;
}
int x_write(sqlite3_file *p, const void *b, int n, sqlite3_int64 off) {
  Disarm d;
  Handle &h = H(p);
  DiskFile &f = **h.f;
  int r = h.disk->dead ? Disk::OK_ : h.disk->op();
  if (h.disk->dead && r == Disk::OK_) return SQLITE_IOERR_WRITE;
  std::string data((const char *)b, n);
  if (r == Disk::OK_) {
    Disk::put(f.cur, off, data.data(), n);
    f.pending.push_back({false, (size_t)off, data});
    return SQLITE_OK;
  }
  // cut off in the middle
  size_t keep = h.disk->c->draw((n + Disk::kSector - 1) / Disk::kSector + 1) * Disk::kSector;
  if (keep > (size_t)n) keep = n;
  if (keep) {
    Disk::put(f.cur, off, data.data(), keep);
    f.pending.push_back({false, (size_t)off, data.substr(0, keep)});
  }
  return h.disk->full ? SQLITE_FULL : SQLITE_IOERR_WRITE;
}
int x_truncate(sqlite3_file *p, sqlite3_int64 n) {
  DISK_OP(SQLITE_IOERR_TRUNCATE)
  DiskFile &f = **H(p).f;
  if (f.cur.size() > (size_t)n) f.cur.resize(n);
  f.pending.push_back({true, (size_t)n, ""});
  return SQLITE_OK;
}
int x_sync(sqlite3_file *p, int) {
  DISK_OP(SQLITE_IOERR_FSYNC)
  DiskFile &f = **H(p).f;
  f.durable = f.cur;
  f.pending.clear();
  return SQLITE_OK;
}
int x_size(sqlite3_file *p, sqlite3_int64 *n) {
  DISK_OP(SQLITE_IOERR_FSTAT)
  *n = (*H(p).f)->cur.size();
  return SQLITE_OK;
}
int x_lock(sqlite3_file *p, int l) {
  DISK_OP(SQLITE_IOERR_LOCK)
  Handle &h = H(p);
  for (Handle *o : (*h.f)->handles) {
    if (o == &h) continue;
    if (l == SQLITE_LOCK_SHARED && o->lock >= SQLITE_LOCK_PENDING) return SQLITE_BUSY;
    if (l == SQLITE_LOCK_RESERVED && o->lock >= SQLITE_LOCK_RESERVED) return SQLITE_BUSY;
    if (l == SQLITE_LOCK_EXCLUSIVE && o->lock >= SQLITE_LOCK_SHARED) return SQLITE_BUSY;
  }
  if (h.lock < l) h.lock = l;
  return SQLITE_OK;
}
int x_unlock(sqlite3_file *p, int l) {
  if (H(p).lock > l) H(p).lock = l;
  return SQLITE_OK;
}
int x_reserved(sqlite3_file *p, int *r) {
  DISK_OP(SQLITE_IOERR_CHECKRESERVEDLOCK)
  *r = 0;
  for (Handle *o : (*H(p).f)->handles) if (o->lock >= SQLITE_LOCK_RESERVED) *r = 1;
  return SQLITE_OK;
}
int x_control(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
int x_sector(sqlite3_file *) { return Disk::kSector; }
int x_char(sqlite3_file *) { return 0; }
const sqlite3_io_methods kIo = {1, x_close, x_read, x_write, x_truncate, x_sync, x_size, x_lock, x_unlock, x_reserved, x_control, x_sector, x_char,
                                nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};

int v_open(sqlite3_vfs *, const char *name, sqlite3_file *p, int flags, int *out) {
  Disarm d;
  Handle &h = H(p);
  h.base.pMethods = nullptr;
  if (g_disk->op() != Disk::OK_) return SQLITE_CANTOPEN;
  static uint64_t temp = 0;
  std::string n = name ? name : "temp-" + std::to_string(++temp);
  auto it = g_disk->files.find(n);
  if (it == g_disk->files.end()) {
    if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
    it = g_disk->files.emplace(n, std::make_shared<DiskFile>()).first;
  }
  h.disk = g_disk;
  h.f = new std::shared_ptr<DiskFile>(it->second);
  h.name = new std::string(n);
  h.del = flags & SQLITE_OPEN_DELETEONCLOSE;
  h.lock = 0;
  it->second->handles.push_back(&h);
  ++g_disk->handles;
  h.base.pMethods = &kIo;
  if (out) *out = flags;
  return SQLITE_OK;
}
int v_delete(sqlite3_vfs *, const char *name, int) {
  Disarm d;
  if (g_disk->op() != Disk::OK_) return SQLITE_IOERR_DELETE;
  return g_disk->files.erase(name) ? SQLITE_OK : SQLITE_IOERR_DELETE_NOENT;
}
int v_access(sqlite3_vfs *, const char *name, int, int *r) {
  Disarm d;
  if (g_disk->op() != Disk::OK_) return SQLITE_IOERR_ACCESS;
  *r = g_disk->files.count(name) != 0;
  return SQLITE_OK;
}
int v_path(sqlite3_vfs *, const char *name, int n, char *out) { snprintf(out, n, "%s", name); return SQLITE_OK; }
int v_random(sqlite3_vfs *, int n, char *out) {
  for (int i = 0; i < n; ++i) out[i] = (char)g_disk->rng.next();
  return n;
}
int v_sleep(sqlite3_vfs *, int us) { g_disk->c->now += us; return us; }
int v_time(sqlite3_vfs *, double *t) { *t = 2459000.5; return SQLITE_OK; }
int v_error(sqlite3_vfs *, int, char *) { return 0; }
sqlite3_vfs g_vfs = {1, sizeof(Handle), 200, nullptr, "sim", nullptr, v_open, v_delete, v_access, v_path, nullptr, nullptr, nullptr, nullptr, v_random, v_sleep, v_time, v_error, nullptr, nullptr, nullptr, nullptr};

// ---- memory of the database engine ----
int64_t g_mem_live = 0, g_mem_fail_in = 0, g_mem_fail_len = 0;
uint64_t g_mem_failed = 0;
bool mem_fails() {
  if (!g_mem_fail_in) return false;
  if (g_mem_fail_in > 1) { --g_mem_fail_in; return false; }
  if (g_mem_fail_len-- > 0) { ++g_mem_failed; return true; }
  g_mem_fail_in = 0;
  return false;
}
void *m_malloc(int n) {
  if (mem_fails()) return nullptr;
  Disarm d;
  size_t *p = (size_t *)malloc(n + 16);
  if (!p) return nullptr;
  *p = n;
  ++g_mem_live;
  return (char *)p + 16;
}
void m_free(void *p) {
  if (!p) return;
  Disarm d;
  --g_mem_live;
  free((char *)p - 16);
}
void *m_realloc(void *p, int n) {
  if (mem_fails()) return nullptr;
  Disarm d;
  size_t *q = (size_t *)realloc((char *)p - 16, n + 16);
  if (!q) return nullptr;
  *q = n;
  return (char *)q + 16;
}
int m_size(void *p) { return p ? (int)*(size_t *)((char *)p - 16) : 0; }
int m_round(int n) { return (n + 7) & ~7; }
int m_init(void *) { return SQLITE_OK; }
void m_shutdown(void *) {}
sqlite3_mem_methods g_mem = {m_malloc, m_free, m_realloc, m_size, m_round, m_init, m_shutdown, nullptr};

void setup() {
  static bool done = false;
  if (!done) {
    done = true;
    sqlite3_config(SQLITE_CONFIG_MALLOC, &g_mem);
    sqlite3_initialize();
    sqlite3_vfs_register(&g_vfs, 1);
  }
  sqlite3_randomness(0, nullptr);
}

// ---- the model of the database ----
struct Cell {
  int kind = SQLITE_NULL;
  int64_t i = 0;
  double r = 0;
  std::string s;
  bool eq(const Cell &o) const {
    if (kind != o.kind) return false;
    if (kind == SQLITE_INTEGER) return i == o.i;
    if (kind == SQLITE_FLOAT) return std::fabs(r - o.r) <= 1e-13 * std::fabs(r);
    return s == o.s;
  }
  std::string text() const {
    switch (kind) {
    case SQLITE_INTEGER: return std::to_string(i);
    case SQLITE_FLOAT: { char b[40]; snprintf(b, sizeof b, "%.17g", r); return b; }
    case SQLITE_TEXT: return "'" + s + "'";
    case SQLITE_BLOB: return "x" + hexstr(s.data(), s.size());
    default: return "NULL";
    }
  }
};
typedef std::vector<Cell> Row;
std::string show_row(const Row &r) { std::string o; for (auto &x : r) o += (o.empty() ? "" : ", ") + x.text(); return "(" + o + ")"; }
struct Table { std::vector<std::string> cols; std::vector<Row> rows; };
typedef std::map<std::string, Table> Database;

enum { TAG_PK = 1, TAG_ORD = 2, TAG_SKIP = 4 };
Cell int_cell(int64_t v) { Cell c; c.kind = SQLITE_INTEGER; c.i = v; return c; }
Cell cell_of(const Field &f, const Val &v) {
  Cell c;
  if (!v.present) return c;
  switch (f.ft) {
  case DEC:
    if (f.indiv) return int_cell((int64_t)v.u);
    c.kind = SQLITE_FLOAT;
    c.r = (double)(powl(10.0L, v.exp) * (long double)(int64_t)v.u);
    break;
  case ASC: case UNI: c.kind = SQLITE_TEXT; c.s = v.s; break;
  case BYT: c.kind = SQLITE_BLOB; c.s = v.s; break;
  default: return int_cell((int64_t)v.u);
  }
  return c;
}
bool separate(const Field &f) { return f.ft == GRP && !f.sub.empty() && !f.sub[0].via_ref.empty(); }

struct World {
  Doc d;
  int ntop = 0, nref = 0;      // the first nref templates are only referred to
  Database db;
  std::vector<const Field *> pk; // by template
};
void columns(const std::vector<Field> &fs, std::vector<std::string> &out) {
  for (auto &f : fs) {
    if (f.tag & TAG_SKIP || separate(f)) continue;
    if (f.ft == GRP || f.ft == SEQ) { columns(f.sub, out); if (f.ft == SEQ && f.tag & TAG_ORD) out.push_back("ordering"); }
    else out.push_back(f.name);
  }
}
const Field *pk_of(const std::vector<Field> &fs, size_t *at) {
  for (size_t i = 0; i < fs.size(); ++i) if (fs[i].tag & TAG_PK) { *at = i; return &fs[i]; }
  return nullptr;
}
// rows of the table of an aggregate; val null: absent
void flat_row(const std::vector<Field> &fs, const std::vector<Val> *v, Row &row, const Field **seq, const Val **seqv) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    if (f.tag & TAG_SKIP || separate(f)) continue;
    if (f.ft == GRP) flat_row(f.sub, v && (*v)[i].present ? &(*v)[i].sub : nullptr, row, seq, seqv);
    else if (f.ft == SEQ) { *seq = &f; *seqv = v ? &(*v)[i] : nullptr; }
    else row.push_back(v ? cell_of(f, (*v)[i]) : Cell());
  }
}
struct NewRow { std::string table; Row row; };
// what storing a message adds; false: it must be refused
bool expected(const Database &db, const Doc &d, const std::string &table, const std::vector<Field> &fs, const std::vector<Val> &v, const Cell *fk, std::vector<NewRow> &out) {
  Row row;
  if (fk) row.push_back(*fk);
  const Field *seq = nullptr;
  const Val *sv = nullptr;
  flat_row(fs, &v, row, &seq, &sv);
  size_t nrows = 0, pki = 0;
  const Field *pk = pk_of(fs, &pki);
  Cell key;
  const Table &tb = db.at(table);
  size_t pending = 0;
  for (auto &x : out) if (x.table == table) ++pending;
  if (pk) {
    key = cell_of(*pk, v[pki]);
    size_t col = 0;
    while (tb.cols[col] != pk->name) ++col;
    for (auto &r : tb.rows) if (r[col].eq(key)) return false;
  } else key = int_cell((int64_t)(tb.rows.size() + pending + 1));
  if (seq && sv && sv->present && !sv->sub.empty()) {
    for (auto &e : sv->sub) {
      Row r = row;
      const Field *s2 = nullptr;
      const Val *v2 = nullptr;
      flat_row(seq->sub, &e.sub, r, &s2, &v2);
      if (seq->tag & TAG_ORD) r.push_back(int_cell((int64_t)nrows));
      ++nrows;
      out.push_back({table, r});
    }
  } else {
    if (seq) { const Field *s2 = nullptr; const Val *v2 = nullptr; flat_row(seq->sub, nullptr, row, &s2, &v2); if (seq->tag & TAG_ORD) row.push_back(Cell()); }
    out.push_back({table, row});
  }
  for (size_t i = 0; i < fs.size(); ++i)
    if (separate(fs[i]) && !(fs[i].tag & TAG_SKIP) && v[i].present)
      if (!expected(db, d, fs[i].sub[0].via_ref, fs[i].sub, v[i].sub, &key, out)) return false;
  return true;
}

Field scalar(Ctx &c, const std::string &name, bool key) {
  static const FT all[] = {I32, U32, I64, U64, DEC, ASC, UNI, BYT, ENM, BOO, SET_};
  static const FT keys[] = {I32, U32, I64, U64, BYT};
  Field f;
  f.name = name;
  f.ft = key ? keys[c.draw(5)] : all[c.draw(11)];
  f.opt = !key && c.chance(1, 2);
  if (f.ft == DEC && c.chance(1, 3)) { f.indiv = true; f.op = CONSTANT; f.has_init = true; f.init.present = true; f.init.exp = -(int)c.draw(5); }
  if (f.ft == ENM || f.ft == SET_) for (unsigned i = 0; i < 3; ++i) { f.enames.push_back(name + "_" + std::to_string(i)); f.evals.push_back(i); }
  if (f.ft == BOO) { f.enames = {"false", "true"}; f.evals = {0, 1}; }
  if (!key && c.chance(1, 10)) f.tag |= TAG_SKIP;
  return f;
}
void gen_world(Ctx &c, World &w) {
  int nf = 0;
  auto name = [&] { return "c" + std::to_string(++nf); };
  auto scalars = [&](std::vector<Field> &fs, size_t lo, size_t hi, bool skip) {
    size_t n = c.range(lo, hi);
    for (size_t i = 0; i < n; ++i) { fs.push_back(scalar(c, name(), false)); if (!skip) fs.back().tag = 0; }
  };
  w.ntop = (int)c.range(1, 3);
  std::vector<Template> tops, refs;
  int via = 0;
  for (int t = 0; t < w.ntop; ++t) {
    Ctx::Scope sc(c);
    Template tp;
    tp.name = "Top" + std::to_string(t);
    tp.id = 10 + t;
    bool denorm = c.chance(1, 3), keyed = !denorm && c.chance(1, 2);
    if (keyed && c.chance(1, 3)) scalars(tp.f, 1, 2, true);
    if (keyed) { tp.f.push_back(scalar(c, name(), true)); tp.f.back().tag = TAG_PK; }
    tp.f.push_back(scalar(c, name(), false));
    tp.f.back().tag = 0;
    scalars(tp.f, 0, 3, true);
    if (c.chance(1, 2)) {
      Field g;
      g.ft = GRP; g.name = name(); g.opt = c.chance(2, 3);
      scalars(g.sub, 1, 3, true);
      if (c.chance(1, 3)) { Field h; h.ft = GRP; h.name = name(); h.opt = c.chance(1, 2); scalars(h.sub, 1, 2, true); g.sub.push_back(h); }
      if (c.chance(1, 10)) g.tag = TAG_SKIP;
      tp.f.push_back(g);
    }
    if (c.chance(1, 3)) scalars(tp.f, 1, 1, true);
    if (denorm) {
      Field s;
      s.ft = SEQ; s.name = name(); s.opt = c.chance(1, 2);
      s.len = std::make_shared<Field>();
      s.len->ft = U32; s.len->opt = s.opt;
      if (c.chance(1, 2)) s.tag = TAG_ORD;
      scalars(s.sub, 1, 3, true);
      s.sub.push_back(scalar(c, name(), false));
      s.sub.back().tag = 0;
      tp.f.push_back(s);
    } else {
      size_t n = c.draw(3);
      for (size_t i = 0; i < n; ++i) {
        Template r;
        r.name = "Ref" + std::to_string(refs.size());
        r.id = 100 + (unsigned)refs.size();
        if (c.chance(1, 3)) { r.f.push_back(scalar(c, name(), true)); r.f.back().tag = TAG_PK; }
        scalars(r.f, 1, 3, false);
        Field g;
        g.ft = GRP; g.name = name(); g.opt = c.chance(1, 2);
        g.sub = r.f;
        ++via;
        for (auto &x : g.sub) { x.via_ref = r.name; x.via_n = via; }
        tp.f.push_back(g);
        refs.push_back(r);
      }
    }
    tops.push_back(tp);
  }
  w.nref = (int)refs.size();
  w.d.t = refs;
  for (auto &t : tops) w.d.t.push_back(t);
  for (int t = 0; t < w.nref + w.ntop; ++t) {
    auto &tp = w.d.t[t];
    Table tb;
    if (t < w.nref) {
      std::string owner, key = "rowid";
      for (int k = w.nref; k < w.nref + w.ntop; ++k)
        for (auto &f : w.d.t[k].f)
          if (separate(f) && f.sub[0].via_ref == tp.name) { size_t at; owner = w.d.t[k].name; if (auto *p = pk_of(w.d.t[k].f, &at)) key = p->name; }
      tb.cols.push_back(owner + key);
    }
    columns(tp.f, tb.cols);
    w.db[tp.name] = tb;
  }
}

struct Conn { // raw access to the database
  sqlite3 *db = nullptr;
  Ctx &c;
  explicit Conn(Ctx &c) : c(c) {
    if (sqlite3_open_v2("x.db", &db, SQLITE_OPEN_READWRITE, nullptr)) { sqlite3_close(db); db = nullptr; c.fail("database:open", "the database cannot be opened"); }
  }
  ~Conn() { sqlite3_close(db); }
  void rows(const std::string &sql, std::vector<std::string> *cols, std::vector<Row> &out) {
    sqlite3_stmt *st = nullptr;
    int rc = sqlite3_prepare_v2(db, sql.c_str(), -1, &st, nullptr);
    std::string err;
    if (rc == SQLITE_OK) {
      if (cols) for (int i = 0; i < sqlite3_column_count(st); ++i) cols->push_back(sqlite3_column_name(st, i));
      while ((rc = sqlite3_step(st)) == SQLITE_ROW) {
        Row r;
        for (int i = 0; i < sqlite3_column_count(st); ++i) {
          Cell x;
          x.kind = sqlite3_column_type(st, i);
          if (x.kind == SQLITE_INTEGER) x.i = sqlite3_column_int64(st, i);
          else if (x.kind == SQLITE_FLOAT) x.r = sqlite3_column_double(st, i);
          else if (x.kind == SQLITE_TEXT) { auto *p = (const char *)sqlite3_column_text(st, i); x.s.assign(p, sqlite3_column_bytes(st, i)); }
          else if (x.kind == SQLITE_BLOB) { auto *p = (const char *)sqlite3_column_blob(st, i); x.s.assign(p ? p : "", sqlite3_column_bytes(st, i)); }
          r.push_back(x);
        }
        out.push_back(r);
      }
    }
    if (rc != SQLITE_DONE) err = sqlite3_errmsg(db);
    sqlite3_finalize(st);
    if (rc != SQLITE_DONE) c.fail(rc == SQLITE_BUSY ? "database:locked" : "database:query", "%s: %s", sql.c_str(), err.c_str());
  }
};
// "" or the first difference
std::string diff(const Database &want, const Database &got) {
  for (auto &kv : want) {
    auto &w = kv.second;
    auto &g = got.at(kv.first);
    if (w.cols != g.cols) return "table " + kv.first + " has other columns";
    for (size_t i = 0; i < w.rows.size() || i < g.rows.size(); ++i) {
      if (i >= g.rows.size()) return "row " + std::to_string(i + 1) + " of " + kv.first + " is missing: " + show_row(w.rows[i]);
      if (i >= w.rows.size()) return "unexpected row " + std::to_string(i + 1) + " of " + kv.first + ": " + show_row(g.rows[i]);
      for (size_t k = 0; k < w.cols.size(); ++k)
        if (!w.rows[i][k].eq(g.rows[i][k])) return "row " + std::to_string(i + 1) + " of " + kv.first + ", column " + w.cols[k] + ": " + g.rows[i][k].text() + " instead of " + w.rows[i][k].text();
    }
  }
  return "";
}
Database read_all(Ctx &c, const World &w) {
  Conn conn(c);
  Database got;
  for (auto &kv : w.db) conn.rows("SELECT * FROM " + kv.first + " ORDER BY rowid", &got[kv.first].cols, got[kv.first].rows);
  std::vector<Row> ok;
  conn.rows("PRAGMA integrity_check", nullptr, ok);
  if (ok.size() != 1 || ok[0].size() != 1 || ok[0][0].s != "ok") c.fail("database:integrity", "the database is damaged: %s", ok.empty() ? "" : show_row(ok[0]).c_str());
  return got;
}

void run_database(Ctx &c) {
  setup();
  World w;
  gen_world(c, w);
  template_registry reg;
  std::unique_ptr<dynamic_templates_description> dd;
  try { dd.reset(new dynamic_templates_description(w.d.xml().c_str(), "x", &reg)); }
  catch (const Violation &) { throw; }
  catch (...) { c.fail("database:document", "document refused: %s", describe_exception().c_str()); }
  std::map<unsigned, const template_instruction *> inst;
  for (uint32_t i = 0; i < dd->size(); ++i) inst[(*dd)[i]->id()] = (*dd)[i];
  if (c.keep_log) c.ev("%s", w.d.xml().c_str());

  Disk disk;
  disk.c = &c;
  disk.rng = Rng(c.draw(0));
  g_disk = &disk;
  const int64_t mem0 = g_mem_live;
  SQLite3::field_masks masks(TAG_SKIP, TAG_PK, TAG_ORD);
  std::unique_ptr<SQLite3::converter> conv;
  auto open = [&](bool create) {
    std::unique_ptr<SQLite3::converter> n(new SQLite3::converter("x.db", masks));
    for (int t = w.nref; t < w.nref + w.ntop; ++t) n->add_instruction(inst[w.d.t[t].id], create);
    conv = std::move(n);
  };
  auto leak = [&](const char *when) {
    conv.reset();
    if (disk.handles) c.fail("database:leak", "%d files stay open %s", disk.handles, when);
    if (g_mem_live != mem0) c.fail("database:leak", "%lld blocks of memory are not released %s", (long long)(g_mem_live - mem0), when);
  };
  auto arm = [&](const char **what) -> int {
    int kind = c.pick({8, 2, 2, 2, 1, 2});
    *what = "nothing";
    switch (kind) {
    case 1: *what = "disk error"; disk.full = false; disk.fail_in = 1 + c.draw(40); disk.fail_len = c.chance(1, 3) ? 1 + c.draw(20) : 1; break;
    case 2: *what = "disk full"; disk.full = true; disk.fail_in = 1 + c.draw(40); disk.fail_len = c.chance(1, 2) ? 1 + c.draw(40) : 1; break;
    case 3: *what = "database memory"; g_mem_fail_in = 1 + c.draw(30); g_mem_fail_len = c.chance(1, 4) ? 1 + c.draw(10) : 1; break;
    case 4: *what = "memory"; break;
    case 5: *what = "crash"; disk.crash_in = 1 + c.draw(40); break;
    }
    return kind;
  };
  auto disarm = [&] { disk.calm(); g_mem_fail_in = g_mem_fail_len = 0; g_mem_failed = 0; };

  // creating the tables may fail; nothing is left behind then
  if (c.chance(1, 4)) {
    const char *what;
    int kind = arm(&what);
    bool ok = false;
    std::string err;
    try {
      std::unique_ptr<ArmAlloc> a;
      if (kind == 4) a.reset(new ArmAlloc(1 + c.draw(300)));
      open(true);
      ok = true;
    } catch (const Violation &) { throw;
    } catch (...) { Disarm d; err = describe_exception(); }
    AllocSeam::armed = false;
    bool faulted = disk.failed || disk.dead || g_mem_failed || (kind == 4 && AllocSeam::failures);
    if (faulted) c.fault((std::string("setup ") + what).c_str());
    if (!ok && !faulted) c.fail("database:setup", "the tables cannot be created: %s", err.c_str());
    AllocSeam::failures = 0;
    disarm();
    if (!ok || disk.dead) {
      leak("after a failed setup");
      disk.dead = false;
      disk.files.clear();
    }
  }
  if (!conv) {
    try { open(true); } catch (const Violation &) { throw; } catch (...) { c.fail("database:setup", "the tables cannot be created: %s", describe_exception().c_str()); }
  }
  auto compare = [&](const char *when) {
    Database got = read_all(c, w);
    std::string x = diff(w.db, got);
    if (!x.empty()) c.fail("database:contents", "%s: %s", when, x.c_str());
  };

  ValGen vg(c, w.d);
  std::vector<Cell> keys;
  int64_t next_key = 1;
  size_t n = c.range(2, 14);
  for (size_t k = 0; k < n; ++k) {
    Ctx::Scope sc(c);
    int t = w.nref + (int)c.draw(w.ntop);
    const Template &tp = w.d.t[t];
    std::vector<Val> v = vg.message(t).sub;
    std::function<void(const std::vector<Field> &, std::vector<Val> &)> tune = [&](const std::vector<Field> &fs, std::vector<Val> &v) {
      for (size_t i = 0; i < fs.size(); ++i) {
        if (fs[i].ft == U64) v[i].u &= INT64_MAX; // what the database can hold
        if (fs[i].ft == UNI) for (auto &ch : v[i].s) if (!ch) ch = 1;
        if (fs[i].tag & TAG_PK) {
          uint64_t key = c.chance(1, 6) ? c.draw(next_key) : (uint64_t)next_key++;
          v[i].present = true;
          if (fs[i].ft == BYT) v[i].s = "k" + std::to_string(key);
          else v[i].u = fs[i].ft == I64 || fs[i].ft == U64 ? key * 4294967297ull : key;
        }
        if (fs[i].ft == GRP && v[i].present) tune(fs[i].sub, v[i].sub);
        if (fs[i].ft == SEQ) for (auto &e : v[i].sub) tune(fs[i].sub, e.sub);
      }
    };
    tune(tp.f, v);
    message_type msg(malloc_allocator::instance(), inst[tp.id]);
    fill(msg.mref(), tp.f, v, w.d, [&](int i) { return inst[w.d.t[i].id]; });
    std::vector<NewRow> add;
    bool fits = expected(w.db, w.d, tp.name, tp.f, v, nullptr, add);
    const char *what;
    int kind = arm(&what);
    bool ok = false;
    std::string err;
    uint64_t an = kind == 4 ? 1 + c.draw(60) : 0;
    try {
      std::unique_ptr<ArmAlloc> a;
      if (an) a.reset(new ArmAlloc(an));
      conv->insert(msg.cref());
      ok = true;
    } catch (const Violation &) { throw;
    } catch (...) { Disarm d; err = describe_exception(); }
    AllocSeam::armed = false;
    bool crashed = disk.dead;
    bool faulted = disk.failed || crashed || g_mem_failed || (an && AllocSeam::failures);
    if (faulted) c.fault(what);
    if (c.keep_log) c.ev("insert %s %s (%s%s): %s", tp.name.c_str(), show(tp.f, v, w.d).c_str(), what, faulted ? ", met" : "", ok ? "ok" : err.c_str());
    c.hashv(mix(hash_vals(v), ok));
    c.state(mix(hash_vals(v), ok * 8 + kind));
    disarm();
    if (ok) c.nontrivial();
    if (ok && !fits) c.fail("database:duplicate", "a message with a key that exists already was accepted");
    if (!ok && fits && !faulted) c.fail("database:refused", "a message was refused: %s", err.c_str());
    if (!fits) c.probe("database.duplicate-key");
    Database with = w.db;
    if (fits) for (auto &r : add) with[r.table].rows.push_back(r.row);
    if (crashed) {
      conv.reset();
      if (disk.handles) c.fail("database:leak", "%d files stay open after a failure", disk.handles);
      disk.crash(c);
      try { open(false); } catch (const Violation &) { throw; } catch (...) { c.fail("database:restart", "the database cannot be used after a crash: %s", describe_exception().c_str()); }
      Database got = read_all(c, w);
      std::string x = diff(with, got);
      if (ok && !x.empty()) c.fail("database:durability", "a message that was stored before a crash: %s", x.c_str());
      if (!x.empty()) {
        std::string y = diff(w.db, got);
        if (!y.empty()) c.fail("database:crash", "after a crash while a message was stored: %s", y.c_str());
      } else if (fits) w.db = with;
      c.probe("database.crash");
      continue;
    }
    if (ok) w.db = with;
    switch (c.pick({5, 2, 1, 1})) {
    case 1: compare(ok ? "after a message" : "after a refused message"); break;
    case 2:
      leak("when the converter is destroyed");
      try { open(false); } catch (const Violation &) { throw; } catch (...) { c.fail("database:restart", "the database cannot be used again: %s", describe_exception().c_str()); }
      c.probe("database.restart");
      break;
    case 3: // power fails while nothing happens
      disk.dead = true;
      conv.reset();
      disk.crash(c);
      c.fault("power failure");
      try { open(false); } catch (const Violation &) { throw; } catch (...) { c.fail("database:restart", "the database cannot be used after a crash: %s", describe_exception().c_str()); }
      compare("after a power failure");
      break;
    }
  }
  compare("at the end");
  leak("at the end");
}
} // namespace
static Register r21(Prop{"C21", "exploration", "one run = 2..14 messages of 1..3 random templates stored through a converter on a simulated disk, with disk errors, a full disk, failing allocations, power failures and restarts in between; the tables are read back with the database engine itself; non-trivial when a message was stored", run_database, {"SQLite3::converter", "libsqlite3", "message containers", "dynamic_templates_description"}, {"disk (SQLite VFS)", "allocation", "application"}, {"unsigned values fit the database's signed 64 bit integers", "text has no NUL characters", "removing a file is durable at once"}});
} // namespace sim
