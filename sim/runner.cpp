// Search driver: forks batches of simulated runs, minimises and confirms
// violations, replays files, writes evidence.
#include "core.h"
#include "seams.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

// deterministic, non-leaking sanitizer settings
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
         "max_malloc_fill_size=65536:malloc_fill_byte=190:handle_abort=1:"
         "detect_stack_use_after_return=0:symbolize=1:fast_unwind_on_malloc=1:"
         "malloc_context_size=8:quarantine_size_mb=16:print_legend=0:"
         "print_suppressions=0:handle_segv=1:allow_user_segv_handler=0:"
         "hard_rss_limit_mb=3000";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

static double now_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
template <class T> static T *shared() {
  void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T *)p;
}

static const Prop *g_prop;
static int g_cpu_limit = 20;
static std::string g_scratch;
static std::string g_class; // only violations of this class count (triage)

// One run inside the current process. status/cls/msg go to shm.
static void run_one(SharedRun *shm, Ctx &c) {
  shm->status = 0;
  shm->cls[0] = shm->msg[0] = 0;
  struct itimerval it = {{0, 0}, {g_cpu_limit, 0}};
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  int st = 1;
  try {
    g_prop->run(c);
  } catch (const Discard &) {
    st = 3;
  } catch (const Violation &v) {
    st = g_class.empty() || v.cls.compare(0, g_class.size(), g_class) == 0 ? 2 : 3;
    snprintf(shm->cls, sizeof shm->cls, "%s", v.cls.c_str());
    snprintf(shm->msg, sizeof shm->msg, "%s", v.msg.c_str());
  } catch (const std::exception &e) {
    st = 2;
    snprintf(shm->cls, sizeof shm->cls, "unexpected-exception:%s", typeid(e).name());
    snprintf(shm->msg, sizeof shm->msg, "%s", e.what());
  } catch (...) {
    st = 2;
    snprintf(shm->cls, sizeof shm->cls, "unexpected-exception:unknown");
  }
  AllocSeam::armed = false;
  AllocSeam::tracking = false;
  shm->hash = c.hash();
  shm->status = st;
}

static void on_vtalrm(int) {
  static const char m[] = "\nSIMHANG cpu limit exceeded\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(98);
}

static void child_setup(const std::string &errfile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  int nul = open("/dev/null", O_WRONLY);
  if (nul >= 0) { dup2(nul, 1); close(nul); }
  signal(SIGVTALRM, on_vtalrm);
}

static std::string slurp(const std::string &f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

// Class of a crash from the sanitizer / assert output.
static std::string crash_class(const std::string &err, int wstatus, std::string *detail) {
  std::string cls;
  auto first_line_with = [&](const char *pat) -> std::string {
    size_t p = err.find(pat);
    if (p == std::string::npos) return "";
    size_t b = err.rfind('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    size_t e = err.find('\n', p);
    return err.substr(b, e - b);
  };
  std::string a;
  if (err.find("SIMHANG") != std::string::npos) {
    cls = "hang";
    *detail = "no termination within the CPU limit";
  } else if (!(a = first_line_with("Assertion `")).empty() || !(a = first_line_with("Assertion '")).empty()) {
    *detail = a;
    size_t p = a.find("Assertion");
    std::string x = a.substr(p);
    // keep the asserted condition, drop line numbers
    cls = "assert:" + x.substr(0, 120);
  } else if (!(a = first_line_with("terminate called")).empty()) {
    cls = "terminate";
    *detail = a;
  } else if (!(a = first_line_with("SUMMARY: ")).empty()) {
    *detail = a;
    // "SUMMARY: AddressSanitizer: kind file:line in func"
    std::istringstream is(a);
    std::string w, kind;
    is >> w >> w >> kind;
    std::string rest = a.substr(a.find(kind) + kind.size());
    size_t q = rest.find(" in ");
    std::string fn = q == std::string::npos ? "" : rest.substr(q + 4);
    // strip template arguments for a stable class
    std::string f2;
    int depth = 0;
    for (char ch : fn) {
      if (ch == '<') ++depth;
      if (!depth) f2 += ch;
      if (ch == '>' && depth) --depth;
    }
    cls = "memory:" + kind + ":" + f2.substr(0, 90);
  } else if (!(a = first_line_with("runtime error: ")).empty()) {
    *detail = a;
    cls = "ub:" + a.substr(a.find("runtime error: ") + 15, 80);
  } else {
    char b[80];
    if (WIFSIGNALED(wstatus)) snprintf(b, sizeof b, "signal:%d", WTERMSIG(wstatus));
    else snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(wstatus));
    cls = b;
    *detail = b;
  }
  for (char &ch : cls) if (ch == ' ' || ch == '\n') ch = '_';
  return cls;
}

struct Result {
  int status = 0; // 1 ok 2 violation 3 discarded
  std::string cls, msg, log;
  uint64_t hash = 0;
  std::vector<uint64_t> tape;
  std::vector<Span> spans;
};

static void collect(SharedRun *shm, Result &r) {
  r.tape.assign(shm->tape, shm->tape + std::min(shm->ntape, kMaxTape));
  r.spans.assign(shm->spans, shm->spans + std::min(shm->nspan, kMaxSpan));
  for (auto &s : r.spans) if (s.e < s.b) s.e = r.tape.size();
  r.hash = shm->hash;
}

static Result exec_tape(SharedRun *shm, const std::vector<uint64_t> &tape, bool want_log = false) {
  std::string errf = g_scratch + "/exec.err";
  std::string logf = g_scratch + "/exec.log";
  unlink(logf.c_str());
  shm->ntape = shm->nspan = 0;
  shm->hash = 0;
  shm->status = 0;
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    child_setup(errf);
    g_stats = nullptr;
    Ctx c(shm, tape);
    c.keep_log = want_log;
    run_one(shm, c);
    if (want_log) {
      std::ofstream o(logf);
      o << c.log;
    }
    _exit(0);
  }
  int ws = 0;
  waitpid(p, &ws, 0);
  Result r;
  collect(shm, r);
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && shm->status) {
    r.status = shm->status;
    r.cls = shm->cls;
    r.msg = shm->msg;
  } else {
    r.status = 2;
    std::string d;
    std::string err = slurp(errf);
    r.cls = crash_class(err, ws, &d);
    r.msg = d;
    r.log = err.substr(0, 6000);
    r.hash = hash_bytes(r.cls.data(), r.cls.size());
  }
  if (want_log) r.log = slurp(logf) + r.log;
  return r;
}

static Result shrink(SharedRun *shm, Result best, double budget_s, int *nexec) {
  double t0 = now_s();
  auto over = [&] { return now_s() - t0 > budget_s; };
  std::string cls = best.cls;
  auto attempt = [&](const std::vector<uint64_t> &t) {
    ++*nexec;
    Result r = exec_tape(shm, t);
    if (r.status == 2 && r.cls == cls) {
      auto sum = [](const std::vector<uint64_t> &v) { unsigned __int128 s = 0; for (auto x : v) s += x; return s; };
      if (r.tape.size() < best.tape.size() ||
          (r.tape.size() == best.tape.size() && sum(r.tape) < sum(best.tape))) {
        best = r;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // 1. drop whole operations (spans), longest first
    for (bool again = true; again && !over();) {
      again = false;
      auto sp = best.spans;
      std::stable_sort(sp.begin(), sp.end(), [](const Span &a, const Span &b) { return a.e - a.b > b.e - b.b; });
      std::set<std::pair<uint32_t, uint32_t>> seen;
      for (auto &s : sp) {
        if (over()) break;
        if (s.e <= s.b || s.e > best.tape.size() || !seen.insert({s.b, s.e}).second) continue;
        std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + s.b);
        t.insert(t.end(), best.tape.begin() + s.e, best.tape.end());
        if (attempt(t)) { again = progress = true; break; }
      }
    }
    // 2. zero whole spans
    {
      auto sp = best.spans;
      for (auto &s : sp) {
        if (over()) break;
        if (s.e <= s.b || s.e > best.tape.size()) continue;
        auto t = best.tape;
        bool any = false;
        for (uint32_t i = s.b; i < s.e; ++i) { any |= t[i] != 0; t[i] = 0; }
        if (any && attempt(t)) progress = true;
      }
    }
    // 3. delete chunks of raw choices
    for (size_t k : {32u, 8u, 4u, 2u, 1u}) {
      for (size_t i = best.tape.size(); i >= k && !over();) {
        i -= 1;
        if (i + k > best.tape.size()) continue;
        std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + i);
        t.insert(t.end(), best.tape.begin() + i + k, best.tape.end());
        if (attempt(t)) progress = true;
        if (i < k) break;
      }
    }
    // 4. minimise individual choices
    for (size_t i = 0; i < best.tape.size() && !over(); ++i) {
      if (!best.tape[i]) continue;
      auto t = best.tape;
      t[i] = 0;
      if (attempt(t)) { progress = true; continue; }
      for (int k = 0; k < 8 && !over() && i < best.tape.size() && best.tape[i] > 1; ++k) {
        t = best.tape;
        t[i] /= 2;
        if (!attempt(t)) break;
        progress = true;
      }
      if (i < best.tape.size() && best.tape[i] > 0) {
        t = best.tape;
        t[i] -= 1;
        if (attempt(t)) progress = true;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static void write_replay(const std::string &path, const Prop &p, uint64_t seed, uint64_t idx, const Result &r,
                         const Result &orig, int nexec) {
  std::ofstream o(path);
  o << "simreplay 1\nproperty " << p.id << "\nmaster_seed " << seed << "\nrun_index " << idx << "\nclass " << r.cls
    << "\nhash " << r.hash << "\noriginal_choices " << orig.tape.size() << "\nminimised_choices " << r.tape.size()
    << "\nshrink_executions " << nexec << "\ntape";
  for (auto v : r.tape) o << ' ' << v;
  o << "\nend\n--- message\n" << r.msg << "\n--- minimised schedule and fault trace\n" << r.log << "\n";
}

static bool read_replay(const std::string &path, std::string &prop, std::string &cls, uint64_t &hash,
                        std::vector<uint64_t> &tape) {
  std::ifstream i(path);
  std::string line;
  if (!std::getline(i, line) || line != "simreplay 1") return false;
  while (std::getline(i, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property") is >> prop;
    else if (k == "class") is >> cls;
    else if (k == "hash") is >> hash;
    else if (k == "tape") { uint64_t v; while (is >> v) tape.push_back(v); }
    else if (k == "end") return true;
  }
  return false;
}

static const Prop *find_prop(const std::string &id) {
  for (auto &p : props()) if (id == p.id) return &p;
  return nullptr;
}

static uint64_t run_seed(uint64_t master, const char *prop, uint64_t i) {
  Rng r(mix(mix(hash_bytes(prop, strlen(prop)), master), i));
  r.next();
  return r.next();
}

int main(int argc, char **argv) {
  std::string prop, evidence, replay_file, tier = "quick", outdir = "replays", self = argv[0], dethash;
  uint64_t seed = 1, maxruns = ~0ull, only = ~0ull;
  double seconds = 30, shrink_s = 45;
  int jobs = 8;
  bool dump = false, keep_going = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--seconds") seconds = atof(nx().c_str());
    else if (a == "--shrink") shrink_s = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--runs") maxruns = strtoull(nx().c_str(), 0, 10);
    else if (a == "--evidence") evidence = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--out") outdir = nx();
    else if (a == "--replay") replay_file = nx();
    else if (a == "--only") only = strtoull(nx().c_str(), 0, 10);
    else if (a == "--class") g_class = nx();
    else if (a == "--dump") dump = true;
    else if (a == "--keep-going") keep_going = true;
    else if (a == "--dethash") dethash = nx();
    else if (a == "--list") { for (auto &p : props()) printf("%s\n", p.id); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  char tmpl[] = "/tmp/simXXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  g_scratch = tmpl;
  struct Cleanup { ~Cleanup() { std::string c = "rm -rf " + g_scratch; (void)!system(c.c_str()); } } cleanup;
  setenv("SIM_SCRATCH", g_scratch.c_str(), 1);
  SharedRun *ex = shared<SharedRun>();

  if (!replay_file.empty()) {
    std::string cls;
    uint64_t hash = 0;
    std::vector<uint64_t> tape;
    if (!read_replay(replay_file, prop, cls, hash, tape) || !(g_prop = find_prop(prop))) {
      fprintf(stderr, "cannot read replay %s\n", replay_file.c_str());
      return 2;
    }
    Result r = exec_tape(ex, tape, true);
    if (dump) printf("%s\n", r.log.c_str());
    if (r.status == 2 && r.cls == cls && r.hash == hash) {
      printf("reproduced class=%s: %s\n", r.cls.c_str(), r.msg.c_str());
      return 1;
    }
    if (r.status == 2) { printf("different violation class=%s (recorded %s) hash %s: %s\n", r.cls.c_str(), cls.c_str(), r.hash == hash ? "same" : "differs", r.msg.c_str()); return 3; }
    printf("no violation (status %d)\n", r.status);
    return 0;
  }

  g_prop = find_prop(prop);
  if (!g_prop) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }

  if (!dethash.empty()) { // determinism self-test: print the log hash of runs [0,maxruns)
    uint64_t step = jobs;
    (void)step;
    std::ofstream o(dethash);
    for (uint64_t i = 0; i < maxruns; ++i) {
      pid_t p = fork();
      if (!p) {
        child_setup(g_scratch + "/d.err");
        Ctx c(ex, run_seed(seed, g_prop->id, i));
        ex->index = i;
        run_one(ex, c);
        _exit(0);
      }
      int ws;
      waitpid(p, &ws, 0);
      o << i << ' ' << ex->status << ' ' << ex->hash << ' ' << ex->ntape << ' ' << ws << "\n";
    }
    return 0;
  }
  if (only != ~0ull) {
    pid_t p = fork();
    if (!p) {
      child_setup(g_scratch + "/exec.err");
      Ctx c(ex, run_seed(seed, g_prop->id, only));
      run_one(ex, c);
      _exit(0);
    }
    int ws;
    waitpid(p, &ws, 0);
    Result o;
    collect(ex, o);
    Result r = exec_tape(ex, o.tape, true);
    printf("%s\nstatus %d class %s msg %s hash %llu choices %zu\n", r.log.c_str(), r.status, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, r.tape.size());
    return r.status == 2;
  }

  g_stats = shared<Stats>();
  double t0 = now_s();
  struct Worker { pid_t pid; SharedRun *shm; uint64_t next; std::string err; };
  std::vector<Worker> ws(jobs);
  const uint64_t kBatch = 100;
  auto spawn = [&](int w) {
    Worker &W = ws[w];
    W.shm->status = 0;
    W.pid = fork();
    if (W.pid < 0) { perror("fork"); exit(2); }
    if (W.pid == 0) {
      child_setup(W.err);
      uint64_t i = W.next;
      for (uint64_t k = 0; k < kBatch && i < maxruns; ++k, i += jobs) {
        if (now_s() - t0 > seconds) break;
        W.shm->index = i;
        W.shm->seed = run_seed(seed, g_prop->id, i);
        Ctx c(W.shm, W.shm->seed);
        run_one(W.shm, c);
        __sync_fetch_and_add(&g_stats->runs, 1);
        if (W.shm->status == 3) { __sync_fetch_and_add(&g_stats->discarded, 1); continue; }
        __sync_fetch_and_add(&g_stats->simtime_us, c.now);
        __sync_fetch_and_add(&g_stats->events, c.events);
        if (c.nfaults) __sync_fetch_and_add(&g_stats->faulty_runs, 1);
        bitmap_set(g_stats->ilv, c.ilv());
        if (c.is_nontrivial()) {
          __sync_fetch_and_add(&g_stats->nontrivial, 1);
          bitmap_set(g_stats->runsh, c.hash());
        }
        if (W.shm->status == 2) _exit(77);
      }
      _exit(0);
    }
  };
  std::vector<Result> cands;
  std::vector<uint64_t> cand_idx;
  std::map<std::string, int> classes;
  for (int w = 0; w < jobs; ++w) {
    ws[w].shm = shared<SharedRun>();
    ws[w].next = w;
    ws[w].err = g_scratch + "/w" + std::to_string(w) + ".err";
    spawn(w);
  }
  int alive = jobs;
  const size_t kMaxCand = keep_going ? 100000 : 4;
  while (alive) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = -1;
    for (int i = 0; i < jobs; ++i) if (ws[i].pid == p) w = i;
    if (w < 0) continue;
    Worker &W = ws[w];
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!ok) {
      Result r;
      collect(W.shm, r);
      r.status = 2;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { r.cls = W.shm->cls; r.msg = W.shm->msg; }
      else {
        std::string d;
        r.cls = crash_class(slurp(W.err), st, &d);
        r.msg = d;
        __sync_fetch_and_add(&g_stats->runs, 1);
      }
      ++g_stats->candidates;
      if (classes[r.cls]++ == 0 || cands.size() < kMaxCand) {
        if (keep_going && classes[r.cls] == 1) printf("[class] run %llu %s : %s\n", (unsigned long long)W.shm->index, r.cls.c_str(), r.msg.c_str());
        if (!keep_going || classes[r.cls] == 1) { cands.push_back(r); cand_idx.push_back(W.shm->index); }
      }
    }
    bool more = now_s() - t0 < seconds && (keep_going || cands.size() < 1);
    W.next = ok ? W.next + kBatch * jobs : W.shm->index + jobs;
    if (more && W.next < maxruns) spawn(w);
    else { W.pid = -1; --alive; }
  }
  double wall = now_s() - t0;
  if (keep_going)
    for (auto &k : classes) printf("%6d %s\n", k.second, k.first.c_str());

  int rc = 0;
  std::string vpath;
  uint64_t violations = 0, unrepro = 0;
  for (size_t i = 0; i < cands.size() && !keep_going; ++i) {
    // gate 1: the recorded choices fail the same way twice with the same log
    Result a = exec_tape(ex, cands[i].tape), b = exec_tape(ex, cands[i].tape);
    if (a.status != 2 || b.status != 2 || a.cls != b.cls || a.hash != b.hash) {
      ++unrepro;
      fprintf(stderr, "candidate run %llu class %s did not reproduce (%d %s / %d %s)\n", (unsigned long long)cand_idx[i],
              cands[i].cls.c_str(), a.status, a.cls.c_str(), b.status, b.cls.c_str());
      continue;
    }
    int nexec = 0;
    Result s = shrink(ex, a, shrink_s, &nexec);
    Result f = exec_tape(ex, s.tape, true);
    if (f.status != 2 || f.cls != s.cls) f = exec_tape(ex, a.tape, true);
    f.tape = f.tape.empty() ? a.tape : f.tape;
    (void)!system(("mkdir -p " + outdir).c_str());
    char nm[200];
    snprintf(nm, sizeof nm, "%s/%s-%016llx.replay", outdir.c_str(), g_prop->id, (unsigned long long)f.hash);
    write_replay(nm, *g_prop, seed, cand_idx[i], f, cands[i], nexec);
    // gate 2: a fresh process replays the file to the same violation
    std::string cmd = "'" + self + "' --replay '" + nm + "' >" + g_scratch + "/replay.out 2>&1";
    int r = system(cmd.c_str());
    if (WIFEXITED(r) && WEXITSTATUS(r) == 1) {
      ++violations;
      vpath = nm;
      printf("%s\n", f.msg.c_str());
      printf("class=%s seed=%llu run=%llu choices %zu -> %zu (%d shrink executions)\n", f.cls.c_str(), (unsigned long long)seed,
             (unsigned long long)cand_idx[i], cands[i].tape.size(), f.tape.size(), nexec);
      printf("VIOLATION property=%s replay=%s\n", g_prop->id, nm);
      rc = 1;
      break;
    }
    ++unrepro;
    fprintf(stderr, "replay of %s in a fresh process did not reproduce: %s\n", nm, slurp(g_scratch + "/replay.out").c_str());
  }
  if (!rc && unrepro) rc = 2;

  if (!evidence.empty()) {
    uint64_t distinct = bitmap_count(g_stats->runsh);
    std::ostringstream o;
    double rph = g_stats->runs / std::max(wall, 1e-3) * 3600;
    o << "{\n \"property\": \"" << g_prop->id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"" << g_prop->level << "\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << g_stats->runs << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"rule\": \""
      << jesc(g_prop->rule) << "\",\n"
      << "  \"nontrivial_runs\": " << g_stats->nontrivial << ",\n  \"runs_per_hour\": " << (uint64_t)rph
      << ",\n  \"seeds_per_hour\": " << (uint64_t)rph << ",\n  \"simulated_time_s\": " << g_stats->simtime_us / 1e6
      << ",\n  \"simulated_events\": " << g_stats->events << ",\n  \"runs_with_faults\": " << g_stats->faulty_runs
      << ",\n  \"runs_discarded\": " << g_stats->discarded << ",\n  \"distinct_states\": " << bitmap_count(g_stats->states)
      << ",\n  \"distinct_interleavings\": " << bitmap_count(g_stats->ilv)
      << ",\n  \"state_measure\": \"abstract states hashed into a 2^24-bit map by each scenario; interleavings are hashes of the executed event order\""
      << ",\n  \"unreproducible_candidates\": " << unrepro << ",\n  \"faults_injected\": {";
    bool first = true;
    std::vector<std::pair<std::string, uint64_t>> cs;
    for (uint32_t i = 0; i < g_stats->ncounters; ++i) cs.push_back({g_stats->counters[i].name, g_stats->counters[i].n});
    std::sort(cs.begin(), cs.end());
    for (auto &c : cs)
      if (c.first.compare(0, 6, "fault.") == 0) { o << (first ? "" : ", ") << "\"" << jesc(c.first.substr(6)) << "\": " << c.second; first = false; }
    o << "},\n  \"probes\": {";
    first = true;
    for (auto &c : cs)
      if (c.first.compare(0, 6, "probe.") == 0) { o << (first ? "" : ", ") << "\"" << jesc(c.first.substr(6)) << "\": " << c.second; first = false; }
    o << "},\n  \"real_components\": [";
    first = true;
    for (auto &s : g_prop->real) { o << (first ? "" : ", ") << "\"" << jesc(s) << "\""; first = false; }
    o << "],\n  \"stub_components\": [";
    first = true;
    for (auto &s : g_prop->stub) { o << (first ? "" : ", ") << "\"" << jesc(s) << "\""; first = false; }
    o << "],\n  \"samples\": [";
    // three actual runs of this batch, written out
    Stats *keep = g_stats;
    for (uint64_t i = 0; i < 3 && i < keep->runs; ++i) {
      pid_t p = fork();
      if (!p) {
        child_setup(g_scratch + "/s.err");
        g_stats = nullptr;
        Ctx c(ex, run_seed(seed, g_prop->id, i));
        c.keep_log = true;
        run_one(ex, c);
        std::ofstream l(g_scratch + "/s.log");
        l << c.log;
        l.close();
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      std::string l = slurp(g_scratch + "/s.log");
      if (l.size() > 3000) l = l.substr(0, 3000) + "...";
      o << (i ? ", " : "") << "{\"run\": " << i << ", \"seed\": " << run_seed(seed, g_prop->id, i) << ", \"log\": \"" << jesc(l) << "\"}";
    }
    o << "]\n },\n \"assumptions\": [";
    first = true;
    for (auto &s : g_prop->assumptions) { o << (first ? "" : ", ") << "\"" << jesc(s) << "\""; first = false; }
    o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    std::string tmp = evidence + ".tmp";
    { std::ofstream e(tmp); e << o.str(); }
    rename(tmp.c_str(), evidence.c_str());
  }
  printf("%s: %llu runs, %llu distinct non-trivial, %.1f s, exit %d\n", g_prop->id, (unsigned long long)g_stats->runs,
         (unsigned long long)bitmap_count(g_stats->runsh), wall, rc);
  return rc;
}
