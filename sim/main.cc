// Driver: runs many seeds of one scenario in forked processes, compares phases, checks determinism,
// shrinks and writes replay files, and reports what was covered.
#include "rt.h"
#include "scenario.h"

#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sched.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace rt { void prepare_process(); }
using namespace rt;

static double wall() {
  timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
template <class T> static T* shared_mem(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (T*)p;
}

constexpr int MAXPH = 24;
static const Scenario* SC = nullptr;
static Result* P[MAXPH];
static std::string DIR_;
static uint64_t execs = 0;

struct Decs { std::vector<uint32_t> d[NSTREAM]; };
struct RunOut {
  bool error = false;         // harness trouble
  std::string err;
  bool violated = false;
  int phase = 0, phases = 1;
  std::string kind, msg;
  std::vector<uint64_t> pcs;
  uint64_t hash = 0;
};

static void reset(Result* r) {
  r->finished = r->nphases = r->violated = r->nout = r->nvpc = r->nstat = r->overflow = 0;
  r->hash = r->sched_hash = r->work_hash = r->steps = r->switches = r->faults = r->sim_time_us = 0;
  for (auto& n : r->ndec) n = 0;
  r->nversion = r->loglen = 0;
  r->log[0] = r->vkind[0] = r->vmsg[0] = 0;
}

// returns false on harness trouble
static bool exec_phase(Config c, Result* r, RunOut& out) {
  reset(r);
  c.res = r;
  execs++;
  std::string dir = DIR_ + "/d";
  mkdir(dir.c_str(), 0700);
  c.dir = dir.c_str();
  pid_t p = fork();
  if (p < 0) { out.error = true; out.err = "fork failed"; return false; }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    child_begin(c);
    SC->run();
    child_end();
  }
  int st = 0;
  double t0 = wall();
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  while (true) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    timespec ts{1, 0};
    sigtimedwait(&ss, nullptr, &ts);
    if (wall() - t0 > 150) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      out.error = true;
      out.err = "simulated process stuck";
      return false;
    }
  }
  if (r->violated) return true;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL) { out.error = true; out.err = "simulated process was killed"; return false; }
    r->violated = 1;
    snprintf(r->vkind, sizeof r->vkind, "crash");
    snprintf(r->vmsg, sizeof r->vmsg, "process died of signal %d", WTERMSIG(st));
    r->hash = 0xdead0000 + WTERMSIG(st);
    return true;
  }
  if (!r->finished) {
    out.error = true;
    out.err = "simulated process ended early, status " + std::to_string(st);
    return false;
  }
  return true;
}
static void clean_dir() {
  std::string c = DIR_ + "/d";
  // a few small files only; remove by name
  for (const char* n : {"a.stl", "b.stl", "c.stl", "j.log", "k.log", "spec.stl", "spec2.stl", "a.stl.tmp", "b.stl.tmp", "spec.stl.tmp", "spec2.stl.tmp", "c.stl.tmp", "f0", "f1", "f2", "f3", "f0.tmp", "f1.tmp", "f2.tmp", "f3.tmp"})
    unlink((c + "/" + n).c_str());
}

static RunOut run_once(uint64_t seed, const Decs* d, bool verbose) {
  RunOut o;
  Config c;
  c.seed    = seed;
  c.verbose = verbose;
  c.replay  = d != nullptr;
  if (d) for (int s = 0; s < NSTREAM; s++) { c.dec[s] = d->d[s].data(); c.ndec[s] = d->d[s].size(); }
  clean_dir();
  if (!exec_phase(c, P[0], o)) return o;
  o.hash = P[0]->hash;
  auto take = [&](int ph) {
    o.violated = true;
    o.phase = ph;
    o.kind = P[ph]->vkind;
    o.msg  = P[ph]->vmsg;
    for (int i = 0; i < P[ph]->nvpc; i++) o.pcs.push_back(P[ph]->vpc[i]);
  };
  if (P[0]->violated) { take(0); return o; }
  int n = std::min(P[0]->nphases, MAXPH - 1);
  for (int ph = 1; ph <= n; ph++) {
    Config e;
    e.seed    = seed;
    e.replay  = true;
    e.verbose = verbose;
    e.phase   = ph;
    e.phase0  = P[0];
    e.dec[W]  = P[0]->dec[W];
    e.ndec[W] = P[0]->ndec[W];
    clean_dir();
    if (!exec_phase(e, P[ph], o)) return o;
    o.phases++;
    o.hash = mix64(o.hash ^ P[ph]->hash);
    if (P[ph]->violated) { take(ph); return o; }
    for (int i = 0; i < P[ph]->nout; i++) {
      Outcome& b = P[ph]->out[i];
      if (!(b.flags & 1)) continue;
      for (int j = 0; j < P[0]->nout; j++) {
        Outcome& a = P[0]->out[j];
        if (a.op != b.op || !(a.flags & 1)) continue;
        if (a.hash != b.hash && !o.violated) {
          o.violated = true;
          o.phase = ph;
          o.kind = "outcome-differs";
          o.msg = "call " + std::to_string(a.op) + " gave [" + a.text + "] in the simulated run but [" + b.text + "] when made on its own";
        }
        break;
      }
    }
    if (o.violated) return o;
  }
  return o;
}

// ------------------------------------------------------------------ aggregation
struct Agg {
  uint64_t runs, execs, steps, max_steps, switches, faults, sim_us, overflow, reruns, mismatches, multi;
  int nstat;
  Stat stat[MAX_STAT];
  uint64_t statruns[MAX_STAT];
  uint64_t nh;
  uint64_t hs[1 << 20];
  // first violation of this worker
  int violated;
  uint64_t vrun;
  int error;
  char err[256];
  char mism[256];
  uint64_t known_hits;
  char known_msg[8][512];
};
static void agg_add(Agg* a, const RunOut& o) {
  a->runs++;
  for (int ph = 0; ph < o.phases; ph++) {
    Result* r = P[ph];
    a->steps += r->steps;
    a->max_steps = std::max(a->max_steps, r->steps);
    a->overflow += r->overflow;
    if (ph == 0) { a->switches += r->switches; a->faults += r->faults; a->sim_us += r->sim_time_us; a->multi += r->switches > 2; }
    for (int i = 0; i < r->nstat; i++) {
      int j = 0;
      while (j < a->nstat && strcmp(a->stat[j].name, r->stat[i].name)) j++;
      if (j == a->nstat) {
        if (a->nstat == MAX_STAT) continue;
        a->stat[a->nstat] = r->stat[i];
        a->stat[a->nstat].n = 0;
        a->statruns[a->nstat] = 0;
        a->nstat++;
      }
      a->stat[j].n += r->stat[i].n;
      a->statruns[j]++;
    }
  }
  if (a->nh < (1 << 20)) a->hs[a->nh++] = mix64(P[0]->sched_hash * 31 + P[0]->work_hash * 7 + (P[0]->switches ? 1 : P[0]->hash));
}

static uint64_t BASE = 1;
static uint64_t run_seed(uint64_t i) { return mix64(mix64(BASE) ^ mix64(i * 2 + 1) ^ (uint64_t)(SC->id[1] * 256 + SC->id[2])); }

// ------------------------------------------------------------------ known findings
struct Known { std::string kind, text; };
static std::vector<Known> known;
static bool is_known(const RunOut& o) {
  for (auto& k : known)
    if (o.kind == k.kind && o.msg.find(k.text) != std::string::npos) return true;
  return false;
}

static void worker(int w, int J, uint64_t runs, double deadline, Agg* a, volatile int* stop, bool det) {
  cpu_set_t cs;
  CPU_ZERO(&cs);
  int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  CPU_SET(w % (ncpu > 0 ? ncpu : 1), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  DIR_ += std::string("/w") + char('0' + w / 10) + char('0' + w % 10);
  mkdir(DIR_.c_str(), 0700);
  for (auto& p : P) p = shared_mem<Result>();
  uint64_t last_execs = 0;
  for (uint64_t i = w; i < runs && wall() < deadline && !*stop; i += J) {
    RunOut o = run_once(run_seed(i), nullptr, false);
    if (o.error) {
      a->error = 1;
      snprintf(a->err, sizeof a->err, "run %" PRIu64 ": %s", i, o.err.c_str());
      *stop = 1;
      return;
    }
    agg_add(a, o);
    if (det || i % 61 == 7) {
      uint64_t h = o.hash;
      RunOut o2 = run_once(run_seed(i), nullptr, false);
      a->reruns++;
      if (o2.error || o2.hash != h || o2.violated != o.violated) {
        a->mismatches++;
        snprintf(a->mism, sizeof a->mism, "run %" PRIu64 " seed %" PRIu64 " gave different histories when repeated", i, run_seed(i));
      }
      o = o2;
    }
    if (o.violated && !is_known(o)) {            // only a history that repeats is a candidate
      RunOut o2 = run_once(run_seed(i), nullptr, false);
      a->reruns++;
      if (o2.error || o2.hash != o.hash || !o2.violated || o2.kind != o.kind) {
        a->mismatches++;
        snprintf(a->mism, sizeof a->mism, "run %" PRIu64 " seed %" PRIu64 " failed (%s) and then gave a different history when repeated", i, run_seed(i), o.kind.c_str());
        continue;
      }
    }
    if (o.violated) {
      if (is_known(o)) {
        if (a->known_hits < 8) snprintf(a->known_msg[a->known_hits], 512, "%s: %s", o.kind.c_str(), o.msg.c_str());
        a->known_hits++;
        continue;
      }
      a->violated = 1;
      a->vrun = i;
      *stop = 1;
      a->execs = execs;
      return;
    }
    a->execs = execs;
    (void)last_execs;
  }
  a->execs = execs;
}

// ------------------------------------------------------------------ shrinking
static Decs recorded() {
  Decs d;
  for (int s = 0; s < NSTREAM; s++) {
    d.d[s].assign(P[0]->dec[s], P[0]->dec[s] + P[0]->ndec[s]);
    while (!d.d[s].empty() && d.d[s].back() == 0) d.d[s].pop_back();
  }
  return d;
}
static size_t weight(const Decs& d) {
  size_t n = 0;
  for (auto& v : d.d) for (auto x : v) n += 2 + (x ? 1 : 0);
  return n;
}
static Decs shrink(uint64_t seed, Decs best, const std::string& kind, double budget, uint64_t& tries) {
  double end = wall() + budget;
  auto test = [&](const Decs& c) -> bool {
    if (wall() > end) return false;
    tries++;
    RunOut o = run_once(seed, &c, false);
    if (o.error || !o.violated || o.kind != kind || is_known(o)) return false;
    Decs n = recorded();
    size_t a = weight(n), b = weight(best);
    uint64_t sa = 0, sb = 0;
    for (auto& v : n.d) for (auto x : v) sa += x;
    for (auto& v : best.d) for (auto x : v) sb += x;
    if (a > b || (a == b && sa >= sb)) return false;
    best = n;
    return true;
  };
  const int order[] = {S, F, W};
  for (int s : {S, F}) { Decs c = best; c.d[s].clear(); test(c); }
  bool progress = true;
  while (progress && wall() < end) {
    size_t w0 = weight(best);
    for (int s : order) {
      for (size_t k = best.d[s].size() / 2; k > 0; k /= 2) {       // truncate
        Decs c = best;
        if (c.d[s].size() > k) { c.d[s].resize(c.d[s].size() - k); test(c); }
      }
      for (size_t len = 64; len >= 1; len /= 2) {                    // delete blocks
        for (size_t i = 0; i + len <= best.d[s].size();) {
          Decs c = best;
          c.d[s].erase(c.d[s].begin() + i, c.d[s].begin() + i + len);
          if (!test(c)) i += len;
          if (wall() > end) break;
        }
      }
      for (size_t len = 32; len >= 1; len /= 2)                      // zero blocks
        for (size_t i = 0; i + len <= best.d[s].size(); i += len) {
          Decs c = best;
          bool any = false;
          for (size_t j = i; j < i + len; j++) { any |= c.d[s][j] != 0; c.d[s][j] = 0; }
          if (any) test(c);
          if (wall() > end) break;
        }
      for (size_t i = 0; i < best.d[s].size() && wall() < end; i++)  // smaller numbers
        while (i < best.d[s].size() && best.d[s][i] > 1 && wall() < end) {
          Decs c = best;
          c.d[s][i] /= 2;
          if (!test(c)) {
            c = best;
            c.d[s][i]--;
            if (best.d[s][i] > 64 || !test(c)) break;
          }
        }
    }
    progress = weight(best) < w0;
  }
  return best;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static bool write_replay(const std::string& path, uint64_t seed, uint64_t run, const RunOut& o, const Decs& d, const char* extra, bool by_seed) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return false;
  std::string m = o.msg;
  for (char& c : m) if (c == '\n') c = ' ';
  fprintf(f, "replay 1\nproperty %s\nbase %" PRIu64 "\nrun %" PRIu64 "\nseed %" PRIu64 "\nkind %s\nhash %016" PRIx64 "\nphase %d\nmessage %s\n", SC->id, BASE, run, seed,
          o.kind.c_str(), o.hash, o.phase, m.c_str());
  fprintf(f, "pcs");
  for (auto p : o.pcs) fprintf(f, " %" PRIx64, p);
  fprintf(f, "\n");
  if (by_seed) fprintf(f, "mode seed\n");
  else for (int s = 0; s < NSTREAM; s++) {
    fprintf(f, "%c %zu", "WFS"[s], d.d[s].size());
    for (auto v : d.d[s]) fprintf(f, " %u", v);
    fprintf(f, "\n");
  }
  fprintf(f, "# %s\n# trace of the minimised run (phase %d):\n", extra, o.phase);
  for (const char *p = P[o.phase]->log, *e; *p; p = e + 1) {
    e = strchr(p, '\n');
    if (!e) break;
    fprintf(f, "#   %.*s\n", (int)(e - p), p);
  }
  fclose(f);
  return true;
}

static int do_replay(const char* path, bool quiet) {
  FILE* f = fopen(path, "r");
  if (!f) { fprintf(stderr, "cannot read %s\n", path); return 2; }
  std::string prop, kind, msg;
  uint64_t seed = 0, hash = 0;
  Decs d;
  bool by_seed = false;
  char* line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    if (line[0] == '#') continue;
    line[strcspn(line, "\n")] = 0;
    char* sp = strchr(line, ' ');
    if (!sp) continue;
    std::string key(line, sp - line);
    char* v = sp + 1;
    if (key == "property") prop = v;
    else if (key == "mode") by_seed = !strcmp(v, "seed");
    else if (key == "kind") kind = v;
    else if (key == "message") msg = v;
    else if (key == "seed") seed = strtoull(v, nullptr, 10);
    else if (key == "hash") hash = strtoull(v, nullptr, 16);
    else if (key == "W" || key == "F" || key == "S") {
      int s = key == "W" ? W : key == "F" ? F : S;
      char* e;
      size_t n = strtoull(v, &e, 10);
      for (size_t i = 0; i < n; i++) d.d[s].push_back(strtoul(e, &e, 10));
    }
  }
  fclose(f);
  for (int i = 0; i < nscenarios; i++) if (prop == scenarios[i].id) SC = &scenarios[i];
  if (!SC) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  for (auto& p : P) p = shared_mem<Result>();
  RunOut o = run_once(seed, by_seed ? nullptr : &d, true);
  if (!quiet) for (int ph = 0; ph < o.phases; ph++) printf("---- phase %d\n%s", ph, P[ph]->log);
  if (o.error) { fprintf(stderr, "replay error: %s\n", o.err.c_str()); return 2; }
  if (!o.violated) { printf("replay: no violation (recorded: %s)\n", kind.c_str()); return 0; }
  printf("replay: %s: %s\n", o.kind.c_str(), o.msg.c_str());
  if (o.kind != kind || o.hash != hash) {
    printf("replay: history differs from the recorded one (kind %s, hash %016" PRIx64 " against %016" PRIx64 ")\n", kind.c_str(), o.hash, hash);
    return 2;
  }
  printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
  return 1;
}

int main(int argc, char** argv) {
  // fixed address layout: re-execute once without randomisation
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::string out, replay_in, replay_out, dir, knownf;
  uint64_t runs = 1000;
  double cap = 60, shrink_s = 60;
  int jobs = 8;
  bool det = false, verbose = false, quiet = false;
  long one = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") { std::string id = next(); for (int k = 0; k < nscenarios; k++) if (id == scenarios[k].id) SC = &scenarios[k]; }
    else if (a == "--seed") BASE = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--shrink") shrink_s = atof(next().c_str());
    else if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--dir") dir = next();
    else if (a == "--out") out = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--replay") replay_in = next();
    else if (a == "--known") knownf = next();
    else if (a == "--double") det = true;
    else if (a == "--one") one = atol(next().c_str());
    else if (a == "--verbose") verbose = true;
    else if (a == "--quiet") quiet = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (dir.empty()) { fprintf(stderr, "--dir needed\n"); return 2; }
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, nullptr);
  rt::prepare_process();
  DIR_ = dir;
  if (!knownf.empty())
    if (FILE* f = fopen(knownf.c_str(), "r")) {   // tab-separated: kind, text
      char* line = nullptr;
      size_t c = 0;
      while (getline(&line, &c, f) > 0) {
        line[strcspn(line, "\n")] = 0;
        if (char* t = strchr(line, '\t')) known.push_back({std::string(line, t - line), t + 1});
      }
      fclose(f);
    }
  if (!replay_in.empty() || one >= 0) {
    DIR_ = dir + "/m00";
    mkdir(DIR_.c_str(), 0700);
  }
  if (!replay_in.empty()) return do_replay(replay_in.c_str(), quiet);
  if (!SC) { fprintf(stderr, "unknown property\n"); return 2; }
  if (one >= 0) {
    for (auto& p : P) p = shared_mem<Result>();
    RunOut o = run_once(run_seed(one), nullptr, true);
    for (int ph = 0; ph < o.phases; ph++) {
      printf("---- phase %d steps %" PRIu64 " switches %" PRIu64 " dec %u/%u/%u outcomes %d\n%s", ph, P[ph]->steps, P[ph]->switches, P[ph]->ndec[0], P[ph]->ndec[1], P[ph]->ndec[2], P[ph]->nout, P[ph]->log);
      if (verbose) for (int i = 0; i < P[ph]->nout; i++) printf("   out %d: %s\n", P[ph]->out[i].op, P[ph]->out[i].text);
      for (int i = 0; i < P[ph]->nstat; i++) printf("   stat %s %" PRIu64 "\n", P[ph]->stat[i].name, P[ph]->stat[i].n);
    }
    if (o.error) printf("ERROR %s\n", o.err.c_str());
    if (o.violated) { printf("violated %s: %s\n", o.kind.c_str(), o.msg.c_str()); for (auto p : o.pcs) printf(" %" PRIx64, p); printf("\n"); }
    return 0;
  }

  double t0 = wall();
  Agg* aggs = shared_mem<Agg>(jobs);
  volatile int* stop = shared_mem<int>();
  std::vector<pid_t> ws;
  for (int w = 0; w < jobs; w++) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      worker(w, jobs, runs, t0 + cap, &aggs[w], stop, det);
      _exit(0);
    }
    ws.push_back(p);
  }
  bool err = false;
  std::string errmsg;
  for (int w = 0; w < jobs; w++) {
    int st;
    waitpid(ws[w], &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { err = true; errmsg = "worker died, status " + std::to_string(st); }
    if (aggs[w].error) { err = true; errmsg = aggs[w].err; }
  }
  double t_search = wall() - t0;
  // merge
  uint64_t R_ = 0, ex = 0, steps = 0, longest = 0, sw = 0, fl = 0, simus = 0, ovf = 0, rer = 0, mis = 0, mult = 0, kh = 0;
  std::map<std::string, std::pair<uint64_t, uint64_t>> st;
  std::unordered_set<uint64_t> hs;
  std::vector<uint64_t> cands;
  uint64_t vrun = 0;
  std::string mism, kmsg;
  for (int w = 0; w < jobs; w++) {
    Agg& a = aggs[w];
    if (a.violated) cands.push_back(a.vrun);
    R_ += a.runs; ex += a.execs; steps += a.steps; longest = std::max(longest, a.max_steps); sw += a.switches; fl += a.faults; simus += a.sim_us; ovf += a.overflow; rer += a.reruns; mis += a.mismatches; mult += a.multi; kh += a.known_hits;
    if (a.known_hits && kmsg.empty()) kmsg = a.known_msg[0];
    if (a.mismatches) mism = a.mism;
    for (int i = 0; i < a.nstat; i++) { auto& e = st[a.stat[i].name]; e.first += a.stat[i].n; e.second += a.statruns[i]; }
    for (uint64_t i = 0; i < a.nh; i++) hs.insert(a.hs[i]);
  }
  std::sort(cands.begin(), cands.end());
  for (auto& p : P) p = shared_mem<Result>();
  DIR_ = dir + "/m00";
  mkdir(DIR_.c_str(), 0700);
  bool viol = false, vconf = false;
  RunOut vo;
  Decs vd;
  uint64_t tries = 0, orig_w = 0;
  std::string verr;
  for (uint64_t cand : cands) {
    if (vconf) break;
    viol = true;
    vrun = cand;
    uint64_t seed = run_seed(vrun);
    RunOut a = run_once(seed, nullptr, false);
    Decs d0 = recorded();
    bool ovf1 = P[0]->overflow;
    RunOut b = run_once(seed, nullptr, false);
    char ex2[256];
    if (a.error || b.error || !a.violated || !b.violated || a.hash != b.hash || a.kind != b.kind) verr = "violation did not repeat under the same seed";
    else if (ovf1) {                              // too long to record: the seed itself is the trace
      vo = run_once(seed, nullptr, true);
      vd = Decs();
      if (!vo.violated || vo.kind != a.kind || vo.hash != a.hash) { verr = "violation did not repeat under the same seed"; continue; }
      vconf = write_replay(replay_out, seed, vrun, vo, vd, "not minimised: more decisions than can be recorded; replayed from its seed", true);
      if (!vconf) verr = "cannot write replay file";
    } else {
      RunOut c = run_once(seed, &d0, false);
      if (!c.violated || c.kind != a.kind || c.hash != a.hash) { verr = "violation did not repeat from its recorded decisions"; continue; }
      orig_w = weight(d0);
      vd = shrink(seed, d0, a.kind, shrink_s, tries);
      vo = run_once(seed, &vd, true);
      if (!vo.violated || vo.kind != a.kind) { verr = "minimised run does not fail"; continue; }
      snprintf(ex2, sizeof ex2, "minimised from weight %" PRIu64 " to %zu in %" PRIu64 " tries", orig_w, weight(vd), tries);
      vconf = write_replay(replay_out, seed, vrun, vo, vd, ex2, false);
      if (!vconf) verr = "cannot write replay file";
    }
  }
  // samples: three runs written out
  std::vector<std::string> samples;
  if (!viol && !err)
    for (int i = 0; i < 3; i++) {
      RunOut o = run_once(run_seed(i * 5 + 1), nullptr, true);
      std::string s = "run " + std::to_string(i * 5 + 1) + " seed " + std::to_string(run_seed(i * 5 + 1)) + " phases " + std::to_string(o.phases) + " steps " + std::to_string(P[0]->steps) + " switches " + std::to_string(P[0]->switches) + " faults " + std::to_string(P[0]->faults) + "\n" + std::string(P[0]->log).substr(0, 1800);
      samples.push_back(s);
    }
  double t_total = wall() - t0;
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"property\":%s,\"runs\":%" PRIu64 ",\"executions\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"longest_steps\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"faults\":%" PRIu64 ",\"sim_time_us\":%" PRIu64 ",\"distinct\":%zu,\"multi_switch_runs\":%" PRIu64 ",\"overflow\":%" PRIu64 ",\"reruns\":%" PRIu64 ",\"mismatches\":%" PRIu64 ",\"search_s\":%.3f,\"wall_s\":%.3f,\"jobs\":%d,\"known_hits\":%" PRIu64 ",\"known_msg\":%s,\n",
            jstr(SC->id).c_str(), R_, ex, steps, longest, sw, fl, simus, hs.size(), mult, ovf, rer, mis, t_search, t_total, jobs, kh, jstr(kmsg).c_str());
    fprintf(f, "\"stats\":{");
    bool first = true;
    for (auto& [k, v] : st) { fprintf(f, "%s%s:[%" PRIu64 ",%" PRIu64 "]", first ? "" : ",", jstr(k).c_str(), v.first, v.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(f, "],\n\"violation\":");
    if (viol) {
      fprintf(f, "{\"confirmed\":%s,\"error\":%s,\"run\":%" PRIu64 ",\"kind\":%s,\"message\":%s,\"tries\":%" PRIu64 ",\"pcs\":[", vconf ? "true" : "false", jstr(verr).c_str(), vrun, jstr(vo.kind).c_str(), jstr(vo.msg).c_str(), tries);
      for (size_t i = 0; i < vo.pcs.size(); i++) fprintf(f, "%s\"%" PRIx64 "\"", i ? "," : "", vo.pcs[i]);
      fprintf(f, "]}");
    } else fprintf(f, "null");
    fprintf(f, ",\n\"error\":%s,\"mismatch\":%s}\n", err ? jstr(errmsg).c_str() : "null", mis ? jstr(mism).c_str() : "null");
    fclose(f);
  }
  printf("%s: %" PRIu64 " runs, %" PRIu64 " executions, %zu distinct, %" PRIu64 " faults, longest %.1f M steps, %.1f s search, %.1f s in all\n", SC->id, R_, ex, hs.size(), fl, longest / 1e6, t_search, t_total);
  if (err) { printf("error: %s\n", errmsg.c_str()); return 2; }
  if (mis && !vconf) { printf("error: not deterministic: %s\n", mism.c_str()); return 2; }
  if (viol) {
    if (!vconf) { printf("error: %s\n", verr.c_str()); return 2; }
    printf("%s: %s\n", vo.kind.c_str(), vo.msg.c_str());
    return 1;
  }
  return 0;
}
