// C17: the work of a call, counted in memory accesses.
#include "world.h"
#include <algorithm>
#include <cmath>

namespace w {
using namespace signal_tl;

namespace {
// The same few samples again and again: whatever they give, they give it proportionally.
struct Pattern {
  std::vector<std::pair<double, double>> s;
  double len = 0;
};
Pattern gen_pattern(int k) {
  Pattern p;
  for (int i = 0; i < k; i++) {
    p.s.push_back({p.len, quarter(24)});
    p.len += (1 + choose(W, 8)) / 4.0;
  }
  return p;
}
SigData repeat(const Pattern& p, int n) {
  SigData d;
  for (int i = 0; i < n; i++) d.push_back({p.s[i % p.s.size()].first + p.len * (i / (int)p.s.size()), p.s[i % p.s.size()].second});
  return d;
}
enum Kind { APPEND, COPY, CONSTRUCT, ITERATE, RESIZE, SHIFT, RSHIFT, SIMPLIFY, SYNC, PRINT_SIG, EVAL, PARSE, PARSE_FILE, PARSE_BAD, COMBINE, PRINT, LOOKUP, TALL_EVAL, TALL_PARSE, TALL_PRINT, TALL_BUILD, NKIND };
const char* kind_name[] = {"appending", "copying a signal", "constructing a signal", "reading a signal", "resizing", "shifting", "resizing and shifting",
                           "simplifying", "synchronizing", "printing a signal", "evaluating a formula", "parsing", "loading a file", "parsing malformed text",
                           "joining formulas", "printing a formula", "looking up",
                           "evaluating a tall formula", "parsing a tall formula", "printing a tall formula", "building a tall formula"};
struct Job {
  int kind = 0;
  Pattern a, b;
  MP m;
  std::vector<MP> ms;
  std::string pre, unit, post;      // text = pre + unit * n + post
  int reject = 0;                   // rejected or failed appends per accepted one
  double r = 0, d = 0;
  int at = 0;
  bool left = false;                // the tall side of binary operators
};
Job gen_job() {
  Job j;
  j.kind = choose(W, NKIND);
  j.a = gen_pattern(2 + choose(W, 12));
  j.b = gen_pattern(2 + choose(W, 12));
  j.r = quarter(8);
  j.d = quarter(8);
  j.at = choose(W, 1000);
  j.reject = choose(W, 3);
  GenOpts fo;
  fo.names = {"x", "y"};
  fo.depth = choose(W, 4);
  fo.until = true;
  fo.shared = false;
  if (j.kind == EVAL) j.m = gen_formula(fo);
  if (j.kind >= TALL_EVAL) {
    fo.depth = 0;
    fo.consts = false;
    fo.nonneg = j.kind == TALL_PARSE;
    j.m = gen_formula(fo);
    int k = 1 + choose(W, 3);
    for (int i = 0; i < k; i++) {
      static const M::K ks[] = {M::NOT, M::G, M::F, M::AND, M::OR, M::U, M::IMPL};
      auto m = std::make_shared<M>();
      m->k = ks[choose(W, 7)];
      m->a = {gen_formula(fo)};
      j.ms.push_back(m);
    }
    j.left = choose(W, 2);
  }
  if (j.kind == COMBINE || j.kind == PRINT) {
    int k = 1 + choose(W, 4);
    fo.depth = choose(W, 3);
    fo.consts = false;
    for (int i = 0; i < k; i++) j.ms.push_back(gen_formula(fo));
  }
  if (j.kind == PARSE || j.kind == PARSE_FILE || j.kind == PARSE_BAD) {
    fo.depth = choose(W, 3);
    fo.nonneg = true;
    switch (choose(W, 4)) {
      case 0: j.unit = "@"; break;                      // commands, with their own names
      case 1: j.pre = "(define-formula p (and"; j.unit = " " + render(gen_formula(fo), 0); j.post = "))"; break;
      case 2: j.pre = "(define-formula p true)"; j.unit = choose(W, 2) ? "      \n" : "; a comment\n"; break;
      default: j.pre = "(define-formula p (> x 1))(define-formula q (or"; j.unit = " p"; j.post = " (< x 0)))"; break;
    }
    if (j.unit == "@") j.unit += render(gen_formula(fo), 0);
    if (j.kind == PARSE_BAD) j.post += choose(W, 2) ? "(assert p" : ") (define-formula";
  }
  return j;
}
std::string text_of(const Job& j, int n) {
  std::string t = j.pre;
  for (int i = 0; i < n; i++) {
    if (j.unit[0] == '@') {
      char nm[24];
      snprintf(nm, sizeof nm, "f%05d", i * 7919 % 100000);
      t += "(define-formula " + std::string(nm) + " " + j.unit.substr(1) + ")\n";
    } else t += j.unit;
  }
  return t + j.post;
}
// n levels, the same few operators again and again
MP tower(const Job& j, int n) {
  MP m = j.m;
  for (int i = 0; i < n; i++) {
    const MP& o = j.ms[i % j.ms.size()];
    auto u = std::make_shared<M>();
    u->k = o->k;
    if (o->k == M::NOT || o->k == M::G || o->k == M::F) u->a = {m};
    else if (j.left) u->a = {m, o->a[0]};
    else u->a = {o->a[0], m};
    m = u;
  }
  return m;
}
// The work of one job of size n.
uint64_t work_of(const Job& j, int n) {
  int len = j.kind >= TALL_EVAL ? 24 : n;
  SigData da = repeat(j.a, len), db = repeat(j.b, len);
  MP tall = j.kind >= TALL_EVAL ? tower(j, n) : nullptr;
  for (auto& p : db) p.first *= da.back().first / db.back().first;   // the same length
  SignalPtr a, b, r, r2;
  Trace tr;
  Expr e{ast::Const{false}};
  std::string text, out;
  std::vector<double> ts, vs;
  std::vector<Expr> parts;
  Specification spec;
  std::string failed;
  uint64_t w0 = 0, w1 = 0;
  switch (j.kind) {
    case APPEND: break;
    case CONSTRUCT: for (auto& p : da) { ts.push_back(p.first); vs.push_back(p.second); } break;
    case PARSE: case PARSE_BAD: text = text_of(j, n); break;
    case TALL_PARSE: text = "(assert p " + render(tall, 0) + ")"; break;
    case PARSE_FILE: disk_write("big.stl", text_of(j, n)); text = disk_path("big.stl"); break;
    default: {
      Call c;
      a = make_signal(da);
      b = make_signal(db);
      tr["x"] = a;
      tr["y"] = b;
      std::map<const M*, Expr> memo;
      if (tall && j.kind != TALL_BUILD) e = build(tall, memo);
      else if (j.m) e = build(j.m, memo);
      if (j.kind == COMBINE || j.kind == PRINT)
        for (int i = 0; i < n; i++) { memo.clear(); parts.push_back(build(j.ms[i % j.ms.size()], memo)); }
      if (j.kind == COMBINE || j.kind == PRINT) { e = parts[0]; for (size_t i = 1; i < parts.size(); i++) e = (j.at & 1) ? e & parts[i] : e | parts[i]; }
    }
  }
  double T = da.back().first;
  try {
    Call c;
    w0 = work_done();
    switch (j.kind) {
      case APPEND: {
        a = std::make_shared<Signal>();
        for (auto& p : da) {
          a->push_back(p.first, p.second);
          for (int i = 0; i < j.reject; i++) try { a->push_back(p.first - 0.25 * i, p.second); } catch (const std::exception&) {}
        }
        break;
      }
      case COPY: r = std::make_shared<Signal>(*a); break;
      case CONSTRUCT: r = std::make_shared<Signal>(vs, ts); break;
      case ITERATE: { double s = 0; for (auto& x : *a) s += x.value; for (auto i = a->rbegin(); i != a->rend(); ++i) s += i->time; out = s == 0.125 ? "x" : ""; break; }
      case RESIZE: r = a->resize(-1, T * 0.9 + 1, j.r); break;
      case SHIFT: r = a->shift(j.d); break;
      case RSHIFT: r = a->resize_shift(-1, T * 0.9 + 1, j.r, j.d); break;
      case SIMPLIFY: r = a->simplify(); break;
      case SYNC: std::tie(r, r2) = signal::synchronize(a, b); break;
      case PRINT_SIG: out = fmt::to_string(*a); break;
      case EVAL: case TALL_EVAL: r = semantics::compute_robustness(e, tr); break;
      case PARSE: case PARSE_BAD: case TALL_PARSE: spec = *parser::from_string(text); break;
      case PARSE_FILE: spec = *parser::from_file(text); break;
      case COMBINE: if (j.at & 2) e = (j.at & 1) ? e & parts[0] : e | parts[0]; else e = (j.at & 1) ? parts[0] & e : parts[0] | e; break;
      case TALL_BUILD: { std::map<const M*, Expr> memo; e = build(tall, memo); break; }
      case PRINT: case TALL_PRINT: out = fmt::to_string(e); break;
      case LOOKUP: { Sample s = a->at(T * j.at / 1000.0); auto i = a->begin_at(T * j.at / 2000.0), k = a->end_at(T * j.at / 1000.0); out = s.value == 0.125 && i == k ? "x" : ""; break; }
    }
    w1 = work_done();
  } catch (...) {
    w1 = work_done();
    leave_call();
    failed = current_exception_text();
  }
  { Call c; a = b = r = r2 = nullptr; tr.clear(); parts.clear(); e = Expr{ast::Const{false}}; spec = Specification{}; std::string().swap(text); std::string().swap(out); }
  if (!failed.empty() && j.kind != PARSE_BAD) violation("failed", "%s failed: %.300s", kind_name[j.kind], failed.c_str());
  return w1 - w0;
}
} // namespace

// Growth: four times the input must not take much more than four times the work.
static void growth() {
  int nj = 1 + choose(W, 3);
  for (int i = 0; i < nj; i++) {
    Job j = gen_job();
    int n = 40 + choose(W, 60), k = 4;
    bool text = j.kind == PARSE || j.kind == PARSE_FILE || j.kind == PARSE_BAD || j.kind == COMBINE || j.kind == PRINT;
    if (text) { n = 24 + choose(W, 24); if (flip(W, 4)) k = 12; }
    else if (j.kind == EVAL) { n = 32 + choose(W, 16); if (flip(W, 3)) k = 12; }
    else if (j.kind >= TALL_EVAL) n = 5 + choose(W, 5);
    else if (j.kind == LOOKUP) n = 150 + choose(W, 100);
    else if (flip(W, 3)) k = 12;
    uint64_t w1 = work_of(j, n), w4 = work_of(j, k * n);
    log("%s: %llu steps for %d, %llu for %d (%s %s)", kind_name[j.kind], (unsigned long long)w1, n, (unsigned long long)w4, k * n, j.m ? mtext(j.m).c_str() : "", j.unit.c_str());
    work_hash(hash_text(kind_name[j.kind]) + w1 * 31 + w4);
    stat("sizes compared");
    // each level may leave more samples for the next one: a tall formula may take quadratic work
    uint64_t limit = j.kind == LOOKUP ? 2 * w1 + 300 : j.kind == TALL_EVAL ? 24 * w1 + 3000 : 2 * k * w1 + 3000;
    if (w4 > limit)
      violation("superlinear", "%s: %llu memory accesses for size %d, %llu for size %d%s%s", kind_name[j.kind], (unsigned long long)w1, n, (unsigned long long)w4, k * n,
                j.m ? ", formula " : "", j.m ? mtext(j.m).c_str() : "");
  }
}
// A call nobody made before: other names, other values, other texts each time.
static void foreign(int u, int theme) {
  char nm[32];
  snprintf(nm, sizeof nm, "%c%05d", 'a' + int(u * 7 % 26), u * 7919 % 100000);
  std::string id = nm;
  if (u % 5 == 0) id += "_and_some_more_letters";
  int what = theme < 7 ? theme : choose(W, 7);
  CallOpts co;
  if (flip(F, 4)) co.oom_at = choose(F, 40);
  std::string text, file;
  switch (what) {
    case 0: text = "(define-formula " + id + " (and (> x " + std::to_string(u) + ") (< y " + std::to_string(u) + ")))"; break;
    case 1: text = "(define-formula " + id + " (and (> x " + std::to_string(u) + ")"; break;
    case 2: text = "(assert p " + id + ")"; break;
    case 3: disk_write("foreign.stl", "(assert " + id + " (> x " + std::to_string(u) + "))"); file = disk_path(choose(W, 2) ? "foreign.stl" : (id + ".stl").c_str()); break;
  }
  try {
    Call c(co);
    if (what <= 2) parser::from_string(text);
    else if (what == 3) parser::from_file(file);
    else {
      auto x = std::make_shared<Signal>();
      for (int i = 0; i < 4; i++) x->push_back(u + i, (u * 31 + i * 7) % 5 - 2);
      if (what == 4) x->push_back(u, 1);
      else if (what == 5) x->at(u - 1 + 2.5 * (u % 2));
      else {
        Expr e = ast::Predicate(id) > u * 0.25;
        Trace tr{{id, x}};
        semantics::compute_robustness(~e, tr);
        fmt::to_string(e);
      }
    }
  } catch (const std::exception&) { leave_call(); }
}
// Age: the same calls, again and again, with failures in between.
static void ageing() {
  int no = 1 + choose(W, 3);
  std::vector<Op> ops;
  std::vector<std::unique_ptr<Inst>> in;
  OpGen og;
  for (int i = 0; i < no; i++) {
    ops.push_back(gen_op(og));
    ops.back().file = "age" + std::to_string(i) + ".stl";
  }
  bool fresh = flip(W, 2);             // new objects in each round, or long-lived ones
  int rounds = 12 + choose(W, 40), others = choose(W, 3) ? choose(W, 14) : 0, u = choose(W, 1000);
  int theme = choose(W, 14);          // what the other calls are: one of seven, or a mix
  if (others && flip(W, 2)) { rounds = 9 + choose(W, 8); others = 30 + choose(W, 60); }   // or a lot of them
  std::vector<std::vector<uint64_t>> w(no);
  std::vector<std::string> first(no);
  for (auto& o : ops) { if (o.kind == Op::PARSE_FILE) disk_write(o.file.c_str(), o.text); in.push_back(std::make_unique<Inst>(o)); in.back()->prepare(); log("op %s", o.describe().c_str()); work_hash(hash_text(o.describe())); }
  for (int r = 0; r < rounds; r++) {
    if (r > 2) for (int k = 0; k < others; k++) { foreign(u++, theme); stat("other calls in between"); }
    for (int i = 0; i < no; i++) {
      if (fresh && r) { in[i] = std::make_unique<Inst>(ops[i]); in[i]->prepare(); }
      bool faulty = r > 2 && r < rounds - 3 && flip(F, 3);
      CallOpts co;
      IoPlan pl;
      if (faulty) {
        if (ops[i].kind == Op::PARSE_FILE && choose(F, 2)) {
          pl.n = 1;
          pl.ev[0] = choose(F, 8);
          pl.what[0] = choose(F, 2) ? IO_FAIL : choose(F, 2) ? IO_EINTR : IO_SHORT;
          pl.err[0] = pl.what[0] == IO_EINTR ? EINTR : EIO;
          io_arm(pl);
        } else { co.oom_at = choose(F, 60); co.oom_persist = choose(F, 2); }
      }
      if (ops[i].kind == Op::PUSH && !fresh) { in[i] = std::make_unique<Inst>(ops[i]); in[i]->prepare(); }
      uint64_t a = work_done();
      in[i]->call(co);
      uint64_t b = work_done() - a;
      if (pl.n) io_disarm();
      if (faulty) {
        if (b > 4 * (*std::max_element(w[i].begin(), w[i].end())) + 6000)
          violation("fault-work", "a call that met a fault took %llu memory accesses, without faults it takes %llu: %.300s", (unsigned long long)b, (unsigned long long)w[i][0], ops[i].describe().c_str());
        stat("calls with faults in between");
      } else w[i].push_back(b);
      in[i]->drop_result();
    }
  }
  for (int i = 0; i < no; i++) {
    auto& v = w[i];
    auto least = [&](size_t e) { return std::min({v[e - 1], v[e - 2], v[e - 3]}); };
    uint64_t early = std::max({v[0], v[1], v[2]}), mid = least(v.size() / 2 + 1), late = least(v.size());
    log("op %d: %llu steps at first, %llu halfway, %llu in the end", i, (unsigned long long)early, (unsigned long long)mid, (unsigned long long)late);
    stat("calls repeated", v.size());
    // a little slower and still getting slower, or a lot slower (a cache that fills up is neither)
    bool growing = late > early + early / 10 + 150 && (late - std::min(mid, late)) * 4 > late - early;
    if (growing || late > 2 * early + 600)
      violation("slower-with-age", "a call that took %llu memory accesses takes %llu after %d rounds: %.300s", (unsigned long long)early, (unsigned long long)late, rounds, ops[i].describe().c_str());
  }
}
// Stream: what one more sample costs a monitor, late in the life of its signals and early.
static void stream() {
  Pattern a = gen_pattern(2 + choose(W, 10)), b = gen_pattern(2 + choose(W, 10));
  int n = 160 + choose(W, 200), win = 40, rejects = choose(W, 3);
  int q = choose(W, 4);                // what it asks after each sample
  SignalPtr x;
  { Call c; x = std::make_shared<Signal>(); }
  SigData da = repeat(a, n);
  std::vector<uint64_t> cost;
  uint64_t oom = 0;
  for (int i = 0; i < n; i++) {
    CallOpts co;
    if (flip(F, 6)) co.oom_at = 0;
    uint64_t t0 = work_done();
    for (int k = 0; k <= rejects; k++) {
      double t = k ? (k == 1 ? da[i].first : NAN) : da[i].first;
      try {
        Call c(k ? CallOpts{} : co);
        x->push_back(t, da[i].second);
      } catch (const std::bad_alloc&) {
        leave_call();
        oom++;
        Call c;
        x->push_back(t, da[i].second);
      } catch (const std::exception&) { leave_call(); }
    }
    try {
      Call c;
      double T = da[i].first;
      if (q & 1) { Sample s = x->at(T * 0.75); (void)s; }
      if (q & 2) { auto it = x->begin_at(T * 0.5), e = x->end_at(T * 0.5 + 0.25); (void)it; (void)e; }
    } catch (...) { leave_call(); violation("failed", "a lookup inside the signal failed: %.200s", current_exception_text().c_str()); }
    cost.push_back(work_done() - t0);
  }
  auto sum = [&](int from) { uint64_t s = 0; for (int i = from; i < from + win; i++) s += cost[i]; return s; };
  uint64_t all = 0;
  for (uint64_t c : cost) all += c;
  uint64_t early = sum(0);
  log("%d samples: %llu steps for the first %d, %llu in all", n, (unsigned long long)early, win, (unsigned long long)all);
  work_hash(all * 31 + early);
  stat("samples streamed", n);
  if (oom) stat("appends repeated after memory ran out", oom);
  // the average of the whole life against that of the first samples (buffers may double now and then)
  if (all * win > 3 * early * n + 2000ull * win)
    violation("slower-with-age", "the first %d samples took %llu memory accesses, %d samples took %llu", win, (unsigned long long)early, n, (unsigned long long)all);
  { Call c; x = nullptr; }
}

void run_c17() {
  gen_identity("C17");
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  switch (choose(W, 4)) {
    case 0: return stream();
    case 1: return ageing();
    default: return growth();
  }
}
} // namespace w
