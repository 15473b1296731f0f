// C04, C07, C08, C09, C10: histories of calls under allocation faults, environment changes, reuse.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cmath>

namespace w {
using namespace signal_tl;

// ================================================================== C04
void run_c04() {
  gen_identity("C04");
  heap_policy(draw_heap_policy());
  struct Sig { SignalPtr s; std::vector<std::pair<double, double>> m; };
  std::vector<Sig> live;
  auto same = [](double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); };
  auto check = [&](Sig& g, const char* after) {
    auto& s = *g.s;
    auto bad = [&](const std::string& why) {
      std::string mt;
      for (auto& p : g.m) mt += num(p.first) + ":" + num(p.second) + " ";
      violation("signal-not-history", "%s: %s; signal %s, accepted samples %s", after, why.c_str(), canon(s).c_str(), mt.c_str());
    };
    if (s.size() != g.m.size()) bad("size " + std::to_string(s.size()) + " instead of " + std::to_string(g.m.size()));
    if (s.empty() != g.m.empty()) bad("empty() is wrong");
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) {
      if (i >= g.m.size()) bad("iteration runs past the end");
      if (it->time != g.m[i].first || it->value != g.m[i].second) bad("sample " + std::to_string(i) + " differs");
      double d = i + 1 < g.m.size() && g.m[i + 1].second != g.m[i].second ? (g.m[i + 1].second - g.m[i].second) / (g.m[i + 1].first - g.m[i].first) : 0.0;
      if (!same(it->derivative, d)) bad("slope of sample " + std::to_string(i) + " is " + num(it->derivative) + " instead of " + num(d));
      Sample at = s.at_idx(i);
      if (at.time != it->time || at.value != it->value || at.derivative != it->derivative) bad("at_idx differs from iteration");
    }
    if (i != g.m.size()) bad("iteration ends early");
    double bt = g.m.empty() ? 0.0 : g.m.front().first, et = g.m.empty() ? 0.0 : g.m.back().first;
    if (s.begin_time() != bt || s.end_time() != et) bad("begin or end time is wrong");
    if (!g.m.empty()) {
      if (s.front().value != g.m.front().second || s.back().value != g.m.back().second || s.back().time != et) bad("front or back is wrong");
      size_t k = g.m.size();
      for (auto it = s.rbegin(); it != s.rend(); ++it) if (k == 0 || it->value != g.m[--k].second) bad("reverse iteration differs");
    }
  };
  int n = 4 + choose(W, 40);
  int values = choose(W, 5);            // 0,1 any; 2 few values; 3 constant runs; 4 with infinities
  static const double origins[] = {0, 0, 0, -8, 1e-3, 1.6e9, 1e15, -1e6};
  double origin = origins[choose(W, 8)];
  log("%d steps", n);
  uint64_t wh = n;
  for (int step = 0; step < n; step++) {
    int k = choose(W, 20);
    wh = wh * 131 + k;
    CallOpts co;
    if (flip(F, 5)) { co.oom_at = choose(F, 8); co.oom_persist = choose(F, 2); }
    if (live.empty() || (k == 0 && live.size() < 5)) {
      Call c;
      live.push_back({std::make_shared<Signal>(), {}});
      log("new signal %zu", live.size() - 1);
      continue;
    }
    size_t gi = choose(W, live.size());
    if (k <= 14) {                       // append
      Sig& g = live[gi];
      double end = g.m.empty() ? origin : g.m.back().first, t;
      switch (choose(W, 12)) {
        case 0: t = end; break;
        case 1: t = end - 0.25 * (1 + choose(W, 12)); break;
        case 2: t = std::nan(""); break;
        case 3: t = std::nextafter(end, 1e300); break;
        case 4: t = -std::nan(""); break;
        case 5: {                            // just before or after the end
          double e = std::pow(10.0, -1 - int(choose(W, 16))) * (choose(W, 2) ? 1 : std::max(1.0, std::fabs(end)));
          t = choose(W, 2) ? end - e : end + e;
          break;
        }
        case 6: t = choose(W, 2) ? std::nextafter(end, -1e300) : g.m.empty() ? end : g.m[choose(W, g.m.size())].first; break;
        default: t = end + 0.25 * (1 + choose(W, 8)); if (choose(W, 4) == 0) t = end + 0.1 * (1 + choose(W, 30));
      }
      double v = choose(W, 4) ? quarter(100) : 0.1 * (int(choose(W, 2000)) - 1000);
      if (values == 2) v = choose(W, 3);
      else if (values == 3 && !g.m.empty() && choose(W, 5)) v = g.m.back().second;
      else if (values == 4 && choose(W, 3) == 0) v = choose(W, 2) ? INFINITY : -INFINITY;
      if (values != 0 && !g.m.empty() && choose(W, 8) == 1 && g.m.size() > 1) {  // on the line through the last two
        auto &a = g.m[g.m.size() - 2], &b = g.m.back();
        double l = b.second + (b.second - a.second) / (b.first - a.first) * (t - b.first);
        if (std::isfinite(l)) v = l;
      }
      bool ok_time = !std::isnan(t) && (g.m.empty() || t > end);
      int mode = choose(W, 3);
      bool threw = false;
      std::string ex;
      try {
        Call c(co);
        if (mode == 0) g.s->push_back(t, v);
        else if (mode == 1) g.s->push_back(Sample{t, v});
        else g.s->push_back(Sample{t, v, 77.0});    // a stale slope in the pushed sample is ignored
      } catch (...) {
        leave_call();
        threw = true;
        ex = current_exception_text();
      }
      bool hit = call_faulted();
      log("append signal %zu t=%s v=%s -> %s%s", gi, num(t).c_str(), num(v).c_str(), threw ? ex.c_str() : "ok", hit ? " (memory)" : "");
      if (hit) stat("append hit by memory exhaustion");
      if (!ok_time) stat(std::isnan(t) ? "append with NaN time" : "append at or before the end");
      if (!threw && !ok_time) violation("append-accepted", "append of time %s to a signal ending at %s was accepted", num(t).c_str(), num(end).c_str());
      if (threw && ok_time && !hit) violation("append-refused", "append of time %s to a signal ending at %s was refused: %s", num(t).c_str(), num(end).c_str(), ex.c_str());
      if (!threw) g.m.push_back({t, v});
      check(g, threw ? "after a failed append" : "after an append");
      for (size_t j = 0; j < live.size(); j++) if (j != gi) check(live[j], "after an append to another signal");
    } else if (k <= 16 && live.size() < 8) {     // copy or rebuild
      int how = choose(W, 6);
      SignalPtr r;
      bool threw = false;
      std::vector<double> pv, tv;
      std::vector<Sample> sv;
      for (auto& p : live[gi].m) { tv.push_back(p.first); pv.push_back(p.second); sv.push_back({p.first, p.second, 5.0}); }
      std::string ex;
      try {
        Call c(co);
        if (how == 0) r = std::make_shared<Signal>(*live[gi].s);
        else if (how == 1) r = std::make_shared<Signal>(pv, tv);
        else if (how == 2) r = std::make_shared<Signal>(sv);
        else if (how == 3) { r = std::make_shared<Signal>(std::vector<Sample>{{1, 2}, {3, 4}}); *r = *live[gi].s; }
        else if (how == 4) { Signal tmp(*live[gi].s); r = std::make_shared<Signal>(std::move(tmp)); }
        else { r = std::make_shared<Signal>(); for (auto it = live[gi].s->begin(); it != live[gi].s->end(); ++it) r->push_back(*it); }
      } catch (...) {
        leave_call();
        threw = true;
        ex = current_exception_text();
      }
      bool hit = call_faulted();
      log("copy %d of signal %zu%s", how, gi, threw ? " failed" : "");
      if (threw && !hit) violation("copy-refused", "copying a signal failed: %s", ex.c_str());
      if (!threw) {
        live.push_back({r, live[gi].m});
        check(live.back(), "after copying");
        stat("signals copied");
      }
      check(live[gi], "after being copied");
    } else if (k == 17) {                         // whole-history constructor with a bad sample inside
      std::vector<double> pv, tv;
      double t = 0;
      int m = 2 + choose(W, 6), badat = 1 + choose(W, m - 1), kind = choose(W, 3);
      for (int i = 0; i < m; i++) {
        t += 0.5;
        tv.push_back(i == badat ? (kind == 0 ? tv.back() : kind == 1 ? std::nan("") : -1.0) : t);
        pv.push_back(quarter(8));
      }
      bool threw = false;
      try {
        Call c(co);
        Signal s(pv, tv);
      } catch (...) { leave_call(); threw = true; }
      log("constructor with a bad sample %d of %d", badat, m);
      if (!threw) violation("append-accepted", "a signal was built from times that are not strictly increasing");
    } else if (k == 18) {                         // reads
      Sig& g = live[gi];
      try {
        Call c(co);
        auto a = g.s->simplify();
        auto b = g.s->shift(1.0);
        std::string t = fmt::to_string(*g.s);
      } catch (...) { leave_call(); }
      check(g, "after reading");
    } else if (live.size() > 1) {
      Call c;
      live.erase(live.begin() + gi);
    }
  }
  work_hash(wh);
  for (auto& g : live) check(g, "at the end");
}

// ================================================================== C07
void run_c07() {
  gen_identity("C07");
  OpGen g;
  g.wild = flip(W, 4);
  Op op = gen_op(g);
  log("op %s", op.describe().c_str());
  work_hash(hash_text(op.describe()));
  heap_policy(draw_heap_policy());
  std::string want;
  uint64_t N;
  {
    Inst a(op);
    a.prepare();
    a.call();
    want = a.result;
    N = call_allocs();
  }
  log("normal result %s, %llu allocations", want.c_str(), (unsigned long long)N);
  stat("calls explored");
  stat("allocations in explored calls", N);
  int cap = 48;
  bool all = N <= (uint64_t)cap;
  int npts = all ? (int)N : cap;
  int mode0 = choose(F, 2);
  constexpr uint64_t MAX_WORK = 20000000;      // steps spent on one call; the rest of its points is left to other runs
  for (int i = 0; i < npts; i++) {
    if (steps_done() > MAX_WORK) { stat("calls too long to fail every allocation"); break; }
    if (all && i == npts - 1) stat("calls with every allocation failed in turn");
    CallOpts co;
    co.oom_at = all ? i : (int)choose(F, N);
    co.oom_persist = (i + mode0) & 1;
    for (int pass = 0; pass < (all ? 2 : 1); pass++, co.oom_persist = !co.oom_persist) {
      // leak rule: the same failing call must not hold more memory every time it is repeated
      // (a buffer kept for later use may grow a few times before it is big enough)
      int64_t grown = 0;
      int reps = 1, fdup = 0;
      for (int r = 0; r < reps; r++) {
        uint64_t base = live_blocks();
        int fd0 = open_fds(), mp0 = open_maps();
        bool threw, hit;
        std::string res;
        {
          Inst a(op);
          a.prepare();
          std::string in0 = a.inputs();
          uint64_t mid = live_blocks();
          a.call(co);
          threw = a.threw, hit = a.oom, res = a.result;
          std::string in1 = a.inputs();
          if (in0 != in1 && (threw || op.kind != Op::PUSH))
            violation("input-changed", "%s with allocation %d failing%s changed its inputs from %.400s to %.400s", op.describe().c_str(), co.oom_at, co.oom_persist ? " (and all later)" : "", in0.c_str(), in1.c_str());
          if (!threw && res != want)
            violation("wrong-result", "%s with allocation %d failing%s returned %.400s instead of throwing (normal result %.400s)", op.describe().c_str(), co.oom_at, co.oom_persist ? " (and all later)" : "", res.c_str(), want.c_str());
          (void)mid;
          // retry with the same inputs
          if (threw && r == 0) {
            a.call();
            if (a.result != want)
              violation("retry-differs", "%s repeated after allocation %d failed gives %.400s instead of %.400s", op.describe().c_str(), co.oom_at, a.result.c_str(), want.c_str());
          }
        }
        if (!hit) stat("allocation failure not reached");
        bool fds = open_fds() > fd0 || open_maps() > mp0;
        grown = live_blocks() - base;
        fdup += fds;
        if (grown > 0 || fds) { if (r == reps - 1 && reps < 24) reps++; }
        else break;
      }
      if (reps == 24 && fdup == reps)
        violation("leak", "%s with allocation %d failing leaves a file descriptor or mapping open", op.describe().c_str(), co.oom_at);
      if (reps == 24 && grown > 0)
        violation("leak", "%s with allocation %d failing%s leaks %lld heap blocks each time", op.describe().c_str(), co.oom_at, co.oom_persist ? " (and all later)" : "", (long long)grown);
    }
  }
}

// ================================================================== C08
static Op twin_of(const Op& o) {         // the same shape, other numbers
  Op t = o;
  auto bump = [](SigData& d) { if (!d.empty()) d[choose(W, d.size())].second += 0.5 * (1 + choose(W, 6)); };
  for (auto& [k, v] : t.sigs) { (void)k; bump(v); }
  bump(t.a);
  bump(t.b);
  t.r += 0.25;
  std::function<MP(const MP&)> cp = [&](const MP& m) {
    auto r = std::make_shared<M>(*m);
    if (r->k == M::PRED && choose(W, 2)) r->rhs += 0.5;
    for (auto& c : r->a) c = cp(c);
    return MP(r);
  };
  if (t.m && choose(W, 2)) t.m = cp(t.m);     // otherwise the same formula object may meet other data
  for (auto& x : t.ms) if (choose(W, 2)) x = cp(x);
  for (auto& ch : t.text) if (ch >= '1' && ch <= '7') { ch = ch + 1; if (choose(W, 2)) break; }
  return t;
}
static void change_env(int& jumps) {
  switch (choose(F, 6)) {
    case 4: env_vars(choose(F, 64)); break;
    case 1: env_locale(true); break;
    case 2: env_locale(false); break;
    case 3: env_clock_jump(int64_t(choose(F, 1u << 30)) - (1 << 29)); jumps++; break;
    default: break;
  }
}
void run_c08() {
  gen_identity("C08");
  OpGen g;
  g.wild = choose(W, 2);
  int n = 2 + choose(W, 3);
  std::vector<Op> ops;
  for (int i = 0; i < n; i++) {
    ops.push_back(gen_op(g));
    if (choose(W, 2)) ops.push_back(twin_of(ops.back()));
  }
  uint64_t wh = 0;
  for (size_t i = 0; i < ops.size(); i++) {
    log("op %zu %s", i, ops[i].describe().c_str());
    wh = wh * 31 + hash_text(ops[i].describe());
  }
  work_hash(wh);
  if (phase() == 0) {
    set_phases(ops.size());
    HeapPolicy hp = draw_heap_policy();
    heap_policy(hp);
    int steps = ops.size() + choose(F, 14);
    std::vector<std::string> seen(ops.size());
    std::vector<bool> have(ops.size());
    int jumps = 0;
    std::map<const M*, Expr> longlived;        // formulas that outlive the data they are evaluated on
    std::vector<std::unique_ptr<Inst>> kept;
    auto same = [&](size_t i, Inst& a, const char* how) {
      if (have[i] && seen[i] != a.result)
        violation("history-dependent", "the same call gave %.500s and later%s %.500s: %s", seen[i].c_str(), how, a.result.c_str(), ops[i].describe().c_str());
      if (!have[i]) outcome((int)i, a.result);
      have[i] = true;
      seen[i] = a.result;
    };
    // a long past: texts refused deep inside, again and again, or the same call many times
    int past = flip(F, 150) ? 1 + choose(F, 3) : 0, past_at = past ? choose(F, steps) : -1;
    for (int s = 0; s < steps; s++) {
      size_t i = s < (int)ops.size() ? s : choose(F, ops.size());
      change_env(jumps);
      if (s == past_at) {
        uint64_t limit = steps_done() + 12000000;
        if (past == 1) {
          int D = 10 + choose(F, 120), kind = choose(F, 4);
          std::string text = "(define-formula far ";
          for (int k = 0; k < D; k++) text += kind == 1 ? "(and (> x 1) " : kind == 2 ? "(G " : "(not ";
          text += kind == 0 ? "undefined_name" : kind == 1 ? "(> x" : kind == 2 ? "(F (x > 1))" : ")";
          int n = 9000 / D, k = 0;
          for (; k < n && steps_done() < limit; k++) {
            bool threw = false;
            std::unique_ptr<Specification> sp;
            try { Call c; sp = parser::from_string(text); } catch (...) { leave_call(); threw = true; }
            if (!threw) violation("malformed-text-accepted", "%.400s is accepted", text.c_str());
          }
          log("%d texts refused at depth %d", k, D);
        } else {
          int n = 50 + choose(F, 450), k = 0;
          for (; k < n && steps_done() < limit; k++) {
            Inst f(ops[i]);
            f.prepare();
            CallOpts co;
            if (past == 3) co.oom_at = choose(F, 40);
            f.call(co);
          }
          log("op %zu called %d times", i, k);
        }
        stat("histories with a long past");
      }
      if (flip(F, 5)) {                        // a failing call first
        Inst f(ops[choose(F, ops.size())]);
        f.prepare();
        CallOpts co;
        co.oom_at = choose(F, 40);
        co.oom_persist = choose(F, 2);
        std::string env0 = env_signature();
        f.call(co);
        std::string env1 = env_signature();
        if (env0 != env1) violation("environment-changed", "a failing call changed settings of the whole process from %s to %s", env0.c_str(), env1.c_str());
        stat("calls after a failed call");
      }
      auto a = std::make_unique<Inst>(ops[i]);
      { std::map<const M*, Expr>* f = choose(F, 3) ? &longlived : nullptr; a->prepare(f); }
      static const int errnos[] = {ERANGE, EINVAL, EDOM, EINTR, EAGAIN, ENOENT, EILSEQ, ENOMEM, EIO, EBADF};
      int e0 = choose(F, 2) ? 0 : errnos[choose(F, 10)];
      if (e0) fault_note("env-errno-noise");
      std::string env0 = env_signature();
      set_errno_noise(e0);
      a->call();
      std::string env1 = env_signature();
      if (env0 != env1) violation("environment-changed", "%.400s changed settings of the whole process from %s to %s", ops[i].describe().c_str(), env0.c_str(), env1.c_str());
      same(i, *a, "");
      log("step %d op %zu -> %s", s, i, a->result.c_str());
      stat("calls in a history");
      if (ops[i].kind == Op::EVAL && choose(F, 3) == 0) {          // the same signal objects, other values
        size_t j = choose(F, ops.size());
        if (a->rebind(ops[j])) {
          a->call();
          same(j, *a, " on signals assigned in place");
          stat("evaluations of signals assigned in place");
        }
      } else if (ops[i].kind != Op::PUSH && flip(F, 4)) {
        a->call();
        same(i, *a, " on the same objects");
        stat("calls repeated on the same objects");
      }
      if (flip(F, 4)) kept.push_back(std::move(a));
      if (kept.size() > 3) kept.erase(kept.begin());
    }
    env_locale(false);
    env_vars(0);
  } else {
    HeapPolicy hp;
    hp.fill_new = 0;
    heap_policy(hp);
    size_t i = phase() - 1;
    Inst a(ops[i]);
    a.prepare();
    a.call();
    outcome((int)i, a.result);
  }
}

// ================================================================== C09
void run_c09() {
  gen_identity("C09");
  heap_policy(draw_heap_policy());
  struct Obj {
    int kind;                      // 0 signal, 1 formula, 2 specification
    SignalPtr s;
    Expr e{ast::Const{false}};
    std::unique_ptr<Specification> sp;
    std::string snap;
    std::string from;
  };
  std::vector<std::unique_ptr<Obj>> live;
  static const char* nm[] = {"x", "y", "z"};
  auto canon_of = [](Obj& o) { return o.kind == 0 ? canon(o.s) : o.kind == 1 ? canon(o.e) : canon(*o.sp); };
  auto add = [&](std::unique_ptr<Obj> o) {
    o->snap = canon_of(*o);
    log("  object %zu: %s = %s", live.size(), o->from.c_str(), o->snap.c_str());
    live.push_back(std::move(o));
  };
  auto add_sig = [&](SignalPtr s, const std::string& from) {
    if (!s) return;
    auto o = std::make_unique<Obj>();
    o->kind = 0;
    o->s = std::move(s);
    o->from = from;
    add(std::move(o));
  };
  auto add_expr = [&](const Expr& e, const std::string& from) {
    auto o = std::make_unique<Obj>();
    o->kind = 1;
    o->e = e;
    o->from = from;
    add(std::move(o));
  };
  auto check = [&](const std::string& what, Obj* except) {
    for (auto& o : live) {
      if (o.get() == except) continue;
      std::string now = canon_of(*o);
      if (now != o->snap)
        violation("aliasing", "%s changed another object (%s) from %.400s to %.400s", what.c_str(), o->from.c_str(), o->snap.c_str(), now.c_str());
    }
  };
  auto pick = [&](int kind) -> Obj* {
    std::vector<Obj*> c;
    for (auto& o : live) if (o->kind == kind) c.push_back(o.get());
    return c.empty() ? nullptr : c[choose(W, c.size())];
  };
  int n = 4 + choose(W, 22);
  uint64_t wh = 0;
  GenOpts fo;
  fo.names.assign(nm, nm + 2);
  fo.bounded = true;
  for (int step = 0; step < n; step++) {
    int k = choose(W, 16);
    wh = wh * 31 + k;
    std::string what;
    Obj* target = nullptr;
    if (live.size() > 14) k = 15;
    Obj* s1 = pick(0);
    if (!s1 || k == 0) {
      SigData d = gen_signal(6, 4);
      SignalPtr s;
      { Call c; s = make_signal(d, choose(W, 2)); }
      what = "creating a signal";
      add_sig(s, "a new signal");
    } else if (k == 1 || !pick(1)) {
      fo.depth = choose(W, 3);
      MP m = gen_formula(fo);
      Expr e{ast::Const{false}};
      { Call c; std::map<const M*, Expr> memo; e = build(m, memo); }
      what = "creating a formula";
      add_expr(e, "a new formula");
    } else if (k <= 5) {                 // append to any signal, input or result
      double t = s1->s->end_time() + 0.25 * (1 + choose(W, 8)), v = quarter(20);
      what = "appending to " + s1->from;
      log("%s", what.c_str());
      target = s1;
      bool threw = false;
      try { Call c; s1->s->push_back(t, v); } catch (...) { leave_call(); threw = true; }
      stat("appends to a live object");
      check(what, target);
      target->snap = canon_of(*target);
    } else if (k <= 9) {                 // evaluate
      Obj* f = pick(1);
      Obj* s2 = pick(0);
      Obj* s3 = pick(0);
      Trace tr;
      SignalPtr r;
      what = "evaluating";
      try {
        Call c;
        tr["x"] = s1->s;
        tr["y"] = s2->s;
        tr["z"] = s3->s;
        r = semantics::compute_robustness(f->e, tr);
      } catch (...) { leave_call(); log("evaluation: %s", current_exception_text().c_str()); }
      add_sig(r, "the result of evaluating " + canon(f->e));
      stat("evaluations");
      { Call c; tr["x"] = nullptr; tr.clear(); }
    } else if (k == 10) {                // resample
      SignalPtr r, r2;
      int how = choose(W, 5);
      double a = s1->s->begin_time(), b = s1->s->end_time();
      Obj* s2 = pick(0);
      what = "resampling";
      static const char* hn[] = {"a copy", "a shifted signal", "a simplified signal", "a resized signal", "a synchronized signal"};
      double dt = choose(W, 2) ? 0.0 : 0.5;
      try {
        Call c;
        if (how == 0) r = std::make_shared<Signal>(*s1->s);
        else if (how == 1) r = s1->s->shift(dt);
        else if (how == 2) r = s1->s->simplify();
        else if (how == 3) r = dt == 0 ? s1->s->resize(a, b, 1.0) : s1->s->resize_shift(a, b, 1.0, dt);
        else std::tie(r, r2) = signal::synchronize(s1->s, s2->s);
      } catch (...) { leave_call(); log("resampling %d: %s", how, current_exception_text().c_str()); r = r2 = nullptr; }
      add_sig(r, hn[how]);
      add_sig(r2, "the other synchronized signal");
      stat("resamplings");
    } else if (k == 11) {                // combine formulas
      Obj *f = pick(1), *h = pick(1);
      Expr r{ast::Const{false}};
      int how = choose(W, 8);
      what = "combining formulas";
      bool ok = true;
      try {
        Call c;
        switch (how) {
          case 0: r = f->e & h->e; break;
          case 1: r = f->e | h->e; break;
          case 2: r = ~f->e; break;
          case 3: r = And({f->e, h->e}); break;
          case 4: r = Iff(f->e, h->e); break;
          case 5: r = Until(f->e, h->e); break;
          case 6: r = Always(f->e); break;
          default: r = f->e;
        }
      } catch (...) { leave_call(); ok = false; }
      if (ok) add_expr(r, "a combined formula");
    } else if (k == 12) {                // parse from a buffer that is overwritten afterwards
      SpecModel sm = gen_spec(3);
      std::vector<char> buf(sm.text.begin(), sm.text.end());
      auto o = std::make_unique<Obj>();
      o->kind = 2;
      o->from = "a parsed specification";
      bool ok = true, file = choose(W, 2);
      if (file) disk_write("a.stl", sm.text);
      try {
        std::string path = disk_path("a.stl");
        Call c;
        o->sp = file ? parser::from_file(path) : parser::from_string(std::string_view(buf.data(), buf.size()));
      } catch (...) { leave_call(); ok = false; log("parse: %s", current_exception_text().c_str()); }
      if (ok && o->sp) {
        add(std::move(o));
        std::fill(buf.begin(), buf.end(), 'Z');
        std::vector<char>().swap(buf);
        if (file) disk_write("a.stl", std::string(sm.text.size(), 'Q'));
        what = "overwriting the parsed text";
        stat("texts overwritten after parsing");
        if (choose(W, 2) && !live.back()->sp->formulas.empty()) add_expr(live.back()->sp->formulas.begin()->second, "a formula taken from a specification");
      }
    } else if (k == 13) {                // modify a specification the caller owns
      Obj* o = pick(2);
      if (o) {
        target = o;
        what = "editing a specification";
        Call c;
        if (!o->sp->formulas.empty() && choose(W, 2)) o->sp->formulas.erase(o->sp->formulas.begin());
        else o->sp->formulas.insert({"added", Expr{ast::Const{true}}});
      }
      if (target) { check(what, target); target->snap = canon_of(*target); }
    } else if (k == 14) {                // evaluate, then evaluate again after dropping the first result
      Obj* f = pick(1);
      Trace tr;
      SignalPtr r;
      std::string r1, r2;
      for (int i = 0; i < 2; i++) {
        r.reset();
        std::string res;
        try {
          Call c;
          tr["x"] = s1->s;
          tr["y"] = s1->s;
          r = semantics::compute_robustness(f->e, tr);
        } catch (...) { leave_call(); res = current_exception_text(); }
        if (res.empty()) res = canon(r);
        (i ? r2 : r1) = res;
        if (i == 0 && r && !r->empty()) { try { Call c; r->push_back(r->end_time() + 1, 99.0); } catch (...) { leave_call(); } }
      }
      if (r1 != r2) violation("aliasing", "appending to a result changed the next evaluation from %.400s to %.400s", r1.c_str(), r2.c_str());
      what = "evaluating twice";
    } else if (!live.empty()) {          // drop
      size_t i = choose(W, live.size());
      what = "dropping " + live[i]->from;
      log("%s", what.c_str());
      { Call c; live[i]->s.reset(); live[i]->sp.reset(); live[i]->e = ast::Const{false}; }
      live.erase(live.begin() + i);
      stat("objects dropped");
    }
    check(what, nullptr);
  }
  work_hash(wh);
}

// ================================================================== C10
void run_c10() {
  gen_identity("C10");
  heap_policy(draw_heap_policy());
  int n = 2 + choose(W, 4);
  OpGen g;
  uint64_t wh = 0;
  struct Step { Op op; CallOpts co; IoPlan plan; bool io; };
  std::vector<Step> steps;
  for (int i = 0; i < n; i++) {
    if (choose(W, 2)) g.only = {Op::PARSE_FILE}; else g.only.clear();
    Step s;
    s.op = gen_op(g);
    wh = wh * 31 + hash_text(s.op.describe());
    if (flip(F, 2)) { s.co.oom_at = choose(F, 50); s.co.oom_persist = choose(F, 2); }
    s.io = s.op.kind == Op::PARSE_FILE && choose(F, 4) != 0;
    if (s.io) {
      static const int errs[] = {5 /*EIO*/, 12 /*ENOMEM*/, 24 /*EMFILE*/, 19 /*ENODEV*/, 13 /*EACCES*/};
      s.plan.n = 1 + choose(F, 2);
      for (int k = 0; k < s.plan.n; k++) { s.plan.ev[k] = choose(F, 6); s.plan.what[k] = 1 + choose(F, 3); s.plan.err[k] = errs[choose(F, 5)]; }
      s.plan.persist = flip(F, 4);
    }
    log("step %d %s oom %d%s io %d", i, s.op.describe().c_str(), s.co.oom_at, s.co.oom_persist ? "+" : "", s.io ? s.plan.n : 0);
    steps.push_back(s);
  }
  work_hash(wh);
  bool threads = flip(F, 4);               // every call in a thread of its own, which ends afterwards
  if (threads) sched_setup(true);
  auto once1 = [&](Step& s) {
    Inst a(s.op);
    a.prepare();
    if (s.io) io_arm(s.plan);
    a.call(s.co);
    if (s.io) io_disarm();
    if (a.threw) stat("failing calls repeated"); else stat("succeeding calls repeated");
    if (threads) stat("calls in a thread that ends afterwards");
  };
  auto once = [&](Step& s) {
    if (!threads) return once1(s);
    spawn([&] { once1(s); });
    join_all();
  };
  struct Level { int64_t blocks, bytes; int fds, maps, rfds; };
  auto level = [&]() { return Level{(int64_t)live_blocks(), (int64_t)live_bytes(), open_fds(), open_maps(), real_fds()}; };
  // each call on its own, repeated
  for (size_t i = 0; i < steps.size(); i++) {
    Level l[5];
    int more = 6;                         // further repetitions while something still grows
    for (int r = 0; r < 5; r++) { once(steps[i]); l[r] = level(); }
    auto grows = [&](auto f) { return f(l[4]) > f(l[3]) && f(l[3]) > f(l[2]) && f(l[2]) > f(l[1]); };
    auto blocks = [](Level& x) { return x.blocks; };
    auto bytes  = [](Level& x) { return x.bytes; };
    auto fds    = [](Level& x) { return (int64_t)std::max(x.fds, x.rfds); };
    auto maps   = [](Level& x) { return (int64_t)x.maps; };
    auto any    = [&]() { return grows(blocks) || grows(bytes) || grows(fds) || grows(maps); };
    // A buffer kept for later use grows a few times at most; a leak grows for ever.
    while (any() && more-- > 0)
      for (int r = 0; r < 6; r++) { once(steps[i]); for (int k = 0; k < 4; k++) l[k] = l[k + 1]; l[4] = level(); }
    std::string d = steps[i].op.describe();
    std::string f = " (allocation fault " + std::to_string(steps[i].co.oom_at) + (steps[i].co.oom_persist ? "+" : "") + ", i/o faults " + std::to_string(steps[i].io ? steps[i].plan.n : 0) + ")";
    if (grows(blocks)) violation("leak", "every repetition of %s%s leaks %lld heap blocks", d.c_str(), f.c_str(), (long long)(l[4].blocks - l[3].blocks));
    if (grows(bytes)) violation("leak", "every repetition of %s%s leaks %lld bytes of heap", d.c_str(), f.c_str(), (long long)(l[4].bytes - l[3].bytes));
    if (grows(fds)) violation("leak", "every repetition of %s%s leaks a file descriptor", d.c_str(), f.c_str());
    if (grows(maps)) violation("leak", "every repetition of %s%s leaks a memory mapping", d.c_str(), f.c_str());
  }
  // the whole history, repeated
  Level h[4];
  auto all = [&]() { for (auto& s : steps) once(s); return level(); };
  for (auto& x : h) x = all();
  auto up = [&](auto f) { return f(h[3]) > f(h[2]) && f(h[2]) > f(h[1]) && f(h[1]) > f(h[0]); };
  auto blocks = [](Level& x) { return x.blocks; };
  auto fds    = [](Level& x) { return (int64_t)x.rfds; };
  auto maps   = [](Level& x) { return (int64_t)x.maps; };
  for (int more = 30; more > 0 && (up(blocks) || up(fds) || up(maps)); more--) { h[0] = h[1]; h[1] = h[2]; h[2] = h[3]; h[3] = all(); }
  if (up(blocks)) violation("leak", "every repetition of the history leaks %lld heap blocks", (long long)(h[3].blocks - h[2].blocks));
  if (up(fds)) violation("leak", "every repetition of the history leaks file descriptors");
  if (up(maps)) violation("leak", "every repetition of the history leaks mappings");
}
} // namespace w
