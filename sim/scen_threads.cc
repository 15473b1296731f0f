// C01, C02, C03, C12: caller threads sharing formulas, signals and files.
#include "world.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <optional>

namespace w {
using namespace signal_tl;

static CallOpts draw_oom(int den, int range) {
  CallOpts c;
  if (flip(F, den)) {
    c.oom_at = choose(F, range);
    c.oom_persist = choose(F, 2);
  }
  return c;
}

// ================================================================== C01
void run_c01() {
  gen_identity("C01");
  static const char* nm[] = {"x", "y", "z"};
  int ns = 1 + choose(W, 3);
  bool wild = flip(W, 5);
  std::vector<SigData> sd;
  for (int i = 0; i < ns; i++) sd.push_back(wild ? gen_signal_wild(10) : gen_signal(flip(W, 12) ? 60 : 12, 4));
  if (ns > 1 && flip(W, 3)) { sd[1] = sd[0]; for (auto& p : sd[1]) p.second = quarter(24); }
  GenOpts fo;
  fo.names.assign(nm, nm + ns);
  fo.bounded = true;
  fo.reals = wild;
  fo.wide = 5;
  int nf = 1 + choose(W, 3);
  std::vector<MP> fs;
  for (int i = 0; i < nf; i++) {
    fo.depth = choose(W, 5);
    MP m = gen_formula(fo);
    if (i && flip(W, 2)) {     // share an earlier formula as a part
      auto c = std::make_shared<M>();
      c->k = choose(W, 2) ? M::AND : M::OR;
      c->a = {fs[choose(W, fs.size())], m};
      m = c;
    }
    fs.push_back(m);
  }
  int ntr = 1 + choose(W, 2);
  std::vector<std::vector<int>> trs(ntr);
  for (int t = 0; t < ntr; t++)
    for (int i = 0; i < ns; i++) if (!(t && flip(W, 4))) trs[t].push_back(i);
  int nt = 2 + choose(W, 3);
  struct EOp { int thr, f, t; bool copy; CallOpts oom; };
  std::vector<EOp> ops;
  for (int t = 0; t < nt; t++) {
    int k = 1 + choose(W, 3);
    for (int i = 0; i < k; i++) ops.push_back({t, (int)choose(W, nf), (int)choose(W, ntr), choose(W, 2) == 1, {}});
  }
  bool faults = flip(F, 4);
  for (auto& o : ops) if (faults) o.oom = draw_oom(4, 60);
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  uint64_t wh = 0;
  for (auto& f : fs) wh = wh * 31 + hash_text(mtext(f));
  for (auto& s : sd) wh = wh * 31 + hash_text(sdata(s));
  work_hash(wh);
  for (int i = 0; i < ns; i++) log("signal %s = %s", nm[i], sdata(sd[i]).c_str());
  for (auto& f : fs) log("formula %s", mtext(f).c_str());

  std::vector<SignalPtr> sig;
  std::vector<Expr> ex;
  std::vector<Trace> tr(ntr);
  {
    Call c;
    for (auto& d : sd) sig.push_back(make_signal(d));
    std::map<const M*, Expr> memo;
    for (auto& f : fs) ex.push_back(build(f, memo));
    for (int t = 0; t < ntr; t++) for (int i : trs[t]) tr[t][nm[i]] = sig[i];
  }
  auto do_op = [&](size_t i, bool fault) {
    auto& o = ops[i];
    std::string res;
    bool oom = false;
    SignalPtr out;
    try {
      Call c(fault ? o.oom : CallOpts{});
      if (o.copy) {
        Expr e = ex[o.f];
        Trace t = tr[o.t];
        out = semantics::compute_robustness(e, t, true);
      } else out = semantics::compute_robustness(ex[o.f], tr[o.t]);
    } catch (...) {
      leave_call();
      res = current_exception_text();
    }
    oom = call_faulted();
    if (res.empty()) res = canon(out);
    outcome((int)i, res, !oom);
    log("op %zu formula %d trace %d -> %s", i, o.f, o.t, res.c_str());
  };
  if (phase() == 0) {
    set_phases(std::min<size_t>(ops.size(), 8));
    std::string before;
    for (auto& s : sig) before += canon(s);
    for (auto& e : ex) before += canon(e);
    for (auto& t : tr) before += canon(t);
    sched_setup();
    for (int t = 0; t < nt; t++)
      spawn([&, t] {
        for (size_t i = 0; i < ops.size(); i++) if (ops[i].thr == t) do_op(i, true);
      });
    join_all();
    std::string after;
    for (auto& s : sig) after += canon(s);
    for (auto& e : ex) after += canon(e);
    for (auto& t : tr) after += canon(t);
    if (before != after) violation("input-changed", "concurrent evaluation changed a shared formula, signal or trace: before %.300s after %.300s", before.c_str(), after.c_str());
    stat("concurrent evaluations", ops.size());
  } else do_op(phase() - 1, false);
}

// ================================================================== C02
void run_c02() {
  gen_identity("C02");
  GenOpts fo;
  fo.names = {"x", "y", "a_long_signal_name_that_is_not_inline"};
  fo.bounded = true;
  fo.reals = true;
  fo.wide = 8;
  int np = 2 + choose(W, 4);
  std::vector<MP> pm;
  for (int i = 0; i < np; i++) {
    fo.depth = choose(W, 3);
    MP m = gen_formula(fo);
    if (i && flip(W, 2)) {
      auto c = std::make_shared<M>();
      c->k = choose(W, 2) ? M::AND : M::OR;
      c->a = {pm[choose(W, pm.size())], m};
      m = c;
    }
    pm.push_back(m);
  }
  int nt = 1 + choose(W, 4);
  struct FOp { int thr, kind, a, b, c; double lo, hi; CallOpts oom; bool brief = false; };
  std::vector<FOp> ops;
  for (int t = 0; t < nt; t++) {
    int k = 2 + choose(W, nt == 1 ? 14 : 7);
    for (int i = 0; i < k; i++) {
      FOp o{t, (int)choose(W, 24), (int)choose(W, 64), (int)choose(W, 64), (int)choose(W, 64), choose(W, 6) / 2.0, 0, {}};
      o.hi = o.lo + choose(W, 4) / 2.0;
      o.brief = flip(W, 5);
      ops.push_back(o);
    }
  }
  if (nt > 1 && flip(W, 4)) {              // all threads build, and drop at once, the same few formulas
    static const int kinds[] = {0, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 18, 19, 21, 22, 23};
    FOp some[2] = {ops[0], ops[1]};
    for (auto& o : some) { o.kind = kinds[choose(W, 17)]; o.a %= np; o.b %= np; o.c %= np; o.brief = true; }
    for (auto& o : ops) if (choose(W, 4)) { int t = o.thr; o = some[flip(W, 4)]; o.thr = t; }
    stat("groups of threads building the same formulas");
  }
  bool faults = flip(F, 2);
  for (auto& o : ops) if (faults) o.oom = draw_oom(4, 12);
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  std::vector<Expr> pool;
  {
    Call c;
    std::map<const M*, Expr> memo;
    pool.assign(pm.size(), Expr{ast::Const{false}});
    // alone, they are built in another order
    for (size_t i = 0; i < pm.size(); i++) { size_t k = phase() % 2 ? pm.size() - 1 - i : i; pool[k] = build(pm[k], memo); }
  }
  for (size_t i = 0; i < pool.size(); i++) outcome((int)(ops.size() + i), canon(pool[i]));
  uint64_t wh = 0;
  for (auto& m : pm) { log("pool %s", mtext(m).c_str()); wh = wh * 31 + hash_text(mtext(m)); }
  work_hash(wh);
  std::vector<std::string> poolsnap;
  for (auto& e : pool) poolsnap.push_back(canon(e));

  auto run_thread = [&](int t, bool fault) {
    std::vector<Expr> own;
    std::vector<std::string> snap;
    auto get = [&](int i) -> Expr& {
      // shared pool first, then own results
      size_t n = pool.size() + own.size();
      i %= n;
      return (size_t)i < pool.size() ? pool[i] : own[i - pool.size()];
    };
    auto check = [&](const char* what) {
      for (size_t i = 0; i < own.size(); i++)
        if (canon(own[i]) != snap[i])
          violation("formula-changed", "%s changed an existing formula of the same thread from %s to %s", what, snap[i].c_str(), canon(own[i]).c_str());
      for (size_t i = 0; i < pool.size(); i++)
        if (canon(pool[i]) != poolsnap[i])
          violation("formula-changed", "%s changed a shared formula from %s to %s", what, poolsnap[i].c_str(), canon(pool[i]).c_str());
    };
    for (size_t i = 0; i < ops.size(); i++) {
      auto& o = ops[i];
      if (o.thr != t) continue;
      std::string res;
      for (int attempt = 0; attempt < 2; attempt++) {
        res.clear();
        Expr r{ast::Const{false}};
        bool have = false;
        std::string txt;
        bool printed = false;
        std::string want;
        double want_rhs = 0;
        try {
          Expr &a = get(o.a), &b = get(o.b), &c3 = get(o.c);
          Call c(fault && attempt == 0 ? o.oom : CallOpts{});
          have = true;
          switch (o.kind) {
            case 0: case 1: r = a & b; break;
            case 2: case 3: r = a | b; break;
            case 4: r = ~a; break;
            case 5: r = Not(a); break;
            case 6: r = And({a, b, c3}); break;
            case 7: r = Or({a, b}); break;
            case 8: r = Implies(a, b); break;
            case 9: r = Iff(a, b); break;
            case 10: r = Xor(a, b); break;
            case 11: r = Always(a, ast::Interval(o.lo, o.hi)); break;
            case 12: r = Eventually(a); break;
            case 13: r = Until(a, b); break;
            case 21: r = Always(a); break;
            case 22: r = Eventually(a, ast::Interval(o.lo, o.hi)); break;
            case 23: r = Until(a, b, ast::Interval(o.lo, o.hi)); break;
            case 14: case 15: { std::string s = fmt::to_string(a); have = false; printed = true; leave_call(); txt = s.c_str(); break; }
            case 16: r = a; break;
            case 18: case 19: {
              static const char* const names[] = {"x", "y", "z", "another_long_signal_name_that_is_not_inline", "a_long_signal_name_that_is_not_inline"};
              ast::Predicate p = Predicate(names[o.a % 5]);
              static const double odd[] = {0.1, 0.1 + 1e-9, 0.1 + 1e-16, 2.5, 2.5 + 1e-7, 2.5 + 1e-12, -0.0, 0.0, 1e9, 1e9 + 1e-3, 1e300, 1e-310, 16777217, 16777216};
              double d = o.kind == 18 ? (o.b - 32) / 4.0 : odd[o.b % 14];
              want = std::string("(") + names[o.a % 5] + (o.c % 4 == 0 ? ">" : o.c % 4 == 1 ? ">=" : o.c % 4 == 2 ? "<" : "<=");
              want_rhs = d;
              switch (o.c % 4) {
                case 0: r = p > d; break;
                case 1: r = p >= d; break;
                case 2: r = p < d; break;
                default: r = p <= d; break;
              }
              break;
            }
            case 20: r = o.c & 1 ? a : Expr(a & b); break;
            default: have = false; break;
          }
        } catch (...) {
          leave_call();
          res = current_exception_text();
          have = false;
        }
        bool hit = call_faulted();
        if (o.kind == 17 && attempt == 0) {          // drop one of our own
          if (!own.empty()) {
            size_t k = o.a % own.size();
            { Call c; own[k] = ast::Const{true}; own.erase(own.begin() + k); }
            snap.erase(snap.begin() + k);
          }
          res = "dropped";
        }
        if (have && res.empty() && o.kind == 20 && !own.empty()) {    // overwrite one of our own
          size_t k = o.b % own.size();
          res = canon(r);
          { Call c; own[k] = r; }
          snap[k] = res;
        } else if (have && res.empty()) {
          res = canon(r);
          if (!want.empty() && res != want + num(want_rhs) + ")") violation("wrong-formula", "building %s%s) gave %s", want.c_str(), num(want_rhs).c_str(), res.c_str());
          if (!o.brief) {
            own.push_back(r);
            snap.push_back(res);
          }
        }
        if (printed && res.empty()) res = txt;
        { Call c; r = ast::Const{false}; }
        check(hit ? "a failed operation" : "an operation");
        log("t%d op %zu kind %d -> %s", t, i, o.kind, res.c_str());
        if (hit && res.compare(0, 6, "throws") == 0) { stat("operation failed under memory exhaustion"); continue; }
        break;
      }
      outcome((int)i, res);
    }
    { Call c; own.clear(); }
  };
  if (phase() == 0) {
    set_phases(nt);
    if (nt == 1) run_thread(0, true);
    else {
      sched_setup();
      for (int t = 0; t < nt; t++) spawn([&, t] { run_thread(t, true); });
      join_all();
    }
    for (size_t i = 0; i < pool.size(); i++)
      if (canon(pool[i]) != poolsnap[i]) violation("formula-changed", "a shared formula changed from %s to %s", poolsnap[i].c_str(), canon(pool[i]).c_str());
    stat("formula operations", ops.size());
  } else run_thread(phase() - 1, false);
}

// ================================================================== C03
void run_c03() {
  gen_identity("C03");
  int ntx = 1 + choose(W, 4);
  std::vector<std::string> tx;
  for (int i = 0; i < ntx; i++) {
    SpecModel sp = gen_spec(4);
    if (flip(W, 8)) redefine(sp);
    std::string t = sp.text;
    if (flip(W, 4)) t = damage(t);
    tx.push_back(t);
  }
  int nt = 2 + choose(W, 3);
  struct POp { int thr, tx; bool file; CallOpts oom; };
  std::vector<POp> ops;
  for (int t = 0; t < nt; t++) {
    int k = 1 + choose(W, 3);
    for (int i = 0; i < k; i++) ops.push_back({t, (int)choose(W, ntx), choose(W, 3) == 2, {}});
  }
  if (flip(F, 4)) for (auto& o : ops) o.oom = draw_oom(5, 80);
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  if (flip(F, 3)) env_locale(true);
  std::string env0 = env_signature();
  uint64_t wh = 0;
  for (int i = 0; i < ntx; i++) {
    log("text %d: %s", i, tx[i].c_str());
    disk_write((std::string("f") + char('0' + i)).c_str(), tx[i]);
    wh = wh * 31 + hash_text(tx[i]);
  }
  work_hash(wh);
  auto do_op = [&](size_t i, bool fault) {
    auto& o = ops[i];
    std::string res;
    std::unique_ptr<Specification> sp;
    try {
      std::string path = disk_path((std::string("f") + char('0' + o.tx)).c_str());
      Call c(fault ? o.oom : CallOpts{});
      if (o.file) sp = parser::from_file(path);
      else sp = parser::from_string(tx[o.tx]);
    } catch (...) {
      leave_call();
      res = current_exception_text();
    }
    bool hit = call_faulted();
    if (res.empty()) res = sp ? canon(*sp) : "null";
    { Call c; sp.reset(); }
    outcome((int)i, res, !hit);
    log("op %zu text %d %s -> %s", i, o.tx, o.file ? "file" : "string", res.c_str());
    stat(res.compare(0, 6, "throws") ? "parses that succeed" : "parses that fail");
  };
  if (phase() == 0) {
    set_phases(std::min<size_t>(ops.size(), 8));
    sched_setup();
    for (int t = 0; t < nt; t++)
      spawn([&, t] {
        for (size_t i = 0; i < ops.size(); i++) if (ops[i].thr == t) do_op(i, true);
      });
    join_all();
    std::string env1 = env_signature();
    if (env0 != env1) violation("environment-changed", "parsing changed settings of the whole process from %s to %s", env0.c_str(), env1.c_str());
  } else do_op(phase() - 1, false);
}

// ================================================================== C12
static void readers(bool alone) {     // alone: no appends, no lock
  gen_identity("C12");
  int ns = 2;
  std::vector<SigData> full(ns);
  std::vector<int> init(ns);
  for (int s = 0; s < ns; s++) {
    full[s] = flip(W, 6) ? gen_signal_wild(10) : gen_signal(flip(W, 12) ? 80 : 14, 4);
    init[s] = full[s].size() > 20 ? full[s].size() - choose(W, 6) : 1 + choose(W, full[s].size());
  }
  enum { AT, RANGE, RESIZE, SHIFT, RSHIFT, SIMPLIFY, SYNC, COPY, PRINT, EVAL, ENDS, KEEP, NREAD };
  struct ROp { int thr, kind, s; double p, q, r, d; };
  int nr = 2 + choose(W, 3);
  std::vector<ROp> ops;
  auto tm = [&](int s) { auto& d = full[s]; return flip(W, 3) ? d[choose(W, d.size())].first : d.back().first * choose(W, 20) / 16.0; };
  for (int t = 0; t < nr; t++) {
    int k = 1 + choose(W, 4);
    for (int i = 0; i < k; i++) {
      ROp o{t, (int)choose(W, NREAD), (int)choose(W, ns), 0, 0, quarter(8), quarter(8)};
      o.p = tm(o.s);
      o.q = tm(o.s);
      if (o.p > o.q) std::swap(o.p, o.q);
      ops.push_back(o);
    }
  }
  GenOpts fo;
  fo.names = {"x", "y"};
  fo.depth = 1 + choose(W, 3);
  MP m = gen_formula(fo);
  CallOpts oom[2];
  bool faults = flip(F, 5);
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  log("x=%s y=%s formula %s", sdata(full[0]).c_str(), sdata(full[1]).c_str(), mtext(m).c_str());
  work_hash(hash_text(sdata(full[0]) + sdata(full[1]) + mtext(m)));

  std::vector<SignalPtr> sig;
  Trace tr;
  Expr phi{ast::Const{false}};
  auto make = [&](int vx, int vy) {
    Call c;
    sig.clear();
    std::map<const M*, Expr> memo;
    phi = build(m, memo);
    int v[2] = {vx, vy};
    for (int s = 0; s < ns; s++) sig.push_back(make_signal(SigData(full[s].begin(), full[s].begin() + v[s])));
    tr.clear();
    tr["x"] = sig[0];
    tr["y"] = sig[1];
  };
  auto walk = [](const Signal& x, const ROp& o, std::vector<double>& v) {
    v = {x.begin_time(), x.end_time(), (double)x.size()};
    for (auto& s : x) v.insert(v.end(), {s.time, s.value, s.derivative});
    v.push_back(x.at(x.begin_time() <= o.p && o.p <= x.end_time() ? o.p : x.begin_time()).value);
  };
  // a copy is taken under the lock, and read and dropped without it
  auto read_copy = [&](const ROp& o, RwLock* lk, const std::function<void()>& note) -> std::string {
    std::optional<Signal> own;
    std::vector<double> v;
    std::string res;
    for (int part = 0; part < 2; part++) {
      if (part == 0 && lk) lk->rdlock();
      if (part == 0) note();
      try {
        Call c;
        if (part == 0) own.emplace(*sig[o.s]);
        else walk(*own, o, v);
      } catch (...) {
        leave_call();
        res = current_exception_text();
      }
      if (part == 0 && lk) lk->unlock();
      if (lk) pause_point();
    }
    { Call c; own.reset(); }
    for (double d : v) res += num(d) + " ";
    return res;
  };
  auto read = [&](const ROp& o) -> std::string {
    if (o.kind == KEEP) return read_copy(o, nullptr, [] {});
    SignalPtr r, r2;
    std::vector<double> v;
    std::string txt, res;
    try {
      std::string s;
      Call c;
      auto& x = sig[o.s];
      switch (o.kind) {
        case AT: { Sample a = x->at(o.p); v = {a.time, a.value, a.derivative}; break; }
        case RANGE: { auto i = x->begin_at(o.p), j = x->end_at(o.q); v = {(double)(i - x->begin()), (double)(j - x->begin())}; for (; i < j; ++i) v.push_back(i->value); break; }
        case RESIZE: r = x->resize(o.p, o.q + 1, o.r); break;
        case SHIFT: r = x->shift(o.d); break;
        case RSHIFT: r = x->resize_shift(o.p, o.q + 1, o.r, o.d); break;
        case SIMPLIFY: r = x->simplify(); break;
        case SYNC: std::tie(r, r2) = signal::synchronize(sig[0], sig[1]); break;
        case COPY: r = std::make_shared<Signal>(*x); break;
        case PRINT: txt = fmt::to_string(*x); break;
        case EVAL: r = semantics::compute_robustness(phi, tr); break;
        default: v = {x->begin_time(), x->end_time(), (double)x->size(), x->front().value, x->back().value}; for (auto i = x->rbegin(); i != x->rend(); ++i) v.push_back(i->value);
      }
    } catch (...) {
      leave_call();
      res = current_exception_text();
    }
    if (res.empty()) {
      if (r) res = canon(r);
      if (r2) res += canon(r2);
      for (double d : v) res += num(d) + " ";
      res += txt;
    }
    return res;
  };
  Result* R = cfg().res;
  if (phase() == 0) {
    set_phases(1);
    make(init[0], init[1]);
    int ver[2] = {init[0], init[1]};
    RwLock lk;
    sched_setup();
    std::vector<int> fk;
    for (int t = 0; t < nr; t++)
      spawn([&, t] {
        for (size_t i = 0; i < ops.size(); i++) {
          if (ops[i].thr != t) continue;
          auto note = [&] {
            R->version[2 * i] = ver[0];
            R->version[2 * i + 1] = ver[1];
          };
          std::string res;
          if (ops[i].kind == KEEP && !alone) {
            res = read_copy(ops[i], &lk, note);
            stat("copies read without the lock");
          } else {
            if (!alone) lk.rdlock();
            note();
            res = read(ops[i]);
            if (!alone) lk.unlock();
          }
          outcome((int)i, res);
          log("read %zu kind %d versions %u %u -> %s", i, ops[i].kind, R->version[2 * i], R->version[2 * i + 1], res.c_str());
        }
      });
    std::vector<std::pair<int, CallOpts>> order;
    int left = alone ? 0 : (int)full[0].size() - init[0] + (int)full[1].size() - init[1];
    for (int k = 0, a = full[0].size() - init[0]; k < left; k++) {
      CallOpts co;
      if (faults && flip(F, 3)) co.oom_at = 0;
      order.push_back({k < a ? 0 : 1, co});
    }
    for (size_t k = 0; k + 1 < order.size(); k++) if (choose(F, 2)) std::swap(order[k].first, order[k + 1].first);
    if (!alone) spawn([&] {
      for (auto& [s, co] : order) {
        pause_point();
        lk.wrlock();
        for (int attempt = 0; attempt < 2; attempt++) {
          bool ok = true;
          try {
            Call c(attempt == 0 ? co : CallOpts{});
            sig[s]->push_back(full[s][ver[s]].first, full[s][ver[s]].second);
          } catch (const std::bad_alloc&) {
            leave_call();
            ok = false;
            // readers must not notice the failed append
            lk.unlock();
            pause_point();
            lk.wrlock();
          }
          if (ok) { ver[s]++; break; }
        }
        lk.unlock();
      }
    });
    join_all();
    stat("reads under the lock", ops.size());
    stat("appends between reads", order.size());
  } else {
    const Result* p0 = cfg().phase0;
    for (size_t i = 0; i < ops.size(); i++) {
      make(p0->version[2 * i], p0->version[2 * i + 1]);
      outcome((int)i, read(ops[i]));
    }
  }
}
void run_c12() { readers(false); }

// ================================================================== C16
void run_c16() {
  gen_identity("C16");
  stall_threads();
  switch (choose(W, 5)) {
    case 0: return run_c02();
    case 1: return run_c03();
    case 2: return readers(true);
    default: return run_c01();
  }
}

// ================================================================== C18
// Objects travel: made in one thread, read, used and dropped in others, long after their makers have ended.
void run_c18() {
  gen_identity("C18");
  int rounds = 2 + choose(W, 3), nt = 1 + choose(W, 3);
  int no = 2 + choose(W, 6);
  OpGen og;
  std::vector<Op> ops;
  for (int i = 0; i < no; i++) {
    Op o = gen_op(og);
    if (i && flip(W, 3)) o = ops[choose(W, i)];      // the same call in different threads
    else if (i && o.kind == Op::EVAL && ops[i - 1].kind == Op::EVAL && flip(W, 2)) { o.m = ops[i - 1].m; o.sigs = ops[i - 1].sigs; }
    if (o.kind == Op::PARSE_FILE) o.file = "h" + std::to_string(i);
    ops.push_back(o);
  }
  if (flip(W, 3)) {                                   // they give the same kind of thing
    og.only = {ops[0].kind};
    for (int i = 1; i < no; i++) { ops[i] = gen_op(og); if (ops[i].kind == Op::PARSE_FILE) ops[i].file = "h" + std::to_string(i); }
  }
  struct Act { int what, pick; CallOpts oom; };
  struct Plan { std::vector<int> make; std::vector<Act> acts; };
  std::vector<std::vector<Plan>> plan(rounds, std::vector<Plan>(nt));
  for (int i = 0; i < no; i++) plan[choose(W, i ? rounds : 1)][choose(W, nt)].make.push_back(i);
  bool faults = flip(F, 4);
  for (auto& r : plan)
    for (auto& p : r) {
      int k = choose(W, 5);
      for (int i = 0; i < k; i++) p.acts.push_back({(int)choose(W, 8), (int)choose(W, 16), faults ? draw_oom(4, 40) : CallOpts{}});
    }
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  uint64_t wh = rounds * 8 + nt;
  for (auto& o : ops) { log("op %s", o.describe().c_str()); wh = wh * 31 + hash_text(o.describe()); if (o.kind == Op::PARSE_FILE && o.sub != 1) disk_write(o.file.c_str(), o.text); }
  for (auto& r : plan) for (auto& p : r) { for (int m : p.make) wh = wh * 31 + m; for (auto& a : p.acts) wh = wh * 31 + a.what * 16 + a.pick; }
  work_hash(wh);
  if (phase() > 0) {
    int i = phase() - 1;
    Inst in(ops[i]);
    in.prepare();
    in.call();
    outcome(i, in.result);
    return;
  }
  set_phases(std::min(no, 8));

  struct Item { std::unique_ptr<Inst> in; std::string want, inputs; int op, maker, copies; };
  std::vector<std::unique_ptr<Item>> box;             // guarded by m
  RwLock m;
  auto check = [&](Item& it, const char* when) {
    std::string now = it.in->read(), ins = it.in->inputs();
    if (now != it.want)
      violation("result-changed", "%s the result of op %d, made by another thread or earlier, is no longer %.300s but %.300s", when, it.op, it.want.c_str(), now.c_str());
    if (ins != it.inputs) violation("input-changed", "%s the inputs of op %d are no longer %.300s but %.300s", when, it.op, it.inputs.c_str(), ins.c_str());
  };
  auto put = [&](std::unique_ptr<Item> it) { m.wrlock(); box.push_back(std::move(it)); m.unlock(); };
  auto take = [&](int pick) {
    std::unique_ptr<Item> it;
    m.wrlock();
    if (!box.empty()) {
      size_t k = pick % box.size();
      it = std::move(box[k]);
      box.erase(box.begin() + k);
    }
    m.unlock();
    return it;
  };
  auto body = [&](int r, int t) {
    const Plan& p = plan[r][t];
    std::map<const M*, Expr> memo;
    for (int i : p.make) {
      auto it = std::make_unique<Item>();
      it->op = i;
      it->maker = self_id();
      it->in = std::make_unique<Inst>(ops[i]);
      it->in->keep_exception = true;
      if (i & 1) it->in->prepare(&memo);
      else it->in->prepare();
      it->in->call();
      it->want = it->in->read();
      it->inputs = it->in->inputs();
      outcome(i, it->want);
      log("r%d t%d makes op %d: %s", r, t, i, it->want.c_str());
      put(std::move(it));
    }
    for (auto& a : p.acts) {
      auto it = take(a.pick);
      if (!it) continue;
      log("r%d t%d action %d on op %d", r, t, a.what, it->op);
      bool other = it->maker != self_id();
      if (other) stat("objects handed to another thread");
      check(*it, "after a hand-over");
      switch (a.what) {
        case 0: case 1: {                             // make the call again, dropping the first result here
          if (it->in->op->kind == Op::PUSH || !it->in->has_inputs()) break;
          it->in->call(a.oom);
          if (it->in->oom) { stat("calls that ran out of memory"); it->in->call(); }
          check(*it, "made again in another thread,");
          if (a.what == 0) { it->in->call(); check(*it, "made twice in another thread,"); }
          it->maker = self_id();
          break;
        }
        case 2: {                                     // somebody else's result is used by this thread's own calls
          std::string s1 = it->in->use(), s2 = it->in->use();
          if (s1 != s2) violation("use-differs", "using the result of op %d twice gave %.300s and %.300s", it->op, s1.c_str(), s2.c_str());
          check(*it, "after use");
          break;
        }
        case 3: it->in->forget_inputs(); it->inputs = it->in->inputs(); break;
        case 4: it.reset(); stat("objects dropped by another thread", other); break;
        case 5: pause_point(); break;
        default: break;
      }
      if (it) { check(*it, "afterwards"); put(std::move(it)); }
    }
    memo.clear();
  };
  sched_setup();
  for (int r = 0; r < rounds; r++) {
    if (nt == 1 && flip(W, 2)) body(r, 0);            // or the main thread
    else {
      for (int t = 0; t < nt; t++) spawn([&, r, t] { body(r, t); });
      join_all();                                     // these threads have ended
    }
    for (auto& it : box) check(*it, "after its thread had ended,");
  }
  stat("objects that outlived their threads", box.size());
  for (auto& it : box) {
    if (it->in->op->kind != Op::PUSH && it->in->has_inputs()) { it->in->call(); check(*it, "made again in the end,"); }
  }
  box.clear();
}
} // namespace w
