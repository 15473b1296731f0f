// C11: a live monitor fed by sensors over a lossy network, with a journal, crashes and restarts.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cmath>

namespace w {
using signal_tl::Specification; namespace parser = signal_tl::parser; namespace semantics = signal_tl::semantics;

// ------------------------------------------------------------------ reference semantics
// Piecewise-linear functions with break points; `whole` marks a constant without its own domain.
struct Pw {
  std::vector<std::pair<double, double>> p;
  bool whole = false;
  double c = 0;
  bool empty() const { return !whole && p.empty(); }
  double at(double t) const {
    if (whole) return c;
    size_t i = std::upper_bound(p.begin(), p.end(), t, [](double a, const std::pair<double, double>& b) { return a < b.first; }) - p.begin();
    if (i == 0) return p.front().second;
    auto& a = p[i - 1];
    if (a.first == t || i == p.size()) return a.second;
    auto& b = p[i];
    if (a.second == b.second) return a.second;
    return a.second + (b.second - a.second) * ((t - a.first) / (b.first - a.first));
  }
};
static std::vector<double> common_times(const Pw& a, const Pw& b) {
  std::vector<double> t;
  if (a.whole && b.whole) return t;
  if (a.empty() || b.empty()) return t;
  double lo = -INFINITY, hi = INFINITY;
  for (auto x : {&a, &b}) if (!x->whole) { lo = std::max(lo, x->p.front().first); hi = std::min(hi, x->p.back().first); }
  for (auto x : {&a, &b}) if (!x->whole) for (auto& q : x->p) if (q.first >= lo && q.first <= hi) t.push_back(q.first);
  std::sort(t.begin(), t.end());
  t.erase(std::unique(t.begin(), t.end()), t.end());
  return t;
}
static Pw minmax(const Pw& a, const Pw& b, bool mn) {
  auto pick = [&](double x, double y) { return mn ? std::min(x, y) : std::max(x, y); };
  Pw r;
  if (a.whole && b.whole) { r.whole = true; r.c = pick(a.c, b.c); return r; }
  auto ts = common_times(a, b);
  for (size_t i = 0; i < ts.size(); i++) {
    double x = a.at(ts[i]), y = b.at(ts[i]);
    if (i && std::isfinite(x) && std::isfinite(y)) {
      double x0 = a.at(ts[i - 1]), y0 = b.at(ts[i - 1]), d0 = x0 - y0, d1 = x - y;
      if ((d0 < 0 && d1 > 0) || (d0 > 0 && d1 < 0)) {
        double tc = ts[i - 1] + (ts[i] - ts[i - 1]) * (d0 / (d0 - d1));
        if (tc > ts[i - 1] && tc < ts[i]) r.p.push_back({tc, a.at(tc)});
      }
    }
    r.p.push_back({ts[i], pick(x, y)});
  }
  return r;
}
static Pw neg(Pw a) {
  a.c = -a.c;
  for (auto& q : a.p) q.second = -q.second;
  return a;
}
static Pw running(Pw a, bool mn) {
  for (int i = int(a.p.size()) - 2; i >= 0; i--) a.p[i].second = mn ? std::min(a.p[i].second, a.p[i + 1].second) : std::max(a.p[i].second, a.p[i + 1].second);
  return a;
}
static Pw until(const Pw& x, const Pw& y) {
  Pw r;
  auto ts = common_times(x, y);
  double nx = -INFINITY;
  if (x.whole && y.whole) { r.whole = true; r.c = std::max(y.c, std::min(x.c, nx)); return r; }
  for (int i = int(ts.size()) - 1; i >= 0; i--) {
    nx = std::max(y.at(ts[i]), std::min(x.at(ts[i]), nx));
    r.p.push_back({ts[i], nx});
  }
  std::reverse(r.p.begin(), r.p.end());
  return r;
}
using Acc = std::map<std::string, SigData>;
static Pw reference(const Expr& e, const Acc& tr) {
  using stl::ast::ComparisonOp; using stl::ast::NotPtr; using stl::ast::AndPtr; using stl::ast::OrPtr; using stl::ast::AlwaysPtr; using stl::ast::EventuallyPtr; using stl::ast::UntilPtr;
  if (auto c = std::get_if<stl::ast::Const>(&e)) { Pw r; r.whole = true; r.c = c->value ? INFINITY : -INFINITY; return r; }
  if (auto p = std::get_if<stl::ast::Predicate>(&e)) {
    Pw r;
    bool up = p->op == ComparisonOp::GT || p->op == ComparisonOp::GE;
    for (auto& s : tr.at(p->name)) r.p.push_back({s.first, up ? s.second - p->rhs : p->rhs - s.second});
    return r;
  }
  if (auto n = std::get_if<NotPtr>(&e)) return neg(reference((*n)->arg, tr));
  if (auto n = std::get_if<AndPtr>(&e)) {
    Pw r = reference((*n)->args[0], tr);
    for (size_t i = 1; i < (*n)->args.size(); i++) r = minmax(r, reference((*n)->args[i], tr), true);
    return r;
  }
  if (auto n = std::get_if<OrPtr>(&e)) {
    Pw r = reference((*n)->args[0], tr);
    for (size_t i = 1; i < (*n)->args.size(); i++) r = minmax(r, reference((*n)->args[i], tr), false);
    return r;
  }
  if (auto n = std::get_if<AlwaysPtr>(&e)) return running(reference((*n)->arg, tr), true);
  if (auto n = std::get_if<EventuallyPtr>(&e)) return running(reference((*n)->arg, tr), false);
  if (auto n = std::get_if<UntilPtr>(&e)) return until(reference((*n)->args.first, tr), reference((*n)->args.second, tr));
  return {};
}
static std::string acc_text(const Acc& a) {
  std::string s;
  for (auto& [k, v] : a) s += k + "=" + sdata(v) + " ";
  return s;
}
// empty if `got` is what the reference says
// Times this large are rounded to whole ulps, also where two signals cross; a steep signal turns that
// into an error of its value.  Nothing beyond that is excused.
static double rounding(const Acc& tr) {
  double m = 0, d = 0, v = 0;
  for (auto& [k, x] : tr)
    for (size_t i = 0; i < x.size(); i++) {
      m = std::max(m, std::fabs(x[i].first));
      v = std::max(v, std::fabs(x[i].second));
      if (i) d = std::max(d, std::fabs((x[i].second - x[i - 1].second) / (x[i].first - x[i - 1].first)));
    }
  return 8 * d * (std::nextafter(m, INFINITY) - m) + 1e-12 * v;
}
static std::string differs(const Signal& got, const Pw& want, double slack) {
  if (want.whole) {
    for (auto& s : got) if (s.value != want.c) return "value " + num(s.value) + " at " + num(s.time) + " instead of " + num(want.c);
    return "";
  }
  if (want.p.empty()) return got.empty() ? "" : "not empty, although some signal involved has no sample in common with the others";
  if (got.empty()) return "empty, although defined from " + num(want.p.front().first) + " to " + num(want.p.back().first);
  if (got.begin_time() != want.p.front().first || got.end_time() != want.p.back().first)
    return "defined from " + num(got.begin_time()) + " to " + num(got.end_time()) + " instead of from " + num(want.p.front().first) + " to " + num(want.p.back().first);
  Pw g;
  double last = -INFINITY;
  for (auto& s : got) {
    if (std::isnan(s.time) || std::isnan(s.value)) return "not a number in sample at " + num(s.time);
    if (!(s.time > last)) return "times not increasing at " + num(s.time);
    last = s.time;
    g.p.push_back({s.time, s.value});
  }
  for (auto& q : want.p) {
    double v = g.at(q.first);
    if (v == q.second) continue;
    if (!(std::fabs(v - q.second) <= 1e-6 * (1 + std::fabs(q.second)) + slack)) return "value " + num(v) + " at time " + num(q.first) + " instead of " + num(q.second);
  }
  return "";
}

// ------------------------------------------------------------------ the monitor
void run_c11() {
  gen_identity("C11");
  heap_policy(draw_heap_policy());
  static const char* all[] = {"x", "y", "speed", "pressure_of_the_left_rear_tyre", "z", "w6"};
  int ns = flip(W, 10) ? 4 + choose(W, 3) : 1 + choose(W, 3);
  std::vector<std::string> names(all, all + ns);
  GenOpts go;
  go.names = names;
  go.until_simple = true;
  uint64_t wh = ns;

  // sensors: every sensor stamps with its own skewed, drifting, jumping clock
  struct Msg { double arrive; int s; double t, v; int seq; };
  std::vector<Msg> net;
  int seq = 0;
  bool quiet = flip(W, 6);
  // seconds since some epoch, since the start, or before an event
  static const double origins[] = {1.6e9, -8, 1e6, 0.1};
  double origin = flip(W, 5) ? origins[choose(W, 4)] : 0;
  if (origin > 1e9) stat("monitors with epoch timestamps");
  bool decimals = flip(W, 3);           // measurements like 0.1, not only multiples of a quarter
  bool lengthy = flip(W, 40);
  if (lengthy) stat("monitors with long histories");
  // fleets with a shared schedule: all sensors begin and end together and differ only in between
  double together = choose(W, 3) == 1 ? 1 + choose(W, 8) / 2.0 : 0;
  for (int s = 0; s < ns; s++) {
    int n = 1 + choose(W, together ? 5 : lengthy ? 120 : 12);
    double base = together || choose(W, 3) ? 0.0 : choose(W, 24) / 4.0;
    double skew = together || choose(W, 3) ? 0.0 : choose(W, 16) / 8.0;
    double period = (1 + choose(W, 6)) / 4.0;
    int walk = choose(W, 3);
    double local = base, v = quarter(20);
    double part0 = flip(F, 4) ? choose(F, 40) / 4.0 : -1, part1 = part0 < 0 ? -1 : part0 + (1 + choose(F, 24)) / 4.0;
    bool hold = choose(F, 2);
    if (part0 >= 0) fault_note("net-partition");
    for (int k = 0; k < n; k++) {
      double real = base + k * period;
      double step = choose(W, 4) ? period : (1 + choose(W, 8)) / 8.0;
      local += k ? step : 0;
      if (together && k == n - 1) {
        local = together;
        real = std::max(real, together);
      }
      if (!quiet && !together && flip(F, 14)) { local += (int(choose(F, 24)) - 12) / 4.0; fault_note("clock-jump-sensor"); }
      v = walk == 0 ? quarter(24) : walk == 1 ? v + quarter(4) : (k % 2 ? -v : quarter(10));
      if (decimals) v = std::round(v * 1000 + choose(W, 1000)) / 1000 * (choose(W, 2) ? 1 : 0.1);
      Msg m{real + choose(W, 3) / 8.0, s, origin + (local + skew), v, seq++};
      if (skew) stat("messages stamped by a skewed clock");
      if (!quiet) {
        if (flip(F, 9)) { fault_note("net-drop"); continue; }
        if (part0 >= 0 && real >= part0 && real < part1) {
          if (!hold) { fault_note("net-drop-in-partition"); continue; }
          m.arrive = part1 + choose(F, 4) / 8.0;
          fault_note("net-held-until-heal");
        }
        if (flip(F, 8)) { m.arrive += choose(F, 32) / 4.0; fault_note("net-delay"); }
        if (flip(F, 16)) {
          static const double bad[] = {NAN, -NAN};
          m.t = choose(F, 3) == 2 ? m.t - 1000 : bad[choose(F, 2)];
          fault_note("corrupt-timestamp");
        }
        if (flip(F, 9)) { Msg d = m; d.arrive += choose(F, 16) / 4.0; net.push_back(d); fault_note("net-duplicate"); }
      }
      net.push_back(m);
    }
  }
  bool shuffle = choose(F, 2);
  std::vector<uint32_t> prio;
  for (auto& m : net) { (void)m; prio.push_back(shuffle ? choose(F, 1000) : 0); }
  std::vector<size_t> order(net.size());
  for (size_t i = 0; i < order.size(); i++) order[i] = i;
  std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return net[a].arrive != net[b].arrive ? net[a].arrive < net[b].arrive : prio[a] < prio[b]; });
  wh = wh * 131 + net.size();

  // specification on disk
  SpecModel sm = gen_spec(1 + choose(W, 3), true, &go);
  disk_write("spec.stl", sm.text);
  log("specification %s", sm.text.c_str());
  wh = wh * 131 + hash_text(sm.text);

  struct Mon {
    Trace tr;
    std::unique_ptr<Specification> spec;
    std::vector<Expr> fs;
  };
  Mon* mon = nullptr;
  Acc acc;                                    // what the monitor accepted
  struct J { int s; double t, v; };
  std::vector<J> journal;                     // durable
  size_t unsynced = 0;                        // entries at the end that a crash may lose
  bool faults_on = true;
  auto draw_co = [&](int den) {
    CallOpts c;
    if (faults_on && flip(F, den)) { c.oom_at = choose(F, 40); c.oom_persist = choose(F, 2); }
    return c;
  };
  auto load_spec = [&]() {
    for (int attempt = 0;; attempt++) {
      bool f = faults_on && attempt < 4;
      IoPlan plan;
      CallOpts co;
      if (f && flip(F, 3)) {
        plan.n = 1;
        plan.ev[0] = choose(F, 4);
        plan.what[0] = 1 + choose(F, 3);
        static const int errs[] = {EIO, ENOMEM, EMFILE, EACCES};
        plan.err[0] = errs[choose(F, 4)];
      }
      if (f) co = draw_co(6);
      io_arm(plan);
      std::string ex;
      std::unique_ptr<Specification> sp;
      try {
        std::string path = disk_path("spec.stl");
        Call c(co);
        sp = parser::from_file(path);
      } catch (...) { leave_call(); ex = current_exception_text(); }
      bool hit = call_faulted();
      io_disarm();
      log("load specification: %s%s", sp ? "ok" : ex.c_str(), hit ? " (fault)" : "");
      if (!sp) {
        if (!hit) violation("specification-refused", "the specification cannot be loaded although nothing failed: %s; text %.1500s", ex.c_str(), sm.text.c_str());
        stat("specification loads that had to be retried");
        continue;
      }
      std::string d = match_spec(*sp, sm.items);
      if (!d.empty()) violation("wrong-specification", "%s; text %.1500s", d.c_str(), sm.text.c_str());
      Call c;
      mon->spec = std::move(sp);
      mon->fs.clear();
      for (auto& x : mon->spec->formulas) mon->fs.push_back(x.second);
      for (auto& x : mon->spec->assertions) mon->fs.push_back(x.second);
      return;
    }
  };
  auto start = [&]() {                        // fresh process: everything from the journal
    mon = new Mon();
    acc.clear();
    for (auto& n : names) acc[n];
    for (auto& j : journal) acc[names[j.s]].push_back({j.t, j.v});
    int how = choose(W, 4);
    for (auto& n : names) {
      for (int attempt = 0;; attempt++) {
        SignalPtr s;
        std::string ex;
        std::vector<double> pv, tv;
        std::vector<Sample> sv;
        for (auto& x : acc[n]) { pv.push_back(x.second); tv.push_back(x.first); sv.push_back({x.first, x.second, -3.0}); }
        try {
          Call c(attempt < 3 ? draw_co(8) : CallOpts{});
          if (how == 0) s = std::make_shared<Signal>(pv, tv);
          else if (how == 1) s = std::make_shared<Signal>(sv);
          else { s = std::make_shared<Signal>(); for (size_t i = 0; i < sv.size(); i++) s->push_back(tv[i], pv[i]); }
          mon->tr[n] = s;
        } catch (...) { leave_call(); ex = current_exception_text(); }
        if (ex.empty()) break;
        if (!call_faulted()) violation("restart-failed", "signal %s cannot be rebuilt from its journal: %s; %s", n.c_str(), ex.c_str(), sdata(acc[n]).c_str());
      }
    }
    load_spec();
  };
  auto stop = [&]() {
    Call c;
    delete mon;
    mon = nullptr;
  };
  int nevals = 0;
  auto check_result = [&](const SignalPtr& r, const Expr& f, const Acc& a, const char* when) {
    if (!r) violation("wrong-verdict", "%s: no result for %.600s", when, canon(f).c_str());
    std::string d = differs(*r, reference(f, a), rounding(a));
    if (!d.empty())
      violation("wrong-verdict", "%s: the robustness of %.800s is %s; result %.600s; accepted samples %.800s", when, canon(f).c_str(), d.c_str(), canon(*r).c_str(), acc_text(a).c_str());
    nevals++;
  };
  auto evaluate = [&](const Expr& f, const Trace& tr, const Acc& a, bool must, const char* when) {
    SignalPtr r;
    std::string ex;
    try {
      Call c(must ? CallOpts{} : draw_co(8));
      r = semantics::compute_robustness(f, tr);
    } catch (...) { leave_call(); ex = current_exception_text(); }
    bool hit = call_faulted();
    if (!ex.empty()) {
      if (!hit) violation("no-verdict", "%s: %.800s cannot be evaluated although nothing failed (%s); accepted samples %.1000s", when, canon(f).c_str(), ex.c_str(), acc_text(a).c_str());
      stat("evaluations that failed under memory exhaustion");
    } else check_result(r, f, a, when);
    { Call c; r.reset(); }
  };
  auto ingest = [&](const Msg& m, bool durable_now) {
    auto& n = names[m.s];
    auto& h = acc[n];
    bool ok_time = !std::isnan(m.t) && (h.empty() || m.t > h.back().first);
    std::string ex;
    try {
      Call c(draw_co(12));
      if (m.seq & 1) mon->tr.at(n)->push_back(m.t, m.v);
      else mon->tr.at(n)->push_back(Sample{m.t, m.v});
    } catch (...) { leave_call(); ex = current_exception_text(); }
    bool hit = call_faulted();
    log("t=%s %s sample %s:%s %s%s", num(env_now() / 1e6).c_str(), n.c_str(), num(m.t).c_str(), num(m.v).c_str(), ex.empty() ? "accepted" : "rejected", hit ? " (memory)" : "");
    if (ex.empty()) {
      if (!ok_time) violation("bad-sample-accepted", "a sample stamped %s was accepted by a signal ending at %s", num(m.t).c_str(), h.empty() ? "nothing" : num(h.back().first).c_str());
      h.push_back({m.t, m.v});
      journal.push_back({m.s, m.t, m.v});
      unsynced = durable_now ? 0 : unsynced + 1;
      stat("samples accepted");
    } else {
      if (ok_time && !hit) violation("good-sample-rejected", "a sample stamped %s was rejected by a signal ending at %s: %s", num(m.t).c_str(), h.empty() ? "nothing" : num(h.back().first).c_str(), ex.c_str());
      stat(hit ? "samples lost to memory exhaustion" : "samples rejected by their timestamp");
    }
  };

  start();
  double now = 0;
  bool scheduled = false;
  for (size_t i = 0; i < order.size(); i++) {
    auto& m = net[order[i]];
    if (m.arrive > now) { env_advance((int64_t)((m.arrive - now) * 1e6)); now = m.arrive; }
    if (faults_on && flip(F, 20)) env_clock_jump((int64_t(choose(F, 200)) - 100) * 1000000);
    ingest(m, choose(F, 3) != 1);
    if (choose(W, 3) == 0)
      for (auto& f : mon->fs) { evaluate(f, mon->tr, acc, false, "while running"); if (choose(W, 2)) break; }
    if (flip(W, 12)) {                         // evaluators on a snapshot while samples keep arriving
      Trace snap;
      Acc sacc = acc;
      {
        Call c;
        for (auto& x : mon->tr) snap[x.first] = std::make_shared<Signal>(*x.second);
      }
      if (!scheduled) { sched_setup(); scheduled = true; }
      int nt = 1 + choose(W, 3);
      for (int t = 0; t < nt; t++)
        spawn([&, t] { for (int k = 0; k < 2; k++) evaluate(mon->fs[(t + k) % mon->fs.size()], snap, sacc, false, "concurrently, on a snapshot"); });
      int more = choose(W, 4);
      spawn([&] { for (int k = 0; k < more && i + 1 < order.size(); k++) ingest(net[order[++i]], true); });
      join_all();
      { Call c; snap.clear(); }
      stat("groups of concurrent evaluations");
    }
    if (flip(W, 25)) load_spec();
    if (faults_on && flip(F, 14)) {            // crash
      size_t lost = unsynced ? choose(F, unsynced + 1) : 0;
      journal.resize(journal.size() - lost);
      unsynced = 0;
      log("crash, %zu journal entries lost", lost);
      fault_note("crash-monitor");
      if (lost) fault_note("crash-lost-unsynced-journal");
      stop();
      start();
      for (auto& f : mon->fs) evaluate(f, mon->tr, acc, false, "after a restart");
    }
  }
  // faults stop
  faults_on = false;
  for (auto& f : mon->fs) evaluate(f, mon->tr, acc, true, "after faults stopped");
  load_spec();
  for (auto& f : mon->fs) evaluate(f, mon->tr, acc, true, "after faults stopped and a reload");
  // a monitor that only ever saw the accepted samples computes the very same thing
  {
    Trace clean;
    for (auto& n : names) {
      std::string ex;
      try {
        Call c;
        auto s = std::make_shared<Signal>();
        for (auto& x : acc[n]) s->push_back(x.first, x.second);
        clean[n] = s;
      } catch (...) { leave_call(); ex = current_exception_text(); }
      if (!ex.empty()) violation("restart-failed", "accepted samples cannot be replayed: %s", ex.c_str());
    }
    for (auto& f : mon->fs) {
      SignalPtr a, b;
      try {
        Call c;
        a = semantics::compute_robustness(f, mon->tr);
        b = semantics::compute_robustness(f, clean);
      } catch (...) { leave_call(); violation("no-verdict", "%.800s cannot be evaluated on a replay: %s; %s", canon(f).c_str(), current_exception_text().c_str(), acc_text(acc).c_str()); }
      std::string ca = canon(a), cb = canon(b);
      if (ca != cb) violation("verdict-depends-on-history", "%.600s gives %.700s on the monitor but %.700s on a fresh replay of the samples %.700s", canon(f).c_str(), ca.c_str(), cb.c_str(), acc_text(acc).c_str());
      { Call c; a.reset(); b.reset(); }
    }
    { Call c; clean.clear(); }
  }
  stat("verdicts compared with the reference", nevals);
  stop();
  work_hash(wh);
}
} // namespace w
