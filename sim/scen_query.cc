// C13, C14, C15: queries on live signals, fed by sensors over a faulty network, with memory
// exhaustion, crashes and restarts from a journal.  Every answer is compared with the piecewise-linear
// function through the samples accepted so far.
#include "world.h"
#include <algorithm>
#include <cmath>

namespace w {
using namespace signal_tl;

namespace {
struct OtherProperty {};     // something went wrong that is not the property under test: the run says nothing
struct Live {
  SignalPtr s;
  SigData m;                 // what it has accepted
  std::string from;
};
double slope(const SigData& m, size_t i) {
  if (i + 1 >= m.size() || m[i].second == m[i + 1].second) return 0.0;
  return (m[i + 1].second - m[i].second) / (m[i + 1].first - m[i].first);
}
double value(const SigData& m, double t) {       // inside the range
  size_t i = std::upper_bound(m.begin(), m.end(), t, [](double a, const std::pair<double, double>& b) { return a < b.first; }) - m.begin();
  if (i == 0) return m.front().second;
  auto& a = m[i - 1];
  if (a.first == t || i == m.size() || a.second == m[i].second) return a.second;
  return a.second + (m[i].second - a.second) * ((t - a.first) / (m[i].first - a.first));
}
bool close(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-7 * (1 + scale); }
double scale_of(const SigData& m) {
  double s = 0;
  for (auto& p : m) s = std::max(s, std::fabs(p.second));
  return s;
}
SigData read_out(const Signal& s) {
  SigData d;
  for (auto it = s.begin(); it != s.end(); ++it) d.push_back({it->time, it->value});
  return d;
}
std::string shape(const Signal& s, double scale) {   // what every signal has to satisfy
  const Sample* last = nullptr;
  static thread_local Sample keep;
  size_t n = 0;
  (void)scale;
  for (auto it = s.begin(); it != s.end(); ++it, ++n) {
    if (std::isnan(it->time) || std::isnan(it->value)) return "sample " + std::to_string(n) + " is not a number";
    if (last && !(it->time > last->time)) return "times do not increase at " + num(it->time);
    keep = *it;
    last = &keep;
  }
  if (n != s.size()) return "size() is not the number of samples";
  return "";
}
} // namespace

static void run_queries(const char* id, int focus) {
  gen_identity(id);
  heap_policy(draw_heap_policy());
  std::vector<Live> live;
  struct Sensor { double next; double period; int walk; double v; double drift; };
  std::vector<Sensor> sensors;
  int ns = 2 + choose(W, 2);
  int plan = choose(W, 6);            // 0 aligned, 1 same period, other phase, 2 disjoint, 3 nearly equal times, else any
  double origin = choose(W, 5) == 1 ? 1.6e9 : choose(W, 5) == 1 ? -3.0 : 0.0;
  uint64_t wh = ns * 7 + plan;
  for (int s = 0; s < ns; s++) {
    Sensor z;
    z.period = plan <= 1 || plan == 3 ? 0.5 : (1 + choose(W, 6)) / 4.0;
    z.next = origin + (plan == 0 || plan == 3 ? 0 : plan == 1 ? 0.25 * s : plan == 2 ? 3.0 * s : choose(W, 12) / 4.0);
    z.walk = choose(W, 6);
    z.v = quarter(20);
    z.drift = std::ldexp(quarter(8), -(int)choose(W, 24));
    sensors.push_back(z);
  }
  // nearly equal times: how near
  double near = std::ldexp(1.0, -(choose(W, 2) ? 10 : 10 + (int)choose(W, 36)));
  auto measure = [&](int s, double& t, double& v) {
    auto& z = sensors[s];
    t = z.next;
    if (plan == 3 && flip(W, 3)) t += (choose(W, 2) ? 1 : 2) * near;
    switch (z.walk) {
      case 0: z.v = quarter(24); break;
      case 1: z.v += quarter(4); break;
      case 2: if (!choose(W, 3)) z.v = quarter(8); break;
      case 3: z.v += 0.5; break;
      case 4: z.v += z.drift; if (flip(W, 4)) z.drift = -z.drift; break;      // slow drift
      default: if (!choose(W, 12)) z.v = quarter(8); break;                   // mostly constant
    }
    v = z.v;
    uint32_t k = choose(W, 24);
    double step = z.period;
    if (k >= 20) step *= 1 + choose(W, 5);
    else if (k == 19) step *= 10 + choose(W, 60);                             // an outage
    else if (k == 18) { t += z.period / 2; }                                  // one sample comes late
    z.next += step;
  };
  struct J { int s; double t, v; };
  std::vector<J> journal;
  size_t unsynced = 0;
  std::vector<std::pair<double, double>> old;     // messages seen, for duplicates
  int how_start = choose(W, 4);
  bool faults_on = true;
  auto draw_co = [&](int den) {
    CallOpts c;
    if (faults_on && flip(F, den)) { c.oom_at = choose(F, 12); c.oom_persist = choose(F, 2); }
    return c;
  };
  auto start = [&]() {
    for (int s = 0; s < ns; s++) {
      Live l;
      l.from = "sensor " + std::to_string(s);
      std::vector<double> pv, tv;
      std::vector<Sample> sv;
      for (auto& j : journal) if (j.s == s) { l.m.push_back({j.t, j.v}); pv.push_back(j.v); tv.push_back(j.t); sv.push_back({j.t, j.v, 11.0}); }
      for (int attempt = 0;; attempt++) {
        std::string ex;
        try {
          Call c(attempt < 2 ? draw_co(6) : CallOpts{});
          if (how_start == 0) l.s = std::make_shared<Signal>(pv, tv);
          else if (how_start == 1) l.s = std::make_shared<Signal>(sv);
          else { l.s = std::make_shared<Signal>(); for (size_t i = 0; i < tv.size(); i++) l.s->push_back(tv[i], pv[i]); }
        } catch (...) { leave_call(); ex = current_exception_text(); }
        if (ex.empty()) break;
        if (!call_faulted()) throw OtherProperty{};      // C04, C11
      }
      live.push_back(l);
    }
  };
  auto drop_all = [&]() { Call c; live.clear(); };
  auto append = [&](Live& l, double t, double v, int sensor) {
    bool ok_time = !std::isnan(t) && (l.m.empty() || t > l.m.back().first);
    std::string ex;
    try {
      Call c(draw_co(10));
      l.s->push_back(t, v);
    } catch (...) { leave_call(); ex = current_exception_text(); }
    bool hit = call_faulted();
    log("append %s:%s to %s %s%s", num(t).c_str(), num(v).c_str(), l.from.c_str(), ex.empty() ? "ok" : "rejected", hit ? " (memory)" : "");
    if (ex.empty() != ok_time && !(ok_time && hit)) throw OtherProperty{};      // C04
    if (!ex.empty()) { stat("samples rejected or lost"); return; }
    l.m.push_back({t, v});
    if (sensor >= 0) { journal.push_back({sensor, t, v}); unsynced = choose(F, 3) == 1 ? unsynced + 1 : 0; }
    stat("samples accepted");
  };
  auto tm = [&](const SigData& m) {               // a time of interest
    if (m.empty()) return quarter(12);
    double b = m.front().first, e = m.back().first;
    switch (choose(W, 10)) {
      case 0: return b;
      case 1: return e;
      case 2: case 3: return m[choose(W, m.size())].first;
      case 4: return std::nextafter(m[choose(W, m.size())].first, choose(W, 2) ? INFINITY : -INFINITY);
      case 5: return b - 0.25 * (1 + choose(W, 8));
      case 6: return e + 0.25 * (1 + choose(W, 8));
      default: {
        size_t i = choose(W, m.size());
        double n = i + 1 < m.size() ? m[i + 1].first : e;
        return m[i].first + (n - m[i].first) * (1 + choose(W, 15)) / 16.0;
      }
    }
  };
  auto ctx = [&](const Live& l) { return "; accepted samples of " + l.from + " " + sdata(l.m).substr(0, 1200); };
  auto keep = [&](SignalPtr& r, const std::string& from) {     // a result becomes an object of the history
    if (live.size() < 9 && choose(W, 3) == 0) {
      Live l;
      l.s = r;
      l.m = read_out(*r);
      l.from = from;
      // samples so close that slopes are dominated by rounding say nothing about later answers
      for (size_t i = 1; i < l.m.size(); i++) if (l.m[i].first - l.m[i - 1].first < 1e-4) { Call c; r.reset(); l.s.reset(); return; }
      live.push_back(l);
      stat("results that became inputs");
    }
    Call c;
    r.reset();
  };
  int nq = 0, kind_now = focus;
  auto report = [&](const char* kind, const char* fmt, auto... args) {
    if (kind_now != focus) throw OtherProperty{};
    violation(kind, fmt, args...);
  };
  // ---------------------------------------------------------------- lookup and range search
  auto lookup = [&](Live& l) {
    int kind = choose(W, 5);
    double t = tm(l.m);
    double sc = scale_of(l.m);
    if (kind <= 2) {
      if (flip(W, 16)) { static const double odd[] = {NAN, INFINITY, -INFINITY, 0.0, -0.0}; t = odd[choose(W, 5)]; }
      bool inside = !l.m.empty() && t >= l.m.front().first && t <= l.m.back().first;
      std::string ex;
      Sample r{0, 0, 0};
      try {
        Call c(draw_co(12));
        r = l.s->at(t);
      } catch (...) { leave_call(); ex = current_exception_text(); }
      bool hit = call_faulted();
      log("lookup at %s of %s -> %s", num(t).c_str(), l.from.c_str(), ex.empty() ? (num(r.value) + "/" + num(r.derivative)).c_str() : ex.c_str());
      stat(inside ? "lookups inside the range" : "lookups outside the range");
      if (!inside && ex.empty()) report("lookup-outside", "looking up time %s gave %s although the signal is not defined there%s", num(t).c_str(), num(r.value).c_str(), ctx(l).c_str());
      if (inside && !ex.empty() && !hit) report("lookup-refused", "looking up time %s failed (%s)%s", num(t).c_str(), ex.c_str(), ctx(l).c_str());
      if (!inside || !ex.empty()) return;
      size_t i = std::upper_bound(l.m.begin(), l.m.end(), t, [](double a, const std::pair<double, double>& b) { return a < b.first; }) - l.m.begin() - 1;
      bool stored = l.m[i].first == t;
      double want = value(l.m, t), d = slope(l.m, i);
      if (r.time != t || (stored ? r.value != want : !close(r.value, want, sc)) || !close(r.derivative, d, std::fabs(d)))
        report("wrong-lookup", "looking up time %s gave (%s, %s) with slope %s instead of (%s, %s) with slope %s%s", num(t).c_str(), num(r.time).c_str(), num(r.value).c_str(), num(r.derivative).c_str(), num(t).c_str(), num(want).c_str(), num(d).c_str(), ctx(l).c_str());
    } else if (kind == 3) {
      double a = tm(l.m), b = tm(l.m);
      long ia, ib, n;
      SigData got;
      {
        Call c;
        auto i = l.s->begin_at(a), j = l.s->end_at(b);
        ia = i - l.s->begin();
        ib = j - l.s->begin();
        n = l.s->size();
      }
      long wa = 0, wb = 0;
      while (wa < (long)l.m.size() && l.m[wa].first < a) wa++;
      while (wb < (long)l.m.size() && l.m[wb].first <= b) wb++;
      log("range [%s,%s] of %s -> %ld %ld", num(a).c_str(), num(b).c_str(), l.from.c_str(), ia, ib);
      stat("range searches");
      if (n != (long)l.m.size() || ia != wa || ib != wb)
        report("wrong-range", "the samples at or after %s and at or before %s are numbers %ld to %ld instead of %ld to %ld (of %ld)%s", num(a).c_str(), num(b).c_str(), ia, ib, wa, wb, n, ctx(l).c_str());
    } else {
      size_t i = choose(W, l.m.size() + 2);
      std::string ex;
      double v = 0, want = 0;
      Sample q{0, 0, 0};
      double tt = i < l.m.size() ? l.m[i].first + quarter(8) : 0;
      try {
        Call c;
        v = l.s->interpolate(tt, i);
        q = l.s->at_idx(i);
      } catch (...) { leave_call(); ex = current_exception_text(); }
      stat("accesses by index");
      if (i >= l.m.size()) { if (ex.empty()) report("lookup-outside", "sample number %zu was returned%s", i, ctx(l).c_str()); return; }
      if (!ex.empty()) report("lookup-refused", "sample number %zu cannot be read (%s)%s", i, ex.c_str(), ctx(l).c_str());
      want = l.m[i].second + slope(l.m, i) * (tt - l.m[i].first);
      if (q.time != l.m[i].first || q.value != l.m[i].second || !close(v, want, sc + std::fabs(want)))
        report("wrong-lookup", "sample number %zu is %s:%s, extended to time %s it is %s instead of %s%s", i, num(q.time).c_str(), num(q.value).c_str(), num(tt).c_str(), num(v).c_str(), num(want).c_str(), ctx(l).c_str());
    }
  };
  // ---------------------------------------------------------------- resampling
  auto resample = [&](Live& l) {
    int kind = choose(W, 4);
    double a = tm(l.m), b = tm(l.m), fill = quarter(12), dt = quarter(16);
    // moving samples that are too close together may make them equal
    for (size_t i = 1; i < l.m.size(); i++) if (l.m[i].first - l.m[i - 1].first < 1e-4) kind = 1;
    a = std::round(a * 4096) / 4096;             // ends that only rounding tells from a sample time say nothing
    b = std::round(b * 4096) / 4096;
    if (a > b) std::swap(a, b);
    if (!(b - a >= 1e-3)) b = a + 0.25 * (1 + choose(W, 6));
    static const char* nm[] = {"shifting", "simplifying", "resizing", "resizing and shifting"};
    double sc = std::max(scale_of(l.m), std::fabs(fill));
    SignalPtr r;
    std::string ex;
    try {
      Call c(draw_co(8));
      if (kind == 0) r = l.s->shift(dt);
      else if (kind == 1) r = l.s->simplify();
      else if (kind == 2) r = l.s->resize(a, b, fill);
      else r = l.s->resize_shift(a, b, fill, dt);
    } catch (...) { leave_call(); ex = current_exception_text(); }
    bool hit = call_faulted();
    std::string what = nm[kind];
    if (kind == 0 || kind == 3) what += " by " + num(dt);
    if (kind >= 2) what += " to [" + num(a) + ", " + num(b) + "] with " + num(fill);
    log("%s %s -> %s", what.c_str(), l.from.c_str(), r ? canon(*r).c_str() : ex.c_str());
    stat(nm[kind]);
    if (!ex.empty()) {
      if (!hit) report("resampling-refused", "%s failed (%s)%s", what.c_str(), ex.c_str(), ctx(l).c_str());
      stat("queries that failed under memory exhaustion");
      return;
    }
    auto bad = [&](const std::string& why) { report("wrong-shape", "%s gave %.800s: %s%s", what.c_str(), canon(r).c_str(), why.c_str(), ctx(l).c_str()); };
    if (!r) report("wrong-shape", "%s gave nothing", what.c_str());
    std::string sh = shape(*r, sc);
    if (!sh.empty()) bad(sh);
    SigData g = read_out(*r);
    // the slopes belong to the samples
    size_t k = 0;
    double off = kind == 0 || kind == 3 ? dt : 0;
    for (auto it = r->begin(); it != r->end(); ++it, ++k) {
      double d = slope(g, k);
      if (!(std::fabs(it->derivative - d) <= 1e-5 * (1 + std::fabs(d))) && !(k + 1 < g.size() && g[k + 1].first - g[k].first < 1e-3)) bad("slope of sample " + std::to_string(k) + " is " + num(it->derivative) + " instead of " + num(d));
    }
    if (kind == 0) {
      if (g.size() != l.m.size()) bad("another number of samples");
      for (size_t i = 0; i < g.size(); i++) if (g[i].first != l.m[i].first + dt || g[i].second != l.m[i].second) bad("sample " + std::to_string(i) + " was not moved by exactly that much");
    } else if (kind == 1) {
      if (g.empty() != l.m.empty()) bad("empty or not");
      if (!g.empty() && (g.front() != l.m.front() || g.back() != l.m.back())) bad("the first or the last sample is missing");
      size_t j = 0;
      for (auto& p : g) { while (j < l.m.size() && l.m[j] != p) j++; if (j == l.m.size()) bad("a sample that was not there"); }
      for (auto& p : l.m) if (!close(value(g, p.first), p.second, sc)) bad("the value at " + num(p.first) + " is " + num(value(g, p.first)) + " instead of " + num(p.second));
    } else {
      for (auto& p : g) p.first -= off;
      double slack = 1e-9 * (1 + std::fabs(a) + std::fabs(b) + std::fabs(off));
      if (off == 0) slack = 0;
      if (!g.empty() && (g.front().first < a - slack || g.back().first > b + slack)) bad("samples outside of the range");
      if (l.m.empty()) return keep(r, "a resized signal");
      double lo = std::max(a, l.m.front().first), hi = std::min(b, l.m.back().first);
      if (a < l.m.front().first && (g.empty() || std::fabs(g.front().first - a) > slack || g.front().second != fill)) bad("not filled before the first sample");
      if (lo <= hi) {
        if (g.empty()) bad("empty although it overlaps the range");
        if (g.front().first > lo + slack || g.back().first < hi - slack) bad("does not cover " + num(lo) + " to " + num(hi));
        std::vector<double> ts{lo, hi, (lo + hi) / 2};
        for (auto& p : l.m) if (p.first >= lo && p.first <= hi) ts.push_back(p.first);
        for (size_t i = 0; i + 1 < l.m.size(); i++) { double md = (l.m[i].first + l.m[i + 1].first) / 2; if (md >= lo && md <= hi) ts.push_back(md); }
        double dtmin = 1e300;
        for (size_t i = 1; i < l.m.size(); i++) dtmin = std::min(dtmin, l.m[i].first - l.m[i - 1].first);
        double tol = sc + (off != 0 ? slack / std::min(1.0, dtmin) * sc * 1e7 : 0);
        for (double t : ts) {
          double want = value(l.m, t), got = value(g, std::min(std::max(t, g.front().first), g.back().first));
          if (!close(got, want, tol)) bad("the value at " + num(t) + " is " + num(got) + " instead of " + num(want));
        }
      }
    }
    keep(r, std::string("a signal from ") + nm[kind]);
  };
  // ---------------------------------------------------------------- synchronizing
  auto sync = [&](Live& p, Live& q) {
    SignalPtr r1, r2;
    std::string ex;
    try {
      Call c(draw_co(8));
      std::tie(r1, r2) = signal::synchronize(p.s, q.s);
    } catch (...) { leave_call(); ex = current_exception_text(); }
    bool hit = call_faulted();
    log("synchronize %s with %s -> %s %s", p.from.c_str(), q.from.c_str(), r1 ? canon(*r1).c_str() : ex.c_str(), r2 ? canon(*r2).c_str() : "");
    stat("synchronizations");
    std::string where = ctx(p) + ", of " + q.from + " " + sdata(q.m).substr(0, 1200);
    if (!ex.empty()) {
      if (!hit) report("synchronize-refused", "synchronizing failed (%s)%s", ex.c_str(), where.c_str());
      stat("queries that failed under memory exhaustion");
      return;
    }
    if (!r1 || !r2) report("wrong-synchronize", "nothing returned%s", where.c_str());
    auto bad = [&](const std::string& why) { report("wrong-synchronize", "synchronizing gave %.700s and %.700s: %s%s", canon(r1).c_str(), canon(r2).c_str(), why.c_str(), where.c_str()); };
    SigData g1 = read_out(*r1), g2 = read_out(*r2);
    std::vector<double> ts;
    if (!p.m.empty() && !q.m.empty()) {
      double lo = std::max(p.m.front().first, q.m.front().first), hi = std::min(p.m.back().first, q.m.back().first);
      for (auto m : {&p.m, &q.m}) for (auto& x : *m) if (x.first >= lo && x.first <= hi) ts.push_back(x.first);
      std::sort(ts.begin(), ts.end());
      ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
      if (lo < hi) stat("synchronizations with a common range");
      else if (ts.empty()) stat("synchronizations without a common time");
    }
    if (g1.size() != g2.size()) bad("different numbers of samples");
    for (size_t i = 0; i < g1.size(); i++) if (g1[i].first != g2[i].first) bad("the times of sample " + std::to_string(i) + " differ");
    // every sample time of either input inside the common range is there, and no time outside of it
    size_t j = 0;
    for (double t : ts) {
      while (j < g1.size() && g1[j].first < t) j++;
      if (j == g1.size() || g1[j].first != t) bad("time " + num(t) + " is missing");
    }
    if (!g1.empty() && ts.empty()) bad("the inputs have no common time");
    if (!g1.empty() && (g1.front().first < ts.front() || g1.back().first > ts.back())) bad("samples outside of the common range");
    if (g1.size() != ts.size()) bad("times that are not sample times of either input");
    double s1 = scale_of(p.m), s2 = scale_of(q.m);
    for (auto& x : g1) if (!close(x.second, value(p.m, x.first), s1)) bad("the first signal has value " + num(x.second) + " at " + num(x.first) + " instead of " + num(value(p.m, x.first)));
    for (auto& x : g2) if (!close(x.second, value(q.m, x.first), s2)) bad("the second signal has value " + num(x.second) + " at " + num(x.first) + " instead of " + num(value(q.m, x.first)));
    keep(r1, "a synchronized signal");
    keep(r2, "the other synchronized signal");
  };
  auto query = [&]() {
    size_t i = choose(W, live.size()), j = choose(W, live.size());
    int k = focus;
    if (flip(W, 5)) k = choose(W, 3);            // results of the other kinds become inputs as well
    nq++;
    kind_now = k;
    if (k == 0) lookup(live[i]);
    else if (k == 1) resample(live[i]);
    else { Live p = live[i], q = live[j]; sync(p, q); Call c; p.s.reset(); q.s.reset(); }
  };
  // what the journal of an earlier life holds
  if (choose(W, 3) == 1) {
    int dense = choose(W, 3) == 1 ? choose(W, ns) : -1;
    for (int s = 0; s < ns; s++) {
      int n = choose(W, 2) ? choose(W, 8) : choose(W, dense == s ? (choose(W, 4) ? 160 : 700) : 40);
      for (int i = 0; i < n; i++) { J j; j.s = s; measure(s, j.t, j.v); journal.push_back(j); }
    }
  }
  try {
  start();
  int n = 10 + choose(W, 60);
  for (int step = 0; step < n; step++) {
    int k = choose(W, 16);
    wh = wh * 131 + k;
    if (k <= 6) {                                // a sensor reports
      int s = choose(W, ns);
      double t, v;
      measure(s, t, v);
      env_advance(100000);
      if (flip(F, 12)) { fault_note("net-drop"); continue; }
      if (flip(F, 14)) { t = choose(F, 2) ? NAN : t - 5; fault_note("corrupt-timestamp"); }
      if (flip(F, 14) && !old.empty()) { std::tie(t, v) = old[choose(F, old.size())]; fault_note("net-duplicate-or-late"); }
      else old.push_back({t, v});
      append(live[s], t, v, s);
    } else if (k == 7 && live.size() > (size_t)ns) {      // derived signals grow as well, or go
      size_t i = ns + choose(W, live.size() - ns);
      if (choose(W, 3)) append(live[i], (live[i].m.empty() ? 0 : live[i].m.back().first) + quarter(12), quarter(20), -1);
      else { Call c; live.erase(live.begin() + i); }
    } else if (k == 8 && flip(F, 4)) {           // crash and restart
      size_t lost = unsynced ? choose(F, unsynced + 1) : 0;
      journal.resize(journal.size() - lost);
      unsynced = 0;
      log("crash, %zu journal entries lost", lost);
      fault_note("crash-monitor");
      if (lost) fault_note("crash-lost-unsynced-journal");
      drop_all();
      start();
    } else query();
    if (flip(F, 30)) env_locale(choose(F, 2));
  }
  faults_on = false;
  for (int i = 0; i < 6; i++) query();
  } catch (const OtherProperty&) { stat("runs ended by a violation of another property"); }
  stat("queries", nq);
  drop_all();
  work_hash(wh);
}
void run_c13() { run_queries("C13", 0); }
void run_c14() { run_queries("C14", 1); }
void run_c15() { run_queries("C15", 2); }
} // namespace w
