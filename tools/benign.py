#!/usr/bin/env python3
"""Behaviour-preserving variants of the repository.  Not part of any check.

  benign.py [VARIANT...] [PROPERTY...]    (env RUNS, SEED, CAP, SCRATCH)

Applies each variant to a scratch copy of /repo's HEAD and demands that the search stays quiet.
"""
import os,subprocess,sys
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH=os.environ.get('SCRATCH','/tmp/stlsim-benign')
SRC=SCRATCH+'/repo'
SH='src/include/signal_tl/signal.hpp';SG='src/core/signal.cc';AST='src/core/ast.cc';CL='src/robust_semantics/classic_robustness.cc';MM='src/robust_semantics/minmax.cc';PA='src/parser/parser.cc';AC='src/parser/actions.hpp';FM='src/include/signal_tl/fmt.hpp'
V={}
V['signal-refactor']=[(SG,'''  auto it = std::lower_bound(
      this->begin(), this->end(), Sample{t, 0.0}, comp_time); // it->time >= t
  if (it->time == t) {
    return *it;
  }
  const Sample& before = *std::prev(it);
  return Sample{t, before.interpolate(t), before.derivative};''','''  // The last sample at or before t.
  auto it = std::prev(
      std::upper_bound(this->begin(), this->end(), Sample{t, 0.0}, comp_time));
  return (it->time == t) ? *it : Sample{t, it->interpolate(t), it->derivative};'''),
(SG,'''  auto sig = std::make_shared<Signal>(this->samples);
  for (auto& s : sig->samples) { s.time += dt; }

  return sig;''','''  std::vector<Sample> moved;
  moved.reserve(this->samples.size());
  for (size_t i = 0; i < this->samples.size(); i++) {
    moved.push_back(this->samples[i]);
  }
  auto sig = std::make_shared<Signal>(moved);
  std::for_each(sig->samples.begin(), sig->samples.end(), [dt](Sample& s) { s.time += dt; });
  return sig;'''),
(SG,'''  auto xv = std::vector<Sample>{};
  auto yv = std::vector<Sample>{};
''','''  auto xv = std::vector<Sample>{};
  auto yv = std::vector<Sample>{};
  xv.reserve(x->size() + y->size());
  yv.reserve(x->size() + y->size());
'''),
(SH,'''  Signal(const Signal& other) {
    this->samples.reserve(other.size());
    for (const auto& s : other) { this->push_back(s); }
  }''','''  Signal(const Signal& other)     = default;
  Signal(Signal&& other) noexcept = default;
  Signal& operator=(const Signal& other) = default;
  Signal& operator=(Signal&& other) noexcept = default;'''),
(SG,'''    auto& last = *std::prev(this->samples.end(), 2);

    // Equal values may be infinite (the robustness of a constant).
    last.derivative = (sample.value == last.value)
                          ? 0.0
                          : (sample.value - last.value) / (sample.time - last.time);''','''    auto& last = this->samples[this->samples.size() - 2];
    const double dv = sample.value - last.value;
    const double dt = sample.time - last.time;
    if (sample.value == last.value) { // may be infinite
      last.derivative = 0.0;
    } else {
      last.derivative = dv / dt;
    }'''),
]
V['scratch-tls']=[(CL,'''  auto y        = std::make_shared<Signal>();
  for (const auto& sample : *x) {''','''  thread_local std::vector<Sample> scratch;
  scratch.clear();
  for (const auto& sample : *x) {'''),
(CL,'''        y->push_back(t, v - e.rhs);''','''        scratch.push_back(Sample{t, v - e.rhs, 0.0});'''),
(CL,'''        y->push_back(t, e.rhs - v);''','''        scratch.push_back(Sample{t, e.rhs - v, 0.0});'''),
(CL,'''        break;
    }
  }
  return y;
}''','''        break;
    }
  }
  return std::make_shared<Signal>(scratch);
}'''),
(SG,'''  auto xv = std::vector<Sample>{};
  auto yv = std::vector<Sample>{};
''','''  thread_local std::vector<Sample> xv;
  thread_local std::vector<Sample> yv;
  xv.clear();
  yv.clear();
'''),]
V['counters']=[(CL,'''SignalPtr compute(const ast::Expr& phi, const RobustnessOp& rob) {
''','''std::atomic<unsigned long> evaluations{0};

SignalPtr compute(const ast::Expr& phi, const RobustnessOp& rob) {
  evaluations.fetch_add(1, std::memory_order_relaxed);
'''),(CL,'#include <algorithm>  //','#include <atomic>\n#include <algorithm>  //'),
(PA,'''std::unique_ptr<Specification> from_string(std::string_view input) {''','''static std::mutex count_mutex;
static size_t parsed_bytes = 0;

std::unique_ptr<Specification> from_string(std::string_view input) {
  {
    std::lock_guard<std::mutex> guard(count_mutex);
    parsed_bytes += input.size();
  }'''),(PA,'#include <stdexcept> //','#include <mutex>\n#include <stdexcept> //')]
V['memo-per-call']=[(CL,'''SignalPtr compute(const ast::Expr& phi, const RobustnessOp& rob) {
  return std::visit([&](auto&& e) { return rob(e); }, phi);
}''','''SignalPtr compute(const ast::Expr& phi, const RobustnessOp& rob) {
  const void* key = std::visit(
      [](const auto& e) -> const void* {
        if constexpr (std::is_same_v<std::decay_t<decltype(e)>, ast::Const> ||
                      std::is_same_v<std::decay_t<decltype(e)>, ast::Predicate>) {
          return nullptr;
        } else {
          return e.get();
        }
      },
      phi);
  if (key) {
    if (auto it = rob.memo.find(key); it != rob.memo.end()) return it->second;
  }
  auto out = std::visit([&](auto&& e) { return rob(e); }, phi);
  if (key) rob.memo.emplace(key, out);
  return out;
}'''),(CL,'''  Trace trace     = {};
''','''  Trace trace     = {};
  mutable std::map<const void*, SignalPtr> memo = {};
''')]
V['loops']=[(MM,'''  for (auto [i, j] = std::make_tuple(x->begin(), y->begin());
       i != x->end() && j != y->end();
       i++, j++) {
    if (comp''','''  auto i = x->begin();
  auto j = y->begin();
  for (; i != x->end() && j != y->end(); ++i, ++j) {
    if (comp'''),(MM,'''  z.reserve(2 * x->size());
  z.push_back(x->back());
''','''  z.push_back(opt);
'''),(CL,'''  std::transform(x->begin(), x->end(), std::back_inserter(vec), std::negate<>());''','''  for (const auto& s : *x) { vec.push_back(-s); }'''),
(CL,'''  const MinMaxTime minmaxtime =
      std::for_each(trace.cbegin(), trace.cend(), MinMaxTime{});
''','''  MinMaxTime minmaxtime{};
  for (const auto& entry : trace) { minmaxtime(entry); }
'''),(CL,'''  auto rob = RobustnessOp{min_time, max_time, trace};

  SignalPtr out = compute(phi, rob);

  return out;''','''  return compute(phi, RobustnessOp{min_time, max_time, trace});'''),
(AST,'''  std::vector<Expr> args{lhs->args};

  std::visit(
      overloaded{
          [&args](const auto e) { args.push_back(e); },
          [](const Const) {}, // true is neutral, false is handled above''','''  std::vector<Expr> args;
  args.reserve(lhs->args.size() + 1);
  for (const auto& arg : lhs->args) { args.push_back(arg); }

  std::visit(
      overloaded{
          [&args](const auto e) { args.push_back(e); },
          [](const Const) {}, // true is neutral, false is handled above'''),
(AST,'''Expr Iff(const Expr& x, const Expr& y) {
  return (x & y) | (~x & ~y);''','''Expr Iff(const Expr& x, const Expr& y) {
  const Expr neither = ~x & ~y;
  const Expr both    = x & y;
  return both | neither;'''),
(AC,'''    state.terms.insert(
        std::end(state.terms),
        std::begin(new_local_state.terms),
        std::end(new_local_state.terms));''','''    for (auto& term : new_local_state.terms) { state.terms.push_back(std::move(term)); }'''),
(AC,'''    auto id = std::string(in.string());
    state.identifiers.push_back(id);''','''    state.identifiers.emplace_back(in.begin(), in.end());'''),
]
V['stream-tls']=[(AC,'''    auto stream = std::istringstream(in.string());
    stream.imbue(std::locale::classic());
    double val = 0.0;''','''    thread_local std::istringstream stream = [] {
      std::istringstream s;
      s.imbue(std::locale::classic());
      return s;
    }();
    stream.clear();
    stream.str(in.string());
    double val = 0.0;'''),(FM,'''    std::string op = ">=";
    switch (e.op) {
      case signal_tl::ast::ComparisonOp::GE:
        op = ">=";
        break;
      case signal_tl::ast::ComparisonOp::GT:
        op = ">";
        break;
      case signal_tl::ast::ComparisonOp::LE:
        op = "<=";
        break;
      case signal_tl::ast::ComparisonOp::LT:
        op = "<";
        break;
    }
    return format_to(ctx.out(), "({} {} {})", e.name, op, e.rhs);''','''    static const std::map<signal_tl::ast::ComparisonOp, std::string> names = {
        {signal_tl::ast::ComparisonOp::GE, ">="},
        {signal_tl::ast::ComparisonOp::GT, ">"},
        {signal_tl::ast::ComparisonOp::LE, "<="},
        {signal_tl::ast::ComparisonOp::LT, "<"}};
    return format_to(ctx.out(), "({} {} {})", e.name, names.at(e.op), e.rhs);'''),(FM,'#include <fmt/format.h>','#include <map>\n#include <string>\n#include <fmt/format.h>')]
V['ifstream']=[(PA,'''  tao::pegtl::file_input in(input);
  return _parse(in);
}

} // namespace signal_tl::parser''','''  std::ifstream file(input, std::ios::binary);
  if (!file.is_open()) {
    throw std::system_error(errno, std::generic_category(), "cannot open " + input.string());
  }
  std::string text;
  char buffer[512];
  while (true) {
    file.read(buffer, sizeof buffer);
    text.append(buffer, static_cast<size_t>(file.gcount()));
    if (file.bad()) {
      throw std::system_error(std::make_error_code(std::errc::io_error), "cannot read " + input.string());
    }
    if (file.eof()) break;
  }
  tao::pegtl::string_input in(text, input.string());
  return _parse(in);
}

} // namespace signal_tl::parser'''),(PA,'#include <stdexcept> //','#include <cerrno>\n#include <fstream>\n#include <string>\n#include <system_error>\n#include <stdexcept> //')]
V['fopen']=[(PA,'''  tao::pegtl::file_input in(input);
  return _parse(in);
}

} // namespace signal_tl::parser''','''  tao::pegtl::read_input in(input);
  return _parse(in);
}

} // namespace signal_tl::parser''')]
V['posix']=[(PA,'''  tao::pegtl::file_input in(input);
  return _parse(in);
}

} // namespace signal_tl::parser''','''  int fd;
  do {
    fd = ::open(input.c_str(), O_RDONLY | O_CLOEXEC);
  } while (fd < 0 && errno == EINTR);
  if (fd < 0) {
    throw std::system_error(errno, std::generic_category(), "open");
  }
  struct Closer {
    int fd;
    ~Closer() { ::close(fd); }
  } closer{fd};
  std::string text;
  char buffer[4096];
  while (true) {
    const ssize_t n = ::read(fd, buffer, sizeof buffer);
    if (n < 0 && errno == EINTR) continue;
    if (n < 0) {
      throw std::system_error(errno, std::generic_category(), "read");
    }
    if (n == 0) break;
    text.append(buffer, static_cast<size_t>(n));
  }
  tao::pegtl::string_input in(text, input.string());
  return _parse(in);
}

} // namespace signal_tl::parser'''),(PA,'#include <stdexcept> //','#include <cerrno>\n#include <fcntl.h>\n#include <unistd.h>\n#include <string>\n#include <system_error>\n#include <stdexcept> //')]
V['async']=[(CL,'''  auto ys = std::vector<SignalPtr>{};
  ys.reserve(e->args.size());
  std::transform(
      e->args.begin(), e->args.end(), std::back_inserter(ys), [this](const auto arg) {
        return compute(arg, *this);
      });
  assert(ys.size() == e->args.size());
  return compute_elementwise_min(ys);''','''  auto first = std::async(std::launch::async, [&] { return compute(e->args.front(), *this); });
  auto ys = std::vector<SignalPtr>{nullptr};
  ys.reserve(e->args.size());
  for (size_t i = 1; i < e->args.size(); i++) { ys.push_back(compute(e->args[i], *this)); }
  ys[0] = first.get();
  assert(ys.size() == e->args.size());
  return compute_elementwise_min(ys);'''),(CL,'#include <algorithm>  //','#include <future>\n#include <algorithm>  //')]
V['rwlock-cache']=[(CL,'''  const auto& x = trace.at(e.name);
''','''  // Names seen so far, for diagnostics.
  static std::shared_mutex lock;
  static std::set<std::string> known;
  bool is_new;
  {
    std::shared_lock<std::shared_mutex> guard(lock);
    is_new = known.count(e.name) == 0;
  }
  if (is_new) {
    std::unique_lock<std::shared_mutex> guard(lock);
    known.insert(e.name);
  }
  const auto& x = trace.at(e.name);
'''),(CL,'#include <algorithm>  //','#include <mutex>\n#include <shared_mutex>\n#include <set>\n#include <algorithm>  //')]
V['atomic-cache']=[(SH,'''struct Signal {
 private:
  std::vector<Sample> samples;
''','''struct Signal {
 private:
  std::vector<Sample> samples;

  // Where the last lookup ended; a hint only.
  struct Hint {
    std::atomic<size_t> at{0};
    Hint() = default;
    Hint(const Hint&) {}
    Hint& operator=(const Hint&) { at.store(0, std::memory_order_relaxed); return *this; }
  };
  mutable Hint hint;
'''),(SH,'#include <algorithm>   //','#include <atomic>\n#include <algorithm>   //'),
(SG,'''  auto it = std::lower_bound(
      this->begin(), this->end(), Sample{t, 0.0}, comp_time); // it->time >= t
''','''  auto from      = this->begin();
  const size_t h = this->hint.at.load(std::memory_order_relaxed);
  if (h < this->samples.size() && this->samples[h].time <= t) {
    from += static_cast<std::ptrdiff_t>(h);
  }
  auto it = std::lower_bound(
      from, this->end(), Sample{t, 0.0}, comp_time); // it->time >= t
  this->hint.at.store(static_cast<size_t>(it - this->begin()), std::memory_order_relaxed);
''')]
V['lazy-once']=[(CL,'''  const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);''','''  static std::once_flag once;
  static double values[2];
  std::call_once(once, [] {
    values[0] = BOTTOM;
    values[1] = TOP;
  });
  const double val = values[e.value ? 1 : 0];'''),(CL,'#include <algorithm>  //','#include <mutex>\n#include <algorithm>  //')]
V['dcl']=[(AC,'''struct GlobalParserState {''','''inline const std::locale& classic_locale() {
  static std::atomic<const std::locale*> cached{nullptr};
  static std::mutex guard;
  auto* p = cached.load(std::memory_order_acquire);
  if (!p) {
    std::lock_guard<std::mutex> lock(guard);
    p = cached.load(std::memory_order_relaxed);
    if (!p) {
      static const std::locale loc = std::locale::classic();
      p = &loc;
      cached.store(p, std::memory_order_release);
    }
  }
  return *p;
}

struct GlobalParserState {'''),(AC,'stream.imbue(std::locale::classic());','stream.imbue(classic_locale());'),(AC,'#include <locale>','#include <atomic>\n#include <mutex>\n#include <locale>')]
V['strtod']=[(AC,'''    auto stream = std::istringstream(in.string());
    stream.imbue(std::locale::classic());
    double val = 0.0;
    if (!(stream >> val)) {
      throw std::out_of_range("numeric literal out of range");
    }''','''    double val = 0.0;
    const auto [ptr, ec] = std::from_chars(in.begin() + (*in.begin() == '+'), in.end(), val);
    if (ec != std::errc{} || ptr == in.begin()) {
      throw std::out_of_range("numeric literal out of range");
    }'''),(AC,'#include <locale>','#include <charconv>\n#include <locale>')]
V['comments']=[(f,None,None) for f in (SG,AST,CL,MM,PA,AC,FM,SH)]

def sh(c): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,errors='replace')

def search(src,prop,runs,seed,cap):
    """(exit code, output) of the seeded search of one property over the sources in src."""
    b=sh('STLSIM_REPO=%s python3 %s/bin/stlsim_build.py'%(src,VERIF))
    if b.returncode: return 2,b.stdout
    d=SCRATCH+'/run/'+prop; os.makedirs(d,exist_ok=True)
    r=sh('cd %s && LOCPATH=%s/build/locale timeout %d %s --property %s --seed %s --runs %s --cap %s --shrink 15 --jobs 8 --dir %s --out %s.json --replay-out %s.replay --quiet'
         %(d,VERIF,int(cap)+300,b.stdout.strip().splitlines()[-1],prop,seed,runs,cap,d,d,d))
    return r.returncode,r.stdout

def main():
    names=[a for a in sys.argv[1:] if a in V] or list(V)
    props=[a for a in sys.argv[1:] if a not in V] or ['C%02d'%i for i in range(1,16)]
    E=os.environ.get
    os.makedirs(SCRATCH,exist_ok=True)
    if not os.path.isdir(SRC): sh('git clone -q /repo '+SRC)
    for n in names:
        sh('git -C %s checkout -q -- . && git -C %s pull -q'%(SRC,SRC))
        for f,a,b in V[n]:
            p=SRC+'/'+f; s=open(p).read()
            if a is None: open(p,'w').write(s+'\n// note: reviewed\n'); continue
            assert s.count(a)==1,(n,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        for p in props:
            rc,out=search(SRC,p,E('RUNS','2000'),E('SEED','1'),E('CAP','20'))
            print(n,p,'quiet' if rc==0 else 'ALARM rc %d\n%s'%(rc,out[-1500:]),flush=True)

if __name__=='__main__': main()
