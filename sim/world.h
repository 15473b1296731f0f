// Workload generators, canonical text of library objects, small reference models.
#pragma once
#include "rt.h"

#include "signal_tl/ast.hpp"
#include "signal_tl/fmt.hpp"
#include "signal_tl/parser.hpp"
#include "signal_tl/robustness.hpp"
#include "signal_tl/signal.hpp"

#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace w {
using namespace rt;
namespace stl = signal_tl;
using stl::signal::Sample;
using stl::signal::Signal;
using stl::signal::SignalPtr;
using stl::signal::Trace;
using stl::ast::Expr;

// ------------------------------------------------------------------ formulas
struct M;
using MP = std::shared_ptr<M>;
struct M {
  enum K { CONST, PRED, NOT, AND, OR, IMPL, IFF, XOR, G, F, U } k = CONST;
  bool val = false;               // CONST
  std::string name;               // PRED
  int op     = 0;                 // 0 > 1 >= 2 < 3 <=
  double rhs = 0;
  std::vector<MP> a;
  bool bounded = false;
  double lo = 0, hi = 0;
  std::string ref;                // rendered as this identifier in specification text
  mutable std::shared_ptr<Expr> built;
};
struct GenOpts {
  std::vector<std::string> names{"x"};
  int depth         = 3;
  bool consts       = true;
  bool temporal     = true;
  bool until        = true;
  bool bounded      = false;      // intervals (not expressible in specification text)
  bool until_simple = false;      // operands of until without pairwise min/max of crossing signals
  bool nonneg       = false;      // predicate constants as the specification language writes them
  bool shared       = true;       // reuse sub-formulas
  bool reals        = false;      // predicate constants that are no multiples of 1/4
  int wide          = 0;          // operands of some conjunctions and disjunctions
};
MP gen_formula(const GenOpts& o);
int size_of(const MP& m);
// Builds with the library, inside a Call scope of the caller.  `memo` keeps shared nodes shared.
Expr build(const MP& m, std::map<const M*, Expr>& memo);
std::string mtext(const MP& m);                        // our own one-line rendering
std::string render(const MP& m, int style);            // specification language; style 0 = plain, 1 = random spacing
std::string gap(int style, bool need);                 // white space / comments

// ------------------------------------------------------------------ signals
using SigData = std::vector<std::pair<double, double>>;
SigData gen_signal(int maxn, int start_q = 0);          // strictly increasing dyadic times
SigData gen_signal_wild(int maxn);                      // doubles of all magnitudes
SignalPtr make_signal(const SigData& d, int mode = 0);  // inside a Call scope
std::string sdata(const SigData& d);
double quarter(int lim);                                // k/4, |k| <= lim
double decimal();                                       // what people write: 0.1, 12.345, 1e-3, 5000000
double nasty();                                         // any double

// ------------------------------------------------------------------ canonical text
std::string num(double d);
std::string canon(const Expr& e);
std::string canon(const Signal& s);
std::string canon(const SignalPtr& s);
std::string canon(const Trace& t);
std::string canon(const stl::Specification& s);
std::string current_exception_text();   // in a catch block
uint64_t hash_text(const std::string& s);

// ------------------------------------------------------------------ specifications
struct SpecItem { bool assertion = false; std::string id; MP m; std::string text; };
struct SpecModel {
  std::vector<SpecItem> items;
  std::string text;
  std::vector<size_t> begin, end;   // extent of each command in text (open paren .. after close paren)
  size_t refused = std::string::npos;   // where a command that has to be refused is complete
  std::string describe() const;
};
SpecModel gen_spec(int maxitems, bool fancy = true, const GenOpts* base = nullptr);
std::string damage(const std::string& text);    // random edit of a text
void redefine(SpecModel& sp);                   // adds a command that names an existing item again, or an unknown one
// does `spec` hold exactly the first n items? empty string if so, else what differs
std::string match_spec(const stl::Specification& spec, const std::vector<SpecItem>& items);
bool same_meaning(const Expr& e, const MP& m, std::string* why = nullptr);

void gen_identity(const char* scenario);        // log the scenario

// ------------------------------------------------------------------ generic library calls
struct Op {
  enum Kind { EVAL, PARSE, PARSE_FILE, COMBINE, PRINT, SIG_NEW, SIG_COPY, AT, RANGE, RESIZE, SHIFT, RESIZE_SHIFT, SIMPLIFY, SYNC, PUSH, PRINT_SIG, INTERVAL, NKIND };
  Kind kind = EVAL;
  MP m;                              // EVAL, PRINT, COMBINE
  std::vector<MP> ms;
  int sub = 0;
  std::map<std::string, SigData> sigs;
  SigData a, b;
  double p = 0, q = 0, r = 0, s = 0;
  std::string text;
  std::string file;                  // PARSE_FILE
  std::string describe() const;
};
struct OpGen {
  bool files = true, wild = false, fail = true, bounded = true;
  std::vector<Op::Kind> only;
};
Op gen_op(const OpGen& g);
// One library call with its own inputs and result.
struct Inst {
  const Op* op;
  // inputs and results, owned by the library heap
  struct Objs;
  Objs* o = nullptr;
  std::string result;               // canonical outcome of the last call
  bool threw = false, oom = false, keep_exception = false;
  std::exception_ptr ex;
  explicit Inst(const Op& op);
  ~Inst();
  Inst(const Inst&) = delete;
  void prepare(std::map<const M*, Expr>* formulas = nullptr);  // builds the inputs (no faults); formulas: long-lived ones to use
  bool rebind(const Op& other);     // an evaluation's signals take other values in place; false if it cannot
  void call(CallOpts c = {});       // performs the call, fills result
  std::string read() const;         // canonical text of what the last call gave, read again
  std::string inputs() const;       // canonical text of the inputs now
  std::string use() const;          // what further calls on the results of the last one give
  void forget_inputs();             // drops the inputs, not the results
  bool has_inputs() const;
  bool gone = false;
  void drop_result();
  void drop_inputs();
};
} // namespace w
