#include "world.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <cxxabi.h>
#include <sstream>
#include <typeinfo>

namespace w {

// ------------------------------------------------------------------ numbers
double quarter(int lim) { return (int(choose(W, 2 * lim + 1)) - lim) / 4.0; }
double decimal() {                      // not negative
  static const double p10[] = {1, 10, 100, 1e3, 1e4, 1e6, 1e9};
  switch (choose(W, 10)) {
    case 0: return choose(W, 100) / 10.0;
    case 8: return 2.5 + choose(W, 3) * std::pow(10, -5 - (int)choose(W, 9));       // nearly the same number
    case 9: return 123456.0 + choose(W, 3) * std::pow(10, -(int)choose(W, 9));
    case 1: return choose(W, 10000) / 1000.0;
    case 2: return choose(W, 1u << 20) / 1e4;
    case 3: return choose(W, 1u << 30);                                  // needs more than 24 bits
    case 4: return choose(W, 1u << 30) / 1e9;
    case 5: return (choose(W, 1u << 28) * 33554432.0 + choose(W, 1u << 25)) / 9007199254740992.0;   // 53 random bits
    case 6: return (1 + choose(W, 99)) * p10[choose(W, 7)];
    default: return (1 + choose(W, 99)) / p10[choose(W, 7)];
  }
}
double nasty() {
  switch (choose(W, 12)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return 1e300;
    case 3: return -1e300;
    case 4: return 1e-310;
    case 5: return INFINITY;
    case 6: return -INFINITY;
    case 7: return std::nan("");
    case 8: return 0.1 * choose(W, 100);
    case 9: return std::ldexp(1.0 + choose(W, 1000) / 1000.0, int(choose(W, 60)) - 30);
    default: return quarter(40);
  }
}
std::string num(double d) {
  if (std::isnan(d)) return "nan";
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  for (char* p = b; *p; p++) if (*p == ',') *p = '.';   // the harness prints the same under every locale
  return b;
}
uint64_t hash_text(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

// ------------------------------------------------------------------ formulas
static MP leaf(const GenOpts& o) {
  auto m = std::make_shared<M>();
  if (o.consts && flip(W, 9)) {
    m->k = M::CONST;
    m->val = choose(W, 2);
    return m;
  }
  m->k = M::PRED;
  m->name = o.names[choose(W, o.names.size())];
  m->op = choose(W, 4);
  if (o.reals && flip(W, 3)) {
    m->rhs = decimal();
    if (o.until_simple) m->rhs = std::fmod(m->rhs, 16);      // comparable with what the sensors measure
    if (!o.nonneg && choose(W, 2)) m->rhs = -m->rhs;
  }
  else m->rhs = o.nonneg ? choose(W, 33) / 4.0 : quarter(16);
  return m;
}
static MP gen_rec(const GenOpts& o, int depth, std::vector<MP>& pool) {
  if (o.shared && !pool.empty() && flip(W, 6)) return pool[choose(W, pool.size())];
  if (depth <= 0 || flip(W, 5)) {
    MP m = leaf(o);
    pool.push_back(m);
    return m;
  }
  auto m = std::make_shared<M>();
  static const M::K ks[] = {M::AND, M::OR, M::NOT, M::G, M::F, M::IMPL, M::U, M::IFF, M::XOR};
  M::K k;
  do k = ks[choose(W, 9)];
  while ((!o.temporal && (k == M::G || k == M::F || k == M::U)) || (!o.until && k == M::U));
  m->k = k;
  int n = k == M::AND || k == M::OR ? 2 + (flip(W, 3) ? 1 + choose(W, 2) : o.wide && flip(W, 4) ? choose(W, o.wide) : 0) : k == M::NOT || k == M::G || k == M::F ? 1 : 2;
  if (k == M::U && o.until_simple) {
    GenOpts s = o;
    s.consts = false;
    for (int i = 0; i < n; i++) {
      MP l = leaf(s);
      if (flip(W, 3)) { auto nn = std::make_shared<M>(); nn->k = M::NOT; nn->a = {l}; l = nn; }
      m->a.push_back(l);
    }
  } else
    for (int i = 0; i < n; i++) m->a.push_back(gen_rec(o, n > 4 ? 0 : depth - 1 - (n > 2), pool));
  if (o.bounded && (k == M::G || k == M::F || k == M::U) && flip(W, 3)) {
    m->bounded = true;
    m->lo = choose(W, 8) / 2.0;
    m->hi = m->lo + 0.5 + choose(W, 8) / 2.0;
  }
  pool.push_back(m);
  return m;
}
MP gen_formula(const GenOpts& o) {
  std::vector<MP> pool;
  return gen_rec(o, o.depth, pool);
}
int size_of(const MP& m) {
  int n = 1;
  for (auto& c : m->a) n += size_of(c);
  return n;
}

static stl::ast::ComparisonOp cop(int op) {
  using stl::ast::ComparisonOp;
  return op == 0 ? ComparisonOp::GT : op == 1 ? ComparisonOp::GE : op == 2 ? ComparisonOp::LT : ComparisonOp::LE;
}
Expr build(const MP& m, std::map<const M*, Expr>& memo) {
  auto it = memo.find(m.get());
  if (it != memo.end()) return it->second;
  std::vector<Expr> a;
  for (auto& c : m->a) a.push_back(build(c, memo));
  Expr e{stl::ast::Const{false}};
  switch (m->k) {
    case M::CONST: e = stl::Const(m->val); break;
    case M::PRED: {
      auto p = stl::Predicate(m->name);
      e = m->op == 0 ? (p > m->rhs) : m->op == 1 ? (p >= m->rhs) : m->op == 2 ? (p < m->rhs) : (p <= m->rhs);
      break;
    }
    case M::NOT: e = stl::Not(a[0]); break;
    case M::AND: e = stl::And(a); break;
    case M::OR: e = stl::Or(a); break;
    case M::IMPL: e = stl::Implies(a[0], a[1]); break;
    case M::IFF: e = stl::Iff(a[0], a[1]); break;
    case M::XOR: e = stl::Xor(a[0], a[1]); break;
    case M::G: e = m->bounded ? stl::Always(a[0], stl::ast::Interval(m->lo, m->hi)) : stl::Always(a[0]); break;
    case M::F: e = m->bounded ? stl::Eventually(a[0], stl::ast::Interval(m->lo, m->hi)) : stl::Eventually(a[0]); break;
    case M::U: e = m->bounded ? stl::Until(a[0], a[1], stl::ast::Interval(m->lo, m->hi)) : stl::Until(a[0], a[1]); break;
  }
  memo.emplace(m.get(), e);
  return e;
}
static const char* OPS[] = {">", ">=", "<", "<="};
std::string mtext(const MP& m) {
  static const char* N[] = {"const", "pred", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until"};
  if (m->k == M::CONST) return m->val ? "true" : "false";
  if (m->k == M::PRED) return "(" + m->name + OPS[m->op] + num(m->rhs) + ")";
  std::string s = std::string("(") + N[m->k];
  if (m->bounded) s += "[" + num(m->lo) + "," + num(m->hi) + "]";
  for (auto& c : m->a) s += " " + mtext(c);
  return s + ")";
}

// ------------------------------------------------------------------ specification text
std::string gap(int style, bool need) {
  if (style == 0) return need ? " " : "";
  switch (choose(W, 8)) {
    case 0: case 1: case 2: return need ? " " : "";
    case 3: return "  ";
    case 4: return "\n";
    case 5: return "\t";
    case 6: return "\r\n ";
    default: {
      static const char* cs[] = {"; note\n", ";\n", " ; (define-formula c (> z 1))\n", ";; a ; b )\n", "; \xc3\xa9\n"};
      return std::string(need ? " " : "") + cs[choose(W, 5)];
    }
  }
}
static std::string render_num(double v, int style) {
  char b[64];
  if (v * 4 != std::floor(v * 4) || v > 1e5) {       // shortest or longest decimal that denotes it
    int p = style && choose(W, 2) ? 17 : 1;
    do snprintf(b, sizeof b, "%.*g", p, v);
    while (strtod(b, nullptr) != v && ++p <= 17);
    if (style && choose(W, 2)) for (char* c = b; *c; c++) if (*c == 'e') *c = 'E';
    return b;
  }
  if (v == std::floor(v) && v < 1e9) {
    int k = style ? choose(W, 4) : 0;
    long i = (long)v;
    if (k == 0) snprintf(b, sizeof b, "%ld", i);
    else if (k == 1) snprintf(b, sizeof b, "%ld.0", i);
    else if (k == 2) snprintf(b, sizeof b, "%ld.00e0", i);
    else snprintf(b, sizeof b, "%lde+00", i);
  } else {
    int k = style ? choose(W, 3) : 0;
    long h = std::lround(v * 100);   // quarters have two decimals
    if (k == 0) snprintf(b, sizeof b, "%ld.%02ld", h / 100, h % 100);
    else if (k == 1) snprintf(b, sizeof b, "%lde-2", h);
    else snprintf(b, sizeof b, "%ld.%ld%ldE1", h / 1000, h / 100 % 10, h % 100), snprintf(b, sizeof b, "%ld.%03ldE1", h / 1000, h % 1000);
  }
  return b;
}
std::string render(const MP& m, int style) {
  if (!m->ref.empty()) return m->ref;
  static const char* N[] = {"", "", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until"};
  if (m->k == M::CONST) return m->val ? "true" : "false";
  std::string s = "(" + gap(style, false);
  if (m->k == M::PRED) {
    bool flipform = style && flip(W, 3);
    if (flipform) {
      static const char* FL[] = {"<", "<=", ">", ">="};
      s += FL[m->op];
      s += gap(style, true) + render_num(m->rhs, style) + gap(style, true) + m->name;
    } else {
      s += OPS[m->op];
      s += gap(style, true) + m->name + gap(style, true) + render_num(m->rhs, style);
    }
  } else {
    s += N[m->k];
    for (auto& c : m->a) s += gap(style, true) + render(c, style);
  }
  return s + gap(style, false) + ")";
}
SpecModel gen_spec(int maxitems, bool fancy, const GenOpts* base) {
  SpecModel sp;
  int n = 1 + choose(W, maxitems);
  int style = fancy ? choose(W, 2) : 0;
  static const char* ids[] = {"phi", "psi", "p", "q", "safe", "live", "x1", "a_b", "truth", "nota", "andy", "G"};
  static const char* sigs[] = {"x", "y", "speed", "untilx", "t2"};
  std::set<std::string> usedf, useda;
  std::vector<std::pair<std::string, MP>> defs;
  sp.text = gap(style, false);
  bool names_vary = flip(W, 3);
  std::vector<std::string> made;
  auto fresh = [&]() {                  // names of all lengths, and names that are nearly other names
    static const char ab[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    std::string id;
    if (!made.empty() && flip(W, 3)) {
      id = made[choose(W, made.size())];
      switch (choose(W, 4)) {
        case 0: id += ab[choose(W, 63)]; break;
        case 1: if (id.size() > 1) id.pop_back(); break;
        case 2: id[id.size() - 1] = id.back() == 'k' ? 'K' : 'k'; break;
        default: id[0] = isupper((unsigned char)id[0]) ? tolower(id[0]) : toupper(id[0]);
      }
    } else {
      static const int lens[] = {1, 3, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 130, 300};
      int len = lens[choose(W, flip(W, 3) ? 18 : 10)];
      id = ab[choose(W, 53)];
      while ((int)id.size() < len) id += ab[choose(W, 63)];
    }
    made.push_back(id);
    return id;
  };
  auto keyword = [](const std::string& s) {
    static const std::set<std::string> k{"true", "false", "not", "and", "or", "implies", "iff", "xor", "always", "eventually", "until", "define", "assert"};
    return k.count(s) > 0;
  };
  std::vector<std::string> sigs_vary;
  if (names_vary && !base) for (int i = 0; i < 4; i++) { std::string s = fresh(); if (!keyword(s)) sigs_vary.push_back(s); }
  if (maxitems > 2 && flip(W, 24)) { n = 8 + choose(W, 24); stat("specifications of many commands"); }
  if (names_vary) stat("specifications with unusual names");
  for (int i = 0; i < n; i++) {
    SpecItem it;
    it.assertion = flip(W, 3);
    std::string id = names_vary ? fresh() : ids[choose(W, 12)];
    if (keyword(id)) id += "_";
    auto& used = it.assertion ? useda : usedf;
    while (used.count(id)) id += char('a' + i % 26);
    used.insert(id);
    it.id = id;
    GenOpts o;
    if (base) o = *base;
    o.nonneg = true;
    o.shared = false;
    o.depth = choose(W, 4);
    o.reals = true;
    o.wide = base ? 6 : 9;
    if (!sigs_vary.empty()) o.names = sigs_vary;
    else if (!base) {
      o.names.clear();
      int ns = 1 + choose(W, 3);
      for (int k = 0; k < ns; k++) o.names.push_back(sigs[choose(W, 5)]);
    }
    MP m = gen_formula(o);
    if (!base && flip(W, 20)) {            // a tall one
      int tall = 5 + choose(W, 30);
      for (int k = 0; k < tall; k++) { auto u = std::make_shared<M>(); u->k = choose(W, 3) ? M::NOT : choose(W, 2) ? M::G : M::F; u->a = {m}; m = u; }
      stat("tall formulas");
    }
    if (!(base && base->until_simple && m->k == M::U) && !defs.empty() && flip(W, 2)) {      // refer to an earlier definition somewhere
      auto& d = defs[choose(W, defs.size())];
      auto r = std::make_shared<M>(*d.second);
      r->ref = d.first;
      if (m->a.empty() || flip(W, 4)) m = r;
      else m->a[choose(W, m->a.size())] = r;
    }
    it.m = m;
    std::string t = "(" + gap(style, false) + (it.assertion ? "assert" : "define-formula") + gap(style, true) + id + gap(style, true) + render(m, style) + gap(style, false) + ")";
    it.text = t;
    if (!it.assertion) {
      auto bare = std::make_shared<M>(*m);
      bare->ref.clear();
      defs.push_back({id, bare});
    }
    sp.begin.push_back(sp.text.size());
    sp.text += t;
    sp.end.push_back(sp.text.size());
    sp.text += gap(style, false);
    if (!style) sp.text += "\n";
    sp.items.push_back(it);
  }
  return sp;
}
std::string SpecModel::describe() const {
  std::string s;
  for (auto& i : items) s += (i.assertion ? "assert " : "define ") + i.id + "=" + mtext(i.m) + "; ";
  return s;
}
void redefine(SpecModel& sp) {
  auto& it = sp.items[choose(W, sp.items.size())];
  std::string body;
  switch (choose(W, 4)) {
    case 0: body = "(> x 1)"; break;
    case 1: body = render(it.m, 0); break;           // the very same definition
    case 2: body = "(not (and true (< x 2.5)))"; break;
    default: body = "true";
  }
  std::string t = std::string("(") + (it.assertion ? "assert " : "define-formula ") + it.id + " " + body + ")";
  if (choose(W, 4) == 1) t = "(assert a_new_one (not nowhere_defined))";
  sp.text += "\n" + t;
  sp.refused = sp.text.size();
  sp.text += "\n";
  stat("texts with a redefinition or an unknown name");
}
std::string damage(const std::string& text) {
  std::string t = text;
  int n = 1 + choose(W, 2);
  for (int i = 0; i < n; i++) {
    size_t p = t.empty() ? 0 : choose(W, t.size());
    static const char junk[] = "();<>=ex1 .\"\n-";
    switch (choose(W, 5)) {
      case 0: t.resize(p); break;
      case 1: if (!t.empty()) t.erase(p, 1 + choose(W, 6)); break;
      case 2: t.insert(p, 1, junk[choose(W, sizeof junk - 1)]); break;
      case 3: if (!t.empty()) t[p] = junk[choose(W, sizeof junk - 1)]; break;
      case 4: t.insert(p, t.substr(0, std::min<size_t>(t.size(), 30))); break;
    }
  }
  return t;
}

// ------------------------------------------------------------------ meaning of a formula
// Discrete-time quantitative semantics, used to compare a parsed formula with the generated one.
using Col = std::vector<double>;
struct DTrace { std::map<std::string, Col> v; int n; };
static Col bin(const Col& a, const Col& b, bool mn) {
  Col r(a.size());
  for (size_t i = 0; i < a.size(); i++) r[i] = mn ? std::min(a[i], b[i]) : std::max(a[i], b[i]);
  return r;
}
static Col neg(Col a) { for (auto& x : a) x = -x; return a; }
static Col always(Col a, bool mn) { for (int i = int(a.size()) - 2; i >= 0; i--) a[i] = mn ? std::min(a[i], a[i + 1]) : std::max(a[i], a[i + 1]); return a; }
static Col until(const Col& x, const Col& y) {
  Col r(x.size());
  double nx = -INFINITY;
  for (int i = int(x.size()) - 1; i >= 0; i--) nx = r[i] = std::max(y[i], std::min(x[i], nx));
  return r;
}
static Col pred(const DTrace& t, const std::string& name, int op, double rhs) {
  Col r(t.n, 0.0);
  auto it = t.v.find(name);
  for (int i = 0; i < t.n; i++) {
    double v = it == t.v.end() ? 12345.0 : it->second[i];
    r[i] = op <= 1 ? v - rhs : rhs - v;
  }
  return r;
}
static Col meval(const MP& m, const DTrace& t) {
  std::vector<Col> a;
  for (auto& c : m->a) a.push_back(meval(c, t));
  switch (m->k) {
    case M::CONST: return Col(t.n, m->val ? INFINITY : -INFINITY);
    case M::PRED: return pred(t, m->name, m->op, m->rhs);
    case M::NOT: return neg(a[0]);
    case M::AND: case M::OR: { Col r = a[0]; for (size_t i = 1; i < a.size(); i++) r = bin(r, a[i], m->k == M::AND); return r; }
    case M::IMPL: return bin(neg(a[0]), a[1], false);
    case M::IFF: return bin(bin(a[0], a[1], true), bin(neg(a[0]), neg(a[1]), true), false);
    case M::XOR: return bin(bin(a[0], a[1], false), bin(neg(a[0]), neg(a[1]), false), true);
    case M::G: return always(a[0], true);
    case M::F: return always(a[0], false);
    case M::U: return until(a[0], a[1]);
  }
  return {};
}
static Col eeval(const Expr& e, const DTrace& t, int depth = 0) {
  using namespace stl::ast;
  if (depth > 400) return Col(t.n, 4711.0);
  if (auto c = std::get_if<Const>(&e)) return Col(t.n, c->value ? INFINITY : -INFINITY);
  if (auto p = std::get_if<Predicate>(&e))
    return pred(t, p->name, p->op == ComparisonOp::GT ? 0 : p->op == ComparisonOp::GE ? 1 : p->op == ComparisonOp::LT ? 2 : 3, p->rhs);
  if (auto n = std::get_if<NotPtr>(&e)) return neg(eeval((*n)->arg, t, depth + 1));
  if (auto n = std::get_if<AndPtr>(&e)) {
    Col r(t.n, INFINITY);
    for (auto& x : (*n)->args) r = bin(r, eeval(x, t, depth + 1), true);
    return r;
  }
  if (auto n = std::get_if<OrPtr>(&e)) {
    Col r(t.n, -INFINITY);
    for (auto& x : (*n)->args) r = bin(r, eeval(x, t, depth + 1), false);
    return r;
  }
  if (auto n = std::get_if<AlwaysPtr>(&e)) return always(eeval((*n)->arg, t, depth + 1), true);
  if (auto n = std::get_if<EventuallyPtr>(&e)) return always(eeval((*n)->arg, t, depth + 1), false);
  if (auto n = std::get_if<UntilPtr>(&e)) return until(eeval((*n)->args.first, t, depth + 1), eeval((*n)->args.second, t, depth + 1));
  return Col(t.n, 4712.0);
}
static void mpreds(const MP& m, std::set<std::string>& s) {
  if (m->k == M::PRED) s.insert(m->name + OPS[m->op] + num(m->rhs));
  for (auto& c : m->a) mpreds(c, s);
}
static void mnames(const MP& m, std::map<std::string, std::vector<double>>& s) {
  if (m->k == M::PRED) s[m->name].push_back(m->rhs);
  for (auto& c : m->a) mnames(c, s);
}
static void epreds(const Expr& e, std::set<std::string>& s, int depth = 0) {
  using namespace stl::ast;
  if (depth > 400) return;
  if (auto p = std::get_if<Predicate>(&e)) {
    int op = p->op == ComparisonOp::GT ? 0 : p->op == ComparisonOp::GE ? 1 : p->op == ComparisonOp::LT ? 2 : 3;
    s.insert(p->name + OPS[op] + num(p->rhs));
  } else if (auto n = std::get_if<NotPtr>(&e)) epreds((*n)->arg, s, depth + 1);
  else if (auto n = std::get_if<AndPtr>(&e)) { for (auto& x : (*n)->args) epreds(x, s, depth + 1); }
  else if (auto n = std::get_if<OrPtr>(&e)) { for (auto& x : (*n)->args) epreds(x, s, depth + 1); }
  else if (auto n = std::get_if<AlwaysPtr>(&e)) epreds((*n)->arg, s, depth + 1);
  else if (auto n = std::get_if<EventuallyPtr>(&e)) epreds((*n)->arg, s, depth + 1);
  else if (auto n = std::get_if<UntilPtr>(&e)) { epreds((*n)->args.first, s, depth + 1); epreds((*n)->args.second, s, depth + 1); }
}
bool has_const(const MP& m) {
  if (m->k == M::CONST) return true;
  for (auto& c : m->a) if (has_const(c)) return true;
  return false;
}
bool same_meaning(const Expr& e, const MP& m, std::string* why) {
  std::set<std::string> a, b;
  mpreds(m, a);
  epreds(e, b);
  // constants may absorb parts of a formula
  bool sub = std::includes(a.begin(), a.end(), b.begin(), b.end());
  if (!sub || (a != b && !has_const(m))) {
    if (why) {
      *why = "predicates written:";
      for (auto& x : a) *why += " " + x;
      *why += "; predicates found:";
      for (auto& x : b) *why += " " + x;
    }
    return false;
  }
  uint64_t s = 88172645463325252ull;
  auto rnd = [&]() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 20) % 2048 / 64.0 - 12; };
  std::map<std::string, std::vector<double>> ns;
  mnames(m, ns);
  for (int k = 0; k < 10; k++) {
    DTrace t;
    t.n = 4;
    size_t j = 0;
    for (auto& [n, rhs] : ns) for (int i = 0; i < t.n; i++) t.v[n].push_back(k & 1 ? rhs[(j++ * 7 + k) % rhs.size()] + rnd() / 4 : rnd());
    Col ca = meval(m, t), cb = eeval(e, t);
    if (ca != cb) {
      if (why) *why = "means something else than written";
      return false;
    }
  }
  return true;
}
std::string match_spec(const stl::Specification& spec, const std::vector<SpecItem>& items) {
  size_t nf = 0, na = 0;
  for (auto& it : items) {
    auto& mp = it.assertion ? spec.assertions : spec.formulas;
    (it.assertion ? na : nf)++;
    auto f = mp.find(it.id);
    if (f == mp.end()) return std::string(it.assertion ? "assertion " : "formula ") + it.id + " is missing";
    std::string why;
    if (!same_meaning(f->second, it.m, &why)) return std::string(it.assertion ? "assertion " : "formula ") + it.id + " [" + canon(f->second) + "] is not what was written [" + mtext(it.m) + "]: " + why;
  }
  if (spec.formulas.size() != nf) return std::to_string(spec.formulas.size()) + " formulas instead of " + std::to_string(nf);
  if (spec.assertions.size() != na) return std::to_string(spec.assertions.size()) + " assertions instead of " + std::to_string(na);
  return "";
}

// ------------------------------------------------------------------ signals
SigData gen_signal(int maxn, int start_q) {
  SigData d;
  int n = 1 + choose(W, maxn);
  double t = start_q ? choose(W, start_q) / 4.0 : 0.0;
  for (int i = 0; i < n; i++) {
    d.push_back({t, quarter(24)});
    t += (1 + choose(W, 8)) / 4.0;
  }
  return d;
}
SigData gen_signal_wild(int maxn) {
  SigData d;
  int n = 1 + choose(W, maxn);
  double t = choose(W, 3) ? 0.1 * choose(W, 50) : std::ldexp(1.0, int(choose(W, 40)) - 20);
  for (int i = 0; i < n; i++) {
    d.push_back({t, nasty()});
    t += choose(W, 4) ? 0.1 * (1 + choose(W, 20)) : std::ldexp(1.0 + choose(W, 10) / 7.0, int(choose(W, 12)) - 6);
  }
  return d;
}
SignalPtr make_signal(const SigData& d, int mode) {
  if (mode == 1) {
    std::vector<double> p, t;
    for (auto& x : d) { t.push_back(x.first); p.push_back(x.second); }
    return std::make_shared<Signal>(p, t);
  }
  auto s = std::make_shared<Signal>();
  for (auto& x : d) s->push_back(x.first, x.second);
  return s;
}
std::string sdata(const SigData& d) {
  std::string s = "[";
  for (auto& x : d) s += "(" + num(x.first) + "," + num(x.second) + ")";
  return s + "]";
}

// ------------------------------------------------------------------ canonical text
static void canon_rec(const Expr& e, std::string& s, int depth) {
  using namespace stl::ast;
  if (depth > 600) { s += "..."; return; }
  auto iv = [&](const Interval& i) {
    auto [a, b] = i.as_double();
    s += "[" + num(a) + "," + num(b) + (std::holds_alternative<double>(i.low) ? "d" : "u") + (std::holds_alternative<double>(i.high) ? "d" : "u") + "]";
  };
  if (e.valueless_by_exception()) { s += "valueless"; return; }
  if (auto c = std::get_if<Const>(&e)) s += c->value ? "true" : "false";
  else if (auto p = std::get_if<Predicate>(&e)) {
    const char* o = p->op == ComparisonOp::GT ? ">" : p->op == ComparisonOp::GE ? ">=" : p->op == ComparisonOp::LT ? "<" : p->op == ComparisonOp::LE ? "<=" : "?";
    s += "(" + p->name + o + num(p->rhs) + ")";
  } else if (auto n = std::get_if<NotPtr>(&e)) {
    if (!*n) { s += "null-not"; return; }
    s += "(not ";
    canon_rec((*n)->arg, s, depth + 1);
    s += ")";
  } else if (auto n = std::get_if<AndPtr>(&e)) {
    if (!*n) { s += "null-and"; return; }
    s += "(and";
    for (auto& x : (*n)->args) { s += " "; canon_rec(x, s, depth + 1); }
    s += ")";
  } else if (auto n = std::get_if<OrPtr>(&e)) {
    if (!*n) { s += "null-or"; return; }
    s += "(or";
    for (auto& x : (*n)->args) { s += " "; canon_rec(x, s, depth + 1); }
    s += ")";
  } else if (auto n = std::get_if<AlwaysPtr>(&e)) {
    if (!*n) { s += "null-always"; return; }
    s += "(always";
    iv((*n)->interval);
    s += " ";
    canon_rec((*n)->arg, s, depth + 1);
    s += ")";
  } else if (auto n = std::get_if<EventuallyPtr>(&e)) {
    if (!*n) { s += "null-eventually"; return; }
    s += "(eventually";
    iv((*n)->interval);
    s += " ";
    canon_rec((*n)->arg, s, depth + 1);
    s += ")";
  } else if (auto n = std::get_if<UntilPtr>(&e)) {
    if (!*n) { s += "null-until"; return; }
    s += "(until";
    iv((*n)->interval);
    s += " ";
    canon_rec((*n)->args.first, s, depth + 1);
    s += " ";
    canon_rec((*n)->args.second, s, depth + 1);
    s += ")";
  }
}
std::string canon(const Expr& e) {
  std::string s;
  canon_rec(e, s, 0);
  return s;
}
std::string canon(const Signal& s) {
  std::string r = std::to_string(s.size()) + "{";
  size_t n = 0;
  for (auto i = s.begin(); i != s.end() && n < 100000; ++i, ++n) r += num(i->time) + ":" + num(i->value) + "/" + num(i->derivative) + " ";
  return r + "}";
}
std::string canon(const SignalPtr& s) { return s ? canon(*s) : std::string("null"); }
std::string canon(const Trace& t) {
  std::string r = "<";
  for (auto& [k, v] : t) r += k + "=" + canon(v) + ";";
  return r + ">";
}
std::string canon(const stl::Specification& s) {
  std::string r = "spec{";
  for (auto& [k, v] : s.formulas) r += "f " + k + "=" + canon(v) + ";";
  for (auto& [k, v] : s.assertions) r += "a " + k + "=" + canon(v) + ";";
  return r + "}";
}
std::string current_exception_text() {
  std::string r = "throws ";
  try {
    throw;
  } catch (const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    r += d ? d : typeid(e).name();
    free(d);
    r += ": ";
    r += e.what();
  } catch (...) {
    r += "something unusual";
  }
  return r;
}
void gen_identity(const char* s) { log("scenario %s phase %d", s, phase()); }

// ------------------------------------------------------------------ generic calls
struct Inst::Objs {
  Expr e{stl::ast::Const{false}};
  std::vector<Expr> es;
  Trace tr;
  SignalPtr a, b;
  std::vector<double> pv, tv;
  // results
  Expr re{stl::ast::Const{false}};
  SignalPtr rs, rs2;
  std::unique_ptr<stl::Specification> spec;
  std::string rtext;
};
std::string Op::describe() const {
  static const char* N[] = {"eval", "parse", "parse-file", "combine", "print", "signal", "copy", "at", "range", "resize", "shift", "resize_shift", "simplify", "synchronize", "push_back", "print-signal", "interval"};
  std::string s = N[kind];
  s += " sub=" + std::to_string(sub);
  if (m) s += " " + mtext(m);
  for (auto& x : ms) s += " " + mtext(x);
  for (auto& [k, v] : sigs) s += " " + k + "=" + sdata(v);
  if (!a.empty()) s += " a=" + sdata(a);
  if (!b.empty()) s += " b=" + sdata(b);
  if (!text.empty()) s += " text=" + text;
  s += " p=" + num(p) + " q=" + num(q) + " r=" + num(r) + " s=" + num(this->s);
  return s;
}
Op gen_op(const OpGen& g) {
  Op o;
  static const Op::Kind kinds[] = {Op::EVAL, Op::EVAL, Op::EVAL, Op::EVAL, Op::PARSE, Op::PARSE, Op::PARSE_FILE, Op::COMBINE, Op::COMBINE, Op::PRINT, Op::SIG_NEW, Op::SIG_COPY, Op::AT, Op::RANGE, Op::RESIZE, Op::SHIFT, Op::RESIZE_SHIFT, Op::SIMPLIFY, Op::SYNC, Op::SYNC, Op::PUSH, Op::PRINT_SIG, Op::INTERVAL};
  if (g.only.empty()) {
    do o.kind = kinds[choose(W, 23)];
    while (!g.files && o.kind == Op::PARSE_FILE);
  } else o.kind = g.only[choose(W, g.only.size())];
  bool big = flip(W, 24);
  if (big) stat("calls on long signals");
  auto sig = [&](int n) { if (big) n *= 2 + choose(W, 12); return g.wild && flip(W, 3) ? gen_signal_wild(n) : gen_signal(n, 6); };
  auto tm = [&](const SigData& d) {      // a time of interest for this signal
    if (d.empty()) return quarter(20);
    switch (choose(W, 6)) {
      case 0: return d.front().first;
      case 1: return d.back().first;
      case 2: return d[choose(W, d.size())].first;
      case 3: return d.front().first - 0.25 - choose(W, 4);
      case 4: return d.back().first + 0.25 + choose(W, 4);
      default: return d.front().first + (d.back().first - d.front().first) * choose(W, 17) / 16.0;
    }
  };
  GenOpts fo;
  fo.bounded = g.bounded;
  fo.reals = g.wild;
  fo.wide = 6;
  switch (o.kind) {
    case Op::EVAL: {
      fo.depth = 1 + choose(W, 4);
      static const char* nm[] = {"x", "y", "z"};
      int n = 1 + choose(W, 3);
      fo.names.clear();
      bool same = flip(W, 2);
      for (int i = 0; i < n; i++) { fo.names.push_back(nm[i]); o.sigs[nm[i]] = sig(10); if (same && i) { SigData d = o.sigs[nm[0]]; for (auto& x : d) x.second = quarter(24); o.sigs[nm[i]] = d; } }
      if (g.fail && flip(W, 12)) fo.names.push_back("missing");
      if (g.fail && flip(W, 16)) o.sigs["x"].clear();
      o.m = gen_formula(fo);
      o.sub = choose(W, 2);
      break;
    }
    case Op::PARSE: case Op::PARSE_FILE: {
      SpecModel sp = gen_spec(4);
      if (g.fail && flip(W, 10)) redefine(sp);
      o.text = sp.text;
      if (g.fail && flip(W, 3)) o.text = damage(o.text);
      if (o.kind == Op::PARSE_FILE) o.file = std::string("f") + char('0' + choose(W, 4));
      if (o.kind == Op::PARSE_FILE && g.fail && flip(W, 12)) o.sub = 1;    // file does not exist
      if (o.kind == Op::PARSE_FILE && g.fail && flip(W, 14)) o.text = "";  // empty file
      break;
    }
    case Op::COMBINE: {
      o.sub = choose(W, 14);
      fo.depth = choose(W, 3);
      fo.names = {"x", "y"};
      int n = 2 + choose(W, 2);
      if (g.fail && flip(W, 8)) n = choose(W, 2);
      for (int i = 0; i < std::max(n, 2); i++) o.ms.push_back(gen_formula(fo));
      o.r = n;
      o.p = choose(W, 6) / 2.0;
      o.q = o.p + choose(W, 4) / 2.0 + (g.fail ? 0 : 0.5);
      break;
    }
    case Op::PRINT: fo.depth = choose(W, 4); fo.names = {"x", "speed", "a_rather_long_signal_name"}; o.m = gen_formula(fo); o.sub = choose(W, 2); break;
    case Op::SIG_NEW:
      o.a = sig(12);
      o.sub = choose(W, g.fail ? 4 : 2);
      if (o.sub >= 2 && flip(W, 2) && !o.a.empty()) o.a.push_back({o.a.back().first, 1.0});
      break;
    case Op::SYNC:
      o.a = sig(10);
      o.b = sig(10);
      if (flip(W, 3)) { double d = (o.a.empty() ? 0 : o.a.back().first) * choose(W, 5) / 4.0; for (auto& x : o.b) x.first += d; }
      if (g.fail && flip(W, 12)) o.b.clear();
      break;
    case Op::INTERVAL: o.p = quarter(12); o.q = quarter(12); o.sub = choose(W, 2); break;
    default:
      o.a = sig(12);
      if (g.fail && flip(W, 14)) o.a.clear();
      o.p = tm(o.a);
      o.q = tm(o.a);
      if (o.kind == Op::RESIZE || o.kind == Op::RESIZE_SHIFT || o.kind == Op::RANGE) if (o.p > o.q && !flip(W, 6)) std::swap(o.p, o.q);
      o.r = quarter(20);
      o.s = quarter(20);
      if (g.fail && o.kind == Op::PUSH && flip(W, 8)) o.p = std::nan("");
      if (!g.fail && o.kind == Op::PUSH) o.p = (o.a.empty() ? 0 : o.a.back().first) + 0.5;
      o.sub = choose(W, 2);
  }
  return o;
}
Inst::Inst(const Op& p) : op(&p) {}
Inst::~Inst() {
  drop_result();
  drop_inputs();
}
bool Inst::rebind(const Op& other) {
  if (op->kind != Op::EVAL || other.kind != Op::EVAL || op->m != other.m || op->sigs.size() != other.sigs.size()) return false;
  for (auto& [k, v] : other.sigs) { (void)v; if (!op->sigs.count(k)) return false; }
  Call c;
  for (auto& [k, v] : other.sigs) *o->tr[k] = *make_signal(v);
  op = &other;
  return true;
}
void Inst::prepare(std::map<const M*, Expr>* formulas) {
  o = new Objs();
  std::map<const M*, Expr> own, &memo = formulas ? *formulas : own;
  if (op->kind == Op::PARSE_FILE && op->sub != 1) disk_write(op->file.c_str(), op->text);
  if (op->kind == Op::PARSE_FILE && op->sub == 1) disk_unlink(op->file.c_str());
  Call c;
  if (op->m) o->e = build(op->m, memo);
  for (auto& x : op->ms) o->es.push_back(build(x, memo));
  for (auto& [k, v] : op->sigs) o->tr[k] = make_signal(v);
  if (op->kind == Op::SIG_NEW) {
    for (auto& x : op->a) { o->tv.push_back(x.first); o->pv.push_back(x.second); }
    if (op->sub == 3) o->pv.push_back(1);
  } else if (op->kind >= Op::SIG_COPY && op->kind <= Op::PRINT_SIG) {
    o->a = make_signal(op->a, 1);
    o->b = make_signal(op->b, 1);
  }
  if (op->kind == Op::RANGE) o->pv.reserve(4 * op->a.size() + 8);
}
void Inst::call(CallOpts co) {
  using namespace stl;
  drop_result();
  threw = oom = false;
  Objs& x = *o;
  std::string txt;
  try {
    Call c(co);
    switch (op->kind) {
      case Op::EVAL: x.rs = semantics::compute_robustness(x.e, x.tr, op->sub); break;
      case Op::PARSE: x.spec = parser::from_string(op->text); break;
      case Op::PARSE_FILE: x.spec = parser::from_file(disk_path(op->file.c_str())); break;
      case Op::COMBINE: {
        auto& a = x.es[0];
        auto& b = x.es[1];
        std::vector<Expr> v;
        if (op->sub < 2) { v = x.es; v.resize(std::min(v.size(), (size_t)op->r), a); }
        ast::Interval iv;
        if (op->sub >= 11) iv = ast::Interval(op->p, op->q);
        switch (op->sub) {
          case 0: x.re = And(std::move(v)); break;
          case 1: x.re = Or(std::move(v)); break;
          case 2: x.re = a & b; break;
          case 3: x.re = a | b; break;
          case 4: x.re = ~a; break;
          case 5: x.re = Implies(a, b); break;
          case 6: x.re = Xor(a, b); break;
          case 7: x.re = Iff(a, b); break;
          case 8: x.re = Not(a); break;
          case 9: x.re = Always(a); break;
          case 10: x.re = Until(a, b); break;
          case 11: x.re = Always(a, iv); break;
          case 12: x.re = Eventually(a, iv); break;
          default: x.re = Until(a, b, iv); break;
        }
        break;
      }
      case Op::PRINT:
        if (op->sub == 0) x.rtext = fmt::to_string(x.e);
        else { std::ostringstream os; os.exceptions(std::ios::badbit | std::ios::failbit); ::operator<<(os, x.e); x.rtext = os.str(); }
        break;
      case Op::SIG_NEW: x.rs = std::make_shared<Signal>(x.pv, x.tv); break;
      case Op::SIG_COPY: x.rs = std::make_shared<Signal>(*x.a); break;
      case Op::AT: { Sample s = x.a->at(op->p); x.pv = {s.time, s.value, s.derivative}; break; }
      case Op::RANGE: {
        x.pv.clear();
        x.pv.push_back(x.a->begin_time());
        x.pv.push_back(x.a->end_time());
        auto i = x.a->begin_at(op->p), j = x.a->end_at(op->q);
        x.pv.push_back(i - x.a->begin());
        x.pv.push_back(j - x.a->begin());
        for (; i < j; ++i) x.pv.push_back(i->value);
        break;
      }
      case Op::RESIZE: x.rs = x.a->resize(op->p, op->q, op->r); break;
      case Op::SHIFT: x.rs = x.a->shift(op->r); break;
      case Op::RESIZE_SHIFT: x.rs = x.a->resize_shift(op->p, op->q, op->r, op->s); break;
      case Op::SIMPLIFY: x.rs = x.a->simplify(); break;
      case Op::SYNC: std::tie(x.rs, x.rs2) = stl::signal::synchronize(x.a, x.b); break;
      case Op::PUSH: x.a->push_back(op->p, op->r); break;
      case Op::PRINT_SIG: x.rtext = fmt::to_string(*x.a); break;
      case Op::INTERVAL: {
        ast::Interval iv = op->sub ? ast::Interval(op->p, op->q) : ast::Interval((unsigned long long)std::fabs(op->p), (unsigned long long)std::fabs(op->q));
        auto [a, b] = iv.as_double();
        x.pv = {a, b};
        break;
      }
      default: break;
    }
  } catch (...) {
    leave_call();
    threw = true;
    result = current_exception_text();
    if (keep_exception) ex = std::current_exception();
    oom = call_faulted();
  }
  oom = call_faulted();
  if (!threw) result = read();
}
std::string Inst::read() const {
  const Objs& x = *o;
  if (threw) {
    if (!ex) return result;
    try {
      std::rethrow_exception(ex);
    } catch (...) { return current_exception_text(); }
  }
  std::string result;
  switch (op->kind) {
    case Op::COMBINE: result = canon(x.re); break;
    case Op::PARSE: case Op::PARSE_FILE: result = x.spec ? canon(*x.spec) : "null"; break;
    case Op::PRINT: case Op::PRINT_SIG: result = x.rtext; break;
    case Op::AT: case Op::RANGE: case Op::INTERVAL: result = "values"; for (double d : x.pv) result += " " + num(d); break;
    case Op::SYNC: result = canon(x.rs) + canon(x.rs2); break;
    case Op::PUSH: result = canon(x.a); break;
    default: result = canon(x.rs);
  }
  return result;
}
std::string Inst::inputs() const {
  std::string s = canon(o->e);
  for (auto& e : o->es) s += canon(e);
  s += canon(o->tr);
  s += canon(o->a);
  s += canon(o->b);
  return s;
}
void Inst::drop_result() {
  if (!o) return;
  ex = nullptr;
  o->re = stl::ast::Const{false};
  o->rs.reset();
  o->rs2.reset();
  o->spec.reset();
  o->rtext = std::string();
  if (op->kind != Op::SIG_NEW && op->kind != Op::RANGE) { std::vector<double>().swap(o->pv); }
}
bool Inst::has_inputs() const { return !gone; }
void Inst::forget_inputs() {        // keeps the results
  if (op->kind == Op::PUSH) return;
  gone = true;
  Call c;
  o->e = stl::ast::Const{false};
  o->es.clear();
  o->tr.clear();
  o->a.reset();
  o->b.reset();
  std::vector<double>().swap(o->tv);
}
std::string Inst::use() const {
  std::string txt;
  const Objs& x = *o;
  std::vector<Expr> es;
  std::vector<SignalPtr> ss;
  std::string out;
  try {
    Call c;
    using namespace stl;
    auto expr = [&](const Expr& e) { es.push_back(e & Expr(ast::Predicate("w") > 1.0)); es.push_back(~e); es.push_back(e | e); out += fmt::to_string(e); };
    auto sig = [&](const SignalPtr& s) {
      ss.push_back(s->simplify());
      ss.push_back(s->shift(0.5));
      ss.push_back(std::make_shared<Signal>(*s));
      Trace tr{{"w", s}};
      ss.push_back(semantics::compute_robustness(Always(ast::Predicate("w") > 1.0), tr));
      auto [a, b] = stl::signal::synchronize(s, ss[1]);
      ss.push_back(a);
      ss.push_back(b);
    };
    if (op->kind == Op::COMBINE) expr(x.re);
    if (x.spec) { for (auto& [k, v] : x.spec->formulas) { (void)k; expr(v); } for (auto& [k, v] : x.spec->assertions) { (void)k; expr(v); } }
    if (x.rs && !x.rs->empty()) sig(x.rs);
    if (x.rs2 && !x.rs2->empty()) sig(x.rs2);
  } catch (...) {
    leave_call();
    return current_exception_text();
  }
  txt = out;
  for (auto& e : es) txt += canon(e);
  for (auto& s : ss) txt += canon(s);
  { Call c; es.clear(); ss.clear(); std::string().swap(out); }
  return txt;
}
void Inst::drop_inputs() {
  delete o;
  o = nullptr;
}
} // namespace w
