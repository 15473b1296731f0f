// C05, C06: specification files under I/O faults, atomic replacement, torn writes.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>

namespace w {
using namespace signal_tl;

// what parsing these bytes from memory gives: canonical text, or "throws"
static std::string denotes(const std::string& bytes) {
  std::string r;
  std::unique_ptr<Specification> sp;
  try {
    Call c;
    sp = parser::from_string(bytes);
  } catch (...) { leave_call(); r = "throws"; }
  if (r.empty()) r = sp ? canon(*sp) : "null";
  { Call c; sp.reset(); }
  return r;
}
static int draw_err() {
  static const int errs[] = {EIO, ENOMEM, EMFILE, ENFILE, ENODEV, EACCES, EOVERFLOW, ENXIO};
  return errs[choose(F, 8)];
}

// ================================================================== C05
void run_c05() {
  gen_identity("C05");
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  struct Content { std::string bytes, want; SpecModel sm; bool valid; };
  std::vector<Content> K;
  int nk = 2 + choose(W, 3);
  uint64_t wh = 0;
  for (int i = 0; i < nk; i++) {
    Content c;
    int kind = choose(W, 12);
    c.sm = gen_spec(1 + choose(W, 5));
    c.bytes = c.sm.text;
    c.valid = true;
    if (kind == 1) {
      if (choose(W, 3) == 1) { redefine(c.sm); c.bytes = c.sm.text; }
      else c.bytes = damage(c.bytes);
      c.valid = false;
    }
    if (kind == 2) { c.bytes = ""; c.sm = SpecModel(); }
    if (kind == 3) { c.bytes = "; nothing but a comment"; c.sm = SpecModel(); }
    if (kind == 4 || kind == 5) {          // exactly one or two pages, or nearly so
      size_t want = kind == 4 ? 4096 : 8192;
      int off = int(choose(W, 3)) - 1;
      if (c.bytes.size() + 3 < want) c.bytes += "\n;" + std::string(want + off - c.bytes.size() - 2, choose(W, 2) ? 'c' : '(');
      stat("files of about a whole number of pages");
    }
    if (kind == 5 && flip(W, 4)) {         // around the sizes of common buffers
      static const size_t sizes[] = {512, 1024, 2048, 16384, 32768, 65536, 131072};
      size_t want = sizes[choose(W, 7)] + choose(W, 5) - 2;
      if (c.bytes.size() + 3 < want) {
        // the commands at the start, at the end, or split by a long comment
        std::string pad = "\n;" + std::string(want - c.bytes.size() - 3, choose(W, 2) ? ' ' : ')') + "\n";
        switch (choose(W, 3)) {
          case 0: c.bytes += pad; break;
          case 1: c.bytes = pad + c.bytes; break;
          default: if (!c.sm.items.empty()) c.bytes.insert(c.sm.end[choose(W, c.sm.end.size())], pad);
        }
        stat("files of about the size of a buffer");
      }
    }
    if (kind == 6) {                       // same size as another content
      if (!K.empty() && K[0].bytes.size() > c.bytes.size()) { c.bytes += std::string(K[0].bytes.size() - c.bytes.size(), ' '); stat("different contents of the same size"); }
    }
    if (kind == 8) {                       // torn, the rest of the block filled with zeroes
      if (choose(W, 2)) c.bytes.resize(choose(W, c.bytes.size() + 1));
      size_t block = choose(W, 2) ? 512 : 4096;
      c.bytes.resize((c.bytes.size() / block + 1) * block, '\0');
      c.valid = false;
      stat("files with a zero-filled tail");
    }
    if (kind == 9) {                       // what editors and systems put into text files
      static const char* ends[] = {"\x1a", "\r\n\x1a", "\x04", "\r", "\x0c", "\xc2\xa0", "\\", "\n#eof"};
      switch (choose(W, 4)) {
        case 0: c.bytes = "\xef\xbb\xbf" + c.bytes; break;
        case 1: { std::string t; for (char ch : c.bytes) { if (ch == '\n') t += '\r'; t += ch; } c.bytes = t; break; }
        case 2: c.bytes = "#!/usr/bin/env stl\n" + c.bytes; break;
        default: c.bytes += ends[choose(W, 8)];
      }
      c.valid = false;
      stat("files with odd bytes around the text");
    }
    if (kind == 7) {                       // a long file
      SpecModel big;
      for (int k = 0; k < 40; k++) {
        SpecItem it;
        it.assertion = k & 1;
        it.id = "d" + std::to_string(k);
        auto m = std::make_shared<M>();
        m->k = M::PRED; m->name = "x"; m->op = k % 4; m->rhs = k;
        it.m = m;
        big.text += std::string("(") + (it.assertion ? "assert " : "define-formula ") + it.id + " " + render(m, 0) + ")\n; " + std::string(200, '-') + "\n";
        big.items.push_back(it);
      }
      c.sm = big;
      c.bytes = big.text;
    }
    c.want = denotes(c.bytes);
    if (c.valid) {                          // the reference itself has to be what was written
      std::unique_ptr<Specification> sp;
      std::string ex;
      try { Call k; sp = parser::from_string(c.bytes); } catch (...) { leave_call(); ex = current_exception_text(); }
      if (!sp) violation("valid-text-refused", "a well-formed specification is refused (%s): %.1500s", ex.c_str(), c.bytes.c_str());
      std::string d = match_spec(*sp, c.sm.items);
      if (!d.empty()) violation("wrong-specification", "%s; text: %.1500s", d.c_str(), c.bytes.c_str());
      { Call k; sp.reset(); }
    }
    log("content %d: %zu bytes -> %.60s [%.80s]", i, c.bytes.size(), c.want.c_str(), c.bytes.c_str());
    wh = wh * 131 + hash_text(c.bytes);
    K.push_back(c);
  }
  static const char* names[] = {"a.stl", "b.stl"};
  struct File { int cur = -1; std::vector<int> hist; };   // hist: every state in order, -1 absent
  File fs[2];
  auto set = [&](int f, int how, int k) {   // 0 write in place, 1 atomic replacement, 2 unlink
    if (how == 2) { disk_unlink(names[f]); k = -1; }
    else if (how == 0) disk_write(names[f], K[k].bytes);
    else disk_replace(names[f], K[k].bytes);
    if (k >= 0 && choose(F, 2)) {          // coarse or preserved timestamps
      disk_touch(names[f], 0);
      stat("files with an unchanged modification time");
    }
    fs[f].cur = k;
    fs[f].hist.push_back(k);
    log("disk: %s %s content %d", names[f], how == 0 ? "written:" : how == 1 ? "replaced:" : "unlinked,", k);
  };
  set(0, 0, choose(W, nk));
  if (choose(W, 2)) set(1, 0, choose(W, nk));
  int nloads = 0;
  // one load; what it may give is decided by what was on the disk while it ran
  auto load = [&](int f, const IoPlan* plan, CallOpts co, int who) {
    size_t lo = fs[f].hist.size() - 1;
    bool never = fs[f].hist.empty();
    if (plan) {
      io_on_event([&, f](int what) {
        if (what == IO_UNLINK) set(f, 2, 0);
        else set(f, 1, (fs[f].hist.size() * 7 + 1) % K.size());
      });
      io_arm(*plan);
    }
    std::unique_ptr<Specification> sp;
    std::string res, ex;
    try {
      std::string path = disk_path(names[f]);
      Call c(co);
      sp = parser::from_file(path);
    } catch (...) { leave_call(); res = "throws"; ex = current_exception_text(); }
    bool hit = call_faulted();
    int nev = plan ? io_events() : 0;
    if (plan) { io_disarm(); io_on_event(nullptr); }
    if (res.empty()) res = sp ? canon(*sp) : "null";
    nloads++;
    bool may_throw = hit || never;
    bool ok = false;
    std::string allowed;
    size_t from = never ? 0 : lo;
    for (size_t i = from; i < fs[f].hist.size(); i++) {
      int k = fs[f].hist[i];
      if (k < 0) { may_throw = true; allowed += "(absent) "; continue; }
      if (K[k].want == "throws") may_throw = true;
      else if (K[k].want == res) ok = true;
      allowed += "content " + std::to_string(k) + " ";
    }
    if (res == "throws" && may_throw) ok = true;
    log("load by %d of %s, %d i/o events%s -> %.80s %s", who, names[f], nev, hit ? ", faulted" : "", res.c_str(), ex.c_str());
    if (!ok)
      violation(res == "throws" ? "load-refused" : "wrong-load", "loading %s gave %.700s%.200s; on the disk meanwhile: %s; the first of these denotes %.700s", names[f], res.c_str(), ex.c_str(), allowed.c_str(),
                from < fs[f].hist.size() && fs[f].hist[from] >= 0 ? K[fs[f].hist[from]].want.c_str() : "nothing");
    if (hit) stat(res == "throws" ? "faulted loads that threw" : "faulted loads that succeeded");
    else stat(res == "throws" ? "unfaulted loads that threw" : "unfaulted loads that succeeded");
    { Call c; sp.reset(); }
  };
  int n = 3 + choose(W, 6);
  for (int step = 0; step < n; step++) {
    int k = choose(W, 8);
    wh = wh * 31 + k;
    if (k == 1 || k == 2) { set(choose(W, 2), choose(W, 2), choose(W, nk)); continue; }
    if (k == 3 && !fs[0].hist.empty() && flip(W, 2)) { set(choose(W, 2), 2, 0); continue; }
    if (k == 5 && flip(F, 3)) { env_chdir(choose(F, 2)); log("working directory changed"); }
    int nt = k == 4 ? 2 + choose(W, 2) : 1;
    struct L { int f; IoPlan plan; bool armed; CallOpts co; };
    std::vector<L> ls;
    for (int i = 0; i < nt; i++) {
      L l;
      l.f = flip(W, 3) ? 1 : 0;
      l.armed = true;
      l.plan.n = choose(F, 4) ? 1 + choose(F, 2) : 0;
      for (int j = 0; j < l.plan.n; j++) {
        l.plan.ev[j] = choose(F, 6);
        static const int whats[] = {IO_FAIL, IO_FAIL, IO_EINTR, IO_SHORT, IO_REPLACE, IO_REPLACE, IO_UNLINK, IO_FAIL};
        l.plan.what[j] = whats[choose(F, 8)];
        l.plan.err[j] = draw_err();
      }
      l.plan.persist = flip(F, 6);
      if (flip(F, 4)) { l.co.oom_at = choose(F, 60); l.co.oom_persist = choose(F, 2); }
      ls.push_back(l);
    }
    if (nt == 1) load(ls[0].f, &ls[0].plan, ls[0].co, 0);
    else {
      sched_setup();
      for (int i = 0; i < nt; i++) spawn([&, i] { load(ls[i].f, &ls[i].plan, ls[i].co, i + 1); });
      join_all();
      stat("groups of concurrent loads");
    }
  }
  // faults stop: every retry succeeds, and sees what is on the disk now
  for (int f = 0; f < 2; f++) {
    if (fs[f].cur < 0) { if (fs[f].hist.empty()) continue; set(f, 0, choose(W, nk)); }
    load(f, nullptr, {}, 0);
    load(f, nullptr, {}, 0);
    stat("retries after faults stopped");
  }
  // things that are not files
  if (flip(W, 6)) {
    bool threw = false;
    std::unique_ptr<Specification> sp;
    try { std::string p = choose(W, 2) ? "./" : "./f0/nothing"; Call c; sp = parser::from_file(p); } catch (...) { leave_call(); threw = true; }
    if (!threw) violation("wrong-load", "loading something that is not a file gave a specification");
  }
  work_hash(wh);
  stat("loads", nloads);
}

// ================================================================== C06
void run_c06() {
  gen_identity("C06");
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  SpecModel sm = gen_spec(1 + choose(W, 6));
  if (flip(W, 8)) {                          // a long comment moves the commands across page boundaries
    size_t want = (choose(W, 3) ? 4096 : 8192) - choose(W, sm.text.size() + 1);
    if (want > 2 && want < 9000) {
      std::string pad = ";" + std::string(want - 2, choose(W, 2) ? '-' : '(') + "\n";
      sm.text = pad + sm.text;
      for (auto& x : sm.begin) x += pad.size();
      for (auto& x : sm.end) x += pad.size();
      stat("texts that straddle a page boundary");
    }
  }
  if (flip(W, 12)) redefine(sm);
  const std::string& T = sm.text;
  log("text of %zu bytes: %s", T.size(), T.c_str());
  uint64_t wh = hash_text(T);
  auto inside = [&](size_t k) {              // index of the command the cut falls into, or -1
    for (size_t i = 0; i < sm.items.size(); i++) if (k > sm.begin[i] && k < sm.end[i]) return (int)i;
    return -1;
  };
  auto complete = [&](size_t k) {
    size_t n = 0;
    while (n < sm.items.size() && sm.end[n] <= k) n++;
    return n;
  };
  // how the file got onto the disk: written at once, appended to in several sessions, rewritten
  // through a temporary file; the crash leaves a prefix, with or without a zero-filled tail
  int ncuts = 12 + choose(W, 20);
  int how_prev = -1;
  for (int c = 0; c < ncuts; c++) {
    size_t k;
    int where = choose(F, 8);
    if (where <= 3) k = choose(F, T.size() + 1);
    else {
      size_t i = choose(F, sm.items.size());
      static const int off[] = {0, 1, -1, -2, -3, 2, 5};
      long base = where <= 5 ? sm.end[i] : where == 6 ? sm.begin[i] : sm.begin[i] + 1 + choose(F, sm.end[i] - sm.begin[i]);
      long kk = base + off[choose(F, 7)];
      k = kk < 0 ? 0 : std::min<size_t>(kk, T.size());
    }
    int how = choose(F, 4);
    size_t zeros = 0;
    if (flip(F, 3)) {
      switch (choose(F, 4)) {
        case 0: zeros = 1 + choose(F, 8); break;
        case 1: zeros = T.size() - k; break;                           // size durable, data not
        case 2: zeros = 512 - k % 512; break;
        default: zeros = 4096 - k % 4096;
      }
    }
    std::string bytes = T.substr(0, k) + std::string(zeros, '\0');
    // the simulated writer
    const char* kind = "write";
    if (how == 1 && how_prev < 0) {
      // append: an earlier session is durable, the crash hits a later one; same bytes on the disk
      size_t i = choose(F, sm.items.size());
      size_t first = std::min(k, sm.end[i]);
      disk_write("spec.stl", T.substr(0, first));
      kind = "append";
    } else if (how == 2) {
      // temporary file torn, rename not reached or reached before the data was durable
      kind = "tmp+rename";
      disk_replace("spec.stl", bytes);
    }
    if (how != 2) disk_write("spec.stl", bytes);
    how_prev = how;
    fault_note(zeros ? "crash-torn-write-zero-tail" : k < T.size() ? "crash-torn-write" : "crash-after-write");
    bool file = choose(F, 4) != 1;
    std::unique_ptr<Specification> sp;
    std::string ex;
    try {
      std::string path = disk_path("spec.stl");
      Call cc;
      sp = file ? parser::from_file(path) : parser::from_string(bytes);
    } catch (...) { leave_call(); ex = current_exception_text(); }
    size_t n = complete(k);
    int in = inside(k);
    log("cut at %zu (%s%s, %zu zeros): %s -> %s", k, kind, in >= 0 ? ", inside a command" : "", zeros, file ? "file" : "memory", sp ? "specification" : ex.c_str());
    wh = wh * 31 + k * 7 + zeros;
    if (k >= sm.refused) {
      stat("cuts after a command that has to be refused");
      if (sp) violation("torn-file-misread", "a file that defines a name twice or uses an unknown one is accepted as %.600s; whole text: %.1500s", canon(*sp).c_str(), T.c_str());
    } else if (in >= 0) {
      stat("cuts inside a command");
      if (sp) violation("torn-file-accepted", "a file cut at byte %zu, inside the command of %s, followed by %zu zero bytes, is accepted as %.600s; whole text: %.1500s", k, sm.items[in].id.c_str(), zeros, canon(*sp).c_str(), T.c_str());
    } else if (sm.refused != std::string::npos && k > T.find_last_of('\n', sm.refused - 1) + 1) {
      stat("cuts inside a command");         // the last one, which is no item of the model
      if (sp) violation("torn-file-accepted", "a file cut at byte %zu, inside of its last command, is accepted; whole text: %.1500s", k, T.c_str());
    } else if (sp) {
      stat("cuts between commands, accepted");
      std::vector<SpecItem> want(sm.items.begin(), sm.items.begin() + n);
      std::string d = match_spec(*sp, want);
      if (!d.empty()) violation("torn-file-misread", "a file cut at byte %zu, after %zu complete commands, followed by %zu zero bytes, is misread: %s; whole text: %.1500s", k, n, zeros, d.c_str(), T.c_str());
    } else {
      stat("cuts between commands, refused");
      if (k == T.size() && !zeros && sm.refused == std::string::npos) violation("whole-file-refused", "the complete file is refused (%s): %.1500s", ex.c_str(), T.c_str());
    }
    { Call cc; sp.reset(); }
  }
  // recovery: the writer finishes its work
  if (sm.refused != std::string::npos) { work_hash(wh); stat("torn files loaded", ncuts); return; }
  disk_replace("spec.stl", T);
  std::unique_ptr<Specification> sp;
  std::string ex;
  try {
    std::string path = disk_path("spec.stl");
    Call cc;
    sp = parser::from_file(path);
  } catch (...) { leave_call(); ex = current_exception_text(); }
  if (!sp) violation("whole-file-refused", "the complete file is refused after recovery (%s): %.1500s", ex.c_str(), T.c_str());
  std::string d = match_spec(*sp, sm.items);
  if (!d.empty()) violation("torn-file-misread", "the complete file is misread after recovery: %s; text %.1500s", d.c_str(), T.c_str());
  { Call cc; sp.reset(); }
  work_hash(wh);
  stat("torn files loaded", ncuts);
}
} // namespace w
