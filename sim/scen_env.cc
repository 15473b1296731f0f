// C19: the rest of the process and of the disk.
#include "world.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace w {
using namespace signal_tl;

namespace {
// Everything in the scratch directory: names, types, modes, times and contents.
void look_at(const std::string& where, std::map<std::string, std::string>& r) {
  DIR* d = opendir(where.c_str());
  if (!d) violation("harness", "the scratch directory is gone");
  while (dirent* e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string n = where + "/" + e->d_name, k = n.substr(strlen(cfg().dir) + 1);
    struct stat st;
    if (fstatat(AT_FDCWD, n.c_str(), &st, AT_SYMLINK_NOFOLLOW)) { r[k] = "?"; continue; }
    std::string c = "mode " + std::to_string(st.st_mode) + " size " + std::to_string(st.st_size) + " links " + std::to_string(st.st_nlink) + " written " +
                    std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec);
    int fd = S_ISREG(st.st_mode) ? open(n.c_str(), O_RDONLY | O_NOATIME) : -1;
    if (fd >= 0) {
      std::string t(st.st_size, 0);
      ssize_t got = pread(fd, t.data(), t.size(), 0);
      c += " text " + std::to_string(got) + " " + std::to_string(hash_text(t));
      struct flock fl {};
      fl.l_type = F_WRLCK;
      if (fcntl(fd, F_OFD_GETLK, &fl) == 0 && fl.l_type != F_UNLCK) c += " locked";
      if (flock(fd, LOCK_EX | LOCK_NB)) c += " locked by flock";
      else flock(fd, LOCK_UN);
      close(fd);
    }
    r[k] = c;
    if (S_ISDIR(st.st_mode)) look_at(n, r);
  }
  closedir(d);
}
std::map<std::string, std::string> disk_now() {
  std::map<std::string, std::string> r;
  look_at(cfg().dir, r);
  return r;
}
void same_disk(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, const char* who) {
  for (auto& [n, c] : b) {
    auto i = a.find(n);
    if (i == a.end()) violation("disk-changed", "%.300s: there is a new file %s", who, n.c_str());
    if (i->second != c) violation("disk-changed", "%.300s: file %s was %s and is %s", who, n.c_str(), i->second.substr(0, 5).c_str(), c.find("locked") != std::string::npos ? "locked" : "changed");
  }
  for (auto& [n, c] : a) if (!b.count(n)) violation("disk-changed", "%.300s: file %s is gone", who, n.c_str());
}
// What the program around the library holds.
struct Held { int fd; ino_t ino; off_t at; int flags; };
struct Around {
  std::vector<Held> held;
  std::vector<std::pair<char*, size_t>> maps;
  int n = 0;
  void acquire() {
    std::string f = "own" + std::to_string(n++ % 3);
    Held h;
    h.fd = open(disk_path(f.c_str()).c_str(), O_RDWR);
    if (h.fd < 0) violation("process-changed", "the program around the library cannot open its own file %s: %s", f.c_str(), strerror(errno));
    h.at = choose(W, 30);
    lseek(h.fd, h.at, SEEK_SET);
    struct stat st;
    h.ino = real(h.fd, st) ? st.st_ino : 0;
    h.flags = fcntl(h.fd, F_GETFL) * 4 + fcntl(h.fd, F_GETFD);
    held.push_back(h);
  }
  static bool real(int fd, struct stat& st) { return fstatat(fd, "", &st, AT_EMPTY_PATH) == 0; }
  void map() {
    size_t k = (1 + choose(W, 3)) * 4096;
    char* p = (char*)mmap(nullptr, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return;
    memset(p, 'm', k);
    maps.push_back({p, k});
  }
  void check(const char* who) {
    for (auto& h : held) {
      struct stat st;
      if (!real(h.fd, st)) violation("descriptor-lost", "%.300s: a descriptor of the program around the library is closed", who);
      if (st.st_ino != h.ino) violation("descriptor-lost", "%.300s: a descriptor of the program around the library denotes another file", who);
      if (lseek(h.fd, 0, SEEK_CUR) != h.at) violation("descriptor-moved", "%.300s: the position of a descriptor of the program around the library moved", who);
      if (fcntl(h.fd, F_GETFL) * 4 + fcntl(h.fd, F_GETFD) != h.flags) violation("descriptor-moved", "%.300s: the flags of a descriptor of the program around the library changed", who);
    }
    for (auto& [p, k] : maps) {
      unsigned char v[8];
      if (mincore(p, k, v)) violation("mapping-lost", "%.300s: a mapping of the program around the library is gone", who);
      if (p[0] != 'm' || p[k - 1] != 'm') violation("mapping-lost", "%.300s: a mapping of the program around the library changed", who);
    }
  }
  void release() {
    if (held.empty()) return;
    size_t k = choose(W, held.size());
    int fd = held[k].fd;
    held.erase(held.begin() + k);
    close(fd);
  }
  void end() {
    while (!held.empty()) { close(held.back().fd); held.pop_back(); }
    for (auto& [p, k] : maps) munmap(p, k);
    maps.clear();
  }
};
} // namespace

void run_c19() {
  gen_identity("C19");
  int no = 1 + choose(W, 5), nt = choose(W, 3), steps = 4 + choose(W, 14);
  OpGen og;
  std::vector<Op> ops;
  bool loads = flip(W, 2);
  if (loads) og.only = {Op::PARSE_FILE, Op::PARSE_FILE, Op::PARSE};
  for (int i = 0; i < no; i++) {
    ops.push_back(gen_op(og));
    ops[i].file = "s" + std::to_string(i);
    if (ops[i].kind == Op::PARSE_FILE && ops[i].sub != 1) disk_write(ops[i].file.c_str(), ops[i].text);
  }
  for (int i = 0; i < 3; i++) disk_write(("own" + std::to_string(i)).c_str(), std::string(40, 'a' + i));
  if (flip(F, 2)) heap_policy(draw_heap_policy());
  if (env_locale_available() && flip(F, 3)) env_locale(true);
  if (flip(F, 3)) env_chdir(true);         // the files are in another directory
  uint64_t wh = nt;
  for (auto& o : ops) { log("op %s", o.describe().c_str()); wh = wh * 31 + hash_text(o.describe()); }
  work_hash(wh);

  std::cout.flush();
  fflush(stdout);
  fflush(stderr);
  int said = memfd_create("said", MFD_CLOEXEC), out0 = dup(1), err0 = dup(2);
  dup2(said, 1);
  dup2(said, 2);

  std::vector<std::unique_ptr<Inst>> in;
  for (auto& o : ops) { in.push_back(std::make_unique<Inst>(o)); in.back()->prepare(); }
  // what may differ: thread 1..nt each use their own objects
  std::map<std::string, std::string> disk0 = disk_now();
  std::string env0 = env_signature();
  auto one = [&](int i, bool alone, Around* around) {
    CallOpts co;
    IoPlan pl;
    if (flip(F, 3)) { co.oom_at = choose(F, 60); co.oom_persist = choose(F, 3) == 1; }
    if (ops[i].kind == Op::PARSE_FILE && flip(F, 2)) {
      pl.n = 1;
      pl.persist = flip(F, 4);
      pl.ev[0] = choose(F, 9);
      static const int errs[] = {EIO, ENOMEM, EMFILE, EACCES, ENFILE};
      pl.what[0] = choose(F, 3) == 0 ? IO_EINTR : choose(F, 4) ? IO_FAIL : IO_SHORT;
      pl.err[0] = pl.what[0] == IO_EINTR ? EINTR : errs[choose(F, 5)];
    }
    io_arm(pl);
    in[i]->call(co);
    bool fault = io_fired() || call_faulted();
    io_disarm();
    if (fault) stat("calls that met a fault");
    log("op %d -> %.200s", i, in[i]->result.c_str());
    std::string who = (in[i]->threw ? "after a failed call, " : "after a call, ") + ops[i].describe();
    if (alone) {
      std::string env1 = env_signature();
      if (env1 != env0) violation("process-changed", "%.300s: the process was %s and is %s", who.c_str(), env0.c_str(), env1.c_str());
      same_disk(disk0, disk_now(), who.c_str());
      around->check(who.c_str());
      if (open_fds() > 0) violation("descriptor-kept", "%.300s: a descriptor is still open", who.c_str());
    }
    stat("calls observed");
  };
  if (nt == 0) {
    Around around;
    for (int s = 0; s < steps; s++) {
      switch (choose(W, 5)) {
        case 0: around.acquire(); break;
        case 1: around.release(); break;
        case 2: around.map(); break;
        default: break;
      }
      int i = s < no ? s : choose(W, no);
      if (in[i]->op->kind == Op::PUSH) { in[i] = std::make_unique<Inst>(ops[i]); in[i]->prepare(); }
      one(i, true, &around);
    }
    around.end();
  } else {
    // The program around goes on in other threads while calls are under way.
    sched_setup();
    std::vector<std::vector<int>> todo(nt + 1);
    for (int i = 0; i < no; i++) for (int k = 0; k < 1 + (int)choose(W, 2); k++) todo[i % (nt + 1)].push_back(i);
    std::vector<int> acts;
    for (int s = 0; s < steps; s++) acts.push_back(choose(W, 6));
    for (int t = 0; t <= nt; t++)
      spawn([&, t] { for (int i : todo[t]) if (!(ops[i].kind == Op::PUSH && in[i]->threw)) one(i, false, nullptr); });
    mode_t um = umask(022), um0 = um;
    umask(um);
    spawn([&] {
      Around around;
      std::string env = env0;
      const char* who = "while other threads were inside calls";
      for (int a : acts) {
        pause_point();
        switch (a) {
          case 0: case 1: around.acquire(); break;
          case 2: around.release(); break;
          case 3: umask(um ^= 027); env = env_signature(); break;
          case 4: around.map(); break;
          default: break;
        }
        for (int k = 0; k < 3; k++) {
          pause_point();
          std::string now = env_signature();
          if (now != env) violation("process-changed", "%s, the process was %s and is %s", who, env.c_str(), now.c_str());
          around.check(who);
        }
        if (flip(W, 3)) same_disk(disk0, disk_now(), who);
        stat("looks at the process while calls are under way");
      }
      around.end();
    });
    join_all();
    umask(um0);
    same_disk(disk0, disk_now(), "after concurrent calls");
  }
  fflush(stdout);
  fflush(stderr);
  std::cout.flush();
  std::cerr.flush();
  off_t n = lseek(said, 0, SEEK_END);
  dup2(out0, 1);
  dup2(err0, 2);
  if (n > 0) {
    char b[200] = {};
    if (pread(said, b, sizeof b - 1, 0) < 0) b[0] = 0;
    violation("output", "calls wrote to the standard output or error of the program: %s", b);
  }
  env_locale(false);
  env_chdir(false);
}
} // namespace w
