// System-call failures injected into library calls.
#pragma once
#include <cerrno>
#include <map>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ops.hpp"
#include "sys.hpp"

struct Inject : sys::Hook {
  sys::Op op = sys::NOPS;     // NOPS: nothing
  enum Kind { ERR, ZERO, SHORT, FULL, MIX } kind = ERR;
  int nth = 0;                // index of the first affected call of this kind
  int times = 1;              // number of affected calls; -1 for ever
  int err = EIO;
  size_t room = 0;            // FULL: bytes that can still be written
  size_t piece = 1;           // SHORT, MIX
  uint32_t seed = 0;          // MIX: short transfers, errors and undisturbed calls in any order
  std::string only;           // not empty: only calls on this file count
  std::map<int, bool> ours;   // descriptors of that file
  // what happened
  int seen[sys::NOPS] = {};
  int fired = 0;
  bool lock_failed = false;
  bool touched_after_lock_failure = false;
  sys::Act before(const sys::Call& c) override {
    if (!only.empty() && !(c.path && c.op == sys::OPEN ? only == c.path : ours.count(c.fd))) return sys::Act::pass();
    int i = seen[c.op]++;
    if (lock_failed && (c.op == sys::READ || c.op == sys::WRITE || c.op == sys::TRUNC)) touched_after_lock_failure = true;
    if (c.op != op) return sys::Act::pass();
    if (kind == FULL) {
      if (c.size <= room) { room -= c.size; return sys::Act::pass(); }
      fired++;
      if (room == 0) return sys::Act::fail(err);
      size_t n = room;
      room = 0;
      return sys::Act::limit(n);
    }
    if (i < nth || (times >= 0 && i >= nth + times)) return sys::Act::pass();
    fired++;
    if (kind == MIX) {
      Rng r(seed + 977 * i);
      static const int errs[] = {EIO, EINTR, EAGAIN, ENOSPC};
      switch (r.below(4)) {
        case 0: return sys::Act::fail(errs[r.below(c.op == sys::WRITE ? 4 : 3)]);
        case 1: fired--; return sys::Act::pass();
        default: return sys::Act::limit(1 + r.below(piece));
      }
    }
    if (kind == SHORT) return sys::Act::limit(piece);
    if (kind == ZERO) return sys::Act::ret(0);
    if (c.op == sys::CLOSE) ::close(c.fd);  // a failing close still releases the descriptor
    if (c.op == sys::LOCK) lock_failed = true;
    return sys::Act::fail(err);
  }
  bool would_block(const sys::Call&) override { FAILK("lock left behind", "a lock is still held by an earlier call, this one would wait for ever"); }
  void after(const sys::Call& c, long r, int) override {
    if (only.empty()) return;
    if (c.op == sys::OPEN && r >= 0 && c.path) { if (only == c.path) ours[(int)r] = true; else ours.erase((int)r); }
    if (c.op == sys::CLOSE) ours.erase(c.fd);
  }
  bool permanent() const { return kind == FULL ? fired > 1 : (kind == ERR && times < 0); }
};
// in a single process nobody else holds the lock: waiting for it is waiting for ever
struct NoBlock : sys::Hook {
  bool would_block(const sys::Call&) override { FAILK("lock left behind", "a lock is still held by an earlier call, this one would wait for ever"); }
};
inline const char* err_name(int e) {
  switch (e) {
    case EIO: return "EIO"; case ENOSPC: return "ENOSPC"; case EINTR: return "EINTR"; case EAGAIN: return "EAGAIN"; case EDQUOT: return "EDQUOT";
    case ENOLCK: return "ENOLCK"; case EACCES: return "EACCES"; case EMFILE: return "EMFILE"; case EINVAL: return "EINVAL"; case EBADF: return "EBADF"; case EDEADLK: return "EDEADLK"; case ENOENT: return "ENOENT";
  }
  return "?";
}
inline std::string describe(const Inject& j) {
  if (j.op == sys::NOPS) return "no fault";
  if (j.kind == Inject::FULL) return fmt("disk full (%s) after %zu bytes%s", err_name(j.err), j.room, j.only.empty() ? "" : (" of " + j.only.substr(j.only.rfind('/') + 1)).c_str());
  std::string at = j.only.empty() ? "" : " on " + j.only.substr(j.only.rfind('/') + 1);
  const char* k = j.kind == Inject::ZERO ? "returns 0" : j.kind == Inject::SHORT ? "transfers little" : j.kind == Inject::MIX ? "transfers little or fails" : "fails";
  return fmt("%s %d%s %s%s%s%s", sys::op_name[j.op], j.nth, at.c_str(), k, j.kind == Inject::ERR ? " with " : "", j.kind == Inject::ERR ? err_name(j.err) : "", j.times < 0 ? " for ever" : fmt(" (%d times)", j.times).c_str());
}
inline void gen_fault(Src& s, Inject& j, bool locked) {
  switch (s.weighted({2, 6, 2, 3, 3, 1, 1, 1})) {
    case 0: j.op = sys::OPEN; break;
    case 1: j.op = sys::WRITE; break;
    case 2: j.op = sys::CLOSE; break;
    case 3: j.op = locked ? sys::LOCK : sys::WRITE; break;
    case 4: j.op = sys::READ; break;
    case 5: j.op = locked ? sys::UNLOCK : sys::CLOSE; break;
    case 6: j.op = sys::SEEK; break;
    default: j.op = sys::TRUNC; break;
  }
  j.nth = (int)(s.chance(1, 2) ? 0 : s.draw(3));
  j.times = s.chance(3, 5) ? -1 : 1 + (int)s.draw(14);
  static const std::vector<int> errs[] = {
    {EACCES, EMFILE, EIO, EINTR, ENOENT}, {EIO, EINTR, EAGAIN}, {EIO, ENOSPC, EDQUOT, EINTR, EAGAIN}, {EIO, EINTR, ENOSPC}, {EIO}, {EIO, EINTR, EINVAL}, {EINVAL, EIO}, {EIO, EINTR, ENOLCK, EDEADLK, EAGAIN}, {EIO, ENOLCK}};
  j.err = s.pick(errs[j.op]);
  if (j.times < 0 && (j.err == EINTR || j.err == EAGAIN) && (j.op == sys::READ || j.op == sys::WRITE)) j.times = 1 + (int)s.draw(40);  // these are waited out
  if (j.op == sys::WRITE || j.op == sys::READ) {
    switch (s.weighted({4, (unsigned)(j.op == sys::WRITE ? 4 : 0), 1, 2, 2})) {
      case 1: j.kind = Inject::FULL; j.room = s.chance(1, 3) ? s.draw(40) : s.draw(2000); j.err = s.chance(1, 2) ? ENOSPC : EDQUOT; break;
      case 2: j.kind = Inject::ZERO; break;
      case 3: j.kind = Inject::SHORT; j.piece = 1 + s.draw(30); break;
      case 4: j.kind = Inject::MIX; j.times = 1 + (int)s.draw(40); j.piece = 1 + s.draw(s.chance(1, 2) ? 40 : 5000); j.seed = s.seed32(); break;
      default: break;
    }
  }
}
inline std::vector<int> open_fds() {
  std::vector<int> v;
  for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) v.push_back(i);
  return v;
}
inline std::string show_fds(const std::vector<int>& v) { std::string o; for (int i : v) o += fmt(" %d", i); return o; }
// can another open file description / process lock the file exclusively?
inline bool lockable(const std::string& p, bool in_other_process = false) {
  auto test = [&]() -> int {
    int fd = open(p.c_str(), O_RDWR);
    if (fd < 0) return 2;
    int r = flock(fd, LOCK_EX | LOCK_NB);
    struct flock l;
    memset(&l, 0, sizeof l);
    l.l_type = F_WRLCK;
    l.l_whence = SEEK_SET;
    int q = fcntl(fd, F_OFD_SETLK, &l);
    close(fd);
    return r == 0 && q == 0 ? 0 : 1;
  };
  if (!in_other_process) return test() == 0;
  pid_t c = fork();
  if (c == 0) _exit(test());
  int st = 0;
  waitpid(c, &st, 0);
  return st == 0;
}
