// Trees stream through any descriptor, however the transfer is chopped.
#include <cerrno>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ops.hpp"
#include "sys.hpp"

// cuts transfers and makes them fail temporarily
struct Chop : sys::Hook {
  Rng r;
  unsigned pcut, pfail, maxstreak, streak = 0, maxlen;
  uint64_t cuts = 0, fails = 0, longest = 0;
  Chop(Src& s) : r(s.seed32()), pcut((unsigned)s.draw(100)), pfail((unsigned)s.draw(70)), maxstreak(1 + (unsigned)s.draw(s.chance(1, 10) ? 5000 : 30)), maxlen(1 + (unsigned)s.draw(s.chance(1, 2) ? 8 : 3000)) {}
  sys::Act before(const sys::Call& c) override {
    if (c.op != sys::READ && c.op != sys::WRITE) return sys::Act::pass();
    if (streak == 0 && fails < 50000 && r.below(100) < pfail) {  // a run of failures, short or as long as they get
      streak = r.below(3) ? 1 + (unsigned)r.below(std::min(maxstreak, 4u)) : 1 + (unsigned)r.below(maxstreak);
      longest = std::max<uint64_t>(longest, streak);
      streak++;
    }
    if (streak > 1) { streak--; fails++; return sys::Act::fail(r.below(2) ? EINTR : EAGAIN); }
    streak = 0;
    if (c.size > 1 && r.below(100) < pcut) {
      static const size_t edge[] = {1, 4, 16, 19, 20, 21, 24, 255, 256, 511, 512, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 131071, 1048575, 1048576};
      // progress is at least a fraction of large transfers, to keep the number of calls down
      size_t n = r.below(6) == 0 ? (r.below(4) ? edge[r.below(sizeof edge / sizeof *edge)] : c.size - 1)
               : c.size > 20000 && !r.below(2) ? c.size / (1 + r.below(9)) : 1 + r.below(std::max<size_t>(maxlen, c.size / 400));
      if (n < c.size) { cuts++; return sys::Act::limit(n); }
    }
    return sys::Act::pass();
  }
};
struct Stream {
  std::vector<TP> t;
  std::vector<kvtree*> h;
  std::vector<std::string> bytes;
  ~Stream() { for (auto p : h) K->kvtree_delete(&p); }
  void gen(Src& s, Ctx& x, size_t maxtrees) {
    size_t n = 1 + s.draw(maxtrees - 1);
    TreeCfg c;
    c.maxnodes = 25;
    c.big = 3000000; c.bigdeep = 30000; c.bigwide = 10000; c.bigrate = 400; c.longrate = 25;
    for (size_t i = 0; i < n; i++) {
      if (s.chance(1, 40)) c.maxwide = 3000; else c.maxwide = 0;
      t.push_back(gen_tree(s, c));
      Rng o(s.seed32());
      h.push_back(build(t[i].get(), &o));
      bytes.push_back(encode_real_file(h[i]));
      x.note("tree %zu: %s, %zu bytes", i, show(t[i].get(), 60).c_str(), bytes[i].size());
    }
  }
};
static void write_all(const Stream& st, int fd) {
  for (size_t i = 0; i < st.h.size(); i++) {
    ssize_t r = K->kvtree_write_fd("stream", fd, st.h[i]);
    REQUIRE(r == (ssize_t)st.bytes[i].size(), "write_fd of tree %zu returns %zd for %zu bytes", i, r, st.bytes[i].size());
  }
}
static void read_all(const Stream& st, int fd, bool seekable, bool past_end) {
  off_t pos = 0;
  for (size_t i = 0; i < st.t.size(); i++) {
    H d(K->kvtree_new());
    ssize_t r = K->kvtree_read_fd("stream", fd, d);
    REQUIRE(r == (ssize_t)st.bytes[i].size(), "read_fd of tree %zu returns %zd for %zu bytes", i, r, st.bytes[i].size());
    require_equal(d, st.t[i].get(), fmt("tree %zu of the stream", i).c_str());
    pos += r;
    if (seekable) { off_t at = lseek(fd, 0, SEEK_CUR); REQUIRE(at == pos, "after tree %zu the file is at %ld, not %ld", i, (long)at, (long)pos); }
  }
  if (past_end) {
    H d(K->kvtree_new());
    ssize_t r = K->kvtree_read_fd("stream", fd, d);
    REQUIRE(r == 0 && K->kvtree_size(d) == 0, "at the end of the stream read_fd returns %zd", r);
  }
}
static void file(Src& s, Ctx& x) {
  Stream st;
  st.gen(s, x, 6);
  std::string p = scratch() + "/f";
  int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  Chop w(s), r(s);
  bool chopw = !s.chance(1, 6), chopr = !s.chance(1, 6);
  struct C { int fd; ~C() { close(fd); } } c{fd};
  {
    sys::With with(chopw ? &w : nullptr);
    write_all(st, fd);
  }
  std::string all, got = slurp(p);
  for (auto& b : st.bytes) all += b;
  REQUIRE(got == all, "%zu bytes arrived, %zu written%s", got.size(), all.size(), got.size() == all.size() ? ", order or content differs" : "");
  lseek(fd, 0, SEEK_SET);
  {
    sys::With with(chopr ? &r : nullptr);
    read_all(st, fd, true, true);
  }
  if (w.cuts) x.label("short writes");
  if (r.cuts) x.label("short reads");
  if (w.fails) x.label("EINTR/EAGAIN on write");
  if (r.fails) x.label("EINTR/EAGAIN on read");
  if (std::max(w.longest, r.longest) > 100) x.label("more than 100 failures in a row");
  if (w.cuts + w.fails && r.cuts + r.fails) x.nontrivial();
}
// two processes
static void pipes(Src& s, Ctx& x) {
  Stream st;
  st.gen(s, x, 8);
  int fd[2];
  int kind = (int)s.draw(2);
  if (kind == 0) { if (pipe(fd)) throw Discard(); }
  else { if (socketpair(AF_UNIX, kind == 1 ? SOCK_STREAM : SOCK_STREAM, 0, fd)) throw Discard(); std::swap(fd[0], fd[1]); }
  if (kind == 2) { int sz = 4096; setsockopt(fd[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
  if (kind == 0 && s.chance(1, 2)) fcntl(fd[1], F_SETPIPE_SZ, 4096);
  bool nbw = s.chance(1, 3), nbr = s.chance(1, 3);
  if (nbw) fcntl(fd[1], F_SETFL, O_NONBLOCK);
  if (nbr) fcntl(fd[0], F_SETFL, O_NONBLOCK);
  Chop w(s), r(s);
  bool chopw = s.chance(1, 2), chopr = s.chance(1, 2);
  x.note("%s%s%s", kind == 0 ? "pipe" : "socket", nbw ? ", nonblocking writer" : "", nbr ? ", nonblocking reader" : "");
  x.label(kind == 0 ? "pipe" : "socket");
  if (nbw || nbr) x.label("nonblocking descriptor");
  size_t total = 0;
  for (auto& b : st.bytes) total += b.size();
  if (total > 65536) x.label("more than a pipe holds");
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    sys::With with(chopw ? &w : nullptr);
    int rc = 0;
    try { write_all(st, fd[1]); } catch (Failure&) { rc = 3; }
    _exit(rc);
  }
  close(fd[1]);
  struct C { int fd; pid_t p; int st = 0; void end() { if (fd >= 0) { close(fd); fd = -1; waitpid(p, &st, 0); } } ~C() { end(); } } c{fd[0], pid};
  {
    sys::With with(chopr ? &r : nullptr);
    read_all(st, fd[0], false, true);
  }
  c.end();
  REQUIRE(WIFEXITED(c.st) && WEXITSTATUS(c.st) == 0, "the writer failed (status 0x%x)", c.st);
  x.nontrivial();
}

Prop pbt::prop = {
  "S06", "fault_enumeration",
  "case = 1-8 trees written one after another and read back; in one process on a file with random short transfers and runs of EINTR and EAGAIN injected on both "
  "sides, or between two processes over a pipe or socket with small buffers, blocking or not, with or without injection; bytes, return values, positions and "
  "trees compared; non-trivial: both sides disturbed, any two-process case",
  {{"file", file, 24000, 480000}, {"pipes", pipes, 3750, 60000}},
  {"every descriptor makes progress eventually (runs of temporary failures are at most 5000 long)"},
};
