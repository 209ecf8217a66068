// Locked reads are atomic, locked updates are never lost.
#include <map>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include "fault.hpp"

// A few real processes that run scripts of locked calls. Every system call of the library is a
// point where the controlling process decides who goes on.
enum Kind { READ, WRITE, RMW };
static const char* const kind_name[] = {"read", "write", "update"};
static const int MAXP = 4, MAXOPS = 4;
struct Step {
  int kind;
  uint32_t off, len;     // WRITE: packed tree; RMW: the key to add
  // results
  int rc, rc2, fd;
  uint32_t roff, rlen;   // packed tree that was read
  int begin, end;        // logical times
};
struct Proc {
  sem_t go;
  int n;
  Step step[MAXOPS];
  // what the process is about to do
  int op;                // sys::Op, or -1: between calls, -2: script done
  int cur;
  int blocked;
  size_t size;
  uint32_t limit;        // bytes this transfer may move, 0: all
  uint32_t used;         // bytes of out
  char out[1 << 20];
};
struct Shared {
  sem_t back;
  int variant;
  char path[512];
  char in[1 << 20];
  Proc p[MAXP];
};
static const char* const variants[] = {"flock", "fcntl"};

struct Baton : sys::Hook {
  Shared* sh;
  Proc* me;
  void yield(int op, int blocked, size_t size) {
    me->op = op;
    me->blocked = blocked;
    me->size = size;
    sem_post(&sh->back);
    while (sem_wait(&me->go) != 0) {}
  }
  sys::Act before(const sys::Call& c) override {
    yield(c.op, 0, c.size);
    return me->limit && (c.op == sys::READ || c.op == sys::WRITE) ? sys::Act::limit(me->limit) : sys::Act::pass();
  }
  bool would_block(const sys::Call& c) override { yield(c.op, 1, 0); return true; }
};
static void child(Shared* sh, int id) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Proc* me = &sh->p[id];
  Baton b;
  b.sh = sh;
  b.me = me;
  for (;;) {
    while (sem_wait(&me->go) != 0) {}
    UseLib u(kv_load(variants[sh->variant]));
    me->used = 0;
    for (int i = 0; i < me->n; i++) {
      Step& st = me->step[i];
      me->cur = i;
      b.yield(-1, 0, 0);
      TP t(new T);
      if (st.kind == WRITE) decode_body(sh->in + st.off, st.len, t.get());
      H h(st.kind == WRITE ? build(t.get()) : K->kvtree_new());
      sys::hook = &b;
      if (st.kind == READ) st.rc = K->kvtree_read_with_lock(sh->path, h);
      else if (st.kind == WRITE) st.rc = K->kvtree_write_with_lock(sh->path, h);
      else st.rc = K->kvtree_lock_open_read(sh->path, &st.fd, h);
      sys::hook = nullptr;
      if (st.kind != WRITE) {
        std::string o;
        encode_real(h, o);
        if (me->used + o.size() > sizeof me->out) o.clear();
        st.roff = me->used;
        st.rlen = o.size();
        memcpy(me->out + me->used, o.data(), o.size());
        me->used += o.size();
      }
      if (st.kind == RMW && st.rc == KVTREE_SUCCESS) {
        K->kvtree_set(h, std::string(sh->in + st.off, st.len).c_str(), K->kvtree_new());
        sys::hook = &b;
        b.yield(-1, 0, 0);
        st.rc2 = K->kvtree_write_close_unlock(sh->path, &st.fd, h);
        sys::hook = nullptr;
      }
      // descriptors that a call leaves open keep flock locks; the caller has none
      if (st.fd >= 0 && st.kind == RMW) close(st.fd);
    }
    me->op = -2;
    sem_post(&sh->back);
  }
}
struct Pool {
  Shared* sh = nullptr;
  pid_t pid[MAXP] = {}, owner = 0;
  void start() {
    if (sh && owner == getpid()) return;
    owner = getpid();
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sem_init(&sh->back, 1, 0);
    kv_load("flock");
    kv_load("fcntl");
    for (int i = 0; i < MAXP; i++) sem_init(&sh->p[i].go, 1, 0);
    for (int i = 0; i < MAXP; i++) if ((pid[i] = fork()) == 0) { child(sh, i); _exit(0); }
  }
  void stop() {
    for (int i = 0; i < MAXP; i++) { kill(pid[i], SIGKILL); waitpid(pid[i], nullptr, 0); }
    munmap(sh, sizeof(Shared));
    sh = nullptr;
  }
  // let one process run to its next point
  void resume(int i) {
    sem_post(&sh->p[i].go);
    for (int tries = 0;; tries++) {
      struct timespec t;
      clock_gettime(CLOCK_REALTIME, &t);
      t.tv_sec += 1;
      if (sem_timedwait(&sh->back, &t) == 0) return;
      if (errno != ETIMEDOUT) continue;
      int st;
      if (waitpid(pid[i], &st, WNOHANG) == pid[i]) { FAILK("crash", "process %d ends with status %x", i, st); }
      if (tries > 40) FAILK("hang", "process %d hangs", i);
    }
  }
};
static Pool pool;

// ---- linearizability of a register with atomic updates
struct Ev {
  int kind, begin, end, reads, writes;  // values: index of the version read / written, -1 none
};
static bool linearize(const std::vector<Ev>& ev, int initial) {
  size_t n = ev.size();
  std::set<std::pair<uint32_t, int>> seen;
  std::vector<std::pair<uint32_t, int>> todo{{0u, initial}};
  while (!todo.empty()) {
    auto [done, val] = todo.back();
    todo.pop_back();
    if (done == (1u << n) - 1) return true;
    if (!seen.insert({done, val}).second) continue;
    int first_end = 1 << 30;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) first_end = std::min(first_end, ev[i].end);
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1 || ev[i].begin > first_end) continue;
      if (ev[i].reads >= 0 && ev[i].reads != val) continue;
      todo.push_back({done | 1u << i, ev[i].writes >= 0 ? ev[i].writes : val});
    }
  }
  return false;
}

static size_t long_len(Src& s) { return 1000 + s.draw(s.chance(1, 6) ? 150000 : 15000); }
static void interleave(Src& s, Ctx& x) {
  pool.start();
  struct Guard { bool ok = false; ~Guard() { if (!ok) pool.stop(); } } guard;
  Shared* sh = pool.sh;
  sh->variant = (int)s.draw(1);
  std::string path = scratch() + "/f";
  unlink(path.c_str());
  snprintf(sh->path, sizeof sh->path, "%s", path.c_str());
  TreeCfg c;
  c.maxnodes = 10;
  c.key.maxlen = 200; c.longrate = 25;
  // distinct versions: index 0 is the initial content
  std::vector<TP> ver;
  ver.push_back(TP(new T));
  if (s.chance(1, 2)) {
    if (s.chance(4, 5)) {
      ver[0] = gen_tree(s, c);
      ver[0]->sub("initial");
      if (s.chance(1, 4)) ver[0]->sub("long")->sub(std::string(long_len(s), 'i'));
      if (s.chance(1, 3)) for (int i = 0; i < 40; i++) ver[0]->sub("initial")->sub(fmt("padding %d", i));
      spew(path, encode_file(ver[0].get()));
    } else spew(path, "");
  }
  int np = 2 + (int)s.draw(MAXP - 2);
  uint32_t in = 0;
  bool writer = false;
  for (int i = 0; i < np; i++) {
    Proc& p = sh->p[i];
    p.n = 1 + (int)s.draw(MAXOPS - 2);
    for (int j = 0; j < p.n; j++) {
      Step& st = p.step[j];
      memset(&st, 0, sizeof st);
      st.fd = -1;
      st.kind = (int)s.weighted({4, 4, 5});
      if (st.kind != READ) writer = true;
      if (st.kind == READ) continue;
      std::string blob;
      if (st.kind == WRITE) {
        TP t = s.chance(1, 6) ? TP(new T) : gen_tree(s, c);
        t->sub(fmt("written by %d/%d", i, j));
        if (s.chance(1, 6)) t->sub("long")->sub(std::string(long_len(s), (char)('a' + i * MAXOPS + j)));
        if (s.chance(1, 3)) for (int k = 0; k < 40; k++) t->sub("fill")->sub(fmt("%d.%d.%d", i, j, k));
        encode_body(t.get(), blob);
      } else blob = fmt("update %d/%d", i, j);
      if (in + blob.size() > sizeof sh->in) throw Discard();
      memcpy(sh->in + in, blob.data(), blob.size());
      st.off = in;
      st.len = blob.size();
      in += blob.size();
    }
  }
  // run: schedule is drawn here
  int style = (int)s.weighted({3, 4, 2});
  bool pieces = s.chance(1, 3);
  int clock = 0, cur = -1;
  uint64_t waits = 0;
  std::vector<char> alive(np, 1), stuck(np, 0);
  std::vector<int> prio(np);
  for (int i = 0; i < np; i++) prio[i] = (int)s.draw(1000);
  std::string sched;
  for (int i = 0; i < np; i++) { sh->p[i].limit = 0; sh->p[i].cur = 0; pool.resume(i); }
  std::vector<int> started(np, -1);
  for (int steps = 0;; steps++) {
    REQUIRE(steps < 4000, "no end after %d system calls", steps);
    std::vector<int> can;
    int left = 0;
    for (int i = 0; i < np; i++) if (alive[i]) { left++; if (!stuck[i]) can.push_back(i); }
    if (!left) break;
    REQUIRE(!can.empty(), "%d processes wait for a lock that nobody will release; schedule%s", left, sched.c_str());
    int i;
    if (style == 1 && cur >= 0 && alive[cur] && !stuck[cur] && !s.chance(1, 5)) i = cur;
    else if (style == 2) {
      i = can[0];
      for (int k : can) if (prio[k] > prio[i]) i = k;
      if (s.chance(1, 12)) prio[i] = -(int)steps;
    } else i = s.pick(can);
    cur = i;
    Proc& p = sh->p[i];
    int op = p.op, at = p.cur;
    clock++;
    if (op == -1 && started[i] < at) { started[i] = at; p.step[at].begin = clock; }
    p.limit = pieces && (op == sys::READ || op == sys::WRITE) && p.size > 1 && s.chance(1, 3) ? 1 + (uint32_t)s.draw(p.size - 2) : 0;
    if (sched.size() < 3000) sched += fmt(" %d:%s", i, op < 0 ? kind_name[p.step[at].kind] : p.blocked ? "retry" : sys::op_name[op]);
    pool.resume(i);
    clock++;
    if (p.cur != at || p.op == -2) p.step[at].end = clock;
    if (p.op == -2) alive[i] = 0;
    if (p.op != -2 && p.blocked) { stuck[i] = 1; waits++; }
    // whatever another process does may release a lock
    bool release = op == sys::UNLOCK || op == sys::CLOSE || op == sys::LOCK || p.op == -2 || p.op == -1;
    if (release) for (int k = 0; k < np; k++) if (k != i) stuck[k] = 0;
  }
  guard.ok = true;
  for (int i = 0; i < np; i++)
    for (int j = 0; j < sh->p[i].n; j++) {
      Step& st = sh->p[i].step[j];
      REQUIRE(st.rc == KVTREE_SUCCESS, "process %d: locked %s fails; schedule%s", i, kind_name[st.kind], sched.c_str());
      if (st.kind == RMW) REQUIRE(st.rc2 == KVTREE_SUCCESS && st.fd == -1, "process %d: second half of a locked update fails; schedule%s", i, sched.c_str());
    }
  // versions: what each write wrote; updates write what they read plus a key, so resolve them by content
  auto pack = [](const T* t) { std::string o; encode_body(t, o); return o; };
  std::map<std::string, int> index;
  index[pack(ver[0].get())] = 0;
  std::vector<Ev> ev;
  std::vector<std::string> desc;
  std::vector<std::pair<int, int>> who;
  for (int i = 0; i < np; i++)
    for (int j = 0; j < sh->p[i].n; j++) {
      Step& st = sh->p[i].step[j];
      Ev e{st.kind, st.begin, st.end, -1, -1};
      T in_t, out_t;
      if (st.kind == WRITE) {
        decode_body(sh->in + st.off, st.len, &out_t);
        int k = (int)index.size();
        e.writes = index.emplace(pack(&out_t), k).first->second;
      }
      if (st.kind == RMW) {
        if (st.rlen) decode_body(sh->p[i].out + st.roff, st.rlen, &in_t);
        TP o = clone(&in_t);
        o->put(std::string(sh->in + st.off, st.len), new T);
        int k = (int)index.size();
        e.writes = index.emplace(pack(o.get()), k).first->second;
      }
      ev.push_back(e);
      who.push_back({i, j});
    }
  std::string hist;
  for (size_t q = 0; q < ev.size(); q++) {
    Step& st = sh->p[who[q].first].step[who[q].second];
    if (st.kind != WRITE) {
      T t;
      if (st.rlen) decode_body(sh->p[who[q].first].out + st.roff, st.rlen, &t);
      auto f = index.find(pack(&t));
      REQUIRE(f != index.end(), "process %d reads a tree that nobody wrote: %s; schedule%s", who[q].first, show(&t).c_str(), sched.c_str());
      ev[q].reads = f->second;
    }
    hist += fmt(" %d:%s[%d-%d]%s%s", who[q].first, kind_name[ev[q].kind], ev[q].begin, ev[q].end, ev[q].reads >= 0 ? fmt(" reads v%d", ev[q].reads).c_str() : "", ev[q].writes >= 0 ? fmt(" writes v%d", ev[q].writes).c_str() : "");
  }
  // a last reader
  {
    UseLib u(kv_load(variants[sh->variant]));
    NoBlock nb;
    sys::With with(&nb);
    H d(K->kvtree_new());
    REQUIRE(K->kvtree_read_with_lock(path.c_str(), d) == KVTREE_SUCCESS, "the final read fails; schedule%s", sched.c_str());
    TP t = from_real(d);
    auto f = index.find(pack(t.get()));
    REQUIRE(f != index.end(), "the final tree was never written: %s; schedule%s", show(t.get()).c_str(), sched.c_str());
    ev.push_back(Ev{READ, clock + 1, clock + 2, f->second, -1});
    hist += fmt(" final read v%d", f->second);
  }
  x.note("%s, %d processes:%s; schedule%s", variants[sh->variant], np, hist.c_str(), sched.c_str());
  REQUIRE(linearize(ev, 0), "no order of the calls explains what they read:%s; schedule%s", hist.c_str(), sched.c_str());
  unlink(path.c_str());
  x.label(variants[sh->variant]);
  if (waits) x.label("a lock was waited for");
  if (pieces) x.label("partial transfers");
  if (waits && writer) x.nontrivial();
}

Prop pbt::prop = {
  "F03", "exploration",
  "case = two to four real processes, each running up to three locked reads, writes or read-modify-write cycles on one file (flock and fcntl builds), under a "
  "generated schedule that decides at every system call which process goes on (uniform, bursts, priorities) and how much a read or write transfers; oracle: every "
  "call succeeds, nobody waits for ever, and some sequential order consistent with real time explains all trees read (final content included); non-trivial: a "
  "process had to wait for a lock and something was written",
  {{"interleave", interleave, 96000, 960000}},
  {"interleavings are explored at the granularity of system calls"},
};
