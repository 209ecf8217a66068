// Collectives finish under any message timing and stay in their communicator.
#include "mpih.hpp"
#include <ftw.h>
#include <sys/stat.h>

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
struct Cm { MPI_Comm c; std::vector<int> ranks, crank; int n; };
enum Op { BCAST, RING, EXCH, EXL, EXR, GATHER, SCATTER, PAIR, NOPS };
static const char* oname[] = {"bcast", "ring sendrecv", "exchange", "exchange left", "exchange right", "write_gather", "read_scatter", "send/recv chain"};
struct Step { Op op; int cm; int arg; uint64_t seed; int file; };

// what rank r contributes in a step
static TP payload(const Step& st, int r) {
  Rng g(st.seed * 1000003 + r);
  TP t(new T);
  size_t n = g.below(5);
  for (size_t i = 0; i < n; i++) {
    T* sub = t->sub(fmt("k%u", (unsigned)g.below(4)));
    sub->sub(std::string(1 + g.below(g.below(4) ? 20 : 400), (char)('a' + g.below(26))));
  }
  if (g.below(20) == 0) t->sub(std::string(50000 + g.below(g.below(3) ? 50000 : 600000), 'B'));  // beyond what is sent eagerly
  t->sub("rank")->sub(str_of_int(r));
  return t;
}
static void mix(Src& s, Ctx& x, int maxn, size_t maxsteps) {
  int n = gen_ranks(s, maxn);
  mpi::begin(s, n);
  std::vector<Cm> cms;
  Cm w;
  w.c = MPI_COMM_WORLD; w.n = n;
  for (int i = 0; i < n; i++) w.ranks.push_back(i);
  cms.push_back(w);
  size_t nc = n >= 2 ? s.draw(3) : 0;
  x.note("%d ranks", n);
  for (size_t i = 0; i < nc; i++) {
    Cm c;
    Rng r(s.seed32());
    std::vector<int> p = w.ranks;
    for (size_t k = p.size(); k > 1; k--) std::swap(p[k - 1], p[r.below(k)]);
    if (i && s.chance(1, 2)) {  // the complement of an earlier one: both run at once
      std::vector<int> q;
      for (int v : p) if (std::find(cms.back().ranks.begin(), cms.back().ranks.end(), v) == cms.back().ranks.end()) q.push_back(v);
      p = q;
      if (p.empty()) continue;
      x.label("disjoint communicators");
    } else p.resize(1 + s.draw(n - 1));
    c.ranks = p; c.n = (int)p.size(); c.c = mpi::make_comm(p);
    std::string d;
    for (int v : p) d += fmt(" %d", v);
    x.note("communicator %zu: world ranks%s", cms.size(), d.c_str());
    cms.push_back(c);
  }
  for (auto& c : cms) { c.crank.assign(n, -1); for (int i = 0; i < c.n; i++) c.crank[c.ranks[i]] = i; }
  static const std::vector<unsigned long> segs = {256, 400, 1000, 4096, 0};
  unsigned long seg = s.pick(segs);
  set_segsize(seg);
  std::string dir = scratch() + "/m4";
  mkdir(dir.c_str(), 0700);
  struct Clean { std::string d; ~Clean() { nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); } } clean{dir};
  std::vector<Step> steps;
  size_t ns = 1 + s.draw(maxsteps - 1);
  for (size_t i = 0; i < ns; i++) {
    Step st;
    st.cm = (int)s.draw(cms.size() - 1);
    st.op = (Op)s.draw(NOPS - 1);
    st.arg = (int)s.draw(cms[st.cm].n - 1);
    st.seed = s.seed32();
    st.file = (int)i;
    if (st.op == SCATTER) {  // needs an earlier gather on the same communicator
      st.file = -1;
      for (size_t k = 0; k < i; k++) if (steps[k].op == GATHER && steps[k].cm == st.cm) st.file = (int)k;
      if (st.file < 0) { st.op = GATHER; st.file = (int)i; }
    }
    x.note("step %zu: %s on communicator %d (arg %d, seed %llu)", i, oname[st.op], st.cm, st.arg, (unsigned long long)st.seed);
    steps.push_back(st);
  }
  bool noise = s.chance(1, 2);
  run_ranks([&](int wr) {
    for (size_t i = 0; i < steps.size(); i++) {
      const Step& st = steps[i];
      const Cm& c = cms[st.cm];
      int me = c.crank[wr];
      if (me < 0) continue;
      if (noise) mpi::breathe();
      TP mine = payload(st, me);
      H h(build(mine.get())), g(K->kvtree_new());
      int rc = KVTREE_SUCCESS;
      T want;
      switch (st.op) {
        case BCAST:
          if (me == st.arg) { rc = K->kvtree_bcast(h, st.arg, c.c); merge(&want, mine.get()); require_equal(h, &want, "root's tree"); }
          else { rc = K->kvtree_bcast(g, st.arg, c.c); require_equal(g, payload(st, st.arg).get(), "broadcast tree"); }
          break;
        case RING: {
          int k = st.arg;
          rc = K->kvtree_sendrecv(h, (me + k) % c.n, g, (me - k + c.n) % c.n, c.c);
          require_equal(g, payload(st, (me - k + c.n) % c.n).get(), "exchanged tree");
          break;
        }
        case PAIR:  // along a chain
          if (me > 0) { rc = K->kvtree_recv(g, me - 1, c.c); require_equal(g, payload(st, me - 1).get(), "received tree"); }
          if (rc == KVTREE_SUCCESS && me + 1 < c.n) rc = K->kvtree_send(h, me + 1, c.c);
          break;
        case EXCH: case EXL: case EXR: {
          H q(K->kvtree_new());
          Rng r(st.seed);
          std::vector<std::pair<int, int>> pairs;
          size_t np = r.below(3 * c.n);
          for (size_t k = 0; k < np; k++) pairs.push_back({(int)r.below(c.n), (int)r.below(c.n)});
          for (auto& p : pairs) if (p.first == me) K->kvtree_exchange_sendq(q, p.second, h);
          rc = st.op == EXCH ? K->kvtree_exchange(q, g, c.c) : K->kvtree_exchange_direction(q, g, c.c, st.op == EXL ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
          for (auto& p : pairs) if (p.second == me && !want.has(str_of_int(p.first))) want.put(str_of_int(p.first), payload(st, p.first).release());
          require_equal(g, &want, "exchanged trees");
          break;
        }
        case GATHER:
          rc = K->kvtree_write_gather((dir + fmt("/f%d", st.file)).c_str(), h, c.c);
          break;
        default:
          rc = K->kvtree_read_scatter((dir + fmt("/f%d", st.file)).c_str(), g, c.c);
          require_equal(g, payload(steps[st.file], me).get(), "tree read back");
          break;
      }
      REQUIRE(rc == KVTREE_SUCCESS, "%s (step %zu) returns %d on rank %d", oname[st.op], i, rc, me);
    }
  });
  label_mpi(x);
  if (cms.size() > 1) x.label("several communicators");
  x.label("messages", mpi::stats().msgs);
  x.label("context switches", mpi::stats().switches);
  if (n >= 2 && ns >= 2) x.nontrivial();
}
static void small(Src& s, Ctx& x) { mix(s, x, 6, 6); }
static void longer(Src& s, Ctx& x) { mix(s, x, 12, 16); }
static void many(Src& s, Ctx& x) { mix(s, x, 40, 4); }

Prop pbt::prop = {
  "M04", "exploration",
  "case = program of collective operations over several communicators run under a generated schedule (who runs, when messages are delivered, which sends wait for "
  "their receiver, whether collectives synchronise); the shim checks legal use, buffers, leftovers and deadlock, results are compared with models; "
  "non-trivial: at least 2 ranks and 2 operations",
  {{"small", small, 12000, 150000}, {"longer", longer, 2000, 25000}, {"many", many, 480, 6250}},
  {"MPI as modelled by the in-process shim"},
};
