// Helpers for checks that run the collective calls on the in-process MPI.
#pragma once
#include <cstdlib>
#include <unistd.h>
#include "ops.hpp"
#include "../mpi/shim.hpp"

// every rank is a thread with its own copy of the library (own static data)
inline void run_ranks(const std::function<void(int)>& body) {
  mpi::run([&](int r) { UseLib u(kv_load("mpi", r + 1)); body(r); });
}
inline int gen_ranks(Src& s, int maxn) {
  static const std::vector<int> common = {1, 2, 3, 4, 5, 6, 7, 8, 9};
  switch (s.weighted({6, 3, 1})) {
    case 0: { int v = s.pick(common); return v > maxn ? maxn : v; }
    case 1: return (int)s.range(1, std::min(17, maxn));
    default: return (int)s.range(1, maxn);
  }
}
inline void set_segsize(unsigned long n) {
  if (n) setenv("KVTREE_VERIF_SEGSIZE", std::to_string(n).c_str(), 1);
  else unsetenv("KVTREE_VERIF_SEGSIZE");
}
// a world with possibly idle ranks and a communicator over some of its ranks, in any order
struct World {
  int n = 0;                 // ranks in the communicator
  int wn = 0;                // ranks in the world
  MPI_Comm comm = nullptr;
  std::vector<int> ranks;    // comm rank -> world rank
  std::vector<int> crank;    // world rank -> comm rank or -1
};
inline World make_world(Src& s, Ctx& x, int maxn, bool simple = false) {
  World w;
  w.n = maxn < 0 ? -maxn : gen_ranks(s, maxn);
  bool sub = s.chance(1, 3);
  w.wn = w.n + (sub ? (int)s.draw(3) : 0);
  mpi::begin(s, w.wn, simple);
  for (int i = 0; i < w.wn; i++) w.ranks.push_back(i);
  if (sub) {
    Rng r(s.seed32());
    for (int i = w.wn; i > 1; i--) std::swap(w.ranks[i - 1], w.ranks[r.below(i)]);
    w.ranks.resize(w.n);
    w.comm = mpi::make_comm(w.ranks);
    x.label("sub-communicator");
  } else w.comm = MPI_COMM_WORLD;
  w.crank.assign(w.wn, -1);
  for (int i = 0; i < w.n; i++) w.crank[w.ranks[i]] = i;
  if (w.n & (w.n - 1)) x.label("ranks: not a power of two");
  x.label(w.n == 1 ? "ranks: 1" : w.n <= 4 ? "ranks: 2-4" : w.n <= 9 ? "ranks: 5-9" : w.n <= 17 ? "ranks: 10-17" : "ranks: 18+");
  return w;
}
inline std::string show_comm(const World& w) {
  std::string o = fmt("%d ranks", w.n);
  if (w.comm != MPI_COMM_WORLD) { o += fmt(" (world ranks"); for (int r : w.ranks) o += fmt(" %d", r); o += fmt(" of %d)", w.wn); }
  return o;
}
inline void label_mpi(Ctx& x) {
  if (mpi::stats().rendezvous) x.label("rendezvous messages");
}
// now and then every tree fills a segment of its own, so the index of the set has many levels: the segment
// size to use then, otherwise 0
inline unsigned long spread(Src& s, Ctx& x, std::vector<TP>& t) {
  if (t.size() < 5 || !s.chance(t.size() > 40 ? 3 : 1, 4)) return 0;
  x.label("each tree in a segment of its own");
  for (size_t i = 0; i < t.size(); i++) if (packed_size(t[i].get()) < 110) t[i]->put(std::string(120 - packed_size(t[i].get()), (char)('a' + i % 20)), new T);
  return 100 + s.draw(8);
}
