// Queued messages to one rank accumulate and are copied at queueing time.
#include "mpih.hpp"

// queue history against a model; every int is a legal rank here
static void queue_hist(Src& s, Ctx& x) {
  UseLib u(kv_load("mpi", 1));
  H q(K->kvtree_new());
  T m;
  TreeCfg c;
  c.maxnodes = 14;
  c.big = 200000; c.bigrate = 300; c.longrate = 30;
  size_t n = 1 + s.size(30);
  std::vector<int> ranks;
  struct Msg { kvtree* h; TP t; };
  std::vector<Msg> msgs;
  struct Clean { std::vector<Msg>& v; ~Clean() { for (auto& p : v) K->kvtree_delete(&p.h); } } clean{msgs};
  int merged = 0, changed = 0;
  for (size_t i = 0; i < n; i++) {
    switch (s.weighted({6, 2, 1})) {
      case 0: {
        int r = !ranks.empty() && s.chance(1, 2) ? s.pick(ranks) : gen_int(s);
        ranks.push_back(r);
        size_t at;
        if (!msgs.empty() && s.chance(1, 3)) at = s.draw(msgs.size() - 1);
        else {
          TP t = !msgs.empty() && s.chance(1, 2) ? related(s, msgs[s.draw(msgs.size() - 1)].t.get(), c, 5) : gen_tree(s, c);
          Rng o(s.seed32());
          kvtree* h = build(t.get(), &o);
          msgs.push_back({h, std::move(t)});
          at = msgs.size() - 1;
        }
        x.note("queue message %zu = %s for %d", at, show(msgs[at].t.get(), 80).c_str(), r);
        std::string before = snapshot(msgs[at].h);
        int rc = K->kvtree_exchange_sendq(q, r, msgs[at].h);
        REQUIRE(rc == KVTREE_SUCCESS, "sendq returns %d", rc);
        REQUIRE(snapshot(msgs[at].h) == before, "queueing changed the message");
        if (m.has(str_of_int(r))) merged++;
        merge(m.sub(str_of_int(r)), msgs[at].t.get());
        break;
      }
      case 1:
        if (msgs.empty()) break;
        { size_t at = s.draw(msgs.size() - 1); x.note("change message %zu", at); edit(s, msgs[at].h, msgs[at].t.get(), 3); changed++; }
        break;
      default:
        if (msgs.empty()) break;
        { size_t at = s.draw(msgs.size() - 1); x.note("delete message %zu", at); K->kvtree_delete(&msgs[at].h); msgs.erase(msgs.begin() + at); changed++; }
        break;
    }
    require_equal(q, &m, "queue differs from the merge of the messages");
    for (auto& p : msgs) require_equal(p.h, p.t.get(), "a message changed");
  }
  if (merged) x.label("several messages for one rank");
  if (changed) x.label("message changed after queueing");
  if (merged && changed) x.nontrivial();
}
// queues of all ranks are delivered
static void deliver(Src& s, Ctx& x) {
  World w = make_world(s, x, 12);
  TreeCfg c;
  c.maxnodes = 6; c.key.maxlen = 2000; c.big = 100000; c.bigrate = 300; c.longrate = 30;
  x.note("%s", show_comm(w).c_str());
  std::vector<std::vector<std::pair<int, TP>>> q(w.n);
  std::vector<TP> pool;
  size_t np = 1 + s.draw(4);
  for (size_t i = 0; i < np; i++) pool.push_back(i && s.chance(1, 2) ? related(s, pool[0].get(), c, 4) : gen_tree(s, c));
  size_t total = s.draw(4 * w.n);
  bool rep = false;
  for (size_t i = 0; i < total; i++) {
    int a = (int)s.draw(w.n - 1), b = (int)s.draw(w.n - 1);
    size_t t = s.draw(np - 1);
    for (auto& p : q[a]) if (p.first == b) rep = true;
    q[a].push_back({b, clone(pool[t].get())});
    x.note("%d queues tree %zu = %s for %d", a, t, show(pool[t].get(), 60).c_str(), b);
  }
  int variant = (int)s.draw(2);
  run_ranks([&](int wr) {
    int me = w.crank[wr];
    if (me < 0) return;
    H send(K->kvtree_new()), recv(K->kvtree_new());
    for (auto& p : q[me]) {
      H msg(build(p.second.get()));
      REQUIRE(K->kvtree_exchange_sendq(send, p.first, msg) == KVTREE_SUCCESS, "sendq fails");
      K->kvtree_unset_all(msg);
    }
    int rc = variant == 0 ? K->kvtree_exchange(send, recv, w.comm) : K->kvtree_exchange_direction(send, recv, w.comm, variant == 1 ? KVTREE_EXCHANGE_LEFT : KVTREE_EXCHANGE_RIGHT);
    REQUIRE(rc == KVTREE_SUCCESS, "exchange returns %d", rc);
    T want;
    for (int a = 0; a < w.n; a++) for (auto& p : q[a]) if (p.first == me) merge(want.sub(str_of_int(a)), p.second.get());
    std::string d = diff(recv, &want);
    REQUIRE(d.empty(), "rank %d of %d received something else than the merged messages: %s", me, w.n, d.c_str());
  });
  if (rep) { x.label("several messages for one rank"); x.nontrivial(); }
}

Prop pbt::prop = {
  "M03", "exploration",
  "case = history of queueing, changing and deleting messages compared with per-rank merged models, or queues of all ranks exchanged; non-trivial: several "
  "messages for one rank, and (history) a message changed or deleted after queueing",
  {{"queue", queue_hist, 41600, 640000}, {"deliver", deliver, 7800, 120000}},
  {"MPI as modelled by the in-process shim"},
};
