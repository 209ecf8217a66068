#include "shim.hpp"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <string>
using pbt::fmt;

typedef std::vector<unsigned char> Bytes;

struct shim_req {
  enum Kind { SEND, RECV } kind;
  int owner;                 // world rank
  MPI_Comm comm;
  int peer, tag;             // comm ranks; may be ANY for receives
  void* buf; size_t bytes;   // buffer (capacity for receives)
  bool done = false, matched = false;
  bool eager = false;
  bool freed = false;
  Bytes copy;                // eager data / original contents of a receive buffer
  uint64_t hash = 0;         // of the send buffer, or of the poison in a receive buffer
  MPI_Status st;
  shim_req* other = nullptr;
  std::string where;
};
struct Coll {
  int kind; std::string sig;
  size_t arrived = 0, left = 0;
  bool strict = false;
  std::vector<char> in;
  std::vector<Bytes> data;   // contribution per rank
  std::vector<std::vector<Bytes>> parts;  // scatter/alltoall: per source, per destination
  int dtype = 0, op = 0, root = -1;
};
struct shim_comm {
  std::vector<int> ranks;    // comm rank -> world rank
  std::deque<shim_req*> sends, recvs;  // unmatched, in posting order
  std::vector<uint64_t> seq; // collective sequence per rank
  std::map<uint64_t, Coll*> colls;
  std::map<std::pair<uint64_t, int>, MPI_Comm> derived;
  bool is_world = false;
};
shim_comm shim_world, shim_self;

namespace {
struct Abort {};
struct Rank {
  std::function<bool()> pred;
  bool done = false;
  bool waiting_first = true;
  std::condition_variable cv;
  std::string where;
};
struct WorldT {
  pbt::Src* src = nullptr;
  int n = 0;
  std::mutex mu;
  int cur = -1;
  std::vector<std::unique_ptr<Rank>> r;
  std::vector<shim_comm*> comms;
  std::vector<shim_req*> transfers;   // matched, not yet transferred
  std::vector<shim_req*> all;
  bool failed = false, finished = false;
  std::string key, msg;
  int policy = 0, slow = -1;
  unsigned eager = 50;
  uint64_t eager_limit = 0;
  mpi::Stats st;
  std::vector<int> prio;
  std::condition_variable mainc;
  int running_threads = 0;
};
WorldT* W = nullptr;
thread_local int t_rank = -1;
thread_local const char* t_where = "";

uint64_t hash_bytes(const void* p, size_t n) {
  const unsigned char* b = (const unsigned char*)p;
  uint64_t h = 1469598103934665603ull ^ n;
  // word-wise for speed
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, b + i, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
  for (; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

[[noreturn]] void die(const char* key, const std::string& msg) {
  if (!W->failed) { W->failed = true; W->key = key; W->msg = msg; }
  throw Abort{};
}

void do_transfer(size_t i) {
  shim_req* rv = W->transfers[i];
  W->transfers.erase(W->transfers.begin() + i);
  shim_req* sd = rv->other;
  size_t n = sd->bytes;
  if (n > rv->bytes) die("mpi-truncation", fmt("message of %zu bytes from rank %d truncated by a receive of %zu bytes at world rank %d", n, sd->owner, rv->bytes, rv->owner));
  if (rv->bytes && hash_bytes(rv->buf, rv->bytes) != rv->hash) die("mpi-buffer", fmt("receive buffer of world rank %d was touched while the receive was pending", rv->owner));
  if (!sd->eager && n && hash_bytes(sd->buf, n) != sd->hash) die("mpi-buffer", fmt("send buffer of world rank %d was changed while the send was pending", sd->owner));
  if (rv->bytes) memcpy(rv->buf, rv->copy.data(), rv->bytes);
  if (n) memcpy(rv->buf, sd->eager ? sd->copy.data() : sd->buf, n);
  rv->st.shim_bytes = n;
  rv->done = true;
  sd->done = true;
}
bool tag_ok(shim_req* rv, shim_req* sd) { return rv->tag == MPI_ANY_TAG || rv->tag == sd->tag; }
// match receives in posting order with the earliest message of their source
void match(MPI_Comm c) {
  for (size_t i = 0; i < c->recvs.size();) {
    shim_req* rv = c->recvs[i];
    std::vector<shim_req*> cand;
    std::vector<int> seen;
    for (shim_req* sd : c->sends) {
      if (sd->peer < 0 || c->ranks[sd->peer] != rv->owner) continue;
      int src = -1;
      for (size_t q = 0; q < c->ranks.size(); q++) if (c->ranks[q] == sd->owner) src = (int)q;
      if (rv->peer != MPI_ANY_SOURCE && rv->peer != src) continue;
      if (!tag_ok(rv, sd)) continue;
      if (std::find(seen.begin(), seen.end(), src) != seen.end()) continue;
      seen.push_back(src);
      cand.push_back(sd);
    }
    if (cand.empty()) { i++; continue; }
    shim_req* sd = cand.size() == 1 ? cand[0] : cand[W->src->draw(cand.size() - 1)];
    c->recvs.erase(c->recvs.begin() + i);
    c->sends.erase(std::find(c->sends.begin(), c->sends.end(), sd));
    sd->matched = rv->matched = true;
    sd->other = rv; rv->other = sd;
    for (size_t q = 0; q < c->ranks.size(); q++) if (c->ranks[q] == sd->owner) rv->st.MPI_SOURCE = (int)q;
    rv->st.MPI_TAG = sd->tag;
    rv->st.MPI_ERROR = MPI_SUCCESS;
    W->transfers.push_back(rv);
  }
}

// pick who runs next; called with the lock held by the running rank
// returns rank id, or -1 when all are done
int pick_next() {
  for (;;) {
    std::vector<int> ready;
    int alive = 0;
    for (int i = 0; i < W->n; i++) {
      Rank& r = *W->r[i];
      if (r.done) continue;
      alive++;
      if (!r.pred || r.pred()) ready.push_back(i);
    }
    if (!alive) return -1;
    size_t nt = W->transfers.size();
    if (ready.empty() && nt == 0) {
      std::string s = "all remaining ranks are blocked:";
      for (int i = 0; i < W->n && s.size() < 1500; i++) if (!W->r[i]->done) s += fmt(" rank %d in %s;", i, W->r[i]->where.c_str());
      die("mpi-deadlock", s);
    }
    // message delivery or a rank step
    if (nt) {
      bool deliver = ready.empty() || (W->policy == 0 ? true : W->src->chance(1, 2));
      if (deliver) { do_transfer(nt == 1 || W->policy == 0 ? 0 : W->src->draw(nt - 1)); continue; }
    }
    if (ready.size() == 1) return ready[0];
    switch (W->policy) {
      case 0: {  // keep running the lowest rank after the current one
        for (int k = 1; k <= W->n; k++) { int c = (W->cur + k) % W->n; if (std::find(ready.begin(), ready.end(), c) != ready.end()) return c; }
        return ready[0];
      }
      case 3:    // one rank only runs when no other can
        ready.erase(std::remove(ready.begin(), ready.end(), W->slow), ready.end());
        if (ready.size() == 1) return ready[0];
        return ready[W->src->draw(ready.size() - 1)];
      case 2: {  // priorities
        if (W->src->chance(1, 16)) std::swap(W->prio[W->src->draw(W->n - 1)], W->prio[W->src->draw(W->n - 1)]);
        int best = ready[0];
        for (int c : ready) if (W->prio[c] < W->prio[best]) best = c;
        return best;
      }
      default: return ready[W->src->draw(ready.size() - 1)];
    }
  }
}
void hand_to(int nxt) {
  W->cur = nxt;
  W->st.switches++;
  if (nxt < 0) { W->finished = true; W->mainc.notify_all(); return; }
  W->r[nxt]->cv.notify_one();
}
void wait_turn(std::unique_lock<std::mutex>& lk) {
  Rank& r = *W->r[t_rank];
  while (W->cur != t_rank && !W->failed) r.cv.wait(lk);
  if (W->failed) throw Abort{};
}
// block until pred holds, letting others run; pred empty = plain yield
void yield(const std::function<bool()>& pred) {
  Rank& r = *W->r[t_rank];
  std::unique_lock<std::mutex> lk(W->mu);
  if (W->failed) throw Abort{};
  r.pred = pred;
  r.where = t_where;
  bool self_ready = !pred || pred();
  // cheap path
  if (self_ready && W->policy == 0) { r.pred = nullptr; return; }
  int nxt = pick_next();
  if (nxt != t_rank) {
    hand_to(nxt);
    wait_turn(lk);
  }
  r.pred = nullptr;
}

MPI_Comm resolve(MPI_Comm c, const char* fn) {
  t_where = fn;
  if (!W || t_rank < 0) { fprintf(stderr, "MPI call %s outside of a rank\n", fn); abort(); }
  if (c == MPI_COMM_NULL) die("mpi-usage", fmt("%s on MPI_COMM_NULL", fn));
  if (c == &shim_self) die("mpi-usage", fmt("%s on MPI_COMM_SELF", fn));
  return c;
}
int rank_in(MPI_Comm c, const char* fn) {
  for (size_t i = 0; i < c->ranks.size(); i++) if (c->ranks[i] == t_rank) return (int)i;
  die("mpi-comm", fmt("%s on a communicator that world rank %d is not part of", fn, t_rank));
}
size_t tsize(int t, const char* fn) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_PACKED: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_2INT: case MPI_AINT: case MPI_OFFSET: return 8;
  }
  die("mpi-usage", fmt("%s with an unknown datatype %d", fn, t));
}
size_t nbytes(int count, int t, const char* fn) {
  if (count < 0) die("mpi-usage", fmt("%s with negative count %d", fn, count));
  return (size_t)count * tsize(t, fn);
}
void check_peer(MPI_Comm c, int p, const char* fn, bool recv) {
  if (p == MPI_PROC_NULL || (recv && p == MPI_ANY_SOURCE)) return;
  if (p < 0 || p >= (int)c->ranks.size()) die("mpi-usage", fmt("%s with rank %d on a communicator of %zu", fn, p, c->ranks.size()));
}
void check_tag(int tag, const char* fn, bool recv) {
  if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) die("mpi-usage", fmt("%s with invalid tag %d", fn, tag));
}

shim_req* post_send(const void* buf, int count, int t, int dst, int tag, MPI_Comm c, const char* fn, bool sync) {
  resolve(c, fn);
  rank_in(c, fn);
  check_peer(c, dst, fn, false);
  check_tag(tag, fn, false);
  shim_req* q = new shim_req;
  std::unique_lock<std::mutex> lk(W->mu);
  W->all.push_back(q);
  q->kind = shim_req::SEND; q->owner = t_rank; q->comm = c; q->peer = dst; q->tag = tag;
  q->buf = (void*)buf; q->bytes = nbytes(count, t, fn); q->where = fn;
  memset(&q->st, 0, sizeof q->st);
  if (dst == MPI_PROC_NULL) { q->done = true; return q; }
  W->st.msgs++; W->st.bytes += q->bytes;
  q->hash = q->bytes ? hash_bytes(buf, q->bytes) : 0;
  q->eager = !sync && (W->eager >= 100 || (W->eager > 0 && q->bytes <= W->eager_limit && W->src->chance(W->eager, 100)));
  if (q->eager) { if (q->bytes) q->copy.assign((unsigned char*)buf, (unsigned char*)buf + q->bytes); q->done = true; }
  else W->st.rendezvous++;
  c->sends.push_back(q);
  match(c);
  return q;
}
shim_req* post_recv(void* buf, int count, int t, int src, int tag, MPI_Comm c, const char* fn) {
  resolve(c, fn);
  rank_in(c, fn);
  check_peer(c, src, fn, true);
  check_tag(tag, fn, true);
  shim_req* q = new shim_req;
  std::unique_lock<std::mutex> lk(W->mu);
  W->all.push_back(q);
  q->kind = shim_req::RECV; q->owner = t_rank; q->comm = c; q->peer = src; q->tag = tag;
  q->buf = buf; q->bytes = nbytes(count, t, fn); q->where = fn;
  memset(&q->st, 0, sizeof q->st);
  if (src == MPI_PROC_NULL) { q->done = true; q->st.MPI_SOURCE = MPI_PROC_NULL; q->st.MPI_TAG = MPI_ANY_TAG; return q; }
  if (q->bytes) {
    q->copy.assign((unsigned char*)buf, (unsigned char*)buf + q->bytes);
    memset(buf, 0xA5, q->bytes);  // contents are undefined while pending
    q->hash = hash_bytes(buf, q->bytes);
  }
  c->recvs.push_back(q);
  match(c);
  return q;
}
void finish(shim_req* q, MPI_Status* st) {
  if (q->kind == shim_req::SEND && q->peer != MPI_PROC_NULL && q->bytes && hash_bytes(q->buf, q->bytes) != q->hash)
    die("mpi-buffer", fmt("send buffer of world rank %d was changed before the send completed", q->owner));
  if (st) *st = q->st;
  q->freed = true;
}
void wait_req(MPI_Request* rq, MPI_Status* st, const char* fn) {
  t_where = fn;
  if (*rq == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->shim_bytes = 0; } return; }
  shim_req* q = *rq;
  if (q->owner != t_rank) die("mpi-usage", "waiting for a request of another rank");
  yield([q]() { return q->done; });
  finish(q, st);
  *rq = MPI_REQUEST_NULL;
}

// ---- collectives
enum { C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_SPLIT };
Coll* enter(MPI_Comm c, int rank, int kind, const std::string& sig, int root, const char* fn) {
  std::unique_lock<std::mutex> lk(W->mu);
  if (c->seq.size() != c->ranks.size()) c->seq.assign(c->ranks.size(), 0);
  uint64_t s = c->seq[rank]++;
  Coll*& k = c->colls[s];
  if (!k) {
    k = new Coll;
    k->kind = kind; k->sig = sig; k->root = root;
    k->in.assign(c->ranks.size(), 0);
    k->data.resize(c->ranks.size());
    k->parts.resize(c->ranks.size());
    k->strict = W->policy != 0 && W->src->chance(1, 2);
    W->st.colls++;
  } else if (k->sig != sig) {
    die("mpi-collective", fmt("collective mismatch on one communicator: rank %d calls %s, another rank called %s", rank, sig.c_str(), k->sig.c_str()));
  }
  if (root >= (int)c->ranks.size() || root < -1) die("mpi-usage", fmt("%s with root %d on %zu ranks", fn, root, c->ranks.size()));
  return k;
}
void arrive(Coll* k, int rank, const void* p, size_t n) {
  std::unique_lock<std::mutex> lk(W->mu);
  if (n) k->data[rank].assign((const unsigned char*)p, (const unsigned char*)p + n);
  k->in[rank] = 1;
  k->arrived++;
}
void wait_all(Coll* k, size_t n) { yield([k, n]() { return k->arrived == n; }); }
void wait_rank(Coll* k, size_t n, int r) { yield([k, n, r]() { return k->strict ? k->arrived == n : k->in[r] != 0; }); }
void wait_upto(Coll* k, size_t n, int r) {
  yield([k, n, r]() { if (k->strict) return k->arrived == n; for (int i = 0; i <= r; i++) if (!k->in[i]) return false; return true; });
}
void wait_self(Coll* k, size_t n) { if (k->strict) wait_all(k, n); else yield(nullptr); }
void leave(MPI_Comm c, Coll* k) {
  std::unique_lock<std::mutex> lk(W->mu);
  if (++k->left == c->ranks.size()) {
    for (auto it = c->colls.begin(); it != c->colls.end(); ++it) if (it->second == k) { c->colls.erase(it); break; }
    delete k;
  }
}
template <class V> void comb(V* a, const V* b, size_t n, int op) {
  for (size_t i = 0; i < n; i++) switch (op) {
    case MPI_MAX: a[i] = std::max(a[i], b[i]); break;
    case MPI_MIN: a[i] = std::min(a[i], b[i]); break;
    case MPI_SUM: a[i] = a[i] + b[i]; break;
    case MPI_PROD: a[i] = a[i] * b[i]; break;
    case MPI_LAND: a[i] = a[i] && b[i]; break;
    case MPI_LOR: a[i] = a[i] || b[i]; break;
    case MPI_LXOR: a[i] = !a[i] != !b[i]; break;
    default: break;
  }
}
template <class V> void combi(V* a, const V* b, size_t n, int op) {
  for (size_t i = 0; i < n; i++) switch (op) {
    case MPI_BAND: a[i] &= b[i]; break;
    case MPI_BOR: a[i] |= b[i]; break;
    case MPI_BXOR: a[i] ^= b[i]; break;
    default: break;
  }
}
template <class V> void combine_t(Bytes& a, const Bytes& b, int op) {
  size_t n = a.size() / sizeof(V);
  std::vector<V> x(n), y(n);
  if (n) { memcpy(x.data(), a.data(), n * sizeof(V)); memcpy(y.data(), b.data(), n * sizeof(V)); }
  if (op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR) combi(x.data(), y.data(), n, op);
  else comb(x.data(), y.data(), n, op);
  if (n) memcpy(a.data(), x.data(), n * sizeof(V));
}
template <class V> void combine_f(Bytes& a, const Bytes& b, int op) {
  size_t n = a.size() / sizeof(V);
  std::vector<V> x(n), y(n);
  if (n) { memcpy(x.data(), a.data(), n * sizeof(V)); memcpy(y.data(), b.data(), n * sizeof(V)); }
  comb(x.data(), y.data(), n, op);
  if (n) memcpy(a.data(), x.data(), n * sizeof(V));
}
void combine(Bytes& a, const Bytes& b, int t, int op, const char* fn) {
  if (op <= MPI_OP_NULL || op > MPI_MINLOC) die("mpi-usage", fmt("%s with unknown operation", fn));
  if (op == MPI_MAXLOC || op == MPI_MINLOC) {
    if (t != MPI_2INT) die("mpi-usage", "MAXLOC/MINLOC needs MPI_2INT");
    for (size_t i = 0; i + 8 <= a.size(); i += 8) {
      int x[2], y[2];
      memcpy(x, &a[i], 8); memcpy(y, &b[i], 8);
      bool take = op == MPI_MAXLOC ? (y[0] > x[0] || (y[0] == x[0] && y[1] < x[1])) : (y[0] < x[0] || (y[0] == x[0] && y[1] < x[1]));
      if (take) memcpy(&a[i], y, 8);
    }
    return;
  }
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: combine_t<signed char>(a, b, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: case MPI_C_BOOL: combine_t<unsigned char>(a, b, op); break;
    case MPI_SHORT: case MPI_INT16_T: combine_t<short>(a, b, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: combine_t<unsigned short>(a, b, op); break;
    case MPI_INT: case MPI_INT32_T: combine_t<int>(a, b, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: combine_t<unsigned>(a, b, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: combine_t<long>(a, b, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: combine_t<unsigned long>(a, b, op); break;
    case MPI_FLOAT: combine_f<float>(a, b, op); break;
    case MPI_DOUBLE: combine_f<double>(a, b, op); break;
    default: die("mpi-usage", fmt("%s: reduction on datatype %d", fn, t));
  }
}
void put(void* p, const Bytes& b) { if (!b.empty()) memcpy(p, b.data(), b.size()); }
}  // namespace

namespace mpi {
void begin(pbt::Src& s, int n, bool simple) {
  if (W) {
    // left over from an earlier case
    for (auto* c : W->comms) { for (auto& k : c->colls) delete k.second; delete c; }
    for (auto* q : W->all) delete q;
    delete W;
  }
  W = new WorldT;
  W->src = &s;
  W->n = n;
  shim_world = shim_comm();
  shim_world.is_world = true;
  for (int i = 0; i < n; i++) { shim_world.ranks.push_back(i); W->prio.push_back(i); }
  if (!simple) {
    W->policy = (int)s.weighted({3, 4, 2, 2});
    W->slow = W->policy == 3 ? (int)s.draw(n - 1) : -1;
    if (W->policy == 2) for (int i = n; i > 1; i--) std::swap(W->prio[i - 1], W->prio[s.draw(i - 1)]);
    static const unsigned pct[] = {100, 0, 50, 80};
    W->eager = pct[s.draw(3)];
    static const uint64_t lim[] = {1u << 30, 4, 64, 4096};
    W->eager_limit = lim[s.draw(3)];
  } else W->eager = 100, W->eager_limit = 1u << 30;
}
MPI_Comm make_comm(const std::vector<int>& r) {
  shim_comm* c = new shim_comm;
  c->ranks = r;
  W->comms.push_back(c);
  return c;
}
int me() { return t_rank; }
const Stats& stats() { return W->st; }
void breathe() { t_where = "harness"; yield(nullptr); }

struct Arg { int rank; const std::function<void(int)>* body; };
static void* thread_main(void* p) {
  Arg a = *(Arg*)p;
  t_rank = a.rank;
  bool failed = false;
  try {
    { std::unique_lock<std::mutex> lk(W->mu); wait_turn(lk); W->r[t_rank]->pred = nullptr; }
    (*a.body)(a.rank);
  } catch (Abort&) { failed = true; }
  catch (pbt::Failure& f) {
    failed = true;
    std::unique_lock<std::mutex> lk(W->mu);
    if (!W->failed) { W->failed = true; W->key = f.key; W->msg = fmt("(rank %d) ", t_rank) + f.msg; }
  } catch (pbt::Discard&) {
    failed = true;
    std::unique_lock<std::mutex> lk(W->mu);
    if (!W->failed) { W->failed = true; W->key = "discard"; }
  }
  {
    std::unique_lock<std::mutex> lk(W->mu);
    W->r[t_rank]->done = true;
    if (!failed) {
      try { hand_to(pick_next()); }
      catch (Abort&) { failed = true; }
      catch (pbt::Discard&) { failed = true; if (!W->failed) { W->failed = true; W->key = "discard"; } }
    }
    if (W->failed) { for (auto& r : W->r) r->cv.notify_all(); W->mainc.notify_all(); }
    W->running_threads--;
    W->mainc.notify_all();
  }
  return nullptr;
}
void run(const std::function<void(int)>& body) {
  W->r.clear();
  for (int i = 0; i < W->n; i++) W->r.emplace_back(new Rank);
  W->cur = -1; W->failed = W->finished = false;
  W->running_threads = W->n;
  std::vector<pthread_t> th(W->n);
  std::vector<Arg> args(W->n);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 32u << 20);
  for (int i = 0; i < W->n; i++) {
    args[i] = {i, &body};
    if (pthread_create(&th[i], &at, thread_main, &args[i])) { fprintf(stderr, "pthread_create failed\n"); _Exit(2); }
  }
  {
    std::unique_lock<std::mutex> lk(W->mu);
    try { hand_to(pick_next()); } catch (Abort&) {} 
    while (W->running_threads > 0) W->mainc.wait(lk);
  }
  for (int i = 0; i < W->n; i++) pthread_join(th[i], nullptr);
  pthread_attr_destroy(&at);
  std::string key, msg;
  bool failed = W->failed;
  key = W->key; msg = W->msg;
  if (!failed) {
    auto chk = [&](shim_comm* c) {
      if (!c->sends.empty()) { failed = true; key = "mpi-leftover"; msg = fmt("message of %zu bytes from world rank %d to comm rank %d was never received (%zu such)", c->sends[0]->bytes, c->sends[0]->owner, c->sends[0]->peer, c->sends.size()); }
      if (!c->recvs.empty()) { failed = true; key = "mpi-leftover"; msg = fmt("a receive of world rank %d was never completed", c->recvs[0]->owner); }
      if (!c->colls.empty()) { failed = true; key = "mpi-collective"; msg = fmt("collective %s was not called by all ranks", c->colls.begin()->second->sig.c_str()); }
    };
    chk(&shim_world);
    for (auto* c : W->comms) chk(c);
    if (!failed && !W->transfers.empty()) { failed = true; key = "mpi-leftover"; msg = "a matched message was never waited for"; }
    for (auto* q : W->all) if (!failed && !q->freed) { failed = true; key = "mpi-request"; msg = fmt("a request of world rank %d (%s) was never waited for", q->owner, q->where.c_str()); }
  }
  for (auto* q : W->all) delete q;
  W->all.clear();
  if (failed) {
    if (key == "discard") throw pbt::Discard{};
    throw pbt::Failure{key, msg};
  }
}
}  // namespace mpi

// ---------------------------------------------------------------- MPI API
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int rc) { die("mpi-abort", fmt("MPI_Abort(%d) called by world rank %d", rc, t_rank)); }
double MPI_Wtime(void) { static std::atomic<uint64_t> t{0}; return (double)(t++) * 1e-6; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "node"); *l = 4; return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) {
  if (c == &shim_self) { *r = 0; return 0; }
  resolve(c, "MPI_Comm_rank"); *r = rank_in(c, "MPI_Comm_rank"); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) {
  if (c == &shim_self) { *n = 1; return 0; }
  resolve(c, "MPI_Comm_size"); rank_in(c, "MPI_Comm_size"); *n = (int)c->ranks.size(); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  resolve(c, "MPI_Comm_split");
  int r = rank_in(c, "MPI_Comm_split");
  Coll* k = enter(c, r, C_SPLIT, "MPI_Comm_split", -1, "MPI_Comm_split");
  uint64_t seq = c->seq[r] - 1;
  int v[2] = {color, key};
  arrive(k, r, v, sizeof v);
  wait_all(k, c->ranks.size());
  if (color == MPI_UNDEFINED) *out = MPI_COMM_NULL;
  else {
    std::unique_lock<std::mutex> lk(W->mu);
    MPI_Comm& d = c->derived[{seq, color}];
    if (!d) {
      std::vector<std::pair<int, int>> m;
      for (size_t i = 0; i < c->ranks.size(); i++) { int w[2]; memcpy(w, k->data[i].data(), sizeof w); if (w[0] == color) m.push_back({w[1], (int)i}); }
      std::stable_sort(m.begin(), m.end());
      d = new shim_comm;
      for (auto& x : m) d->ranks.push_back(c->ranks[x.second]);
      W->comms.push_back(d);
    }
    *out = d;
  }
  leave(c, k);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { int r; MPI_Comm_rank(c, &r); return MPI_Comm_split(c, 0, r, out); }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)tsize(t, "MPI_Type_size"); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = (int)(s->shim_bytes / tsize(t, "MPI_Get_count")); return 0; }

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  MPI_Request q = post_send(b, n, t, d, tag, c, "MPI_Send", false);
  wait_req(&q, nullptr, "MPI_Send"); return 0; }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  MPI_Request q = post_send(b, n, t, d, tag, c, "MPI_Ssend", true);
  wait_req(&q, nullptr, "MPI_Ssend"); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  MPI_Request q = post_recv(b, n, t, s, tag, c, "MPI_Recv");
  wait_req(&q, st, "MPI_Recv"); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  *q = post_send(b, n, t, d, tag, c, "MPI_Isend", false); yield(nullptr); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  *q = post_send(b, n, t, d, tag, c, "MPI_Issend", true); yield(nullptr); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) {
  *q = post_recv(b, n, t, s, tag, c, "MPI_Irecv"); yield(nullptr); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* s) { wait_req(q, s, "MPI_Wait"); return 0; }
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) {
  t_where = "MPI_Waitall";
  std::vector<shim_req*> v;
  for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) v.push_back(q[i]);
  yield([v]() { for (auto* x : v) if (!x->done) return false; return true; });
  for (int i = 0; i < n; i++) wait_req(&q[i], s ? &s[i] : nullptr, "MPI_Waitall");
  return 0;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* s) {
  t_where = "MPI_Waitany";
  std::vector<shim_req*> v;
  for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) v.push_back(q[i]);
  if (v.empty()) { *idx = MPI_UNDEFINED; return 0; }
  yield([v]() { for (auto* x : v) if (x->done) return true; return false; });
  std::vector<int> rdy;
  for (int i = 0; i < n; i++) if (q[i] && q[i]->done) rdy.push_back(i);
  *idx = rdy[rdy.size() > 1 ? W->src->draw(rdy.size() - 1) : 0];
  wait_req(&q[*idx], s, "MPI_Waitany");
  return 0;
}
int MPI_Waitsome(int n, MPI_Request* q, int* cnt, int* idx, MPI_Status* s) {
  int i;
  MPI_Waitany(n, q, &i, s);
  if (i == MPI_UNDEFINED) { *cnt = MPI_UNDEFINED; return 0; }
  *cnt = 1; idx[0] = i;
  return 0;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* s) {
  t_where = "MPI_Test";
  if (*q == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  shim_req* x = *q;
  if (!x->done) { int pol = W->policy; W->policy = 1; yield(nullptr); W->policy = pol; }
  *flag = x->done;
  if (x->done) wait_req(q, s, "MPI_Test");
  return 0;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* s) {
  *flag = 1;
  t_where = "MPI_Testall";
  for (int i = 0; i < n; i++) if (q[i] && !q[i]->done) *flag = 0;
  if (!*flag) { int pol = W->policy; W->policy = 1; yield(nullptr); W->policy = pol; *flag = 1; for (int i = 0; i < n; i++) if (q[i] && !q[i]->done) *flag = 0; }
  if (*flag) for (int i = 0; i < n; i++) wait_req(&q[i], s ? &s[i] : nullptr, "MPI_Testall");
  return 0;
}
int MPI_Testany(int n, MPI_Request* q, int* idx, int* flag, MPI_Status* s) {
  *flag = 0; *idx = MPI_UNDEFINED;
  bool any = false;
  for (int i = 0; i < n; i++) { if (q[i]) any = true; if (q[i] && q[i]->done) { *idx = i; *flag = 1; wait_req(&q[i], s, "MPI_Testany"); return 0; } }
  if (!any) { *flag = 1; return 0; }
  { int pol = W->policy; W->policy = 1; t_where = "MPI_Testany"; yield(nullptr); W->policy = pol; }
  return 0;
}
int MPI_Request_free(MPI_Request* q) { if (*q) { (*q)->freed = true; *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Cancel(MPI_Request*) { die("mpi-usage", "MPI_Cancel is not supported by the in-process MPI"); }
static shim_req* probe_find(int src, int tag, MPI_Comm c, int me, int* from) {
  for (shim_req* sd : c->sends) {
    if (sd->peer != me) continue;
    int s = -1;
    for (size_t i = 0; i < c->ranks.size(); i++) if (c->ranks[i] == sd->owner) s = (int)i;
    if (src != MPI_ANY_SOURCE && src != s) continue;
    if (tag != MPI_ANY_TAG && tag != sd->tag) continue;
    *from = s;
    return sd;
  }
  return nullptr;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  resolve(c, "MPI_Probe");
  int r = rank_in(c, "MPI_Probe"), from = -1;
  yield([=]() { int f; return probe_find(src, tag, c, r, &f) != nullptr; });
  shim_req* q = probe_find(src, tag, c, r, &from);
  if (st) { st->MPI_SOURCE = from; st->MPI_TAG = q->tag; st->MPI_ERROR = 0; st->shim_bytes = q->bytes; }
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  resolve(c, "MPI_Iprobe");
  int r = rank_in(c, "MPI_Iprobe"), from = -1;
  shim_req* q = probe_find(src, tag, c, r, &from);
  if (!q) { int pol = W->policy; W->policy = 1; yield(nullptr); W->policy = pol; q = probe_find(src, tag, c, r, &from); }
  *flag = q != nullptr;
  if (q && st) { st->MPI_SOURCE = from; st->MPI_TAG = q->tag; st->MPI_ERROR = 0; st->shim_bytes = q->bytes; }
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* st) {
  MPI_Request q[2];
  MPI_Irecv(rb, rn, rt, s, rtag, c, &q[0]);
  MPI_Isend(sb, sn, stt, d, stag, c, &q[1]);
  MPI_Status ss[2];
  MPI_Waitall(2, q, ss);
  if (st) *st = ss[0];
  return 0;
}

#define ENTER(kind, sig, root)                                   \
  const char* fn = __func__;                                     \
  resolve(c, fn);                                                \
  int me = rank_in(c, fn);                                       \
  size_t N = c->ranks.size();                                    \
  Coll* k = enter(c, me, kind, sig, root, fn);                   \
  (void)N;
int MPI_Barrier(MPI_Comm c) { ENTER(C_BARRIER, "MPI_Barrier", -1); arrive(k, me, nullptr, 0); wait_all(k, N); leave(c, k); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  size_t sz = nbytes(n, t, "MPI_Bcast");
  ENTER(C_BCAST, fmt("MPI_Bcast(root %d, %zu bytes)", root, sz), root);
  arrive(k, me, b, me == root ? sz : 0);
  if (me == root) wait_self(k, N); else { wait_rank(k, N, root); put(b, k->data[root]); }
  leave(c, k);
  return 0;
}
static void reduce_upto(Coll* k, int last, MPI_Datatype t, MPI_Op op, Bytes& out, const char* fn) {
  out = k->data[0];
  for (int i = 1; i <= last; i++) combine(out, k->data[i], t, op, fn);
}
static void no_alias(const void* s, const void* r, const char* fn) {
  if (s == r && s != nullptr && s != MPI_IN_PLACE) die("mpi-usage", fmt("%s with the same buffer for input and output", fn));
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  size_t sz = nbytes(n, t, "MPI_Reduce");
  ENTER(C_REDUCE, fmt("MPI_Reduce(root %d, type %d, op %d, %zu bytes)", root, t, op, sz), root);
  if (me == root) no_alias(s, r, fn);
  arrive(k, me, s == MPI_IN_PLACE ? r : s, sz);
  if (me == root) { wait_all(k, N); Bytes o; reduce_upto(k, (int)N - 1, t, op, o, fn); put(r, o); } else wait_self(k, N);
  leave(c, k);
  return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  size_t sz = nbytes(n, t, "MPI_Allreduce");
  ENTER(C_ALLREDUCE, fmt("MPI_Allreduce(type %d, op %d, %zu bytes)", t, op, sz), -1);
  no_alias(s, r, fn);
  arrive(k, me, s == MPI_IN_PLACE ? r : s, sz);
  wait_all(k, N);
  Bytes o; reduce_upto(k, (int)N - 1, t, op, o, fn); put(r, o);
  leave(c, k);
  return 0;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  size_t sz = nbytes(n, t, "MPI_Scan");
  ENTER(C_SCAN, fmt("MPI_Scan(type %d, op %d, %zu bytes)", t, op, sz), -1);
  no_alias(s, r, fn);
  arrive(k, me, s == MPI_IN_PLACE ? r : s, sz);
  wait_upto(k, N, me);
  Bytes o; reduce_upto(k, me, t, op, o, fn); put(r, o);
  leave(c, k);
  return 0;
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  size_t sz = nbytes(n, t, "MPI_Exscan");
  ENTER(C_EXSCAN, fmt("MPI_Exscan(type %d, op %d, %zu bytes)", t, op, sz), -1);
  no_alias(s, r, fn);
  arrive(k, me, s == MPI_IN_PLACE ? r : s, sz);
  wait_upto(k, N, me);
  if (me > 0) { Bytes o; reduce_upto(k, me - 1, t, op, o, fn); put(r, o); }
  else if (s != MPI_IN_PLACE && sz) memset(r, 0xA5, sz);  // undefined on rank 0
  leave(c, k);
  return 0;
}
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cnt, const int* dis, MPI_Datatype rt, int root, MPI_Comm c) {
  size_t sz = s == MPI_IN_PLACE ? 0 : nbytes(n, t, "MPI_Gatherv");
  ENTER(C_GATHER, fmt("MPI_Gather(root %d)", root), root);
  arrive(k, me, s, sz);
  if (me == root) {
    wait_all(k, N);
    size_t es = tsize(rt, fn);
    for (size_t i = 0; i < N; i++) {
      if ((int)i == me && s == MPI_IN_PLACE) continue;
      if (k->data[i].size() > (size_t)cnt[i] * es) die("mpi-truncation", "MPI_Gather receives more than announced");
      put((char*)r + (size_t)dis[i] * es, k->data[i]);
    }
  } else wait_self(k, N);
  leave(c, k);
  return 0;
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  std::vector<int> cnt, dis;
  for (size_t i = 0; i < c->ranks.size(); i++) { cnt.push_back(rn); dis.push_back((int)i * rn); }
  return MPI_Gatherv(s, n, t, r, cnt.data(), dis.data(), rt, root, c);
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cnt, const int* dis, MPI_Datatype rt, MPI_Comm c) {
  ENTER(C_ALLGATHER, "MPI_Allgather", -1);
  size_t es = tsize(rt, fn);
  if (s == MPI_IN_PLACE) arrive(k, me, (char*)r + (size_t)dis[me] * es, (size_t)cnt[me] * es);
  else arrive(k, me, s, nbytes(n, t, fn));
  wait_all(k, N);
  for (size_t i = 0; i < N; i++) {
    if (k->data[i].size() > (size_t)cnt[i] * es) die("mpi-truncation", "MPI_Allgather receives more than announced");
    put((char*)r + (size_t)dis[i] * es, k->data[i]);
  }
  leave(c, k);
  return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  std::vector<int> cnt, dis;
  for (size_t i = 0; i < c->ranks.size(); i++) { cnt.push_back(rn); dis.push_back((int)i * rn); }
  return MPI_Allgatherv(s, n, t, r, cnt.data(), dis.data(), rt, c);
}
int MPI_Scatterv(const void* s, const int* cnt, const int* dis, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER(C_SCATTER, fmt("MPI_Scatter(root %d)", root), root);
  if (me == root) {
    std::unique_lock<std::mutex> lk(W->mu);
    size_t es = tsize(t, fn);
    for (size_t i = 0; i < N; i++) { const unsigned char* p = (const unsigned char*)s + (size_t)dis[i] * es; k->parts[me].push_back(Bytes(p, p + (size_t)cnt[i] * es)); }
  }
  arrive(k, me, nullptr, 0);
  if (me == root) wait_self(k, N); else wait_rank(k, N, root);
  if (!(me == root && r == MPI_IN_PLACE)) {
    Bytes& b = k->parts[root][me];
    if (b.size() > nbytes(rn, rt, fn)) die("mpi-truncation", "MPI_Scatter receives more than announced");
    put(r, b);
  }
  leave(c, k);
  return 0;
}
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  std::vector<int> cnt, dis;
  for (size_t i = 0; i < c->ranks.size(); i++) { cnt.push_back(n); dis.push_back((int)i * n); }
  return MPI_Scatterv(s, cnt.data(), dis.data(), t, r, rn, rt, root, c);
}
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype t, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  ENTER(C_ALLTOALL, "MPI_Alltoall", -1);
  {
    std::unique_lock<std::mutex> lk(W->mu);
    size_t es = tsize(t, fn);
    for (size_t i = 0; i < N; i++) { const unsigned char* p = (const unsigned char*)s + (size_t)sd[i] * es; k->parts[me].push_back(Bytes(p, p + (size_t)sc[i] * es)); }
  }
  arrive(k, me, nullptr, 0);
  wait_all(k, N);
  size_t es = tsize(rt, fn);
  for (size_t i = 0; i < N; i++) {
    Bytes& b = k->parts[i][me];
    if (b.size() > (size_t)rc[i] * es) die("mpi-truncation", "MPI_Alltoall receives more than announced");
    put((char*)r + (size_t)rd[i] * es, b);
  }
  leave(c, k);
  return 0;
}
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  std::vector<int> a, ad, b, bd;
  for (size_t i = 0; i < c->ranks.size(); i++) { a.push_back(n); ad.push_back((int)i * n); b.push_back(rn); bd.push_back((int)i * rn); }
  return MPI_Alltoallv(s, a.data(), ad.data(), t, r, b.data(), bd.data(), rt, c);
}
}
