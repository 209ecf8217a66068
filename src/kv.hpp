// Access to the library under test, reference model, generators, codec.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mpi.h"
extern "C" {
#include <stdint.h>
#include "kvtree.h"
#include "kvtree_util.h"
#include "kvtree_mpi.h"
}
#include "pbt.hpp"

#ifndef KVTREE_FAILURE
#define KVTREE_FAILURE (1)
#endif

// ---- function table: lets one program use several builds/copies of the library
#define KV_SERIAL(X) \
  X(kvtree_new) X(kvtree_delete) X(kvtree_size) X(kvtree_get) X(kvtree_set) X(kvtree_extract) \
  X(kvtree_unset) X(kvtree_unset_all) X(kvtree_merge) X(kvtree_setf) X(kvtree_getf) X(kvtree_sort) \
  X(kvtree_sort_int) X(kvtree_list_int) X(kvtree_set_kv) X(kvtree_set_kv_int) X(kvtree_get_kv) \
  X(kvtree_get_kv_int) X(kvtree_unset_kv) X(kvtree_unset_kv_int) X(kvtree_elem_first) X(kvtree_elem_next) \
  X(kvtree_elem_key) X(kvtree_elem_key_int) X(kvtree_elem_hash) X(kvtree_elem_get) \
  X(kvtree_elem_get_first_val) X(kvtree_elem_extract) X(kvtree_elem_extract_int) \
  X(kvtree_elem_extract_by_addr) X(kvtree_get_val) X(kvtree_pack_size) X(kvtree_pack) X(kvtree_unpack) \
  X(kvtree_write_persist) X(kvtree_write_fd) X(kvtree_read_fd) X(kvtree_write_file) X(kvtree_read_file) \
  X(kvtree_read_with_lock) X(kvtree_write_with_lock) X(kvtree_lock_open_read) X(kvtree_write_close_unlock) \
  X(kvtree_write_to_gather) X(kvtree_read_scatter_single) X(kvtree_print) X(kvtree_print_mode) X(kvtree_log) \
  X(kvtree_util_set_bytecount) X(kvtree_util_set_crc32) X(kvtree_util_set_int) X(kvtree_util_set_unsigned_long) \
  X(kvtree_util_set_str) X(kvtree_util_set_int64) X(kvtree_util_set_double) X(kvtree_util_set_ptr) \
  X(kvtree_util_get_bytecount) X(kvtree_util_get_crc32) X(kvtree_util_get_int) X(kvtree_util_get_unsigned_long) \
  X(kvtree_util_get_str) X(kvtree_util_get_int64) X(kvtree_util_get_double) X(kvtree_util_get_ptr)
#define KV_MPI(X) \
  X(kvtree_send) X(kvtree_recv) X(kvtree_sendrecv) X(kvtree_bcast) X(kvtree_exchange_sendq) \
  X(kvtree_exchange) X(kvtree_exchange_direction) X(kvtree_write_gather) X(kvtree_read_scatter)
struct KV {
#define X(f) decltype(&::f) f;
  KV_SERIAL(X) KV_MPI(X)
#undef X
};
extern thread_local const KV* K;         // current library, default: the one linked in
const KV* kv_static();
// load a shared build of the library ("flock", "fcntl", "none", "noswap", "mpi");
// copy > 0 makes a private copy with its own static data
const KV* kv_load(const std::string& variant, int copy = 0);
struct UseLib {
  const KV* old;
  explicit UseLib(const KV* k) : old(K) { K = k; }
  ~UseLib() { K = old; }
};

// ---- reference model: nested map
struct T {
  std::map<std::string, T*> kids;  // nullptr = key without a subtree
  T() {}
  T(const T&) = delete;
  T& operator=(const T&) = delete;
  ~T() { for (auto& k : kids) delete k.second; }
  T* at(const std::string& k) { auto i = kids.find(k); return i == kids.end() ? nullptr : i->second; }
  bool has(const std::string& k) const { return kids.count(k) != 0; }
  T*& ref(const std::string& k) { return kids[k]; }
  // get or create non-NULL subtree
  T* sub(const std::string& k) { T*& r = kids[k]; if (!r) r = new T; return r; }
  void put(const std::string& k, T* v) { T*& r = kids[k]; if (r && r != v) delete r; r = v; }
  void erase(const std::string& k) { auto i = kids.find(k); if (i != kids.end()) { delete i->second; kids.erase(i); } }
};
typedef std::unique_ptr<T> TP;
TP clone(const T* t);
void merge(T* a, const T* b);                 // deep union, NULL subtrees of a become empty
bool equal(const T* a, const T* b);           // NULL == empty
bool equal_exact(const T* a, const T* b);
size_t nodes(const T* t);
size_t depth(const T* t);
size_t width(const T* t);
size_t packed_size(const T* t);
std::string show(const T* t, size_t max = 300);

// real tree from model; insertion order of a level is permuted by the rng when given
kvtree* build(const T* t, pbt::Rng* order = nullptr);
TP from_real(const kvtree* h);                // fails the case on duplicate keys
// empty string when equal, else a description of the first difference
std::string diff(const kvtree* h, const T* t, bool null_is_empty = true);
// order-preserving snapshot, for "unchanged" checks
std::string snapshot(const kvtree* h);
void require_equal(const kvtree* h, const T* t, const char* what);

// owns a real tree
struct H {
  kvtree* h;
  explicit H(kvtree* x = nullptr) : h(x) {}
  H(const H&) = delete;
  ~H() { if (h) K->kvtree_delete(&h); }
  operator kvtree*() const { return h; }
  kvtree** addr() { return &h; }
  kvtree* release() { kvtree* x = h; h = nullptr; return x; }
};

// ---- generators
struct KeyCfg {
  size_t maxlen = 70000;
  bool empty = true, binary = true;
  bool newline = true;
  unsigned longw = 2;  // weight of long keys
};
std::string gen_key(pbt::Src& s, const KeyCfg& c = KeyCfg(), const std::vector<std::string>* pool = nullptr);
int gen_int(pbt::Src& s);
struct TreeCfg {
  size_t maxnodes = 60;
  size_t maxwide = 0;    // > 0: sometimes one level with up to this many keys
  size_t maxdeep = 0;    // > 0: sometimes a chain of up to this depth
  bool nulls = true;
  bool allow_empty = true;
  size_t big = 0;        // > 0: one tree in `bigrate` is a large one of up to about this many bytes (packed)
  size_t bigdeep = 3000, bigwide = 1200; // its most levels, keys in a level
  unsigned bigrate = 100;
  unsigned longrate = 0;  // > 0: one tree in `longrate` has a key of up to 100 KB or so
  KeyCfg key;
};
TP gen_tree(pbt::Src& s, const TreeCfg& c = TreeCfg());
TP gen_big(pbt::Src& s, size_t bytes, size_t levels, size_t width);  // wide, deep, or with large keys, around the powers of two
void label_tree(pbt::Ctx& x, const T* t);

// ---- independent codec of the documented format
uint32_t my_crc32(const void* p, size_t n, uint32_t seed = 0);
void encode_body(const T* t, std::string& out, pbt::Rng* order = nullptr);
std::string encode_file(const T* t, bool crc = true, pbt::Rng* order = nullptr, uint32_t extra_flags = 0);
std::string frame(const std::string& body, bool crc, uint32_t flags_extra = 0);
// body of the real tree in its iteration order
void encode_real(const kvtree* h, std::string& out);
std::string encode_real_file(const kvtree* h);
// strict decoder; returns number of bytes consumed, 0 on error
size_t decode_body(const char* p, size_t n, T* out, size_t maxdepth = 1000000);
// decoder of a file: 0 ok, 1 empty, -1 invalid. Strict: body fills the announced size.
int decode_file(const std::string& bytes, T* out, size_t* used = nullptr);

// ---- files
std::string slurp(const std::string& path, bool* ok = nullptr);
void spew(const std::string& path, const std::string& bytes);
bool exists(const std::string& path);
