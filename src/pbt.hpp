// A small property-based testing engine (choice-sequence style).
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string key;  // stable identification for the known-findings file
  std::string msg;
};

// Source of all choices of one case.
class Src {
 public:
  // uniform in [0, n]; 0 is the simplest choice
  uint64_t draw(uint64_t n);
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
  // true with probability num/den; false is simplest
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  // index with the given weights; index 0 simplest
  size_t weighted(std::initializer_list<unsigned> w);
  // mostly small sizes, sometimes up to max
  uint64_t size(uint64_t max);
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  // deterministic pseudo-random 64-bit stream seeded by one recorded choice
  uint64_t seed32() { return draw(0xffffffffu); }

  // engine side
  void start_random(uint64_t seed, uint64_t* buf, size_t cap);
  void start_replay(const uint64_t* in, size_t n, uint64_t* buf, size_t cap);
  size_t used() const { return pos_; }

 private:
  uint64_t rng();
  uint64_t s_[2];
  const uint64_t* in_ = nullptr;
  size_t nin_ = 0;
  uint64_t* buf_ = nullptr;
  size_t cap_ = 0, pos_ = 0;
  volatile uint64_t* npos_ = nullptr;
 public:
  void set_npos(volatile uint64_t* p) { npos_ = p; }
};

struct Rng {  // stand-alone stream for bulk content
  uint64_t x;
  explicit Rng(uint64_t seed) : x(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

class Ctx {
 public:
  bool verbose = false;
  std::string trace;
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void label(const char* name, uint64_t by = 1);
  void nontrivial() { nontrivial_ = true; }
  bool nontrivial_ = false;
};

[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string& s, size_t max = 60);

struct Sub {
  const char* name;
  std::function<void(Src&, Ctx&)> fn;
  uint64_t quick, thorough;
};

struct Prop {
  const char* id;
  const char* level;   // "exploration" / "fault_enumeration"
  const char* rule;
  std::vector<Sub> subs;
  std::vector<std::string> assumptions;
  // called once in every worker (and replay) process before cases
  std::function<void()> init;
  unsigned cpu_limit = 40;  // per case CPU seconds before it counts as a hang
  unsigned wall_limit = 150;
};

extern Prop prop;      // defined by the check
extern bool thorough;  // tier
std::string scratch(); // a scratch directory private to this worker process
std::string builddir(); // directory of the running check binary

// Run fn in a forked child; returns wait status. Child exits with fn's value.
int in_child(const std::function<int()>& fn, double wall_limit = 100);

}  // namespace pbt

#define REQUIRE(cond, ...)                                                         \
  do {                                                                             \
    if (!(cond)) pbt::fail(#cond, __VA_ARGS__);                                    \
  } while (0)
#define FAILK(key, ...) pbt::fail(key, __VA_ARGS__)
