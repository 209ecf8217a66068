#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <ftw.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:handle_abort=0:"
         "detect_stack_use_after_return=0:max_allocation_size_mb=3000:"
         "allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16:malloc_context_size=12";
}

namespace pbt {

bool thorough = false;
static std::string g_root;     // scratch root of this run
static std::string g_builddir;
static uint64_t g_seed = 1;

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char tmp[512];
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(tmp, sizeof tmp, f, ap);
  va_end(ap);
  std::string s;
  if (n < (int)sizeof tmp) {
    s.assign(tmp, n > 0 ? n : 0);
  } else {
    s.resize(n + 1);
    vsnprintf(&s[0], n + 1, f, ap2);
    s.resize(n);
  }
  va_end(ap2);
  return s;
}

std::string quote(const std::string& s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c >= 32 && c < 127) o += c;
    else o += fmt("\\x%02x", c);
  }
  o += '"';
  if (s.size() > max) o += fmt("...(%zu bytes)", s.size());
  return o;
}

void fail(const char* key, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char tmp[4096];
  vsnprintf(tmp, sizeof tmp, f, ap);
  va_end(ap);
  throw Failure{key, tmp};
}

// ---------------------------------------------------------------- Src
static uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t Src::rng() {
  s_[0] += 0x9E3779B97F4A7C15ull;
  return mix(s_[0] ^ s_[1]);
}
void Src::start_random(uint64_t seed, uint64_t* buf, size_t cap) {
  s_[0] = mix(seed + 0x9E3779B97F4A7C15ull);
  s_[1] = mix(s_[0] ^ 0xD1B54A32D192ED03ull);
  in_ = nullptr; nin_ = 0; buf_ = buf; cap_ = cap; pos_ = 0;
}
void Src::start_replay(const uint64_t* in, size_t n, uint64_t* buf, size_t cap) {
  static const uint64_t none = 0;
  in_ = in ? in : &none; nin_ = n; buf_ = buf; cap_ = cap; pos_ = 0;
}
uint64_t Src::draw(uint64_t n) {
  if (pos_ >= cap_) throw Discard{};
  uint64_t v;
  if (n == 0) v = 0;
  else if (in_) v = pos_ < nin_ ? std::min(in_[pos_], n) : 0;
  else if (n == UINT64_MAX) v = rng();
  else v = (uint64_t)(((unsigned __int128)rng() * ((unsigned __int128)n + 1)) >> 64);
  buf_[pos_++] = v;
  if (npos_) *npos_ = pos_;
  return v;
}
size_t Src::weighted(std::initializer_list<unsigned> w) {
  uint64_t tot = 0;
  for (auto x : w) tot += x;
  uint64_t v = draw(tot - 1);
  size_t i = 0;
  for (auto x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return i - 1;
}
uint64_t Src::size(uint64_t max) {
  switch (weighted({5, 4, 1})) {
    case 0: return draw(std::min<uint64_t>(max, 4));
    case 1: return draw(std::min<uint64_t>(max, 24));
    default: return draw(max);
  }
}

// ---------------------------------------------------------------- shared state
static const size_t CAP = 1u << 20;  // choices per case
struct Slot {
  std::atomic<int64_t> cur;
  std::atomic<uint64_t> nhist;
  volatile uint64_t nrec;
  std::atomic<int> failed;  // 1: Failure thrown
  std::atomic<int> known;
  double started;
  char key[256];
  char msg[4096];
};
struct Label { char name[56]; std::atomic<uint64_t> n; };
static const int NLABEL = 400;
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<int> stop;
  std::atomic<uint64_t> evals, nontriv, discarded;
  std::atomic<int> label_lock;
  Label labels[NLABEL];
  Slot slots[64];
};
static Shared* sh;
template <class T> static T* shalloc(size_t n) {
  void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*)p;
}

static bool g_count_labels = true;
void Ctx::label(const char* name, uint64_t by) {
  if (!sh || !g_count_labels) return;
  for (int i = 0; i < NLABEL; i++) {
    if (sh->labels[i].name[0] == 0) {
      int z = 0;
      while (!sh->label_lock.compare_exchange_strong(z, 1)) z = 0;
      if (sh->labels[i].name[0] == 0) snprintf(sh->labels[i].name, sizeof sh->labels[i].name, "%s", name);
      sh->label_lock = 0;
    }
    if (strncmp(sh->labels[i].name, name, sizeof sh->labels[i].name - 1) == 0) {
      sh->labels[i].n += by;
      return;
    }
  }
}
void Ctx::note(const char* f, ...) {
  if (!verbose || trace.size() > 20000) return;
  va_list ap;
  va_start(ap, f);
  char tmp[2048];
  vsnprintf(tmp, sizeof tmp, f, ap);
  va_end(ap);
  trace += tmp;
  trace += '\n';
}

// ---------------------------------------------------------------- scratch
static int rm_cb(const char* p, const struct stat*, int t, struct FTW*) {
  if (t == FTW_DP || t == FTW_D) rmdir(p); else unlink(p);
  return 0;
}
static void rmtree(const std::string& d) {
  if (d.find("/kvpbt.") == std::string::npos) return;
  nftw(d.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
}
static std::string g_mydir;
static pid_t g_mydir_pid = 0;
std::string scratch() {
  if (g_mydir.empty()) {
    g_mydir = fmt("%s/w%d", g_root.c_str(), (int)getpid());
    g_mydir_pid = getpid();
    mkdir(g_mydir.c_str(), 0777);
  }
  return g_mydir;
}
std::string builddir() { return g_builddir; }

int in_child(const std::function<int()>& fn, double wall) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) throw Discard{};
  if (p == 0) {
    int rc;
    try { rc = fn(); }
    catch (Failure& f) { fprintf(stderr, "child failure: %s\n", f.msg.c_str()); rc = 97; }
    catch (Discard&) { rc = 96; }
    fflush(stdout); fflush(stderr);
    _exit(rc);
  }
  int st = 0;
  double t0 = now();
  for (int i = 0;; i++) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) return st;
    if (r < 0 && errno != EINTR) return -1;
    if (now() - t0 > wall) { kill(p, SIGKILL); waitpid(p, &st, 0); throw Failure{"hang", "child process did not finish"}; }
    if (i < 200) sched_yield(); else usleep(i < 1000 ? 50 : 500);
  }
}

// ---------------------------------------------------------------- cases
struct CaseRef { uint32_t sub; uint64_t idx; };
static std::vector<CaseRef> g_cases;
static std::set<std::string> g_known;

static uint64_t case_seed(const CaseRef& c) {
  uint64_t h = mix(g_seed ^ 0xABCDEF1234567ull);
  for (const char* p = prop.id; *p; p++) h = mix(h ^ (unsigned char)*p);
  for (const char* p = prop.subs[c.sub].name; *p; p++) h = mix(h * 31 + (unsigned char)*p);
  return mix(h ^ (c.idx * 0x9E3779B97F4A7C15ull));
}

enum Outcome { PASS = 0, FAILED = 1, DISCARD = 2, CRASH = 3, HANG = 4 };
struct Result { Outcome o = PASS; std::string key, msg, trace; std::vector<uint64_t> rec; bool nontriv = false; };

static void arm_cpu(unsigned s) {
  struct itimerval it = {{0, 0}, {(time_t)s, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string scrape(const std::string& file) {
  FILE* f = fopen(file.c_str(), "r");
  if (!f) return "";
  std::string out, last;
  char line[2000];
  int frames = 0;
  bool asan = false;
  while (fgets(line, sizeof line, f)) {
    last = line;
    if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "WARNING: ThreadSanitizer") || strstr(line, "runtime error:")) { asan = true; out += line; }
    else if (asan && frames < 6 && strstr(line, "    #") == line) { out += line; frames++; }
  }
  fclose(f);
  if (out.empty()) out = last;
  if (out.size() > 3000) out.resize(3000);
  return out;
}

static void redirect(const std::string& errfile) {
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  dup2(fd, 1);
  if (fd > 2) close(fd);
  fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
}

static void run_one(const CaseRef& c, Src& s, Ctx& x) {
  prop.subs[c.sub].fn(s, x);
}

// run a list of (prefix) cases and then one case in a fresh process
struct Try {
  pid_t pid = -1;
  Slot* slot = nullptr;
  uint64_t* rec = nullptr;
  char* trace = nullptr;
  std::string err;
  double t0 = 0;
};
static const size_t TRACECAP = 24000;
static std::vector<Try> g_tries;
static void try_start(Try& t, const CaseRef& c, const std::vector<uint64_t>* choices, const std::vector<CaseRef>& prefix, bool verbose) {
  if (!t.slot) {
    t.slot = shalloc<Slot>(1);
    t.rec = shalloc<uint64_t>(CAP);
    t.trace = shalloc<char>(TRACECAP + 1);
  }
  t.slot->failed = 0; t.slot->nrec = 0; t.slot->key[0] = t.slot->msg[0] = 0; t.slot->known = 0;
  t.trace[0] = 0;
  static int counter = 0;
  t.err = fmt("%s/try%d.err", g_root.c_str(), counter++ % 64);
  t.t0 = now();
  fflush(stdout); fflush(stderr);
  t.pid = fork();
  if (t.pid == 0) {
    redirect(t.err);
    g_count_labels = false;
    if (prop.init) prop.init();
    Src s;
    try {
      for (auto& p : prefix) {
        s.start_random(case_seed(p), t.rec, CAP);
        Ctx x;
        try { run_one(p, s, x); } catch (Discard&) {} catch (Failure& f) { if (!g_known.count(f.key)) throw; }
      }
    } catch (Failure& f) { /* an earlier case fails: counts as this failure */
      snprintf(t.slot->key, sizeof t.slot->key, "%s", f.key.c_str());
      snprintf(t.slot->msg, sizeof t.slot->msg, "%s", f.msg.c_str());
      t.slot->failed = 1;
      rmtree(g_mydir); _exit(0);
    }
    s.set_npos(&t.slot->nrec);
    if (choices) s.start_replay(choices->data(), choices->size(), t.rec, CAP);
    else s.start_random(case_seed(c), t.rec, CAP);
    arm_cpu(prop.cpu_limit);
    Ctx x;
    x.verbose = verbose;
    int code = 0;
    try { run_one(c, s, x); }
    catch (Discard&) { code = 1; }
    catch (Failure& f) {
      snprintf(t.slot->key, sizeof t.slot->key, "%s", f.key.c_str());
      snprintf(t.slot->msg, sizeof t.slot->msg, "%s", f.msg.c_str());
      t.slot->failed = 1;
    }
    snprintf(t.trace, TRACECAP, "%s", x.trace.c_str());
    rmtree(g_mydir);
    _exit(code);
  }
}
static Result try_wait(Try& t) {
  Result r;
  int st = 0;
  bool hung = false;
  for (int i = 0;; i++) {
    pid_t p = waitpid(t.pid, &st, WNOHANG);
    if (p == t.pid) break;
    if (p < 0 && errno != EINTR) break;
    if (now() - t.t0 > prop.wall_limit) { kill(t.pid, SIGKILL); waitpid(t.pid, &st, 0); hung = true; break; }
    usleep(i < 100 ? 100 : 2000);
  }
  rmtree(fmt("%s/w%d", g_root.c_str(), (int)t.pid));
  r.rec.assign(t.rec, t.rec + t.slot->nrec);
  r.trace = t.trace;
  if (t.slot->failed) { r.o = FAILED; r.key = t.slot->key; r.msg = t.slot->msg; }
  else if (hung || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)) { r.o = HANG; r.key = "hang"; r.msg = hung ? "did not finish (wall)" : "did not finish (CPU limit)"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.o = PASS;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 1) r.o = DISCARD;
  else {
    r.o = CRASH; r.key = "crash";
    r.msg = (WIFSIGNALED(st) ? fmt("process killed by signal %d\n", WTERMSIG(st)) : fmt("process exited with status %d\n", WEXITSTATUS(st))) + scrape(t.err);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.o = DISCARD; }  // killed from outside (memory)
  }
  unlink(t.err.c_str());
  return r;
}
static Result try_case(const CaseRef& c, const std::vector<uint64_t>* choices, const std::vector<CaseRef>& prefix = {}, bool verbose = false) {
  static Try t;
  try_start(t, c, choices, prefix, verbose);
  return try_wait(t);
}
static bool is_fail(const Result& r) {
  return (r.o == FAILED || r.o == CRASH || r.o == HANG) && !g_known.count(r.key);
}

static bool g_noshrink = false;
static Result shrink(const CaseRef& c, Result best, double budget) {
  double t0 = now();
  static Try tr[8];
  unsigned attempts = 0;
  auto batch = [&](std::vector<std::vector<uint64_t>>& cand) -> int {
    // returns index of first failing candidate or -1
    for (size_t b = 0; b < cand.size(); b += 8) {
      size_t e = std::min(cand.size(), b + 8);
      for (size_t i = b; i < e; i++) try_start(tr[i - b], c, &cand[i], {}, false);
      int hit = -1;
      Result hr;
      for (size_t i = b; i < e; i++) {
        Result r = try_wait(tr[i - b]);
        attempts++;
        if (hit < 0 && is_fail(r) && (r.o != HANG || best.o == HANG)) { hit = (int)i; hr = r; }
      }
      if (hit >= 0) {
        // accept what was really consumed
        if (hr.rec.size() < cand[hit].size() || true) {
          std::vector<uint64_t> rec = hr.rec;
          if (rec.size() > cand[hit].size()) rec.resize(cand[hit].size());
          best.rec = rec;
        }
        best.key = hr.key; best.msg = hr.msg; best.o = hr.o;
        return hit;
      }
      if (now() - t0 > budget) return -1;
    }
    return -1;
  };
  auto strip = [&]() { while (!best.rec.empty() && best.rec.back() == 0) best.rec.pop_back(); };
  bool progress = true;
  while (progress && now() - t0 < budget && attempts < 4000) {
    progress = false;
    strip();
    // delete blocks
    for (size_t k = std::max<size_t>(1, best.rec.size() / 2); k >= 1 && now() - t0 < budget; k /= 2) {
      for (size_t i = 0; i < best.rec.size() && now() - t0 < budget;) {
        std::vector<std::vector<uint64_t>> cand;
        std::vector<size_t> at;
        for (size_t j = i; j < best.rec.size() && cand.size() < 8; j += k) {
          auto v = best.rec;
          v.erase(v.begin() + j, v.begin() + std::min(v.size(), j + k));
          cand.push_back(v);
          at.push_back(j);
        }
        size_t last = at.back();
        int h = batch(cand);
        if (h >= 0) { progress = true; i = at[h]; } else i = last + k;
      }
      if (k == 1) break;
    }
    // zero blocks
    for (size_t k = std::max<size_t>(1, best.rec.size() / 4); k >= 1 && now() - t0 < budget; k /= 2) {
      std::vector<std::vector<uint64_t>> cand;
      for (size_t j = 0; j < best.rec.size(); j += k) {
        auto v = best.rec;
        bool any = false;
        for (size_t q = j; q < std::min(v.size(), j + k); q++) { if (v[q]) any = true; v[q] = 0; }
        if (any) cand.push_back(v);
      }
      if (!cand.empty() && batch(cand) >= 0) { progress = true; continue; }
      if (k == 1) break;
    }
    // lower single values
    for (size_t i = 0; i < best.rec.size() && now() - t0 < budget; i++) {
      for (int guard = 0; guard < 70 && i < best.rec.size() && best.rec[i]; guard++) {
        uint64_t x = best.rec[i];
        std::vector<std::vector<uint64_t>> cand;
        for (uint64_t y : {(uint64_t)0, (uint64_t)1, x / 2, x - x / 4, x - 1}) {
          if (y >= x) continue;
          auto v = best.rec;
          v[i] = y;
          cand.push_back(v);
        }
        if (batch(cand) < 0) break;
        progress = true;
      }
    }
  }
  strip();
  return best;
}

static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

static void write_replay(const std::string& path, const CaseRef& c, const Result& r, const std::vector<CaseRef>* hist) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return;
  fprintf(f, "property %s\nsub %s\nseed %llu\ntier %s\n", prop.id, prop.subs[c.sub].name, (unsigned long long)g_seed, thorough ? "thorough" : "quick");
  if (hist) {
    fprintf(f, "history %zu", hist->size());
    for (auto& h : *hist) fprintf(f, " %s/%llu", prop.subs[h.sub].name, (unsigned long long)h.idx);
    fprintf(f, "\nindex %llu\n", (unsigned long long)c.idx);
  } else {
    fprintf(f, "choices %zu", r.rec.size());
    for (auto v : r.rec) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n");
  }
  fprintf(f, "key %s\nmessage %s\n--- case ---\n%s\n", r.key.c_str(), r.msg.c_str(), r.trace.c_str());
  fclose(f);
}

static int sub_by_name(const std::string& n) {
  for (size_t i = 0; i < prop.subs.size(); i++) if (n == prop.subs[i].name) return (int)i;
  return -1;
}

static int do_replay(const std::string& path) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) { perror(path.c_str()); return 2; }
  char* line = nullptr;
  size_t n = 0;
  CaseRef c{0, 0};
  std::vector<uint64_t> ch;
  std::vector<CaseRef> hist;
  bool have = false, havehist = false;
  while (getline(&line, &n, f) > 0) {
    char w[128], v[256];
    if (sscanf(line, "sub %255s", v) == 1) { int i = sub_by_name(v); if (i < 0) { fprintf(stderr, "unknown sub-check %s\n", v); return 2; } c.sub = i; }
    else if (sscanf(line, "tier %127s", w) == 1) thorough = !strcmp(w, "thorough");
    else if (sscanf(line, "seed %127s", w) == 1) g_seed = strtoull(w, nullptr, 10);
    else if (sscanf(line, "index %127s", w) == 1) c.idx = strtoull(w, nullptr, 10);
    else if (!strncmp(line, "choices ", 8)) {
      char* p = line + 8;
      size_t k = strtoull(p, &p, 10);
      while (k--) ch.push_back(strtoull(p, &p, 10));
      have = true;
    } else if (!strncmp(line, "history ", 8)) {
      char* sv; char* tok = strtok_r(line + 8, " \n", &sv);
      while ((tok = strtok_r(nullptr, " \n", &sv))) {
        char* sl = strrchr(tok, '/'); *sl = 0;
        hist.push_back({(uint32_t)sub_by_name(tok), strtoull(sl + 1, nullptr, 10)});
      }
      havehist = true;
    } else if (!strncmp(line, "--- case", 8)) break;
  }
  free(line);
  fclose(f);
  Result r = havehist ? try_case(c, nullptr, hist, true) : try_case(c, have ? &ch : nullptr, {}, true);
  printf("%s\n", r.trace.c_str());
  if (r.o == PASS) { printf("replay: passes\n"); return 0; }
  if (r.o == DISCARD) { printf("replay: discarded\n"); return 0; }
  printf("replay: FAILS key=%s\n%s\n", r.key.c_str(), r.msg.c_str());
  if (g_known.count(r.key)) { printf("KNOWN-FINDING: property=%s %s\n", prop.id, r.key.c_str()); return 0; }
  printf("VIOLATION property=%s replay=%s\n", prop.id, path.c_str());
  return 1;
}

static void worker(int w, uint64_t* rec, uint32_t* hist, uint64_t* hashes, const std::string& err) {
  redirect(err);
  Slot& sl = sh->slots[w];
  if (prop.init) prop.init();
  Src s;
  s.set_npos(&sl.nrec);
  while (!sh->stop) {
    uint64_t g = sh->next++;
    if (g >= g_cases.size()) break;
    const CaseRef& c = g_cases[g];
    hist[sl.nhist++] = (uint32_t)g;
    sl.nrec = 0;
    sl.started = now();
    sl.cur = (int64_t)g;
    s.start_random(case_seed(c), rec, CAP);
    Ctx x;
    arm_cpu(prop.cpu_limit);
    bool ok = true;
    try { run_one(c, s, x); }
    catch (Discard&) { sh->discarded++; ok = false; }
    catch (Failure& f) {
      if (g_known.count(f.key)) { sl.known++; x.label(("known:" + f.key).c_str()); }
      else {
        snprintf(sl.key, sizeof sl.key, "%s", f.key.c_str());
        snprintf(sl.msg, sizeof sl.msg, "%s", f.msg.c_str());
        sl.failed = 1;
        sh->stop = 1;
        rmtree(g_mydir);
        _exit(0);
      }
    }
    sh->evals++;
    if (ok) x.label(fmt("sub:%s", prop.subs[c.sub].name).c_str());
    if (ok && x.nontrivial_) {
      uint64_t h = mix(c.sub + 1);
      for (size_t i = 0; i < s.used(); i++) h = mix(h * 1099511628211ull + rec[i]);
      hashes[g] = h | 1;
    }
    sl.cur = -1;
  }
  arm_cpu(0);
  rmtree(g_mydir);
  _exit(0);
}

static void load_known(const std::string& path) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return;
  char line[4096];
  std::string tag = std::string("known: property=") + prop.id + " key=";
  while (fgets(line, sizeof line, f)) {
    if (strncmp(line, tag.c_str(), tag.size())) continue;
    std::string k = line + tag.size();
    size_t e = k.find(" :: ");
    if (e == std::string::npos) e = k.find('\n');
    g_known.insert(k.substr(0, e));
  }
  fclose(f);
}

static int run_all(const std::string& evidence, const std::string& replays, uint64_t scale_num, const std::string& only, int P) {
  double t0 = now();
  // interleave sub-checks evenly
  struct It { double pos; CaseRef c; };
  std::vector<It> its;
  for (size_t i = 0; i < prop.subs.size(); i++) {
    if (!only.empty() && only != prop.subs[i].name) continue;
    uint64_t n = thorough ? prop.subs[i].thorough : prop.subs[i].quick;
    n = std::max<uint64_t>(1, n * scale_num / 100);
    for (uint64_t k = 0; k < n; k++) its.push_back({(k + 0.5) / n, {(uint32_t)i, k}});
  }
  std::stable_sort(its.begin(), its.end(), [](const It& a, const It& b) { return a.pos < b.pos; });
  for (auto& i : its) g_cases.push_back(i.c);
  size_t N = g_cases.size();
  sh = shalloc<Shared>(1);
  uint64_t* hashes = shalloc<uint64_t>(N + 1);
  std::vector<uint64_t*> rec(P);
  std::vector<uint32_t*> hist(P);
  std::vector<pid_t> pid(P, -1);
  std::vector<std::string> err(P);
  auto spawn = [&](int w) {
    Slot& sl = sh->slots[w];
    sl.cur = -1; sl.nhist = 0; sl.failed = 0;
    fflush(stdout); fflush(stderr);
    pid[w] = fork();
    if (pid[w] == 0) worker(w, rec[w], hist[w], hashes, err[w]);
  };
  for (int w = 0; w < P; w++) {
    rec[w] = shalloc<uint64_t>(CAP);
    hist[w] = shalloc<uint32_t>(N + 1);
    err[w] = fmt("%s/worker%d.err", g_root.c_str(), w);
    spawn(w);
  }
  struct Fnd { uint64_t g; Result r; std::vector<CaseRef> hist; };
  std::vector<Fnd> found;
  unsigned infra = 0;
  int live = P;
  uint64_t known_hits = 0;
  auto collect = [&](int w, int st, bool hung) {
    Slot& sl = sh->slots[w];
    int64_t cur = sl.cur;
    known_hits += sl.known.exchange(0);
    bool died = hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    rmtree(fmt("%s/w%d", g_root.c_str(), (int)pid[w]));
    if (sl.failed || (died && cur >= 0)) {
      Fnd f;
      f.g = cur;
      for (uint64_t i = 0; i + 1 < sl.nhist; i++) f.hist.push_back(g_cases[hist[w][i]]);
      f.r.rec.assign(rec[w], rec[w] + sl.nrec);
      if (sl.failed) { f.r.o = FAILED; f.r.key = sl.key; f.r.msg = sl.msg; }
      else if (hung || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)) { f.r.o = HANG; f.r.key = "hang"; f.r.msg = "did not finish"; }
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { infra++; f.r.o = DISCARD; }
      else {
        f.r.o = CRASH; f.r.key = "crash";
        f.r.msg = (WIFSIGNALED(st) ? fmt("process killed by signal %d\n", WTERMSIG(st)) : fmt("process exited with status %d\n", WEXITSTATUS(st))) + scrape(err[w]);
      }
      if (f.r.o != DISCARD) {
        if (g_known.count(f.r.key)) { known_hits++; }
        else { found.push_back(f); sh->stop = 1; }
      }
      return true;
    }
    return false;
  };
  int violations = 0, unrepro = 0;
  std::string vline;
  // a failure that does not replay is not reported, and the search goes on
  for (int round = 0; round < 6; round++) {
  if (round) {
    if (violations || found.empty() || sh->next >= N) break;
    found.clear();
    sh->stop = 0;
    live = P;
    for (int w = 0; w < P; w++) spawn(w);
  }
  while (live > 0) {
    bool any = false;
    for (int w = 0; w < P; w++) {
      if (pid[w] < 0) continue;
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        any = true;
        bool ev = collect(w, st, false);
        bool abnormal = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        pid[w] = -1;
        if ((ev || abnormal) && !sh->stop && infra < 50) spawn(w);
        else live--;
      } else if (sh->slots[w].cur >= 0 && now() - sh->slots[w].started > prop.wall_limit) {
        kill(pid[w], SIGKILL);
        waitpid(pid[w], &st, 0);
        collect(w, st, true);
        pid[w] = -1;
        live--;
        any = true;
      }
    }
    if (!any) usleep(3000);
  }
  std::sort(found.begin(), found.end(), [](const Fnd& a, const Fnd& b) {
    if ((a.r.o == HANG) != (b.r.o == HANG)) return b.r.o == HANG;  // hangs last: expensive
    return a.g < b.g; });
  for (auto& f : found) {
    const CaseRef& c = g_cases[f.g];
    Result base = f.r;
    // reproduce from its own choices in a fresh process
    Result r0 = try_case(c, nullptr);
    std::string path = fmt("%s/%s-%s-%llu.replay", replays.c_str(), prop.id, prop.subs[c.sub].name, (unsigned long long)c.idx);
    bool ok = false;
    if (is_fail(r0)) {
      Result b = r0;
      double budget = r0.o == HANG ? 1 : 60;
      fprintf(stderr, "[%s] failure in %s/%llu: %s: %s; shrinking\n", prop.id, prop.subs[c.sub].name, (unsigned long long)c.idx, r0.key.c_str(), r0.msg.substr(0, 300).c_str());
      if (r0.o != HANG && !g_noshrink) b = shrink(c, r0, budget);
      for (int pass = 0; pass < 2 && !ok; pass++) {
        Result& use = pass == 0 ? b : r0;
        int hits = 0, need = use.o == HANG ? 1 : 3;
        Result v;
        for (int i = 0; i < need; i++) { Result q = try_case(c, &use.rec, {}, true); if (is_fail(q)) { hits++; v = q; } }
        if (hits == need) {
          ok = true;
          auto rec2 = use.rec;
          v.rec = rec2;
          write_replay(path, c, v, nullptr);
          base = v;
        }
      }
    }
    if (!ok) {
      // depends on earlier cases of the same process: replay the history
      auto h = f.hist;
      Result v;
      auto tryh = [&](const std::vector<CaseRef>& hh) { Result q = try_case(c, nullptr, hh, true); if (is_fail(q)) { v = q; return true; } return false; };
      if (f.r.o != HANG && tryh(h)) {
        double s0 = now();
        for (size_t k = h.size() / 2; k >= 1 && now() - s0 < 60; k /= 2) {
          for (size_t i = 0; i < h.size() && now() - s0 < 60;) {
            auto hh = h;
            hh.erase(hh.begin() + i, hh.begin() + std::min(hh.size(), i + k));
            if (tryh(hh)) h = hh; else i += k;
          }
          if (k == 1) break;
        }
        int hits = 0;
        for (int i = 0; i < 3; i++) hits += tryh(h);
        if (hits == 3) { ok = true; base = v; write_replay(path, c, v, &h); }
      }
    }
    if (ok) {
      violations++;
      fprintf(stderr, "[%s] %s: %s\n", prop.id, base.key.c_str(), base.msg.c_str());
      vline = fmt("VIOLATION property=%s replay=%s", prop.id, path.c_str());
      break;  // one is enough
    }
    unrepro++;
    fprintf(stderr, "[%s] not reproducible, not reported: %s %s\n", prop.id, f.r.key.c_str(), f.r.msg.c_str());
  }
  }
  // samples: re-run a few non-trivial cases verbosely
  std::vector<std::string> samples;
  std::set<uint64_t> distinct;
  std::set<uint32_t> seen_sub;
  for (size_t g = 0; g < N; g++) if (hashes[g]) distinct.insert(hashes[g]);
  if (!violations) {
    for (size_t g = N / 3; g < N && samples.size() < 3; g++) {
      if (!hashes[g] || (seen_sub.count(g_cases[g].sub) && seen_sub.size() < prop.subs.size())) continue;
      seen_sub.insert(g_cases[g].sub);
      Result r = try_case(g_cases[g], nullptr, {}, true);
      std::string t = r.trace.substr(0, 1500);
      if (!t.empty()) samples.push_back(fmt("[%s #%llu] ", prop.subs[g_cases[g].sub].name, (unsigned long long)g_cases[g].idx) + t);
    }
  } else samples.push_back(vline + " " + found[0].r.msg.substr(0, 500));
  if (samples.empty()) samples.push_back("(no non-trivial case in this run)");
  FILE* ev = fopen(evidence.c_str(), "w");
  if (ev) {
    fprintf(ev, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", json_str(prop.id).c_str(), thorough ? "thorough" : "quick", (unsigned long long)g_seed, prop.level);
    fprintf(ev, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %llu,\n  \"rule\": %s,\n  \"samples\": [", (unsigned long long)sh->evals, distinct.size(), (unsigned long long)sh->discarded, json_str(prop.rule).c_str());
    for (size_t i = 0; i < samples.size(); i++) fprintf(ev, "%s\n   %s", i ? "," : "", json_str(samples[i]).c_str());
    fprintf(ev, "\n  ],\n  \"labels\": {");
    std::map<std::string, uint64_t> lab;
    for (int i = 0; i < NLABEL && sh->labels[i].name[0]; i++) lab[sh->labels[i].name] += sh->labels[i].n;
    bool first = true;
    for (auto& l : lab) { fprintf(ev, "%s\n   %s: %llu", first ? "" : ",", json_str(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(ev, "\n  },\n  \"unreproduced_failures\": %d,\n  \"cases_lost_to_outside_kills\": %u\n },\n \"assumptions\": [", unrepro, infra);
    for (size_t i = 0; i < prop.assumptions.size(); i++) fprintf(ev, "%s\n  %s", i ? "," : "", json_str(prop.assumptions[i]).c_str());
    fprintf(ev, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now() - t0, violations);
    fclose(ev);
  }
  for (auto& k : g_known) printf("KNOWN-FINDING: property=%s %s (met %llu times in this run)\n", prop.id, k.c_str(), (unsigned long long)known_hits);
  printf("[%s] %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s\n", prop.id, (unsigned long long)sh->evals, distinct.size(), (unsigned long long)sh->discarded, now() - t0);
  if (violations) { printf("%s\n", vline.c_str()); return 1; }
  return 0;
}

}  // namespace pbt

int main(int argc, char** argv) {
  using namespace pbt;
  // generous stack: trees may be deep
  if (!getenv("KVPBT_STACK")) {
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rlim_t want = 1024ull << 20;
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want) {
      rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want) ? want : rl.rlim_max;
      setrlimit(RLIMIT_STACK, &rl);
    }
    setenv("KVPBT_STACK", "1", 1);
    setenv("LC_ALL", "C", 1);
    execv("/proc/self/exe", argv);
  }
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  struct rlimit fsize;  // a file that grows without end is a failure
  getrlimit(RLIMIT_FSIZE, &fsize);
  fsize.rlim_cur = std::min<rlim_t>(fsize.rlim_max, 1ull << 29);
  setrlimit(RLIMIT_FSIZE, &fsize);
  signal(SIGPIPE, SIG_IGN);
  std::string evidence = "/dev/null", replays = ".", known, replay, only;
  uint64_t scale = 100;
  int P = 8;
  const char* s = getenv("VERIF_SEED");
  if (s && *s) g_seed = strtoull(s, nullptr, 10);
  s = getenv("VERIF_TIER");
  if (s && !strcmp(s, "thorough")) thorough = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--evidence") evidence = val();
    else if (a == "--replays") replays = val();
    else if (a == "--known") known = val();
    else if (a == "--replay") replay = val();
    else if (a == "--sub") only = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale") scale = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--jobs") P = atoi(val().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--noshrink") g_noshrink = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n > 0) { exe[n] = 0; g_builddir = std::string(exe).substr(0, std::string(exe).rfind('/')); }
  if (!known.empty()) load_known(known);
  umask(022);
  char t1[] = "/dev/shm/kvpbt.XXXXXX", t2[] = "/tmp/kvpbt.XXXXXX";
  char* d = mkdtemp(t1);
  if (!d) d = mkdtemp(t2);
  if (!d) { perror("mkdtemp"); return 2; }
  g_root = d;
  chmod(d, 0755);
  int rc = replay.empty() ? run_all(evidence, replays, scale, only, P) : do_replay(replay);
  rmtree(g_root);
  fflush(stdout);
  return rc;
}
