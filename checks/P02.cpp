// The print tool shows a file's tree and fails cleanly otherwise.
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "capture.hpp"

extern "C" const char* __asan_default_options();
struct Run { int status; std::string out; };
static Run tool(const std::vector<std::string>& args, bool nobody = false) {
  std::string of = scratch() + "/out", exe = builddir() + "/kvtree_print";
  std::vector<char*> av;
  av.push_back((char*)"kvtree_print");
  for (auto& a : args) av.push_back((char*)a.c_str());
  av.push_back(nullptr);
  int fd = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  int ex = open(exe.c_str(), O_PATH | O_CLOEXEC);
  std::string cwd = scratch();
  pid_t p = vfork();
  if (p == 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    if (nobody) {  // the system calls themselves: memory is shared with the parent
      if (chdir(cwd.c_str()) || syscall(SYS_setgroups, 0, nullptr) || syscall(SYS_setgid, 65534) || syscall(SYS_setuid, 65534)) _exit(126);
      fexecve(ex, av.data(), environ);
      _exit(126);
    }
    execv(exe.c_str(), av.data());
    _exit(127);
  }
  close(fd);
  close(ex);
  int st = 0;
  waitpid(p, &st, 0);
  Run r{st, slurp(of)};
  if (nobody && WIFEXITED(st) && WEXITSTATUS(st) == 126) throw Discard();
  REQUIRE(!WIFSIGNALED(st), "the tool was killed by signal %d: %s", WTERMSIG(st), r.out.substr(0, 300).c_str());
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) <= 1, "the tool exits with %d: %s", WEXITSTATUS(st), r.out.substr(0, 1500).c_str());
  r.status = WEXITSTATUS(st);
  return r;
}
// tree from indented lines; keys without newline and leading space
static void parse(const std::string& text, T* root) {
  std::vector<T*> stack{root};
  for (size_t at = 0; at < text.size();) {
    size_t e = text.find('\n', at);
    REQUIRE(e != std::string::npos, "the last line is not ended");
    std::string l = text.substr(at, e - at);
    at = e + 1;
    size_t sp = 0;
    while (sp < l.size() && l[sp] == ' ') sp++;
    REQUIRE(sp % 2 == 0 && sp >= 2 && sp / 2 <= stack.size(), "line %s has an impossible indent", quote(l).c_str());
    stack.resize(sp / 2);
    std::string k = l.substr(sp);
    REQUIRE(!stack.back()->has(k), "key %s printed twice", quote(k).c_str());
    T* n = stack.back()->sub(k);
    stack.push_back(n);
  }
}
static void plain(std::string& k) {
  for (auto& c : k) if (c == '\n' || c == ' ' || c == '=') c = '_';
  if (k.empty()) k = "e";
}
static TP plain_tree(const T* t) {
  TP r(new T);
  for (auto& p : t->kids) { std::string k = p.first; plain(k); TP sub = p.second ? plain_tree(p.second) : TP(new T); if (!r->has(k)) r->put(k, sub.release()); }
  return r;
}
static std::string file_name(Src& s) {
  static const std::vector<std::string> n = {"f", "tree", "a b", "-m", "--help", "x.kvtree", "%s%n", "-"};
  return s.pick(n);
}
static void good(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = s.chance(1, 8) ? 200 : 25;
  c.big = 1000000; c.bigdeep = 1200;
  if (s.chance(1, 15)) c.maxdeep = 700;
  if (s.chance(1, 15)) c.maxwide = 2000;
  bool anykey = s.chance(1, 2);
  TP t = gen_tree(s, c);
  if (!anykey) t = plain_tree(t.get());
  std::string name = file_name(s), p = scratch() + "/" + name;
  bool rel = s.chance(1, 3) && name[0] != '-';
  Rng o(s.seed32());
  H h(build(t.get(), &o));
  if (s.chance(1, 3)) spew(p, encode_file(t.get(), s.chance(1, 2), &o));
  else REQUIRE(K->kvtree_write_file(p.c_str(), h) == KVTREE_SUCCESS, "write fails");
  if (rel) { if (chdir(scratch().c_str())) throw Discard(); }
  std::string before = slurp(p);
  int mode = (int)s.draw(4);
  std::vector<std::string> a;
  switch (mode) {
    case 0: break;
    case 1: a = {"-m", "tree"}; break;
    case 2: a = {s.chance(1, 2) ? "--mode" : "-m", "keyval"}; break;
    case 3: a = {"--mode=keyval"}; break;
    default: a = {"-mtree"}; break;
  }
  std::string arg = rel ? name : p;
  if (s.chance(1, 4)) { a.push_back("--"); a.push_back(arg); }
  else if (s.chance(1, 3)) a.insert(a.begin(), arg);
  else a.push_back(arg);
  std::string line;
  for (auto& q : a) line += " " + quote(q);
  x.note("kvtree_print%s: %s", line.c_str(), show(t.get()).c_str());
  Run r = tool(a);
  bool keyval = mode == 2 || mode == 3;
  REQUIRE(r.status == 0, "exit status %d: %s", r.status, r.out.substr(0, 300).c_str());
  REQUIRE(slurp(p) == before, "the file changed");
  // the same tree as read here, in its order
  H g(K->kvtree_new());
  REQUIRE(K->kvtree_read_file(p.c_str(), g) == KVTREE_SUCCESS, "read fails");
  require_equal(g, t.get(), "read back");
  if (!anykey && !keyval) {
    T got;
    parse(r.out, &got);
    REQUIRE(equal(&got, t.get()), "the printed tree differs: %s", show(&got).c_str());
    x.label("parsed back");
  }
  std::vector<Line> want;
  expected_lines(g, 0, keyval, want);
  if (anykey || keyval) match_lines(r.out, want, "tool");
  x.label(keyval ? "key/value mode" : "tree mode");
  unlink(p.c_str());
  if (!t->kids.empty()) x.nontrivial();
}
static void bad(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 12;
  TP t = gen_tree(s, c);
  std::string p = scratch() + "/f", q = scratch() + "/g";
  spew(p, encode_file(t.get()));
  spew(q, encode_file(t.get()));
  std::string b = slurp(p), want_p = b;
  std::vector<std::string> a;
  bool help = false, harmless = false;
  int kind = (int)s.draw(9);
  switch (kind) {
    case 0: a = {scratch() + "/missing"}; x.label("missing file"); break;
    case 1: a = {scratch()}; x.label("directory"); break;
    case 2: {  // damaged
      switch (s.draw(3)) {
        case 0: b.resize(s.draw(b.size() - 1)); break;
        case 1: { size_t i = s.draw(b.size() - 1); b[i] ^= 1 << s.draw(7); break; }
        case 2: { Rng r(s.seed32()); b.resize(s.draw(3000)); for (auto& ch : b) ch = (char)r.next(); break; }
        default: {  // malformed body, checksum right
          std::string body;
          encode_body(t.get(), body);
          body[s.draw(body.size() - 1)] ^= 1 << s.draw(7);
          if (s.chance(1, 3)) body.resize(s.draw(body.size()));
          b = frame(body, s.chance(1, 2));
        }
      }
      spew(p, b);
      want_p = b;
      a = {p};
      if (s.chance(1, 2)) a = {"-m", "keyval", p};
      T tmp;
      if (decode_file(b, &tmp) >= 0) harmless = true;
      x.label("damaged file");
      break;
    }
    case 3: a = {"-z", p}; x.label("unknown option"); break;
    case 4: a = {"--nonsense", p}; x.label("unknown option"); break;
    case 5: { std::string m = gen_key(s); if (m == "tree" || m == "keyval" || m.size() > 1000) m += "x"; if (s.chance(1, 3)) { static const std::vector<std::string> near = {"Tree", "tre", "tree ", "keyva", "keyvalue", "", "KEYVAL", "0"}; m = s.pick(near); } if (m.size() > 1000) m.resize(1000); a = {"-m", m, p}; x.label("unknown mode"); break; }
    case 6: if (s.chance(1, 2)) a = {"-m", "tree"}; x.label("no file"); break;
    case 7: a = {p, q}; if (s.chance(1, 3)) a.push_back(p); x.label("too many files"); break;
    case 8: help = true; a = {s.chance(1, 2) ? "-h" : "--help"}; if (s.chance(1, 2)) a.push_back(p); x.label("help"); break;
    default: a = {p, "-m"}; x.label("option without its argument"); break;
  }
  std::string line;
  for (auto& w : a) line += " " + quote(w);
  x.note("kvtree_print%s", line.c_str());
  Run r = tool(a);
  REQUIRE(slurp(p) == want_p && slurp(q) == encode_file(t.get()), "a file changed");
  REQUIRE(!exists(scratch() + "/missing"), "the tool created a file");
  unlink(p.c_str());
  unlink(q.c_str());
  if (harmless) return;
  if (kind == 2) {
    // a body that ends early may still be shown
    if (r.status == 0) { H g(K->kvtree_new()); spew(p, b); int rc = K->kvtree_read_file(p.c_str(), g); unlink(p.c_str()); REQUIRE(rc == KVTREE_SUCCESS, "exit status 0 for a file that cannot be read"); return; }
  }
  REQUIRE(r.status == (help ? 0 : 1), "exit status %d: %s", r.status, r.out.substr(0, 300).c_str());
  REQUIRE(!r.out.empty(), "nothing is printed");
  if (help) {
    std::string low;
    for (char ch : r.out) low += (char)tolower((unsigned char)ch);
    REQUIRE(low.find("usage") != std::string::npos, "no usage shown: %s", r.out.substr(0, 300).c_str());
  }
  x.nontrivial();
}
// run by a user who may not read the file
static void denied(Src& s, Ctx& x) {
  TreeCfg c;
  c.maxnodes = 12;
  TP t = gen_tree(s, c);
  std::string p = scratch() + "/f";
  chmod(scratch().c_str(), 0755);
  spew(p, encode_file(t.get()));
  static const std::vector<mode_t> modes = {0, 0200, 0700, 0600, 0640, 0110, 0111, 0222, 0604, 0644, 0444};
  mode_t m = s.pick(modes);
  chmod(p.c_str(), m);
  std::vector<std::string> a = {"f"};
  if (s.chance(1, 3)) a.insert(a.begin(), {"-m", s.chance(1, 2) ? "tree" : "keyval"});
  x.note("a file of mode %04o, run by another user", (unsigned)m);
  Run r = tool(a, true);
  if (m & 4) { REQUIRE(r.status == 0, "exit status %d for a file that everybody may read: %s", r.status, r.out.substr(0, 300).c_str()); x.label("readable"); }
  else {
    REQUIRE(r.status == 1, "exit status %d for a file that may not be read: %s", r.status, r.out.substr(0, 300).c_str());
    REQUIRE(!r.out.empty(), "nothing is printed");
    x.label("not readable");
    x.nontrivial();
  }
  unlink(p.c_str());
}

Prop pbt::prop = {
  "P02", "exploration",
  "case = the real tool (built with ASan) run on a file written by the library or an independent encoder, any option spelling and order, output compared with "
  "the prescribed lines or parsed back; or run on missing, damaged or malformed files, directories, bad options, modes and file counts, or for help, or by another user on files of any mode; "
  "non-trivial: a non-empty tree, or any failing or help case",
  {{"good", good, 12000, 120000}, {"bad", bad, 12000, 120000}, {"denied", denied, 300, 3000}},
  {"the user 65534 stands for all users who may not read a file"},
  []() { setenv("ASAN_OPTIONS", __asan_default_options(), 1); },
};
