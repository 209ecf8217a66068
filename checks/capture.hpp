// What the library prints on stdout.
#pragma once
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include "ops.hpp"
inline std::string capture(const std::function<void()>& f) {
  fflush(stdout);
  int save = dup(1), m = memfd_create("out", 0);
  dup2(m, 1);
  struct R { int save, m; bool done = false; void end() { if (done) return; done = true; fflush(stdout); dup2(save, 1); close(save); } ~R() { end(); close(m); } } r{save, m};
  f();
  r.end();
  std::string o;
  off_t n = lseek(m, 0, SEEK_END);
  o.resize(n);
  size_t at = 0;
  while (at < (size_t)n) { ssize_t k = pread(m, &o[at], n - at, at); if (k <= 0) break; at += k; }
  return o;
}
struct Line {
  size_t indent;
  std::string text;
  bool optional;
};
// the lines of a tree in its iteration order
inline void expected_lines(const kvtree* h, size_t indent, bool keyval, std::vector<Line>& out) {
  if (!h) { out.push_back({indent, "NULL LIST", true}); return; }
  for (kvtree_elem* e = K->kvtree_elem_first(h); e; e = K->kvtree_elem_next(e)) {
    std::string k = K->kvtree_elem_key(e);
    kvtree* sub = K->kvtree_elem_hash(e);
    if (keyval && sub && K->kvtree_size(sub) == 1) {
      kvtree_elem* v = K->kvtree_elem_first(sub);
      if (K->kvtree_size(K->kvtree_elem_hash(v)) == 0) { out.push_back({indent + 2, k + " = " + K->kvtree_elem_key(v), false}); continue; }
    }
    out.push_back({indent + 2, k, false});
    expected_lines(sub, indent + 2, keyval, out);
  }
}
// compares the text with the lines; a line for a missing subtree may be left out
inline void match_lines(const std::string& got, const std::vector<Line>& want, const char* what) {
  size_t at = 0, n = 0;
  for (auto& l : want) {
    std::string w(l.indent, ' ');
    w += l.text + "\n";
    if (!got.compare(at, w.size(), w)) { at += w.size(); n++; continue; }
    if (l.optional) continue;
    size_t e = got.find('\n', at);
    FAILK("output", "%s: line %zu is %s, expected %s (%zu lines in total)", what, n, at >= got.size() ? "missing" : quote(got.substr(at, e == std::string::npos ? e : e - at)).c_str(), quote(w.substr(0, w.size() - 1)).c_str(), want.size());
  }
  REQUIRE(at == got.size(), "%s: something is printed after the last of %zu lines: %s", what, want.size(), quote(got.substr(at)).c_str());
}
