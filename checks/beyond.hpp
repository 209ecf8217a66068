// Runs src/big.c, which handles trees around and beyond 4 GiB without AddressSanitizer.
#pragma once
#include <poll.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

// false: not enough memory, room or time to say; fails if the property is broken
static bool run_big(std::vector<std::string> args) {
  std::string exe = builddir() + "/big", of = scratch() + "/out", tmp = builddir() + "/big.tmp";
  int lk = open((builddir() + "/big.lock").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
  for (int i = 0; lk < 0 || flock(lk, LOCK_EX | LOCK_NB); i++) {  // one at a time
    if (lk < 0 || i >= 60) { if (lk >= 0) close(lk); return false; }
    poll(nullptr, 0, 500);
  }
  unlink(tmp.c_str());
  if (args[0] == "file") args.push_back(tmp);
  std::vector<char*> av{(char*)"big"};
  for (auto& a : args) av.push_back((char*)a.c_str());
  av.push_back(nullptr);
  int fd = open(of.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  pid_t p = vfork();
  if (p == 0) {
    dup2(fd, 1);
    execv(exe.c_str(), av.data());
    _exit(77);
  }
  close(fd);
  int st = 0;
  for (int i = 0; p > 0 && waitpid(p, &st, WNOHANG) == 0; i++) {
    if (i >= 1000) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    poll(nullptr, 0, 100);
  }
  unlink(tmp.c_str());
  close(lk);
  if (p < 0 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 77)) return false;
  std::string out = slurp(of);
  REQUIRE(!WIFSIGNALED(st), "killed by signal %d", WTERMSIG(st));
  REQUIRE(WEXITSTATUS(st) == 0, "%s", out.empty() ? "the process exited" : out.substr(0, 300).c_str());
  return true;
}
