// Run something in another process.
#pragma once
#include <string>
#include <sys/wait.h>
#include <unistd.h>

#include "pbt.hpp"

namespace ref {
// Run f in another process with the string it returns
template <typename F>
std::string elsewhere(F&& f) {
  int p[2];
  if (pipe(p)) throw std::runtime_error("pipe");
  const pid_t pid = fork();
  if (pid == 0) {
    const std::string s = f();
    size_t n = 0;
    while (n < s.size()) {
      const ssize_t k = write(p[1], s.data() + n, s.size() - n);
      if (k <= 0) break;
      n += k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) s.append(buf, k);
  close(p[0]);
  int status;
  waitpid(pid, &status, 0);
  if (!WIFEXITED(status) || WEXITSTATUS(status)) throw pbt::Failure{"the other process failed"};
  return s;
}
}  // namespace ref
