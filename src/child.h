// A child process that executes scenarios: one JSON line in, one JSON line out (on descriptor 3).
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <nlohmann/json.hpp>
#include <string>
#include <vector>

#include "pbt.h"

class Child {
  std::vector<std::string> cmd;
  pid_t pid = -1;
  pid_t owner = -1;
  int in = -1, out = -1;
  std::string rest;
  size_t asked = 0;

  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("no pipe");
    owner = getpid();
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (getppid() != owner) _exit(1);
      struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY};
      setrlimit(RLIMIT_CPU, &r);
      signal(SIGXCPU, SIG_DFL);
      signal(SIGALRM, SIG_DFL);
      dup2(a[0], 0);
      int null = open("/dev/null", O_WRONLY);
      dup2(null, 1);
      if (!getenv("PBT_STDERR")) dup2(null, 2);
      if (b[1] == 3)
        fcntl(3, F_SETFD, 0);
      else
        dup2(b[1], 3);
      std::vector<char*> av;
      for (auto& x : cmd) av.push_back(const_cast<char*>(x.c_str()));
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    rest.clear();
    asked = 0;
  }
  void stop() {
    if (pid > 0 && owner == getpid()) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
    if (in >= 0) close(in);
    if (out >= 0) close(out);
    pid = in = out = -1;
  }

 public:
  explicit Child(std::vector<std::string> c) : cmd(std::move(c)) {}
  ~Child() { stop(); }

  nlohmann::json ask(const nlohmann::json& what, pbt::Ctx& c, int seconds = 20) {
    if (pid > 0 && (owner != getpid() || asked > 5000)) stop();
    if (pid <= 0) start();
    asked++;
    signal(SIGPIPE, SIG_IGN);
    std::string line = what.dump() + "\n";
    size_t at = 0;
    size_t nl;
    int waited = 0, limit = asked == 1 ? seconds + 40 : seconds;
    while ((nl = rest.find('\n')) == std::string::npos) {
      struct pollfd p[2] = {{out, POLLIN, 0}, {in, (short)(at < line.size() ? POLLOUT : 0), 0}};
      int r = poll(p, at < line.size() ? 2 : 1, 1000);
      if (r == 0 && ++waited >= limit) {
        stop();
        c.fail("no answer within " + std::to_string(limit) + " s");
      }
      if (r < 0 && errno != EINTR) break;
      if (at < line.size() && (p[1].revents & (POLLOUT | POLLERR))) {
        ssize_t n = write(in, line.data() + at, std::min<size_t>(line.size() - at, 4096));
        if (n < 0 && errno != EINTR) at = line.size();
        if (n > 0) at += n;
      }
      if (p[0].revents & (POLLIN | POLLHUP)) {
        char buf[65536];
        ssize_t n = read(out, buf, sizeof buf);
        if (n <= 0) {
          int st = 0;
          waitpid(pid, &st, 0);
          pid = -1;
          stop();
          c.fail(WIFSIGNALED(st) ? "the process ended with signal " + std::to_string(WTERMSIG(st))
                                 : "the process ended with code " + std::to_string(WEXITSTATUS(st)));
        }
        rest.append(buf, n);
      }
    }
    std::string answer = rest.substr(0, nl);
    rest.erase(0, nl + 1);
    return nlohmann::json::parse(answer);
  }
};
