// Conformance driver: one command per input line, each run in a forked child so
// that a crash, an abort of the address sanitizer or a hang of the code under
// test is an observation ("crash") and not the end of the run.
#include "util.hpp"
#include <fcntl.h>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "utils/log.h"
}

std::map<std::string, OpFn> &ops() {
  static std::map<std::string, OpFn> m;
  return m;
}
static volatile int *g_step;
void progress(int step) { *g_step = step; }

static std::string tail(const std::string &path) {
  std::string o;
  FILE *f = fopen(path.c_str(), "rb");
  if (!f)
    return o;
  fseek(f, 0, SEEK_END);
  long n = ftell(f), from = n > 6000 ? n - 6000 : 0;
  fseek(f, from, SEEK_SET);
  o.resize(n - from);
  size_t r = fread(&o[0], 1, o.size(), f);
  o.resize(r);
  fclose(f);
  return o;
}

static Args parse_line(const std::string &line) {
  Args a;
  size_t pos = 0;
  bool firsttok = true;
  while (pos <= line.size()) {
    size_t t = line.find('\t', pos);
    if (t == std::string::npos)
      t = line.size();
    std::string tok = line.substr(pos, t - pos);
    pos = t + 1;
    if (firsttok) {
      a.op = tok;
      firsttok = false;
    } else if (!tok.empty()) {
      size_t e = tok.find('=');
      a.kv.push_back({tok.substr(0, e), unhex(tok.substr(e + 1))});
    }
  }
  return a;
}
// several commands in one process: x* are command lines
OP(batch) {
  J j('[');
  int n = 0;
  for (auto &l : a.all("x")) {
    progress(n++);
    Args b = parse_line(l);
    auto it = ops().find(b.op);
    j.item(it == ops().end() ? "null" : it->second(b));
  }
  return j.done();
}
// one command many times over in one process, and what is held after each
OP(many) {
  Args b = parse_line(a.get("x"));
  OpFn fn = ops().at(b.op);
  std::vector<std::array<size_t, 3>> h((size_t)a.num("rounds", 1));
  std::string first;
  for (size_t r = 0; r < h.size(); r++) {
    progress((int)r);
    std::string o = fn(b);
    if (r == 0)
      first = o;
    std::string().swap(o);
    h[r] = held();
  }
  J j;
  j.raw("held", heldj(h)).raw("first", first.size() < 4000 ? first : "null");
  return j.done();
}

int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  g_step = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string errpath = argc > 1 ? argv[1] : "/dev/null";
  int loglevel = argc > 2 ? atoi(argv[2]) : 1;
  std::string line;
  while (std::getline(std::cin, line)) {
    Args a = parse_line(line);
    auto it = ops().find(a.op);
    if (it == ops().end()) {
      std::cout << "{\"st\":\"noop\"}" << std::endl;
      continue;
    }
    if (a.op.rfind("fx_", 0) == 0) { // no code under test involved
      std::string r = it->second(a);
      std::cout << "{\"st\":\"ok\",\"r\":" << r << "}" << std::endl;
      continue;
    }
    int timeout = (int)a.num("timeout", 30);
    int pfd[2];
    if (pipe(pfd) != 0)
      return 3;
    *g_step = -1;
    pid_t pid = fork();
    if (pid < 0)
      return 3;
    if (pid == 0) {
      close(pfd[0]);
      int fd = open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0);
      dup2(nul, 1);
      log_set_quiet(loglevel == 0);
      std::string r;
      try {
        r = it->second(a);
      } catch (std::exception &e) {
        r = std::string("{\"exception\":\"") + hexs(e.what()) + "\"}";
      }
      size_t off = 0;
      while (off < r.size()) {
        ssize_t w = write(pfd[1], r.data() + off, r.size() - off);
        if (w <= 0)
          _exit(4);
        off += w;
      }
      _exit(0);
    }
    close(pfd[1]);
    std::string out;
    char buf[65536];
    bool hung = false;
    time_t end = time(nullptr) + timeout;
    for (;;) {
      struct pollfd p = {pfd[0], POLLIN, 0};
      int left = (int)(end - time(nullptr));
      if (left <= 0) {
        hung = true;
        break;
      }
      int pr = poll(&p, 1, left * 1000);
      if (pr == 0) {
        hung = true;
        break;
      }
      if (pr < 0)
        continue;
      ssize_t n = read(pfd[0], buf, sizeof buf);
      if (n <= 0)
        break;
      out.append(buf, n);
    }
    if (hung)
      kill(pid, SIGKILL);
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0)
      std::cout << "{\"st\":\"ok\",\"r\":" << out << "}" << std::endl;
    else {
      J j;
      j.str("st", hung ? "hang" : "crash");
      j.num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
      j.num("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      j.num("step", *g_step);
      j.hex("err", tail(errpath));
      std::cout << j.done() << std::endl;
    }
  }
  return 0;
}
