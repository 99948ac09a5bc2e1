// Threads run one at a time, by a given plan. A thread can be stopped at its points:
// when it opens a file, asks for the time, uses a libc function with hidden state, asks
// for or takes a decision, takes a lock, writes a piece of the log, or stores to
// memory that others can see (or loads what was so stored). Built without memory
// instrumentation only the named points exist.
#include "sched.hpp"
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <string.h>

namespace sched {
typedef std::unique_lock<std::mutex> L;
static std::mutex m;
static std::condition_variable cv;
static bool on = false;
static int turn = -1, n = 0;
static long beat = 0;
static std::vector<std::pair<int, long>> plan; // thread, points it may pass
static size_t pos = 0;
static long left = 0;
static std::vector<bool> done;
static std::vector<long> points;
static std::vector<std::string> kinds;
static std::vector<bool> blocked;
static thread_local int me = -1;
static thread_local bool inside = false;

static int lowest(int not_me, bool any = false) {
  for (int i = 0; i < n; i++)
    if (!done[i] && i != not_me && (any || !blocked[i]))
      return i;
  return -1;
}
// the plan says who is next; when it ends, the lowest that is not done
static void advance() {
  while (pos < plan.size()) {
    auto &p = plan[pos];
    pos++;
    if (p.first < n && !done[p.first]) {
      turn = p.first;
      left = p.second;
      return;
    }
  }
  left = -1; // no limit
  if (turn < 0 || turn >= n || done[turn]) {
    turn = lowest(-1);
    if (turn < 0)
      turn = lowest(-1, true);
  }
}
static void wait_turn(L &l) {
  cv.wait(l, [] { return turn == me || !on; });
}
// noise of the harness itself does not count
Quiet::Quiet() : was(inside) { inside = true; }
Quiet::~Quiet() { inside = was; }
bool active() { return on && me >= 0 && !inside; }
void point(const char *kind) {
  if (!active())
    return;
  Quiet q;
  L l(m);
  beat++;
  wait_turn(l);
  if (left == 0) {
    int was = turn;
    advance();
    if (turn != was) {
      cv.notify_all();
      wait_turn(l);
    }
  }
  if (left > 0)
    left--;
  points[me]++;
  if (kinds[me].size() < 60000) {
    if (!kinds[me].empty())
      kinds[me] += ' ';
    kinds[me] += kind;
  }
}
// it can't go on before another does
static void give_way() {
  Quiet q;
  L l(m);
  beat++;
  blocked[me] = true;
  if (turn == me) {
    int o = lowest(me);
    if (o < 0)
      o = lowest(me, true);
    if (o >= 0) {
      turn = o;
      left = -1;
      cv.notify_all();
    }
  }
  if (turn != me)
    cv.wait_for(l, std::chrono::milliseconds(20), [] { return turn == me || !on; });
}
static void got_it() {
  Quiet q;
  L l(m);
  for (size_t i = 0; i < blocked.size(); i++)
    blocked[i] = false;
}
void setup(int threads, const std::string &text) {
  L l(m);
  n = threads;
  on = true;
  turn = -1;
  pos = 0;
  plan.clear();
  done.assign(n, false);
  blocked.assign(n, false);
  points.assign(n, 0);
  kinds.assign(n, "");
  const char *p = text.c_str();
  while (*p) { // "thread:points thread:points"
    char *e;
    int t = (int)strtol(p, &e, 10);
    if (*e != ':')
      break;
    long k = strtol(e + 1, &e, 10);
    plan.push_back({t, k});
    p = *e ? e + 1 : e;
  }
  advance();
}
void enter(int id) {
  me = id;
  Quiet q;
  L l(m);
  wait_turn(l);
}
void leave() {
  Quiet q;
  L l(m);
  beat++;
  done[me] = true;
  int id = me;
  me = -1;
  if (turn == id) {
    advance();
    cv.notify_all();
  }
}
void watch() { // a thread that waits for something unknown is passed by
  L l(m);
  long last = -1;
  for (;;) {
    if (lowest(-1, true) < 0)
      return;
    if (cv.wait_for(l, std::chrono::milliseconds(500), [] { return lowest(-1, true) < 0; }))
      return;
    if (beat == last && turn >= 0) {
      int t = turn;
      for (int k = 1; k <= n; k++)
        if (!done[(t + k) % n]) {
          turn = (t + k) % n;
          left = -1;
          break;
        }
      cv.notify_all();
    }
    last = beat;
  }
}
void stop() {
  L l(m);
  on = false;
  cv.notify_all();
}
long count(int id) { return points[id]; }
std::string kind(int id) { return kinds[id]; }

// ---- memory that others can see
static const size_t N = 1 << 17;
static uintptr_t shared[N];  // granules of the heap from before the threads
static uintptr_t stored[N];  // granules that were stored to since
static bool recording = false;
static bool find(uintptr_t *t, uintptr_t g) {
  for (size_t i = (g * 0x9E3779B97F4A7C15ull) >> 47, k = 0; k < 64; i = (i + 1) % N, k++) {
    if (t[i] == g)
      return true;
    if (!t[i])
      return false;
  }
  return false;
}
static void put(uintptr_t *t, uintptr_t g) {
  for (size_t i = (g * 0x9E3779B97F4A7C15ull) >> 47, k = 0; k < 64; i = (i + 1) % N, k++) {
    if (t[i] == g)
      return;
    if (!t[i]) {
      t[i] = g;
      return;
    }
  }
}
void record(bool yes) { recording = yes; }
void alloc(const volatile void *p, size_t size) {
  if (recording)
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + (size ? size - 1 : 0)) >> 3; g++)
      put(shared, g);
}
extern "C" char __data_start, _end;
void access(const void *p, int size, bool store) {
  if (!on || me < 0 || inside)
    return;
  uintptr_t a = (uintptr_t)p, g = a >> 3;
  bool stat = (const char *)p >= &__data_start && (const char *)p < &_end;
  if (!stat && !find(shared, g))
    return;
  if (store)
    put(stored, g);
  else if (!find(stored, g))
    return;
  point(store ? "store" : "load");
}
} // namespace sched

#if defined(__clang__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void h_malloc(const volatile void *p, size_t s) { sched::alloc(p, s); }
static void h_free(const volatile void *) {}
static int hooked = __sanitizer_install_malloc_and_free_hooks(h_malloc, h_free);
#endif
#define COV(n)                                                                 \
  extern "C" void __sanitizer_cov_load##n(void *p) {                           \
    sched::access(p, n, false);                                                \
  }                                                                            \
  extern "C" void __sanitizer_cov_store##n(void *p) {                          \
    sched::access(p, n, true);                                                 \
  }
COV(1) COV(2) COV(4) COV(8) COV(16)

// ---- named points
#define WRAP(ret, name, params, args)                                          \
  extern "C" ret __real_##name params;                                         \
  extern "C" ret __wrap_##name params {                                        \
    sched::point(#name);                                                       \
    ret r = __real_##name args;                                                \
    sched::point(#name "'");                                                   \
    return r;                                                                  \
  }
WRAP(struct tm *, gmtime, (const time_t *t), (t))
WRAP(struct tm *, localtime, (const time_t *t), (t))
WRAP(char *, asctime, (const struct tm *t), (t))
WRAP(char *, ctime, (const time_t *t), (t))
WRAP(char *, strtok, (char *s, const char *d), (s, d))
WRAP(int, rand, (void), ())
WRAP(long, random, (void), ())
WRAP(char *, strerror, (int e), (e))
WRAP(char *, setlocale, (int c, const char *l), (c, l))
WRAP(int, setenv, (const char *a, const char *b, int o), (a, b, o))
WRAP(int, rename, (const char *a, const char *b), (a, b))
WRAP(int, fflush, (FILE * f), (f))
WRAP(ssize_t, write, (int f, const void *p, size_t n), (f, p, n))
WRAP(ssize_t, read, (int f, void *p, size_t n), (f, p, n))

#define LOCK(name, try, type, busy)                                            \
  extern "C" int __real_##name(type *);                                        \
  extern "C" int __wrap_##name(type *x) {                                      \
    if (!sched::active())                                                      \
      return __real_##name(x);                                                 \
    sched::point(#name);                                                       \
    int r;                                                                     \
    while ((r = try(x)) == 16 /* EBUSY */)                                     \
      sched::give_way();                                                       \
    sched::got_it();                                                           \
    return r;                                                                  \
  }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t, 16)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t, 16)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t, 16)

// ---- files: pieces written to the log are points
struct Cookie {
  int fd;
};
static ssize_t c_read(void *c, char *b, size_t n) { return read(((Cookie *)c)->fd, b, n); }
static ssize_t c_write(void *c, const char *b, size_t n) {
  sched::point("piece");
  int was = ((Cookie *)c)->fd;
  sched::Quiet q;
  return write(was, b, n);
}
static int c_seek(void *c, off64_t *o, int w) {
  off64_t r = lseek64(((Cookie *)c)->fd, *o, w);
  if (r < 0)
    return -1;
  *o = r;
  return 0;
}
static int c_close(void *c) {
  int r = close(((Cookie *)c)->fd);
  delete (Cookie *)c;
  return r;
}
FILE *sched::open_pieces(const char *p, const char *mode) {
  bool plus = strchr(mode, '+');
  int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY)
                          : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
  int fd = open(p, fl, 0644);
  if (fd < 0)
    return nullptr;
  FILE *f = fopencookie(new Cookie{fd}, mode, {c_read, c_write, c_seek, c_close});
  if (f) // as large as that of a plain file
    setvbuf(f, nullptr, _IOFBF, 4096);
  return f;
}
