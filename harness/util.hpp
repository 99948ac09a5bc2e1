// Shared helpers of the conformance driver: argument map, JSON writer, hex.
#pragma once
#include <array>
#include <dirent.h>
#include <malloc.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

typedef std::string Bytes;

inline std::string hexs(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string o;
  o.reserve(n * 2);
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    o += d[b[i] >> 4];
    o += d[b[i] & 15];
  }
  return o;
}
inline std::string hexs(const Bytes &b) { return hexs(b.data(), b.size()); }
inline Bytes unhex(const std::string &s) {
  Bytes o;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    o += (char)(v(s[i]) * 16 + v(s[i + 1]));
  return o;
}

// One command: op name and an ordered multimap key -> bytes.
struct Args {
  std::string op;
  std::vector<std::pair<std::string, Bytes>> kv;
  bool has(const std::string &k) const {
    for (auto &p : kv)
      if (p.first == k)
        return true;
    return false;
  }
  Bytes get(const std::string &k, const Bytes &dflt = "") const {
    for (auto &p : kv)
      if (p.first == k)
        return p.second;
    return dflt;
  }
  long num(const std::string &k, long dflt = 0) const {
    return has(k) ? strtol(get(k).c_str(), nullptr, 10) : dflt;
  }
  std::vector<Bytes> all(const std::string &k) const {
    std::vector<Bytes> o;
    for (auto &p : kv)
      if (p.first == k)
        o.push_back(p.second);
    return o;
  }
};

// What the process holds: bytes of memory allocated, file descriptors open, threads
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
inline size_t entries(const char *dir) {
  size_t n = 0;
  if (DIR *d = opendir(dir)) {
    while (readdir(d))
      n++;
    closedir(d);
  }
  return n;
}
inline std::array<size_t, 3> held() {
  return {__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes()
                                                  : mallinfo2().uordblks,
          entries("/proc/self/fd"), entries("/proc/self/task")};
}

// Minimal JSON object/array builder.
struct J {
  std::string s;
  bool first = true;
  char close;
  explicit J(char open = '{') : s(1, open), close(open == '{' ? '}' : ']') {}
  void sep() {
    if (!first)
      s += ',';
    first = false;
  }
  J &raw(const std::string &k, const std::string &v) {
    sep();
    s += '"' + k + "\":" + v;
    return *this;
  }
  J &hex(const std::string &k, const Bytes &v) {
    return raw(k, '"' + hexs(v) + '"');
  }
  J &str(const std::string &k, const std::string &v) {
    return raw(k, '"' + v + '"');
  }
  J &num(const std::string &k, long long v) { return raw(k, std::to_string(v)); }
  J &boolean(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
  J &null(const std::string &k) { return raw(k, "null"); }
  J &item(const std::string &v) {
    sep();
    s += v;
    return *this;
  }
  J &itemhex(const Bytes &v) { return item('"' + hexs(v) + '"'); }
  std::string done() const { return s + close; }
};

typedef std::function<std::string(const Args &)> OpFn;
std::map<std::string, OpFn> &ops();
struct Reg {
  Reg(const char *n, OpFn f) { ops()[n] = f; }
};
#define OP(name) \
  static std::string op_##name(const Args &a); \
  static Reg reg_##name(#name, op_##name); \
  static std::string op_##name(const Args &a)

// Progress marker a crashing child leaves behind (shared memory).
void progress(int step);
inline std::string heldj(const std::vector<std::array<size_t, 3>> &h) {
  J o('[');
  for (auto &x : h) {
    J y('[');
    for (size_t v : x)
      y.item(std::to_string(v));
    o.item(y.done());
  }
  return o.done();
}
