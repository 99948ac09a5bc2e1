// Bridge to the code under test: conversions between driver values and the
// library's own types. Only public headers of /repo/src are used.
#pragma once
#include "util.hpp"
#include <time.h>
extern "C" {
#include "utils/log.h"
#include "utils/os.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
}

// heap copy of exactly n bytes, so that reading past the end is seen
inline uint8_t *heapcopy(const Bytes &b) {
  uint8_t *p = (uint8_t *)malloc(b.size() ? b.size() : 1);
  memcpy(p, b.data(), b.size());
  if (b.empty()) {
    p = (uint8_t *)realloc(p, 1);
  }
  return p;
}
struct BA {
  BinaryArray v;
  bool isnull;
  explicit BA(const Bytes &b, bool null = false) : isnull(null) {
    v.array = null ? nullptr : heapcopy(b);
    v.length = null ? 0 : b.size();
  }
  BA(const Args &a, const char *k) : BA(a.get(k), !a.has(k)) {}
  ~BA() { free(v.array); }
  BinaryArray *p() { return isnull ? nullptr : &v; }
  BA(const BA &) = delete;
};
struct CStr { // NUL-terminated heap string or NULL
  char *p;
  CStr(const Args &a, const char *k) : p(a.has(k) ? strdup(a.get(k).c_str()) : nullptr) {}
  explicit CStr(const Bytes &b) : p(strdup(b.c_str())) {}
  ~CStr() { free(p); }
};
struct Arena { // zero or more (flag, bytes)
  BinaryArrayList *p = nullptr;
  Arena(const Args &a, const char *k, const char *crl = nullptr) {
    std::string none = std::string(k) + "0"; // e.g. certs0=1: empty, not NULL
    if (a.has(k) || a.has(none) || (crl && a.has(crl))) {
      p = init_array_list();
      for (auto &kv : a.kv) {
        bool c = crl && kv.first == crl;
        if (kv.first == k || c) {
          uint8_t *h = heapcopy(kv.second);
          push_array_list(p, h, kv.second.size(),
                          c ? CRYPTO_CERTIFICATE_CRL : CRYPTO_CERTIFICATE_VALID);
          free(h);
        }
      }
    }
  }
  ~Arena() { free_array_list(p); }
};
inline Bytes bytes_of(const BinaryArray *b) {
  return b->array ? Bytes((const char *)b->array, b->length) : Bytes();
}
inline std::string jba(const BinaryArray *b) {
  if (!b || !b->array)
    return "null";
  return '"' + hexs(b->array, b->length) + '"';
}
inline std::string jlist(BinaryArrayList *l) {
  if (!l)
    return "null";
  J a('[');
  BinaryArrayList *el;
  dl_list_for_each(el, &l->list, BinaryArrayList, list) {
    a.itemhex(Bytes((const char *)el->arr, el->length));
  }
  return a.done();
}
inline std::string jtm(const struct tm *t) {
  J a('[');
  int v[6] = {t->tm_year + 1900, t->tm_mon + 1, t->tm_mday,
              t->tm_hour,        t->tm_min,     t->tm_sec};
  for (int x : v)
    a.item(std::to_string(x));
  return a.done();
}
// "Y,M,D,h,m,s"
inline struct tm parse_tm(const Bytes &s) {
  struct tm t;
  memset(&t, 0, sizeof t);
  sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d", &t.tm_year, &t.tm_mon, &t.tm_mday,
         &t.tm_hour, &t.tm_min, &t.tm_sec);
  t.tm_year -= 1900;
  t.tm_mon -= 1;
  return t;
}
std::string jvoucher(Voucher *v);
