// The real program and HTTP layer, except that the audit log goes elsewhere.
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" {
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
  const char *l = getenv("BRSKI_LOG");
  if (p && !strncmp(p, "/var/log/", 9))
    p = l ? l : "/dev/null";
  return __real_fopen(p, m);
}
}
