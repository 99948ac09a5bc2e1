// Threads of the code under test, run one at a time by a plan (sched.cpp).
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
namespace sched {
struct Quiet {
  bool was;
  Quiet();
  ~Quiet();
};
bool active();
void point(const char *kind);
void setup(int threads, const std::string &plan);
void enter(int id);
void leave();
void watch();
void stop();
long count(int id);
std::string kind(int id);
void record(bool);
void alloc(const volatile void *, size_t);
void access(const void *, int, bool);
FILE *open_pieces(const char *, const char *);
} // namespace sched
