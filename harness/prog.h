// The common shape of programs: (prog (setup op..) (threads (op..)..) (bodies (k op..)..)
// (throws k..) (post op..)); an op is (name p a b).  A driver defines drv::op.
#pragma once
#include "drv.h"

namespace drv {
void op(const Sx &o);  // performs one operation and records it

// bodies of callbacks; plain arrays, so that the driver's own bookkeeping cannot race
inline const Sx *bodies[512];
inline bool throws_[512];
inline int times[512], bodyLimit = 1000;  // a body's operations are performed this many times at most
inline int A(const Sx &o, size_t i) { return i < o.size() ? o[i].i() : 0; }

inline void runOps(const Sx &l, size_t from) {
  for (size_t i = from; i < l.size(); ++i) op(l[i]);
}
// a callback: records its begin and end and performs its body's operations between
inline void callback(const char *name, int p, int a, int b) {
  ev("begin", tid(), name, p, a, b);
  if (a >= 0 && a < 512 && bodies[a] && times[a]++ < bodyLimit) runOps(*bodies[a], 1);
  bool th = a >= 0 && a < 512 && throws_[a];
  ev("end", tid(), name, p, a, b, th ? "throw" : "");
  if (th) throw 42;
}

inline void settle(unsigned long long ms = 1000) {
  vs::quiesce();
  vs::advance(ms * 1000000ull);
  ev("quiet", 0, "");
}

inline Sx *parsed;  // the whole program; lives until the end
inline const Sx *section(const char *n) {
  for (auto &x : parsed->l)
    if (!x.atom && !x.l.empty() && x.op() == n) return &x;
  return nullptr;
}
inline void runProgram(const std::string &text, unsigned long long settleMs = 1000,
                       std::function<void()> atEnd = {}) {
  if (!parsed) parsed = new Sx(vs::parseSx(text));
  if (auto b = section("bodies"))
    for (size_t i = 1; i < b->size(); ++i) bodies[(*b)[i][0].i()] = &(*b)[i];
  if (auto b = section("throws"))
    for (size_t i = 1; i < b->size(); ++i) throws_[(*b)[i].i()] = true;
  if (auto x = section("setup")) runOps(*x, 1);
  auto *threads = section("threads");
  size_t n = threads ? threads->size() - 1 : 0;
  static std::vector<std::thread> th;
  for (size_t i = 1; i <= n; ++i)
    th.emplace_back([threads, i] {
      runOps((*threads)[i], 0);
      ev("exit", tid(), "");
    });
  settle(settleMs);
  if (auto x = section("post"))
    for (size_t i = 1; i < x->size(); ++i) {
      op((*x)[i]);
      settle(settleMs);
    }
  if (atEnd) atEnd();
  vs::finish("ok");
}
}  // namespace drv
