// Shared helpers of the drivers: event records and thread handling.
#pragma once
#include <vsched.h>

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace drv {
using vs::Sx;

inline std::string q(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if ((unsigned char)c < 32) { o += ' '; continue; }
    o += c;
  }
  return o + "\"";
}
inline int tid() { return vs::self(); }
inline long ms() { return (long)(vs::now() / 1000000); }

// {"k":kind,"t":thread,"op":op,"p":p,"a":a,"b":b,"r":result,"n":virtual ms}
inline void ev(const char *k, int t, const std::string &op, long p = 0, long a = 0,
               long b = 0, const std::string &r = "") {
  vs::event("{\"k\":\"" + std::string(k) + "\",\"t\":" + std::to_string(t) +
            ",\"op\":" + q(op) + ",\"p\":" + std::to_string(p) + ",\"a\":" +
            std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"r\":" + q(r) +
            ",\"n\":" + std::to_string(ms()) + "}");
}

inline std::string tf(bool b) { return b ? "true" : "false"; }

// Runs f as one API call of the current thread: logs call and return.
template <class F>
std::string call(const std::string &op, long p, long a, long b, F f) {
  ev("call", tid(), op, p, a, b);
  std::string r = f();
  ev("ret", tid(), op, p, a, b, r);
  return r;
}
}  // namespace drv
