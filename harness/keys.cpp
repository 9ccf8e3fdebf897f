// Driver for identifier managers and the keys clients are looked up by.
// lib: common/maf/messaging/client-server/Address.cpp
// program: as in prog.h; objects 1 IDManager, 2 IDManagerT<uint8_t>, 3 RegID's, 4 Address, 5 RegID
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/RegID.h>
#include <maf/utils/IDManager.h>

#include <map>
#include <set>

#include "prog.h"

using namespace drv;
using namespace maf;
using namespace maf::messaging;
static util::IDManager *m64;
static util::IDManagerT<uint8_t> *m8;
static CSIDManager *mcs;
static std::set<Address> *addrs;
static std::map<RegID, int> *regs;

namespace maf::srz {
void writeIndent(std::ostream &, int) {}
}
static Address addr(int k) {
  static const char *names[] = {"", "a", "b"};
  static const Address::Port ports[] = {0, 7, Address::INVALID_PORT};
  return Address(names[k / 3], ports[k % 3]);
}
static RegID reg(int k) {
  static const char *ops[] = {"", "a", "b"};
  RegID r;
  r.requestID = k % 3 == 2 ? CSIDManager::INVALID_ID : k % 3;
  r.opID = ops[k / 3];
  return r;
}
static void got(int p, long long id) {
  ev("begin", tid(), "got", p, (int)id, 0);
  ev("end", tid(), "got", p, (int)id, 0);
}
template <class K> static K make(int k) {
  if constexpr (std::is_same_v<K, Address>) return addr(k); else return reg(k);
}
template <class K, class C> static std::string keys(C &c, const std::string &n, int a, int b) {
  if (n == "lt") return tf(make<K>(a) < make<K>(b));
  if (n == "eq") return tf(make<K>(a) == make<K>(b));
  if (n == "ne") return tf(make<K>(a) != make<K>(b));
  if (n == "valid") return tf(make<K>(a).valid());
  if (n == "move") {
    K x = make<K>(a), y = make<K>(b);
    if (b % 2) y = std::move(x); else y.~K(), new (&y) K(std::move(x));
    if constexpr (std::is_same_v<K, Address>) x = Address();  // left unspecified by moving
    return (y == make<K>(a) ? std::string("equal ") : std::string("different ")) + tf(y.valid()) + " " + tf(x.valid());
  }
  auto key = make<K>(a);
  if (n == "put") {
    if constexpr (std::is_same_v<K, Address>) return tf(c.insert(key).second);
    else return tf(c.emplace(key, a).second);
  }
  if (n == "has") {
    auto i = c.find(key);
    if (i == c.end()) return "false";
    if constexpr (!std::is_same_v<K, Address>) { if (i->second != a) return "other"; }
    return "true";
  }
  if (n == "del") return tf(c.erase(key) != 0);
  if (n == "size") return std::to_string(c.size());
  fprintf(stderr, "unknown op %s\n", n.c_str());
  vs::finish("driver-error");
}
void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  call(n, p, a, b, [&]() -> std::string {
    if (n == "alloc") {
      for (int i = 0; i < a; ++i) {
        if (p == 1) { auto v = m64->allocateNewID(); got(p, v == m64->INVALID_ID || !m64->isValidID(v) ? -1 : (int)v); }
        if (p == 2) { auto v = m8->allocateNewID(); got(p, v == m8->INVALID_ID || !m8->isValidID(v) ? -1 : (int)v); }
        if (p == 3) {
          RegID r;
          r.opID = "x";
          RegID::allocateUniqueID(r, *mcs);
          got(p, r.valid() ? (int)r.requestID : -1);
        }
      }
      return "void";
    }
    if (n == "reclaim") {
      if (p == 1) m64->reclaimUsedID(a);
      if (p == 2) m8->reclaimUsedID(a);
      if (p == 3) RegID::reclaimID(reg(a), *mcs);
      return "void";
    }
    return p == 4 ? keys<Address>(*addrs, n, a, b) : keys<RegID>(*regs, n, a, b);
  });
}
static void runOne(const std::string &text) {
  m64 = new util::IDManager;
  m8 = new util::IDManagerT<uint8_t>;
  mcs = new CSIDManager;
  addrs = new std::set<Address>;
  regs = new std::map<RegID, int>;
  runProgram(text);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
