// Driver for the socket transport.
// lib: platforms/unix/maf/messaging/client-server/ipc/*.cpp common/maf/messaging/client-server/Address.cpp common/maf/logging/*.cpp
// program: receivers 1, 2, 3 (3 at the address of 1); (init p) (run p) (stop p) (running p)
// at addresses: (send p size id) (status p) (rawopen p size id) (rawsend p n id) (rawclose p - id)
#include <maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h>
#include <maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h>

#include <cstring>

#include "prog.h"

using namespace drv;
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using namespace maf::messaging::ipc::local;
static LocalIPCBufferReceiverImpl *rec[4];
struct Raw { int fd = -1; uint32_t size = 0; size_t sent = 0; };
static Raw *raws;

namespace maf::srz {
void writeIndent(std::ostream &, int) {}
}
// what is private to the driver is not to be scheduled byte by byte
#define QUIET __attribute__((no_sanitize("thread")))
QUIET static char at(int id, size_t i) { return i == 0 ? (char)id : (char)(id * 31 + i * 7 + (i >> 8) * 13 + (i >> 16)); }
QUIET static void fill(char *b, int id, size_t from, size_t n) {
  for (size_t i = 0; i < n; ++i) b[i] = at(id, from + i);
}
QUIET static bool same(const char *b, int id, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (b[i] != at(id, i)) return false;
  return true;
}
static std::string content(int id, size_t n) {
  std::string b(n, 0);
  fill(b.data(), id, 0, n);
  return b;
}
static std::string name(int p) { return "maf.verif." + std::to_string(getpid()) + "." + std::to_string(p == 3 ? 1 : p); }

static void got(int p, const std::string &b) {
  int id = b.empty() ? 0 : (unsigned char)b[0];
  if (!same(b.data(), id, b.size())) id = -1;
  callback("got", p, id, (int)b.size());
}
void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  // what is sent is made before the call
  std::string data = n == "send" ? content(b, a) : "";
  call(n, p, a, b, [&]() -> std::string {
    if (n == "init") {
      rec[p]->setObserver([p](std::string &&b) { got(p, b); });
      return tf(rec[p]->init(Address(name(p), p)));
    }
    if (n == "run") return tf(rec[p]->start());
    if (n == "stop") { rec[p]->stop(); return "void"; }
    if (n == "running") return tf(rec[p]->running());
    if (n == "send") {
      auto r = LocalIPCBufferSenderImpl().send(data, Address(name(p), p));
      return r == ActionCallStatus::Success ? "success" : r == ActionCallStatus::ReceiverUnavailable ? "unavailable"
           : r == ActionCallStatus::FailedUnknown ? "failed" : "other";
    }
    if (n == "status")
      return LocalIPCBufferSenderImpl().checkReceiverStatus(Address(name(p), p)) == Availability::Available ? "available" : "unavailable";
    auto &r = raws[b];
    if (n == "rawopen") {
      r.fd = socket(AF_UNIX, SOCK_STREAM, 0);
      r.size = a;
      auto addr = createUnixAbstractSocketAddr(name(p));
      if (connect(r.fd, (sockaddr *)&addr, sizeof addr) == 0) return "true";
      close(r.fd);
      r.fd = -1;
      return "false";
    }
    if (n == "rawsend") {
      if (r.fd < 0) return "false";
      std::string s((char *)&r.size, 4);
      if (s.size() < r.sent + a) {
        s.resize(r.sent + a);
        fill(s.data() + 4, b, 0, s.size() - 4);
      }
      size_t end = r.sent + a;
      while (r.sent < end) {
        auto k = send(r.fd, s.data() + r.sent, end - r.sent, MSG_NOSIGNAL);
        if (k < 0) return "false";
        r.sent += k;
      }
      return "true";
    }
    if (n == "rawclose") { if (r.fd >= 0) close(r.fd); r.fd = -1; return "void"; }
    fprintf(stderr, "unknown op %s\n", n.c_str());
    vs::finish("driver-error");
  });
}
static void runOne(const std::string &text) {
  for (int i = 1; i < 4; ++i) rec[i] = new LocalIPCBufferReceiverImpl;
  raws = new Raw[512];
  runProgram(text, 5000);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
