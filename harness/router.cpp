// Driver for named processors and routing (specs/Router.tla).
// lib: core
#include <maf/messaging/Processor.h>
#include <maf/messaging/Routing.h>

#include "prog.h"

using namespace drv;
using namespace maf::messaging;
template <int N>
struct Msg {
  int v;
};
static ProcessorInstance procs[16];
static std::shared_ptr<Upcoming<void>> handles[64];
static MsgConnection conns[16][4];

static std::string idOf(int a) { return a ? "processor" + std::to_string(a) : ""; }
static int numOf(const std::string &id) { return id.empty() ? 0 : id.back() - '0'; }
static Message msg(int m, int v) {
  if (m == 1) return makeMessage<Msg<1>>(Msg<1>{v});
  return makeMessage<Msg<2>>(Msg<2>{v});
}
static void handle(int p, int m, int v) { callback("h", p, 10 * m + p, v); }
static void subscribe(int p, int m) {
  auto P = procs[p];
  using St = routing::ProcessorStatusUpdateMsg;
  MsgConnection c;
  if (m == 0)
    c = P->connect<St>([p](const St &s) {
      auto q = s.messageprocessor();
      handle(p, 0, 10 * (s.ready() ? 1 : 2) + (q ? numOf(q->id()) : 0));
    });
  else if (m == 1) c = P->connect<Msg<1>>([p](const Msg<1> &x) { handle(p, 1, x.v); });
  else c = P->connect<Msg<2>>([p](const Msg<2> &x) { handle(p, 2, x.v); });
  conns[p][m] = std::move(c);
}
static std::string keep(int h, Upcoming<void> u) {
  handles[h] = std::make_shared<Upcoming<void>>(std::move(u));
  return handles[h]->valid() ? "valid" : "invalid";
}
void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  auto P = p >= 0 && p < 16 ? procs[p] : ProcessorInstance{};
  // what needs a processor that was not created is left out
  bool needs = n == "stop" || n == "reuse" || n == "sub" || n == "unsub" || n == "serve" ||
               n == "stopped" || n == "post";
  if (needs && !P) return;
  if (n == "sub" && conns[p][a].connected()) return;
  if (n == "wait" && !handles[p]) return;
  call(n, p, a, b, [&]() -> std::string {
    if (n == "create") {
      auto q = Processor::create(idOf(a));
      if (!q) return "false";
      if (a && q->id() != idOf(a)) return "wrong id";
      procs[p] = q;
    return "true";
    }
    if (n == "stop") P->stop();
    else if (n == "reuse") P->reuse();
    else if (n == "stopped") return tf(P->stopped());
    else if (n == "sub") subscribe(p, a);
    else if (n == "unsub") {
      if (a == 0) P->disconnect<routing::ProcessorStatusUpdateMsg>();
      else if (a == 1) P->disconnect<Msg<1>>();
      else P->disconnect<Msg<2>>();
    } else if (n == "find") {
      auto q = b ? Processor::findProcessor(idOf(a)) : routing::findProcessor(idOf(a));
      if (!q) return "0";
      for (int i = 1; i < 16; ++i)
        if (procs[i] == q) return std::to_string(i);
      return "new";  // created but not yet returned to its creator
    } else if (n == "post") return tf(P->post(msg(b / 100, b % 100)));
    else if (n == "rpost") return tf(routing::post(idOf(a), msg(b / 100, b % 100)));
    else if (n == "rall") return tf(routing::postToAll(msg(b / 100, b % 100)));
    else if (n == "rsend") return keep(p, routing::send(idOf(a), msg(b / 100, b % 100)));
    else if (n == "rsall") return keep(p, routing::sendToAll(msg(b / 100, b % 100)));
    else if (n == "wait") {
      auto u = handles[p];
      if (!u->valid()) return "invalid";
      try { u->get(); return "ok"; }
      catch (const std::future_error &) { return "broken"; }
    } else if (n == "serve") P->runFor(std::chrono::milliseconds(a));
    else { fprintf(stderr, "unknown op %s\n", n.c_str()); vs::finish("driver-error"); }
    return "void";
  });
}
static void runOne(const std::string &text) {
  bodyLimit = 1;
  runProgram(text);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
