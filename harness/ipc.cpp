// Driver for services shared by processes.
// lib: all !common/maf/messaging/client-server/CSMgmt.cpp !common/maf/messaging/client-server/ClientFactory.cpp !common/maf/messaging/client-server/ServerFactory.cpp !common/maf/messaging/client-server/SingleThreadPool.cpp !platforms/unix/maf/utils/Process.cpp
// The processes are played by threads: every endpoint (0 the server, 1.. clients) has what is
// otherwise there once per process: a process id, a client or server object, and the processor
// incoming messages are handled on.  See specs/IPC.tla for the operations.
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/client-server/ClientIF.h>
#include <maf/messaging/client-server/ServerIF.h>
#include <maf/utils/DirectExecutor.h>
#include <maf/utils/Process.h>
#include <maf/messaging/client-server/CSMgmt.h>
#include <maf/messaging/client-server/ipc/LocalIPCClient.h>
#include <maf/messaging/client-server/ipc/LocalIPCServer.h>
#include <maf/messaging/client-server/SingleThreadPool.h>

#include <unistd.h>

#include <future>

#include "prog.h"

// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(alpha)
    INPUT((int, x))
    OUTPUT((int, y))
ENDREQUEST(alpha)
REQUEST(beta)
    INPUT((int, x))
    OUTPUT((int, y))
ENDREQUEST(beta)
PROPERTY(level)
    STATUS((int, v))
ENDPROPERTY()
SIGNAL(beep)
    ATTRIBUTES((int, v))
ENDSIGNAL(beep)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on

using namespace drv;
using namespace maf::messaging;
namespace loc = maf::messaging::ipc::local;
using std::chrono::milliseconds;

static const char *SID = "service";
static Address address() { return Address("maf.verif.ipc." + std::to_string(getpid()) + ".", 0); }

struct Endpoint {
  ProcessorInstance inst[4];
  std::promise<void> over[4];
  int gen = 0;
  std::shared_ptr<ClientIF> client;
  std::shared_ptr<ServerIF> server;
  loc::ProxyPtr prox;
  loc::StubPtr stub;
};
static Endpoint *eps;
static std::vector<std::shared_ptr<void>> *graveyard;
struct As {  // the current thread acts for endpoint e
  int was = vs::tag();
  As(int e) { vs::tag() = e; }
  ~As() { vs::tag() = was; }
};

// what there is once per process
namespace maf {
namespace util {
namespace process {
ProcessID pid() { return 100 + vs::tag() % 10; }
}  // namespace process
}  // namespace util
namespace messaging {
namespace single_threadpool {
bool submit(TaskType task) {
  int e = vs::tag();
  return eps[e % 10].inst[e / 10]->executeAsync(std::move(task));
}
}  // namespace single_threadpool
namespace csmgmt {
std::shared_ptr<ServiceRequesterIF> getServiceRequester(const ConnectionType &, const Address &a, const ServiceID &sid) noexcept {
  auto &e = eps[vs::tag() % 10];
  if (!e.client) {
    auto c = loc::makeClient();
    if (!c->init(a)) return {};
    c->start();
    e.client = c;
  }
  return e.client->getServiceRequester(sid);
}
ServiceProviderIFPtr getServiceProvider(const ConnectionType &, const Address &a, const ServiceID &sid) noexcept {
  auto &e = eps[vs::tag() % 10];
  if (!e.server) {
    auto s = loc::makeServer();
    if (!s->init(a)) return {};
    s->start();
    e.server = s;
  }
  return e.server->getServiceProvider(sid);
}
}  // namespace csmgmt
}  // namespace messaging
}  // namespace maf

static RegID requests[512], regs[512];
template <class P> int val(const std::shared_ptr<P> &p) { return p ? p->get_v() : -1; }
template <class O> int answer(const loc::Response<O> &r) {
  if (r.isError()) return -100 - (int)r.getError()->code();
  return r.getOutput() ? r.getOutput()->get_y() : -1;
}

// requests in the server's hands
struct Req {
  virtual ~Req() {}
  virtual bool reply(int v, bool final) = 0;
};
template <class In, class Out>
struct ReqT : Req {
  loc::Request<In> q;
  ReqT(loc::Request<In> &&x) : q(std::move(x)) {}
  bool reply(int v, bool final) override {
    ActionCallStatus s;
    if (v <= -100) s = q.error("no", (CSErrorCode)(-100 - v));
    else s = final ? q.respond(std::make_shared<Out>(v)) : q.update(std::make_shared<Out>(v));
    return s == ActionCallStatus::Success;
  }
};
static thread_local std::vector<std::pair<int, std::shared_ptr<Req>>> current;
static std::mutex keptMutex;
static std::map<int, std::shared_ptr<Req>> kept;
static std::shared_ptr<Req> request(int r) {
  for (auto &c : current)
    if (c.first == r) return c.second;
  std::lock_guard g(keptMutex);
  auto i = kept.find(r);
  return i == kept.end() ? nullptr : i->second;
}
template <class In, class Out>
static void handle(int o, loc::Request<In> q) {
  int r = q.getInput() ? q.getInput()->get_x() : -7;
  q.onAborted([r] { callback("aborted", 0, 300 + r, 0); });
  current.emplace_back(r, std::make_shared<ReqT<In, Out>>(std::move(q)));
  callback("handler", 0, r, o);
  auto mine = std::move(current.back());
  current.pop_back();
}
struct Observer : ServiceStatusObserverIF {
  int c;
  Observer(int i) : c(i) {}
  void onServiceStatusChanged(const ServiceID &, Availability, Availability v) override {
    callback("avail", c, 400 + 2 * c + (int)v, (int)v);
  }
};

static std::string st(ActionCallStatus x) {
  switch (x) {
    case ActionCallStatus::Success: return "ok";
    case ActionCallStatus::ServiceUnavailable: return "unavail";
    case ActionCallStatus::InvalidParam: return "invalid";
    case ActionCallStatus::Timeout: return "timeout";
    case ActionCallStatus::ActionBroken: return "broken";
    case ActionCallStatus::NoAction: return "noact";
    default: return "fail";
  }
}
using L = level_property::status;
using B = beep_signal::attributes;
template <class Rq, class In>
std::string async(int c, int r) {
  auto s = ActionCallStatus::FailedUnknown;
  requests[r] = eps[c].prox->sendRequestAsync<Rq>(
      std::make_shared<In>(r),
      [c, r](loc::Response<Rq> x) {
        int y = answer<Rq>(x);
        callback("ans", c, 100 + r, y);
      }, &s);
  if (requests[r].valid() != (s == ActionCallStatus::Success)) return "inconsistent";
  return st(s);
}
template <class Rq, class In>
std::string sync(int c, int r, int ms) {
  auto s = ActionCallStatus::FailedUnknown;
  auto x = eps[c].prox->sendRequest<Rq>(std::make_shared<In>(r), &s, milliseconds(ms));
  return s == ActionCallStatus::Success ? std::to_string(answer<Rq>(x)) : st(s);
}
template <class S>
std::string reg(int c, int k) {
  auto s = ActionCallStatus::FailedUnknown;
  auto f = [c, k](const std::shared_ptr<S> &x) { callback("note", c, k, val(x)); };
  if constexpr (std::is_same_v<S, B>) regs[k] = eps[c].prox->registerSignal<S>(f, &s);
  else regs[k] = eps[c].prox->registerStatus<S>(f, &s);
  if (regs[k].valid() != (s == ActionCallStatus::Success)) return "inconsistent";
  return st(s);
}
using AI = alpha_request::input;
using AO = alpha_request::output;
using BI = beta_request::input;
using BO = beta_request::output;

static std::string perform(const std::string &n, int p, int a, int b) {
  auto &e = eps[p];
  if (n == "loop") {
    As as(p + 10 * a);
    e.inst[a]->run();
    e.over[a].set_value();
    return "void";
  }
  if (n == "sleep") { std::this_thread::sleep_for(milliseconds(a)); return "void"; }
  As as(p + 10 * e.gen);
  if (n == "mks") {
    e.stub = loc::createStub(address(), SID, maf::util::directExecutor());
    if (!e.stub) return "false";
    e.stub->registerRequestHandler<AI>([](loc::Request<AI> q) { handle<AI, AO>(1, std::move(q)); });
    return "true";
  }
  if (n == "mkc") {
    e.prox = loc::createProxy(address(), SID, maf::util::directExecutor());
    if (!e.prox) return "false";
    e.prox->registerServiceStatusObserver(std::make_shared<Observer>(p));
    return "true";
  }
  if (n == "kill") {
    auto &inst = e.inst[e.gen];
    std::promise<void> stopped;
    auto f = stopped.get_future();
    inst->executeAsync([&] {
      if (p == 0) e.server->stop();
      else e.client->stop();
      stopped.set_value();
    });
    f.wait();
    if (a == 1) e.client->deinit();
    inst->stop();
    e.over[e.gen].get_future().wait();
    if (p == 0) {
      std::lock_guard g(keptMutex);
      for (auto &k : kept) graveyard->push_back(std::move(k.second));
      kept.clear();
    }
    graveyard->push_back(std::move(e.client));
    graveyard->push_back(std::move(e.server));
    graveyard->push_back(std::move(e.prox));
    graveyard->push_back(std::move(e.stub));
    ++e.gen;
    return "void";
  }
  if (n == "waitav" || n == "waitgone") {
    while ((e.prox->serviceStatus() == Availability::Available) != (n == "waitav")) std::this_thread::sleep_for(milliseconds(20));
    return "void";
  }
  // clients
  if (n == "status") return std::to_string((int)e.prox->serviceStatus());
  if (n == "async") return b == 1 ? async<AO, AI>(p, a) : async<BO, BI>(p, a);
  if (n == "sync") return b / 1000 == 1 ? sync<AO, AI>(p, a, b % 1000) : sync<BO, BI>(p, a, b % 1000);
  if (n == "abort") {
    auto s = ActionCallStatus::FailedUnknown;
    s = ActionCallStatus::NoAction;
    e.prox->abortRequest(requests[a], &s);
    return s == ActionCallStatus::NoAction ? "none" : st(s);
  }
  if (n == "reg") return b == 11 ? reg<L>(p, a) : reg<B>(p, a);
  if (n == "unreg") return st(e.prox->unregister(regs[a]));
  if (n == "getst") {
    auto s = ActionCallStatus::FailedUnknown;
    auto x = e.prox->getStatus<L>(&s);
    return s == ActionCallStatus::Success ? std::to_string(val(x)) : st(s);
  }
  // the server
  if (n == "start") { e.stub->startServing(); return "void"; }
  if (n == "stop") { e.stub->stopServing(); return "void"; }
  if (n == "setst") return st(e.stub->setStatus<L>(b));
  if (n == "bcast") return st(e.stub->broadcastSignal<B>(b));
  if (n == "resp" || n == "upd") {
    auto q = request(a);
    return q ? q->reply(b, n == "resp") ? "ok" : "no" : "absent";
  }
  if (n == "keep") {
    auto q = request(a);
    if (!q) return "absent";
    std::lock_guard g(keptMutex);
    kept[a] = q;
    return "void";
  }
  if (n == "drop") {
    std::shared_ptr<Req> q;
    {
      std::lock_guard g(keptMutex);
      auto i = kept.find(a);
      if (i == kept.end()) return "absent";
      q = std::move(i->second);
      kept.erase(i);
    }
    return "void";
  }
  vs::finish("driver-error");
}
void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  if (a == 0 && (n == "resp" || n == "upd" || n == "keep")) {  // the request whose handler is running
    if (current.empty()) return;
    a = current.back().first;
  }
  call(n, p, a, b, [&] { return perform(n, p, a, b); });
}

static void runOne(const std::string &text) {
  eps = new Endpoint[5];
  graveyard = new std::vector<std::shared_ptr<void>>;
  for (int i = 0; i < 5; ++i)
    for (auto &x : eps[i].inst) x = Processor::create();
  runProgram(text, 700);
}
int main(int c, char **v) { return vs::driverMain(c, v, runOne); }
