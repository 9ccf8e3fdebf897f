// Driver for services within one process (inter-thread communication).
// lib: all
// See specs/CS.tla for the operations.
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/utils/DirectExecutor.h>

#include "prog.h"

// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(alpha)
    INPUT((int, x))
    OUTPUT((int, y))
ENDREQUEST(alpha)
REQUEST(beta)
    INPUT((int, x))
    OUTPUT((int, y))
ENDREQUEST(beta)
VOID_REQUEST(ping)
PROPERTY(level)
    STATUS((int, v))
ENDPROPERTY()
PROPERTY(mode)
    STATUS((int, v))
ENDPROPERTY()
SIGNAL(beep)
    ATTRIBUTES((int, v))
ENDSIGNAL(beep)
VOID_SIGNAL(tick)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on

using namespace drv;
using namespace maf::messaging;
namespace itc = maf::messaging::itc;
using maf::util::ExecutorIFPtr;
using std::chrono::milliseconds;

struct QueueExecutor : maf::util::ExecutorIF {
  std::mutex m;
  std::list<CallbackType> l;
  bool execute(CallbackType c) noexcept override {
    std::lock_guard g(m);
    l.push_back(std::move(c));
    return true;
  }
  void drain() {
    for (;;) {
      CallbackType c;
      {
        std::lock_guard g(m);
        if (l.empty()) return;
        c = std::move(l.front());
        l.pop_front();
      }
      c();
    }
  }
};
struct GoneExecutor : maf::util::ExecutorIF {
  bool execute(CallbackType) noexcept override { return false; }
};
static std::shared_ptr<QueueExecutor> exq[3];
static ExecutorIFPtr executor(int e) {
  if (e == 0) return maf::util::directExecutor();
  if (e == 3) return std::make_shared<GoneExecutor>();
  return exq[e];
}
static std::string sid(int p) { return "service" + std::to_string(p); }

static itc::ProxyPtr prox[8];
static itc::StubPtr stub[8];
static int proxSid[8], stubSid[8];
static RegID requests[512], regs[512];
static std::shared_ptr<ServiceStatusObserverIF> observers[512];
static std::shared_ptr<ServiceStatusSignal> signals[512];
static maf::signal_slots::Connection heard[512];

template <class P> int val(const std::shared_ptr<P> &p) { return p ? p->get_v() : -1; }
template <class O> int answer(const itc::Response<O> &r) {
  if (r.isError()) return -100 - (int)r.getError()->code();
  if constexpr (std::is_same_v<O, ping_request>) return -1;
  else return r.getOutput() ? r.getOutput()->get_y() : -1;
}

// requests in the server's hands
struct Req {
  virtual ~Req() {}
  virtual bool reply(int v, bool final) = 0;
  virtual bool valid() = 0;
  virtual void onAborted(std::function<void()> f) = 0;
};
template <class In, class Out>
struct ReqT : Req {
  itc::Request<In> q;
  ReqT(itc::Request<In> &&x) : q(std::move(x)) {}
  bool reply(int v, bool final) override {
    ActionCallStatus st;
    if (v <= -100) st = q.error("no", (CSErrorCode)(-100 - v));
    else if constexpr (std::is_same_v<In, ping_request>) st = final ? q.respond() : q.update();
    else if (v == -1) st = final ? q.respond() : q.update();
    else st = final ? q.respond(std::make_shared<Out>(v)) : q.update(std::make_shared<Out>(v));
    return st == ActionCallStatus::Success;
  }
  bool valid() override { return q.valid(); }
  void onAborted(std::function<void()> f) override { q.onAborted(std::move(f)); }
};
static thread_local std::vector<std::pair<int, std::shared_ptr<Req>>> current;
static std::mutex keptMutex;
static std::map<int, std::shared_ptr<Req>> kept;
static std::shared_ptr<Req> request(int r) {
  for (auto &c : current)
    if (c.first == r) return c.second;
  std::lock_guard g(keptMutex);
  auto i = kept.find(r);
  return i == kept.end() ? nullptr : i->second;
}

template <class In, class Out>
void handle(int p, int h, itc::Request<In> q) {
  int r, x = -1;
  if constexpr (std::is_same_v<In, ping_request>) r = 50 + stubSid[p];
  else r = x = q.getInput() ? q.getInput()->get_x() : -7;
  current.emplace_back(r, std::make_shared<ReqT<In, Out>>(std::move(q)));
  callback("handler", r, h, x);
  auto mine = std::move(current.back());
  current.pop_back();
}

static std::string st(ActionCallStatus x) {
  switch (x) {
    case ActionCallStatus::Success: return "ok";
    case ActionCallStatus::ServiceUnavailable: return "unavail";
    case ActionCallStatus::InvalidParam: return "invalid";
    case ActionCallStatus::Timeout: return "timeout";
    case ActionCallStatus::ActionBroken: return "broken";
    case ActionCallStatus::NoAction: return "noact";
    default: return "status" + std::to_string((int)x);
  }
}
template <class Req, class In>
std::string async(int k, int r, bool cb) {
  auto s = ActionCallStatus::FailedUnknown;
  std::function<void(itc::Response<Req>)> f;
  if (cb) f = [r](itc::Response<Req> x) { callback("ans", 0, r, answer<Req>(x)); };
  if constexpr (std::is_same_v<Req, ping_request>) requests[r] = prox[k]->sendRequestAsync<Req>(f, &s);
  else requests[r] = prox[k]->sendRequestAsync<Req>(std::make_shared<In>(r), f, &s);
  if (requests[r].valid() != (s == ActionCallStatus::Success)) return "inconsistent";
  return st(s);
}
template <class Req, class In>
std::string sync(int k, int r, int ms) {
  auto s = ActionCallStatus::FailedUnknown;
  itc::Response<Req> x;
  if constexpr (std::is_same_v<Req, ping_request>) x = prox[k]->sendRequest<Req>(&s, milliseconds(ms));
  else x = prox[k]->sendRequest<Req>(std::make_shared<In>(r), &s, milliseconds(ms));
  return s == ActionCallStatus::Success ? std::to_string(answer<Req>(x)) : st(s);
}
template <class S>
std::string reg(int k, int c) {
  auto s = ActionCallStatus::FailedUnknown;
  auto f = [c](const std::shared_ptr<S> &x) { callback("note", 0, c, val(x)); };
  if constexpr (std::is_same_v<S, beep_signal::attributes>) regs[c] = prox[k]->registerSignal<S>(f, &s);
  else regs[c] = prox[k]->registerStatus<S>(f, &s);
  if (regs[c].valid() != (s == ActionCallStatus::Success)) return "inconsistent";
  return st(s);
}
template <class S>
std::string getst(int k) {
  auto s = ActionCallStatus::FailedUnknown;
  auto x = prox[k]->getStatus<S>(&s);
  return s == ActionCallStatus::Success ? std::to_string(val(x)) : st(s);
}
template <class S>
std::string getsta(int k, int r) {
  return st(prox[k]->getStatus<S>([r](const std::shared_ptr<S> &x) { callback("got", 0, r, val(x)); }));
}
using L = level_property::status;
using M = mode_property::status;
using B = beep_signal::attributes;
using AI = alpha_request::input;
using AO = alpha_request::output;
using BI = beta_request::input;
using BO = beta_request::output;

struct Observer : ServiceStatusObserverIF {
  int n;
  Observer(int i) : n(i) {}
  void onServiceStatusChanged(const ServiceID &, Availability o, Availability v) override {
    callback("avail", (int)o, n, (int)v);
  }
};
static const char *opid(int o) {
  switch (o) {
    case 1: return alpha_request::ID;
    case 2: return beta_request::ID;
    case 3: return ping_request::ID;
    case 11: return level_property::ID;
    case 12: return mode_property::ID;
    case 21: return beep_signal::ID;
  }
  return tick_signal::ID;
}

static std::string perform(const std::string &n, int p, int a, int b) {
  if (n == "mkproxy") { prox[a] = itc::createProxy(sid(p), executor(b)); proxSid[a] = p; return "ok"; }
  if (n == "mkstub") { stub[a] = itc::createStub(sid(p), executor(b)); stubSid[a] = p; return "ok"; }
  if (n == "status") return std::to_string((int)prox[p]->serviceStatus());
  if (n == "spav") return std::to_string((int)stub[p]->availability());
  if (n == "async" || n == "post") {
    bool cb = n == "async";
    return b == 1 ? async<AO, AI>(p, a, cb) : b == 2 ? async<BO, BI>(p, a, cb) : async<ping_request, AI>(p, a, cb);
  }
  if (n == "sync") {
    int ms = b % 1000;
    b /= 1000;
    return b == 1 ? sync<AO, AI>(p, a, ms) : b == 2 ? sync<BO, BI>(p, a, ms) : sync<ping_request, AI>(p, a, ms);
  }
  if (n == "abort") {
    auto s = ActionCallStatus::FailedUnknown;
    prox[p]->abortRequest(requests[a], &s);
    return s == ActionCallStatus::FailedUnknown ? "none" : st(s);
  }
  if (n == "reg") {
    if (b == 11) return reg<L>(p, a);
    if (b == 12) return reg<M>(p, a);
    if (b == 21) return reg<B>(p, a);
    auto s = ActionCallStatus::FailedUnknown;
    regs[a] = prox[p]->registerSignal<tick_signal>([a] { callback("note", 0, a, -1); }, &s);
    return st(s);
  }
  if (n == "unreg") return st(prox[p]->unregister(regs[a]));
  if (n == "unregall") return st(prox[p]->unregisterAll(opid(b)));
  if (n == "getst") return b == 11 ? getst<L>(p) : getst<M>(p);
  if (n == "getsta") return b == 11 ? getsta<L>(p, a) : getsta<M>(p, a);
  if (n == "observe") {
    if (b == 0) prox[p]->registerServiceStatusObserver(observers[a] = std::make_shared<Observer>(a));
    else if (b == 1) observers[a] = prox[p]->onServiceStatusChanged([a](Availability o, Availability v) { callback("avail", (int)o, a, (int)v); });
    else observers[a] = signals[a] = serviceStatusSignal(prox[p]);
    return "ok";
  }
  if (n == "unobserve") { prox[p]->unregisterServiceStatusObserver(observers[a]); return "void"; }
  if (n == "sigstop") { signals[a]->stop(); return "void"; }
  if (n == "sigcur") return std::to_string((int)signals[a]->currentStatus());
  if (n == "sigwait") {
    auto e = (Availability)(b % 10);
    auto w = b >= 10 ? signals[a]->waitIfNot(e, b / 10) : signals[a]->waitIfNot(e);
    return w.isReady() ? "ready" : w.isTimeout() ? "timeout" : "stopped";
  }
  if (n == "drain") { exq[p]->drain(); return "void"; }
  if (n == "handle") {
    if (b == 1) return tf(stub[p]->registerRequestHandler<AI>([p, a](itc::Request<AI> q) { handle<AI, AO>(p, a, std::move(q)); }));
    if (b == 2) return tf(stub[p]->registerRequestHandler<BI>([p, a](itc::Request<BI> q) { handle<BI, BO>(p, a, std::move(q)); }));
    return tf(stub[p]->registerRequestHandler<ping_request>([p, a](itc::Request<ping_request> q) { handle<ping_request, AO>(p, a, std::move(q)); }));
  }
  if (n == "unhandle") return tf(b == 1 ? stub[p]->unregisterRequestHandler<alpha_request>() : stub[p]->unregisterRequestHandler(opid(b)));
  if (n == "start") { stub[p]->startServing(); return "void"; }
  if (n == "stop") { stub[p]->stopServing(); return "void"; }
  if (n == "resp" || n == "upd" || n == "valid" || n == "onabort") {
    auto q = request(a);
    if (!q) return "absent";
    if (n == "valid") return tf(q->valid());
    if (n == "onabort") { q->onAborted([a, b] { callback("aborted", 0, b, a); }); return "void"; }
    return q->reply(b, n == "resp") ? "ok" : "no";
  }
  if (n == "keep") {
    auto q = request(a);
    if (!q) return "absent";
    std::lock_guard g(keptMutex);
    kept[a] = q;
    return "void";
  }
  if (n == "drop") {
    std::shared_ptr<Req> q;
    {
      std::lock_guard g(keptMutex);
      auto i = kept.find(a);
      if (i == kept.end()) return "absent";
      q = std::move(i->second);
      kept.erase(i);
    }
    return "void";
  }
  if (n == "setst") return st(a == 11 ? stub[p]->setStatus<L>(b) : stub[p]->setStatus(mode_property::make_status(b)));
  if (n == "remst") return st(a == 11 ? stub[p]->removeProperty<L>(b) : stub[p]->removeProperty<mode_property>(b));
  if (n == "sget") return std::to_string(a == 11 ? val(stub[p]->getStatus<L>()) : val(stub[p]->getStatus<M>()));
  if (n == "bcast") return st(a == 21 ? stub[p]->broadcastSignal<B>(b) : stub[p]->broadcastSignal<tick_signal>());
  if (n == "hear") {
    if (b == 11) heard[a] = stub[p]->registerNotification<L>([a](const std::shared_ptr<L> &x) { callback("heard", 11, a, val(x)); });
    else if (b == 12) heard[a] = stub[p]->registerNotification<M>([a](const std::shared_ptr<M> &x) { callback("heard", 12, a, val(x)); });
    else if (b == 21) heard[a] = stub[p]->registerNotification<B>([a](const std::shared_ptr<B> &x) { callback("heard", 21, a, val(x)); });
    else heard[a] = stub[p]->registerNotification<tick_signal>([a] { callback("heard", 22, a, -1); });
    return "ok";
  }
  if (n == "unhear") { heard[a].disconnect(); return "void"; }
  vs::finish("driver-error");
}
void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  // 0: the request whose handler is running
  if (a == 0 && (n == "resp" || n == "upd" || n == "valid" || n == "onabort" || n == "keep")) {
    if (current.empty()) return;
    a = current.back().first;
  }
  call(n, p, a, b, [&] { return perform(n, p, a, b); });
}

static void runOne(const std::string &text) {
  for (auto &e : exq) e = std::make_shared<QueueExecutor>();
  runProgram(text);
}
int main(int c, char **v) { return vs::driverMain(c, v, runOne); }
