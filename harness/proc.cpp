// Driver for processors: runs a program (per-thread operation lists, task bodies) and
// records calls, returns, task begins and ends.
// lib: core
// program: (prog (procs N) (tasks (k op...) ...) (threads (op...) ...) (post op...))
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/utils/DirectExecutor.h>
#include <maf/utils/Observable.h>

#include "drv.h"

using namespace maf::messaging;
using namespace drv;

template <int N>
struct Msg {
  int v;
};

// plain arrays: the driver's own bookkeeping must not race
static ProcessorInstance procs[4];
static int nprocs = 0;
static std::map<int, std::vector<Sx>> bodies;
static bool throws_[256];
static std::shared_ptr<Upcoming<void>> handles[256];
static std::unique_ptr<MsgConnection> conns[256];
static std::map<int, std::shared_ptr<AsyncProcessor>> asyncs;
static std::map<int, std::shared_ptr<maf::util::ExecutorIF>> execs;
static std::map<int, Execution> wills;

static maf::signal_slots::Signal<int> sigs[3];
static maf::signal_slots::Observable<int> observable;
static maf::signal_slots::Connection sconns[256];

static void runOps(const std::vector<Sx> &ops, size_t from);

static void body(int p, int k) {
  ev("begin", tid(), "task", p, k);
  auto it = bodies.find(k);
  if (it != bodies.end()) runOps(it->second, 1);
  ev("end", tid(), "task", p, k, 0, throws_[k] ? "throw" : "");
  if (throws_[k]) throw 42;
}
static void handlerBody(int p, int c, int v) {
  ev("begin", tid(), "handler", p, c, v);
  auto it = bodies.find(c);
  if (it != bodies.end()) runOps(it->second, 1);
  ev("end", tid(), "handler", p, c, v);
}

static void slotBody(int o, int c, int v) {
  ev("begin", tid(), "slot", o, c, v);
  auto it = bodies.find(c);
  if (it != bodies.end()) runOps(it->second, 1);
  ev("end", tid(), "slot", o, c, v);
}

template <class F>
static auto withMsg(int m, F f) {
  switch (m) {
    case 1: return f(Msg<1>{});
    case 2: return f(Msg<2>{});
    default: return f(Msg<3>{});
  }
}

static std::string waitH(int h, bool get) {
  auto u = handles[h];
  if (!u || !u->valid()) return "invalid";
  try {
    u->get();
    return "ok";
  } catch (const std::future_error &) {
    return "broken";
  } catch (int) {
    return "exc";
  }
}

static void op(const Sx &o) {
  const std::string &n = o.op();
  auto A = [&](size_t i) { return i < o.size() ? o[i].i() : 0; };
  int p = A(1), a = A(2), b = A(3);
  if (n == "run") {
    auto P = procs[p];
    call(n, p, 0, 0, [&] { P->run(); return "void"; });
  } else if (n == "runfor") {
    auto P = procs[p];
    call(n, p, a, 0, [&] { P->runFor(std::chrono::milliseconds(a)); return "void"; });
  } else if (n == "runonce") {
    auto P = procs[p];
    call(n, p, a, 0, [&] { return tf(P->runOnceFor(std::chrono::milliseconds(a))); });
  } else if (n == "stop") {
    auto P = procs[p];
    call(n, p, 0, 0, [&] { P->stop(); return "void"; });
  } else if (n == "tstop") {
    call(n, 0, 0, 0, [&] { return tf(this_processor::stop()); });
  } else if (n == "reuse") {
    auto P = procs[p];
    call(n, p, 0, 0, [&] { P->reuse(); return "void"; });
  } else if (n == "stopped") {
    auto P = procs[p];
    call(n, p, 0, 0, [&] { return tf(P->stopped()); });
  } else if (n == "pending") {
    auto P = procs[p];
    call(n, p, 0, 0, [&] { return std::to_string(P->pendingCout()); });
  } else if (n == "exec") {
    auto P = procs[p];
    call(n, p, a, 0, [&] { return tf(P->execute([p, a] { body(p, a); })); });
  } else if (n == "execa") {
    auto P = procs[p];
    call(n, p, a, 0, [&] { return tf(P->executeAsync([p, a] { body(p, a); })); });
  } else if (n == "texec" || n == "texeca") {
    // through this_processor; the processor is the one the spec says is current
    call(n, 0, a, 0, [&] {
      auto f = [a] { body(0, a); };
      return tf(n == "texec" ? this_processor::execute(f) : this_processor::executeAsync(f));
    });
  } else if (n == "wexec") {
    auto P = procs[p];
    call(n, p, a, b, [&] {
      auto u = std::make_shared<Upcoming<void>>(P->waitableExecute([p, a] { body(p, a); }));
      handles[b] = u;
      return u->valid() ? "valid" : "invalid";
    });
  } else if (n == "wexecv") {
    auto P = procs[p];
    call(n, p, a, 0, [&] {
      try {
        int v = P->waitableExecute([p, a]() -> int { body(p, a); return a * 10; });
        return std::to_string(v);
      } catch (const std::future_error &) {
        return std::string("error");
      }
    });
  } else if (n == "wait") {
    call(n, 0, p, 0, [&] { return waitH(p, true); });
  } else if (n == "waitfor") {
    call(n, 0, p, a, [&]() -> std::string {
      auto u = handles[p];
      if (!u || !u->valid()) return "invalid";
      return u->waitFor(std::chrono::milliseconds(a)) == std::future_status::ready
                 ? "ready" : "timeout";
    });
  } else if (n == "post") {  // post p m v
    auto P = procs[p];
    call(n, p, a, b, [&] {
      return tf(withMsg(a, [&](auto m) { m.v = b; return P->post(m); }));
    });
  } else if (n == "wpost") {  // wpost p m v h
    auto P = procs[p];
    int h = A(4);
    call(n, p, a, b * 100 + h, [&] {
      auto u = std::make_shared<Upcoming<void>>(
          withMsg(a, [&](auto m) { m.v = b; return P->waitablePost(m); }));
      handles[h] = u;
      return u->valid() ? "valid" : "invalid";
    });
  } else if (n == "connect") {  // connect p m c
    auto P = procs[p];
    call(n, p, a, b, [&] {
      int c = b;
      conns[c].reset(new MsgConnection(withMsg(a, [&](auto m) {
        using M = decltype(m);
        return P->template connect<M>([p, c](const M &x) { handlerBody(p, c, x.v); });
      })));
      return "void";
    });
  } else if (n == "disc") {
    call(n, 0, p, 0, [&] { conns[p]->disconnect(); return "void"; });
  } else if (n == "reconn") {
    call(n, 0, p, 0, [&] { conns[p]->reconnect(); return "void"; });
  } else if (n == "isconn") {
    call(n, 0, p, 0, [&] { return tf(conns[p]->connected()); });
  } else if (n == "discall") {  // discall p m
    auto P = procs[p];
    call(n, p, a, 0, [&] {
      withMsg(a, [&](auto m) { P->template disconnect<decltype(m)>(); return 0; });
      return "void";
    });
  } else if (n == "connected") {
    auto P = procs[p];
    call(n, p, a, 0, [&] {
      return tf(withMsg(a, [&](auto m) { return P->template connected<decltype(m)>(); }));
    });
  } else if (n == "exdef" || n == "exasync" || n == "exblock") {  // through executor objects
    auto P = procs[p];
    auto e = execs[p * 10 + (n == "exdef" ? 0 : n == "exasync" ? 1 : 2)];
    call(n, p, a, 0, [&] {
      bool r = e->execute([p, a] { body(p, a); });
      return tf(r);
    });
  } else if (n == "emit") {  // emit 0 signal value
    call(n, 0, a, b, [&] { sigs[a](b); return "void"; });
  } else if (n == "oset") {
    call(n, 0, 0, b, [&] { observable.set(b); return "void"; });
  } else if (n == "sconn") {  // sconn processor slot kind*10+signal
    int o = b % 10, kind = b / 10;
    auto e = kind == 4 ? maf::util::directExecutor() : kind ? execs[p * 10 + kind - 1] : nullptr;
    call(n, p, a, b, [&] {
      std::function<void(const int &)> f = [o, a](const int &v) { slotBody(o, a, v); };
      if (o == 3) sconns[a] = e ? observable.connect(f, e) : observable.connect(f);
      else sconns[a] = e ? sigs[o].connect(f, e) : sigs[o].connect(f);
      return "void";
    });
  } else if (n == "sdisc") {
    call(n, 0, a, 0, [&] { return tf(sconns[a].disconnect()); });
  } else if (n == "will" || n == "willa" || n == "willb") {
    Execution e = wills[p * 1000 + a * 10 + (n == "will" ? 0 : n == "willa" ? 1 : 2)];
    call(n, p, a, 0, [&] {
      auto f = e;
      try {
        f();
      } catch (const std::future_error &) {
        return "error";
      }
      return "void";
    });
  } else if (n == "drop") {  // release the last reference
    call(n, p, 0, 0, [&] {
      procs[p].reset();
      return "void";
    });
  } else if (n == "me") {
    call(n, 0, 0, 0, [&]() -> std::string {
      auto i = this_processor::instance();
      for (int k = 1; k <= nprocs; ++k)
        if (procs[k] && procs[k] == i) return std::to_string(k);
      return "0";
    });
  } else if (n == "launch") {
    call(n, p, 0, 0, [&] {
      auto ap = asyncs[p];
      ap->launch([p] { ev("begin", tid(), "tinit", p); ev("end", tid(), "tinit", p); },
                 [p] { ev("begin", tid(), "tdeinit", p); ev("end", tid(), "tdeinit", p); });
      return "void";
    });
  } else if (n == "stopwait") {
    call(n, p, 0, 0, [&] { asyncs[p]->stopAndWait(); return "void"; });
  } else if (n == "sleep") {
    std::this_thread::sleep_for(std::chrono::milliseconds(p));
  } else {
    fprintf(stderr, "unknown op %s\n", n.c_str());
    vs::finish("driver-error");
  }
}

static void runOps(const std::vector<Sx> &ops, size_t from) {
  for (size_t i = from; i < ops.size(); ++i) op(ops[i]);
}

static void runOne(const std::string &text) {
  Sx prog = vs::parseSx(text);
  const Sx *threads = nullptr, *post = nullptr, *setup = nullptr;
  bool executors = false;
  for (auto &s : prog.l) {
    if (s.atom) continue;
    if (s.op() == "procs")
      for (int i = 1; i <= s[1].i(); ++i) {
        // "same": the processors have one name, which each took over from the one before
        procs[nprocs = i] = s.size() > 2 ? Processor::create("same") : Processor::create();
        if (s.size() > 2) procs[i]->stop();
      }
    else if (s.op() == "tasks")
      for (size_t i = 1; i < s.size(); ++i) bodies[s[i][0].i()] = s[i].l;
    else if (s.op() == "throws")
      for (size_t i = 1; i < s.size(); ++i) throws_[s[i].i()] = true;
    else if (s.op() == "threads") threads = &s;
    else if (s.op() == "post") post = &s;
    else if (s.op() == "setup") setup = &s;
    else if (s.op() == "async")
      for (int k = 1; k <= nprocs; ++k) asyncs[k] = std::make_shared<AsyncProcessor>(procs[k]);
  }
  for (int k = 1; k <= nprocs; ++k) procs[k]->reuse();
  // executors and wrapped executions are made beforehand: they must outlive the processor
  std::function<void(const Sx &)> scan = [&](const Sx &o) {
    if (o.atom || o.l.empty()) return;
    const std::string &n = o.op();
    if (n == "exdef" || n == "exasync" || n == "exblock" || (n == "sconn" && o[1].i())) {
      int p = o[1].i();
      execs[p * 10 + 0] = procs[p]->getExecutor();
      execs[p * 10 + 1] = procs[p]->getAsyncExecutor();
      execs[p * 10 + 2] = procs[p]->getBlockingExecutor();
    } else if (n == "will" || n == "willa" || n == "willb") {
      int p = o[1].i(), a = o[2].i();
      auto f = [p, a] { body(p, a); };
      wills[p * 1000 + a * 10 + 0] = procs[p]->willExecuteOnThis(f);
      wills[p * 1000 + a * 10 + 1] = procs[p]->willAsyncExecuteOnThis(f);
      wills[p * 1000 + a * 10 + 2] = procs[p]->willBlockingExecuteOnThis(f);
    }
    for (auto &c : o.l) scan(c);
  };
  scan(prog);
  if (setup) runOps(setup->l, 1);
  size_t n = threads ? threads->size() - 1 : 0;
  std::vector<std::thread> th;
  for (size_t i = 1; i <= n; ++i)
    th.emplace_back([&, i] {
      runOps((*threads)[i].l, 0);
      ev("exit", tid(), "");
    });
  vs::quiesce();
  vs::advance(1000ull * 1000000);
  ev("quiet", 0, "");
  if (post) {
    for (size_t i = 1; i < post->size(); ++i) {
      op((*post)[i]);
      vs::quiesce();
      vs::advance(1000ull * 1000000);
      ev("quiet", 0, "");
    }
  }
  vs::finish("ok");
}

int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
