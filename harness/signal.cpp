// Driver for signals, slots and connections.
// lib: common/maf/utils/DirectExecutor.cpp common/maf/logging/*.cpp
// See specs/Signal.tla for the operations and the kinds of slots.
#include <maf/SignalSlots.h>
#include <maf/utils/DirectExecutor.h>

#include "prog.h"

using namespace drv;
namespace ss = maf::signal_slots;
using maf::util::ExecutorIFPtr;

struct QueueExecutor : maf::util::ExecutorIF {
  std::mutex m;
  std::list<CallbackType> l;
  bool execute(CallbackType c) noexcept override {
    std::lock_guard g(m);
    l.push_back(std::move(c));
    return true;
  }
  void drain() {
    for (;;) {
      CallbackType c;
      {
        std::lock_guard g(m);
        if (l.empty()) return;
        c = std::move(l.front());
        l.pop_front();
      }
      try { c(); } catch (int) {}
    }
  }
};
static std::shared_ptr<QueueExecutor> exq[3];

static ss::Connection conns[256];
static ss::ScopedConnection scoped[16];
static ss::ScopedConnectionGroup group[16];
struct Tracked;
static std::shared_ptr<Tracked> tracked[256];
static thread_local std::vector<std::pair<int, ss::ConnectionPtr>> selfs;

static void slot(int p, int c, int v) { callback("slot", p, c, v); }
struct Self {
  Self(int c, const ss::ConnectionPtr &p) { selfs.emplace_back(c, p); }
  ~Self() { selfs.pop_back(); }
};
// the tracked thing: a functor, an object with a method, or just an object
struct Tracked {
  int p, c;
  mutable int busy = 0;
  Tracked(int p, int c) : p(p), c(c) {}
  ~Tracked() { if (busy) vs::finish("tracked-object-destroyed-while-its-slot-runs"); }
  void operator()(const int &v) const {
    ++busy;
    util_exit done{&busy};
    slot(p, c, v);
  }
  void method(const int &v) { (*this)(v); }
  struct util_exit { int *b; ~util_exit() { --*b; } };
};
static std::mutex trackedMutex;
static void track(int c, std::shared_ptr<Tracked> &o) {
  std::lock_guard g(trackedMutex);
  tracked[c] = std::move(o);
}
static bool expire(int c) {
  std::shared_ptr<Tracked> o;
  std::lock_guard g(trackedMutex);
  o = std::move(tracked[c]);
  tracked[c] = {};
  return o != nullptr;
}
struct Obj {
  int p, c;
  void method(const int &v) { slot(p, c, v); }
};
struct FutBase {
  virtual ~FutBase() {}
  virtual bool wait(int ms) = 0;
  virtual bool valid() = 0;
};
template <class F>
struct Fut : FutBase {
  F f;
  Fut(F &&x) : f(std::move(x)) {}
  bool wait(int ms) override { return ms ? f.waitFor(std::chrono::milliseconds(ms)) : f.wait(); }
  bool valid() override { return f.valid(); }
};
static std::unique_ptr<FutBase> futs[256];

struct Base {
  virtual ~Base() {}
  virtual void connect(int c, int kind) = 0;
  virtual void wconnect(int c) = 0;
  virtual void emit(int v) = 0;
  virtual void discall() = 0;
  virtual bool dslot(int) { return false; }
  virtual bool connected() = 0;
  virtual size_t count() = 0;
};
static std::shared_ptr<void> kept[256];  // slots that are also held from outside
static Base *sigs[8];
template <class S> struct Sig;
static ss::Connection forward(int q, Base *from);

template <class S>
static auto asSig(Base *b) { return &static_cast<Sig<S> *>(b)->s; }

template <class S>
struct Sig : Base {
  S s;
  int p;
  Sig(int p) : p(p) {}
  void wconnect(int c) override {
    auto f = doWait(s, c);
    futs[c].reset(new Fut<decltype(f)>(std::move(f)));
  }
  template <template <class, class...> class G, class K>
  auto doWait(G<K, int> &g, int c) {
    return ss::waitableConnect<G, K, int>(g, [c, p = this->p](const int &v) { slot(p, c, v); });
  }
  void emit(int v) override { s(v); }
  void discall() override { s.disconnect(); }
  bool dslot(int c) override {
    return s.disconnect(kept[c] ? std::static_pointer_cast<typename S::SlotType>(kept[c])
                                : std::make_shared<typename S::SlotType>([](const int &) {}));
  }
  bool connected() override { return s.connected(); }
  size_t count() override { return s.connectionCount(); }
  void connect(int c, int kind) override {
    int p = this->p;
    using SlotT = typename S::SlotType;
    using Aware = typename S::ConnectionAwareSlotType;
    auto plain = SlotT{[p, c](const int &v) { slot(p, c, v); }};
    auto aware = Aware{[p, c](const ss::ConnectionPtr &con, const int &v) {
      Self self(c, con);
      slot(p, c, v);
    }};
    if (kind == 0) conns[c] = s.connect(plain);
    else if (kind == 1) conns[c] = s.connect(aware);
    else if (kind == 2) { auto o = std::make_shared<Tracked>(p, c); auto r = o.get(); conns[c] = s.connect(std::shared_ptr<void>(o), SlotT([r](const int &v) { (*r)(v); })); track(c, o); }
    else if (kind == 3) { auto o = std::make_shared<Tracked>(p, c); conns[c] = s.connect(o); track(c, o); }
    else if (kind == 4) conns[c] = s.connect(new Obj{p, c}, &Obj::method);
    else if (kind == 5) { auto o = std::make_shared<Tracked>(p, c); conns[c] = s.connect(o, &Tracked::method); track(c, o); }
    else if (kind == 6) {
      auto sp = std::make_shared<SlotT>(plain);
      conns[c] = s.connect(sp);
      kept[c] = sp;
    }
    else if (kind == 7) conns[c] = s.connect(plain);
    else if (kind == 30) conns[c] = s.connect(plain, maf::util::directExecutor());
    else if (kind > 20 && kind < 30) conns[c] = s.connect(plain, exq[kind - 20]);
    else if (kind > 40 && kind < 50) {
      auto o = std::make_shared<Tracked>(p, c);
      conns[c] = s.connect(std::shared_ptr<void>(o), plain, exq[kind - 40]);
      track(c, o);
    } else if (kind > 10 && kind < 20) {
      int q = kind - 10;
      if (q == 3) conns[c] = s.connect(*asSig<ss::SCSignal<int>>(sigs[q]));
      else if (q == 4) conns[c] = s.connect(*asSig<ss::SignalST<int>>(sigs[q]));
      else if (q == 5) conns[c] = s.connect(*asSig<ss::SCSignalST<int>>(sigs[q]));
      else conns[c] = s.connect(*asSig<ss::Signal<int>>(sigs[q]));
    } else vs::finish("driver-error");
  }
};
// two arguments: the second one says the same as the first
struct Sig2 : Base {
  ss::Signal<int, std::string> s;
  int p = 6;
  static int chk(int v, const std::string &t) { return t == "v" + std::to_string(v) ? v : -1; }
  void wconnect(int) override { vs::finish("driver-error"); }
  void emit(int v) override { s(v, "v" + std::to_string(v)); }
  void discall() override { s.disconnect(); }
  bool connected() override { return s.connected(); }
  size_t count() override { return s.connectionCount(); }
  void connect(int c, int kind) override {
    int p = this->p;
    using State = std::tuple<int, std::string>;
    std::function<void(const int &, const std::string &)> plain =
        [p, c](const int &v, const std::string &t) { slot(p, c, chk(v, t)); };
    std::function<void(const State &)> tup = [p, c](const State &x) {
      slot(p, c, chk(std::get<0>(x), std::get<1>(x)));
    };
    if (kind == 7) conns[c] = s.connect(tup);
    else if (kind == 2) { auto o = std::make_shared<Tracked>(p, c); conns[c] = s.connect(std::shared_ptr<void>(o), plain); track(c, o); }
    else if (kind > 20 && kind < 30) conns[c] = s.connect(plain, exq[kind - 20]);
    else if (kind == 8 || kind == 30) conns[c] = s.connect(tup, maf::util::directExecutor());
    else conns[c] = s.connect(plain);
  }
};

void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  if (n == "self") {}
  if (n.compare(0, 4, "self") == 0) {
    if (selfs.empty()) return;
    a = selfs.back().first;
    auto con = selfs.back().second;
    call(n, 0, a, 0, [&] {
      return tf(n == "selfdisc" ? con->disconnect() : n == "selfreconn" ? con->reconnect() : con->connected());
    });
    return;
  }
  call(n, p, a, b, [&]() -> std::string {
    if (n == "connect") sigs[p]->connect(a, b);
    else if (n == "wconnect") sigs[p]->wconnect(a);
    else if (n == "emit") {
      try { sigs[p]->emit(a); } catch (int) { return "exc"; }
    }
    else if (n == "disc") return tf(conns[a].disconnect());
    else if (n == "reconn") return tf(conns[a].reconnect());
    else if (n == "isconn") return tf(conns[a].connected());
    else if (n == "discall") sigs[p]->discall();
    else if (n == "dslot") return tf(sigs[p]->dslot(a));
    else if (n == "drop") { delete sigs[p]; sigs[p] = nullptr; }
    else if (n == "sconn") return tf(sigs[p]->connected());
    else if (n == "count") return std::to_string(sigs[p]->count());
    else if (n == "expire") return tf(expire(a));
    else if (n == "move") {
      ss::Connection tmp{std::move(conns[a])};
      bool r = conns[a].connected() || conns[a].disconnect() || conns[a].reconnect();
      conns[a] = std::move(tmp);
      return tf(r || tmp.connected());
    }
    else if (n == "scope") {
      if (p >= 10) group[p] << std::move(conns[a]);
      else scoped[p] = std::move(conns[a]);
    }
    else if (n == "scmove") scoped[p] = std::move(scoped[a]);
    else if (n == "scdrop") {
      if (p >= 10) group[p].clear();
      else { ss::ScopedConnection t{std::move(scoped[p])}; }
    }
    else if (n == "drain") exq[p]->drain();
    else if (n == "fwait") {
      try { return tf(futs[a]->wait(b)); } catch (int) { return "exc"; }
    }
    else if (n == "fvalid") return tf(futs[a]->valid());
    else { fprintf(stderr, "unknown op %s\n", n.c_str()); vs::finish("driver-error"); }
    return "void";
  });
}
static void runOne(const std::string &text) {
  sigs[1] = new Sig<ss::Signal<int>>(1);
  sigs[2] = new Sig<ss::Signal<int>>(2);
  sigs[3] = new Sig<ss::SCSignal<int>>(3);
  sigs[4] = new Sig<ss::SignalST<int>>(4);
  sigs[5] = new Sig<ss::SCSignalST<int>>(5);
  sigs[6] = new Sig2;
  exq[1] = std::make_shared<QueueExecutor>();
  exq[2] = std::make_shared<QueueExecutor>();
  bodyLimit = 1;
  runProgram(text);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
