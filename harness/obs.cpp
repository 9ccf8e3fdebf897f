// Driver for observables.
// lib: common/maf/utils/DirectExecutor.cpp common/maf/logging/*.cpp
// See specs/Obs.tla for the objects, the operations and the kinds of observers.
#include <maf/Observable.h>
#include <maf/utils/DirectExecutor.h>

#include "prog.h"

using namespace drv;
namespace ss = maf::signal_slots;
using maf::util::ExecutorIFPtr;

struct QueueExecutor : maf::util::ExecutorIF {
  std::mutex m;
  std::list<CallbackType> l;
  bool execute(CallbackType c) noexcept override {
    std::lock_guard g(m);
    l.push_back(std::move(c));
    return true;
  }
  void drain() {
    for (;;) {
      CallbackType c;
      {
        std::lock_guard g(m);
        if (l.empty()) return;
        c = std::move(l.front());
        l.pop_front();
      }
      try { c(); } catch (int) {}
    }
  }
};
static std::shared_ptr<QueueExecutor> exq[3];
static ss::Connection conns[512];
static thread_local std::vector<std::pair<int, ss::ConnectionPtr>> selfs;
struct Self {
  Self(int c, const ss::ConnectionPtr &p) { selfs.emplace_back(c, p); }
  ~Self() { selfs.pop_back(); }
};
struct Tracked {
  int busy = 0;
  ~Tracked() { if (busy) vs::finish("tracked-object-destroyed-while-its-slot-runs"); }
};
static std::mutex trackedMutex;
static std::shared_ptr<Tracked> tracked[512];
static bool expire(int c) {
  std::shared_ptr<Tracked> o;
  std::lock_guard g(trackedMutex);
  o = std::move(tracked[c]);
  tracked[c] = {};
  return o != nullptr;
}
struct FutBase {
  virtual ~FutBase() {}
  virtual bool wait(int ms) = 0;
};
template <class F>
struct Fut : FutBase {
  F f;
  Fut(F &&x) : f(std::move(x)) {}
  bool wait(int ms) override { return ms ? f.waitFor(std::chrono::milliseconds(ms)) : f.wait(); }
};
static std::unique_ptr<FutBase> futs[512];

struct Base {
  int p = 0;
  virtual ~Base() {}
  virtual void connect(int c, int kind, bool silent) = 0;
  virtual void wconnect(int c) = 0;
  virtual std::string modify(const std::string &n, int a, int b) = 0;
  virtual std::string read(const std::string &n, int a) = 0;
  virtual size_t count() = 0;
};
static Base *objs[12];
static void slot1(int p, int c, int v) { callback("slot", p, c, v); }

// (from when the connection has been made: the connecting call holds the object itself)
static void track(int c, std::shared_ptr<Tracked> t) {
  std::lock_guard g(trackedMutex);
  tracked[c] = std::move(t);
}
template <class T> struct IsTwo : std::false_type {};
// one part
template <class O>
struct One : Base {
  O o;
  One(int q) { p = q; }
  size_t count() override { return o.connectionCount(); }
  void wconnect(int c) override {
    auto f = doWait(o, c);
    futs[c].reset(new Fut<decltype(f)>(std::move(f)));
  }
  template <template <class, class...> class G, class K>
  auto doWait(G<K, int> &, int c) {
    using Sig = ss::details::BasicSignal<K, int>;
    return ss::details::waitableConnect<ss::details::BasicSignal, K, int>(
        static_cast<Sig &>(o), [c, p = this->p](const int &v) { slot1(p, c, v); });
  }
  template <class M, template <class...> class K>
  auto doWait(ss::details::BasicObservableThreadSafe<M, K, int> &, int c) {
    using Keeper = typename O::SlotsKeeperType;
    using Sig = ss::details::BasicSignal<Keeper, int>;
    return ss::details::waitableConnect<ss::details::BasicSignal, Keeper, int>(
        static_cast<Sig &>(o), [c, p = this->p](const int &v) { slot1(p, c, v); });
  }
  template <class... A>
  void conn(bool silent, int c, A &&... a) {
    conns[c] = silent ? o.silentlyConnect(std::forward<A>(a)...) : o.connect(std::forward<A>(a)...);
  }
  void connect(int c, int kind, bool silent) override {
    int p = this->p;
    using SlotT = typename O::SlotType;
    auto plain = SlotT{[p, c](const int &v) { slot1(p, c, v); }};
    if (kind == 0 && c % 2) conn(silent, c, [p, c](const int &v) { slot1(p, c, v); });
    else if (kind == 0 || kind == 7) conn(silent, c, plain);
    else if (kind == 1)
      conn(silent, c, typename O::ConnectionAwareSlotType{[p, c](const ss::ConnectionPtr &con, const int &v) {
        Self self(c, con);
        slot1(p, c, v);
      }});
    else if (kind == 2) {
      auto t = std::make_shared<Tracked>();
      auto r = t.get();
      conn(silent, c, std::shared_ptr<void>(t), SlotT{[p, c, r](const int &v) {
        ++r->busy;
        try { slot1(p, c, v); } catch (int) { --r->busy; throw; }
        --r->busy;
      }});
      track(c, std::move(t));
    } else if (kind > 20 && kind < 30) conn(silent, c, plain, ExecutorIFPtr(exq[kind - 20]));
    else vs::finish("driver-error");
  }
  std::string modify(const std::string &n, int a, int b) override {
    if (n == "set" || n == "setrev") o.set(a);
    else if (n == "assign") o = a;
    else if (n == "mut") { auto m = o.mutable_(); *m = a; }
    else if (n == "mut2") { auto m = o.mutable_(); *m = a; m.operator=(b); }
    else if (n == "add") return std::to_string(add(o, a));
    else if (n == "inc") return std::to_string(inc(o));
    else if (n == "silent") *o.silentMutable() = a;
    else if (n == "setpart" || n == "mutpart") o.mutable_() = b;
    else if (n == "silentpart") { auto m = o.silentMutable(); *m = b; }
    else vs::finish("driver-error");
    return "void";
  }
  template <class X> int add(X &x, int a) { return x += a; }
  template <class X> int inc(X &x) { return ++x; }
  std::string read(const std::string &n, int) override {
    if (n == "get") return std::to_string(o.get());
    if (n == "imm") { auto m = o.immutable(); return std::to_string(*m); }
    return std::to_string(*o.operator->());
  }
};
// two parts; C: a join, which is not modified directly
template <class O, bool C = false>
struct TwoObj : Base {
  O *o;
  TwoObj(int q, O *x) : o(x) { p = q; }
  size_t count() override { return o->connectionCount(); }
  void wconnect(int c) override {
    using Keeper = typename O::SlotsKeeperType;
    using Sig = ss::details::BasicSignal<Keeper, int, int>;
    auto f = ss::details::waitableConnect<ss::details::BasicSignal, Keeper, int, int>(
        static_cast<Sig &>(*o), [c, p = this->p](const int &x, const int &y) { slot1(p, c, 100 * x + y); });
    futs[c].reset(new Fut<decltype(f)>(std::move(f)));
  }
  template <class... A>
  void conn(bool silent, int c, A &&... a) {
    conns[c] = silent ? o->silentlyConnect(std::forward<A>(a)...) : o->connect(std::forward<A>(a)...);
  }
  void connect(int c, int kind, bool silent) override {
    int p = this->p;
    using State = std::tuple<int, int>;
    std::function<void(const int &, const int &)> plain = [p, c](const int &x, const int &y) { slot1(p, c, 100 * x + y); };
    std::function<void(const State &)> tup = [p, c](const State &s) { slot1(p, c, 100 * std::get<0>(s) + std::get<1>(s)); };
    if (kind == 0 && c % 2) conn(silent, c, [p, c](const int &x, const int &y) { slot1(p, c, 100 * x + y); });
    else if (kind == 0) conn(silent, c, plain);
    else if (kind == 7) conn(silent, c, tup);
    else if (kind == 1)
      conn(silent, c, std::function<void(const ss::ConnectionPtr &, const int &, const int &)>{
        [p, c](const ss::ConnectionPtr &con, const int &x, const int &y) {
          Self self(c, con);
          slot1(p, c, 100 * x + y);
        }});
    else if (kind == 2) {
      auto t = std::make_shared<Tracked>();
      auto r = t.get();
      conn(silent, c, std::shared_ptr<void>(t), std::function<void(const int &, const int &)>{
        [p, c, r](const int &x, const int &y) {
          ++r->busy;
          try { slot1(p, c, 100 * x + y); } catch (int) { --r->busy; throw; }
          --r->busy;
        }});
      track(c, std::move(t));
    } else if (kind > 20 && kind < 30) conn(silent, c, plain, ExecutorIFPtr(exq[kind - 20]));
    else vs::finish("driver-error");
  }
  std::string modify(const std::string &n, int a, int b) override {
    if constexpr (!C) {
      if (n == "set") o->set(a / 100, a % 100);
      else if (n == "setrev") o->template set<1, 0>(a % 100, a / 100);
      else if (n == "assign") *o = std::tuple<int, int>{a / 100, a % 100};
      else if (n == "mut") { auto m = o->mutable_(); *m = std::tuple<int, int>{a / 100, a % 100}; }
      else if (n == "mut2") {
        auto m = o->mutable_();
        m.template get<0>() = a / 100;
        m.template get<1>() = a % 100;
        std::get<0>(*m) = b / 100;
        std::get<1>(*m.operator->()) = b % 100;
      }
      else if (n == "setpart") { if (a == 1) o->template set<0>(b); else o->template set<1>(b); }
      else if (n == "mutpart") { if (a == 1) { auto m = o->template mutable_<0>(); *m = b; } else { auto m = o->template mutable_<1>(); *m = b; } }
      else if (n == "silent") o->silentSet(a / 100, a % 100);
      else if (n == "silentpart") { if (a == 1) o->template silentSet<0>(b); else o->template silentSet<1>(b); }
      else vs::finish("driver-error");
    } else vs::finish("driver-error");
    return "void";
  }
  std::string read(const std::string &n, int a) override {
    if (n == "get") { auto v = o->get(); return std::to_string(100 * std::get<0>(v) + std::get<1>(v)); }
    if (n == "imm") { auto m = o->immutable(); return std::to_string(100 * m.template get<0>() + m.template get<1>()); }
    if (a == 1) { auto m = o->template immutable<0>(); return std::to_string(*m); }
    return std::to_string(o->template get<1>());
  }
};

using O1 = ss::Observable<int>;
using O2 = ss::Observable<int, int>;
using OS = ss::SCObservable<int>;
using S1 = ss::ObservableST<int>;
using S2 = ss::ObservableST<int, int>;
template <class T> T &ref(int p) { return static_cast<One<T> *>(objs[p])->o; }

static void join(int p) {
  if (p == 3) {
    auto x = new auto(ss::mt::join(ref<O1>(1), ref<O1>(4)));
    objs[3] = new TwoObj<std::remove_reference_t<decltype(*x)>, true>(3, x);
  } else if (p == 10) {
    auto x = new auto(ss::mt::join(ExecutorIFPtr(exq[1]), ref<O1>(1), ref<O1>(4)));
    objs[10] = new TwoObj<std::remove_reference_t<decltype(*x)>, true>(10, x);
  } else {
    auto x = new auto(ss::st::join(ref<S1>(6), ref<S1>(9)));
    objs[8] = new TwoObj<std::remove_reference_t<decltype(*x)>, true>(8, x);
  }
}

void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  if (n == "selfdisc") {
    if (selfs.empty()) return;
    a = selfs.back().first;
    auto con = selfs.back().second;
    call(n, 0, a, 0, [&] { return tf(con->disconnect()); });
    return;
  }
  call(n, p, a, b, [&]() -> std::string {
    if (n == "connect" || n == "sconnect" || n == "wconnect") {
      try {
        if (n == "wconnect") objs[p]->wconnect(a);
        else objs[p]->connect(a, b, n == "sconnect");
      } catch (int) { return "exc"; }
    } else if (n == "get" || n == "imm" || n == "getpart") return objs[p]->read(n, a);
    else if (n == "disc") return tf(conns[a].disconnect());
    else if (n == "reconn") return tf(conns[a].reconnect());
    else if (n == "isconn") return tf(conns[a].connected());
    else if (n == "count") return std::to_string(objs[p]->count());
    else if (n == "expire") return tf(expire(a));
    else if (n == "join") join(p);
    else if (n == "drain") exq[p]->drain();
    else if (n == "fwait") {
      try { return tf(futs[a]->wait(b)); } catch (int) { return "exc"; }
    } else {
      try { return objs[p]->modify(n, a, b); } catch (int) { return "exc"; }
    }
    return "void";
  });
}
static void runOne(const std::string &text) {
  objs[1] = new One<O1>(1);
  objs[4] = new One<O1>(4);
  objs[2] = new TwoObj<O2>(2, new O2);
  objs[5] = new One<OS>(5);
  objs[6] = new One<S1>(6);
  objs[9] = new One<S1>(9);
  objs[7] = new TwoObj<S2>(7, new S2);
  exq[1] = std::make_shared<QueueExecutor>();
  exq[2] = std::make_shared<QueueExecutor>();
  bodyLimit = 1;
  runProgram(text);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
