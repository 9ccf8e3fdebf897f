// Driver for serialisation: writes given values, reads them back, whole and truncated.
// lib: common/maf/messaging/client-server/CSMessage.cpp common/maf/messaging/client-server/CSError.cpp common/maf/messaging/client-server/Address.cpp common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp common/maf/logging/*.cpp
// plain: -fsanitize=address,undefined -fno-sanitize-recover=undefined -fdelayed-template-parsing -O1
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/serialization/AggregateDump.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/VariantSerializer.h>
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>

#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "maf/messaging/client-server/ipc/LocalIPCMessage.h"

using namespace maf;
using S = std::string;
using u8 = uint8_t;

// s-expressions of numbers: 7 or ( ... )
struct Sx {
  bool atom = false;
  long n = 0;
  std::vector<Sx> l;
};
static Sx parse(const char *&p) {
  while (*p == ' ') ++p;
  Sx r;
  if (*p == '(') {
    ++p;
    for (;;) {
      while (*p == ' ') ++p;
      if (*p == ')') { ++p; break; }
      r.l.push_back(parse(p));
    }
  } else {
    r.atom = true;
    r.n = strtol(p, (char **)&p, 10);
  }
  return r;
}

// what the specification calls values: sequences of sequences of ... bytes
template <class T, class = void> struct IO;
template <class T> T get(const Sx &x) { T v{}; IO<T>::get(x, v); return v; }
template <class T> void put(std::ostream &o, const T &v) { IO<T>::put(o, v); }
template <class T> S shape() { return IO<T>::shape(); }

template <class T> struct IO<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static void get(const Sx &x, T &v) {
    unsigned char b[sizeof(T)];
    for (size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)x.l.at(i).n;
    memcpy(&v, b, sizeof(T));
  }
  static void put(std::ostream &o, const T &v) {
    unsigned char b[sizeof(T)];
    memcpy(b, &v, sizeof(T));
    o << "[";
    for (size_t i = 0; i < sizeof(T); ++i) o << (i ? "," : "") << (int)b[i];
    o << "]";
  }
  static S shape() {
    S d = std::is_same_v<T, bool> ? "bool" : "num";
    return "{\"k\":\"" + d + "\",\"w\":" + std::to_string(sizeof(T)) + "}";
  }
};
template <class T> struct IO<T, std::enable_if_t<std::is_base_of_v<S, T>>> {
  static void get(const Sx &x, T &v) { for (auto &e : x.l) v.push_back((char)e.n); }
  static void put(std::ostream &o, const T &v) {
    o << "[";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << (int)(unsigned char)v[i];
    o << "]";
  }
  static S shape() { return "{\"k\":\"str\"}"; }
};
template <class C> struct SeqIO {
  using E = typename srz::internal::DeserializableType<typename C::value_type>::Type;
  static void get(const Sx &x, C &v) { for (auto &e : x.l) v.insert(v.end(), ::get<E>(e)); }
  static void put(std::ostream &o, const C &v) {
    o << "[";
    const char *sep = "";
    for (const auto &e : v) { o << sep; ::put<E>(o, e); sep = ","; }
    o << "]";
  }
  static S shape() { return "{\"k\":\"seq\",\"e\":" + ::shape<E>() + "}"; }
};
// move-only elements
template <class C> struct SetIO : SeqIO<C> {
  static S shape() { return "{\"k\":\"set\",\"e\":" + ::shape<typename SeqIO<C>::E>() + "}"; }
};
template <class C> struct BagIO : SeqIO<C> {
  static S shape() { return "{\"k\":\"bag\",\"e\":" + ::shape<typename SeqIO<C>::E>() + "}"; }
};
template <> struct IO<std::u16string> : SeqIO<std::u16string> {};
template <class T> struct IO<std::vector<T>> : SeqIO<std::vector<T>> {};
template <class T> struct IO<std::list<T>> : SeqIO<std::list<T>> {};
template <class T> struct IO<std::deque<T>> : SeqIO<std::deque<T>> {};
template <class T> struct IO<std::set<T>> : SetIO<std::set<T>> {};
template <class T> struct IO<std::unordered_set<T>> : SetIO<std::unordered_set<T>> {};
template <class T> struct IO<std::multiset<T>> : BagIO<std::multiset<T>> {};
template <class K, class T> struct MapIO {
  // elements with the same key are left out by the generator
};
template <class K, class T> struct IO<std::map<K, T>> : SetIO<std::map<K, T>> {
  static S shape() { return "{\"k\":\"map\",\"e\":" + ::shape<std::pair<K, T>>() + "}"; }
};
template <class K, class T> struct IO<std::unordered_map<K, T>> : SetIO<std::unordered_map<K, T>> {
  static S shape() { return "{\"k\":\"map\",\"e\":" + ::shape<std::pair<K, T>>() + "}"; }
};
template <class K, class T> struct IO<std::multimap<K, T>> : BagIO<std::multimap<K, T>> {};
template <class Tup> struct TupIO {
  template <size_t... I> static void get_(const Sx &x, Tup &v, std::index_sequence<I...>) {
    (IO<std::decay_t<std::tuple_element_t<I, Tup>>>::get(x.l.at(I), std::get<I>(v)), ...);
  }
  template <size_t... I> static void put_(std::ostream &o, const Tup &v, std::index_sequence<I...>) {
    o << "[";
    ((o << (I ? "," : ""), IO<std::decay_t<std::tuple_element_t<I, Tup>>>::put(o, std::get<I>(v))), ...);
    o << "]";
  }
  template <size_t... I> static S shape_(std::index_sequence<I...>) {
    S r;
    ((r += (I ? "," : "") + ::shape<std::decay_t<std::tuple_element_t<I, Tup>>>()), ...);
    return "{\"k\":\"tup\",\"es\":[" + r + "]}";
  }
  using Ix = std::make_index_sequence<std::tuple_size_v<Tup>>;
  static void get(const Sx &x, Tup &v) { get_(x, v, Ix{}); }
  static void put(std::ostream &o, const Tup &v) { put_(o, v, Ix{}); }
  static S shape() { return shape_(Ix{}); }
};
template <class A, class B> struct IO<std::pair<A, B>> : TupIO<std::pair<A, B>> {};
template <class... A> struct IO<std::tuple<A...>> : TupIO<std::tuple<A...>> {};
template <class P, class T, bool Raw> struct PtrIO {
  static void get(const Sx &x, P &v) { if (!x.l.empty()) v = P(new T(::get<T>(x.l[0]))); }
  static void put(std::ostream &o, const P &v) {
    o << "[";
    if (v) ::put<T>(o, *v);
    o << "]";
  }
  static S shape() { return "{\"k\":\"ptr\",\"e\":" + ::shape<T>() + "}"; }
};
template <class T> struct IO<std::shared_ptr<T>> : PtrIO<std::shared_ptr<T>, T, false> {};
template <class T> struct IO<std::unique_ptr<T>> : PtrIO<std::unique_ptr<T>, T, false> {};
template <class T> struct IO<T *> : PtrIO<T *, T, true> {};
template <class... A> struct IO<std::variant<A...>> {
  using V = std::variant<A...>;
  template <size_t... I> static void get_(const Sx &x, V &v, std::index_sequence<I...>) {
    ((x.l[0].l[0].n == (long)I ? (void)(v = V(std::in_place_index<I>, ::get<A>(x.l[1]))) : (void)0), ...);
  }
  static void get(const Sx &x, V &v) { get_(x, v, std::index_sequence_for<A...>{}); }
  static void put(std::ostream &o, const V &v) {
    o << "[[" << v.index() << "],";
    std::visit([&](auto &e) { ::put<std::decay_t<decltype(e)>>(o, e); }, v);
    o << "]";
  }
  static S shape() {
    S r;
    ((r += (r.empty() ? "" : ",") + ::shape<A>()), ...);
    return "{\"k\":\"var\",\"es\":[" + r + "]}";
  }
};
// annotated structures, and plain ones
template <class T> struct IO<T, std::enable_if_t<srz::has_as_tuple_method<T>::value>> {
  static void get(const Sx &x, T &v) { auto t = v.as_tuple(); TupIO<decltype(t)>::get(x, t); }
  static void put(std::ostream &o, const T &v) { auto t = v.cas_tuple(); TupIO<decltype(t)>::put(o, t); }
  static S shape() { return TupIO<decltype(std::declval<T &>().as_tuple())>::shape(); }
};
struct Pod {
  int16_t a; S b; std::vector<u8> c;
  bool operator==(const Pod &o) const { return std::tie(a, b, c) == std::tie(o.a, o.b, o.c); }
  bool operator!=(const Pod &o) const { return !(*this == o); }
  bool operator<(const Pod &o) const { return std::tie(a, b, c) < std::tie(o.a, o.b, o.c); }
};
struct PodNest { u8 x; Pod p; };
template <> struct IO<Pod> {
  static void get(const Sx &x, Pod &v) { auto t = std::tie(v.a, v.b, v.c); TupIO<decltype(t)>::get(x, t); }
  static void put(std::ostream &o, const Pod &v) { auto t = std::tie(v.a, v.b, v.c); TupIO<decltype(t)>::put(o, t); }
  static S shape() { return TupIO<std::tuple<int16_t, S, std::vector<u8>>>::shape(); }
};
template <> struct IO<PodNest> {
  static void get(const Sx &x, PodNest &v) { auto t = std::tie(v.x, v.p); TupIO<decltype(t)>::get(x, t); }
  static void put(std::ostream &o, const PodNest &v) { auto t = std::tie(v.x, v.p); TupIO<decltype(t)>::put(o, t); }
  static S shape() { return TupIO<std::tuple<u8, Pod>>::shape(); }
};
struct MyStr : S { using S::S; };
enum class Color : u8 { A, B };
enum class Wide : int32_t { A, B };

#include <maf/utils/serialization/SerializableObjectBegin.mc.h>
OBJECT(Header)
  MEMBERS((std::string, index), (std::string, name))
ENDOBJECT(Header)
using HeaderMap = std::map<u8, Header>;
OBJECT(Complex)
  MEMBERS((int64_t, index, 100), (std::string, name), (HeaderMap, headers), (std::vector<std::string>, list), (double, d))
ENDOBJECT(Complex)
OBJECT(WithPod)
  MEMBERS((Pod, pod), (int, age, 0))
ENDOBJECT(WithPod)
#include <maf/utils/serialization/SerializableObjectEnd.mc.h>

template <class... T> struct List {};
using Types = List<
    int8_t, u8, int16_t, uint32_t, int64_t, float, double, bool, char, Color, Wide,                 // 0
    S, std::u16string, MyStr,                                                                     // 11
    std::vector<int>, std::vector<bool>, std::vector<S>, std::list<int16_t>, std::deque<u8>,       // 14
    std::set<int>, std::set<S>, std::multiset<int16_t>, std::unordered_set<int16_t>,              // 19
    std::map<int16_t, S>, std::map<S, std::vector<std::set<u8>>>, std::multimap<u8, u8>,          // 23
    std::unordered_map<int16_t, int16_t>, std::map<std::set<u8>, std::set<u8>>,                   // 26
    std::pair<int, S>, std::tuple<int8_t, S, std::vector<u8>>, std::vector<std::pair<u8, u8>>,    // 28
    std::vector<std::tuple<u8, S>>, std::vector<std::vector<std::vector<u8>>>,                    // 31
    std::shared_ptr<S>, std::unique_ptr<int>, S *, std::vector<std::shared_ptr<int16_t>>,         // 33
    std::map<u8, std::shared_ptr<S>>, std::shared_ptr<std::vector<u8>>,                           // 37
    Header, Complex, WithPod, Pod, PodNest, std::vector<Header>, std::shared_ptr<Complex>,        // 39
    std::variant<u8, S>, std::vector<std::variant<u8, S, std::vector<u8>>>,                       // 46
    std::tuple<std::pair<u8, S>, std::shared_ptr<u8>, std::map<u8, u8>>, messaging::Address,      // 48
    std::pair<std::vector<u8>, std::pair<S, u8>>, std::tuple<u8, u8>, std::shared_ptr<std::shared_ptr<u8>>,
    std::unordered_map<u8, std::vector<S>>, std::set<std::pair<u8, S>>, std::vector<Color>, std::tuple<S>,
    std::shared_ptr<std::tuple<>>, std::pair<int8_t, bool>, std::list<std::list<S>>,
    std::variant<Header, std::shared_ptr<u8>, std::map<u8, S>, double>, std::map<S, Header>, std::deque<std::unique_ptr<S>>>;

// a value of some type, with what can be done with it
struct Val {
  virtual ~Val() = default;
  virtual void write(srz::OByteStream &) = 0;
  virtual void write(std::ostream &) = 0;
  virtual bool read(srz::IByteStream &, S &) = 0;
  virtual bool read(srz::IByteStreamView &, S &) = 0;
  virtual bool read(std::istream &, S &) = 0;
  virtual long size() = 0;
  virtual S text() = 0;
};
template <class T> struct has_size : std::true_type {};
template <class... A> struct has_size<std::variant<A...>> : std::false_type {};
template <class... A> struct has_size<std::vector<std::variant<A...>>> : std::false_type {};
template <class T> struct ValT : Val {
  T v{};
  template <class O> static void w(O &o, const T &v) { srz::SR<O> sr{o}; sr << v; }
  template <class I> static bool r(I &i, S &out) {
    T x{};
    bool ok = srz::deserialize(i, x);
    std::ostringstream o;
    if (ok) put(o, x);
    out = o.str();
    return ok;
  }
  void write(srz::OByteStream &o) override { w(o, v); }
  void write(std::ostream &o) override { w(o, v); }
  bool read(srz::IByteStream &i, S &o) override { return r(i, o); }
  bool read(srz::IByteStreamView &i, S &o) override { return r(i, o); }
  bool read(std::istream &i, S &o) override { return r(i, o); }
  long size() override {
    if constexpr (has_size<T>::value) return srz::serializedSize(v); else return -1;
  }
  S text() override { std::ostringstream o; put(o, v); return o.str(); }
};
using Make = std::function<std::unique_ptr<Val>(const Sx &)>;
static std::vector<Make> makers;
static std::vector<S> shapes;
template <class... T> void reg(List<T...>) {
  (makers.push_back([](const Sx &x) -> std::unique_ptr<Val> {
     auto r = std::make_unique<ValT<T>>();
     IO<T>::get(x, r->v);
     return r;
   }), ...);
  (shapes.push_back(shape<T>()), ...);
}

static S bytes(const S &b) { std::ostringstream o; put(o, b); return o.str(); }
template <class F> void list(std::ostream &o, size_t n, F f) {
  o << "[";
  for (size_t i = 0; i < n; ++i) { if (i) o << ","; f(i); }
  o << "]";
}
// a copy without room to spare, so that reading behind it is noticed
static S exact(const S &b) { S r(b.data(), b.size()); r.shrink_to_fit(); return r; }

static void values(const Sx &x) {
  int kind = x.l[1].l[0].n;
  std::vector<std::unique_ptr<Val>> vs;
  std::vector<int> ts;
  for (size_t i = 2; i < x.l.size(); ++i) {
    ts.push_back(x.l[i].l[0].l[0].n);
    vs.push_back(makers.at(ts.back())(x.l[i].l[1]));
  }
  S b;
  if (kind == 1) {
    std::ostringstream o;
    for (auto &v : vs) v->write(o);
    b = o.str();
  } else {
    srz::OByteStream o;
    for (auto &v : vs) v->write(o);
    b = o.bytes();
  }
  auto &o = std::cout;
  o << "{\"kind\":" << kind << ",\"t\":";
  list(o, ts.size(), [&](size_t i) { o << ts[i]; });
  o << ",\"v\":";
  list(o, vs.size(), [&](size_t i) { o << vs[i]->text(); });
  o << ",\"size\":";
  list(o, vs.size(), [&](size_t i) { o << vs[i]->size(); });
  o << ",\"bytes\":" << bytes(b);
  // reading: how many values could be read, whether some could after one that could not
  std::ostringstream cuts;
  std::set<S> wrong;
  for (size_t n = 0; n <= b.size(); ++n) {
    size_t good = 0, later = 0;
    bool bad = false;
    auto all = [&](auto isp) {
      for (auto &v : vs) {
        S out, ahead;
        if constexpr (std::is_same_v<std::decay_t<decltype(isp)>, std::unique_ptr<srz::IByteStream>>) {
          if (kind == 3) isp = std::make_unique<srz::IByteStream>(*isp);   // goes on with a copy
          if (kind == 4) {                                                 // looked at through a view first
            srz::IByteStreamView w(*isp);
            S again;
            if (v->read(w, again)) { if (!bad) ahead = again; } else ahead = "-";
          }
        }
        auto &is = *isp;
        if (v->read(is, out)) {
          if (bad) ++later; else ++good;
          if (!ahead.empty() && ahead != out && !bad) wrong.insert("[0,[]]");
          if (!bad && out != v->text()) wrong.insert("[" + std::to_string(&v - &vs[0] + 1) + "," + out + "]");
        } else {
          bad = true;
        }
      }
    };
    S part = exact(b.substr(0, n));
    if (kind == 1) {
      all(std::make_unique<std::istringstream>(part));
    } else if (kind == 2) {
      all(std::make_unique<srz::IByteStreamView>(part));
    } else {
      all(std::make_unique<srz::IByteStream>(std::move(part)));
    }
    if (n) cuts << ",";
    cuts << "[" << good << "," << later << "]";
  }
  o << ",\"wrong\":[";
  const char *sep = "";
  for (auto &w : wrong) { o << sep << w; sep = ","; }
  o << "],\"cuts\":[" << cuts.str() << "]}" << std::endl;
}

// messages between processes: (service operation code request address-name port kind payload)
// kind 0: none, 1: error (description code), 2: data (a Header)
struct Unit {};
using namespace messaging;
using namespace messaging::ipc::local;
static void message(const Sx &x) {
  auto sid = get<S>(x.l[1]), op = get<S>(x.l[2]);
  auto code = get<OpCode>(x.l[3]);
  auto req = get<RequestID>(x.l[4]);
  Address addr{get<S>(x.l[5]), get<uint16_t>(x.l[6])};
  int kind = x.l[7].l[0].n;
  LocalIPCMessage m(sid, op, code, req, nullptr, addr);
  if (kind == 1) m.setPayload(std::make_shared<CSError>(get<S>(x.l[8].l[0]), get<CSError::ErrorCode>(x.l[8].l[1])));
  if (kind == 2) {
    auto h = std::make_shared<Header>();
    IO<Header>::get(x.l[8], *h);
    m.setPayload(ParamTrait::translate(h));
  }
  S b = m.toBytes();
  auto &o = std::cout;
  int type = (int)(m.payload() ? m.payload()->type() : CSPayloadType::NA);
  auto show = [&](std::ostream &o, LocalIPCMessage &m, bool readBack) {
    o << "[";
    put(o, m.serviceID()); o << ",";
    put(o, m.operationID()); o << ",";
    put(o, m.operationCode()); o << ",";
    put(o, m.requestID()); o << ",";
    put(o, m.sourceAddress()); o << ",[" << type << "]";
    bool ok = true, error = m.payload() && m.payload()->type() == CSPayloadType::Error;
    if (kind == 1) {
      ok = error;
      if (ok) {
        auto e = static_cast<CSError *>(m.payload().get());
        o << ",";
        put(o, e->description()); o << ",";
        put(o, e->code());
      }
    } else if (kind == 2) {
      auto h = error ? nullptr : ParamTrait::translate<Header>(m.payload());
      ok = h != nullptr;
      if (h) { o << ",["; put(o, *h); o << "]"; }
    } else {
      ok = !error;
    }
    o << "]";
    return ok;
  };
  o << "{\"kind\":9,\"pk\":" << kind << ",\"v\":";
  show(o, m, false);
  o << ",\"bytes\":" << bytes(b);
  std::ostringstream a, cuts;
  show(a, m, false);
  std::set<S> wrong;
  for (size_t n = 0; n <= b.size(); ++n) {
    LocalIPCMessage r;
    bool ok = r.fromBytes(exact(b.substr(0, n)));
    if (ok) {
      std::ostringstream s;
      ok = show(s, r, true);
      if (ok && s.str() != a.str()) wrong.insert("[1," + s.str() + "]");
    }
    cuts << (n ? "," : "") << "[" << (ok ? 1 : 0) << ",0]";
  }
  o << ",\"wrong\":[";
  const char *sep = "";
  for (auto &w : wrong) { o << sep << w; sep = ","; }
  o << "],\"cuts\":[" << cuts.str() << "]}" << std::endl;
}

int main(int argc, char **argv) {
  reg(Types{});
  if (argc > 1 && S(argv[1]) == "--shapes") {
    for (auto &s : shapes) std::cout << s << "\n";
    return 0;
  }
  S line;
  while (std::getline(std::cin, line)) {
    const char *p = line.c_str();
    auto x = parse(p);
    if (x.l[0].l[0].n == 0) values(x); else message(x);
  }
}
