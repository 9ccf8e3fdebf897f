// Driver for the blocking queues.
// lib: none
// program: (prog (setup op..) (threads (op..)..) (post op..)); object 1 fifo, 2 priority
#include <maf/threading/Queue.h>

#include "prog.h"

using namespace drv;
static maf::threading::Queue<int> *fifo;
static maf::threading::PriorityQueue<int> *prio;

template <class Q>
static std::string run(Q &Q_, const std::string &n, int a, int b) {
  int v = -1;
  auto got = [&](bool r) { return r ? std::to_string(v) : std::string("none"); };
  using std::chrono::milliseconds;
  if (n == "push") { const int x = a; Q_.push(x); return "void"; }
  if (n == "pushm") { int x = a; Q_.push(std::move(x)); return "void"; }
  if (n == "pushseq") {
    std::vector<int> s;
    for (int i = 0; i < b; ++i) s.push_back(a + i);
    Q_.push(s);
    return "void";
  }
  if (n == "wait") return got(Q_.wait(v));
  if (n == "waitfor") return got(Q_.waitFor(v, (long long)a));
  if (n == "waituntil")
    return got(Q_.waitUntil(v, std::chrono::system_clock::now() + milliseconds(a)));
  if (n == "trypop") return got(Q_.tryPop(v));
  if (n == "close") { Q_.close(); return "void"; }
  if (n == "reopen") { Q_.reOpen(); return "void"; }
  if (n == "clear") { Q_.clear(); return "void"; }
  if (n == "clearcb") {
    std::string r;
    Q_.clear([&](int &x) { r += std::to_string(x) + " "; });
    return r;
  }
  if (n == "size") return std::to_string(Q_.size());
  if (n == "empty") return tf(Q_.empty());
  if (n == "isclosed") return tf(Q_.isClosed());
  fprintf(stderr, "unknown op %s\n", n.c_str());
  vs::finish("driver-error");
}

void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  call(n, p, a, b, [&] { return p == 1 ? run(*fifo, n, a, b) : run(*prio, n, a, b); });
}
static void runOne(const std::string &text) {
  fifo = new maf::threading::Queue<int>;
  prio = new maf::threading::PriorityQueue<int>;
  runProgram(text);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
