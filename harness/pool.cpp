// Driver for the thread pools.
// lib: common/maf/threading/**/*.cpp common/maf/logging/*.cpp
// program: (mk kind max) in setup; (run priority task) (shutdown) (destroy) (active) (max - n)
// (waitstop - task) in a task's body; bodies: task, 200 + task (its stop), 300 + task (its end)
#include <maf/threading/ThreadPoolFactory.h>

#include <cstring>
#include <condition_variable>
#include <mutex>

#include "prog.h"

using namespace drv;
static std::shared_ptr<maf::threading::IThreadPool> *pool;
static std::mutex m;
static std::condition_variable cv;
static bool stopped[512];

struct Task : maf::threading::Runnable {
  int a;
  Task(int n) : a(n) {
    if (n < 100) setAutoDeleted(true);
  }
  // not zeroed by chance: what is not asked for is not to happen
  static void *operator new(size_t n) { return memset(::operator new(n), 0xff, n); }
  void run() override { callback("run", 0, a, 0); }
  void stop() override {
    callback("stop", a, 200 + a, 0);
    std::lock_guard<std::mutex> l(m);
    stopped[a] = true;
    cv.notify_all();
  }
  ~Task() override { callback("done", a, 300 + a, 0); }
};

void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  using namespace maf::threading;
  call(n, p, a, b, [&]() -> std::string {
    if (n == "mk")
      *pool = ThreadPoolFactory::createPool(p == 1 ? DynamicCount : p == 2 ? StableCount : Priority, a);
    else if (n == "run")
      (*pool)->run(new Task(a), p);
    else if (n == "max")
      (*pool)->setMaxThreadCount(a);
    else if (n == "shutdown")
      (*pool)->shutdown();
    else if (n == "destroy")
      pool->reset();
    else if (n == "active")
      return std::to_string((*pool)->activeThreadCount());
    else if (n == "waitstop") {
      std::unique_lock<std::mutex> l(m);
      cv.wait(l, [&] { return stopped[a]; });
    } else
      vs::finish("driver-error");
    return "void";
  });
}
static void runOne(const std::string &text) {
  pool = new std::shared_ptr<maf::threading::IThreadPool>;
  runProgram(text);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
