// Driver for timers.
// lib: core
// program: ops (name p a b), see specs/Timer.tla
#include <maf/messaging/Processor.h>
#include <maf/messaging/SignalTimer.h>
#include <maf/messaging/SyncTimer.h>
#include <maf/messaging/Timer.h>

#include "prog.h"

using namespace drv;
using namespace maf::messaging;
static ProcessorInstance *proc;
static Timer *timers[50];
static SignalTimer *sigTimers[50];
static SyncTimer *syncTimers[50];

static Timer &T(int a) { return *timers[a]; }
static SignalTimer &S(int, int a) { return *sigTimers[a]; }
void drv::op(const Sx &o) {
  std::string n = o.op();
  int p = A(o, 1), a = A(o, 2), b = A(o, 3);
  bool sig = a >= 20 && a < 30;
  auto fire = [p, a] { callback("fire", p, a, 0); };
  call(n, p, a, b, [&]() -> std::string {
    if (n == "run") proc[p]->run();
    else if (n == "post") proc[p]->executeAsync([p, a] { callback("task", p, a, 0); });
    else if (n == "halt") proc[p]->stop();
    else if (n == "start") { if (sig) S(p, a).start(b); else T(a).start(b, fire); }
    else if (n == "starton") T(a).start(b, fire, proc[p]);
    else if (n == "after") Timer::timeoutAfter(b, fire);
    else if (n == "afteron") Timer::timeoutAfter(b, fire, proc[p]);
    else if (n == "stop") { if (sig) S(p, a).stop(); else T(a).stop(); }
    else if (n == "stopon") T(a).stop(proc[p]);
    else if (n == "restart") { if (sig) S(p, a).restart(); else T(a).restart(); }
    else if (n == "running") return tf(sig ? S(p, a).running() : T(a).running());
    else if (n == "cyc") { if (sig) S(p, a).setCyclic(b); else T(a).setCyclic(b); }
    else if (n == "del") { auto t = timers[a]; timers[a] = new Timer; delete t; }
    else if (n == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(b));
    else if (n == "sstart") syncTimers[a]->start(b, [a] { callback("sfire", 0, a, 0); });
    else if (n == "sstop") syncTimers[a]->stop();
    else if (n == "srestart") syncTimers[a]->restart();
    else if (n == "srunning") return tf(syncTimers[a]->running());
    else if (n == "scyc") syncTimers[a]->setCyclic(b);
    else vs::finish("driver-error");
    return "void";
  });
}
static void runOne(const std::string &text) {
  proc = new ProcessorInstance[3];
  proc[1] = Processor::create();
  proc[2] = Processor::create();
  // leaked on purpose: the end of the run is not part of the programs
  for (int i = 1; i < 20; ++i) timers[i] = new Timer;
  for (int i = 20; i < 23; ++i) {  // used on processor 1
    sigTimers[i] = new SignalTimer;
    sigTimers[i]->timeoutSignal.connect([i] { callback("fire", 1, i, 0); });
  }
  for (int i = 30; i < 34; ++i) syncTimers[i] = new SyncTimer;
  bodyLimit = 3;
  runProgram(text, 100);
}
int main(int argc, char **argv) { return vs::driverMain(argc, argv, runOne); }
