// vsched: a deterministic, virtual-time scheduler for real threads.
//
// The code under test is compiled with -fsanitize=thread but linked against THIS
// runtime instead of libtsan: every synchronisation operation, atomic access and
// (optionally) plain memory access of the code under test becomes a point at which
// the scheduler may hand control to another thread.  Exactly one thread runs at any
// time, so the recorded log of events is a total order and a run is a function of
// (program, strategy, seed).  Clocks are virtual.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {

enum Strategy { SEQ = 0, RANDOM = 1, PCT = 2 };

struct Config {
  Strategy strategy = SEQ;
  uint64_t seed = 1;
  double pSwitch = 0.2;    // RANDOM: probability of a switch at a sync point
  double pData = 0.0;      // RANDOM: probability of a switch at a plain access
  double pTime = 0.0;      // probability that the earliest deadline fires early
  double pSpurious = 0.0;  // probability of a spurious condvar wakeup
  double pShortIo = 0.0;   // probability that a read()/write() moves less than asked
  int pctDepth = 3;        // PCT: number of priority change points
  uint64_t pctSteps = 2000;  // PCT: estimated number of points in the run
  bool dataPoints = false;   // PCT: plain accesses count as points
  uint64_t maxSteps = 2000000;
};

// controlled section ---------------------------------------------------------
void begin(const Config &cfg);  // the caller becomes thread 0
int self();
int &tag();  // a number of the current thread's, inherited by the threads it creates
// Blocks the caller until every other thread is blocked or finished.
// Never lets virtual time pass.
void quiesce();
// Lets virtual time pass by ns (threads whose deadline expires run), then quiesces.
void advance(uint64_t ns);
uint64_t now();              // virtual ns since begin()
void point();                // explicit scheduling point
bool threadFinished(int tid);
int threadCount();
// label of what the thread is currently blocked in ("" when not blocked)
std::string blockedIn(int tid);

// event log --------------------------------------------------------------------
void event(const std::string &json);  // appends one event object
[[noreturn]] void finish(const char *status);  // flush and _exit

// run manager --------------------------------------------------------------------
// A driver binary: main() { return vs::driverMain(argc, argv, runOne); }
// runOne(program text) is executed in a forked child as controlled thread 0.
int driverMain(int argc, char **argv, void (*runOne)(const std::string &prog));

uint64_t rnd();  // from the run's generator

// s-expressions: (op arg (nested ...) ...)
struct Sx {
  bool atom = false;
  std::string s;
  std::vector<Sx> l;
  const Sx &operator[](size_t i) const { return l.at(i); }
  size_t size() const { return l.size(); }
  int i() const { return atoi(s.c_str()); }
  const std::string &str() const { return s; }
  const std::string &op() const { return atom ? s : l.at(0).s; }
};
Sx parseSx(const std::string &text);

}  // namespace vs
