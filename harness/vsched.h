/// Deterministic schedules for real threads.
///
/// Within sched::run, only one thread runs at a time. Every wrapped call (mutex, condition variable, thread, poll, read,
/// write, clock, sleep: see LINK in checks.py) is a point where the generator may let another thread go on. Time is
/// virtual: it advances when nothing else can happen (or, as another choice of the generator, earlier). Nothing enabled
/// and nothing to wait for is a deadlock; too many steps without an end is a livelock.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include "pbt.h"

namespace sched {
struct Policy {
  unsigned mode = 0;        // 0: switch only when blocked; 1: random walk; 2: priorities with change points
  unsigned den = 4;         // a switch (or a drop of priority) at one in den points
  unsigned eintr_den = 0;   // one in den blocked polls is interrupted by a signal
  unsigned jump_den = 0;    // at one in den points, time jumps to the next timeout though threads could go on
  unsigned spurious_cond = 0;
  unsigned spurious_poll = 0;  // one in den polls reports descriptors that are not ready (non-blocking ones only)
  unsigned mem_den = 0;     // also between other points, at about one in den basic blocks of the library
  unsigned short_io = 0;    // one in den reads and writes of several bytes is cut short
  std::int64_t tick_ns = 0;  // time per point
  std::uint64_t max_steps = 400000;
};
/// A random policy for interleavings.
Policy any(pbt::Case& c);

struct Result {
  std::uint64_t steps = 0, switches = 0, interrupts = 0, jumps = 0, threads = 0;
};
/// Runs body as the first thread; all threads it creates have to be over when it ends.
Result run(pbt::Case& c, const Policy& p, const std::function<void()>& body);
bool active();
/// Virtual nanoseconds since the beginning of the run.
std::int64_t now();
inline std::int64_t now_ms() { return now() / 1000000; }
/// Number of the running thread (0: the body).
int self();
/// A point of the harness.
void point();
/// Virtual sleep.
void sleep_ns(std::int64_t ns);
inline void sleep_ms(std::int64_t ms) { sleep_ns(ms * 1000000); }
/// Blocks until the condition (on state of the harness) holds. No scheduling point if it holds already.
void until(const std::function<bool()>& cond, const char* what);
/// Called on deadlock before it is reported: returning true means it was expected (the process then ends as if the case held).
void on_deadlock(std::function<std::string()> describe);
/// Lets everything else go as far as it can without time passing; then returns.
void settle();
/// While there is one, no other thread runs (unless this one blocks) and time stands still.
struct Hold {
  Hold();
  ~Hold();
};
/// Number of blocked polls interrupted so far.
std::uint64_t interrupts();
/// Stops scheduling: the caller goes on alone (for servers whose threads never end); the process has to end with the case.
void abandon();
/// Moves the calendar clock (as if the rest ran on another machine).
void shift_clock(std::int64_t ns);
/// Hook called on every descriptor read or written (for fault injection); see c31.
struct Io {
  bool is_write;
  int fd;
  std::size_t len;
};
/// Returns how many bytes to let through (0: fail with err).
extern std::function<std::size_t(const Io&, int& err)> io_hook;
}  // namespace sched
