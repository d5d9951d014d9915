/// Histories of concurrent operations and the check that they are linearizable.
#pragma once
#include <functional>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "vsched.h"

namespace lin {
template <typename Op>
struct Event {
  Op op;
  int thread;
  long inv, res = -1;  // res -1: never returned
};
template <typename Op>
struct History {
  std::vector<Event<Op>> ev;
  long clock = 0;
  std::size_t begin(Op op) {
    ev.push_back({std::move(op), sched::self(), clock++, -1});
    return ev.size() - 1;
  }
  void end(std::size_t i) { ev[i].res = clock++; }
};
/// Is there an order of the operations, consistent with real time, that the model accepts? apply changes the state and
/// says whether the operation with its recorded result is possible there. Operations that did not return may or may not
/// have taken effect (pending says whether they may). At most 64 operations. Histories with so many overlapping operations
/// that the search does not end in time are taken to be fine.
template <typename Op, typename State>
bool linearizable(const History<Op>& h, State init, const std::function<bool(State&, const Op&)>& apply,
                  const std::function<std::string(const State&)>& key, const std::function<bool(const State&)>& final_ok = nullptr,
                  std::uint64_t* explored = nullptr) {
  auto n = h.ev.size();
  if (n > 64) pbt::fatal("harness", "history too long");
  std::set<std::pair<std::uint64_t, std::string>> seen;
  bool gave_up = false;
  std::function<bool(std::uint64_t, const State&)> go = [&](std::uint64_t done, const State& s) -> bool {
    bool all = true;
    long first_res = -1;
    for (std::size_t i = 0; i < n; i++)
      if (!(done >> i & 1) && h.ev[i].res >= 0) {
        all = false;
        if (first_res < 0 || h.ev[i].res < first_res) first_res = h.ev[i].res;
      }
    if (all && (!final_ok || final_ok(s))) return true;
    if (!seen.insert({done, key(s)}).second) return false;
    if (explored) ++*explored;
    if (seen.size() > 40000) gave_up = true;
    if (gave_up) return true;
    for (std::size_t i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      if (first_res >= 0 && h.ev[i].inv > first_res) continue;
      State t = s;
      if (!apply(t, h.ev[i].op)) continue;
      if (go(done | 1ull << i, t)) return true;
    }
    return false;
  };
  return go(0, init);
}
}  // namespace lin

/// A thread of the harness: failures in it are failures of the case.
template <typename F>
std::thread spawn(F f) {
  return std::thread([f = std::move(f)]() mutable {
    try {
      f();
    } catch (pbt::Failure& x) {
      pbt::fatal(x.key, x.msg);
    } catch (const std::exception& e) {
      pbt::fatal("uncaught-exception", std::string("uncaught in a thread: ") + e.what());
    }
  });
}
/// Checks within sched::run: end the process.
#define SCHED_CHECK(C, cond, key, ...)                              \
  do {                                                              \
    (C).checks++;                                                   \
    if (!(cond)) pbt::fatal((key), PBT_STR_(__VA_ARGS__));          \
  } while (0)
