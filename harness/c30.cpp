#include <array>
#include <deque>
#include <memory>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/executor.h"
#include "arpc/flag.h"
#include "arpc/select.h"
#include "arpc/thread.h"
#include "arpc/wait.h"
#include "fds.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
struct Task {
  int id;
  unsigned kind = 0;
  int runs = 0, live = 0;  // how often it ran; copies of it there are
  bool accepted = false, refused = false, inside = false, done = false;
};
struct World {
  std::deque<Task> tasks;
  unsigned workers = 0;
  int running = 0, most = 0;
  bool destroying = false, destroyed = false;
  thread_pool* pool = nullptr;
  flag gate;  // what blocking tasks wait for
  bool unbounded = false;
  pbt::Case* c = nullptr;
};
/// Belongs to a task while it is kept somewhere.
struct Token {
  Task* t;
  explicit Token(Task& task) : t(&task) { t->live++; }
  Token(Token&& o) noexcept : t(std::exchange(o.t, nullptr)) {}
  Token(const Token&) = delete;
  ~Token() {
    if (t) t->live--;
  }
};
enum Kind { PLAIN, POINTS, SLEEPS, THROWS, THROWS_CANCELLED, THROWS_DEADLINE, THROWS_INT, WAITS, NESTS, SETS_TIMEOUT, CANCELS, THROWS_AGAIN, KINDS };
const char* KIND[] = {"plain", "points", "sleeps", "throws", "throws cancelled", "throws deadline", "throws int", "waits", "nests", "sets a timeout", "cancels", "throws try_again"};
bool submit(World& w, Task& t);

void body(World& w, Task& t) {
  auto& c = *w.c;
  SCHED_CHECK(c, !w.destroyed, "after", "task " << t.id << " runs after the pool is gone");
  SCHED_CHECK(c, ++t.runs == 1, "once", "task " << t.id << " runs again");
  SCHED_CHECK(c, !t.refused, "refused", "task " << t.id << " runs though it was refused");
  w.running++;
  w.most = std::max(w.most, w.running);
  SCHED_CHECK(c, w.running <= static_cast<int>(w.workers), "limit", w.running << " tasks run at once in a pool of " << w.workers);
  auto& ctx = context::current();
  bool off = ctx.is_cancelled();
  SCHED_CHECK(c, !off || w.destroying, "context", "task " << t.id << " starts with a cancelled context");
  SCHED_CHECK(c, !ctx.deadline(), "context", "task " << t.id << " starts with a deadline");
  t.inside = true;
  struct Leave {
    World& w;
    Task& t;
    ~Leave() {
      t.inside = false;
      t.done = true;
      w.running--;
    }
  } leave{w, t};
  switch (t.kind) {
    case POINTS:
      for (int i = 0; i < 4; i++) sched::point();
      break;
    case SLEEPS: sched::sleep_ms(5); break;
    case THROWS: throw std::runtime_error("task");
    case THROWS_CANCELLED: throw errors::cancelled("task");
    case THROWS_DEADLINE: throw errors::deadline_exceeded("task");
    case THROWS_INT: throw 42;
    case THROWS_AGAIN: throw errors::try_again("task");
    case WAITS: w.gate.wait(); break;
    case NESTS:
      if (w.unbounded) {
        w.tasks.emplace_back();
        auto& n = w.tasks.back();
        n.id = w.tasks.size() - 1;
        submit(w, n);
      }
      break;
    case SETS_TIMEOUT:
      ctx.set_timeout(milliseconds(1));
      sched::sleep_ms(2);
      break;
    case CANCELS: ctx.cancel(); break;
    default:;
  }
}
/// A function that may not be copied, with a large or small state.
bool submit(World& w, Task& t) {
  auto& c = *w.c;
  auto pool = w.pool;
  try {
    switch (c.src.below(4)) {
      case 0: pool->run([&w, tok = Token(t)] { body(w, *tok.t); }); break;
      case 1: pool->run([&w, tok = Token(t), pad = std::array<char, 200>()]() mutable { body(w, *tok.t); }); break;
      case 2: {
        fu2::unique_function<void()> f([&w, tok = std::make_unique<Token>(t)] { body(w, *tok->t); });
        pool->run(std::move(f));
        break;
      }
      default: {
        auto tok = std::make_shared<Token>(t);
        auto f = [&w, tok] { body(w, *tok->t); };
        pool->run(f);
        SCHED_CHECK(c, tok != nullptr, "moved", "the caller's function was moved from");
      }
    }
    t.accepted = true;
  } catch (const errors::cancelled&) {
    t.refused = true;
  } catch (const errors::deadline_exceeded&) {
    t.refused = true;
  }
  if (t.refused) SCHED_CHECK(c, t.runs == 0 && t.live == 0, "refused", "task " << t.id << " is refused, but " << (t.runs ? "ran" : "kept"));
  return t.accepted;
}
void configure(pbt::Case& c, World& w, int& queue) {
  w.c = &c;
  w.workers = 1 + c.src.below(3);
  queue = c.src.pick(std::vector<int>{-1, -1, 0, 1, 2});
  w.unbounded = queue < 0;
  c.note(w.workers, " workers, queue ", queue, "; ");
}
}  // namespace

/// A pool that lives: everything accepted runs, from any number of submitters.
PBT_ARM(live, 10000, 100000, false, 10) {
  context::top();
  auto fds = open_fds();
  auto p = sched::any(c);
  unsigned count = 0;
  auto res = sched::run(c, p, [&] {
    World w;
    int queue;
    configure(c, w, queue);
    auto pool = std::make_unique<thread_pool>(w.workers, queue);
    w.pool = pool.get();
    unsigned submitters = 1 + c.src.below(3);
    std::vector<std::vector<Task*>> mine(submitters);
    for (auto& m : mine) {
      auto n = c.src.length(5);
      for (std::size_t i = 0; i < n; i++) {
        w.tasks.emplace_back();
        auto& t = w.tasks.back();
        t.id = w.tasks.size() - 1;
        t.kind = c.src.weighted({4, 3, 2, 1, 1, 1, 1, 0, 2, 1, 1, 1});
        c.note(KIND[t.kind], ", ");
        m.push_back(&t);
      }
      c.note("; ");
    }
    std::vector<std::thread> th;
    for (unsigned k = 0; k < submitters; k++)
      th.push_back(spawn([&, k] {
        context ctx;
        if (c.src.chance(1, 6)) ctx.set_timeout(milliseconds(c.src.below(4)));
        for (auto* t : mine[k]) submit(w, *t);
      }));
    for (auto& t : th) t.join();
    // Nothing accepted waits for another submission.
    sched::until([&] {
      for (auto& t : w.tasks)
        if (!t.refused && !t.done) return false;
      return true;
    }, "everything accepted to run");
    sched::until([&] {
      for (auto& t : w.tasks)
        if (t.live) return false;
      return true;
    }, "what ran to be forgotten");
    w.destroying = true;
    pool.reset();
    w.destroyed = true;
    for (auto& t : w.tasks) SCHED_CHECK(c, t.runs == (t.accepted ? 1 : 0), "once", "task " << t.id << " ran " << t.runs << " times");
    count = w.tasks.size();
  });
  SCHED_CHECK(c, open_fds() == fds, "descriptors", "descriptors are left open");
  c.nontrivial(count > 2 && res.switches > 5);
}
/// All workers are there for as many tasks that need one another.
PBT_ARM(parallel, 8000, 80000, false, 10) {
  context::top();
  auto p = sched::any(c);
  unsigned rounds = 0;
  auto res = sched::run(c, p, [&] {
    World w;
    int queue;
    configure(c, w, queue);
    thread_pool pool(w.workers, queue);
    w.pool = &pool;
    rounds = 1 + c.src.below(3);
    for (unsigned r = 0; r < rounds; r++) {
      // Some that end before, in any way.
      auto before = c.src.below(4);
      for (unsigned i = 0; i < before; i++) {
        w.tasks.emplace_back();
        auto& t = w.tasks.back();
        t.id = w.tasks.size() - 1;
        t.kind = c.src.weighted({2, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1});
        c.note(KIND[t.kind], ", ");
        submit(w, t);
      }
      unsigned in = 0, out = 0;
      flag all;
      for (unsigned i = 0; i < w.workers; i++)
        pool.run([&] {
          if (++in == w.workers) all.set();
          all.wait();
          out++;
        });
      sched::until([&] { return out == w.workers; }, "tasks that meet");
      c.note("meet; ");
    }
    w.destroying = true;
  });
  c.nontrivial(rounds > 0 && res.switches > 5);
}
/// A pool that is destroyed at any time: what runs is waited for, what did not begin never does.
PBT_ARM(shutdown, 10000, 100000, false, 10) {
  context::top();
  auto fds = open_fds();
  auto p = sched::any(c);
  unsigned count = 0, cut = 0;
  auto res = sched::run(c, p, [&] {
    World w;
    int queue;
    configure(c, w, queue);
    auto pool = std::make_unique<thread_pool>(w.workers, queue);
    w.pool = pool.get();
    auto n = c.src.length(7);
    {
      context ctx;
      ctx.set_timeout(milliseconds(20));  // as the pool may be full of tasks that wait
      for (std::size_t i = 0; i < n; i++) {
        w.tasks.emplace_back();
        auto& t = w.tasks.back();
        t.id = w.tasks.size() - 1;
        t.kind = c.src.weighted({4, 3, 3, 1, 1, 0, 1, 5, 3, 1, 1, 1});
        c.note(KIND[t.kind], ", ");
        submit(w, t);
      }
    }
    if (c.src.coin()) sched::sleep_ms(c.src.below(8));
    for (unsigned i = c.src.below(4); i > 0; i--) sched::point();
    if (c.src.chance(1, 4)) w.gate.set();
    w.destroying = true;
    pool.reset();
    w.destroyed = true;
    sched::settle();
    count = n;
    for (auto& t : w.tasks) {
      SCHED_CHECK(c, !t.inside, "waits", "task " << t.id << " is still running");
      SCHED_CHECK(c, t.runs <= 1 && (!t.refused || !t.runs), "once", "task " << t.id << " ran " << t.runs << " times");
      SCHED_CHECK(c, t.live == 0, "kept", "task " << t.id << " is kept");
      cut += t.accepted && !t.runs;
    }
  });
  SCHED_CHECK(c, open_fds() == fds, "descriptors", "descriptors are left open");
  c.nontrivial(count > 1 && (cut || res.switches > 5));
}
/// The other executor: at once, here, and with what it throws.
PBT_ARM(synchronous, 2000, 20000, false, 10) {
  synchronous_executor x;
  context ctx;
  auto n = 1 + c.src.length(6);
  int depth = 0;
  std::function<void(std::size_t)> go = [&](std::size_t k) {
    if (k == 0) return;
    auto kind = c.src.below(4);
    int runs = 0;
    bool thrown = false;
    auto me = std::this_thread::get_id();
    auto* cur = &context::current();
    try {
      x.run([&, only = std::make_unique<int>(7)] {
        runs += *only == 7;
        depth++;
        c.checks++;
        if (std::this_thread::get_id() != me || &context::current() != cur) throw pbt::Failure{"elsewhere", "the task runs elsewhere"};
        if (kind == 1) throw errors::cancelled("x");
        if (kind == 2) throw 5;
        if (kind == 3) go(k - 1);
      });
    } catch (const errors::cancelled&) {
      thrown = kind == 1;
    } catch (int i) {
      thrown = kind == 2 && i == 5;
    }
    PBT_CHECK(c, runs == 1, "once", "the task ran " << runs << " times");
    PBT_CHECK(c, thrown == (kind == 1 || kind == 2), "throws", "what the task throws does not reach the caller");
    if (kind != 3) go(k - 1);
  };
  go(n);
  c.nontrivial(depth > 1);
}
