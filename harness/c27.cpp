#include <deque>
#include <memory>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/thread.h"
#include "arpc/wait.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
std::int64_t base_ms() { return std::chrono::duration_cast<milliseconds>(std::chrono::system_clock::now().time_since_epoch()).count() - sched::now_ms(); }

/// A context and what is known of it.
struct Node {
  int id;
  Node* parent;       // by which it is cancelled (none: a shield, or the top)
  Node* origin;       // in whose scope it was made
  bool shield = false;
  context* ctx = nullptr;
  bool cancelled = false;   // a cancel that covers it is over
  bool cancelling = false;  // or has begun
  std::optional<std::int64_t> deadline;  // virtual ms
  bool gone = false;
  int pins = 0;  // it may not go away: somebody else cancels it
  std::int64_t cancelled_at = -1;
};
struct Tree {
  std::vector<std::unique_ptr<Node>> nodes;
  Node* add(Node* parent, bool shield) {
    nodes.push_back(std::make_unique<Node>());
    auto* n = nodes.back().get();
    n->id = nodes.size() - 1;
    n->parent = shield ? nullptr : parent;
    n->origin = parent;
    n->shield = shield;
    if (parent) n->deadline = parent->deadline;
    if (n->parent) {
      n->cancelled = parent->cancelled;
      n->cancelling = parent->cancelling;
      n->cancelled_at = parent->cancelled_at;
    }
    return n;
  }
  bool under(Node* n, Node* a) {
    for (; n; n = n->parent)
      if (n == a) return true;
    return false;
  }
  void begin_cancel(Node* a) {
    for (auto& n : nodes)
      if (under(n.get(), a)) n->cancelling = true;
  }
  void end_cancel(Node* a) {
    for (auto& n : nodes)
      if (under(n.get(), a) && !n->cancelled) {
        n->cancelled = true;
        n->cancelled_at = sched::now();
      }
  }
  void shorten(Node* n, std::int64_t d) {
    if (!n->deadline || *n->deadline > d) n->deadline = d;
  }
};
enum Res { OK, CANCELLED, DEADLINE, TIMEOUT };
const char* RES[] = {"is done", "is cancelled", "exceeds its deadline", "times out"};
template <typename F>
Res result(F f) {
  try {
    return f() ? OK : TIMEOUT;
  } catch (const errors::cancelled&) {
    return CANCELLED;
  } catch (const errors::deadline_exceeded&) {
    return DEADLINE;
  }
}
}  // namespace

/// One thread, any tree: what is known of every context after every step, and what operations do under each.
PBT_ARM(trees, 20000, 200000, false, 10) {
  context::top();
  sched::Policy p;
  unsigned blocked = 0, cancels = 0;
  sched::run(c, p, [&] {
    auto base = base_ms();
    Tree t;
    Node* top = t.add(nullptr, false);
    top->ctx = &context::top();
    struct Live {
      std::unique_ptr<context> ctx;
      Node* n;
      bool current;
    };
    std::vector<Live> live;
    std::vector<Node*> stack{top};
    flag never_set, always_set;
    always_set.set();
    queue<int> full(1), one(1000);
    int in_one = 0;
    full.put(1);
    arpc::mutex free_mutex, held;
    held.lock();
    std::vector<std::unique_ptr<shield>> shields;
    auto n = 1 + c.src.length(30);
    auto destroy = [&](std::size_t k) {
      auto& l = live[k];
      c.note("destroy ", l.n->id, "; ");
      if (l.current) stack.pop_back();
      l.n->gone = true;
      l.ctx.reset();
      live.erase(live.begin() + k);
    };
    auto destroyable = [&](std::size_t k) {
      for (auto& l : live)
        if (l.n->origin == live[k].n) return false;  // leaving would wait, or leave a shield without parent
      return !live[k].current || live[k].n == stack.back();
    };
    for (std::size_t i = 0; i < n; i++) {
      auto op = live.empty() ? 0 : c.src.weighted({4, 3, 3, 3, 2, 8});
      switch (op) {
        case 0: {
          bool implicit = c.src.coin(), current = implicit || c.src.coin(), sh = c.src.chance(1, 4);
          auto* parent = implicit || live.empty() ? stack.back() : live[c.src.below(live.size())].n;
          auto* node = t.add(parent, sh);
          c.note("new ", node->id, " of ", parent->id, sh ? " shield" : "", current ? " current" : "", "; ");
          Live l;
          if (implicit && sh)
            l.ctx = std::make_unique<shield>();
          else if (implicit)
            l.ctx = std::make_unique<context>();
          else
            l.ctx = std::make_unique<context>(*parent->ctx, current, sh);
          node->ctx = l.ctx.get();
          l.n = node;
          l.current = current;
          if (current) stack.push_back(node);
          live.push_back(std::move(l));
          break;
        }
        case 1: {
          auto* node = live[c.src.below(live.size())].n;
          c.note("cancel ", node->id, "; ");
          cancels++;
          node->ctx->cancel();
          t.begin_cancel(node);
          t.end_cancel(node);
          break;
        }
        case 2: {
          auto* node = live[c.src.below(live.size())].n;
          int ms = c.src.pick(std::vector<int>{-5, 0, 1, 3, 10, 50, 50, 1000, 1000, 100000});
          c.note("deadline of ", node->id, " in ", ms, "; ");
          if (c.src.coin())
            node->ctx->set_timeout(milliseconds(ms));
          else
            node->ctx->set_deadline(context::time_point(milliseconds(base + sched::now_ms() + ms)));
          t.shorten(node, sched::now_ms() + ms);
          break;
        }
        case 3: {
          std::vector<std::size_t> can;
          for (std::size_t k = 0; k < live.size(); k++)
            if (destroyable(k)) can.push_back(k);
          if (!can.empty()) destroy(c.src.pick(can));
          break;
        }
        case 4: {
          int ms = c.src.pick(std::vector<int>{1, 5, 30, 200});
          c.note("pass ", ms, "; ");
          sched::sleep_ms(ms);
          break;
        }
        default: {
          auto* cur = stack.back();
          auto kind = c.src.below(12);
          bool ready = kind < 5;
          bool expired = cur->deadline && *cur->deadline <= sched::now_ms();
          // Do not wait for ever.
          if (!ready && kind < 10 && !cur->cancelled && !cur->deadline) kind = 10;
          static const char* names[] = {"flag", "get", "put", "lock", "always", "unset flag", "empty get", "full put", "locked", "never", "wait with timeout", "future timeout"};
          c.note(names[kind], " under ", cur->id, "; ");
          auto t0 = sched::now();
          int timeout_ms = c.src.pick(std::vector<int>{0, 1, 4, 20, 500});
          if (kind == 1 && in_one == 0) {
            shield s;
            one.put(7);
            in_one++;
          }
          auto r = result([&] {
            switch (kind) {
              case 0: always_set.wait(); return true;
              case 1: one.get(); in_one--; return true;
              case 2: one.put(7); in_one++; return true;
              case 3: free_mutex.lock(); return true;
              case 4: arpc::wait(always()); return true;
              case 5: never_set.wait(); return true;
              case 6: { queue<int> q; q.get(); return true; }
              case 7: full.put(2); return true;
              case 8: held.lock(); return true;
              case 9: arpc::wait(never()); return true;
              case 10: {
                auto [f, to] = select(never_set.async_wait(), timeout(milliseconds(timeout_ms)));
                return !to;
              }
              default: {
                // Explicit waits for the end of another context.
                auto& o = live.empty() ? context::top() : *live[c.src.below(live.size())].ctx;
                auto [a, b, to] = select(o.wait_cancelled().template except<errors::cancelled>([](const errors::cancelled&) {}), o.wait_deadline().template except<errors::deadline_exceeded>([](const errors::deadline_exceeded&) {}), timeout(milliseconds(timeout_ms)));
                Node* on = nullptr;
                for (auto& l : live)
                  if (l.ctx.get() == &o) on = l.n;
                if (!on) on = top;
                bool oc = on->cancelled, od = on->deadline && *on->deadline <= sched::now_ms();
                SCHED_CHECK(c, !a || oc, "wait-cancelled", "waiting for the cancellation of " << on->id << " returns, it is not cancelled");
                SCHED_CHECK(c, !oc || a || !cur->cancelled, "x", "");
                SCHED_CHECK(c, a || !oc, "wait-cancelled", "waiting for the cancellation of " << on->id << " does not return");
                SCHED_CHECK(c, !b || od, "wait-deadline", "waiting for the deadline of " << on->id << " returns too early");
                SCHED_CHECK(c, oc || b || !od || on->deadline.value() > sched::now_ms(), "wait-deadline", "waiting for the deadline of " << on->id << " does not return");
                return !to;
              }
            }
          });
          auto now = sched::now();
          // What had to happen.
          if (cur->cancelled) {
            SCHED_CHECK(c, r == CANCELLED, "not-cancelled", "under the cancelled context " << cur->id << " an operation " << RES[r]);
            SCHED_CHECK(c, now == t0, "late", "under a cancelled context an operation takes " << now - t0 << " ns");
          } else if (ready) {
            // Past the deadline, what needs not wait may be done all the same.
            SCHED_CHECK(c, r == OK || (r == DEADLINE && expired), "ready", "an operation that is ready " << RES[r]);
            SCHED_CHECK(c, now == t0, "late", "an operation that is ready takes " << now - t0 << " ns");
          } else if (kind < 10) {
            SCHED_CHECK(c, r == DEADLINE, "no-deadline", "an operation that is never ready " << RES[r]);
            auto at = std::max(t0 / 1000000, *cur->deadline);
            SCHED_CHECK(c, now / 1000000 == at, "deadline", "an operation ends at " << now / 1000000 << " ms, its deadline is at " << *cur->deadline << ", it began at " << t0 / 1000000);
            blocked++;
          } else if (kind == 10) {
            auto end = t0 / 1000000 + timeout_ms;
            bool dl = cur->deadline && *cur->deadline <= end;
            SCHED_CHECK(c, r == (dl ? DEADLINE : TIMEOUT), "timeout", "a wait of " << timeout_ms << " ms " << RES[r]);
            SCHED_CHECK(c, now / 1000000 == (dl ? std::max(t0 / 1000000, *cur->deadline) : end), "deadline", "a wait ends at " << now / 1000000 << " ms, not at " << end << " or its deadline");
          } else {
            SCHED_CHECK(c, r != CANCELLED, "cancelled", "an operation is cancelled, its context " << cur->id << " is not");
            SCHED_CHECK(c, r != DEADLINE || (cur->deadline && *cur->deadline <= now / 1000000), "early", "an operation exceeds a deadline too early");
          }
          if (r == OK && kind == 3) free_mutex.unlock();
          // Nothing happened otherwise.
          SCHED_CHECK(c, (int)one.size() == in_one, "effect", "a queue has " << one.size() << " items, want " << in_one);
          SCHED_CHECK(c, full.size() == 1, "effect", "a failed put put something");
          if (kind == 3) {
            SCHED_CHECK(c, free_mutex.try_lock(), "effect", "a failed lock took the mutex");
            shield s;
            free_mutex.unlock();
          }
        }
      }
      // Everything known.
      SCHED_CHECK(c, &context::current() == stack.back()->ctx, "current", "the current context is not " << stack.back()->id);
      for (auto& l : live) {
        SCHED_CHECK(c, l.ctx->is_cancelled() == l.n->cancelled, "is-cancelled", "context " << l.n->id << " is " << (l.n->cancelled ? "not " : "") << "cancelled");
        auto d = l.ctx->deadline();
        SCHED_CHECK(c, d.has_value() == l.n->deadline.has_value(), "deadline", "context " << l.n->id << " has " << (d ? "a" : "no") << " deadline");
        if (d) SCHED_CHECK(c, d->time_since_epoch().count() - base == *l.n->deadline, "deadline", "the deadline of " << l.n->id << " is " << d->time_since_epoch().count() - base << ", want " << *l.n->deadline);
        auto left = l.ctx->deadline_left();
        SCHED_CHECK(c, left.has_value() == d.has_value() && (!left || left->count() == *l.n->deadline - sched::now_ms()), "deadline-left", "the time left of " << l.n->id << " is wrong");
      }
      SCHED_CHECK(c, !context::top().is_cancelled() && !context::top().deadline(), "top", "the top context is cancelled or has a deadline");
    }
    while (!live.empty())
      for (std::size_t k = live.size(); k-- > 0;)
        if (destroyable(k)) {
          destroy(k);
          break;
        }
    shield s;
    held.unlock();
  });
  c.nontrivial(blocked > 0 && cancels > 0);
}

/// Threads under contexts of one another, cancelled from anywhere.
namespace {
struct World {
  pbt::Case& c;
  Tree t;
  flag never_set;
  unsigned blocked = 0, woken = 0;
  int depth_left;
  std::int64_t tick;
  std::deque<std::thread> extra;  // joined in the end
};
/// Runs the rest under node n, which is current.
void body(World& w, Node* me, int depth);

void scoped(World& w, Node* me, int depth) {
  auto& c = w.c;
  bool sh = c.src.chance(1, 5);
  auto* n = [&] {
    return w.t.add(me, sh);
  }();
  int timeout_ms = c.src.chance(1, 3) ? c.src.pick(std::vector<int>{0, 2, 10, 40}) : -1;
  auto* before = &context::current();
  {
    std::unique_ptr<context> ctx;
    // The child is registered before its parent's cancellation is looked at: both are one step for the model.
    ctx = std::make_unique<context>(*me->ctx, true, sh);
    n->ctx = &*ctx;
    SCHED_CHECK(c, &context::current() == &*ctx, "current", "a new context is not the current one");
    SCHED_CHECK(c, !n->cancelled || ctx->is_cancelled(), "born-cancelled", "a context made under a cancelled one is not cancelled");
    if (timeout_ms >= 0) {
      w.t.shorten(n, sched::now_ms() + timeout_ms);
      ctx->set_timeout(milliseconds(timeout_ms));
    }
    body(w, n, depth);
    // Leaving cancels and waits.
    w.t.begin_cancel(n);
    n->ctx = nullptr;
    sched::until([&] { return n->pins == 0; }, "cancel by another");
    ctx.reset();
    w.t.end_cancel(n);
    n->gone = true;
  }
  SCHED_CHECK(c, &context::current() == before, "restored", "leaving a context does not restore the one before");
  for (auto& x : w.t.nodes)
    if (x->parent == n || (x->parent && w.t.under(x.get(), n) && x.get() != n)) SCHED_CHECK(c, x->gone, "left-early", "a context is gone while " << x->id << " derived from it is still there");
}
void block(World& w, Node* me) {
  auto& c = w.c;
  w.blocked++;
  auto dl = me->deadline;
  auto t0 = sched::now_ms();
  int limit = c.src.chance(1, 3) ? c.src.pick(std::vector<int>{1, 5, 20}) : -1;
  auto r = result([&] {
    if (limit < 0) {
      w.never_set.wait();
      return true;
    }
    auto [f, to] = select(w.never_set.async_wait(), timeout(milliseconds(limit)));
    return !to;
  });
  auto t1 = sched::now_ms();
  SCHED_CHECK(c, r != OK, "woken", "a wait for a flag that is never set returns");
  if (r == CANCELLED) {
    SCHED_CHECK(c, me->cancelling, "cancelled", "a wait under context " << me->id << " is cancelled, nobody did that");
    w.woken++;
    if (w.tick == 0 && me->cancelled && me->cancelled_at >= 0)
      SCHED_CHECK(c, t1 <= std::max(t0, me->cancelled_at / 1000000), "prompt", "a wait is cancelled at " << t1 << " ms, the context was cancelled at " << me->cancelled_at / 1000000 << ", the wait began at " << t0);
  }
  if (r == DEADLINE) SCHED_CHECK(c, dl && *dl <= t1, "early", "a wait exceeds its deadline too early");
  if (r == TIMEOUT) SCHED_CHECK(c, t1 >= t0 + limit, "early", "a wait times out too early");
  if (w.tick == 0) {
    if (dl) SCHED_CHECK(c, t1 <= std::max(t0, *dl), "late", "a wait ends at " << t1 << " ms, past its deadline at " << *dl << "; it began at " << t0);
    if (limit >= 0) SCHED_CHECK(c, t1 <= t0 + limit, "late", "a wait of " << limit << " ms ends after " << t1 - t0);
  }
}
void body(World& w, Node* me, int depth) {
  auto& c = w.c;
  auto n = 1 + c.src.below(3);
  std::vector<std::unique_ptr<arpc::thread>> threads;
  std::vector<std::unique_ptr<daemon_thread>> daemons;
  for (unsigned i = 0; i < n; i++) {
    switch (c.src.weighted({4, depth ? 3u : 0u, depth ? 2u : 0u, 2, 1, depth ? 2u : 0u})) {
      case 0: block(w, me); break;
      case 1: scoped(w, me, depth - 1); break;
      case 2: {
        bool daemon = c.src.chance(1, 5);
        // The thread object has a context of its own, the function runs under another one below it.
        auto* outer = w.t.add(daemon ? w.t.nodes[0].get() : me, false);
        auto run = [&w, outer, depth] {
          auto* inner = w.t.add(outer, false);
          inner->ctx = &context::current();
          SCHED_CHECK(w.c, !inner->cancelled || inner->ctx->is_cancelled(), "born-cancelled", "a thread started under a cancelled context is not cancelled");
          // What ends the thread function.
          struct End {
            World& w;
            Node* n;
            ~End() {
              w.t.begin_cancel(n);
              n->ctx = nullptr;
            }
          } end{w, inner};
          inner->gone = true;  // the library's own context: gone some time after the function
          body(w, inner, depth - 1);
          if (w.c.src.chance(1, 4)) throw errors::cancelled("over");
          if (w.c.src.chance(1, 4)) throw errors::deadline_exceeded("over");
        };
        outer->gone = true;
        if (daemon)
          daemons.push_back(std::make_unique<daemon_thread>(run)), outer->ctx = &daemons.back()->get_context();
        else
          threads.push_back(std::make_unique<arpc::thread>(run)), outer->ctx = &threads.back()->get_context();
        break;
      }
      case 3: {
        // Cancel any context that is alive (and cannot go away meanwhile: one of our own line, or a thread we hold).
        std::vector<Node*> can;
        for (Node* x = me; x; x = x->origin)
          if (x->ctx && x->id) can.push_back(x);
        for (auto& x : w.t.nodes)
          if (x->origin == me && x->ctx && x->gone) can.push_back(x.get());
        if (can.empty()) break;
        auto* x = c.src.pick(can);
        auto* ctx = x->ctx;
        w.t.begin_cancel(x);
        ctx->cancel();
        w.t.end_cancel(x);
        SCHED_CHECK(c, ctx->is_cancelled(), "cancel", "a context is not cancelled after cancel");
        break;
      }
      case 5: {
        // A thread that goes on under a context of its own below this one: leaving this one waits for it.
        bool registered = false;
        w.extra.push_back(spawn([&, me, depth, parent = me->ctx] {
          World& world = w;
          auto* node = world.t.add(me, false);
          auto own = std::make_unique<context>(*parent);
          node->ctx = own.get();
          SCHED_CHECK(world.c, !node->cancelled || own->is_cancelled(), "born-cancelled", "a context made under a cancelled one is not cancelled");
          registered = true;
          body(world, node, depth - 1);
          world.t.begin_cancel(node);
          node->ctx = nullptr;
          node->gone = true;
          own.reset();
        }));
        sched::until([&] { return registered; }, "registration");
        break;
      }
      default: sched::sleep_ms(c.src.pick(std::vector<int>{1, 4, 15})); break;
    }
  }
  auto end = [&](auto& t, bool cancel) {
    Node* n = nullptr;
    for (auto& x : w.t.nodes)
      if (x->ctx == &t->get_context()) n = x.get();
    if (cancel) {
      w.t.begin_cancel(n);
      t->get_context().cancel();
      w.t.end_cancel(n);
    }
    t->join();
    n->ctx = nullptr;
  };
  for (auto& t : threads) end(t, c.src.coin());
  for (auto& t : daemons) end(t, true);
}
}  // namespace

PBT_ARM(threads, 12000, 120000, false, 10) {
  context::top();
  auto p = sched::any(c);
  World w{c, {}, {}};
  w.tick = p.tick_ns;
  if (p.jump_den) w.tick = 1;
  if (p.spurious_poll) w.tick = 1;
  unsigned watch = 0;
  auto res = sched::run(c, p, [&] {
    auto* top = w.t.add(nullptr, false);
    top->ctx = &context::top();
    context all;
    auto* n = w.t.add(top, false);
    n->ctx = &all;
    // Nothing waits for ever: after a while everything is cancelled.
    auto dog = spawn([&] {
      sched::sleep_ms(60);
      w.t.begin_cancel(n);
      all.cancel();
      w.t.end_cancel(n);
      // Shields and daemons have to be cancelled on their own, again and again as new ones come.
      while (!watch) {
        for (std::size_t i = 0; i < w.t.nodes.size(); i++) {
          auto* x = w.t.nodes[i].get();
          if (!x->parent && x->id && x->ctx && !x->cancelled) {
            x->pins++;
            w.t.begin_cancel(x);
            x->ctx->cancel();
            w.t.end_cancel(x);
            x->pins--;
          }
        }
        sched::sleep_ms(5);
      }
    });
    body(w, n, 3);
    w.t.begin_cancel(n);
    all.cancel();
    w.t.end_cancel(n);
    for (std::size_t i = 0; i < w.extra.size(); i++) w.extra[i].join();
    watch = 1;
    dog.join();
  });
  c.nontrivial(w.woken > 0 && res.switches > 3);
}
