#include <deque>
#include <memory>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
enum Kind { PUT, GET, SIZE, EMPTY, FULL };
struct Op {
  int queue;
  Kind kind;
  int value = 0;
  int result = -1;  // 0: did not happen (full or empty), 1: done, -2: no statement; or the number reported
};
struct State {
  std::deque<int> items;
};
long live = 0;
struct Item {
  int v = 0;
  std::unique_ptr<int> p;
  Item() { ++live; }
  explicit Item(int x) : v(x), p(std::make_unique<int>(x)) { ++live; }
  Item(Item&& o) : v(o.v), p(std::move(o.p)) { ++live; }
  Item& operator=(Item&& o) {
    v = o.v;
    p = std::move(o.p);
    return *this;
  }
  ~Item() { --live; }
};
template <typename T>
struct Val;
template <>
struct Val<int> {
  static int make(int v) { return v; }
  static int get(int v) { return v; }
};
template <>
struct Val<std::string> {
  static std::string make(int v) { return std::string(v % 40, 'x') + std::to_string(v); }
  static int get(const std::string& s) {
    auto p = s.find_first_not_of('x');
    if (p == std::string::npos) return -1;
    int v = std::atoi(s.c_str() + p);
    return make(v) == s ? v : -1;
  }
};
template <>
struct Val<Item> {
  static Item make(int v) { return Item(v); }
  static int get(const Item& i) { return i.p && *i.p == i.v ? i.v : -1; }
};

/// The same operations on queues of anything and of nothing.
template <typename T>
struct Q {
  queue<T> q;
  explicit Q(std::size_t n) : q(n) {}
  void maybe_put(int v) {
    if constexpr (std::is_void_v<T>)
      q.maybe_put();
    else
      q.maybe_put(Val<T>::make(v));
  }
  int maybe_get() {
    if constexpr (std::is_void_v<T>) {
      q.maybe_get();
      return 0;
    } else {
      return Val<T>::get(q.maybe_get());
    }
  }
  void put(int v) {
    if constexpr (std::is_void_v<T>) {
      q.put();
    } else if constexpr (std::is_copy_constructible_v<T>) {
      T x = Val<T>::make(v);
      q.put(x);  // an lvalue: copied
      if (Val<T>::get(x) != v) pbt::fatal("lvalue", "putting an item changes it");
    } else {
      q.put(Val<T>::make(v));
    }
  }
  int get() {
    if constexpr (std::is_void_v<T>) {
      q.get();
      return 0;
    } else {
      return Val<T>::get(q.get());
    }
  }
  auto async_put(int v) {
    if constexpr (std::is_void_v<T>)
      return q.async_put();
    else
      return q.async_put(Val<T>::make(v));
  }
  auto async_get() {
    if constexpr (std::is_void_v<T>)
      return q.async_get().then([] { return 0; });
    else
      return q.async_get().then([](T x) { return Val<T>::get(x); });
  }
};

const char* NAMES[] = {"put", "get", "maybe_put", "maybe_get", "timed-put", "timed-get", "deadline-put", "deadline-get", "cancelled-put", "cancelled-get", "get-either", "put-either", "transfer", "size", "empty", "full", "can_get", "can_put", "cancel-get", "cancel-put", "put-always", "get-always"};
bool is_put(int op) { return op == 0 || op == 2 || op == 4 || op == 6 || op == 8 || op == 19 || op == 20; }

template <typename T>
void program(pbt::Case& c) {
  context::top();
  auto p = sched::any(c);
  auto nt = 2 + c.src.below(4), nq = 1 + c.src.below(2);
  lin::History<Op> h;
  std::vector<std::size_t> cap;
  for (unsigned i = 0; i < nq; i++) cap.push_back(c.src.pick(std::vector<int>{1, 1, 2, 3, 5, 1000}));
  unsigned moved = 0;
  live = 0;
  auto res = sched::run(c, p, [&] {
    std::vector<std::unique_ptr<Q<T>>> q;
    for (unsigned i = 0; i < nq; i++) q.push_back(std::make_unique<Q<T>>(cap[i]));
    std::vector<std::thread> th;
    unsigned running = 0;
    int next_value = 1;
    struct Step {
      int op, q, ms, v;
    };
    auto look = [&](int k, Kind kind) {
      auto i = h.begin({k, kind});
      auto& x = q[k]->q;
      h.ev[i].op.result = kind == SIZE ? (int)x.size() : kind == EMPTY ? x.empty() : x.full();
      h.end(i);
    };
    for (unsigned t = 0; t < nt; t++) {
      std::vector<Step> prog;
      auto n = 1 + c.src.length(6);
      bool producer = c.src.coin();
      for (std::size_t i = 0; i < n; i++) {
        int op = c.src.weighted({6, 6, 3, 3, 3, 3, 1, 1, 1, 1, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1});
        if (op == 0 && !producer) op = 1;
        else if (op == 1 && producer) op = 0;
        int v = std::is_void_v<T> ? 0 : next_value++;
        prog.push_back({op, (int)c.src.below(nq), c.src.pick(std::vector<int>{0, 1, 3, 20}), v});
      }
      c.note("thread ", t + 1, ":");
      for (auto& s : prog) c.note(" ", NAMES[s.op], s.q);
      c.note("; ");
      running++;
      th.push_back(spawn([&, prog] {
        for (auto& s : prog) {
          auto& x = *q[s.q];
          if (s.op >= 13 && s.op <= 15) {
            look(s.q, s.op == 13 ? SIZE : s.op == 14 ? EMPTY : FULL);
            continue;
          }
          if (s.op == 16) {
            auto [r, to] = select(x.q.can_get(), timeout(milliseconds(s.ms)));
            continue;
          }
          if (s.op == 17) {
            auto [r, to] = select(x.q.can_put(), timeout(milliseconds(s.ms)));
            continue;
          }
          if (s.op >= 10 && s.op <= 12) {
            if (nq < 2) continue;
            auto i0 = h.begin({0, s.op == 11 ? PUT : GET, s.v}), i1 = h.begin({1, s.op == 10 ? GET : PUT, s.v});
            bool any = false;
            if (s.op == 10) {
              auto [r0, r1, to] = select(q[0]->async_get(), q[1]->async_get(), timeout(milliseconds(s.ms)));
              if (r0) h.ev[i0].op.value = *r0;
              if (r1) h.ev[i1].op.value = *r1;
              h.ev[i0].op.result = r0 ? 1 : -2;
              h.ev[i1].op.result = r1 ? 1 : -2;
              any = r0 || r1 || to;
            } else if (s.op == 11) {
              auto [r0, r1, to] = select(q[0]->async_put(s.v), q[1]->async_put(s.v), timeout(milliseconds(s.ms)));
              h.ev[i0].op.result = r0 ? 1 : -2;
              h.ev[i1].op.result = r1 ? 1 : -2;
              any = r0 || r1 || to;
            } else {
              auto [r0, r1, to] = select(q[0]->async_get(), q[1]->async_put(s.v), timeout(milliseconds(s.ms)));
              if (r0) h.ev[i0].op.value = *r0;
              h.ev[i0].op.result = r0 ? 1 : -2;
              h.ev[i1].op.result = r1 ? 1 : -2;
              any = r0 || r1 || to;
            }
            SCHED_CHECK(c, any, "nothing", "a select returns nothing");
            h.end(i0);
            h.end(i1);
            continue;
          }
          auto i = h.begin({s.q, is_put(s.op) ? PUT : GET, s.v});
          int r = 1;
          int got = s.v;
          std::optional<context> later;
          std::thread join;
          switch (s.op) {
            case 0: x.put(s.v); break;
            case 1: got = x.get(); break;
            case 2:
              try {
                x.maybe_put(s.v);
              } catch (const errors::try_again&) {
                r = 0;
              }
              break;
            case 3:
              try {
                got = x.maybe_get();
              } catch (const errors::try_again&) {
                r = 0;
              }
              break;
            case 4: case 20: {
              auto ms = s.op == 20 ? 0 : s.ms;
              auto t0 = sched::now();
              auto [a, to] = select(x.async_put(s.v), timeout(milliseconds(ms)));
              r = a ? 1 : -2;  // a refusal looks at one flag, which may lag behind: no statement
              SCHED_CHECK(c, r == 1 || sched::now() - t0 >= ms * 1000000ll, "early", "an attempt times out early");
              break;
            }
            case 5: case 21: {
              auto ms = s.op == 21 ? 0 : s.ms;
              auto t0 = sched::now();
              auto [a, to] = select(x.async_get(), timeout(milliseconds(ms)));
              r = a ? 1 : -2;  // a refusal looks at one flag, which may lag behind: no statement
              if (a) got = *a;
              SCHED_CHECK(c, r == 1 || sched::now() - t0 >= ms * 1000000ll, "early", "an attempt times out early");
              break;
            }
            case 6: case 7: {
              context ctx;
              ctx.set_timeout(milliseconds(s.ms));
              try {
                if (s.op == 6)
                  x.put(s.v);
                else
                  got = x.get();
              } catch (const errors::deadline_exceeded&) {
                r = -2;
              }
              break;
            }
            case 8: case 9: {
              context ctx;
              ctx.cancel();
              try {
                if (s.op == 8)
                  x.put(s.v);
                else
                  got = x.get();
                pbt::fatal("cancelled", "an operation succeeds in a cancelled context");
              } catch (const errors::cancelled&) {
                r = -2;
              }
              break;
            }
            default: {
              later.emplace();
              context& ctx = *later;
              auto canceller = spawn([&ctx, &s] {
                if (s.ms) sched::sleep_ms(s.ms);
                ctx.cancel();
              });
              try {
                if (s.op == 19)
                  x.put(s.v);
                else
                  got = x.get();
              } catch (const errors::cancelled&) {
                r = -2;
              }
              join = std::move(canceller);
            }
          }
          h.ev[i].op.value = got;
          h.ev[i].op.result = r;
          if (r == 1) moved++;
          h.end(i);
          if (join.joinable()) join.join();
        }
        running--;
      }));
    }
    // Whoever waits has a reason; give each what it waits for.
    for (int round = 0; round < 200 && running; round++) {
      sched::settle();
      if (!running) break;
      sched::Hold hold;
      for (auto& e : h.ev)
        if (e.res < 0 && (e.op.kind == PUT || e.op.kind == GET)) {
          auto& x = q[e.op.queue]->q;
          if (e.op.kind == PUT) SCHED_CHECK(c, x.full(), "left-waiting", "thread " << e.thread << " waits to put into queue " << e.op.queue << ", which is not full");
          if (e.op.kind == GET) SCHED_CHECK(c, x.empty(), "left-waiting", "thread " << e.thread << " waits for an item of queue " << e.op.queue << ", which has some");
        }
      break;
    }
    for (int round = 0; round < 400 && running; round++) {
      sched::settle();
      if (!running) break;
      for (unsigned k = 0; k < nq; k++) {
        bool getter = false, putter = false;
        for (auto& e : h.ev)
          if (e.res < 0 && e.op.queue == (int)k) (e.op.kind == GET ? getter : putter) = true;
        if (getter) {
          int v = std::is_void_v<T> ? 0 : next_value++;
          auto i = h.begin({(int)k, PUT, v});
          try {
            q[k]->maybe_put(v);
            h.ev[i].op.result = 1;
          } catch (const errors::try_again&) {
            h.ev[i].op.result = 0;
          }
          h.end(i);
        } else if (putter) {
          auto i = h.begin({(int)k, GET});
          try {
            h.ev[i].op.value = q[k]->maybe_get();
            h.ev[i].op.result = 1;
          } catch (const errors::try_again&) {
            h.ev[i].op.result = 0;
          }
          h.end(i);
        }
        sched::settle();
      }
      sched::sleep_ms(25);
    }
    for (auto& t : th) t.join();
    for (unsigned k = 0; k < nq; k++) {
      SCHED_CHECK(c, q[k]->q.max_size() == cap[k] && q[k]->q.capacity() == cap[k], "capacity", "the capacity changed");
      look(k, SIZE);
      look(k, EMPTY);
      look(k, FULL);
      while (true) {
        auto i = h.begin({(int)k, GET});
        bool more = true;
        try {
          h.ev[i].op.value = q[k]->maybe_get();
          h.ev[i].op.result = 1;
        } catch (const errors::try_again&) {
          h.ev[i].op.result = 0;
          more = false;
        }
        h.end(i);
        if (!more) break;
      }
      look(k, EMPTY);
    }
  });
  PBT_CHECK(c, live == 0, "leak", live << " items are left over");
  std::size_t longest = 0;
  for (int k = 0; k < (int)nq; k++) {
    lin::History<Op> one;
    for (auto& e : h.ev)
      if (e.op.queue == k && e.op.result != -2) one.ev.push_back(e);
    longest = std::max(longest, one.ev.size());
    if (one.ev.size() > 64) continue;
    auto n = cap[k];
    bool ok = lin::linearizable<Op, State>(
        one, State{},
        [n](State& s, const Op& o) {
          switch (o.kind) {
            case PUT:
              if (o.result == 0) return s.items.size() == n;
              if (s.items.size() == n) return false;
              s.items.push_back(o.value);
              return true;
            case GET:
              if (o.result == 0) return s.items.empty();
              if (s.items.empty() || s.items.front() != o.value) return false;
              s.items.pop_front();
              return true;
            case SIZE: return o.result == (int)s.items.size();
            case EMPTY: return o.result == (int)s.items.empty();
            default: return o.result == (int)(s.items.size() == n);
          }
        },
        [](const State& s) {
          std::string r;
          for (int v : s.items) r += std::to_string(v) + ",";
          return r;
        });
    std::string text;
    if (!ok)
      for (auto& e : one.ev) {
        static const char* names[] = {"put", "get", "size", "empty", "full"};
        text += PBT_STR_(" [" << e.inv << "," << e.res << "] thread " << e.thread << " " << names[e.op.kind]);
        if (e.op.kind == PUT || e.op.kind == GET)
          text += e.op.result ? PBT_STR_("(" << e.op.value << ");") : std::string(" refused;");
        else
          text += PBT_STR_("=" << e.op.result << ";");
      }
    PBT_CHECK(c, ok, "history", "capacity " << n << ": no order of the operations on queue " << k << " explains their results:" << text);
    c.label("history checked");
  }
  c.nontrivial(res.switches > nt && moved > 1);
}
}  // namespace
PBT_ARM(integers, 9000, 100000, false, 10) { program<int>(c); }
PBT_ARM(strings, 6000, 80000, false, 10) { program<std::string>(c); }
PBT_ARM(move_only, 9000, 100000, false, 10) { program<Item>(c); }
PBT_ARM(semaphores, 8000, 100000, false, 10) { program<void>(c); }

namespace {
template <typename T>
void sequential(pbt::Case& c) {
  context::top();
  sched::Policy p;
  sched::run(c, p, [&] {
    std::size_t cap = c.src.pick(std::vector<int>{0, 1, 2, 3, 7, 40});
    std::unique_ptr<Q<T>> q = std::make_unique<Q<T>>(cap);
    std::deque<int> m;
    auto n = 1 + c.src.length(60);
    int v = 1;
    unsigned moved = 0;
    for (std::size_t i = 0; i < n; i++) {
      auto op = c.src.weighted({5, 5, 3, 3, 2, 2});
      std::optional<context> ctx;
      if (c.src.chance(1, 5)) {
        ctx.emplace();
        ctx->cancel();
        c.note("(cancelled) ");
      }
      if (std::is_void_v<T>) v = 0;
      int r = 1, got = -1;
      switch (op) {
        case 0:
          c.note("maybe_put; ");
          try {
            q->maybe_put(v);
            m.push_back(v++);
            moved++;
            SCHED_CHECK(c, m.size() <= cap, "overfull", "maybe_put succeeds on a full queue");
          } catch (const errors::try_again&) {
            SCHED_CHECK(c, m.size() == cap, "refused", "maybe_put fails on a queue with " << m.size() << " of " << cap);
          }
          break;
        case 1:
          c.note("maybe_get; ");
          try {
            got = q->maybe_get();
            SCHED_CHECK(c, !m.empty() && m.front() == got, "order", "got " << got << (m.empty() ? " from an empty queue" : ", want ") << (m.empty() ? 0 : m.front()));
            m.pop_front();
            moved++;
          } catch (const errors::try_again&) {
            SCHED_CHECK(c, m.empty(), "refused", "maybe_get fails on a queue with " << m.size());
          }
          break;
        case 2:
        case 4:
          c.note("put; ");
          try {
            auto [a, to] = select(q->async_put(v), timeout(milliseconds(op == 2 ? 0 : 3)));
            SCHED_CHECK(c, !ctx, "cancelled", "put succeeds or times out in a cancelled context");
            SCHED_CHECK(c, !!a == (m.size() < cap), "put", "put " << (a ? "succeeds on a full queue" : "times out on a queue with room"));
            if (a) m.push_back(v++), moved++;
          } catch (const errors::cancelled&) {
            SCHED_CHECK(c, !!ctx, "not-cancelled", "put is cancelled without reason");
          }
          break;
        default:
          c.note("get; ");
          try {
            auto [a, to] = select(q->async_get(), timeout(milliseconds(op == 3 ? 0 : 3)));
            SCHED_CHECK(c, !ctx, "cancelled", "get succeeds or times out in a cancelled context");
            SCHED_CHECK(c, !!a == !m.empty(), "get", "get " << (a ? "succeeds on an empty queue" : "times out on a queue with items"));
            if (a) {
              SCHED_CHECK(c, *a == m.front(), "order", "got " << *a << ", want " << m.front());
              m.pop_front();
              moved++;
            }
          } catch (const errors::cancelled&) {
            SCHED_CHECK(c, !!ctx, "not-cancelled", "get is cancelled without reason");
          }
      }
      auto& x = q->q;
      SCHED_CHECK(c, x.size() == m.size() && x.empty() == m.empty() && x.full() == (m.size() == cap), "state",
                  "size " << x.size() << ", empty " << x.empty() << ", full " << x.full() << " with " << m.size() << " items of " << cap);
    }
    c.nontrivial(moved > 2);
  });
}
}  // namespace
PBT_ARM(sequential, 12000, 120000, false, 10) {
  switch (c.src.below(4)) {
    case 0: sequential<int>(c); break;
    case 1: sequential<std::string>(c); break;
    case 2: sequential<Item>(c); break;
    default: sequential<void>(c);
  }
}
