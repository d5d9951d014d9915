// Names and objects: which object a call reaches while objects are registered, replaced, unregistered and destroyed.
#include <functional>
#include "rpc.h"
using namespace arpc;

ARPC_INTERFACE(Named, (), (((std::int64_t), id, (((int), pause))), ((std::string), echo, (((std::string), s)))));
ARPC_INTERFACE(Counted, ((Named)), (((std::int64_t), number, (((int), pause)))));

namespace {
struct World {
  std::deque<unsigned> active;  // by object
  std::deque<bool> alive, plain;
  unsigned ran = 0, bad = 0;
};
World* g_world = nullptr;
struct Use {
  std::int64_t id;
  explicit Use(std::int64_t i, int pause = 0) : id(i) {
    if (!g_world->alive[id]) g_world->bad++;
    g_world->active[id]++;
    g_world->ran++;
    for (; pause > 0; pause--) sched::point();
  }
  ~Use() {
    if (!g_world->alive[id]) g_world->bad++;
    g_world->active[id]--;
  }
};
template <typename I>
struct NamedImpl : I {
  std::int64_t me;
  std::unique_ptr<std::int64_t> heap;
  explicit NamedImpl(std::int64_t i) : me(i), heap(std::make_unique<std::int64_t>(i)) {}
  ~NamedImpl() { g_world->alive[me] = false; }
  std::int64_t id(int pause) override {
    Use u(*heap, pause);
    return *heap;
  }
  std::string echo(std::string s) override {
    Use u(*heap);
    return s + std::to_string(*heap);
  }
};
struct Plain : NamedImpl<Named> {
  using NamedImpl::NamedImpl;
};
struct Full : NamedImpl<Counted> {
  using NamedImpl::NamedImpl;
  std::int64_t number(int pause) override {
    Use u(*heap, pause);
    return -*heap;
  }
};
struct Object {
  std::int64_t id;
  std::unique_ptr<server_object<Plain>> plain;
  std::unique_ptr<server_object<Full>> full;
};
/// Names of several types, of which no two have the same encoding.
constexpr unsigned NAMES = 7;
template <typename F>
void with_name(unsigned n, F f) {
  switch (n) {
    case 0: return f(std::string("a"));
    case 1: return f("ab");
    case 2: return f(std::string());
    case 3: return f(7);
    case 4: return f(std::make_pair(std::string("a"), 3));
    case 5: return f(std::vector<std::string>{"a", "b", ""});
    default: return f(std::make_tuple(std::uint8_t(1), std::string(30, 'n')));
  }
}
constexpr std::int64_t NONE = -1;

/// What a name stands for over time. Changes are made by one thread.
struct Change {
  unsigned from, to;  // when it was asked for, and when it was done
  std::int64_t value;
};

template <typename C>
void names(pbt::Case& c, bool concurrent) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  if (!p.tick_ns) p.tick_ns = 1000;
  p.jump_den = 0;
  if (p.mem_den) p.mem_den = std::max(40u, p.mem_den);
  p.spurious_poll = 0;
  p.max_steps = 3000000;
  unsigned calls = 0, found = 0, replaced = 0;
  auto res = sched::run(c, p, [&] {
    rpc::Exchange x;
    World w;
    g_world = &w;
    unsigned clock = 0;
    bool stop = false;
    std::vector<std::deque<Change>> history(NAMES);
    for (auto& h : history) h.push_back({0, 0, NONE});
    std::deque<std::unique_ptr<Object>> objects;
    server_options so;
    so.num_worker_threads = 1 + c.src.below(4);
    auto serving = std::make_unique<typename C::server>(so, &x);
    bool second = c.src.chance(1, 4);  // objects may be in two servers
    std::unique_ptr<typename C::server> other;
    if (second) other = std::make_unique<typename C::server>(so, &x);
    serving->start();
    auto nc = 1 + c.src.below(2);
    std::vector<std::unique_ptr<typename C::client>> clients;
    for (unsigned i = 0; i < nc; i++) clients.push_back(std::make_unique<typename C::client>(&x));

    auto make = [&] {
      auto o = std::make_unique<Object>();
      o->id = w.active.size();
      w.active.push_back(0);
      w.alive.push_back(true);
      w.plain.push_back(c.src.coin());
      if (w.plain.back())
        o->plain = std::make_unique<server_object<Plain>>(o->id);
      else
        o->full = std::make_unique<server_object<Full>>(o->id);
      objects.push_back(std::move(o));
    };
    auto set = [&](unsigned n, std::int64_t v, auto f) {
      history[n].push_back({++clock, ~0u, v});
      f();
      history[n].back().to = ++clock;
    };
    auto enlist = [&](Object& o, unsigned n) {
      if (history[n].back().value != NONE) replaced++;
      set(n, o.id, [&] {
        with_name(n, [&](const auto& name) {
          if (o.plain)
            serving->register_object(name, *o.plain);
          else
            serving->register_object(name, *o.full);
        });
      });
    };
    auto drop_name = [&](unsigned n) { set(n, NONE, [&] { with_name(n, [&](const auto& name) { serving->unregister_object(name); }); }); };
    auto drop_object = [&](Object& o) {
      std::deque<unsigned> which;
      for (unsigned n = 0; n < NAMES; n++)
        if (history[n].back().value == o.id) which.push_back(n);
      ++clock;
      for (auto n : which) history[n].push_back({clock, ~0u, NONE});
      if (o.plain)
        serving->unregister_object(*o.plain);
      else
        serving->unregister_object(*o.full);
      ++clock;
      for (auto n : which) history[n].back().to = clock;
    };
    // What a name could stand for within an interval.
    auto possible = [&](unsigned n, unsigned from, unsigned to, std::int64_t v) {
      auto& h = history[n];
      for (std::size_t i = 0; i < h.size(); i++) {
        // It holds from h[i].from at the earliest to the end of the next change at the latest.
        if (h[i].from <= to && (i + 1 == h.size() || h[i + 1].to >= from) && h[i].value == v) return true;
      }
      return false;
    };
    auto call_one = [&](typename C::client& client) {
      auto n = c.src.below(c.src.chance(2, 3) ? 2 : NAMES);
      auto kind = c.src.below(3);
      int pause = c.src.below(4);
      calls++;
      std::int64_t got = NONE;
      std::string failure;
      auto from = ++clock;
      with_name(n, [&](const auto& name) {
        failure = rpc::attempt([&] {
          if (kind == 0) {
            auto proxy = client.template get_proxy<Named>(name);
            got = proxy.id(pause);
          } else if (kind == 1) {
            auto proxy = client.template get_proxy<Named>(name);
            auto s = proxy.echo("<>");
            got = s.rfind("<>", 0) == 0 ? std::stoll(s.substr(2)) : -2;
          } else {
            auto proxy = client.template get_proxy<Counted>(name);
            got = -proxy.number(pause);
          }
        });
      });
      auto to = ++clock;
      if (failure.empty()) {
        found++;
        SCHED_CHECK(c, possible(n, from, to, got), "object", "a call to name " << n << " reached object " << got << ", which does not have the name at " << from << ".." << to);
        return;
      }
      SCHED_CHECK(c, failure.rfind("not_found: ", 0) == 0, "failure", "a call to name " << n << " failed with " << failure);
      bool ok = possible(n, from, to, NONE);
      // Or it reached an object without the method.
      if (kind == 2)
        for (std::size_t i = 0; i < w.plain.size(); i++)
          if (w.plain[i] && possible(n, from, to, i)) ok = true;
      SCHED_CHECK(c, ok, "object", "a call to name " << n << " did not find the object it stands for at " << from << ".." << to);
    };
    std::vector<std::thread> th;
    if (concurrent)
      for (unsigned i = 0; i < nc; i++)
        for (auto k = 1 + c.src.below(2); k > 0; k--)
          th.push_back(spawn([&, i] {
            for (auto m = 2 + c.src.below(6); m > 0 && !stop; m--) call_one(*clients[i]);
          }));
    make();
    enlist(*objects[0], c.src.below(2));
    for (auto m = 3 + c.src.below(concurrent ? 8 : 20); m > 0; m--) {
      switch (c.src.weighted({2, 6, 2, 2, 2, concurrent ? 1u : 8u, second ? 2u : 0u})) {
        case 0: make(); break;
        case 1: enlist(*objects[c.src.below(objects.size())], c.src.below(c.src.chance(2, 3) ? 2 : NAMES)); break;
        case 2: drop_name(c.src.below(c.src.coin() ? 2 : NAMES)); break;
        case 3: drop_object(*objects[c.src.below(objects.size())]); break;
        case 4: {
          // The end of an object.
          auto k = c.src.below(objects.size());
          auto& o = *objects[k];
          if (c.src.coin()) {
            drop_object(o);
          } else {
            for (unsigned n = 0; n < NAMES; n++)
              if (history[n].back().value == o.id) {
                if (objects.size() > 1 && c.src.coin()) {
                  auto& r = *objects[(k + 1) % objects.size()];
                  enlist(r, n);
                } else {
                  drop_name(n);
                }
              }
          }
          if (other) {
            if (o.plain)
              other->unregister_object(*o.plain);
            else
              other->unregister_object(*o.full);
          }
          auto id = o.id;
          o.plain.reset();
          o.full.reset();
          SCHED_CHECK(c, w.active[id] == 0, "destroyed", "object " << id << " is destroyed while " << w.active[id] << " calls run");
          objects.erase(objects.begin() + k);
          if (objects.empty()) make();
          break;
        }
        case 5: {
          if (concurrent)
            sched::sleep_ns(c.src.below(200) * 1000);
          else
            call_one(*clients[c.src.below(nc)]);
          break;
        }
        default: {
          auto& o = *objects[c.src.below(objects.size())];
          with_name(c.src.below(NAMES), [&](const auto& name) {
            if (o.plain)
              other->register_object(name, *o.plain);
            else
              other->register_object(name, *o.full);
          });
        }
      }
    }
    if (c.src.chance(1, 4)) stop = true;
    for (auto& t : th) t.join();
    SCHED_CHECK(c, w.bad == 0, "destroyed", "a method ran on an object that was destroyed");
    // At rest, what every name stands for.
    for (unsigned i = 0; i < 3; i++) call_one(*clients[0]);
    // The objects may go once the server does not know them, and after the server.
    if (c.src.coin()) {
      for (auto& o : objects) drop_object(*o);
      other.reset();
      objects.clear();
      for (unsigned n = 0; n < NAMES && n < 2; n++) call_one(*clients[0]);
    }
    if (c.src.coin()) clients.clear();
    serving.reset();
    clients.clear();
    other.reset();
    objects.clear();
    SCHED_CHECK(c, w.bad == 0, "destroyed", "a method ran on an object that was destroyed");
    g_world = nullptr;
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", open_fds() - base << " descriptors are left open");
  c.nontrivial(calls > 2 && found > 0 && (replaced > 0 || concurrent) && res.switches > 20);
}
}  // namespace
PBT_ARM(one_user, 400, 8000, false, 30) { names<rpc::LE>(c, false); }
PBT_ARM(concurrent, 600, 12000, false, 30) { names<rpc::LE>(c, true); }
