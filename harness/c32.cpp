#include <deque>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <optional>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/usage_lock.h"
#include "lin.h"
using namespace arpc;

namespace {
/// What the lock guards; each is a heap object of its own, so that touching a dead one shows.
struct Thing {
  int serial;
  int users = 0;
  std::unique_ptr<int> data;
  explicit Thing(int s) : serial(s), data(std::make_unique<int>(s)) {}
};
/// Phases of the owner, as seen by those who try to get the thing.
struct World {
  pbt::Case* c = nullptr;
  std::unique_ptr<Thing> thing;
  long changes = 0;       // arms and drops that began or ended
  bool armed = false;     // arming is over, and no drop has begun
  bool gone = true;       // dropping is over, and no arming has begun
  int holders = 0;
  int serial = 0;
};
struct Hand {
  std::shared_ptr<Thing> p;
};
/// Tries to get it; checks that this works exactly when it has to.
template <typename L>
std::shared_ptr<Thing> take(World& w, L& lock, bool null_ok, const char* message) {
  auto& c = *w.c;
  auto before = w.changes;
  bool must = w.armed, cannot = w.gone;
  std::shared_ptr<Thing> p;
  bool thrown = false;
  // A thing that is given out counts as held from here on.
  if (null_ok) {
    p = lock.get_or_null();
  } else {
    try {
      p = lock.get();
      SCHED_CHECK(c, p != nullptr, "null", "get returns nothing");
    } catch (const errors::io_error& e) {
      thrown = true;
      SCHED_CHECK(c, std::string(e.what()) == message, "message", "the error says " << e.what());
    }
  }
  if (w.changes == before) {
    SCHED_CHECK(c, !must || p, "refused", "the object is alive, but cannot be had");
    SCHED_CHECK(c, !cannot || !p, "granted", "the object is gone, but can be had");
  }
  (void)thrown;
  if (p) {
    w.holders++;
    p->users++;
    SCHED_CHECK(c, *p->data == p->serial, "value", "the object is another");
  }
  return p;
}
void use(World& w, std::shared_ptr<Thing>& p, unsigned points) {
  auto& c = *w.c;
  for (unsigned i = 0; i < points; i++) {
    sched::point();
    SCHED_CHECK(c, *p->data == p->serial && p->users > 0, "value", "the object changed in use");
  }
}
void release(World& w, std::shared_ptr<Thing>& p) {
  w.holders--;
  p->users--;
  p.reset();
}
constexpr const char* MESSAGE = "It is gone";
using Lock = usage_lock<Thing, errors::io_error>;
}  // namespace

/// An owner that makes, drops and destroys, and users that come at any time.
PBT_ARM(users, 20000, 200000, false, 10) {
  context::top();
  auto p = sched::any(c);
  unsigned granted = 0, refused = 0;
  auto res = sched::run(c, p, [&] {
    World w;
    w.c = &c;
    auto lock = std::make_unique<Lock>(MESSAGE);
    bool over = false;
    int active = 0;
    std::vector<std::thread> th;
    std::deque<Hand> given;  // holds that wait for somebody else to release them
    auto users = 1 + c.src.below(3);
    std::vector<unsigned> tries;
    for (unsigned u = 0; u < users; u++) tries.push_back(1 + c.src.below(5));
    auto rounds = 1 + c.src.below(3);
    bool die = c.src.coin();          // the lock goes away while things are held
    bool two = c.src.chance(1, 4);    // two threads drop
    c.note(users, " users, ", rounds, " rounds", die ? ", dies" : "", two ? ", two drop" : "");
    for (unsigned u = 0; u < users; u++)
      th.push_back(spawn([&, u] {
        for (unsigned k = 0; k < tries[u] && !over; k++) {
          active++;
          auto t = take(w, *lock, c.src.coin(), MESSAGE);
          active--;
          if (!t) {
            refused++;
            sched::point();
            continue;
          }
          granted++;
          switch (c.src.below(4)) {
            case 0: break;
            case 1: use(w, t, 1 + c.src.below(6)); break;
            case 2: {
              // Passed on.
              given.push_back({std::move(t)});
              continue;
            }
            default: {
              auto copy = t;
              use(w, copy, c.src.below(3));
              auto more = std::move(copy);
              use(w, t, c.src.below(3));
            }
          }
          if (c.src.chance(1, 4)) sched::sleep_ms(1 + c.src.below(3));
          release(w, t);
        }
        while (!given.empty()) {
          auto h = std::move(given.front());
          given.pop_front();
          use(w, h.p, c.src.below(3));
          release(w, h.p);
        }
      }));
    auto drop_begins = [&] {
      w.changes++;
      w.armed = false;
    };
    auto drop_ended = [&] {
      SCHED_CHECK(c, w.holders == 0, "early", "dropped while " << w.holders << " still hold it");
      w.changes++;
      w.gone = true;
    };
    for (unsigned r = 0; r < rounds; r++) {
      w.thing = std::make_unique<Thing>(++w.serial);
      w.changes++;
      w.gone = false;
      lock->arm(w.thing.get());
      w.changes++;
      w.armed = true;
      for (unsigned i = c.src.below(8); i > 0; i--) sched::point();
      if (c.src.chance(1, 3)) sched::sleep_ms(1);
      if (die && r + 1 == rounds) {
        // Nobody may start to use the lock any more; those that hold things go on.
        over = true;
        sched::until([&] { return active == 0; }, "nobody to be in get");
        drop_begins();
        lock.reset();
        drop_ended();
      } else if (two && r == 0) {
        drop_begins();
        auto other = spawn([&] { lock->drop(); SCHED_CHECK(c, w.holders == 0, "early", "dropped while " << w.holders << " still hold it"); });
        lock->drop();
        SCHED_CHECK(c, w.holders == 0, "early", "dropped while " << w.holders << " still hold it");
        other.join();
        drop_ended();
      } else {
        drop_begins();
        lock->drop();
        drop_ended();
      }
      if (lock && c.src.coin()) {
        SCHED_CHECK(c, !lock->get_or_null(), "granted", "the object is gone, but can be had");
        bool thrown = false;
        try {
          lock->get();
        } catch (const errors::io_error& e) {
          thrown = std::string(e.what()) == MESSAGE;
        }
        SCHED_CHECK(c, thrown, "refused", "get of a dropped lock does not fail as asked");
      }
      w.thing.reset();
      if (lock && c.src.chance(1, 4)) lock->drop();  // does nothing
    }
    over = true;
    for (auto& t : th) t.join();
    SCHED_CHECK(c, w.holders == 0, "early", "holders at the end");
  });
  c.nontrivial(granted > 0 && res.switches > 4);
  (void)refused;
}
/// An object that drops the lock on itself when it is destroyed, as the connections do.
PBT_ARM(self, 15000, 150000, false, 10) {
  struct Self {
    usage_lock<Self> lock{"gone"};
    std::unique_ptr<int> data = std::make_unique<int>(5);
    std::mutex mu;
    std::condition_variable cv;
    bool closing = false;
    Self() { lock.arm(this); }
    ~Self() {
      close();
      data.reset();
    }
    void close() {
      {
        std::scoped_lock l(mu);
        closing = true;
        cv.notify_all();
      }
      lock.drop();
    }
    int work(bool wait) {
      auto l = lock.get();
      int r = *data;
      if (wait) {
        std::unique_lock u(mu);
        cv.wait(u, [&] { return closing; });
      }
      return r + *data;
    }
  };
  context::top();
  auto p = sched::any(c);
  unsigned worked = 0, refused = 0;
  auto res = sched::run(c, p, [&] {
    auto s = std::make_unique<Self>();
    auto n = 1 + c.src.below(3);
    bool close_first = c.src.coin();
    unsigned entered = 0, left = 0;
    std::vector<std::thread> th;
    for (unsigned i = 0; i < n; i++) {
      bool wait = c.src.coin();
      th.push_back(spawn([&, wait] {
        try {
          entered++;
          SCHED_CHECK(c, s->work(wait) == 10, "value", "the object is not what it was");
          worked++;
        } catch (const errors::unavailable& e) {
          SCHED_CHECK(c, std::string(e.what()) == "gone", "message", "the error says " << e.what());
          refused++;
        }
        left++;
      }));
    }
    for (unsigned i = c.src.below(12); i > 0; i--) sched::point();
    if (close_first) {
      s->close();
      SCHED_CHECK(c, !s->lock.get_or_null(), "granted", "the object is closed, but can be had");
    }
    // A destroyed object cannot be asked any more.
    if (close_first)
      for (auto& t : th) t.join();
    else
      sched::until([&] { return entered == n; }, "all to be in");
    if (!close_first) {
      // Those who are in may be before their get: that is a use of the lock itself, which the owner has to exclude.
      sched::settle();
    }
    s.reset();
    if (!close_first)
      for (auto& t : th) t.join();
    int v = 3;
    usage_lock<int> two(&v, "y");
    SCHED_CHECK(c, *two.get() == 3 && two.get().get() == &v, "value", "a lock made with its object has another");
  });
  c.nontrivial(worked > 0 && res.switches > 3);
  (void)refused;
}
