#include <memory>
#include <mutex>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "lin.h"
using std::chrono::milliseconds;

namespace {
enum Kind { LOCK, UNLOCK };
struct Op {
  int mutex;
  Kind kind;
  int result = -1;  // -1: pending, 0: not acquired, 1: done, -2: no statement
};
const char* NAMES[] = {"lock", "scoped", "try_lock", "maybe_lock", "async_lock", "timed-lock", "deadline-lock", "cancelled-lock", "cancelled-later", "lock-either", "can_lock", "locked-by-then"};
}  // namespace

PBT_ARM(threads, 32000, 400000, false, 10) {
  arpc::context::top();
  auto p = sched::any(c);
  auto nt = 2 + c.src.below(4), nm = 1 + c.src.below(2);
  lin::History<Op> h;
  std::vector<int> holder(nm, -1);
  unsigned acquired = 0;
  auto res = sched::run(c, p, [&] {
    std::vector<std::unique_ptr<arpc::mutex>> m;
    for (unsigned i = 0; i < nm; i++) m.push_back(std::make_unique<arpc::mutex>());
    std::vector<std::thread> th;
    unsigned running = 0;
    auto began = [&](int k) { return h.begin({k, LOCK}); };
    auto ended = [&](std::size_t i, int r) {
      h.ev[i].op.result = r;
      h.end(i);
    };
    auto critical = [&](int k, int hold, int how) {
      SCHED_CHECK(c, holder[k] < 0, "exclusion", "thread " << sched::self() << " holds mutex " << k << ", which thread " << holder[k] << " holds");
      holder[k] = sched::self();
      acquired++;
      for (int i = 0; i < hold % 4; i++) sched::point();
      if (hold >= 4) sched::sleep_ms(hold);
      // Held, it cannot be taken.
      if (hold % 3 == 1) SCHED_CHECK(c, !m[k]->try_lock(), "try-held", "try_lock succeeds on a held mutex");
      SCHED_CHECK(c, holder[k] == sched::self(), "exclusion", "thread " << holder[k] << " got mutex " << k << ", which thread " << sched::self() << " holds");
      holder[k] = -1;
    };
    auto unlock = [&](int k, int how) {
      auto i = h.begin({k, UNLOCK});
      if (how == 1) {
        arpc::context ctx;
        ctx.cancel();
        m[k]->unlock();
      } else if (how == 2) {
        arpc::context ctx;
        ctx.set_timeout(milliseconds(0));
        m[k]->unlock();
      } else {
        m[k]->unlock();
      }
      ended(i, 1);
    };
    struct Step {
      int op, mutex, hold, how, ms;
    };
    for (unsigned t = 0; t < nt; t++) {
      std::vector<Step> prog;
      auto n = 1 + c.src.length(4);
      for (std::size_t i = 0; i < n; i++)
        prog.push_back({(int)c.src.weighted({3, 2, 2, 1, 2, 3, 2, 1, 2, 2, 1, 1}), (int)c.src.below(nm), (int)c.src.below(8), (int)c.src.weighted({4, 1, 1}), c.src.pick(std::vector<int>{0, 1, 3, 20})});
      c.note("thread ", t + 1, ":");
      for (auto& s : prog) c.note(" ", NAMES[s.op], s.mutex, "/", s.hold, s.how ? "/unlock-in-ended-context" : "");
      c.note("; ");
      running++;
      th.push_back(spawn([&, prog] {
        for (auto& s : prog) {
          auto& mu = *m[s.mutex];
          auto i = s.op == 9 || s.op == 10 ? 0 : began(s.mutex);
          bool got = false;
          switch (s.op) {
            case 0: mu.lock(); got = true; break;
            case 1: {
              std::scoped_lock<arpc::mutex> l(mu);
              ended(i, 1);
              critical(s.mutex, s.hold, 0);
              i = h.begin({s.mutex, UNLOCK});
              goto unlocked_below;
            }
            case 2: got = mu.try_lock(); break;
            case 3:
              try {
                mu.maybe_lock();
                got = true;
              } catch (const arpc::errors::try_again&) {
              }
              break;
            case 4: arpc::wait(mu.async_lock()); got = true; break;
            case 5: {
              auto t0 = sched::now();
              auto [r, to] = arpc::select(mu.async_lock(), arpc::timeout(milliseconds(s.ms)));
              got = !!r;
              SCHED_CHECK(c, !!r || !!to, "nothing", "a select returns nothing");
              SCHED_CHECK(c, got || sched::now() - t0 >= s.ms * 1000000ll, "early", "an attempt times out early");
              break;
            }
            case 6: {
              arpc::context ctx;
              ctx.set_timeout(milliseconds(s.ms));
              try {
                mu.lock();
                got = true;
              } catch (const arpc::errors::deadline_exceeded&) {
              }
              break;
            }
            case 7: {
              arpc::context ctx;
              ctx.cancel();
              try {
                mu.lock();
                pbt::fatal("cancelled", "lock succeeds in a cancelled context");
              } catch (const arpc::errors::cancelled&) {
              }
              ended(i, -2);
              continue;
            }
            case 8: {
              // Another thread cancels it while it waits.
              arpc::context ctx;
              auto canceller = spawn([&ctx, &s] {
                if (s.ms) sched::sleep_ms(s.ms);
                ctx.cancel();
              });
              try {
                mu.lock();
                got = true;
              } catch (const arpc::errors::cancelled&) {
              }
              if (got) {
                ended(i, 1);
                critical(s.mutex, s.hold, 0);
                unlock(s.mutex, 0);
              } else {
                ended(i, -2);
              }
              canceller.join();
              continue;
            }
            case 9: {
              if (nm < 2) continue;
              auto i0 = began(0), i1 = began(1);
              auto [r0, r1, to] = arpc::select(m[0]->async_lock(), m[1]->async_lock(), arpc::timeout(milliseconds(s.ms)));
              ended(i0, r0 ? 1 : -2);
              ended(i1, r1 ? 1 : -2);
              SCHED_CHECK(c, !!r0 || !!r1 || !!to, "nothing", "a select returns nothing");
              if (r0) critical(0, s.hold, 0);
              if (r1) critical(1, s.hold, 0);
              if (r0) unlock(0, s.how);
              if (r1) unlock(1, s.how);
              continue;
            }
            case 10: {
              // Waiting until it can be locked does not lock it.
              auto [r, to] = arpc::select(mu.can_lock(), arpc::timeout(milliseconds(s.ms)));
              continue;
            }
            default: {
              int ran = 0;
              auto [r] = arpc::select(mu.async_lock().then([&] { return ++ran; }));
              got = true;
              SCHED_CHECK(c, *r == 1 && ran == 1, "then", "the continuation of a lock runs " << ran << " times");
            }
          }
          ended(i, got);
          if (got) {
            critical(s.mutex, s.hold, 0);
            unlock(s.mutex, s.how);
          }
          continue;
        unlocked_below:
          // The scoped lock is released before this point.
          ended(i, 1);
        }
        running--;
      }));
    }
    for (int round = 0; round < 200 && running; round++) {
      sched::settle();
      if (!running) break;
      sched::Hold hold;
      // Nobody waits without limit for a free mutex.
      for (unsigned k = 0; k < nm; k++) {
        if (holder[k] >= 0) continue;
        bool free = m[k]->try_lock();
        if (!free) continue;
        m[k]->unlock();
        for (auto& e : h.ev)
          if (e.res < 0 && e.op.mutex == (int)k && e.op.kind == LOCK) pbt::fatal("left-waiting", PBT_STR_("thread " << e.thread << " waits for mutex " << k << ", which is free"));
      }
      break;
    }
    for (auto& t : th) t.join();
    for (unsigned k = 0; k < nm; k++) {
      SCHED_CHECK(c, m[k]->try_lock(), "left-locked", "mutex " << k << " is locked at the end, though everybody unlocked it");
      SCHED_CHECK(c, !m[k]->try_lock(), "twice", "mutex " << k << " can be locked twice");
      m[k]->unlock();
    }
  });
  if (h.ev.size() <= 64) {
    for (int k = 0; k < (int)nm; k++) {
      lin::History<Op> one;
      for (auto& e : h.ev)
        if (e.op.mutex == k && e.op.result != -2) one.ev.push_back(e);
      bool ok = lin::linearizable<Op, bool>(
          one, false,
          [](bool& s, const Op& o) {
            if (o.kind == UNLOCK) {
              if (!s) return false;
              s = false;
              return true;
            }
            if (o.result == 0) return s;
            if (s) return false;
            return s = true;
          },
          [](const bool& s) { return std::string(1, '0' + s); });
      std::string text;
      if (!ok)
        for (auto& e : one.ev) text += PBT_STR_(" [" << e.inv << "," << e.res << "] thread " << e.thread << " " << (e.op.kind == LOCK ? "lock" : "unlock") << "=" << e.op.result << ";");
      PBT_CHECK(c, ok, "history", "no order of the operations on mutex " << k << " explains their results:" << text);
    }
    c.label("history checked");
  }
  c.nontrivial(res.switches > nt && acquired > 1);
}
