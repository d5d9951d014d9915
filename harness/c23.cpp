#include <memory>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
/// Puts the rest of the scope under a context of some kind.
struct Under {
  std::optional<context> ctx;
  int kind;
  Under(int k) : kind(k) {
    if (k) ctx.emplace();
    if (k == 1) ctx->cancel();
    if (k == 2) ctx->set_timeout(milliseconds(0));
    if (k == 3) ctx->set_timeout(milliseconds(100000));
  }
};
enum Kind { SET, RESET, IS_SET, WAIT, PEEK };
struct Op {
  int flag;
  Kind kind;
  int result = -1;
};
}  // namespace

/// One thread: flags follow the model, in any context.
PBT_ARM(model, 20000, 200000, false, 10) {
  context::top();
  sched::Policy p;
  p.tick_ns = c.src.pick(std::vector<int>{0, 1000});
  sched::run(c, p, [&] {
    std::vector<std::unique_ptr<flag>> f;
    std::vector<bool> m;
    auto nf = 1 + c.src.below(3);
    for (unsigned i = 0; i < nf; i++) {
      f.push_back(std::make_unique<flag>());
      m.push_back(false);
    }
    auto n = 1 + c.src.length(30);
    unsigned changes = 0;
    for (std::size_t i = 0; i < n; i++) {
      auto k = c.src.below(nf);
      auto op = c.src.weighted({4, 4, 2, 3, 2});
      Under u(c.src.weighted({6, 2, 1, 1}));
      c.note(u.kind ? (u.kind == 1 ? "cancelled " : u.kind == 2 ? "expired " : "timed ") : "");
      switch (op) {
        case 0:
          c.note("set ", k, "; ");
          if (!m[k]) changes++;
          m[k] = true;
          f[k]->set();
          break;
        case 1:
          c.note("reset ", k, "; ");
          if (m[k]) changes++;
          m[k] = false;
          f[k]->reset();
          break;
        case 2: {
          bool a = f[k]->is_set(), b = static_cast<bool>(*f[k]);
          SCHED_CHECK(c, a == m[k] && b == m[k], "is-set", "is_set of flag " << k << " is " << a << "/" << b << ", want " << m[k]);
          break;
        }
        case 3: {
          // A wait with a timeout beside it.
          int ms = c.src.pick(std::vector<int>{0, 1, 7, 100});
          c.note("wait ", k, " ", ms, "; ");
          auto t0 = sched::now();
          try {
            auto [r, t] = select(f[k]->async_wait(), timeout(milliseconds(ms)));
            SCHED_CHECK(c, u.kind != 1, "cancelled", "a wait in a cancelled context returns");
            SCHED_CHECK(c, !!r == m[k], "wait", "a wait " << (r ? "returns though the flag is not set" : "does not return though the flag is set"));
            SCHED_CHECK(c, !r || sched::now() - t0 < 1000000, "prompt", "a wait for a set flag takes " << sched::now() - t0 << " ns");
          } catch (const errors::cancelled&) {
            SCHED_CHECK(c, u.kind == 1, "not-cancelled", "a wait is cancelled though its context is not");
          } catch (const errors::deadline_exceeded&) {
            SCHED_CHECK(c, u.kind == 2 && !m[k], "not-expired", "a wait exceeds a deadline that is not there, or though the flag is set");
          }
          break;
        }
        default: {
          if (!m[k] && u.kind == 0) break;
          c.note("wait ", k, "; ");
          try {
            if (c.src.coin())
              f[k]->wait();
            else
              arpc::wait(f[k]->async_wait());
            SCHED_CHECK(c, m[k] && u.kind != 1, "wait", "a wait returns though the flag is not set or the context cancelled");
          } catch (const errors::cancelled&) {
            SCHED_CHECK(c, u.kind == 1, "not-cancelled", "a wait is cancelled though its context is not");
          } catch (const errors::deadline_exceeded&) {
            SCHED_CHECK(c, u.kind >= 2 && !m[k], "not-expired", "a wait exceeds a deadline that is not there, or though the flag is set");
          }
        }
      }
    }
    for (unsigned k = 0; k < nf; k++) {
      SCHED_CHECK(c, f[k]->is_set() == m[k], "is-set", "at the end is_set of flag " << k << " is " << !m[k]);
      auto [r, t] = select(f[k]->async_wait(), always());
      SCHED_CHECK(c, !!r == m[k], "wait", "at the end a wait for flag " << k << " would " << (r ? "" : "not ") << "return");
    }
    c.nontrivial(changes > 1);
  });
}

/// Several threads set, reset, look at and wait for flags.
PBT_ARM(threads, 24000, 240000, false, 10) {
  context::top();
  auto p = sched::any(c);
  auto nt = 2 + c.src.below(4), nf = 1 + c.src.below(2);
  lin::History<Op> h;
  std::uint64_t waits = 0;
  auto res = sched::run(c, p, [&] {
    std::vector<std::unique_ptr<flag>> f;
    for (unsigned i = 0; i < nf; i++) f.push_back(std::make_unique<flag>());
    std::vector<std::thread> th;
    unsigned running = 0, waiting = 0;
    for (unsigned t = 0; t < nt; t++) {
      std::vector<std::pair<int, std::pair<int, int>>> prog;
      auto n = 1 + c.src.length(6);
      for (std::size_t i = 0; i < n; i++)
        prog.push_back({c.src.weighted({4, 3, 2, 2, 3, 2}), {c.src.below(nf), c.src.weighted({5, 1, 1, 1})}});
      c.note("thread ", t + 1, ":");
      for (auto& [o, a] : prog) {
        static const char* names[] = {"set", "reset", "is_set", "peek", "wait", "timed-wait"};
        c.note(" ", a.second == 1 ? "cancelled-" : a.second == 2 ? "expired-" : "", names[o], a.first);
      }
      c.note("; ");
      running++;
      th.push_back(spawn([&, prog] {
        for (auto& [o, a] : prog) {
          auto& fl = *f[a.first];
          Under u(a.second);
          switch (o) {
            case 0: {
              auto i = h.begin({a.first, SET});
              fl.set();
              h.end(i);
              break;
            }
            case 1: {
              auto i = h.begin({a.first, RESET});
              fl.reset();
              h.end(i);
              break;
            }
            case 2: {
              auto i = h.begin({a.first, IS_SET});
              h.ev[i].op.result = fl.is_set();
              h.end(i);
              break;
            }
            case 3: {
              if (u.kind == 1) break;
              // Not a snapshot when it fails: readiness is looked at before the flag. When it succeeds, the flag was set.
              auto i = h.begin({a.first, PEEK});
              try {
                auto [r, t] = select(fl.async_wait(), always());
                h.ev[i].op.result = !!r;
              } catch (const errors::deadline_exceeded&) {
                h.ev[i].op.result = 0;
              }
              h.end(i);
              break;
            }
            case 4: {
              waits++;
              auto i = h.begin({a.first, WAIT});
              try {
                waiting++;
                fl.wait();
                waiting--;
                SCHED_CHECK(c, u.kind != 1, "cancelled", "a wait in a cancelled context returns");
                h.ev[i].op.result = 1;
              } catch (const errors::cancelled&) {
                waiting--;
                SCHED_CHECK(c, u.kind == 1, "not-cancelled", "a wait is cancelled though its context is not");
                h.ev[i].op.result = -2;
              } catch (const errors::deadline_exceeded&) {
                waiting--;
                SCHED_CHECK(c, u.kind >= 2, "not-expired", "a wait exceeds a deadline that is not there");
                h.ev[i].op.result = u.kind == 2 ? 0 : -2;
              }
              h.end(i);
              break;
            }
            default: {
              waits++;
              auto i = h.begin({a.first, WAIT});
              try {
                auto [r, t] = select(fl.async_wait(), timeout(milliseconds(5)));
                SCHED_CHECK(c, u.kind != 1, "cancelled", "a wait in a cancelled context returns");
                h.ev[i].op.result = !!r;
              } catch (const errors::cancelled&) {
                SCHED_CHECK(c, u.kind == 1, "not-cancelled", "a wait is cancelled though its context is not");
                h.ev[i].op.result = -2;
              } catch (const errors::deadline_exceeded&) {
                SCHED_CHECK(c, u.kind >= 2, "not-expired", "a wait exceeds a deadline that is not there");
                h.ev[i].op.result = 0;
              }
              h.end(i);
            }
          }
        }
        running--;
      }));
    }
    // Whoever waits at the end waits for flags that are not set.
    for (int round = 0; round < 100 && running; round++) {
      sched::settle();
      if (!running) break;
      sched::Hold hold;
      for (unsigned k = 0; k < nf; k++) {
        bool s = f[k]->is_set();
        for (auto& e : h.ev)
          if (e.res < 0 && e.op.flag == (int)k && e.op.kind == WAIT)
            SCHED_CHECK(c, !s, "missed-wakeup", "thread " << e.thread << " still waits for flag " << k << ", which is set");
      }
      // Setting wakes all of them.
      for (unsigned k = 0; k < nf; k++) {
        auto i = h.begin({(int)k, SET});
        f[k]->set();
        h.end(i);
      }
    }
    for (auto& t : th) t.join();
    for (unsigned k = 0; k < nf; k++) {
      auto i = h.begin({(int)k, IS_SET});
      h.ev[i].op.result = f[k]->is_set();
      h.end(i);
      i = h.begin({(int)k, PEEK});
      auto [r, t] = select(f[k]->async_wait(), always());
      h.ev[i].op.result = !!r;
      h.end(i);
    }
  });
  if (h.ev.size() <= 64) {
    std::uint64_t explored = 0;
    for (int k = 0; k < (int)nf; k++) {
      lin::History<Op> one;
      for (auto& e : h.ev)
        if (e.op.flag == k && e.op.result != -2) one.ev.push_back(e);
      bool ok = lin::linearizable<Op, bool>(
          one, false,
          [](bool& s, const Op& o) {
            switch (o.kind) {
              case SET: s = true; return true;
              case RESET: s = false; return true;
              default: return o.result == (int)s;
            }
          },
          [](const bool& s) { return std::string(1, '0' + s); }, nullptr, &explored);
      std::string text;
      if (!ok)
        for (auto& e : one.ev) {
          static const char* names[] = {"set", "reset", "is_set", "wait", "peek"};
          text += PBT_STR_(" [" << e.inv << "," << e.res << "] thread " << e.thread << " " << names[e.op.kind] << (e.op.result >= 0 ? (e.op.result ? "=1" : "=0") : "") << ";");
        }
      PBT_CHECK(c, ok, "history", "no order of the operations on flag " << k << " explains their results:" << text);
    }
    c.label("history checked");
  }
  c.nontrivial(res.switches > nt && waits > 0);
}
