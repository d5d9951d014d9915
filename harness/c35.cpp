// What goes with a remote call: context data, deadlines and cancellation; and what happens when the connection ends.
#include <functional>
#include <set>
#include "rpc.h"
#include "arpc/wait.h"
using namespace arpc;
using std::chrono::milliseconds;

struct Trace : dynamic<Trace> {
  std::string text = "none";
  std::vector<std::int16_t> path;
  ARPC_FIELDS(text, path);
};
struct Level : dynamic<Level> {
  std::int32_t level = -1;
  ARPC_FIELDS(level);
};
struct Unused : dynamic<Unused> {
  std::int32_t x = 3;
  ARPC_FIELDS(x);
};
struct Seen {
  std::optional<std::int64_t> left;  // of the deadline, in milliseconds
  std::string text;
  std::vector<std::int16_t> path;
  std::int32_t level = 0, unused = 0;
  bool cancelled = false;
  std::int64_t at = 0;  // when, in virtual nanoseconds
};
ARPC_INTERFACE(Remote, (),
               (((std::int64_t), add, (((std::uint32_t), token), ((std::int64_t), a))),
                ((Seen), probe, (((std::uint32_t), token), ((unsigned), hops))),
                ((std::int64_t), wait, (((std::uint32_t), token), ((std::int64_t), ms), ((unsigned), hops)))));

namespace {
/// What the methods did.
struct Log {
  std::map<std::uint32_t, unsigned> ran;
  std::map<std::uint32_t, std::string> ended;  // how a wait ended
  unsigned active = 0;
};
Log* g_log = nullptr;
std::function<Remote&()> g_next;  // another hop
struct InCall {
  explicit InCall(std::uint32_t t) {
    g_log->ran[t]++;
    g_log->active++;
  }
  ~InCall() { g_log->active--; }
};
struct RemoteThing : Remote {
  std::int64_t add(std::uint32_t token, std::int64_t a) override {
    InCall c(token);
    return a ^ 0x77;
  }
  Seen probe(std::uint32_t token, unsigned hops) override {
    if (hops) return g_next().probe(token, hops - 1);
    InCall c(token);
    auto& x = context::current();
    Seen s;
    {
      sched::Hold h;
      if (auto d = x.deadline_left()) s.left = d->count();
      s.at = sched::now();
    }
    s.text = x.get<Trace>().text;
    s.path = x.get<Trace>().path;
    s.level = x.get<Level>().level;
    s.unused = x.get<Unused>().x;
    s.cancelled = x.is_cancelled();
    return s;
  }
  std::int64_t wait(std::uint32_t token, std::int64_t ms, unsigned hops) override {
    if (hops) return g_next().wait(token, ms, hops - 1);
    InCall c(token);
    auto& end = g_log->ended[token];
    try {
      if (ms < 0)
        select(never());
      else
        select(timeout(milliseconds(ms)));
      end = "done";
    } catch (const errors::cancelled&) {
      end = "cancelled";
      throw;
    } catch (const errors::deadline_exceeded&) {
      end = "deadline";
      throw;
    }
    return ms;
  }
};
constexpr std::int64_t NEVER = std::numeric_limits<std::int64_t>::max() / 4;
const std::vector<std::int64_t>& durations() {
  static const std::vector<std::int64_t> d{0, 1, 2, 3, 5, 8, 13, 20, 40};
  return d;
}

template <typename C>
void calls(pbt::Case& c) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  p.jump_den = 0;
  if (p.mem_den) p.mem_den = std::max(40u, p.mem_den);
  p.spurious_poll = 0;
  p.max_steps = 1500000;
  unsigned made = 0, cut_short = 0, probes = 0;
  auto res = sched::run(c, p, [&] {
    rpc::Exchange x;
    Log log;
    g_log = &log;
    if (c.src.chance(1, 4)) x.small = 4608;
    server_object<RemoteThing> thing;
    server_options so;
    so.num_worker_threads = 14;
    std::int64_t server_ms = NEVER;
    switch (c.src.below(3)) {
      case 0: so.request_timeout = std::nullopt; break;
      case 1: break;  // an hour
      default:
        server_ms = c.src.pick(durations()) + 5;
        so.request_timeout = milliseconds(server_ms);
    }
    auto serving = std::make_unique<typename C::server>(so, &x);
    serving->register_object(7, thing);
    serving->start();
    auto nc = 1 + c.src.below(2);
    std::vector<std::unique_ptr<typename C::client>> clients;
    for (unsigned i = 0; i < nc; i++) clients.push_back(std::make_unique<typename C::client>(&x));
    client_options forever;
    forever.request_timeout = std::nullopt;
    auto relay = std::make_unique<typename C::client>(&x);
    auto hop = relay->template get_proxy<Remote>(7, forever);
    g_next = [&]() -> Remote& { return hop; };
    c.note(nc, " clients, server timeout ", server_ms == NEVER ? -1 : server_ms, "; ");
    std::uint32_t token = 0;
    struct Want {
      std::uint32_t token;
      bool cancelled, limited;  // was it cancelled; could it end by a deadline
      bool forever, ended_well;
    };
    std::deque<Want> all;
    bool exact = p.tick_ns == 0;

    auto worker = [&](unsigned me) {
      auto& client = *clients[me % nc];
      for (auto m = 1 + c.src.below(4); m > 0; m--) {
        client_options o;
        std::int64_t option_ms = 3600000;
        switch (c.src.below(4)) {
          case 0: o.request_timeout = std::nullopt, option_ms = NEVER; break;
          case 1: option_ms = c.src.pick(durations()) + 1, o.request_timeout = milliseconds(option_ms); break;
          default: break;
        }
        auto proxy = client.template get_proxy<Remote>(7, o);
        auto t = ++token;
        unsigned hops = c.src.chance(1, 4) ? 1 : 0;
        made++;
        switch (c.src.weighted({3, 4, 7, 3})) {
          case 0: {
            // Is not affected by what happens to the others.
            auto a = static_cast<std::int64_t>(c.src.below(100000));
            auto start = sched::now_ms();
            std::int64_t got = -1;
            auto f = rpc::attempt([&] { got = proxy.add(t, a); });
            auto limit = start + option_ms;
            if (f.rfind("deadline_exceeded: ", 0) == 0 && sched::now_ms() >= std::min(limit, start + server_ms)) break;
            SCHED_CHECK(c, f.empty() && got == (a ^ 0x77), "others", "a call that was not cancelled " << (f.empty() ? "gives another value" : "fails with " + f));
            SCHED_CHECK(c, log.ran[t] == 1, "times", "a call ran " << log.ran[t] << " times");
            break;
          }
          case 1: {
            // What the method sees of the caller's context.
            probes++;
            std::deque<std::unique_ptr<context>> nest;
            Trace trace;
            Level level;
            std::int64_t limit = NEVER;
            for (auto n = c.src.below(3); n > 0; n--) {
              nest.push_back(std::make_unique<context>());
              auto& x = *nest.back();
              for (auto k = c.src.below(3); k > 0; k--) {
                switch (c.src.below(5)) {
                  case 0:
                    trace.text = c.src.bytes_upto(10);
                    trace.path.assign(c.src.below(4), static_cast<std::int16_t>(c.src.below(60000)));
                    x.set(trace);
                    break;
                  case 1:
                    level.level = static_cast<std::int32_t>(c.src.draw(~0ull));
                    x.set(level);
                    break;
                  case 2:
                    x.template reset<Trace>();
                    trace = {};
                    break;
                  case 3:
                    x.reset_all();
                    trace = {};
                    level = {};
                    break;
                  default: {
                    sched::Hold h;
                    auto d = c.src.coin() ? c.src.pick(durations()) : 100000;
                    x.set_timeout(milliseconds(d));
                    limit = std::min(limit, sched::now_ms() + d);
                  }
                }
              }
            }
            auto start = sched::now();
            Seen s;
            auto f = rpc::attempt([&] { s = proxy.probe(t, hops); });
            auto end = sched::now();
            while (!nest.empty()) nest.pop_back();
            auto elapsed = (end - start) / 1000000 + 1;
            limit = std::min(limit, start / 1000000 + option_ms);
            if (f.rfind("deadline_exceeded: ", 0) == 0) {
              SCHED_CHECK(c, end / 1000000 + 1 >= std::min(limit, start / 1000000 + server_ms), "early", "a call timed out after " << elapsed << " ms, before its deadline");
              break;
            }
            SCHED_CHECK(c, f.empty(), "others", "a call that was not cancelled fails with " << f);
            SCHED_CHECK(c, s.text == trace.text && s.path == trace.path && s.level == level.level && s.unused == 3, "data", "the method sees " << pbt::hex(s.text) << " " << s.path.size() << " " << s.level << " instead of " << pbt::hex(trace.text) << " " << trace.path.size() << " " << level.level);
            SCHED_CHECK(c, !s.cancelled, "cancelled", "the method runs cancelled");
            // The deadline travels as what is left of it, and so can only be late by the time on the way.
            auto hour = so.request_timeout ? so.request_timeout->count() : NEVER;
            auto at = s.at / 1000000;
            if (limit == NEVER && hour == NEVER) {
              SCHED_CHECK(c, !s.left, "deadline", "the method has " << *s.left << " ms left, but there is no deadline");
            } else {
              SCHED_CHECK(c, s.left.has_value(), "deadline", "the method has no deadline");
              auto latest = std::min(limit == NEVER ? NEVER : limit + elapsed * (hops + 1), end / 1000000 + hour);
              auto earliest = std::min(limit, start / 1000000 + hour);
              SCHED_CHECK(c, at + *s.left <= latest + 2 && at + *s.left + 3 >= earliest, "deadline", "the method's deadline is at " << at + *s.left << " ms, not from " << earliest << " to " << latest);
            }
            break;
          }
          case 2: {
            // Waits until it is cancelled, or times out, or is done.
            bool endless = c.src.coin();
            std::int64_t ms = endless ? -1 : c.src.pick(durations());
            std::int64_t limit = NEVER;
            bool cancel = c.src.coin(), deadline = c.src.coin();
            if (endless && !deadline && option_ms >= 3600000 && server_ms >= 3600000) cancel = true;
            auto own = std::make_unique<context>();
            auto d = c.src.pick(durations());
            if (deadline) {
              sched::Hold h;
              own->set_timeout(milliseconds(d));
              limit = sched::now_ms() + d;
            }
            bool cancelled = false;
            std::thread canceller;
            if (cancel) {
              auto delay = c.src.coin() ? 0 : static_cast<std::int64_t>(c.src.pick(durations()));
              auto steps = c.src.below(60);
              canceller = spawn([&, delay, steps] {
                if (delay) sched::sleep_ms(delay);
                for (auto k = steps; k > 0; k--) sched::point();
                cancelled = true;
                own->cancel();
              });
            }
            auto start = sched::now_ms();
            std::int64_t got = -2;
            auto f = rpc::attempt([&] { got = proxy.wait(t, ms, hops); });
            auto end = sched::now_ms();
            bool was = cancelled;
            if (cancel) canceller.join();
            own.reset();
            limit = std::min(limit, start + option_ms);
            auto first = std::min(limit, start + server_ms);
            if (f.empty()) {
              SCHED_CHECK(c, !endless && got == ms && end >= start + ms, "result", "a call that waits for " << ms << " ms gives " << got << " after " << end - start << " ms");
            } else if (f.rfind("cancelled: ", 0) == 0) {
              SCHED_CHECK(c, was, "cancelled", "a call is cancelled that nobody cancelled");
              cut_short++;
            } else if (f.rfind("deadline_exceeded: ", 0) == 0) {
              SCHED_CHECK(c, end + 1 >= first, "early", "a call timed out after " << end - start << " ms, which had " << first - start << " ms");
              cut_short++;
            } else {
              SCHED_CHECK(c, false, "error", "a call that is cancelled or times out fails with " << f);
            }
            // No later than it should. (The server counts from when it has the request.)
            if (exact) SCHED_CHECK(c, end <= limit + 1, "late", "a call took " << end - start << " ms, though it had only " << limit - start << " ms");
            c.note("#", t, " wait ", ms, " over ", hops, was ? " cancelled" : "", deadline ? " with deadline " : " ", deadline ? d : 0, " option ", option_ms, " at ", start, " to ", end, ": ", f, "; ");
            all.push_back({t, was, first < start + 3600000, endless, f.empty()});
            break;
          }
          default: {
            // Asynchronous, and cancelled by its number or by its time.
            auto async = client.template get_proxy<Remote::async>(7, o);
            bool endless = c.src.coin(), cancel = c.src.coin();
            if (endless && option_ms >= 3600000 && server_ms >= 3600000) cancel = true;
            std::int64_t ms = endless ? -1 : c.src.pick(durations());
            auto start = sched::now_ms();
            auto r = async.wait(t, ms, hops);
            if (cancel) {
              if (c.src.coin()) sched::sleep_ms(c.src.pick(durations()));
              for (auto k = c.src.below(60); k > 0; k--) sched::point();
              client.cancel_request(r.second);
            }
            std::int64_t got = -2;
            auto f = rpc::attempt([&] { got = r.first.get(); });
            auto end = sched::now_ms();
            auto first = std::min(start + option_ms, start + server_ms);
            if (f.empty()) {
              SCHED_CHECK(c, !endless && got == ms && end >= start + ms, "result", "a call that waits for " << ms << " ms gives " << got);
            } else if (f.rfind("cancelled: ", 0) == 0) {
              SCHED_CHECK(c, cancel, "cancelled", "a call is cancelled that nobody cancelled");
              cut_short++;
            } else if (f.rfind("deadline_exceeded: ", 0) == 0) {
              SCHED_CHECK(c, end + 1 >= first, "early", "a call timed out after " << end - start << " ms, which had " << first - start << " ms");
              cut_short++;
            } else {
              SCHED_CHECK(c, false, "error", "a call that is cancelled or times out fails with " << f);
            }
            c.note("#", t, " async wait ", ms, " over ", hops, cancel ? " cancelled" : "", " option ", option_ms, " at ", start, " to ", end, ": ", f, "; ");
            all.push_back({t, cancel, first < start + 3600000, endless, f.empty()});
          }
        }
      }
    };
    std::vector<std::thread> th;
    for (auto n = 1 + c.src.below(3); n > 0; n--) th.push_back(spawn([&, n] { worker(n); }));
    for (auto& t : th) t.join();
    // Whatever still runs has an end.
    for (int i = 0; i < 60; i++) {
      sched::settle();
      if (!log.active) break;
      sched::sleep_ms(2);
    }
    SCHED_CHECK(c, log.active == 0, "goes-on", log.active << " methods still run, though their calls were cancelled or timed out");
    for (auto& w : all) {
      SCHED_CHECK(c, log.ran[w.token] <= 1, "times", "a call ran " << log.ran[w.token] << " times");
      if (!log.ran[w.token]) {
        SCHED_CHECK(c, !w.ended_well, "times", "a call gave a result, but did not run");
        continue;
      }
      auto& how = log.ended[w.token];
      SCHED_CHECK(c, w.cancelled || how != "cancelled", "others", "a method was cancelled whose call was not");
      SCHED_CHECK(c, w.limited || how != "deadline", "others", "a method timed out whose call had no deadline");
      SCHED_CHECK(c, !w.forever || how != "done", "result", "a method that never ends is done");
    }
    if (c.src.coin()) clients.clear();
    g_next = nullptr;
    if (c.src.coin()) relay.reset();
    serving.reset();
    relay.reset();
    clients.clear();
    g_log = nullptr;
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", open_fds() - base << " descriptors are left open");
  c.nontrivial(made > 1 && (cut_short > 0 || probes > 0) && res.switches > 20);
}

/// Connections that end.
template <typename C>
void breaks(pbt::Case& c) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  p.jump_den = 0;
  if (p.mem_den) p.mem_den = std::max(40u, p.mem_den);
  p.spurious_poll = 0;
  p.max_steps = 1500000;
  unsigned good = 0, bad = 0, later = 0, kills = 0;
  auto res = sched::run(c, p, [&] {
    rpc::Exchange x;
    Log log;
    g_log = &log;
    if (c.src.chance(1, 4)) x.small = 4608;
    server_object<RemoteThing> thing;
    server_options so;
    so.num_worker_threads = 10;
    auto serving = std::make_unique<typename C::server>(so, &x);
    serving->register_object(7, thing);
    serving->start();
    auto nc = 1 + c.src.below(2);
    std::vector<std::unique_ptr<typename C::client>> clients;
    for (unsigned i = 0; i < nc; i++) clients.push_back(std::make_unique<typename C::client>(&x));
    std::uint32_t token = 0;
    auto one = [&](typename C::client& client, bool must) {
      auto t = ++token;
      client_options o;
      if (c.src.coin()) o.request_timeout = std::nullopt;
      auto proxy = client.template get_proxy<Remote>(7, o);
      bool waits = c.src.coin();
      std::int64_t a = waits ? c.src.pick(durations()) : static_cast<std::int64_t>(c.src.below(1000)), got = -2;
      std::string f;
      if (c.src.coin()) {
        f = rpc::attempt([&] { got = waits ? proxy.wait(t, a, 0) : proxy.add(t, a); });
      } else {
        auto async = client.template get_proxy<Remote::async>(7, o);
        f = rpc::attempt([&] {
          auto r = waits ? async.wait(t, a, 0) : async.add(t, a);
          got = r.first.get();
        });
      }
      if (f.empty()) {
        good++;
        SCHED_CHECK(c, got == (waits ? a : a ^ 0x77) && log.ran[t] == 1, "result", "a call gives " << got << " after running " << log.ran[t] << " times");
      } else {
        bad++;
        SCHED_CHECK(c, !must, "later", "a call on a new connection fails with " << f);
        SCHED_CHECK(c, f.rfind("foreign", 0) != 0 && f.rfind("cancelled", 0) != 0 && f.rfind("deadline_exceeded", 0) != 0, "error", "a call whose connection ended fails with " << f);
      }
    };
    std::vector<std::thread> th;
    for (auto n = 1 + c.src.below(3); n > 0; n--)
      th.push_back(spawn([&, n] {
        for (auto m = 1 + c.src.below(6); m > 0; m--) one(*clients[n % nc], false);
      }));
    bool stopped = false;
    for (auto n = 1 + c.src.below(4); n > 0; n--) {
      if (c.src.coin()) sched::sleep_ms(c.src.pick(durations()));
      for (auto k = c.src.below(300); k > 0; k--) sched::point();
      switch (c.src.weighted({6, 2, 2, 2})) {
        case 0: {
          sched::Hold h;
          if (!x.client_fds.empty()) {
            auto fd = x.client_fds[x.client_fds.size() - 1 - c.src.below(std::min<std::size_t>(2, x.client_fds.size()))];
            kills += ::shutdown(fd, c.src.pick(std::vector<int>{SHUT_RDWR, SHUT_RD, SHUT_WR})) == 0;
          }
          break;
        }
        case 1:
          serving->stop();
          stopped = true;
          kills++;
          break;
        case 2:
          if (stopped) serving->start();
          stopped = false;
          break;
        default: x.refuse = !x.refuse; break;
      }
      if (c.src.coin()) later++;
    }
    x.refuse = false;
    if (stopped) serving->start();
    for (auto& t : th) t.join();
    // Each has noticed.
    for (int i = 0; i < 60; i++) {
      sched::settle();
      sched::sleep_ms(2);
    }
    SCHED_CHECK(c, log.active == 0, "goes-on", "methods still run");
    for (auto& client : clients)
      for (auto k = 1 + c.src.below(2); k > 0; k--) one(*client, true);
    for (auto& [t, n] : log.ran) SCHED_CHECK(c, n <= 1, "times", "a call ran " << n << " times");
    if (c.src.coin()) clients.clear();
    serving.reset();
    clients.clear();
    g_log = nullptr;
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", open_fds() - base << " descriptors are left open");
  c.nontrivial(kills > 0 && good > 1 && res.switches > 20);
}
}  // namespace
ARPC_REGISTER(Trace);
ARPC_REGISTER(Level);
ARPC_REGISTER(Unused);
PBT_ARM(calls_little, 700, 12000, false, 40) { calls<rpc::LE>(c); }
PBT_ARM(breaks_little, 700, 12000, false, 40) { breaks<rpc::LE>(c); }
PBT_ARM(breaks_mixed, 400, 8000, false, 40) { breaks<rpc::MIX>(c); }
