#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include "arpc/awaitable.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/future.h"
#include "arpc/mutex.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/semaphore.h"
#include "arpc/wait.h"
#include "fds.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
constexpr std::int64_t MS = 1000000;
enum Type { FLAG, GET, PUT, MUTEX, SEM, READ, HUP, FUTURE, WRITE, OBJECTS, TIMEOUT = OBJECTS, DEADLINE, POLLING, NEVER, ALWAYS };
const char* TYPE[] = {"flag", "get", "put", "mutex", "semaphore", "read", "hangup", "future", "write", "timeout", "deadline", "polling", "never", "always"};

/// Something that can be waited for: the real thing, and how often it still can be.
struct Obj {
  Type type;
  int id;
  long avail = 0;       // items, room, permits, bytes...; flags, hangups: 0 or 1 (and stay)
  bool stays() const { return type == FLAG || type == HUP; }
  std::unique_ptr<flag> f;
  std::unique_ptr<queue<int>> q;
  std::unique_ptr<semaphore> s;
  std::unique_ptr<arpc::mutex> m;
  std::unique_ptr<promise<int>> p;
  std::unique_ptr<future<int>> fu;
  int fds[2] = {-1, -1};
  int next_in = 0, next_out = 0;  // numbers of items that went in and out
  int capacity = 0;
  ~Obj() {
    for (int x : fds)
      if (x >= 0) ::close(x);
  }
};
constexpr int PIPE_WRITES = 16;  // of 4096 bytes, into a pipe of 64 KB
std::unique_ptr<Obj> make_obj(pbt::Case& c, Type t, int id, bool idle) {
  auto o = std::make_unique<Obj>();
  o->type = t;
  o->id = id;
  char buf[4096] = {};
  switch (t) {
    case FLAG:
      o->f = std::make_unique<flag>();
      if ((o->avail = !idle && c.src.chance(1, 3))) o->f->set();
      break;
    case GET:
      o->q = std::make_unique<queue<int>>();
      o->avail = idle ? 0 : c.src.weighted({3, 1, 1});
      for (int i = 0; i < o->avail; i++) o->q->put(id * 1000 + o->next_in++);
      break;
    case PUT:
      o->capacity = 1 + c.src.below(3);
      o->q = std::make_unique<queue<int>>(o->capacity);
      o->avail = idle || c.src.coin() ? 0 : c.src.below(o->capacity + 1);
      for (int i = 0; i < o->capacity - o->avail; i++) o->q->put(-1 - o->next_in++);
      break;
    case MUTEX:
      o->m = std::make_unique<arpc::mutex>();
      o->avail = !idle && c.src.chance(1, 3);
      if (!o->avail) o->m->lock();
      break;
    case SEM:
      o->s = std::make_unique<semaphore>(1000);
      o->avail = idle ? 0 : c.src.weighted({3, 1, 1});
      for (int i = 0; i < o->avail; i++) o->s->put();
      break;
    case READ:
    case HUP:
    case WRITE:
      if (pipe2(o->fds, O_NONBLOCK | O_CLOEXEC)) pbt::fatal("harness", "no pipe");
      o->avail = !idle && c.src.chance(1, 3);
      if (t == READ && o->avail && ::write(o->fds[1], buf, 1) != 1) pbt::fatal("harness", "no write");
      if (t == HUP && o->avail) {
        ::close(o->fds[1]);
        o->fds[1] = -1;
      }
      if (t == WRITE) {
        fcntl(o->fds[1], F_SETPIPE_SZ, 65536);
        for (int i = 0; i < PIPE_WRITES - o->avail; i++)
          if (::write(o->fds[1], buf, 4096) != 4096) pbt::fatal("harness", "no write");
      }
      break;
    default:
      o->p = std::make_unique<promise<int>>();
      o->fu = std::make_unique<future<int>>(o->p->get_future());
      if ((o->avail = !idle && c.src.chance(1, 3))) o->p->set_value(id * 1000);
  }
  return o;
}
/// May another event make it ready (once more)?
bool can_happen(const Obj& o, int pending) {
  switch (o.type) {
    case PUT: return o.avail + pending < o.capacity;
    case WRITE: return o.avail + pending < PIPE_WRITES;
    case GET: case SEM: case READ: return pending < 3;
    default: return o.avail + pending == 0;
  }
}
void happen(Obj& o) {
  char buf[4096] = {};
  switch (o.type) {
    case FLAG: o.f->set(); break;
    case GET: o.q->put(o.id * 1000 + o.next_in++); break;
    case PUT: o.q->maybe_get(); break;
    case MUTEX: o.m->unlock(); break;
    case SEM: o.s->put(); break;
    case READ: if (::write(o.fds[1], buf, 1) != 1) pbt::fatal("harness", "no write"); break;
    case HUP: {
      int x = o.fds[1];
      o.fds[1] = -1;
      ::close(x);
      break;
    }
    case WRITE: if (::read(o.fds[0], buf, 4096) != 4096) pbt::fatal("harness", "no read"); break;
    default: o.p->set_value(o.id * 1000);
  }
}
struct Event {
  std::int64_t at;  // ns
  int obj;          // -1: cancel
};
/// What is waited for in one place of a select.
struct Entry {
  Type type;
  int obj = -1;
  std::int64_t ms = 0;
  int retries = 0;    // its reaction fails with try_again so often first
  bool throws = false;
  // Observed:
  int tried = 0, ran = 0, value = 0;
  bool is_time() const { return type == TIMEOUT || type == DEADLINE || type == ALWAYS; }
};
struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};
/// Waits for the entry; the reaction keeps account.
awaitable<int> make_awaitable(Entry& e, std::vector<std::unique_ptr<Obj>>& objs) {
  auto after = [&e](int v) {
    e.ran++;
    e.value = v;
    if (e.throws) throw Boom("entry");
    return v;
  };
  auto before = [&e](auto& f) -> decltype(f()) {
    if (e.tried++ < e.retries) throw errors::try_again("Harness: not yet");
    return f();
  };
  auto* o = e.obj >= 0 ? objs[e.obj].get() : nullptr;
  switch (e.type) {
    case FLAG: return o->f->async_wait().decorate(before).then([after]() mutable { return after(1); });
    case GET: return o->q->async_get().decorate(before).then([after](int v) mutable { return after(v); });
    case PUT: return o->q->async_put(o->id * 1000 + 500).decorate(before).then([after]() mutable { return after(1); });
    case MUTEX: return o->m->async_lock().decorate(before).then([after]() mutable { return after(1); });
    case SEM: return o->s->async_get().decorate(before).then([after]() mutable { return after(1); });
    case FUTURE: return o->fu->async_get().decorate(before).then([after](int v) mutable { return after(v); });
    case READ:
    case HUP:
      return awaitable<void>(o->fds[0]).then([o, after, &e]() mutable {
        if (e.tried++ < e.retries) throw errors::try_again("Harness: not yet");
        char x;
        auto r = ::read(o->fds[0], &x, 1);
        if (r < 0) throw errors::try_again("Harness: nothing there");
        return after(static_cast<int>(r));
      });
    case WRITE:
      return awaitable<void>(o->fds[1], true).then([o, after, &e]() mutable {
        if (e.tried++ < e.retries) throw errors::try_again("Harness: not yet");
        char buf[4096] = {};
        if (::write(o->fds[1], buf, 4096) != 4096) throw errors::try_again("Harness: full");
        return after(1);
      });
    case TIMEOUT: return timeout(milliseconds(e.ms)).decorate(before).then([after]() mutable { return after(2); });
    case DEADLINE: return deadline(std::chrono::system_clock::now() + milliseconds(e.ms)).decorate(before).then([after]() mutable { return after(3); });
    case POLLING: return polling(milliseconds(e.ms)).decorate(before).then([after]() mutable { return after(4); });
    case NEVER: return never().then([after]() mutable { return after(5); });
    default: return always().decorate(before).then([after]() mutable { return after(6); });
  }
}
enum Kind { RESULTS, CANCELLED, DEADLINE_EXCEEDED };
const char* KIND[] = {"results", "cancelled", "deadline exceeded"};
struct Outcome {
  Kind kind = RESULTS;
  std::int64_t at = 0;
  std::vector<char> has, threw;
  std::vector<int> value;
};
struct Setup {
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<Entry> entries;
  std::vector<Event> events;
  std::optional<std::int64_t> deadline;  // of the context, ns
  bool cancelled = false;                // before the wait
  std::int64_t start = 0;
};
void get_result(Outcome& o, result_holder<int>& r) {
  o.has.push_back(r.has_value());
  o.threw.push_back(false);
  o.value.push_back(0);
  if (!r.has_value()) return;
  try {
    o.value.back() = *r;
  } catch (const Boom&) {
    o.threw.back() = true;
  }
}
template <typename T, typename F>
void get_other(Outcome& o, result_holder<T>& r, F f) {
  o.has.push_back(r.has_value());
  o.threw.push_back(false);
  o.value.push_back(0);
  if (!r.has_value()) return;
  try {
    o.value.back() = f(r);
  } catch (const Boom&) {
    o.threw.back() = true;
  }
}
/// Selects over the entries in one of the shapes that a call can have.
void do_select(pbt::Case& c, Setup& s, unsigned shape, Outcome& out) {
  std::vector<awaitable<int>> v;
  v.reserve(s.entries.size());
  for (auto& e : s.entries) v.push_back(make_awaitable(e, s.objs));
  auto n = v.size();
  auto take = [&](std::size_t from, std::size_t to) {
    std::vector<awaitable<int>> r;
    for (auto i = from; i < to; i++) r.push_back(std::move(v[i]));
    return r;
  };
  auto all = [&](auto& r) {
    for (auto& x : r) get_result(out, x);
  };
  auto done = [&] { out.at = sched::now(); };
  if (shape == 0) {
    auto [r] = select(v);
    done();
    all(r);
  } else if (shape == 1) {
    auto [r] = select(std::move(v));
    done();
    all(r);
  } else if (shape == 2) {  // one by one
    if (n == 0) {
      auto r = select();
      done();
      (void)r;
    } else if (n == 1) {
      auto [a] = select(v[0]);
      done();
      get_result(out, a);
    } else if (n == 2) {
      auto [a, b] = select(std::move(v[0]), v[1]);
      done();
      get_result(out, a);
      get_result(out, b);
    } else if (n == 3) {
      auto [a, b, d] = select(v[0], std::move(v[1]), std::move(v[2]));
      done();
      get_result(out, a);
      get_result(out, b);
      get_result(out, d);
    } else {
      auto [a, b, d, e, rest] = select(std::move(v[0]), std::move(v[1]), std::move(v[2]), std::move(v[3]), take(4, n));
      done();
      get_result(out, a);
      get_result(out, b);
      get_result(out, d);
      get_result(out, e);
      all(rest);
    }
  } else if (shape == 3) {  // lists around one
    auto k = n / 2;
    if (n == 0) {
      std::vector<awaitable<int>> none;
      auto [a, b] = select(none, std::vector<awaitable<int>>());
      done();
      all(a);
      all(b);
    } else {
      auto l = take(0, k), r = take(k + 1, n);
      auto [a, b, d] = select(l, v[k], std::move(r));
      done();
      all(a);
      get_result(out, b);
      all(d);
    }
  } else if (shape == 4) {  // results of other types
    auto l = take(std::min<std::size_t>(3, n), n);
    if (n == 0) {
      auto [d] = select(l);
      done();
      all(d);
    } else if (n < 3) {
      auto a0 = v[0].then([](int x) { return std::make_unique<int>(x); });
      if (n == 1) {
        auto [a] = select(a0);
        done();
        get_other(out, a, [](auto& r) { return **r; });
      } else {
        auto [a, b] = select(std::move(a0), v[1].then([](int) {}));
        done();
        get_other(out, a, [](auto& r) { return **r; });
        get_other(out, b, [&](auto& r) { *r; return s.entries[1].value; });
      }
    } else {
      auto [a, d, e, b] = select(v[0].then([](int) {}), v[1].then([](int x) { return std::make_unique<int>(x); }),
                                 v[2].then([](int x) { return std::to_string(x); }), l);
      done();
      get_other(out, a, [&](auto& r) { *r; return s.entries[0].value; });
      get_other(out, d, [](auto& r) { return **r; });
      get_other(out, e, [](auto& r) { return std::stoi(*r); });
      all(b);
    }
  } else {  // a list of others
    std::vector<awaitable<void>> w;
    for (auto& a : v) w.push_back(a.then([](int) {}));
    auto [r, z] = select(w, never());
    done();
    if (z) pbt::fatal("never", "never is ready");
    for (std::size_t i = 0; i < n; i++) get_other(out, r[i], [&](auto& x) { *x; return s.entries[i].value; });
  }
}
constexpr unsigned SHAPES = 6;

struct Prediction {
  Kind kind = RESULTS;
  std::int64_t at = 0;
  std::vector<char> has;
};
/// What a select does where nothing interferes. No value: it is open, as two things happen at the same time.
std::optional<Prediction> predict(const Setup& s) {
  std::vector<long> avail;
  for (auto& o : s.objs) avail.push_back(o->avail);
  auto n = s.entries.size();
  std::vector<int> tried(n, 0);
  Prediction p;
  p.has.assign(n, false);
  std::int64_t t = s.start, last_poll = s.start;
  bool cancelled = s.cancelled;
  std::size_t ev = 0;
  std::optional<std::int64_t> dl_ms;
  if (s.deadline) dl_ms = std::max<std::int64_t>(0, (*s.deadline - s.start + MS - 1) / MS);
  auto left = [&](std::size_t i) -> std::int64_t {
    auto& e = s.entries[i];
    if (e.type == ALWAYS) return 0;
    if (e.type == POLLING) return std::max<std::int64_t>(0, e.ms - (t - last_poll) / MS);
    if (e.is_time()) return std::max<std::int64_t>(0, e.ms - (t - s.start) / MS);
    return -1;
  };
  auto attempt = [&](std::size_t i) {
    auto& e = s.entries[i];
    if (tried[i]++ < e.retries) return false;
    if (e.obj >= 0) {
      if (!avail[e.obj]) return false;
      if (!s.objs[e.obj]->stays()) avail[e.obj]--;
    }
    p.has[i] = true;
    return true;
  };
  for (int rounds = 0; rounds < 100000; rounds++) {
    p.at = t;
    if (cancelled) {
      p.kind = CANCELLED;
      return p;
    }
    std::int64_t min = -1;
    bool polling = false, other = false;
    auto consider = [&](std::int64_t l, bool po) {
      if (l < 0) return;
      if (min < 0 || l < min) {
        min = l;
        polling = other = false;
      }
      if (l == min) (po ? polling : other) = true;
    };
    for (std::size_t i = 0; i < n; i++) consider(left(i), s.entries[i].type == POLLING);
    if (dl_ms) consider(std::max<std::int64_t>(0, *dl_ms - (t - s.start) / MS), false);
    std::vector<std::size_t> ready;
    for (std::size_t i = 0; i < n; i++)
      if (s.entries[i].obj >= 0 && avail[s.entries[i].obj]) ready.push_back(i);
    bool any = false;
    for (auto i : ready) any |= attempt(i);
    if (any) return p;
    if (ready.empty()) {
      auto next = min < 0 ? INT64_MAX : t + min * MS;
      if (ev < s.events.size() && s.events[ev].at <= next) {
        if (s.events[ev].at == next) return std::nullopt;
        auto& e = s.events[ev++];
        t = e.at;
        if (e.obj < 0)
          cancelled = true;
        else
          avail[e.obj]++;
        // The select is woken only by what it waits for; but time passes.
        bool mine = e.obj < 0;
        for (auto& x : s.entries) mine |= e.obj >= 0 && x.obj == e.obj;
        if (!mine) {
          // It goes on waiting for the same moment, which the rounding of elapsed time cannot show here.
          std::int64_t wake = next;
          while (ev < s.events.size() && s.events[ev].at < wake && !mine) {
            auto& y = s.events[ev++];
            t = y.at;
            if (y.obj < 0)
              cancelled = mine = true;
            else
              avail[y.obj]++;
            for (auto& x : s.entries) mine |= y.obj >= 0 && x.obj == y.obj;
          }
          if (!mine) {
            if (ev < s.events.size() && s.events[ev].at == wake) return std::nullopt;
            if (wake == INT64_MAX) return std::nullopt;
            t = wake;
            goto timed_out;
          }
        }
        continue;
      }
      if (next == INT64_MAX) return std::nullopt;
      t = next;
    } else if (min != 0) {
      continue;
    }
  timed_out:
    p.at = t;
    if (polling && other) return std::nullopt;
    if (dl_ms && *dl_ms <= (t - s.start) / MS) {
      p.kind = DEADLINE_EXCEEDED;
      return p;
    }
    any = false;
    // Reactions of descriptors were tried before.
    std::vector<char> over(n, false);
    for (std::size_t i = 0; i < n; i++) over[i] = s.entries[i].type == POLLING ? polling : left(i) == 0;
    for (std::size_t i = 0; i < n; i++)
      if (over[i]) any |= attempt(i);
    if (any) return p;
    if (polling) last_poll = t;
  }
  return std::nullopt;
}
Setup make_setup(pbt::Case& c) {
  Setup s;
  bool idle = c.src.chance(2, 3);
  auto n = c.src.length(6);
  std::map<int, bool> slots;
  for (std::size_t i = 0; i < n; i++) {
    Entry e;
    static const std::vector<Type> types{FLAG, GET, PUT, MUTEX, SEM, READ, HUP, FUTURE, WRITE, TIMEOUT, DEADLINE, POLLING, NEVER, ALWAYS};
    e.type = types[c.src.weighted({3, 3, 2, 2, 1, 2, 1, 2, 1, 4, 2, 4, 1, 1})];
    if (e.type < OBJECTS) {
      for (auto& o : s.objs)
        if (o->type == e.type && e.type != FUTURE && c.src.coin()) e.obj = o->id;
      if (e.obj < 0) {
        e.obj = s.objs.size();
        s.objs.push_back(make_obj(c, e.type, e.obj, idle));
      }
      c.note(TYPE[e.type], " ", e.obj, " (", s.objs[e.obj]->avail, ")");
    } else {
      if (e.type == POLLING)
        e.ms = c.src.pick(std::vector<std::int64_t>{0, 3, 7, 7, 11, 1000, 2147483648ll + 9});
      else if (e.type == TIMEOUT || e.type == DEADLINE)
        e.ms = c.src.pick(std::vector<std::int64_t>{0, 10, 10, 20, 40, 5000, 2147483648ll + 5, 4294967296ll + 2});
      if (e.type == DEADLINE && c.src.chance(1, 5)) e.ms = -5;
      c.note(TYPE[e.type], " ", e.ms);
    }
    if (e.type != NEVER && c.src.chance(1, 4)) e.retries = 1 + c.src.below(3);
    e.throws = c.src.chance(1, 6);
    c.note(e.retries ? PBT_STR_(" retries " << e.retries) : "", e.throws ? " throws; " : "; ");
    s.entries.push_back(e);
  }
  auto m = c.src.length(5);
  std::map<int, int> pending;
  for (std::size_t i = 0; i < m && !s.objs.empty(); i++) {
    int slot = c.src.below(c.src.coin() ? 8 : 60);
    int obj = c.src.below(s.objs.size());
    if (slots[slot] || !can_happen(*s.objs[obj], pending[obj])) continue;
    slots[slot] = true;
    pending[obj]++;
    s.events.push_back({slot * MS + MS / 2, obj});
    c.note("at ", slot, ".5 ", TYPE[s.objs[obj]->type], " ", obj, "; ");
  }
  if (c.src.chance(1, 6)) {
    int slot = c.src.below(60);
    if (!slots[slot]) {
      s.events.push_back({slot * MS + MS / 2, -1});
      c.note("at ", slot, ".5 cancel; ");
    }
  }
  s.events.push_back({(1ll << 35) * MS, -1});
  std::sort(s.events.begin(), s.events.end(), [](auto& a, auto& b) { return a.at < b.at; });
  if (c.src.chance(1, 3)) {
    s.deadline = c.src.pick(std::vector<std::int64_t>{-4, 0, 5, 15, 30, 4000, 2147483648ll + 20}) * MS;
    c.note("deadline ", *s.deadline / MS, "; ");
  }
  if (c.src.chance(1, 12)) {
    s.cancelled = true;
    c.note("cancelled; ");
  }
  return s;
}
void check_run(pbt::Case& c, Setup& s, const Outcome& o, const sched::Policy& p) {
  auto n = s.entries.size();
  auto rel = [&](std::int64_t t) { return PBT_STR_((t - s.start) / MS << "." << (t - s.start) % MS / (MS / 10) << " ms"); };
  bool exact_time = p.tick_ns == 0 && !p.jump_den;
  unsigned events = 0, times = 0;
  for (std::size_t i = 0; i < n; i++) {
    auto& e = s.entries[i];
    bool has = o.kind == RESULTS && o.has[i];
    SCHED_CHECK(c, e.ran == (has ? 1 : 0), "effect", "entry " << i << " (" << TYPE[e.type] << ") " << (has ? "has a result" : "has no result") << ", its reaction went through " << e.ran << " times, outcome " << KIND[o.kind]);
    if (!has) continue;
    SCHED_CHECK(c, o.threw[i] == e.throws && (e.throws || o.value[i] == e.value), "value", "entry " << i << " (" << TYPE[e.type] << ") has value " << o.value[i] << " want " << e.value << " and " << (o.threw[i] ? "an" : "no") << " exception");
    SCHED_CHECK(c, e.type != NEVER, "never", "never is ready");
    (e.obj >= 0 ? events : times)++;
    if (e.is_time() || e.type == POLLING) {
      auto least = e.ms;
      if (e.type == POLLING)
        for (auto& x : s.entries)
          if (x.type == POLLING) least = std::min(least, x.ms);
      SCHED_CHECK(c, o.at - s.start >= least * MS, "early", TYPE[e.type] << " of " << e.ms << " ms fires after " << rel(o.at));
    }
  }
  if (o.kind == RESULTS) SCHED_CHECK(c, events + times > 0, "nothing", "select returns without results");
  if (o.kind == RESULTS) SCHED_CHECK(c, !(events && times), "both", "select reports what is ready along with what timed out");
  if (o.kind == DEADLINE_EXCEEDED) SCHED_CHECK(c, s.deadline && o.at >= *s.deadline, "early", "the deadline of the context fires at " << rel(o.at));
  std::int64_t cancel = s.cancelled ? s.start : s.events.back().at;
  for (auto& e : s.events)
    if (e.obj < 0) {
      cancel = std::min(cancel, e.at);
      break;
    }
  if (o.kind == CANCELLED) SCHED_CHECK(c, o.at >= cancel, "early", "the context is not cancelled yet");
  if (exact_time) {
    // Not later than the first thing there was.
    SCHED_CHECK(c, o.at <= cancel, "late", "cancelled at " << rel(cancel) << ", returns at " << rel(o.at));
    if (s.deadline) SCHED_CHECK(c, o.at < std::max(*s.deadline, s.start) + 2 * MS, "late", "deadline at " << rel(*s.deadline) << ", returns at " << rel(o.at));
    for (auto& e : s.entries) {
      if (e.retries) continue;
      if (e.obj >= 0) {
        std::int64_t at = INT64_MAX;
        if (s.objs[e.obj]->avail) at = s.start;
        for (auto& x : s.events)
          if (x.obj == e.obj) at = std::min(at, x.at);
        SCHED_CHECK(c, o.at <= at, "late", TYPE[e.type] << " ready at " << rel(at) << ", returns at " << rel(o.at));
      } else if (e.type != NEVER) {
        SCHED_CHECK(c, o.at < s.start + std::max<std::int64_t>(0, e.ms) * MS + MS, "late", TYPE[e.type] << " of " << e.ms << ", returns at " << rel(o.at));
      }
    }
  }
  // What was not reported is still there.
  std::map<int, int> taken;
  for (std::size_t i = 0; i < n; i++)
    if (o.kind == RESULTS && o.has[i] && s.entries[i].obj >= 0) taken[s.entries[i].obj]++;
  for (auto& op : s.objs) {
    auto& x = *op;
    long avail = x.avail;
    for (auto& e : s.events)
      if (e.obj == x.id) avail++;
    auto want = x.stays() ? avail : avail - taken[x.id];
    auto got = 0L;
    switch (x.type) {
      case FLAG: got = x.f->is_set(); break;
      case GET: {
        int next = x.id * 1000;
        for (std::size_t i = 0; i < n; i++)
          if (s.entries[i].obj == x.id && o.kind == RESULTS && o.has[i] && !s.entries[i].throws) {
            // Items taken by entries that throw are lost to them; those before and after are in order.
            SCHED_CHECK(c, s.entries[i].value >= next, "order", "got " << s.entries[i].value << " where " << next << " is next");
            next = s.entries[i].value + 1;
          }
        while (!x.q->empty()) {
          auto v = x.q->maybe_get();
          SCHED_CHECK(c, v == static_cast<int>(x.id * 1000 + taken[x.id] + got), "order", "left over " << v);
          got++;
        }
        break;
      }
      case PUT: got = x.capacity - static_cast<long>(x.q->size()); break;
      case SEM: got = x.s->size(); break;
      case MUTEX: got = x.m->try_lock(); break;
      case READ: {
        char b;
        while (::read(x.fds[0], &b, 1) == 1) got++;
        break;
      }
      case HUP: got = want; break;
      case WRITE: {
        char b[4096];
        got = PIPE_WRITES;
        while (::read(x.fds[0], b, 4096) == 4096) got--;
        break;
      }
      default:
        if (taken[x.id]) {
          got = 0;
          break;
        }
        try {
          SCHED_CHECK(c, x.fu->maybe_get() == x.id * 1000, "value", "the future has another value");
          got = 1;
        } catch (const errors::try_again&) {
        }
    }
    SCHED_CHECK(c, got == want, "effect", TYPE[x.type] << " " << x.id << " has " << got << " left, want " << want);
  }
}
std::string show(const Setup& s, Kind kind, std::int64_t at, const std::vector<char>& has) {
  std::string r = PBT_STR_(KIND[kind] << " at " << (at - s.start) / (MS / 10) / 10.0 << " ms");
  if (kind == RESULTS)
    for (std::size_t i = 0; i < has.size(); i++)
      if (has[i]) r += PBT_STR_(", " << TYPE[s.entries[i].type] << " " << i);
  return r;
}
void one(pbt::Case& c, const sched::Policy& p, bool exact) {
  context::top();
  auto fds = open_fds();
  auto result = sched::run(c, p, [&] {
    Setup s = make_setup(c);
    unsigned shape = c.src.below(SHAPES);
    c.note("shape ", shape);
    Outcome o;
    {
      context ctx;
      if (s.cancelled) ctx.cancel();
      sched::sleep_ms(c.src.below(3) * 4);
      s.start = sched::now();
      for (auto& e : s.events) e.at += s.start;
      if (s.deadline) {
        auto sys = std::chrono::system_clock::now();
        auto when = std::chrono::ceil<milliseconds>(sys + std::chrono::nanoseconds(*s.deadline));
        ctx.set_deadline(when);
        s.deadline = s.start + (when - sys).count();
      }
      auto th = spawn([&] {
        for (auto& e : s.events) {
          if (e.at > sched::now()) sched::sleep_ns(e.at - sched::now());
          if (e.obj < 0)
            ctx.cancel();
          else
            happen(*s.objs[e.obj]);
        }
      });
      if (!exact) s.start = sched::now();
      try {
        do_select(c, s, shape, o);
      } catch (const errors::cancelled&) {
        o.kind = CANCELLED;
        o.at = sched::now();
      } catch (const errors::deadline_exceeded&) {
        o.kind = DEADLINE_EXCEEDED;
        o.at = sched::now();
      }
      th.join();
    }
    if (exact) {
      auto want = predict(s);
      if (want) {
        bool same = want->kind == o.kind && want->at == o.at && (o.kind != RESULTS || want->has == o.has);
        SCHED_CHECK(c, same, "outcome", "got " << show(s, o.kind, o.at, o.has) << ", want " << show(s, want->kind, want->at, want->has));
      }
    }
    check_run(c, s, o, p);
    c.nontrivial(o.at > s.start && s.entries.size() > 1);
  });
  (void)result;
  SCHED_CHECK(c, open_fds() == fds, "descriptors", "descriptors are left open");
}
}  // namespace

/// Nothing interferes: when a select returns, and with which results, is known exactly.
PBT_ARM(exact, 30000, 300000, false, 10) {
  sched::Policy p;
  one(c, p, true);
}
/// Signals, descriptors that look ready but are not, any interleaving with what makes things ready.
PBT_ARM(faults, 30000, 300000, false, 10) {
  sched::Policy p = sched::any(c);
  if (c.src.coin()) {
    p.tick_ns = 0;
    p.jump_den = 0;
  }
  if (c.src.chance(1, 3)) p.eintr_den = 2;
  if (c.src.chance(1, 3)) p.spurious_poll = 3;
  one(c, p, false);
}

/// Several threads select over the same things: everything is taken once, by a thread that has it reported.
PBT_ARM(contend, 12000, 120000, false, 10) {
  context::top();
  auto p = sched::any(c);
  auto res = sched::run(c, p, [&] {
    std::deque<queue<int>> qs;
    auto nq = 1 + c.src.below(3);
    for (unsigned i = 0; i < nq; i++) qs.emplace_back(1 + c.src.below(3));
    arpc::mutex mu;
    flag stop;
    bool inside = false;
    std::map<int, int> put, got;
    int locks = 0;
    unsigned producers = 1 + c.src.below(2), consumers = 1 + c.src.below(3), each = 1 + c.src.below(5);
    c.note(nq, " queues, ", producers, " producers of ", each, ", ", consumers, " consumers");
    std::vector<std::thread> prod, cons;
    for (unsigned t = 0; t < producers; t++)
      prod.push_back(spawn([&, t] {
        for (unsigned k = 0; k < each; k++) {
          // Into any of the queues, perhaps several.
          int item = static_cast<int>(t * 100 + k) * 10;
          std::vector<awaitable<void>> puts;
          for (unsigned q = 0; q < nq; q++) puts.push_back(qs[q].async_put(item + static_cast<int>(q)));
          auto [r, late] = select(puts, timeout(milliseconds(50)));
          unsigned n = 0;
          for (unsigned q = 0; q < nq; q++)
            if (r[q]) {
              *r[q];
              n++;
              put[item + static_cast<int>(q)]++;
            }
          SCHED_CHECK(c, (n > 0) != static_cast<bool>(late), "both", "put into " << n << " queues and " << (late ? "" : "not ") << "late");
        }
      }));
    for (unsigned t = 0; t < consumers; t++)
      cons.push_back(spawn([&, t] {
        bool over = false;
        while (!over) {
          std::vector<awaitable<int>> gets;
          for (unsigned q = 0; q < nq; q++) gets.push_back(qs[q].async_get());
          auto [s, r, l] = select(stop.async_wait(), gets, t == 0 ? mu.async_lock() : never());
          for (unsigned q = 0; q < nq; q++)
            if (r[q]) {
              auto v = *r[q];
              SCHED_CHECK(c, v % 10 == static_cast<int>(q), "value", "item " << v << " from queue " << q);
              got[v]++;
            }
          if (l) {
            *l;
            SCHED_CHECK(c, !inside, "exclusive", "the mutex is locked by two");
            inside = true;
            sched::point();
            inside = false;
            locks++;
            mu.unlock();
            if (locks > 20) break;
          }
          if (s) {
            *s;
            over = true;
          }
          SCHED_CHECK(c, s || l || std::any_of(r.begin(), r.end(), [](auto& x) { return x.has_value(); }), "nothing", "select returns without results");
        }
      }));
    if (c.src.coin()) {
      for (int k = 0; k < 3; k++) {
        auto [l, z] = select(mu.async_lock(), timeout(milliseconds(c.src.below(3))));
        if (l) {
          *l;
          SCHED_CHECK(c, !inside, "exclusive", "the mutex is locked by two");
          inside = true;
          sched::point();
          inside = false;
          mu.unlock();
        }
      }
    }
    for (auto& t : prod) t.join();
    stop.set();
    for (auto& t : cons) t.join();
    for (auto& q : qs)
      while (!q.empty()) got[q.maybe_get()]++;
    SCHED_CHECK(c, put == got, "effect", put.size() << " items are reported as put, " << got.size() << " came out, or some not once");
    SCHED_CHECK(c, mu.try_lock(), "effect", "the mutex is still locked");
  });
  c.nontrivial(res.switches > 5);
}
