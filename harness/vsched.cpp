#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <deque>
#include <memory>
#include <unordered_map>
#include <vector>

extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_poll(pollfd*, nfds_t, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_accept(int, sockaddr*, socklen_t*);
int __real_clock_gettime(clockid_t, timespec*);
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_sched_yield();
}

namespace sched {
std::function<std::size_t(const Io&, int&)> io_hook;
namespace {
enum State { READY, MUTEX, COND, POLL, SLEEP, JOIN, UNTIL, IDLE, DONE };
struct T {
  int id = 0;
  sem_t sem;
  State state = READY;
  pthread_t handle{};
  bool joined = false, detached = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  // What it waits for.
  void* obj = nullptr;
  void* obj2 = nullptr;
  pollfd* fds = nullptr;
  nfds_t nfds = 0;
  std::int64_t deadline = -1;
  bool timed_out = false, interrupted = false, signalled = false;
  T* join = nullptr;
  bool ready = false;  // of POLL, as of the last look
  const std::function<bool()>* cond = nullptr;
  const char* what = "";
  std::uint64_t prio = 0;
  unsigned streak = 0;
};
bool g_active = false;
int g_hold = 0;
unsigned g_blocks = 0;  // until the next point between others
int g_guards = 0;       // local statics being made
pbt::Case* g_case = nullptr;
Policy g_p;
std::vector<std::unique_ptr<T>> g_threads;
thread_local T* t_self = nullptr;
std::int64_t g_now = 0;
Result g_res;
std::unordered_map<void*, T*> g_owner;
std::function<std::string()> g_describe;
std::uint64_t g_prio_low = 1u << 30;

/// What the real functions would do to the object: use of a destroyed one has to show.
void touch(const void* p) { (void)*static_cast<const volatile char*>(p); }
T* me() { return t_self; }
bool on() { return g_active && t_self; }

bool enabled(T* t) {
  switch (t->state) {
    case READY:
      return true;
    case MUTEX:
      return g_owner.find(t->obj) == g_owner.end();
    case COND:
      return t->signalled && g_owner.find(t->obj2) == g_owner.end();
    case POLL: {
      return t->interrupted || t->ready;
    }
    case SLEEP:
      return t->deadline <= g_now;
    case JOIN:
      return t->join->state == DONE;
    case UNTIL:
      return (*t->cond)();
    case IDLE:
    case DONE:
      return false;
  }
  return false;
}
bool timed(T* t) {
  return t->deadline >= 0 && (t->state == POLL || t->state == SLEEP || (t->state == COND && !t->signalled));
}
/// The deadline of t has come.
bool due(T* t) { return timed(t) && t->deadline <= g_now && (t->state != COND || g_owner.find(t->obj2) == g_owner.end()); }

/// Looks at what all threads poll, at once.
void poll_all() {
  static std::vector<pollfd> all;
  all.clear();
  for (auto& t : g_threads)
    if (t->state == POLL) all.insert(all.end(), t->fds, t->fds + t->nfds);
  if (!all.empty()) __real_poll(all.data(), all.size(), 0);
  auto it = all.begin();
  for (auto& t : g_threads)
    if (t->state == POLL) {
      t->ready = false;
      for (nfds_t i = 0; i < t->nfds; i++, ++it) t->ready |= it->revents != 0;
    }
}

std::string describe() {
  static const char* n[] = {"ready", "mutex", "condition", "poll", "sleep", "join", "until", "idle", "done"};
  std::string r;
  for (auto& t : g_threads) {
    if (t->state == DONE) continue;
    r += " thread " + std::to_string(t->id) + ": " + n[t->state];
    if (t->state == UNTIL) r += std::string(" ") + t->what;
    if (t->state == JOIN) r += " of " + std::to_string(t->join->id);
    if (t->state == MUTEX) {
      auto it = g_owner.find(t->obj);
      if (it != g_owner.end()) r += " held by " + std::to_string(it->second->id);
    }
    if (t->state == POLL) {
      r += "(";
      for (nfds_t i = 0; i < t->nfds; i++) r += (i ? "," : "") + std::to_string(t->fds[i].fd);
      r += ")";
    }
    r += ";";
  }
  if (g_describe) r += " " + g_describe();
  return r;
}

/// Lets another thread (or the caller) run next. Called by the running thread after it set its own state.
void dispatch(bool ended = false, bool between = false) {
  T* self = t_self;
  if (g_hold && !ended && self->state == READY) return;
  g_res.steps++;
  if (!between) g_now += g_p.tick_ns;
  if (g_res.steps > g_p.max_steps) pbt::fatal("livelock", "no end after " + std::to_string(g_p.max_steps) + " steps:" + describe());
  // Fast path: go on.
  bool forced = !between && ++self->streak > 150;
  if (between) {
    if (g_p.mode == 2) self->prio = --g_prio_low;
  } else if (!ended && self->state == READY && !forced) {
    bool sw = false;
    if (g_p.mode == 1)
      sw = g_case->src.chance(1, g_p.den);
    else if (g_p.mode == 2 && g_case->src.chance(1, g_p.den)) {
      self->prio = --g_prio_low;
      sw = true;
    }
    bool jump = g_p.jump_den && g_case->src.chance(1, g_p.jump_den);
    if (!sw && !jump) return;
    if (jump && !sw) {
      std::int64_t d = -1;
      for (auto& t : g_threads)
        if (timed(t.get()) && t->deadline > g_now && (d < 0 || t->deadline < d)) d = t->deadline;
      if (d >= 0) {
        g_now = d;
        g_res.jumps++;
      }
    }
  }
  std::vector<T*> can;
  T* next = nullptr;
  poll_all();
  // Faults are made rarer with many threads, or there would always be one and time would stand still.
  unsigned live = 0;
  for (auto& t : g_threads) live += t->state != DONE && t->state != IDLE;
  while (true) {
    can.clear();
    for (auto& t : g_threads) {
      auto* p = t.get();
      if (p->state == DONE || p->state == IDLE) continue;
      if (p == self && ended) continue;
      if (p == self && forced && p->state == READY) continue;
      if (enabled(p) || due(p))
        can.push_back(p);
      else if (p->state == POLL && g_p.eintr_den && !p->interrupted && g_case->src.chance(1, g_p.eintr_den * 4 * std::max(2u, live))) {
        p->interrupted = true;
        g_res.interrupts++;
        can.push_back(p);
      } else if (p->state == COND && !p->signalled && g_p.spurious_cond && g_case->src.chance(1, g_p.spurious_cond * std::max(1u, live / 6))) {
        p->signalled = true;
        if (enabled(p)) can.push_back(p);
      }
    }
    if (can.empty() && forced && !ended && self->state == READY) can.push_back(self);
    if (!can.empty()) break;
    // Nothing can go on: those who wait for that do.
    for (auto& t : g_threads)
      if (t->state == IDLE) {
        can.push_back(t.get());
        break;
      }
    if (!can.empty()) break;
    std::int64_t d = -1;
    for (auto& t : g_threads)
      if (timed(t.get()) && t->deadline > g_now && (d < 0 || t->deadline < d)) d = t->deadline;
    if (d < 0) {
      bool all = true;
      for (auto& t : g_threads) all &= t->state == DONE;
      if (all) return;
      pbt::fatal("deadlock", "no thread can go on:" + describe());
    }
    g_now = d;
  }
  if (can.size() == 1) {
    next = can[0];
  } else if (g_p.mode == 2) {
    next = can[0];
    for (auto* t : can)
      if (t->prio > next->prio) next = t;
  } else {
    next = can[g_case->src.below(can.size())];
  }
  // Why it goes on.
  if (next->state == POLL) {
    bool ready = __real_poll(next->fds, next->nfds, 0) != 0;
    if (ready) next->interrupted = false;
    next->timed_out = !ready && !next->interrupted && next->deadline >= 0 && next->deadline <= g_now;
  } else if (next->state == COND) {
    next->timed_out = !next->signalled;
  }
  next->state = READY;
  if (next == self) {
    self->streak = forced ? 0 : self->streak;
    return;
  }
  g_res.switches++;
  next->streak = 0;
  self->streak = 0;
  sem_post(&next->sem);
  if (ended) return;
  while (sem_wait(&self->sem)) {
  }
}

struct SavedErrno {
  int e = errno;
  ~SavedErrno() { errno = e; }
};
void yield_point() {
  SavedErrno s;
  dispatch();
}

T* new_thread() {
  auto t = std::make_unique<T>();
  t->id = g_threads.size();
  sem_init(&t->sem, 0, 0);
  t->prio = g_p.mode == 2 ? (1u << 30) + g_case->src.draw(1000) : 0;
  g_res.threads++;
  g_threads.push_back(std::move(t));
  return g_threads.back().get();
}

void* trampoline(void* a) {
  T* t = static_cast<T*>(a);
  while (sem_wait(&t->sem)) {
  }
  t_self = t;
  void* ret = t->fn(t->arg);
  t->state = DONE;
  dispatch(true);
  t_self = nullptr;
  return ret;
}

void lock_mutex(void* m) {
  auto* t = me();
  while (g_owner.find(m) != g_owner.end()) {
    t->state = MUTEX;
    t->obj = m;
    dispatch();
  }
  g_owner[m] = t;
}

std::int64_t g_shift = 0;
std::int64_t base_real() { return 1700000000ll * 1000000000ll + g_shift; }
std::int64_t base_mono() { return 5000ll * 1000000000ll; }
std::int64_t to_rel(clockid_t clk, const timespec* ts) {
  return ts->tv_sec * 1000000000ll + ts->tv_nsec - (clk == CLOCK_REALTIME ? base_real() : base_mono());
}
int cond_wait(void* c, void* m, std::int64_t deadline) {
  auto* t = me();
  touch(c);
  touch(m);
  g_owner.erase(m);
  t->state = COND;
  t->obj = c;
  t->obj2 = m;
  t->signalled = false;
  t->timed_out = false;
  t->deadline = deadline;
  dispatch();
  bool to = t->timed_out;
  t->deadline = -1;
  touch(m);
  lock_mutex(m);
  return to ? ETIMEDOUT : 0;
}
bool nonblocking(int fd) {
  int f = fcntl(fd, F_GETFL);
  return f >= 0 && (f & O_NONBLOCK);
}
void wait_fd(int fd, short ev) {
  // What fails does so at once.
  int flags = fd < 0 ? -1 : fcntl(fd, F_GETFL);
  if (flags < 0 || (flags & O_ACCMODE) == (ev == POLLIN ? O_WRONLY : O_RDONLY)) return;
  pollfd p{fd, ev, 0};
  auto* t = me();
  while (__real_poll(&p, 1, 0) == 0) {
    t->state = POLL;
    t->fds = &p;
    t->nfds = 1;
    t->deadline = -1;
    t->interrupted = false;
    dispatch();
  }
}
}  // namespace

Policy any(pbt::Case& c) {
  Policy p;
  switch (c.src.weighted({1, 4, 3})) {
    case 0: p.mode = 0; break;
    case 1: p.mode = 1; p.den = c.src.pick(std::vector<int>{2, 4, 10, 30}); break;
    default: p.mode = 2; p.den = c.src.pick(std::vector<int>{4, 10, 30, 100}); break;
  }
  if (c.src.chance(1, 4)) p.eintr_den = c.src.pick(std::vector<int>{2, 8});
  if (c.src.chance(1, 4)) p.jump_den = c.src.pick(std::vector<int>{5, 40});
  if (c.src.chance(1, 8)) p.spurious_cond = 4;
  if (c.src.chance(1, 8)) p.spurious_poll = 6;
  if (c.src.chance(1, 3)) p.mem_den = c.src.pick(std::vector<int>{3, 12, 40, 150, 600});
  p.tick_ns = c.src.pick(std::vector<std::int64_t>{0, 1000, 100000, 700000});
  return p;
}

Result run(pbt::Case& c, const Policy& p, const std::function<void()>& body) {
  g_case = &c;
  g_p = p;
  g_now = 0;
  g_shift = 0;
  g_res = Result();
  g_owner.clear();
  g_threads.clear();
  g_describe = nullptr;
  g_prio_low = 1u << 30;
  io_hook = nullptr;
  g_active = true;
  g_hold = 0;
  g_guards = 0;
  g_blocks = p.mem_den ? 1 + c.src.below(2 * p.mem_den) : 0;
  t_self = new_thread();
  try {
    body();
  } catch (pbt::Failure& f) {
    pbt::fatal(f.key, f.msg);
  } catch (const std::exception& e) {
    pbt::fatal("uncaught-exception", std::string("uncaught in the main thread: ") + e.what());
  }
  if (!g_active) return g_res;
  settle();
  for (auto& t : g_threads)
    if (t->id && (t->state != DONE || !(t->joined || t->detached))) pbt::fatal("thread-left", "a thread is still there at the end:" + describe());
  g_active = false;
  t_self = nullptr;
  for (auto& t : g_threads) sem_destroy(&t->sem);
  g_threads.clear();
  io_hook = nullptr;
  return g_res;
}
bool active() { return g_active; }
std::int64_t now() { return g_now; }
int self() { return t_self ? t_self->id : -1; }
void point() {
  if (on()) yield_point();
}
void sleep_ns(std::int64_t ns) {
  auto* t = me();
  t->state = SLEEP;
  t->deadline = g_now + std::max<std::int64_t>(ns, 0);
  SavedErrno s;
  dispatch();
  t->deadline = -1;
}
void until(const std::function<bool()>& cond, const char* what) {
  auto* t = me();
  while (!cond()) {
    t->state = UNTIL;
    t->cond = &cond;
    t->what = what;
    SavedErrno s;
    dispatch();
  }
}
void settle() {
  auto* t = me();
  t->state = IDLE;
  SavedErrno s;
  dispatch();
}
void on_deadlock(std::function<std::string()> d) { g_describe = std::move(d); }
std::uint64_t interrupts() { return g_res.interrupts; }
Hold::Hold() { g_hold++; }
Hold::~Hold() { g_hold--; }
void abandon() { g_active = false; }
void shift_clock(std::int64_t ns) { g_shift += ns; }
}  // namespace sched

using namespace sched;
extern "C" {
// At the basic blocks of the library (see covfilter.py).
void __sanitizer_cov_trace_pc() {
  if (!g_blocks || --g_blocks) return;
  if (!on()) {
    g_blocks = 1;
    return;
  }
  g_blocks = 1 + g_case->src.below(2 * g_p.mem_den);
  if (g_hold || g_guards || t_self->state != READY) return;
  SavedErrno s;
  dispatch(false, true);
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) {
  int r = __real___cxa_guard_acquire(g);
  g_guards += r;
  return r;
}
void __wrap___cxa_guard_release(void* g) {
  g_guards--;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void* g) {
  g_guards--;
  __real___cxa_guard_abort(g);
}
int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!on()) return __real_pthread_create(h, a, fn, arg);
  T* t = new_thread();
  t->fn = fn;
  t->arg = arg;
  int r = __real_pthread_create(h, a, trampoline, t);
  if (r) pbt::fatal("harness-threads", "cannot create a thread");
  t->handle = *h;
  yield_point();
  return 0;
}
int __wrap_pthread_join(pthread_t h, void** ret) {
  if (!on()) return __real_pthread_join(h, ret);
  T* t = nullptr;
  for (auto& x : g_threads)
    if (x->id && !x->joined && !x->detached && pthread_equal(x->handle, h)) t = x.get();
  if (!t) return __real_pthread_join(h, ret);
  auto* s = me();
  while (t->state != DONE) {
    s->state = JOIN;
    s->join = t;
    dispatch();
  }
  t->joined = true;
  return __real_pthread_join(h, ret);
}
int __wrap_pthread_detach(pthread_t h) {
  if (on())
    for (auto& x : g_threads)
      if (x->id && !x->joined && pthread_equal(x->handle, h)) x->detached = true;
  return __real_pthread_detach(h);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_lock(m);
  touch(m);
  yield_point();
  touch(m);
  lock_mutex(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_trylock(m);
  yield_point();
  touch(m);
  if (g_owner.find(m) != g_owner.end()) return EBUSY;
  g_owner[m] = me();
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_unlock(m);
  auto it = g_owner.find(m);
  if (it == g_owner.end() || it->second != me()) pbt::fatal("mutex-misuse", "a thread unlocks a std::mutex it does not hold");
  g_owner.erase(it);
  yield_point();
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) return __real_pthread_cond_wait(c, m);
  return cond_wait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!on()) return __real_pthread_cond_timedwait(c, m, ts);
  return cond_wait(c, m, std::max<std::int64_t>(0, to_rel(CLOCK_REALTIME, ts)));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  if (!on()) return __real_pthread_cond_clockwait(c, m, clk, ts);
  return cond_wait(c, m, std::max<std::int64_t>(0, to_rel(clk, ts)));
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_signal(c);
  yield_point();
  touch(c);
  std::vector<T*> w;
  for (auto& t : g_threads)
    if (t->state == COND && t->obj == c && !t->signalled) w.push_back(t.get());
  if (!w.empty()) w[w.size() == 1 ? 0 : g_case->src.below(w.size())]->signalled = true;
  yield_point();
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_broadcast(c);
  yield_point();
  touch(c);
  for (auto& t : g_threads)
    if (t->state == COND && t->obj == c) t->signalled = true;
  yield_point();
  return 0;
}
int __wrap_poll(pollfd* fds, nfds_t n, int timeout) {
  if (!on()) return __real_poll(fds, n, timeout);
  yield_point();
  if (g_p.spurious_poll && g_case->src.chance(1, g_p.spurious_poll)) {
    int r = __real_poll(fds, n, 0);
    for (nfds_t i = 0; i < n; i++)
      if (fds[i].fd >= 0 && !fds[i].revents && (fds[i].events & POLLIN) && nonblocking(fds[i].fd) && g_case->src.chance(1, 3)) {
        fds[i].revents = POLLIN;
        r++;
      }
    if (r) return r;
  }
  auto* t = me();
  std::int64_t deadline = timeout < 0 ? -1 : g_now + timeout * 1000000ll;
  while (true) {
    int r = __real_poll(fds, n, 0);
    if (r != 0) return r;
    if (timeout == 0) return 0;
    t->state = POLL;
    t->fds = fds;
    t->nfds = n;
    t->deadline = deadline;
    t->timed_out = t->interrupted = false;
    dispatch();
    t->deadline = -1;
    bool to = t->timed_out, in = t->interrupted;
    t->timed_out = t->interrupted = false;
    r = __real_poll(fds, n, 0);
    if (r != 0) return r;
    if (in) {
      errno = EINTR;
      return -1;
    }
    if (to) return 0;
  }
}
ssize_t __wrap_read(int fd, void* buf, size_t len) {
  if (!on()) return __real_read(fd, buf, len);
  yield_point();
  if (io_hook) {
    int err = 0;
    auto n = io_hook({false, fd, len}, err);
    if (n == 0 && err) {
      errno = err;
      return -1;
    }
    len = std::min(len, n);
  } else if (len > 1 && g_p.short_io && g_case->src.chance(1, g_p.short_io)) {
    len = 1 + g_case->src.below(len - 1);
  }
  if (len && !nonblocking(fd)) wait_fd(fd, POLLIN);
  return __real_read(fd, buf, len);
}
ssize_t __wrap_write(int fd, const void* buf, size_t len) {
  if (!on()) return __real_write(fd, buf, len);
  yield_point();
  if (io_hook) {
    int err = 0;
    auto n = io_hook({true, fd, len}, err);
    if (n == 0 && err) {
      errno = err;
      return -1;
    }
    len = std::min(len, n);
  } else if (len > 1 && g_p.short_io && g_case->src.chance(1, g_p.short_io)) {
    len = 1 + g_case->src.below(len - 1);
  }
  if (!len || nonblocking(fd)) return __real_write(fd, buf, len);
  // A blocking write ends when everything is written.
  size_t done = 0;
  while (done < len) {
    wait_fd(fd, POLLOUT);
    int f = fcntl(fd, F_GETFL);
    fcntl(fd, F_SETFL, f | O_NONBLOCK);
    ssize_t r = __real_write(fd, static_cast<const char*>(buf) + done, len - done);
    int e = errno;
    fcntl(fd, F_SETFL, f);
    errno = e;
    if (r < 0) {
      if (e == EAGAIN) {
        // Some room, but not for this much at once: less.
        if (len - done > 1) {
          fcntl(fd, F_SETFL, f | O_NONBLOCK);
          r = __real_write(fd, static_cast<const char*>(buf) + done, 1);
          fcntl(fd, F_SETFL, f);
          if (r > 0) done += r;
        }
        continue;
      }
      return done ? static_cast<ssize_t>(done) : r;
    }
    done += r;
  }
  return done;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) {
  if (!on()) return __real_accept(fd, a, l);
  yield_point();
  if (!nonblocking(fd)) wait_fd(fd, POLLIN);
  return __real_accept(fd, a, l);
}
int __wrap_clock_gettime(clockid_t clk, timespec* ts) {
  if (!on()) return __real_clock_gettime(clk, ts);
  std::int64_t v = g_now + (clk == CLOCK_REALTIME ? base_real() : base_mono());
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int __wrap_nanosleep(const timespec* ts, timespec* rem) {
  if (!on()) return __real_nanosleep(ts, rem);
  sleep_ns(ts->tv_sec * 1000000000ll + ts->tv_nsec);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t clk, int flags, const timespec* ts, timespec* rem) {
  if (!on()) return __real_clock_nanosleep(clk, flags, ts, rem);
  if (flags & TIMER_ABSTIME)
    sleep_ns(to_rel(clk, ts) - g_now);
  else
    sleep_ns(ts->tv_sec * 1000000000ll + ts->tv_nsec);
  return 0;
}
int __wrap_sched_yield() {
  if (!on()) return __real_sched_yield();
  yield_point();
  return 0;
}
}
