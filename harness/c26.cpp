#include <deque>
#include <memory>
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/future.h"
#include "arpc/result_holder.h"
#include "arpc/select.h"
#include "arpc/wait.h"
#include "fds.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
/// An outcome: a value as text, or an error.
struct Out {
  int err = 0;  // 0: none; index into ERR
  std::string text;
  bool operator==(const Out& o) const { return err == o.err && text == o.text; }
};
std::ostream& operator<<(std::ostream& os, const Out& o) {
  static const char* n[] = {"value", "io_error", "not_found", "invalid_state", "runtime_error", "int", "eof"};
  return os << n[o.err] << "(" << o.text.substr(0, 60) << ")";
}
enum { IO = 1, NOT_FOUND, INVALID_STATE, RUNTIME, INT, EOF_ };
[[noreturn]] void raise(int e, const std::string& m) {
  switch (e) {
    case IO: throw errors::io_error(m);
    case NOT_FOUND: throw errors::not_found(m);
    case INVALID_STATE: throw errors::invalid_state(m);
    case RUNTIME: throw std::runtime_error(m);
    case EOF_: throw errors::eof(m);
    default: throw std::atoi(m.c_str());
  }
}
template <typename F>
Out outcome(F f) {
  try {
    return {0, f()};
  } catch (const errors::io_error& e) {
    return {IO, e.what()};
  } catch (const errors::eof& e) {
    return {EOF_, e.what()};
  } catch (const errors::not_found& e) {
    return {NOT_FOUND, e.what()};
  } catch (const errors::invalid_state& e) {
    return {INVALID_STATE, e.what()};
  } catch (const errors::try_again&) {
    return {-1, ""};
  } catch (const std::runtime_error& e) {
    return {RUNTIME, e.what()};
  } catch (int i) {
    return {INT, std::to_string(i)};
  }
}
std::string T(int i) { return "i" + std::to_string(i); }
std::string T(const std::string& s) { return "s" + s; }
std::string T(const std::unique_ptr<int>& p) { return p ? "u" + std::to_string(*p) : "null"; }

std::vector<int> stages;  // which stages ran
int next_stage = 0;

/// A chain of up to depth stages on a future or an awaitable; W is where it is built on, f the model so far.
struct ModelStep {
  std::function<Out(const Out&, std::vector<int>&)> f;
};
using Model = std::vector<ModelStep>;
Out eval(const Model& m, Out o, std::vector<int>& log) {
  for (auto& s : m) o = s.f(o, log);
  return o;
}

template <typename V>
struct As;
template <>
struct As<int> {
  static Out out(int v) { return {0, T(v)}; }
  static int val(const std::string& t) { return std::atoi(t.c_str() + 1); }
};
template <>
struct As<std::string> {
  static Out out(const std::string& v) { return {0, T(v)}; }
  static std::string val(const std::string& t) { return t.substr(1); }
};
template <>
struct As<std::unique_ptr<int>> {
  static std::unique_ptr<int> val(const std::string& t) { return std::make_unique<int>(std::atoi(t.c_str() + 1)); }
};

/// What a continuation makes of its argument: decided by k, the same in the model and in the code.
template <typename To>
std::string transform(const std::string& in, int k) {
  auto n = std::hash<std::string>()(in) % 1000 + k;
  if constexpr (std::is_void_v<To>)
    return "v";
  else if constexpr (std::is_same_v<To, int>)
    return "i" + std::to_string(n);
  else if constexpr (std::is_same_v<To, std::string>)
    return "s<" + in + ":" + std::to_string(k) + ">";
  else
    return "u" + std::to_string(n);
}
template <typename To>
To make(const std::string& text) {
  if constexpr (!std::is_void_v<To>) return As<To>::val(text);
}
template <typename V>
std::string text_of(V& v) {
  return T(v);
}

template <typename From, typename To, typename W>
auto add_then(pbt::Case& c, W& w, Model& m) {
  int id = next_stage++, k = c.src.below(50), e = c.src.weighted({6, 1, 1, 0, 1, 1});
  c.note(".then#", id, e ? "(throws)" : "");
  m.push_back({[=](const Out& o, std::vector<int>& log) -> Out {
    if (o.err) return o;
    log.push_back(id);
    if (e) return {e, e == INT ? std::to_string(id) : "m" + std::to_string(id)};
    return {0, transform<To>(o.text, k)};
  }});
  auto thrower = [=] {
    stages.push_back(id);
    if (e) raise(e, e == INT ? std::to_string(id) : "m" + std::to_string(id));
  };
  if constexpr (std::is_void_v<From>) {
    return w.then([=, p = std::make_unique<int>(k)]() -> To {
      thrower();
      return make<To>(transform<To>("v", *p));
    });
  } else {
    return w.then([=, p = std::make_unique<int>(k)](From x) -> To {
      thrower();
      return make<To>(transform<To>(text_of(x), *p));
    });
  }
}
template <typename From, typename E, typename W>
auto add_except(pbt::Case& c, W& w, Model& m, bool (*catches)(int)) {
  int id = next_stage++, k = c.src.below(50), e = c.src.weighted({4, 1, 1});
  c.note(".except#", id, e ? "(throws)" : "");
  m.push_back({[=](const Out& o, std::vector<int>& log) -> Out {
    if (!o.err || !catches(o.err)) return o;
    log.push_back(id);
    if (e) return {e, "h" + o.text};
    return {0, transform<From>(o.text, k)};
  }});
  return w.template except<E>([=, p = std::make_unique<int>(k)](const E& x) -> From {
    stages.push_back(id);
    std::string what;
    if constexpr (std::is_same_v<E, int>)
      what = std::to_string(x);
    else
      what = x.what();
    if (e) raise(e, "h" + what);
    return make<From>(transform<From>(what, *p));
  });
}
template <typename From, typename To, typename W>
auto add_decorate(pbt::Case& c, W& w, Model& m) {
  int id = next_stage++, k = c.src.below(50);
  int kind = c.src.below(4);  // pass through; swallow errors; do not call; throw afterwards
  c.note(".decorate#", id, "/", kind);
  m.push_back({[=](const Out& o, std::vector<int>& log) -> Out { return o; }});
  // The wrapper decides whether the inner stages run at all: model it by wrapping everything before.
  Model inner(m.begin(), m.end() - 1);
  m.clear();
  m.push_back({[=](const Out& start, std::vector<int>& log) -> Out {
    log.push_back(id);
    if (kind == 2) return {0, transform<To>("skipped", k)};
    Out o = eval(inner, start, log);
    log.push_back(-id);
    if (o.err) {
      if (kind == 1) return {0, transform<To>("caught", k)};
      return o;
    }
    if (kind == 3) return {NOT_FOUND, "after" + std::to_string(id)};
    return {0, transform<To>(o.text, k)};
  }});
  return w.decorate([=, p = std::make_unique<int>(k)](auto& of, auto&&... a) -> To {
    stages.push_back(id);
    if (kind == 2) return make<To>(transform<To>("skipped", *p));
    std::string text = "v";
    try {
      if constexpr (std::is_void_v<From>) {
        of(std::forward<decltype(a)>(a)...);
      } else {
        auto x = of(std::forward<decltype(a)>(a)...);
        text = text_of(x);
      }
    } catch (...) {
      stages.push_back(-id);
      if (kind == 1) return make<To>(transform<To>("caught", *p));
      throw;
    }
    stages.push_back(-id);
    if (kind == 3) throw errors::not_found("after" + std::to_string(id));
    return make<To>(transform<To>(text, *p));
  });
}

/// Ends a chain: gets the outcome.
template <typename V>
Out finish(pbt::Case& c, future<V>& f, int how) {
  return outcome([&]() -> std::string {
    if constexpr (std::is_void_v<V>) {
      if (how == 0) {
        f.get();
      } else if (how == 1) {
        f.maybe_get();
      } else {
        auto [r] = select(f.async_get());
        *r;
      }
      return "v";
    } else {
      if (how == 0) {
        auto v = f.get();
        return T(v);
      }
      if (how == 1) {
        auto v = f.maybe_get();
        return T(v);
      }
      auto [r] = select(f.async_get());
      auto v = std::move(*r);
      return T(v);
    }
  });
}
template <typename V>
Out finish(pbt::Case& c, awaitable<V>& a, int) {
  return outcome([&]() -> std::string {
    auto [r] = select(std::move(a));
    if constexpr (std::is_void_v<V>) {
      *r;
      return "v";
    } else {
      auto v = std::move(*r);
      return T(v);
    }
  });
}

template <int DEPTH, typename V, template <typename> class W>
void chain(pbt::Case& c, W<V> w, Model& m, const std::function<void(std::function<Out(int)>)>& done) {
  if constexpr (DEPTH == 0) {
    done([&](int how) { return finish<V>(c, w, how); });
    return;
  } else {
    bool bare = next_stage == 0;
    switch (c.src.weighted({bare ? 0u : 2u, 4, 3, 2})) {
      case 0: done([&](int how) { return finish<V>(c, w, how); }); return;
      case 1:
        switch (c.src.below(4)) {
          case 0: return chain<DEPTH - 1, int, W>(c, add_then<V, int>(c, w, m), m, done);
          case 1: return chain<DEPTH - 1, std::string, W>(c, add_then<V, std::string>(c, w, m), m, done);
          case 2: return chain<DEPTH - 1, std::unique_ptr<int>, W>(c, add_then<V, std::unique_ptr<int>>(c, w, m), m, done);
          default: return chain<DEPTH - 1, void, W>(c, add_then<V, void>(c, w, m), m, done);
        }
      case 2:
        switch (c.src.below(5)) {
          case 0: return chain<DEPTH - 1, V, W>(c, add_except<V, errors::io_error>(c, w, m, [](int e) { return e == IO; }), m, done);
          case 1: return chain<DEPTH - 1, V, W>(c, add_except<V, errors::base_error>(c, w, m, [](int e) { return e == IO || e == NOT_FOUND || e == INVALID_STATE || e == EOF_; }), m, done);
          case 2: return chain<DEPTH - 1, V, W>(c, add_except<V, std::exception>(c, w, m, [](int e) { return e != INT; }), m, done);
          case 3: return chain<DEPTH - 1, V, W>(c, add_except<V, int>(c, w, m, [](int e) { return e == INT; }), m, done);
          default: return chain<DEPTH - 1, V, W>(c, add_except<V, errors::not_found>(c, w, m, [](int e) { return e == NOT_FOUND; }), m, done);
        }
      default:
        switch (c.src.below(3)) {
          case 0: return chain<DEPTH - 1, int, W>(c, add_decorate<V, int>(c, w, m), m, done);
          case 1: return chain<DEPTH - 1, V, W>(c, add_decorate<V, V>(c, w, m), m, done);
          default: return chain<DEPTH - 1, void, W>(c, add_decorate<V, void>(c, w, m), m, done);
        }
    }
  }
}
Out start_outcome(pbt::Case& c) {
  int e = c.src.weighted({5, 2, 1, 1, 1, 1});
  if (e) return {e, e == INT ? std::to_string(c.src.below(1000)) : "start" + std::to_string(c.src.below(10))};
  return {};
}
void judge(pbt::Case& c, const Out& got, const Out& want, const std::vector<int>& log) {
  PBT_CHECK(c, got == want, "outcome", "got " << got << ", want " << want);
  std::string a, b;
  for (int i : stages) a += std::to_string(i) + " ";
  for (int i : log) b += std::to_string(i) + " ";
  PBT_CHECK(c, stages == log, "stages", "stages run: " << a << ", want: " << b);
}

template <typename V>
void future_chain(pbt::Case& c) {
  stages.clear();
  next_stage = 0;
  Model m;
  auto start = start_outcome(c);
  int kind = c.src.weighted({4, 2, 2, 1});  // value/exception, result, drop, overwrite
  std::optional<promise<V>> p(std::in_place);
  auto f = p->get_future();
  bool before = c.src.coin();
  auto how = c.src.below(3);
  if (!start.err) {
    if constexpr (std::is_void_v<V>) start.text = "v";
    else start.text = transform<V>("x", c.src.below(100));
  }
  if (kind == 1 && std::is_void_v<V>) kind = 0;
  c.note("start ", PBT_STR_(start), kind == 2 ? " dropped" : kind == 3 ? " overwritten" : "");
  auto set = [&] {
    if (kind >= 2) {
      start = {INVALID_STATE, "Broken promise"};
      if (kind == 2) p.reset();
      else *p = promise<V>();
      return;
    }
    if (kind == 1) {
      if constexpr (!std::is_void_v<V>) {
        result_holder<V> r;
        if (start.err) {
          try {
            raise(start.err, start.text);
          } catch (...) {
            r.set_exception(std::current_exception());
          }
        } else {
          r.set_value(make<V>(start.text));
        }
        p->set(std::move(r));
      }
      return;
    }
    if (start.err) {
      try {
        raise(start.err, start.text);
      } catch (...) {
        p->set_exception(std::current_exception());
      }
    } else if constexpr (std::is_void_v<V>) {
      p->set_value();
    } else {
      p->set_value(make<V>(start.text));
    }
  };
  if (before) set();
  chain<4, V, future>(c, std::move(f), m, [&](std::function<Out(int)> get) {
    if (!before) {
      auto o = get(1);
      // Nothing there yet, unless some decoration does not ask.
      std::vector<int> log;
      if (o.err != -1) {
        Out none{-1, ""};
        auto want = eval(m, none, log);
        (void)want;
        return;  // a decoration answered by itself: such chains do not ask again
      }
      stages.clear();
      set();
    }
    auto got = get(how);
    std::vector<int> log;
    // The message of a broken promise is not specified.
    auto want = eval(m, start, log);
    judge(c, got, want, log);
  });
  c.nontrivial(next_stage > 1);
}
template <typename V>
void awaitable_chain(pbt::Case& c) {
  stages.clear();
  next_stage = 0;
  Model m;
  auto start = start_outcome(c);
  if (!start.err) {
    if constexpr (std::is_void_v<V>) start.text = "v";
    else start.text = transform<V>("x", c.src.below(100));
  }
  c.note("start ", PBT_STR_(start));
  auto a = always().then([start]() -> V {
    if (start.err) raise(start.err, start.text);
    return make<V>(start.text);
  });
  chain<4, V, awaitable>(c, std::move(a), m, [&](std::function<Out(int)> get) {
    auto got = get(0);
    std::vector<int> log;
    auto want = eval(m, start, log);
    judge(c, got, want, log);
  });
  c.nontrivial(next_stage > 1);
}
}  // namespace

PBT_ARM(continuations, 24000, 240000, false, 10) {
  switch (c.src.below(4)) {
    case 0: future_chain<int>(c); break;
    case 1: future_chain<std::string>(c); break;
    case 2: future_chain<std::unique_ptr<int>>(c); break;
    default: future_chain<void>(c);
  }
}
PBT_ARM(awaitables, 16000, 160000, false, 10) {
  switch (c.src.below(4)) {
    case 0: awaitable_chain<int>(c); break;
    case 1: awaitable_chain<std::string>(c); break;
    case 2: awaitable_chain<std::unique_ptr<int>>(c); break;
    default: awaitable_chain<void>(c);
  }
}

namespace {
long live = 0;
struct Item {
  std::unique_ptr<int> p;
  Item() { ++live; }
  explicit Item(int x) : p(std::make_unique<int>(x)) { ++live; }
  Item(Item&& o) : p(std::move(o.p)) { ++live; }
  Item& operator=(Item&& o) {
    p = std::move(o.p);
    return *this;
  }
  ~Item() { --live; }
};
template <typename V>
std::string show(V& v) {
  if constexpr (std::is_same_v<V, Item>)
    return v.p ? "item" + std::to_string(*v.p) : "moved-from";
  else
    return T(v);
}
template <typename V>
V fresh(int x) {
  if constexpr (std::is_same_v<V, Item>)
    return Item(x);
  else if constexpr (std::is_same_v<V, int>)
    return x;
  else if constexpr (std::is_same_v<V, std::string>)
    return std::string(x % 50, 'v') + std::to_string(x);
}
template <typename V>
void set_value(promise<V>& p, int x, std::string& text) {
  if constexpr (std::is_void_v<V>) {
    p.set_value();
    text = "v";
  } else {
    auto v = fresh<V>(x);
    text = show(v);
    p.set_value(std::move(v));
  }
}
template <typename V>
Out get(future<V>& f, int how) {
  return outcome([&]() -> std::string {
    if constexpr (std::is_void_v<V>) {
      switch (how) {
        case 0: f.get(); break;
        case 1: f.maybe_get(); break;
        default: {
          auto [r] = select(f.async_get());
          *r;
        }
      }
      return "v";
    } else {
      switch (how) {
        case 0: {
          auto v = f.get();
          return show(v);
        }
        case 1: {
          auto v = f.maybe_get();
          return show(v);
        }
        default: {
          auto [r] = select(f.async_get());
          auto v = std::move(*r);
          return show(v);
        }
      }
    }
  });
}

/// Drops a promise because an exception passes by.
template <typename P>
void drop_unwinding(std::optional<P>& p) {
  struct Guard {
    std::optional<P>& p;
    ~Guard() { p.reset(); }
  };
  try {
    Guard g{p};
    throw 1;
  } catch (int) {
  }
}
/// One thread: promises and futures set, moved, dropped and read in any order.
template <typename V>
void history(pbt::Case& c) {
  context::top();
  int fds = open_fds();
  live = 0;
  struct State {
    std::optional<Out> out;
    bool read = false;
  };
  struct P {
    std::optional<promise<V>> p;
    int state = -1;       // -1: set or moved from
    bool future = false;  // its future was not taken yet
    int of = -1;          // state of that future
  };
  struct F {
    std::optional<future<V>> f;
    int state = -1;  // -1: empty
  };
  unsigned interesting = 0;
  sched::run(c, sched::Policy(), [&] {
    std::vector<State> st;
    std::deque<P> ps;
    std::deque<F> fs;
    auto broken = [&](int s) {
      if (s >= 0 && !st[s].out) st[s].out = Out{INVALID_STATE, "*"};
    };
    auto n = 2 + c.src.length(25);
    for (std::size_t i = 0; i < n; i++) {
      std::optional<context> ctx;
      if (c.src.chance(1, 8)) {
        ctx.emplace();
        ctx->cancel();
        c.note("(cancelled) ");
      }
      auto op = ps.empty() ? 0 : c.src.weighted({3, 4, 4, 2, 2, 2, 2, 3, 3, 6, 3});
      auto pi = ps.empty() ? 0 : c.src.below(ps.size());
      auto fi = fs.empty() ? 0 : c.src.below(fs.size());
      if (op >= 7 && fs.empty()) op = 1;
      switch (op) {
        case 0: {
          c.note("new promise ", ps.size(), "; ");
          ps.emplace_back();
          ps.back().p.emplace();
          ps.back().state = ps.back().of = st.size();
          ps.back().future = true;
          st.emplace_back();
          break;
        }
        case 1: {
          auto& p = ps[pi];
          c.note("future ", fs.size(), " of promise ", pi, "; ");
          fs.emplace_back();
          fs.back().f.emplace(p.p->get_future());
          fs.back().state = p.future ? p.of : -1;
          p.future = false;
          break;
        }
        case 2: case 3: case 4: {
          auto& p = ps[pi];
          std::string text;
          c.note(op == 2 ? "value" : op == 3 ? "exception" : "result", " to promise ", pi, p.state < 0 ? " (again)" : "", "; ");
          Out want{0, ""};
          try {
            if (op == 2 || (op == 4 && std::is_void_v<V>)) {
              set_value(*p.p, i + 1, text);
              want.text = text;
            } else if (op == 3) {
              int e = 1 + c.src.below(6);
              want = {e, e == INT ? std::to_string(i) : "e" + std::to_string(i)};
              std::exception_ptr x;
              try {
                raise(want.err, want.text);
              } catch (...) {
                x = std::current_exception();
              }
              p.p->set_exception(x);
            } else if constexpr (!std::is_void_v<V>) {
              result_holder<V> r;
              if (c.src.coin()) {
                auto v = fresh<V>(i + 1);
                want.text = show(v);
                r.set_value(std::move(v));
              } else {
                want = {IO, "r"};
                r.set_exception(std::make_exception_ptr(errors::io_error("r")));
              }
              p.p->set(std::move(r));
            }
            SCHED_CHECK(c, p.state >= 0, "set-twice", "setting a promise again succeeds");
            st[p.state].out = want;
            p.state = -1;
          } catch (const errors::invalid_state&) {
            SCHED_CHECK(c, p.state < 0, "set-refused", "setting a promise for the first time fails");
            interesting++;
          }
          break;
        }
        case 5: {
          auto& p = ps[pi];
          c.note("move promise ", pi, " to new ", ps.size(), "; ");
          P q;
          q.p.emplace(std::move(*p.p));
          q.state = p.state;
          q.future = p.future;
          q.of = p.of;
          p.state = -1;
          p.future = false;
          ps.push_back(std::move(q));
          interesting++;
          break;
        }
        case 6: {
          auto to = c.src.below(ps.size());
          if (to == pi) break;
          c.note("assign promise ", pi, " to ", to, "; ");
          broken(ps[to].state);
          *ps[to].p = std::move(*ps[pi].p);
          ps[to].state = ps[pi].state;
          ps[to].future = ps[pi].future;
          ps[to].of = ps[pi].of;
          ps[pi].state = -1;
          ps[pi].future = false;
          interesting++;
          break;
        }
        case 7: {
          bool unwinding = c.src.chance(1, 3);
          c.note("drop promise ", pi, unwinding ? " by an exception; " : "; ");
          broken(ps[pi].state);
          if (unwinding) drop_unwinding(ps[pi].p);
          ps.erase(ps.begin() + pi);
          interesting++;
          break;
        }
        case 8: {
          auto k = c.src.below(3);
          if (k == 0) {
            c.note("drop future ", fi, "; ");
            fs.erase(fs.begin() + fi);
          } else if (k == 1) {
            c.note("move future ", fi, " to new ", fs.size(), "; ");
            F g;
            g.f.emplace(std::move(*fs[fi].f));
            g.state = fs[fi].state;
            fs[fi].state = -1;
            fs.push_back(std::move(g));
          } else {
            auto to = c.src.below(fs.size());
            if (to == fi) break;
            c.note("assign future ", fi, " to ", to, "; ");
            *fs[to].f = std::move(*fs[fi].f);
            fs[to].state = fs[fi].state;
            fs[fi].state = -1;
          }
          interesting++;
          break;
        }
        case 9: {
          auto& f = fs[fi];
          int how = c.src.below(3);
          // Do not wait for what does not come, nor for what was read.
          if (f.state >= 0 && st[f.state].read) break;
          if (f.state >= 0 && !st[f.state].out) how = 1;
          if (ctx && how != 1) break;
          c.note("get future ", fi, how == 1 ? " (maybe)" : "", "; ");
          auto o = get(*f.f, how);
          Out want = f.state < 0 ? Out{INVALID_STATE, "*"} : !st[f.state].out ? Out{-1, ""} : *st[f.state].out;
          SCHED_CHECK(c, o.err == want.err && (o.text == want.text || want.text == "*"), "get", "getting gives " << o << ", want " << want << " (-1: try_again)");
          if (f.state >= 0 && st[f.state].out) st[f.state].read = true;
          break;
        }
        default: {
          auto& f = fs[fi];
          if (ctx) break;
          if (f.state >= 0 && st[f.state].read) break;
          c.note("ready ", fi, "; ");
          try {
            auto [r, t] = select(f.f->can_get(), always());
            SCHED_CHECK(c, f.state >= 0, "empty", "an empty future can be waited for");
            SCHED_CHECK(c, !!r == !!st[f.state].out, "ready", "the future is " << (r ? "" : "not ") << "ready, want the opposite");
          } catch (const errors::invalid_state&) {
            SCHED_CHECK(c, f.state < 0, "not-empty", "a future is empty without reason");
          }
        }
      }
    }
    // Drop everything in any order, reading what is left.
    while (!ps.empty()) {
      auto k = c.src.below(ps.size());
      broken(ps[k].state);
      ps.erase(ps.begin() + k);
    }
    for (auto& f : fs)
      if (f.state >= 0 && !st[f.state].read) {
        auto o = get(*f.f, c.src.below(3));
        auto want = *st[f.state].out;
        SCHED_CHECK(c, o.err == want.err && (o.text == want.text || want.text == "*"), "get", "at the end, getting gives " << o << ", want " << want);
        st[f.state].read = true;
      }
    fs.clear();
  });
  PBT_CHECK(c, live == 0, "leak", live << " values are left");
  PBT_CHECK(c, open_fds() == fds, "leak-state", (open_fds() - fds) << " descriptors of shared states are left");
  c.nontrivial(interesting > 2);
}

/// Producers and consumers in several threads.
template <typename V>
void threads(pbt::Case& c) {
  context::top();
  int fds = open_fds();
  live = 0;
  auto p = sched::any(c);
  auto n = 1 + c.src.below(5), np = 1 + c.src.below(3), nc = 1 + c.src.below(3);
  struct Job {
    int how_set, how_get, producer, consumer, delay_set, delay_get;
  };
  std::vector<Job> jobs;
  for (unsigned i = 0; i < n; i++) {
    jobs.push_back({(int)c.src.weighted({4, 2, 2, 2, 1}), (int)c.src.weighted({3, 2, 2, 2, 2, 1}), (int)c.src.below(np), (int)c.src.below(nc), (int)c.src.weighted({3, 1, 1}), (int)c.src.weighted({3, 1, 1})});
    static const char* hs[] = {"value", "exception", "result", "drop", "overwrite"};
    static const char* hg[] = {"get", "select", "timed", "drop", "poll", "get-later"};
    c.note(i, ": ", hs[jobs[i].how_set], " by ", jobs[i].producer, ", ", hg[jobs[i].how_get], " by ", jobs[i].consumer, "; ");
  }
  unsigned got = 0;
  auto res = sched::run(c, p, [&] {
    std::vector<std::optional<promise<V>>> ps(n);
    std::vector<std::optional<future<V>>> fs(n);
    std::vector<Out> want(n);
    std::vector<bool> was_set(n);
    for (unsigned i = 0; i < n; i++) {
      ps[i].emplace();
      fs[i].emplace(ps[i]->get_future());
      if constexpr (std::is_void_v<V>)
        want[i] = {0, "v"};
      else {
        auto v = fresh<V>(i + 1);
        want[i] = {0, show(v)};
      }
      auto h = jobs[i].how_set;
      if (h == 1 || (h == 2 && i % 2 && !std::is_void_v<V>)) want[i] = {IO, "e" + std::to_string(i)};
      if (h >= 3) want[i] = {INVALID_STATE, "*"};
    }
    std::vector<std::thread> th;
    for (unsigned t = 0; t < np; t++)
      th.push_back(spawn([&, t] {
        for (unsigned i = 0; i < n; i++) {
          auto& j = jobs[i];
          if (j.producer != (int)t) continue;
          if (j.delay_set) sched::sleep_ms(j.delay_set * 3);
          std::string text;
          was_set[i] = true;
          switch (j.how_set) {
            case 0: set_value(*ps[i], i + 1, text); break;
            case 1: ps[i]->set_exception(std::make_exception_ptr(errors::io_error("e" + std::to_string(i)))); break;
            case 2:
              if constexpr (std::is_void_v<V>) {
                ps[i]->set_value();
              } else {
                result_holder<V> r;
                if (want[i].err)
                  r.set_exception(std::make_exception_ptr(errors::io_error(want[i].text)));
                else
                  r.set_value(fresh<V>(i + 1));
                ps[i]->set(std::move(r));
              }
              break;
            case 3: break;
            default: *ps[i] = promise<V>();
          }
          if (i % 2)
            ps[i].reset();
          else
            drop_unwinding(ps[i]);
        }
      }));
    for (unsigned t = 0; t < nc; t++)
      th.push_back(spawn([&, t] {
        for (unsigned i = 0; i < n; i++) {
          auto& j = jobs[i];
          if (j.consumer != (int)t) continue;
          if (j.delay_get) sched::sleep_ms(j.delay_get * 3);
          Out o{-1, ""};
          switch (j.how_get) {
            case 0: o = get(*fs[i], 0); break;
            case 1: o = get(*fs[i], 2); break;
            case 2: {
              // Time out as often as it takes.
              while (o.err == -1)
                o = outcome([&]() -> std::string {
                  if constexpr (std::is_void_v<V>) {
                    auto [r, to] = select(fs[i]->async_get(), timeout(milliseconds(2)));
                    if (!r) throw errors::try_again("");
                    *r;
                    return "v";
                  } else {
                    auto [r, to] = select(fs[i]->async_get(), timeout(milliseconds(2)));
                    if (!r) throw errors::try_again("");
                    auto v = std::move(*r);
                    return show(v);
                  }
                });
              break;
            }
            case 3: break;
            case 4: {
              for (int k = 0; o.err == -1; k++) {
                o = get(*fs[i], 1);
                if (o.err == -1) sched::sleep_ms(1);
              }
              break;
            }
            default: {
              future<V> moved(std::move(*fs[i]));
              sched::point();
              o = get(moved, 0);
            }
          }
          fs[i].reset();
          if (j.how_get == 3) continue;
          got++;
          SCHED_CHECK(c, was_set[i], "too-early", "future " << i << " is ready before its promise is set");
          SCHED_CHECK(c, o.err == want[i].err && (o.text == want[i].text || want[i].text == "*"), "get", "future " << i << " gives " << o << ", want " << want[i]);
        }
      }));
    for (auto& t : th) t.join();
  });
  PBT_CHECK(c, live == 0, "leak", live << " values are left");
  PBT_CHECK(c, open_fds() == fds, "leak-state", (open_fds() - fds) << " descriptors of shared states are left");
  c.nontrivial(got > 0 && res.switches > np + nc);
}
}  // namespace

PBT_ARM(histories, 16000, 160000, false, 10) {
  switch (c.src.below(4)) {
    case 0: history<int>(c); break;
    case 1: history<std::string>(c); break;
    case 2: history<Item>(c); break;
    default: history<void>(c);
  }
}
PBT_ARM(schedules, 24000, 240000, false, 10) {
  switch (c.src.below(4)) {
    case 0: threads<int>(c); break;
    case 1: threads<std::string>(c); break;
    case 2: threads<Item>(c); break;
    default: threads<void>(c);
  }
}
