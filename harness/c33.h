#pragma once
#include <functional>
#include <set>
#include <tuple>
#include <utility>
#include "rpc.h"
using namespace arpc;

// The interfaces: a diamond, one beside it, one that looks like another, and one written by hand with const methods.
ARPC_INTERFACE(Alpha, (),
               (((std::int64_t), add, (((std::uint32_t), token), ((std::int64_t), a), ((std::int32_t), b))),
                ((void), poke, (((std::uint32_t), token))),
                ((std::string), cat, (((std::uint32_t), token), ((const std::string&), s), ((std::vector<std::string>), v))),
                ((int), fail, (((std::uint32_t), token), ((int), kind), ((const std::string&), message))),
                ((void), fail_void, (((std::uint32_t), token), ((int), kind), ((std::string), message)))));
using Flip = std::map<std::string, std::vector<std::int16_t>>;
ARPC_INTERFACE(Beta, ((Alpha)),
               (((Flip), flip, (((std::uint32_t), token), ((const Flip&), m))),
                ((std::vector<bool>), bits, (((std::uint32_t), token), ((const std::vector<bool>&), v))),
                ((std::pair<double, std::string>), mix, (((std::uint32_t), token), ((std::optional<double>), o), ((std::unique_ptr<std::string>), p), ((std::shared_ptr<int>), q), ((std::array<std::uint8_t, 3>), r)))));
ARPC_INTERFACE(Gamma, ((Alpha)),
               (((std::string), who, (((std::uint32_t), token))),
                ((std::unique_ptr<std::string>), maybe, (((std::uint32_t), token), ((bool), b), ((const std::string&), s)))));
ARPC_INTERFACE(Delta, ((Beta), (Gamma)), (((std::tuple<std::uint8_t, std::string, std::int64_t>), all, (((std::uint32_t), token), ((std::uint8_t), a), ((std::string), b), ((std::int64_t), c), ((float), d), ((std::set<int>), e)))));
ARPC_INTERFACE(Other, (), (((std::string), who, (((std::uint32_t), token))), ((std::int32_t), only, (((std::uint32_t), token), ((std::int32_t), x)))));
// As Alpha, but for types and names.
namespace like {
ARPC_INTERFACE(Alpha, (), (((std::int64_t), add, (((std::uint32_t), token), ((std::int64_t), a), ((std::int64_t), b))), ((std::int64_t), sub, (((std::uint32_t), token), ((std::int64_t), a), ((std::int32_t), b))), ((int), poke, (((std::uint32_t), token)))));
}
struct Manual : interface<Manual> {
  virtual std::int32_t peek(std::uint32_t token, std::int32_t x) const = 0;
  virtual void none() const = 0;
  using method_descriptors = mpt::pack<method_descriptor<&Manual::peek>, method_descriptor<&Manual::none>>;
  static const std::array<const char*, 2>& method_names() {
    static const std::array<const char*, 2> names{"peek", "none"};
    return names;
  }
  template <typename O>
  struct proxy;
};
template <typename O>
struct Manual::proxy : virtual Manual {
  mutable O obj_;
  proxy(O o) : obj_(std::move(o)) {}
  std::int32_t peek(std::uint32_t token, std::int32_t x) const override { return obj_.template call<&Manual::peek>(token, x); }
  void none() const override { obj_.template call<&Manual::none>(); }
};

namespace {
/// What was run.
struct Log {
  std::map<std::uint32_t, std::vector<std::string>> ran;  // by token
  unsigned active = 0, most = 0, none = 0;
  bool points = false;
};
Log* g_log = nullptr;
thread_local bool t_local = false;  // the twins are called
struct InCall {
  bool counts = g_log && !t_local;
  InCall(std::uint32_t token, std::string what) {
    if (!counts) return;
    g_log->ran[token].push_back(std::move(what));
    g_log->most = std::max(g_log->most, ++g_log->active);
    if (g_log->points)
      for (unsigned i = token % 5; i > 0; i--) sched::point();
    if (g_log->points && token % 3 == 0) sched::sleep_ms(token % 4);
  }
  ~InCall() {
    if (counts) g_log->active--;
  }
};
constexpr int KINDS = 18;
void raise(int kind, const std::string& m) {
  const char* s = m.c_str();
  switch (kind) {
    case 0: throw errors::unknown_error(s);
    case 1: throw errors::cancelled(s);
    case 2: throw errors::data_mismatch(s);
    case 3: throw errors::deadline_exceeded(s);
    case 4: throw errors::eof(s);
    case 5: throw errors::internal_error(s);
    case 6: throw errors::invalid_argument(s);
    case 7: throw errors::invalid_state(s);
    case 8: throw errors::io_error(s);
    case 9: throw errors::not_implemented(s);
    case 10: throw errors::not_found(s);
    case 11: throw errors::out_of_range(s);
    case 12: throw errors::shutting_down(s);
    case 13: throw errors::unavailable(s);
    case 14: throw errors::try_again(s);
    case 15: throw std::runtime_error(m);
    case 16: throw 5;
    default: return;
  }
}
template <typename I>
struct AlphaImpl : I {
  std::string id;
  explicit AlphaImpl(std::string i) : id(std::move(i)) {}
  std::int64_t add(std::uint32_t token, std::int64_t a, std::int32_t b) override {
    InCall c(token, id + ".add");
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(a) + static_cast<std::uint64_t>(b) + id.size());
  }
  void poke(std::uint32_t token) override { InCall c(token, id + ".poke"); }
  std::string cat(std::uint32_t token, const std::string& s, std::vector<std::string> v) override {
    InCall c(token, id + ".cat");
    std::string r = id + s;
    for (auto& x : v) r += "," + x;
    return r;
  }
  int fail(std::uint32_t token, int kind, const std::string& message) override {
    InCall c(token, id + ".fail");
    raise(kind, message);
    return kind;
  }
  void fail_void(std::uint32_t token, int kind, std::string message) override {
    InCall c(token, id + ".fail_void");
    raise(kind, message);
  }
};
struct AlphaThing : AlphaImpl<Alpha> {
  using AlphaImpl::AlphaImpl;
};
struct DeltaThing : AlphaImpl<Delta> {
  using AlphaImpl::AlphaImpl;
  Flip flip(std::uint32_t token, const Flip& m) override {
    InCall c(token, id + ".flip");
    Flip r;
    for (auto& [k, v] : m) r[std::string(k.rbegin(), k.rend()) + id] = std::vector<std::int16_t>(v.rbegin(), v.rend());
    return r;
  }
  std::vector<bool> bits(std::uint32_t token, const std::vector<bool>& v) override {
    InCall c(token, id + ".bits");
    auto r = v;
    r.flip();
    return r;
  }
  std::pair<double, std::string> mix(std::uint32_t token, std::optional<double> o, std::unique_ptr<std::string> p, std::shared_ptr<int> q, std::array<std::uint8_t, 3> r) override {
    InCall c(token, id + ".mix");
    return {o ? *o : -1, (p ? *p : "none") + (q ? std::to_string(*q) : "none") + std::to_string(r[0] + 1000 * r[1] + 1000000 * r[2])};
  }
  std::string who(std::uint32_t token) override {
    InCall c(token, id + ".who");
    return id;
  }
  std::unique_ptr<std::string> maybe(std::uint32_t token, bool b, const std::string& s) override {
    InCall c(token, id + ".maybe");
    return b ? std::make_unique<std::string>(s + id) : nullptr;
  }
  std::tuple<std::uint8_t, std::string, std::int64_t> all(std::uint32_t token, std::uint8_t a, std::string b, std::int64_t c, float d, std::set<int> e) override {
    InCall x(token, id + ".all");
    for (int i : e) b += std::to_string(i) + ";";
    return {a, b + std::to_string(d) + id, -c};
  }
};
/// Two interfaces that are not related.
struct OtherThing : Other {
  std::string id;
  explicit OtherThing(std::string i) : id(std::move(i)) {}
  std::string who(std::uint32_t token) override {
    InCall c(token, id + ".who");
    return "other " + id;
  }
  std::int32_t only(std::uint32_t token, std::int32_t x) override {
    InCall c(token, id + ".only");
    return x ^ 0x55;
  }
};
struct ManualThing : Manual {
  std::string id;
  explicit ManualThing(std::string i) : id(std::move(i)) {}
  std::int32_t peek(std::uint32_t token, std::int32_t x) const override {
    InCall c(token, id + ".peek");
    return x ^ 0x1234;
  }
  void none() const override {
    if (g_log && !t_local) g_log->none++;
  }
};

enum class Type { ALPHA, DELTA, OTHER, MANUAL };
/// The objects of a case, each with a twin that is called locally.
struct Object {
  Type type;
  std::string id;
  std::unique_ptr<server_object<AlphaThing>> alpha;
  std::unique_ptr<server_object<DeltaThing>> delta;
  std::unique_ptr<server_object<OtherThing>> other;
  std::unique_ptr<server_object<ManualThing>> manual;
  std::unique_ptr<AlphaThing> alpha_twin;
  std::unique_ptr<DeltaThing> delta_twin;
  std::unique_ptr<OtherThing> other_twin;
  std::unique_ptr<ManualThing> manual_twin;
  Object(Type t, std::string i) : type(t), id(std::move(i)) {
    switch (t) {
      case Type::ALPHA:
        alpha = std::make_unique<server_object<AlphaThing>>(id);
        alpha_twin = std::make_unique<AlphaThing>(id);
        break;
      case Type::DELTA:
        delta = std::make_unique<server_object<DeltaThing>>(id);
        delta_twin = std::make_unique<DeltaThing>(id);
        break;
      case Type::OTHER:
        other = std::make_unique<server_object<OtherThing>>(id);
        other_twin = std::make_unique<OtherThing>(id);
        break;
      case Type::MANUAL:
        manual = std::make_unique<server_object<ManualThing>>(id);
        manual_twin = std::make_unique<ManualThing>(id);
    }
  }
  template <typename S, typename N>
  void add(S& s, const N& name) {
    if (alpha) s.register_object(name, *alpha);
    if (delta) s.register_object(name, *delta);
    if (other) s.register_object(name, *other);
    if (manual) s.register_object(name, *manual);
  }
  template <typename S>
  void remove(S& s) {
    if (alpha) s.unregister_object(*alpha);
    if (delta) s.unregister_object(*delta);
    if (other) s.unregister_object(*other);
    if (manual) s.unregister_object(*manual);
  }
};
template <typename I>
I* twin(Object& o) {
  if constexpr (std::is_same_v<I, Alpha>)
    return o.alpha_twin ? static_cast<I*>(o.alpha_twin.get()) : o.delta_twin.get();
  else if constexpr (std::is_base_of_v<I, DeltaThing>)
    return o.delta_twin.get();
  else if constexpr (std::is_same_v<I, Other>)
    return o.other_twin.get();
  else if constexpr (std::is_same_v<I, Manual>)
    return o.manual_twin.get();
  else
    return nullptr;
}
struct Outcome {
  std::string value;    // as text
  std::string failure;  // or how it fails
  bool operator==(const Outcome& o) const { return value == o.value && failure == o.failure; }
};
std::ostream& operator<<(std::ostream& os, const Outcome& o) { return os << (o.failure.empty() ? "gives \"" + o.value + "\"" : "fails with \"" + o.failure + "\""); }
template <typename T>
std::string text(const T& t) {
  std::string r;
  string_output_stream s(r);
  little_endian_binary_encoder e(s);
  e(t);
  return r;
}
/// One call with its arguments: can be made on the local object, on a proxy, and on an asynchronous proxy.
struct Call {
  std::string method;
  bool none = false;  // no object has it
  std::function<Outcome(Object&)> local;
  std::function<Outcome()> remote;
  std::function<std::function<Outcome()>()> start;  // asynchronous
};
template <typename F>
Outcome outcome(F f) {
  Outcome o;
  o.failure = rpc::attempt([&] {
    if constexpr (std::is_void_v<decltype(f())>)
      f();
    else
      o.value = text(f());
  });
  if (!o.failure.empty()) o.value.clear();
  return o;
}
/// What a remote caller sees of what a local one would.
bool agrees(const Outcome& local, const Outcome& remote) {
  if (local.failure == "not_found") return remote.failure.rfind("not_found: ", 0) == 0;
  if (local.failure.rfind("foreign", 0) == 0) return remote.failure.rfind("unknown_error: ", 0) == 0 && remote.value.empty();
  return local == remote;
}

template <typename C>
struct Caller {
  pbt::Case& c;
  typename C::client& client;
  client_options options;

  template <typename I, typename N, typename F>
  Call make(Type, const char* method, const N& name, F f) {
    Call r;
    r.method = method;
    r.none = std::is_same_v<I, like::Alpha>;
    r.local = [f](Object& o) {
      auto* p = twin<I>(o);
      if (!p) return Outcome{"", "not_found"};
      t_local = true;
      auto r = outcome([&] { return f(*p); });
      t_local = false;
      return r;
    };
    r.remote = [this, f, name] {
      auto proxy = client.template get_proxy<I>(name, options);
      return outcome([&] { return f(proxy); });
    };
    if constexpr (!std::is_same_v<I, Manual>) {
      r.start = [this, f, name]() -> std::function<Outcome()> {
        auto proxy = client.template get_proxy<typename I::async>(name, options);
        using P = decltype(f(proxy));
        auto p = std::make_shared<std::optional<P>>();
        Outcome early;
        early.failure = rpc::attempt([&] { p->emplace(f(proxy)); });
        if (!*p) return [early] { return early; };
        return [p] { return outcome([&] { return (*p)->first.get(); }); };
      };
    }
    return r;
  }
  std::string word(std::size_t max = 12) { return c.src.bytes_upto(max); }
  /// Any method of an object.
  template <typename N>
  Call any(const N& name, std::uint32_t t, Type type) {
    auto& s = c.src;
    switch (type) {
      case Type::ALPHA:
      case Type::DELTA: {
        bool delta = type == Type::DELTA;
        bool base = s.coin();  // through the base interface
        switch (s.below(delta ? 12 : 5)) {
          case 0: {
            auto a = static_cast<std::int64_t>(s.draw(~0ull));
            auto b = static_cast<std::int32_t>(s.draw(~0ull));
            auto f = [=](auto& o) { return o.add(t, a, b); };
            return delta && !base ? make<Delta>(type, "add", name, f) : make<Alpha>(type, "add", name, f);
          }
          case 1: {
            auto f = [=](auto& o) { return o.poke(t); };
            return delta && !base ? make<Beta>(type, "poke", name, f) : make<Alpha>(type, "poke", name, f);
          }
          case 2: {
            auto w = s.chance(1, 8) ? std::string(s.below(20000), 'q') : word(40);
            std::vector<std::string> v;
            for (auto n = s.length(3); n > 0; n--) v.push_back(word());
            auto f = [=](auto& o) { return o.cat(t, w, v); };
            return delta && !base ? make<Gamma>(type, "cat", name, f) : make<Alpha>(type, "cat", name, f);
          }
          case 3: {
            int k = s.below(KINDS);
            auto m = "why " + std::to_string(s.below(100));
            auto f = [=](auto& o) { return o.fail(t, k, m); };
            return delta && !base ? make<Delta>(type, "fail", name, f) : make<Alpha>(type, "fail", name, f);
          }
          case 4: {
            int k = s.below(KINDS);
            std::string m = s.coin() ? "" : "because";
            auto f = [=](auto& o) { return o.fail_void(t, k, m); };
            return delta && !base ? make<Delta>(type, "fail_void", name, f) : make<Alpha>(type, "fail_void", name, f);
          }
          case 5: {
            Flip m;
            for (auto n = s.length(4); n > 0; n--) {
              auto& v = m[word()];
              for (auto k = s.length(5); k > 0; k--) v.push_back(static_cast<std::int16_t>(s.draw(~0ull)));
            }
            auto f = [=](auto& o) { return o.flip(t, m); };
            return base ? make<Beta>(type, "flip", name, f) : make<Delta>(type, "flip", name, f);
          }
          case 6: {
            std::vector<bool> v;
            for (auto n = s.length(20); n > 0; n--) v.push_back(s.coin());
            return make<Beta>(type, "bits", name, [=](auto& o) { return o.bits(t, v); });
          }
          case 7: {
            std::optional<double> d;
            if (s.coin()) d = s.below(1000) / 8.0;
            std::optional<std::string> p;
            if (s.coin()) p = word();
            int q = static_cast<int>(s.draw(~0ull));
            bool has = s.coin();
            std::array<std::uint8_t, 3> r{static_cast<std::uint8_t>(s.draw(~0ull)), static_cast<std::uint8_t>(s.draw(~0ull)), static_cast<std::uint8_t>(s.draw(~0ull))};
            auto f = [=](auto& o) { return o.mix(t, d, p ? std::make_unique<std::string>(*p) : nullptr, has ? std::make_shared<int>(q) : nullptr, r); };
            return base ? make<Beta>(type, "mix", name, f) : make<Delta>(type, "mix", name, f);
          }
          case 8: return make<Gamma>(type, "who", name, [=](auto& o) { return o.who(t); });
          case 9: {
            bool b = s.coin();
            auto w = word();
            auto f = [=](auto& o) { return o.maybe(t, b, w); };
            return base ? make<Gamma>(type, "maybe", name, f) : make<Delta>(type, "maybe", name, f);
          }
          default: {
            auto a = static_cast<std::uint8_t>(s.draw(~0ull));
            auto b = word();
            auto k = static_cast<std::int64_t>(s.draw(~0ull) >> 2);
            float d = s.below(10000) / 16.0f;
            std::set<int> e;
            for (auto n = s.length(6); n > 0; n--) e.insert(static_cast<int>(s.draw(~0ull)));
            return make<Delta>(type, "all", name, [=](auto& o) { return o.all(t, a, b, k, d, e); });
          }
        }
      }
      case Type::OTHER: {
        if (s.coin()) return make<Other>(type, "who", name, [=](auto& o) { return o.who(t); });
        auto x = static_cast<std::int32_t>(s.draw(~0ull));
        return make<Other>(type, "only", name, [=](auto& o) { return o.only(t, x); });
      }
      default: {
        auto x = static_cast<std::int32_t>(s.draw(~0ull));
        return make<Manual>(type, "peek", name, [=](auto& o) { return o.peek(t, x); });
      }
    }
  }
  /// A call that no object of this type has a method for.
  template <typename N>
  Call wrong(const N& name, std::uint32_t t, Type type) {
    switch (type) {
      case Type::ALPHA:
      case Type::DELTA: {
        switch (c.src.below(type == Type::ALPHA ? 5 : 4)) {
          case 0: return make<like::Alpha>(type, "like add", name, [=](auto& o) { return o.add(t, 1, 2); });
          case 1: return make<like::Alpha>(type, "like sub", name, [=](auto& o) { return o.sub(t, 1, 2); });
          case 2: return make<like::Alpha>(type, "like poke", name, [=](auto& o) { return o.poke(t); });
          case 3: return make<Other>(type, "only", name, [=](auto& o) { return o.only(t, 3); });
          default: return make<Gamma>(type, "who", name, [=](auto& o) { return o.who(t); });
        }
      }
      case Type::OTHER: return make<Alpha>(type, "poke", name, [=](auto& o) { return o.poke(t); });
      default: return make<Other>(type, "only", name, [=](auto& o) { return o.only(t, 3); });
    }
  }
};

}  // namespace

namespace {
template <typename C>
void calls(pbt::Case& c) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  if (!p.tick_ns) p.tick_ns = 1000;
  p.jump_den = 0;  // nothing times out
  if (p.mem_den) p.mem_den = std::max(40u, p.mem_den);
  p.spurious_poll = 0;  // a worker that waits for data that is not there is taken
  p.max_steps = 3000000;
  unsigned made = 0;
  std::size_t most = 0;
  auto res = sched::run(c, p, [&] {
    rpc::Exchange x;
    Log log;
    g_log = &log;
    log.points = c.src.coin();
    if (c.src.chance(1, 4)) x.small = 4608;
    std::vector<std::unique_ptr<Object>> objects;
    auto n = 1 + c.src.below(3);
    for (unsigned i = 0; i < n; i++) objects.push_back(std::make_unique<Object>(static_cast<Type>(c.src.weighted({3, 4, 1, 1})), "o" + std::to_string(i)));
    server_options so;
    so.num_worker_threads = 1 + c.src.below(4);
    if (c.src.chance(1, 3)) so.request_timeout = std::nullopt;
    auto nc = 1 + c.src.below(3);
    c.note(n, " objects, ", so.num_worker_threads, " workers, ", nc, " clients; ");
    std::vector<std::unique_ptr<typename C::client>> clients;
    auto serving = std::make_unique<typename C::server>(so, &x);
    for (unsigned i = 0; i < n; i++) {
      if (i == n / 2 && c.src.coin()) serving->start();
      objects[i]->add(*serving, objects[i]->id);
    }
    serving->start();
    for (unsigned i = 0; i < nc; i++) clients.push_back(std::make_unique<typename C::client>(&x));
    std::vector<std::thread> th;
    std::uint32_t token = 0;
    struct Done {
      std::uint32_t token;
      std::string id, method;
      bool runs;
    };
    std::deque<Done> done;
    for (unsigned i = 0; i < nc; i++) {
      auto nt = 1 + c.src.below(3);
      for (unsigned k = 0; k < nt; k++) {
        th.push_back(spawn([&, i] {
          Caller<C> caller{c, *clients[i], {}};
          if (c.src.chance(1, 3)) caller.options.request_timeout = std::nullopt;
          // Makes a call and says what it has to give.
          auto next = [&](Outcome& want, Done& d) {
            auto t = ++token;
            auto& o = *objects[c.src.below(objects.size())];
            bool nobody = c.src.chance(1, 12), no_method = !nobody && c.src.chance(1, 10);
            auto name = nobody ? o.id + "x" : o.id;
            auto call = no_method ? caller.wrong(name, t, o.type) : caller.any(name, t, o.type);
            want = nobody ? Outcome{"", "not_found"} : call.local(o);
            d = {t, o.id, call.method, want.failure != "not_found"};
            made++;
            return call;
          };
          auto check = [&](const Outcome& want, const Outcome& got, const Done& d) {
            SCHED_CHECK(c, agrees(want, got), "result", "calling " << d.method << " of " << d.id << " " << got << ", but a local call " << want);
            auto times = log.ran.count(d.token) ? log.ran[d.token].size() : 0;
            SCHED_CHECK(c, times == (d.runs ? 1u : 0u), "times", d.method << " of " << d.id << " ran " << times << " times");
            if (d.runs) SCHED_CHECK(c, log.ran[d.token][0] == d.id + "." + d.method, "method", d.method << " of " << d.id << " was called, but " << log.ran[d.token][0] << " ran");
            done.push_back(d);
          };
          for (unsigned m = 1 + c.src.below(3); m > 0; m--) {
            if (c.src.chance(1, 3)) {
              // Several at once.
              struct Open {
                Outcome want;
                Done d;
                std::function<Outcome()> get;
              };
              std::deque<Open> open;
              for (unsigned q = 1 + c.src.below(4); q > 0; q--) {
                Open o;
                auto call = next(o.want, o.d);
                o.get = call.start ? call.start() : call.remote;
                open.push_back(std::move(o));
              }
              most = std::max(most, open.size());
              while (!open.empty()) {
                auto q = c.src.below(open.size());
                std::swap(open[q], open.back());
                auto o = std::move(open.back());
                open.pop_back();
                check(o.want, o.get(), o.d);
              }
            } else {
              Outcome want;
              Done d;
              auto call = next(want, d);
              auto got = call.remote();
              check(want, got, d);
            }
          }
        }));
      }
    }
    for (auto& t : th) t.join();
    sched::settle();
    for (auto& d : done) SCHED_CHECK(c, (log.ran.count(d.token) ? log.ran[d.token].size() : 0) == (d.runs ? 1u : 0u), "times", d.method << " of " << d.id << " ran another number of times in the end");
    SCHED_CHECK(c, log.ran.size() <= token && log.active == 0, "times", "calls ran that nobody made");
    // Everything ends in any order.
    if (c.src.coin()) serving->stop();
    if (c.src.coin()) clients.clear();
    if (c.src.coin()) serving.reset();
    clients.clear();
    serving.reset();
    g_log = nullptr;
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", open_fds() - base << " descriptors are left open");
  c.nontrivial(made > 1 && res.switches > 20);
  (void)most;
}
}  // namespace
