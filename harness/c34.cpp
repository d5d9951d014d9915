// What a server does with anything a client may send.
#include <functional>
#include <set>
#include "rpc.h"
using namespace arpc;

ARPC_INTERFACE(Target, (),
               (((std::int64_t), add, (((std::uint32_t), token), ((std::int64_t), a))),
                ((std::string), cat, (((std::uint32_t), token), ((const std::string&), s), ((std::vector<std::string>), v))),
                ((void), nop, (((std::uint32_t), token))),
                ((int), slow, (((std::uint32_t), token), ((std::uint32_t), ms))),
                ((int), fail, (((std::uint32_t), token))),
                ((std::string), mixed, (((std::uint32_t), token), ((const std::map<std::int16_t, std::vector<std::string>>&), m), ((std::unique_ptr<std::string>), p), ((std::optional<double>), o), ((std::vector<bool>), b)))));

namespace {
struct Log {
  std::map<std::uint32_t, unsigned> ran;
  unsigned active = 0;
};
Log* g_log = nullptr;
struct InCall {
  explicit InCall(std::uint32_t t) {
    g_log->ran[t]++;
    g_log->active++;
  }
  ~InCall() { g_log->active--; }
};
struct TargetThing : Target {
  std::int64_t add(std::uint32_t t, std::int64_t a) override {
    InCall c(t);
    return a ^ 0x5555;
  }
  std::string cat(std::uint32_t t, const std::string& s, std::vector<std::string> v) override {
    InCall c(t);
    auto r = s;
    for (auto& x : v) r += "," + x;
    return r;
  }
  void nop(std::uint32_t t) override { InCall c(t); }
  int slow(std::uint32_t t, std::uint32_t ms) override {
    InCall c(t);
    sched::sleep_ms(ms % 8);
    return ms;
  }
  int fail(std::uint32_t t) override {
    InCall c(t);
    throw errors::out_of_range("far");
  }
  std::string mixed(std::uint32_t t, const std::map<std::int16_t, std::vector<std::string>>& m, std::unique_ptr<std::string> p, std::optional<double> o, std::vector<bool> b) override {
    InCall c(t);
    std::string r = p ? *p : "-";
    for (auto& [k, v] : m) r += std::to_string(k) + std::to_string(v.size());
    return r + (o ? "o" : "") + std::to_string(b.size());
  }
};

template <typename C>
std::string encode(const std::function<void(typename C::encoder&)>& f) {
  std::string r;
  string_output_stream s(r);
  typename C::encoder e(s);
  f(e);
  return r;
}
template <typename C>
std::string framed(const std::string& m) {
  std::string r;
  string_output_stream s(r);
  typename C::protocol p;
  p.send(s, m);
  return r;
}

/// A request by hand.
struct Request {
  std::string head, name, method, hash, ctx, args;
  std::string body() const { return name + method + hash + ctx + args; }
  std::string want;  // the encoded result, or empty if it fails
  std::string why;
  std::uint32_t token = 0;
};
template <typename C, auto m, typename... A>
Request request(std::uint32_t id, const std::string& object, std::uint32_t token, bool with_context, A... a) {
  using info = method_descriptor<m>;
  Request r;
  r.token = token;
  r.head = encode<C>([&](auto& e) {
    e(rpc_defs::message_type::REQUEST);
    e(id);
  });
  r.name = encode<C>([&](auto& e) { e(object_name<typename C::name_encoder>(object)); });
  r.method = encode<C>([&](auto& e) { e(info::name()); });
  r.hash = encode<C>([&](auto& e) { e(traits::type_hash_v<typename info::method_type>); });
  r.ctx = encode<C>([&](auto& e) {
    context ctx;
    if (with_context) ctx.set_timeout(std::chrono::hours(3));
    e(context::current());
  });
  typename traits::member_function_pointer_traits<m>::args_ref_tuple_type refs(token, std::forward<A>(a)...);
  r.args = encode<C>([&](auto& e) { e(refs); });
  auto twin = std::make_unique<TargetThing>();
  sched::Hold hold;
  Log quiet, *old = std::exchange(g_log, &quiet);
  using R = typename info::return_type;
  try {
    if constexpr (std::is_void_v<R>) {
      (twin.get()->*m)(token, std::forward<A>(a)...);
      r.want = "void";
    } else {
      R v = (twin.get()->*m)(token, std::forward<A>(a)...);
      r.want = encode<C>([&](auto& e) { e(v); });
      if (r.want.empty()) r.want = "empty";
    }
  } catch (...) {
    r.why = rpc::failure(std::current_exception());
  }
  g_log = old;
  return r;
}

template <typename C>
struct Attack {
  pbt::Case& c;
  rpc::Exchange& x;
  Log& log;
  std::uint32_t& token;
  unsigned answered = 0, bytes = 0, dropped = 0;

  std::string junk(std::size_t max) { return c.src.bytes_upto(max); }
  Request any_request(std::uint32_t id, bool small) {
    auto& s = c.src;
    auto t = ++token * 2654435761u;  // no spoilt one is equal to another
    bool ctx = s.chance(1, 4);
    auto words = [&] {
      std::vector<std::string> v;
      for (auto n = s.length(3); n > 0; n--) v.push_back(junk(8));
      return v;
    };
    switch (s.below(6)) {
      case 0: return request<C, &Target::add>(id, "target", t, ctx, static_cast<std::int64_t>(s.draw(~0ull)));
      case 1: return request<C, &Target::cat>(id, "target", t, ctx, small || s.chance(3, 4) ? junk(20) : std::string(s.below(9000), 'w'), words());
      case 2: return request<C, &Target::nop>(id, "target", t, ctx);
      case 3: return request<C, &Target::fail>(id, "target", t, ctx);
      case 4: {
        std::uint32_t ms = s.below(8);
        Request r = request<C, &Target::nop>(id, "target", t, ctx);
        // Not run here, as it waits.
        using info = method_descriptor<&Target::slow>;
        r.method = encode<C>([&](auto& e) { e(info::name()); });
        r.hash = encode<C>([&](auto& e) { e(traits::type_hash_v<typename info::method_type>); });
        r.args = encode<C>([&](auto& e) { e(t), e(ms); });
        r.want = encode<C>([&](auto& e) { e(static_cast<int>(ms)); });
        return r;
      }
      default: {
        std::map<std::int16_t, std::vector<std::string>> m;
        for (auto n = s.length(4); n > 0; n--) m[static_cast<std::int16_t>(s.draw(~0ull))] = words();
        std::optional<double> o;
        if (s.coin()) o = 1.5;
        std::vector<bool> b(s.below(20));
        auto p = s.coin() ? std::make_unique<std::string>(junk(6)) : nullptr;
        auto q = p ? std::make_unique<std::string>(*p) : nullptr;
        Request r = request<C, &Target::nop>(id, "target", t, ctx);
        using info = method_descriptor<&Target::mixed>;
        r.method = encode<C>([&](auto& e) { e(info::name()); });
        r.hash = encode<C>([&](auto& e) { e(traits::type_hash_v<typename info::method_type>); });
        r.args = encode<C>([&](auto& e) { e(t), e(m), e(q), e(o), e(b); });
        sched::Hold hold;
        Log quiet, *old = std::exchange(g_log, &quiet);
        auto want = TargetThing().mixed(t, m, std::move(p), o, b);
        g_log = old;
        r.want = encode<C>([&](auto& e) { e(want); });
        return r;
      }
    }
  }
  enum Kind { GOOD, BAD, ANY, FATAL, SILENT };
  struct Message {
    Kind kind;
    std::uint32_t id = 0;
    std::string data;
    std::string want, why;
    std::uint32_t token = 0;
    const char* what = "";
  };
  void spoil(std::string& b) {
    auto& s = c.src;
    for (auto n = 1 + s.length(4); n > 0; n--) {
      if (b.empty()) {
        b = junk(4);
        continue;
      }
      auto k = s.below(b.size());
      switch (s.below(7)) {
        case 0: b[k] ^= 1u << s.below(8); break;
        case 1: b[k] = static_cast<char>(s.pick(std::vector<int>{0, 1, 2, 0x7f, 0x80, 0xfe, 0xff})); break;
        case 2: b.insert(k, junk(5)); break;
        case 3: b.erase(k, 1 + s.below(6)); break;
        case 4: b += junk(6); break;
        case 5: b.insert(k, b.substr(s.below(b.size()), s.below(12))); break;
        default: b.replace(k, std::min<std::size_t>(8, b.size() - k), std::string(std::min<std::size_t>(8, b.size() - k), static_cast<char>(s.coin() ? 0xff : 0x80))); break;
      }
    }
  }
  Message any_message(std::uint32_t id, bool fatal, bool small) {
    auto& s = c.src;
    Message m;
    m.id = id;
    if (fatal) {
      m.kind = FATAL;
      switch (s.below(4)) {
        case 0: {
          m.data = any_request(id, true).head;
          m.data.resize(s.below(m.data.size()));
          m.what = "a short header";
          break;
        }
        case 1: {
          auto t = 3 + s.below(253);
          m.data = any_request(id, true).head;
          m.data[0] = static_cast<char>(t);
          m.what = "an unknown type of message";
          break;
        }
        case 2:
          m.data = encode<C>([&](auto& e) {
            e(rpc_defs::message_type::RESPONSE);
            e(id);
          }) + junk(10);
          m.what = "a response";
          break;
        default:
          m.data = "";
          m.what = "an empty message";
      }
      return m;
    }
    switch (s.weighted({5, 3, 3, 2, 1, 1})) {
      case 0: {
        auto r = any_request(id, small);
        m = {GOOD, id, r.head + r.body(), r.want, r.why, r.token, "a good request"};
        break;
      }
      case 1: {
        // A prefix.
        auto r = any_request(id, true);
        auto b = r.body();
        b.resize(s.coin() ? s.below(b.size()) : b.size() - 1 - s.below(std::min<std::size_t>(r.args.size(), b.size())));
        m = {BAD, id, r.head + b, "", "", 0, "the beginning of a request"};
        break;
      }
      case 2: {
        auto r = any_request(id, true);
        m = {BAD, id, "", "", "", 0, "a request for something else"};
        switch (s.below(4)) {
          case 0: r.name = encode<C>([&](auto& e) { e("x" + junk(30)); }); break;
          case 1: r.method = encode<C>([&](auto& e) { e("x" + junk(30)); }); break;
          case 2: r.hash[s.below(r.hash.size())] ^= 1u << s.below(8); break;
          default: {
            // Another method's.
            auto q = any_request(id, true);
            if (q.method == r.method) q.method = encode<C>([&](auto& e) { e("Add"); });
            r.method = q.method;
            // Two methods have equal signatures if any: not here.
          }
        }
        m.data = r.head + r.body();
        break;
      }
      case 3: {
        auto r = any_request(id, true);
        std::string* parts[] = {&r.name, &r.method, &r.hash, &r.ctx, &r.args};
        for (auto n = 1 + s.below(2); n > 0; n--) {
          auto& part = *parts[s.weighted({1, 1, 1, 3, 4})];
          if (&part == &r.ctx && s.coin()) {
            // Any time, and data of any kind.
            r.ctx = encode<C>([&](auto& e) {
              std::optional<std::chrono::milliseconds> left;
              if (s.coin()) left = std::chrono::milliseconds(s.coin() ? static_cast<std::int64_t>(s.draw(~0ull)) : s.pick(std::vector<std::int64_t>{0, -1, 1, std::numeric_limits<std::int64_t>::max(), std::numeric_limits<std::int64_t>::min()}));
              e(left);
              std::vector<std::shared_ptr<dynamic_base_class>> none(s.below(3));
              e(none);
              e(s.coin());
            });
          } else if (s.chance(1, 8))
            part = junk(40);
          else
            spoil(part);
        }
        m = {ANY, id, r.head + r.body(), "", "", 0, "a spoilt request"};
        break;
      }
      case 4: {
        auto r = any_request(id, true);
        m = {ANY, id, r.head + junk(200), "", "", 0, "a senseless request"};
        break;
      }
      default:
        m.kind = SILENT;
        m.data = encode<C>([&](auto& e) {
          e(rpc_defs::message_type::CANCEL_REQUEST);
          e(s.coin() ? id - static_cast<std::uint32_t>(s.below(3)) : static_cast<std::uint32_t>(s.draw(~0ull)));
        });
        if (s.chance(1, 4)) m.data += junk(5);
        m.what = "a cancellation";
    }
    return m;
  }
  /// Sends in pieces. False if the other end is gone.
  bool put(channel_connection& conn, const std::string& b) {
    bytes += b.size();
    std::size_t pos = 0;
    int style = c.src.below(3);
    try {
      while (pos < b.size()) {
        std::size_t n = style == 0 ? b.size() : style == 1 ? 1 + c.src.below(12) : 1 + c.src.below(b.size() - pos);
        n = std::min(n, b.size() - pos);
        if (style == 1) n = std::min(b.size() - pos, n + b.size() / 40);  // so that all the pieces fit in the buffer
        conn.write(b.data() + pos, n);
        conn.flush();
        pos += n;
        if (style) {
          if (c.src.chance(1, 8))
            sched::sleep_ns(c.src.below(3000) * 1000);
          else
            sched::point();
        }
      }
      return true;
    } catch (const errors::io_error&) {
      return false;
    }
  }
  /// Reads until the other end is gone.
  void until_end(channel_connection& conn, std::map<std::uint32_t, std::deque<std::string>>& replies) {
    try {
      for (;;) one_reply(conn, replies);
    } catch (const errors::io_error&) {
    } catch (const errors::eof&) {
    }
  }
  void one_reply(channel_connection& conn, std::map<std::uint32_t, std::deque<std::string>>& replies) {
    typename C::protocol p;
    auto r = p.receive(conn);
    string_input_stream is(r);
    typename C::decoder d(is);
    rpc_defs::message_type t;
    rpc_defs::request_id_type id;
    std::string failure = rpc::attempt([&] {
      d(t);
      d(id);
    });
    SCHED_CHECK(c, failure.empty() && t == rpc_defs::message_type::RESPONSE, "reply", "the server sent something that is no response: " << failure);
    replies[id].push_back(r.substr(is.pos()));
    answered++;
  }
  void check_reply(const Message& m, const std::string& r) {
    if (m.kind == GOOD && m.why.empty()) {
      if (m.want == "void") {
        result_holder<void> h;
        string_input_stream is(r);
        typename C::decoder d(is);
        auto f = rpc::attempt([&] {
          d(h);
          h.value();
        });
        SCHED_CHECK(c, f.empty(), "reply", "the reply to " << m.what << " is " << f);
        return;
      }
      // A value is there, and no exception.
      auto full = encode<C>([&](auto& e) { e(true); }) + m.want + encode<C>([&](auto& e) { e(false); });
      SCHED_CHECK(c, r == full, "reply", "the reply to " << m.what << " is not what the method returned");
      return;
    }
    if (m.kind == ANY) return;
    result_holder<std::int64_t> h;
    string_input_stream is(r);
    typename C::decoder d(is);
    auto f = rpc::attempt([&] { d(h); });
    SCHED_CHECK(c, f.empty(), "reply", "the reply to " << m.what << " is no result: " << f);
    f = rpc::attempt([&] { h.value(); });
    SCHED_CHECK(c, !f.empty(), "reply", "the reply to " << m.what << " is no error");
    if (m.kind == GOOD) SCHED_CHECK(c, f == m.why, "reply", "the reply to " << m.what << " is " << f << " instead of " << m.why);
  }
  /// Well formed frames.
  void frames(channel_connection& conn, bool may_wait, bool small) {
    auto& s = c.src;
    std::deque<Message> sent;
    auto first = static_cast<std::uint32_t>(s.coin() ? s.below(10) : s.draw(~0ull));
    auto n = 1 + s.below(6);
    bool fatal = s.chance(1, 3);
    std::map<std::uint32_t, unsigned> ids;
    std::string batch;
    bool together = s.coin(), gone = false;
    for (unsigned i = 0; i < n && !gone; i++) {
      auto m = any_message(first + i, fatal && i + 1 == n, small);
      if (i && m.kind != SILENT && m.kind != FATAL && s.chance(1, 12)) {
        // The id of another request that may be running.
        m = sent[s.below(i)];
        if (m.kind == FATAL) continue;
      }
      ids[m.id] += m.kind != SILENT;
      sent.push_back(m);
      c.note(m.what, m.kind == ANY ? "?" : m.kind == GOOD ? "+" : "", " id ", m.id, "; ");
      auto f = framed<C>(m.data);
      if (together)
        batch += f;
      else
        gone = !put(conn, f);
    }
    if (together) gone = !put(conn, batch);
    SCHED_CHECK(c, !gone || fatal || stopping, "dropped", "the server dropped a connection that only sent well formed messages");
    std::map<std::uint32_t, std::deque<std::string>> replies;
    if (!may_wait) return;
    if (fatal) {
      until_end(conn, replies);
      dropped++;
    } else {
      std::size_t expected = 0;
      bool unique = true;
      for (auto& [id, k] : ids) {
        expected += k > 0;
        unique = unique && k <= 1;
      }
      auto end = s.below(4);
      c.note("end ", end, " ");
      if (end == 0) return;
      if (end == 1) {
        // No more to come.
        ::shutdown(x_fd, SHUT_WR);
        until_end(conn, replies);
        dropped++;
      } else {
        if (end == 2) put(conn, partial());
        auto got = [&] {
          std::size_t k = 0;
          for (auto& [id, k2] : ids) k += k2 > 0 && replies.count(id);
          return k;
        };
        try {
          while (got() < expected) one_reply(conn, replies);
        } catch (const errors::base_error& e) {
          SCHED_CHECK(c, false, "dropped", "the server dropped a connection (" << e.what() << ") that only sent well formed messages, after " << got() << " of " << expected << " replies");
        }
      }
    }
    for (auto& [id, r] : replies) {
      SCHED_CHECK(c, ids.count(id) && ids[id] >= r.size(), "reply", r.size() << " replies came for id " << id << " with " << (ids.count(id) ? ids[id] : 0u) << " requests");
      if (ids[id] != 1) continue;
      for (auto& m : sent)
        if (m.id == id && m.kind != SILENT && m.kind != FATAL) {
          check_reply(m, r.front());
          if (m.kind == GOOD) SCHED_CHECK(c, log.ran[m.token] == 1, "times", "a request ran " << log.ran[m.token] << " times");
        }
    }
  }
  std::string partial() {
    auto f = framed<C>(any_request(77, true).head + "x");
    f.resize(1 + c.src.below(f.size() - 1));
    return f;
  }
  /// Nobody may read any more what we send.
  void wide() {
    int n = 200000;
    setsockopt(x_fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
  }
  int x_fd = -1;
  bool stopping = false;
  void run(bool may_wait, bool small) {
    auto& s = c.src;
    if (x.refuse) return;
    auto ch = x.connect();
    x_fd = ch.get();
    channel_connection conn(std::move(ch));
    switch (s.weighted({5, 2, 3, 1})) {
      case 0: frames(conn, may_wait, small); break;
      case 1: c.note("junk; "); wide(); put(conn, junk(s.coin() ? 40 : 600)); break;
      case 2: {
        // Frames, spoilt.
        c.note("spoilt frames; ");
        wide();
        std::string b;
        for (auto n = 1 + s.below(4); n > 0; n--) b += framed<C>(any_message(n, false, true).data);
        spoil(b);
        put(conn, b);
        break;
      }
      default: {
        // Connects, and says nothing or little.
        if (s.coin()) put(conn, partial());
        if (may_wait) sched::sleep_ms(s.below(5));
      }
    }
    if (may_wait && s.chance(1, 4)) sched::sleep_ms(s.below(10));
    if (s.chance(1, 4)) conn.disconnect();
  }
};

template <typename C>
void attacks(pbt::Case& c) {
  context::top();
  auto base = open_fds();
  auto p = sched::any(c);
  if (!p.tick_ns) p.tick_ns = 1000;
  p.jump_den = 0;
  if (p.mem_den) p.mem_den = std::max(40u, p.mem_den);
  p.spurious_poll = 0;
  p.max_steps = 3000000;
  unsigned answered = 0, bytes = 0, dropped = 0, served = 0;
  auto res = sched::run(c, p, [&] {
    rpc::Exchange x;
    Log log;
    g_log = &log;
    std::uint32_t token = 0;
    server_object<TargetThing> target;
    auto na = 1 + c.src.below(4);
    bool roomy = c.src.coin();
    bool early = c.src.chance(1, 8);
    bool small = !roomy;  // requests whose replies fit in any buffer
    server_options so;
    // Every attacker can keep two workers waiting.
    so.num_worker_threads = roomy ? 2 * na + 1 + c.src.below(2) : 1 + c.src.below(3);
    so.queue_size = c.src.chance(1, 3) ? c.src.below(4) : -1;
    if (roomy && !early && c.src.chance(1, 3)) x.small = 4608;
    c.note(na, " attackers, ", so.num_worker_threads, " workers", roomy ? ", roomy" : "", ", queue ", so.queue_size, "; ");
    auto serving = std::make_unique<typename C::server>(so, &x);
    serving->register_object(std::string("target"), target);
    serving->start();
    auto client = std::make_unique<typename C::client>(&x);
    auto proxy = client->template get_proxy<Target>(std::string("target"));
    auto call = [&] {
      auto a = static_cast<std::int64_t>(c.src.below(1000));
      std::int64_t got = -1;
      auto t = ++token * 2654435761u;  // no spoilt one is equal to another
      auto f = rpc::attempt([&] { got = proxy.add(t, a); });
      SCHED_CHECK(c, f.empty(), "service", "a correct call fails with " << f);
      SCHED_CHECK(c, got == (a ^ 0x5555) && log.ran[t] == 1, "service", "a correct call of " << a << " gives " << got << " after running " << log.ran[t] << " times");
      served++;
    };
    call();
    sched::settle();
    auto fds = open_fds();
    std::deque<std::unique_ptr<Attack<C>>> attackers;
    std::vector<std::thread> th;
    for (unsigned i = 0; i < na; i++) {
      attackers.push_back(std::make_unique<Attack<C>>(Attack<C>{c, x, log, token}));
      attackers.back()->stopping = early;
      th.push_back(spawn([&, i] {
        for (auto k = 1 + c.src.below(2); k > 0; k--) attackers[i]->run(roomy && !early, small);
      }));
    }
    if (early) {
      for (auto k = c.src.below(200); k > 0; k--) sched::point();
      serving->stop();
      x.refuse = true;
      while (!x.waiting.empty()) x.waiting.maybe_get();
    } else if (roomy) {
      for (auto k = 1 + c.src.below(6); k > 0; k--) call();
    }
    for (auto& t : th) t.join();
    if (!early) {
      for (auto k = 1 + c.src.below(2); k > 0; k--) call();
      // Until nothing is left to do: the methods take their time.
      for (int i = 0; i < 80 && (i < 2 || open_fds() != fds); i++) {
        sched::settle();
        sched::sleep_ms(10);
      }
      sched::settle();
      SCHED_CHECK(c, open_fds() == fds, "descriptors", open_fds() - fds << " descriptors are left of connections that ended, active " << log.active);
      SCHED_CHECK(c, log.active == 0, "service", "methods still run");
      call();
    }
    for (auto& a : attackers) {
      answered += a->answered;
      bytes += a->bytes;
      dropped += a->dropped;
    }
    if (c.src.coin()) client.reset();
    serving.reset();
    client.reset();
    g_log = nullptr;
  });
  PBT_CHECK(c, open_fds() == base, "descriptors", open_fds() - base << " descriptors are left open");
  c.nontrivial(bytes > 8 && served > 2 && res.switches > 20);
}
}  // namespace
PBT_ARM(attacks_little, 450, 9000, false, 30) { attacks<rpc::LE>(c); }
PBT_ARM(attacks_big, 450, 9000, false, 30) { attacks<rpc::BE>(c); }
PBT_ARM(attacks_mixed, 450, 9000, false, 30) { attacks<rpc::MIX>(c); }
