#include <memory>
#include <new>
#include "arpc/binary_codecs.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "arpc/select.h"
#include "lin.h"
using namespace arpc;
using std::chrono::milliseconds;

namespace {
struct A : dynamic<A> {
  int x = 3;
  std::string s = "default";
  ARPC_FIELDS(x, s);
};
struct B : dynamic<B> {
  std::vector<std::string> v;
  bool flag = true;
  ARPC_FIELDS(v, flag);
};
/// Derives from another class that can be set.
struct Cx : serializable<Cx, A> {
  double d = 0.5;
  ARPC_FIELDS(d);
};
struct D : dynamic<D> {};
/// Move-only, with shared parts.
struct E : dynamic<E> {
  std::shared_ptr<A> p, q;
  std::unique_ptr<std::string> u;
  ARPC_FIELDS(p, q, u);
};
struct Plain {
  int pad[3] = {1, 2, 3};
};
/// The dynamic base is not the first.
struct F : Plain, dynamic<F> {
  std::int64_t n = -7;
  ARPC_FIELDS(n);
};
std::string text(const A& a) { return "A" + std::to_string(a.x) + a.s; }
std::string text(const B& b) {
  std::string r = "B" + std::to_string(b.flag);
  for (auto& s : b.v) r += "," + s;
  return r;
}
std::string text(const Cx& x) { return "C" + std::to_string(x.d) + text(static_cast<const A&>(x)); }
std::string text(const D&) { return "D"; }
std::string text(const E& e) { return std::string("E") + (e.p ? text(*e.p) : "null") + (e.p == e.q ? "=" : e.q ? text(*e.q) : "null") + (e.u ? *e.u : "none"); }
std::string text(const F& f) { return "F" + std::to_string(f.n) + std::to_string(f.pad[2]); }
template <typename T>
constexpr int id_of();
template <> constexpr int id_of<A>() { return 0; }
template <> constexpr int id_of<B>() { return 1; }
template <> constexpr int id_of<Cx>() { return 2; }
template <> constexpr int id_of<D>() { return 3; }
template <> constexpr int id_of<E>() { return 4; }
template <> constexpr int id_of<F>() { return 5; }
void gen(pbt::Case& c, A& a) {
  a.x = c.src.integer<int>();
  a.s = c.src.bytes_upto(40);
}
void gen(pbt::Case& c, B& b) {
  b.v.resize(c.src.below(4));
  for (auto& s : b.v) s = c.src.bytes_upto(300);
  b.flag = c.src.coin();
}
void gen(pbt::Case& c, Cx& x) {
  gen(c, static_cast<A&>(x));
  x.d = c.src.range<int>(-100, 100) / 4.0;
}
void gen(pbt::Case&, D&) {}
void gen(pbt::Case& c, E& e) {
  if (c.src.coin()) {
    e.p = std::make_shared<A>();
    gen(c, *e.p);
  }
  if (c.src.coin())
    e.q = e.p;
  else if (c.src.coin())
    e.q = std::make_shared<A>();
  if (c.src.coin()) e.u = std::make_unique<std::string>(c.src.bytes_upto(20));
}
void gen(pbt::Case& c, F& f) { f.n = c.src.integer<std::int64_t>(); }
template <typename T>
T make(pbt::Case& c) {
  T t;
  gen(c, t);
  return t;
}

using Data = std::map<int, std::string>;
template <typename T>
void check_one(pbt::Case& c, const context& ctx, const Data& m, const char* where) {
  auto it = m.find(id_of<T>());
  auto want = it == m.end() ? text(T()) : it->second;
  auto& got = ctx.get<T>();
  SCHED_CHECK(c, text(got) == want, "data", where << ": class " << id_of<T>() << " is " << pbt::hex(text(got)) << ", want " << pbt::hex(want) << (it == m.end() ? " (default)" : ""));
}
void check_data(pbt::Case& c, const context& ctx, const Data& m, const char* where) {
  check_one<A>(c, ctx, m, where);
  check_one<B>(c, ctx, m, where);
  check_one<Cx>(c, ctx, m, where);
  check_one<D>(c, ctx, m, where);
  check_one<E>(c, ctx, m, where);
  check_one<F>(c, ctx, m, where);
}
template <typename T>
void set_one(pbt::Case& c, context& ctx, Data& m) {
  auto v = make<T>(c);
  m[id_of<T>()] = text(v);
  if constexpr (std::is_copy_constructible_v<T>) {
    switch (c.src.below(3)) {
      case 0: ctx.set(v); return;
      case 1: {
        const T& r = v;
        ctx.set(r);
        return;
      }
    }
  }
  ctx.set(std::move(v));
}
template <typename T, typename U>
void set_two(pbt::Case& c, context& ctx, Data& m) {
  auto v = make<T>(c);
  auto u = make<U>(c);
  m[id_of<T>()] = text(v);
  m[id_of<U>()] = text(u);
  ctx.set(std::move(v), std::move(u));
}
void set_some(pbt::Case& c, context& ctx, Data& m) {
  auto k = c.src.below(10);
  c.note("set/", k);
  switch (k) {
    case 0: set_one<A>(c, ctx, m); break;
    case 1: set_one<B>(c, ctx, m); break;
    case 2: set_one<Cx>(c, ctx, m); break;
    case 3: set_one<D>(c, ctx, m); break;
    case 4: set_one<E>(c, ctx, m); break;
    case 5: set_one<F>(c, ctx, m); break;
    case 6: set_two<A, Cx>(c, ctx, m); break;
    case 7: set_two<F, F>(c, ctx, m); break;
    case 8: set_two<E, B>(c, ctx, m); break;
    default: set_two<Cx, D>(c, ctx, m); break;
  }
}
void reset_some(pbt::Case& c, context& ctx, Data& m) {
  auto k = c.src.below(8);
  c.note("reset/", k);
  switch (k) {
    case 0: ctx.reset<A>(); m.erase(0); break;
    case 1: ctx.reset<B>(); m.erase(1); break;
    case 2: ctx.reset<Cx>(); m.erase(2); break;
    case 3: ctx.reset<D, E>(); m.erase(3); m.erase(4); break;
    case 4: ctx.reset<E>(); m.erase(4); break;
    case 5: ctx.reset<F, A>(); m.erase(5); m.erase(0); break;
    case 6: ctx.reset<>(); break;
    default: ctx.reset_all(); m.clear();
  }
}
template <typename F>
bool refused(F f, std::string* how = nullptr) {
  try {
    f();
    return false;
  } catch (const errors::base_error& e) {
    if (how) *how = e.what();
  } catch (const std::bad_alloc&) {
    if (how) *how = "bad_alloc";
  } catch (const std::length_error&) {
    if (how) *how = "length_error";
  }
  return true;
}
std::string encode(const context& x, bool little) {
  std::string s;
  string_output_stream o(s);
  if (little) {
    little_endian_binary_encoder e(o);
    e(x);
  } else {
    big_endian_binary_encoder e(o);
    e(x);
  }
  return s;
}
std::size_t decode(const std::string& s, context& x, bool little) {
  string_input_stream i(s);
  if (little) {
    little_endian_binary_decoder d(i);
    d(x);
  } else {
    big_endian_binary_decoder d(i);
    d(x);
  }
  return i.pos();
}
}  // namespace
ARPC_REGISTER(A);
ARPC_REGISTER(B);
ARPC_REGISTER_WITH_NAME("some.long.name/with::separators", Cx);
ARPC_REGISTER(D);
ARPC_REGISTER(E);
ARPC_REGISTER(F);

/// Trees of contexts, and what each sees.
PBT_ARM(inherit, 24000, 240000, false, 10) {
  context::top();
  unsigned changes = 0, depth = 0;
  sched::run(c, sched::Policy(), [&] {
    struct Live {
      std::unique_ptr<context> ctx;
      Data m;
      int parent;
    };
    std::vector<Live> l;
    auto n = 2 + c.src.length(25);
    for (std::size_t i = 0; i < n; i++) {
      auto op = l.empty() ? 0 : c.src.weighted({3, 6, 3, 1});
      auto k = l.empty() ? 0 : c.src.below(l.size());
      switch (op) {
        case 0: {
          bool sh = c.src.chance(1, 5), has_parent = !l.empty() && c.src.chance(5, 6);
          c.note("new ", l.size(), " of ", has_parent ? (int)k : -1, "; ");
          Live x;
          x.ctx = std::make_unique<context>(has_parent ? *l[k].ctx : context::top(), false, sh);
          if (has_parent) x.m = l[k].m;
          x.parent = has_parent ? k : -1;
          if (has_parent && !x.m.empty()) depth++;
          l.push_back(std::move(x));
          break;
        }
        case 1:
          set_some(c, *l[k].ctx, l[k].m);
          c.note(" in ", k, "; ");
          changes++;
          break;
        case 2:
          reset_some(c, *l[k].ctx, l[k].m);
          c.note(" in ", k, "; ");
          changes++;
          break;
        default: {
          // Leave the last one.
          bool leaf = true;
          (void)leaf;
          c.note("leave ", l.size() - 1, "; ");
          l.pop_back();
        }
      }
      for (std::size_t j = 0; j < l.size(); j++) check_data(c, *l[j].ctx, l[j].m, PBT_STR_("context " << j).c_str());
      check_data(c, context::top(), {}, "top");
    }
    while (!l.empty()) l.pop_back();
  });
  c.nontrivial(changes > 2 && depth > 0);
}

/// A context goes elsewhere, with another calendar and into a context that has something already.
PBT_ARM(roundtrip, 24000, 240000, false, 10) {
  context::top();
  bool nt = false;
  sched::run(c, sched::Policy(), [&] {
    context from(context::top(), false);
    Data m;
    auto n = c.src.below(5);
    for (unsigned i = 0; i < n; i++) set_some(c, from, m);
    if (c.src.chance(1, 5)) reset_some(c, from, m);
    std::optional<std::int64_t> dl;
    if (c.src.coin()) {
      auto ms = c.src.pick(std::vector<std::int64_t>{-100, 0, 1, 50, 1000, 86400000ll * 400, 1ll << 40});
      dl = sched::now_ms() + ms;
      from.set_timeout(milliseconds(ms));
    }
    bool cancelled = c.src.chance(1, 4), little = c.src.coin();
    if (cancelled) from.cancel();
    c.note(dl ? PBT_STR_("deadline " << *dl) : "", cancelled ? " cancelled " : " ", little ? "little" : "big");
    if (c.src.coin()) {
      auto ms = c.src.pick(std::vector<int>{1, 30, 70});
      c.note(" after ", ms);
      sched::sleep_ms(ms);
    }
    auto left = dl ? std::optional<std::int64_t>(*dl - sched::now_ms()) : std::nullopt;
    auto bytes = encode(from, little);
    SCHED_CHECK(c, bytes == encode(from, little), "stable", "two encodings of a context differ");
    check_data(c, from, m, "the sender");
    // Elsewhere.
    sched::shift_clock(c.src.pick(std::vector<std::int64_t>{0, 3600, -3600, 86400 * 365, -86400 * 10000ll}) * 1000000000ll);
    int travel = c.src.pick(std::vector<int>{0, 5, 2000});
    sched::sleep_ms(travel);
    context to(context::top(), false);
    Data old;
    if (c.src.chance(1, 3)) set_some(c, to, old);
    std::optional<std::int64_t> own;
    if (c.src.chance(1, 3)) {
      own = c.src.pick(std::vector<int>{1, 60, 100000});
      c.note(" own timeout ", *own);
      to.set_timeout(milliseconds(*own));
    }
    std::string tail = c.src.bytes_upto(5);
    auto used = decode(bytes + tail, to, little);
    SCHED_CHECK(c, used == bytes.size(), "length", "decoding uses " << used << " of " << bytes.size() << " bytes");
    check_data(c, to, m, "the receiver");
    SCHED_CHECK(c, to.is_cancelled() == cancelled, "cancelled", "the receiver is " << (cancelled ? "not " : "") << "cancelled");
    std::optional<std::int64_t> want;
    if (left) want = *left;
    if (own && (!want || *own < *want)) want = own;
    auto got = to.deadline_left();
    SCHED_CHECK(c, got.has_value() == want.has_value() && (!got || got->count() == *want), "deadline", "the receiver has " << (got ? std::to_string(got->count()) : "no") << " ms left, want " << (want ? std::to_string(*want) : "none"));
    nt = m.size() > 0 && (cancelled || dl);
    // And on from there.
    if (c.src.chance(1, 3)) {
      context third(context::top(), false);
      decode(encode(to, !little), third, !little);
      check_data(c, third, m, "the third");
      SCHED_CHECK(c, third.is_cancelled() == cancelled && third.deadline_left() == got, "third", "the state of the third differs");
    }
  });
  c.nontrivial(nt);
}

/// Streams made by hand: duplicates, empty and foreign pointers, any time left.
PBT_ARM(crafted, 16000, 160000, false, 10) {
  context::top();
  bool nt = false;
  sched::run(c, sched::Policy(), [&] {
    std::string s;
    string_output_stream o(s);
    little_endian_binary_encoder e(o);
    std::optional<milliseconds> left;
    if (c.src.coin()) left = milliseconds(c.src.coin() ? c.src.integer<std::int64_t>() : c.src.range<std::int64_t>(-1000, 1000));
    std::vector<std::shared_ptr<dynamic_base_class>> v;
    Data m;
    bool bad = false;
    auto n = c.src.below(6);
    c.note("left ", left ? std::to_string(left->count()) : "-", ": ");
    auto put = [&](auto t) {
      using X = decltype(t);
      auto p = std::make_shared<X>();
      gen(c, *p);
      m[id_of<X>()] = text(*p);
      v.push_back(p);
    };
    for (unsigned i = 0; i < n; i++) {
      auto k = c.src.weighted({2, 2, 2, 2, 2, 2, 1, 2});
      c.note(k, " ");
      switch (k) {
        case 0: put(A()); break;
        case 1: put(B()); break;
        case 2: put(Cx()); break;
        case 3: put(D()); break;
        case 4: put(E()); break;
        case 5: put(F()); break;
        case 6:
          v.push_back(nullptr);
          bad = true;
          break;
        default:
          // The same again.
          if (!v.empty() && !v.back()) break;
          if (!v.empty()) {
            v.push_back(v[0]);
            if (auto* a = v[0].get()) {
              auto name = a->portable_class_name();
              if (name == portable_class_name<A>()) m[0] = text(static_cast<A&>(*a));
              if (name == portable_class_name<B>()) m[1] = text(static_cast<B&>(*a));
              if (name == portable_class_name<Cx>()) m[2] = text(static_cast<Cx&>(*a));
              if (name == portable_class_name<E>()) m[4] = text(static_cast<E&>(*a));
              if (name == portable_class_name<F>()) m[5] = text(static_cast<F&>(*a));
            } else {
              v.pop_back();
            }
          }
      }
    }
    bool cancelled = c.src.coin();
    e(left);
    e(v);
    e(cancelled);
    context to(context::top(), false);
    std::string how;
    bool r = refused([&] { decode(s, to, true); }, &how);
    // An entry without value is not data: to refuse it or to leave it out are both fine.
    SCHED_CHECK(c, !r || bad, "refused", "a good context is refused: " << how);
    if (!r) {
      check_data(c, to, m, "the receiver");
      SCHED_CHECK(c, to.is_cancelled() == cancelled, "cancelled", "the cancellation is lost");
      auto got = to.deadline_left();
      SCHED_CHECK(c, got.has_value() == left.has_value(), "deadline", "the deadline is lost");
      if (got) {
        bool far = left->count() > 1ll << 42, past = left->count() < -(1ll << 40);
        SCHED_CHECK(c, far ? got->count() > 1ll << 40 : past ? got->count() < 0 : *got == *left, "deadline", "there are " << got->count() << " ms left, want " << left->count());
        // It can be waited for.
        if (!cancelled && got->count() > 1000) {
          auto [w, t] = select(to.wait_deadline(), timeout(milliseconds(1000)));
          SCHED_CHECK(c, !w && t, "deadline", "the deadline fires too early");
        }
      }
    }
    nt = v.size() > 1;
  });
  c.nontrivial(nt);
}

/// Damaged encodings and arbitrary bytes.
PBT_ARM(damaged, 24000, 240000, false, 10) {
  context::top();
  std::string how;
  bool r = true;
  sched::run(c, sched::Policy(), [&] {
    std::string s;
    {
      context from(context::top(), false);
      Data m;
      auto n = c.src.below(4);
      for (unsigned i = 0; i < n; i++) set_some(c, from, m);
      if (c.src.coin()) from.set_timeout(milliseconds(c.src.range(0, 1000)));
      s = encode(from, true);
    }
    if (c.src.chance(1, 8)) s = c.src.bytes_upto(300);
    auto n = 1 + c.src.below(3);
    for (unsigned i = 0; i < n; i++) {
      if (s.empty()) break;
      auto k = c.src.below(s.size());
      switch (c.src.below(6)) {
        case 0: s[k] ^= 1 << c.src.below(8); break;
        case 1: s[k] = c.src.byte(); break;
        case 2: s.resize(k); break;
        case 3: s.erase(k, 1 + c.src.below(4)); break;
        case 4: s.insert(k, c.src.bytes(1 + c.src.below(4))); break;
        default: s.insert(k, s.substr(c.src.below(s.size()), c.src.below(30)));
      }
    }
    c.note(pbt::hex(s));
    context to(context::top(), false);
    Data old;
    if (c.src.coin()) set_some(c, to, old);
    r = refused([&] { decode(s, to, true); }, &how);
    // Whatever came of it, it is a context still.
    Data m;
    to.reset_all();
    check_data(c, to, m, "the receiver");
    set_some(c, to, m);
    check_data(c, to, m, "the receiver");
    to.cancel();
    SCHED_CHECK(c, to.is_cancelled(), "usable", "the context cannot be cancelled any more");
    SCHED_CHECK(c, !encode(to, false).empty(), "usable", "the context does not encode any more");
  });
  c.label(r ? "refused" : "accepted");
  c.nontrivial(r);
}
