// Independent model of the serialized form: for every supported kind of type,
// how to generate, compare, print, encode and decode a value, written without
// using the library's traits. User classes are described by specializations
// that gen_types.py writes (AggM, ClassM).
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_
#include <array>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "pbt.h"

namespace model {
template <typename T>
const void* type_key() {
  static const char k = 0;
  return &k;
}

/// Generation context: a size budget and the shared objects made so far.
struct Gen {
  pbt::Case& c;
  long budget = 400;
  int depth = 0;
  bool tiny = false;
  bool cycles = false;  // objects may be chosen as their own descendants
  std::map<const void*, std::vector<std::shared_ptr<void>>> pool;
  explicit Gen(pbt::Case& cc) : c(cc) {}
  auto& src() { return c.src; }
};
/// Equality context: pairing of shared objects.
struct Eq {
  std::map<const void*, const void*> ab, ba;
};
struct Enc {
  std::string out;
  bool big = false;
  std::map<const void*, std::size_t> ids;  // 0 is null
  std::map<std::string, std::size_t> classes;
  std::function<bool(Enc&, int)> sabotage;  // see poly.h
  std::size_t size_groups = 0;
  void raw(const void* p, std::size_t n) {
    auto* b = static_cast<const char*>(p);
    for (std::size_t i = 0; i < n; i++) out.push_back(big ? b[n - 1 - i] : b[i]);  // the host is little endian
  }
  void size(std::size_t n) {
    for (;;) {
      unsigned char g = n % 128;
      n /= 128;
      out.push_back(static_cast<char>(n ? g + 128 : g));
      if (!n) return;
      size_groups++;
    }
  }
};
enum class Bad { eof, mismatch, too_big };
struct Dec {
  const unsigned char *p, *e;
  bool big = false;
  struct Obj {
    std::shared_ptr<void> ptr;
    const void* type;
  };
  std::vector<Obj> objs{Obj{nullptr, nullptr}};
  std::vector<int> classes;
  Dec(std::string_view s, bool b)
      : p(reinterpret_cast<const unsigned char*>(s.data())), e(p + s.size()), big(b) {}
  unsigned char byte() {
    if (p == e) throw Bad::eof;
    return *p++;
  }
  void raw(void* q, std::size_t n) {
    auto* b = static_cast<unsigned char*>(q);
    if (static_cast<std::size_t>(e - p) < n) throw Bad::eof;
    for (std::size_t i = 0; i < n; i++) b[big ? n - 1 - i : i] = p[i];
    p += n;
  }
  std::size_t size() {
    unsigned __int128 v = 0;
    for (unsigned shift = 0;; shift += 7) {
      auto b = byte();
      if (shift > 63 || ((static_cast<unsigned __int128>(b & 127) << shift) >> 64) != 0) throw Bad::mismatch;
      v |= static_cast<unsigned __int128>(b & 127) << shift;
      if (b < 128) return static_cast<std::size_t>(v);
    }
  }
  bool boolean() {
    auto b = byte();
    if (b > 1) throw Bad::mismatch;
    return b;
  }
  /// A count of elements, each at least one byte long.
  std::size_t count() { return size(); }
};

/// How an object behind a smart pointer is made and treated; dynamic classes
/// specialize this (poly.h).
template <typename T, typename = void>
struct M;
template <typename V, typename = void>
struct Obj {
  static const void* key() { return type_key<V>(); }
  static std::shared_ptr<V> make_shared(Gen&) { return std::make_shared<V>(); }
  static std::unique_ptr<V> make_unique(Gen&) { return std::make_unique<V>(); }
  static bool fits(const std::shared_ptr<void>&) { return true; }
  static std::shared_ptr<void> erase(const std::shared_ptr<V>& p) { return p; }
  static std::shared_ptr<V> cast(const std::shared_ptr<void>& p) { return std::static_pointer_cast<V>(p); }
  static const void* addr(const V& v) { return &v; }
  static void gen(Gen& g, V& v) { M<V>::gen(g, v); }
  static bool eq(const V& a, const V& b, Eq& q) { return M<V>::eq(a, b, q); }
  static void show(const V& v, std::string& s) { M<V>::show(v, s); }
  static void enc(const V& v, Enc& e) { M<V>::enc(v, e); }
  /// Makes the object, hands it to `own`, and decodes it.
  template <typename F>
  static void dec(Dec& d, F own) {
    auto* v = new V();
    own(v);
    M<V>::dec(*v, d);
  }
};

inline void num(std::string& s, std::uint64_t v) { s += std::to_string(v); }

// Scalars.
template <typename T>
struct M<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static void gen(Gen& g, T& v) { v = g.src().template integer<T>(); }
  static bool eq(const T& a, const T& b, Eq&) { return a == b; }
  static void show(const T& v, std::string& s) {
    if (std::is_signed_v<T>)
      s += std::to_string(static_cast<long long>(v));
    else
      num(s, static_cast<std::uint64_t>(v));
  }
  static void enc(const T& v, Enc& e) { e.raw(&v, sizeof v); }
  static void dec(T& v, Dec& d) { d.raw(&v, sizeof v); }
};
template <>
struct M<bool> {
  static void gen(Gen& g, bool& v) { v = g.src().coin(); }
  static bool eq(bool a, bool b, Eq&) { return a == b; }
  static void show(bool v, std::string& s) { s += v ? "1" : "0"; }
  static void enc(bool v, Enc& e) { e.out.push_back(v ? 1 : 0); }
  static void dec(bool& v, Dec& d) { v = d.boolean(); }
};
template <typename T>
struct M<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static void gen(Gen& g, T& v) {
    U u;
    M<U>::gen(g, u);
    v = static_cast<T>(u);
  }
  static bool eq(const T& a, const T& b, Eq&) { return a == b; }
  static void show(const T& v, std::string& s) { M<U>::show(static_cast<U>(v), s); }
  static void enc(const T& v, Enc& e) { M<U>::enc(static_cast<U>(v), e); }
  static void dec(T& v, Dec& d) {
    U u;
    M<U>::dec(u, d);
    v = static_cast<T>(u);
  }
};
template <typename T>
struct M<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
  static U bits(const T& v) {
    U u;
    std::memcpy(&u, &v, sizeof u);
    return u;
  }
  static void gen(Gen& g, T& v) {
    U u;
    switch (g.src().weighted({3, 1, 1})) {
      case 0:
        v = static_cast<T>(g.src().template range<std::int64_t>(-1000, 1000)) / 8;
        return;
      case 1: {
        T e[] = {std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
                 std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::denorm_min(),
                 std::numeric_limits<T>::max(),       T(-0.0)};
        v = e[g.src().below(6)];
        return;
      }
      default:
        u = static_cast<U>(g.src().draw(~0ull));
        std::memcpy(&v, &u, sizeof u);
    }
  }
  static bool eq(const T& a, const T& b, Eq&) { return bits(a) == bits(b); }
  static void show(const T& v, std::string& s) { s += "f" + std::to_string(bits(v)); }
  static void enc(const T& v, Enc& e) {
    auto u = bits(v);
    e.raw(&u, sizeof u);
  }
  static void dec(T& v, Dec& d) {
    U u;
    d.raw(&u, sizeof u);
    std::memcpy(&v, &u, sizeof u);
  }
};

inline void sep(std::string& s, char open) {
  if (s.back() != open) s += ',';
}
struct Nest {
  Gen& g;
  explicit Nest(Gen& gg) : g(gg) { g.depth++; }
  ~Nest() { g.depth--; }
};
/// How many elements to generate; cheap elements may be many.
inline std::size_t gen_count(Gen& g, bool cheap) {
  if (g.tiny) return g.src().below(3);
  if (g.budget <= 0) return 0;
  std::size_t n;
  if (cheap && g.depth <= 3 && g.src().chance(1, 6)) {
    n = g.src().length(20000);
    g.budget -= 40;
  } else {
    n = g.src().chance(1, 12) && g.depth <= 2 ? static_cast<std::size_t>(g.src().template range<int>(100, 300))
                                              : g.src().below(5);
    n = std::min<std::size_t>(n, static_cast<std::size_t>(g.budget));
    g.budget -= static_cast<long>(n) * (cheap ? 1 : 2);
  }
  return n;
}
template <typename T>
inline constexpr bool cheap_v = std::is_integral_v<T> || std::is_enum_v<T>;

// Sequences (string, u16string, vector, deque, list).
template <typename C, typename V>
struct SeqM {
  static void gen(Gen& g, C& v) {
    Nest nest(g);
    auto n = gen_count(g, cheap_v<V>);
    v.clear();
    if constexpr (cheap_v<V>) {
      if (n > 64) {
        std::uint64_t st = g.src().draw(~0ull);
        while (n--) {
          auto r = pbt::splitmix(st);
          if constexpr (std::is_same_v<V, bool>)
            v.push_back(r & 1);
          else
            v.push_back(static_cast<V>(r));
        }
        return;
      }
    }
    while (n--) {
      V e{};
      M<V>::gen(g, e);
      v.push_back(std::move(e));
    }
  }
  static bool eq(const C& a, const C& b, Eq& q) {
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
      if (!M<V>::eq(*i, *j, q)) return false;
    return true;
  }
  static void show(const C& v, std::string& s) {
    s += '[';
    for (auto&& e : v) {
      sep(s, '[');
      M<V>::show(e, s);
    }
    s += ']';
  }
  static void enc(const C& v, Enc& e) {
    e.size(v.size());
    for (auto&& i : v) M<V>::enc(i, e);
  }
  static void dec(C& v, Dec& d) {
    auto n = d.count();
    v.clear();
    while (n--) {
      V e{};
      M<V>::dec(e, d);
      v.push_back(std::move(e));
    }
  }
};
template <typename V>
struct M<std::vector<V>> : SeqM<std::vector<V>, V> {};
template <typename V>
struct M<std::deque<V>> : SeqM<std::deque<V>, V> {};
template <typename V>
struct M<std::list<V>> : SeqM<std::list<V>, V> {};
template <typename V>
struct M<std::basic_string<V>> : SeqM<std::basic_string<V>, V> {};

// Arrays.
template <typename C, typename V, std::size_t N>
struct ArrM {
  static void gen(Gen& g, C& v) {
    Nest nest(g);
    for (std::size_t i = 0; i < N; i++) M<V>::gen(g, v[i]);
  }
  static bool eq(const C& a, const C& b, Eq& q) {
    for (std::size_t i = 0; i < N; i++)
      if (!M<V>::eq(a[i], b[i], q)) return false;
    return true;
  }
  static void show(const C& v, std::string& s) {
    s += '{';
    for (std::size_t i = 0; i < N; i++) {
      if (i) s += ',';
      M<V>::show(v[i], s);
    }
    s += '}';
  }
  static void enc(const C& v, Enc& e) {
    for (std::size_t i = 0; i < N; i++) M<V>::enc(v[i], e);
  }
  static void dec(C& v, Dec& d) {
    for (std::size_t i = 0; i < N; i++) M<V>::dec(v[i], d);
  }
};
template <typename V, std::size_t N>
struct M<std::array<V, N>> : ArrM<std::array<V, N>, V, N> {};
template <typename V, std::size_t N>
struct M<V[N]> : ArrM<V[N], V, N> {};

// Associative containers.
template <typename C, typename K, bool ordered>
struct SetM {
  static void gen(Gen& g, C& v) {
    Nest nest(g);
    v.clear();
    auto n = std::min<std::size_t>(gen_count(g, cheap_v<K>), 300);
    while (n--) {
      K e{};
      M<K>::gen(g, e);
      v.insert(std::move(e));
    }
  }
  static std::vector<std::string> shows(const C& v) {
    std::vector<std::string> r;
    for (auto&& e : v) {
      r.emplace_back();
      M<K>::show(e, r.back());
    }
    std::sort(r.begin(), r.end());  // the order is compared by eq()
    return r;
  }
  static bool eq(const C& a, const C& b, Eq& q) {
    if (a.size() != b.size()) return false;
    if (!ordered) return shows(a) == shows(b);
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
      if (!M<K>::eq(*i, *j, q)) return false;
    return true;
  }
  static void show(const C& v, std::string& s) {
    s += '<';
    for (auto& e : shows(v)) {
      sep(s, '<');
      s += e;
    }
    s += '>';
  }
  static void enc(const C& v, Enc& e) {
    e.size(v.size());
    for (auto&& i : v) M<K>::enc(i, e);
  }
  static void dec(C& v, Dec& d) {
    auto n = d.count();
    v.clear();
    while (n--) {
      K e{};
      M<K>::dec(e, d);
      v.insert(std::move(e));
    }
  }
};
template <typename C, typename K, typename V, bool ordered>
struct MapM {
  static void gen(Gen& g, C& v) {
    Nest nest(g);
    v.clear();
    auto n = std::min<std::size_t>(gen_count(g, false), 300);
    while (n--) {
      std::pair<K, V> e{};
      M<K>::gen(g, e.first);
      M<V>::gen(g, e.second);
      v.insert(std::move(e));
    }
  }
  static std::vector<std::string> shows(const C& v) {
    std::vector<std::string> r;
    for (auto&& e : v) {
      r.emplace_back("(");
      M<K>::show(e.first, r.back());
      r.back() += ',';
      M<V>::show(e.second, r.back());
      r.back() += ')';
    }
    std::sort(r.begin(), r.end());  // the order is compared by eq()
    return r;
  }
  static bool eq(const C& a, const C& b, Eq& q) {
    if (a.size() != b.size()) return false;
    if (!ordered) return shows(a) == shows(b);
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
      if (!M<K>::eq((*i).first, (*j).first, q) || !M<V>::eq((*i).second, (*j).second, q)) return false;
    return true;
  }
  static void show(const C& v, std::string& s) {
    s += '<';
    for (auto& e : shows(v)) {
      sep(s, '<');
      s += e;
    }
    s += '>';
  }
  static void enc(const C& v, Enc& e) {
    e.size(v.size());
    for (auto&& i : v) {
      M<K>::enc(i.first, e);
      M<V>::enc(i.second, e);
    }
  }
  static void dec(C& v, Dec& d) {
    auto n = d.count();
    v.clear();
    while (n--) {
      std::pair<K, V> e{};
      M<K>::dec(e.first, d);
      M<V>::dec(e.second, d);
      v.insert(std::move(e));
    }
  }
};
#define MODEL_SET(S, ORD) \
  template <typename K>   \
  struct M<S<K>> : SetM<S<K>, K, ORD> {};
#define MODEL_MAP(S, ORD)           \
  template <typename K, typename V> \
  struct M<S<K, V>> : MapM<S<K, V>, K, V, ORD> {};
MODEL_SET(std::set, true)
MODEL_SET(std::multiset, true)
MODEL_SET(std::unordered_set, false)
MODEL_SET(std::unordered_multiset, false)
MODEL_SET(arpc::flat_set, true)
MODEL_SET(arpc::flat_multiset, true)
MODEL_MAP(std::map, true)
MODEL_MAP(std::multimap, true)
MODEL_MAP(std::unordered_map, false)
MODEL_MAP(std::unordered_multimap, false)
MODEL_MAP(arpc::flat_map, true)
// The order among equal keys of a flat multimap is unspecified.
MODEL_MAP(arpc::flat_multimap, false)

// Tuples.
template <typename T, std::size_t... I>
struct TupM {
  template <std::size_t J>
  using E = std::remove_cv_t<std::remove_reference_t<std::tuple_element_t<J, T>>>;
  static void gen(Gen& g, T& v) {
    Nest nest(g);
    (M<E<I>>::gen(g, std::get<I>(v)), ...);
  }
  static bool eq(const T& a, const T& b, Eq& q) { return (M<E<I>>::eq(std::get<I>(a), std::get<I>(b), q) && ...); }
  static void show(const T& v, std::string& s) {
    s += '(';
    ((s += I ? "," : "", M<E<I>>::show(std::get<I>(v), s)), ...);
    s += ')';
  }
  static void enc(const T& v, Enc& e) { (M<E<I>>::enc(std::get<I>(v), e), ...); }
  static void dec(T& v, Dec& d) { (M<E<I>>::dec(std::get<I>(v), d), ...); }
};
template <typename T, typename S>
struct TupS;
template <typename T, std::size_t... I>
struct TupS<T, std::index_sequence<I...>> : TupM<T, I...> {};
template <typename... A>
struct M<std::tuple<A...>> : TupS<std::tuple<A...>, std::index_sequence_for<A...>> {};
template <typename A, typename B>
struct M<std::pair<A, B>> : TupM<std::pair<A, B>, 0, 1> {};

// Optionals.
template <typename V>
struct M<std::optional<V>> {
  using T = std::optional<V>;
  static void gen(Gen& g, T& v) {
    Nest nest(g);
    if (g.depth < 12 && g.src().chance(2, 3)) {
      v.emplace();
      M<V>::gen(g, *v);
    } else {
      v.reset();
    }
  }
  static bool eq(const T& a, const T& b, Eq& q) {
    return a.has_value() == b.has_value() && (!a.has_value() || M<V>::eq(*a, *b, q));
  }
  static void show(const T& v, std::string& s) {
    s += '?';
    if (v) M<V>::show(*v, s);
  }
  static void enc(const T& v, Enc& e) {
    e.out.push_back(v.has_value() ? 1 : 0);
    if (v) M<V>::enc(*v, e);
  }
  static void dec(T& v, Dec& d) {
    if (d.boolean()) {
      v.emplace();
      M<V>::dec(*v, d);
    } else {
      v.reset();
    }
  }
};
template <typename V>
struct M<std::unique_ptr<V>> {
  using T = std::unique_ptr<V>;
  static void gen(Gen& g, T& v) {
    Nest nest(g);
    if (g.depth < 12 && g.budget > 0 && g.src().chance(2, 3)) {
      g.budget--;
      v = Obj<V>::make_unique(g);
      Obj<V>::gen(g, *v);
    } else {
      v.reset();
    }
  }
  static bool eq(const T& a, const T& b, Eq& q) { return !a == !b && (!a || Obj<V>::eq(*a, *b, q)); }
  static void show(const T& v, std::string& s) {
    s += '^';
    if (v && s.size() < 1000) Obj<V>::show(*v, s);
  }
  static void enc(const T& v, Enc& e) {
    e.out.push_back(v ? 1 : 0);
    if (v) Obj<V>::enc(*v, e);
  }
  static void dec(T& v, Dec& d) {
    if (d.boolean()) {
      Obj<V>::dec(d, [&](V* p) { v.reset(p); });
    } else {
      v.reset();
    }
  }
};
template <typename V>
struct M<std::shared_ptr<V>> {
  using T = std::shared_ptr<V>;
  static void gen(Gen& g, T& v) {
    Nest nest(g);
    auto& pool = g.pool[Obj<V>::key()];
    auto w = g.src().weighted({1, 2, 2});
    if (w == 1 && !pool.empty()) {
      auto& p = pool[g.src().below(pool.size())];
      if (Obj<V>::fits(p))
        v = Obj<V>::cast(p);
      else
        v.reset();
    } else if (w && g.depth < 12 && g.budget > 0) {
      g.budget -= 2;
      v = Obj<V>::make_shared(g);
      if (g.cycles) pool.push_back(Obj<V>::erase(v));
      Obj<V>::gen(g, *v);
      if (!g.cycles) pool.push_back(Obj<V>::erase(v));
    } else {
      v.reset();
    }
  }
  static bool eq(const T& a, const T& b, Eq& q) {
    if (!a || !b) return !a == !b;
    auto *x = Obj<V>::addr(*a), *y = Obj<V>::addr(*b);
    auto i = q.ab.find(x);
    auto j = q.ba.find(y);
    if ((i == q.ab.end()) != (j == q.ba.end())) return false;
    if (i != q.ab.end()) return i->second == y && j->second == x;
    q.ab[x] = y;
    q.ba[y] = x;
    return Obj<V>::eq(*a, *b, q);
  }
  static thread_local inline int show_depth = 0;
  static void show(const T& v, std::string& s) {
    s += '@';
    if (v && show_depth < 3 && s.size() < 1000) {
      show_depth++;
      Obj<V>::show(*v, s);
      show_depth--;
    }
  }
  static void enc(const T& v, Enc& e) {
    if (!v) {
      e.size(0);
      return;
    }
    auto [it, fresh] = e.ids.emplace(Obj<V>::addr(*v), e.ids.size() + 1);
    e.size(it->second);
    if (fresh) Obj<V>::enc(*v, e);
  }
  static void dec(T& v, Dec& d) {
    auto id = d.size();
    if (id == 0) {
      v.reset();
      return;
    }
    if (id > d.objs.size()) throw Bad::mismatch;
    if (id == d.objs.size()) {
      d.objs.push_back({nullptr, Obj<V>::key()});
      Obj<V>::dec(d, [&](V* p) {
        v.reset(p);
        d.objs[id].ptr = Obj<V>::erase(v);
      });
    } else {
      if (d.objs[id].type != Obj<V>::key() || !d.objs[id].ptr || !Obj<V>::fits(d.objs[id].ptr)) throw Bad::mismatch;
      v = Obj<V>::cast(d.objs[id].ptr);
    }
  }
};
template <typename V>
struct M<std::weak_ptr<V>> {
  using T = std::weak_ptr<V>;
  using S = M<std::shared_ptr<V>>;
  static void gen(Gen& g, T& v) {
    std::shared_ptr<V> s;
    S::gen(g, s);  // the pool keeps it alive
    v = s;
  }
  static bool eq(const T& a, const T& b, Eq& q) { return S::eq(a.lock(), b.lock(), q); }
  static void show(const T& v, std::string& s) { S::show(v.lock(), s); }
  static void enc(const T& v, Enc& e) { S::enc(v.lock(), e); }
  static void dec(T& v, Dec& d) {
    std::shared_ptr<V> s;
    S::dec(s, d);
    v = s;
  }
};
template <typename Rep, typename P>
struct M<std::chrono::duration<Rep, P>> {
  using T = std::chrono::duration<Rep, P>;
  static void gen(Gen& g, T& v) { v = T(g.src().template integer<Rep>()); }
  static bool eq(const T& a, const T& b, Eq&) { return a.count() == b.count(); }
  static void show(const T& v, std::string& s) { s += std::to_string(static_cast<long long>(v.count())); }
  static void enc(const T& v, Enc& e) {
    std::int64_t t = v.count();
    e.raw(&t, 8);
  }
  static void dec(T& v, Dec& d) {
    std::int64_t t;
    d.raw(&t, 8);
    v = T(static_cast<Rep>(t));
  }
};
template <typename C, typename D>
struct M<std::chrono::time_point<C, D>> {
  using T = std::chrono::time_point<C, D>;
  static void gen(Gen& g, T& v) {
    D d;
    M<D>::gen(g, d);
    v = T(d);
  }
  static bool eq(const T& a, const T& b, Eq&) { return a == b; }
  static void show(const T& v, std::string& s) { M<D>::show(v.time_since_epoch(), s); }
  static void enc(const T& v, Enc& e) { M<D>::enc(v.time_since_epoch(), e); }
  static void dec(T& v, Dec& d) {
    D u;
    M<D>::dec(u, d);
    v = T(u);
  }
};

// User classes: bases, then fields, then what save() writes.
template <typename... B>
struct Bases {};
template <auto... p>
struct Ptrs {};
template <auto p>
struct MemT;
template <typename C, typename T, T(C::*p)>
struct MemT<p> {
  using type = T;
};
template <typename T, typename B, typename F>
struct ClassM;
template <typename T, typename... B, auto... p>
struct ClassM<T, Bases<B...>, Ptrs<p...>> {
  static void gen(Gen& g, T& v) {
    Nest nest(g);
    (M<B>::gen(g, static_cast<B&>(v)), ...);
    (M<typename MemT<p>::type>::gen(g, v.*p), ...);
  }
  static bool eq(const T& a, const T& b, Eq& q) {
    return (M<B>::eq(static_cast<const B&>(a), static_cast<const B&>(b), q) && ...) &&
           (M<typename MemT<p>::type>::eq(a.*p, b.*p, q) && ...);
  }
  static void show(const T& v, std::string& s) {
    std::string t;
    ((t += ',', M<B>::show(static_cast<const B&>(v), t)), ...);
    ((t += ',', M<typename MemT<p>::type>::show(v.*p, t)), ...);
    s += '(' + (t.empty() ? t : t.substr(1)) + ')';
  }
  static void enc(const T& v, Enc& e) {
    (M<B>::enc(static_cast<const B&>(v), e), ...);
    (M<typename MemT<p>::type>::enc(v.*p, e), ...);
  }
  static void dec(T& v, Dec& d) {
    (M<B>::dec(static_cast<B&>(v), d), ...);
    (M<typename MemT<p>::type>::dec(v.*p, d), ...);
  }
};

template <typename T>
std::string show(const T& v) {
  std::string s;
  M<T>::show(v, s);
  return s;
}
}  // namespace model
#endif
