// Whole-container operations on a pool of containers with comparators of
// different states, and move-only elements.
#include "flat_history.h"

namespace {
template <typename T, bool multi, typename F>
void pool_history(pbt::Case& c) {
  using R = typename T::ref;
  using Val = typename T::value;
  long live0 = Tracked::live;
  {
    struct Slot {
      std::unique_ptr<F> f;
      std::unique_ptr<R> r;
    };
    std::vector<Slot> pool;
    int range = 12;
    auto fresh = [&] {
      BucketLess cmp = make_cmp<BucketLess>(c);
      std::vector<Val> v;
      auto n = c.src.range<std::uint64_t>(0, 12);
      for (std::uint64_t i = 0; i < n; i++) v.push_back(T::gen(c, range));
      Slot s;
      s.f = std::make_unique<F>(v.begin(), v.end(), cmp);
      s.r = std::make_unique<R>(v.begin(), v.end(), cmp);
      return s;
    };
    auto n0 = 2 + c.src.below(2);
    for (std::size_t i = 0; i < n0; i++) pool.push_back(fresh());
    bool whole = false;
    auto ops = c.src.range<int>(1, 16);
    for (int op = 0; op < ops; op++) {
      auto a = c.src.below(pool.size()), b = c.src.below(pool.size());
      auto& A = pool[a];
      auto& B = pool[b];
      auto what = c.src.below(10);
      whole |= what < 7;
      switch (what) {
        case 0:
          c.note(" copy-construct ", a, "->new");
          {
            Slot s;
            s.f = std::make_unique<F>(static_cast<const F&>(*A.f));
            PBT_CHECK(c, std::equal(s.f->begin(), s.f->end(), A.f->begin(), A.f->end(), [](auto& x, auto& y) { return T::same(x, y); }), "copy-order", "the copy is not in the order of the original");
            s.r = std::make_unique<R>(*A.r);
            if (pool.size() < 5)
              pool.push_back(std::move(s));
            else
              pool[b] = std::move(s);
          }
          break;
        case 1: {
          c.note(" move-construct ", a, "->new");
          Slot s;
          s.f = std::make_unique<F>(std::move(*A.f));
          s.r = std::make_unique<R>(std::move(*A.r));
          // The source stays usable; its contents are unspecified, so clear it.
          A.f->clear();
          A.r->clear();
          if (pool.size() < 5)
            pool.push_back(std::move(s));
          else if (a != b)
            pool[b] = std::move(s);
          break;
        }
        case 2:
          c.note(" copy-assign ", a, "<-", b);
          *A.f = static_cast<const F&>(*B.f);
          if (a != b) *A.r = *B.r;
          break;
        case 3:
          if (a == b) break;
          c.note(" move-assign ", a, "<-", b);
          *A.f = std::move(*B.f);
          *A.r = std::move(*B.r);
          B.f->clear();
          B.r->clear();
          break;
        case 4:
          c.note(" swap ", a, "<->", b);
          A.f->swap(*B.f);
          if (a != b) A.r->swap(*B.r);
          break;
        case 5:
          c.note(" std::swap ", a, "<->", b);
          if (a != b) {
            using std::swap;
            swap(*A.f, *B.f);
            swap(*A.r, *B.r);
          }
          break;
        case 6: {
          Val x = T::gen(c, range), y = T::gen(c, range), z = T::gen(c, range);
          c.note(" assign-ilist ", a);
          *A.f = std::initializer_list<Val>{x, y, z};
          A.r->clear();
          for (auto& v : {x, y, z}) A.r->insert(v);
          break;
        }
        case 7: {
          auto v = T::gen(c, range);
          c.note(" insert ", a, " ", T::key(v));
          A.f->insert(v);
          A.r->insert(v);
          break;
        }
        case 8: {
          auto v = T::gen(c, range);
          c.note(" erase ", a, " ", T::key(v));
          auto n = A.f->erase(T::key(v)), m = A.r->erase(T::key(v));
          PBT_CHECK(c, n == m, "erase", "erased " << n << " want " << m);
          break;
        }
        default: {
          auto v = T::gen(c, range);
          auto n = A.f->count(T::key(v)), m = A.r->count(T::key(v));
          c.note(" count ", a, " ", T::key(v));
          PBT_CHECK(c, n == m, "count", "count " << n << " want " << m);
          bool fi = A.f->find(T::key(v)) != A.f->end();
          PBT_CHECK(c, fi == (m > 0), "find", "find " << fi << " want " << (m > 0));
        }
      }
      for (std::size_t i = 0; i < pool.size(); i++) {
        std::string when = "container " + std::to_string(i) + " after op " + std::to_string(op);
        same_content<T, multi>(c, static_cast<const F&>(*pool[i].f), *pool[i].r, when.c_str());
        auto kf = pool[i].f->key_comp();
        auto kr = pool[i].r->key_comp();
        PBT_CHECK(c, kf.m == kr.m && kf.desc == kr.desc, "comparator", when << ": comparator state differs");
        auto vf = pool[i].f->value_comp();
        if (!pool[i].f->empty()) {
          auto& x = *pool[i].f->begin();
          auto& y = *pool[i].f->rbegin();
          PBT_CHECK(c, vf(x, y) == kr(T::key(x), T::key(y)) && vf(y, x) == kr(T::key(y), T::key(x)), "value_comp", when);
        }
      }
    }
    c.nontrivial(whole && pool.size() > 1);
  }
  PBT_CHECK(c, Tracked::live == live0, "destroyed", "elements left after destruction: " << Tracked::live - live0);
}
template <typename K, typename V, bool multi>
void pool(pbt::Case& c) {
  using T = flat_types<K, V, BucketLess, multi>;
  pool_history<T, multi, typename T::flat>(c);
}
}  // namespace

PBT_ARM(pool_map, 5000, 250000) { pool<Tracked, Tracked, false>(c); }
PBT_ARM(pool_set, 4000, 200000) { pool<std::string, void, false>(c); }
PBT_ARM(pool_multimap, 5000, 250000) { pool<int, Tracked, true>(c); }
PBT_ARM(pool_multiset, 4000, 200000) { pool<Tracked, void, true>(c); }

namespace {
// A value that can only be moved.
struct MoveOnly {
  std::unique_ptr<int> p;
  MoveOnly() : p(new int(0)) {}
  explicit MoveOnly(int v) : p(new int(v)) {}
  int get() const { return p ? *p : -1; }
};
template <typename F, typename R>
void move_only(pbt::Case& c) {
  constexpr bool multi = !std::is_same_v<decltype(std::declval<F&>().insert(std::declval<std::pair<int, MoveOnly>>())), std::pair<typename F::iterator, bool>>;
  F f[2];
  R r[2];
  auto ops = c.src.range<int>(1, 20);
  for (int op = 0; op < ops; op++) {
    int a = static_cast<int>(c.src.below(2));
    int k = c.src.range<int>(0, 8), v = c.src.range<int>(0, 99);
    switch (c.src.below(8)) {
      case 0:
      case 1:
        c.note(" emplace", a, "(", k, ",", v, ")");
        f[a].emplace(k, MoveOnly(v));
        r[a].emplace(k, MoveOnly(v));
        break;
      case 2:
        c.note(" insert", a, "(", k, ",", v, ")");
        f[a].insert(std::pair<int, MoveOnly>(k, MoveOnly(v)));
        r[a].insert(std::pair<const int, MoveOnly>(k, MoveOnly(v)));
        break;
      case 3:
        c.note(" erase", a, "(", k, ")");
        f[a].erase(k);
        r[a].erase(k);
        break;
      case 4:
        c.note(" swap");
        f[0].swap(f[1]);
        r[0].swap(r[1]);
        break;
      case 5: {
        c.note(" move ", a);
        F t(std::move(f[a]));
        R u(std::move(r[a]));
        f[a].clear();
        r[a].clear();
        f[1 - a] = std::move(t);
        r[1 - a] = std::move(u);
        break;
      }
      case 6:
        c.note(" hint", a, "(", k, ",", v, ")");
        f[a].emplace_hint(f[a].end(), k, MoveOnly(v));
        r[a].emplace(k, MoveOnly(v));
        break;
      default:
        if constexpr (!multi) {
          c.note(" [", k, "]", a);
          int x = f[a][k].get(), y = r[a][k].get();
          PBT_CHECK(c, x == y, "subscript", "value " << x << " want " << y);
        }
    }
    for (int i = 0; i < 2; i++) {
      PBT_CHECK(c, f[i].size() == r[i].size(), "size", "container " << i << " size " << f[i].size() << " want " << r[i].size());
      std::vector<std::pair<int, int>> x, y;
      for (auto& e : f[i]) x.emplace_back(e.first, e.second.get());
      for (auto& e : r[i]) y.emplace_back(e.first, e.second.get());
      PBT_CHECK(c, std::is_sorted(x.begin(), x.end(), [](auto& p, auto& q) { return p.first < q.first; }), "order", "container " << i);
      if (multi) {
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
      }
      PBT_CHECK(c, x == y, "content", "container " << i << " differs");
    }
  }
  c.nontrivial(r[0].size() + r[1].size() > 1);
}
}  // namespace
PBT_ARM(move_only_map, 5000, 250000) { move_only<arpc::flat_map<int, MoveOnly>, std::map<int, MoveOnly>>(c); }
PBT_ARM(move_only_multimap, 4000, 200000) { move_only<arpc::flat_multimap<int, MoveOnly>, std::multimap<int, MoveOnly>>(c); }
PBT_ARM(move_only_set, 3000, 150000) {
  arpc::flat_set<std::unique_ptr<int>> f;
  std::set<int*> want;
  auto n = c.src.range<int>(0, 12);
  for (int i = 0; i < n; i++) {
    auto p = std::make_unique<int>(i);
    want.insert(p.get());
    auto r = f.insert(std::move(p));
    PBT_CHECK(c, r.second && want.count(r.first->get()), "insert", "not inserted");
  }
  arpc::flat_set<std::unique_ptr<int>> g(std::move(f));
  f.clear();
  c.note("set of ", n, " unique pointers, moved");
  c.nontrivial(n > 1);
  PBT_CHECK(c, g.size() == want.size(), "size", "lost elements");
  std::size_t i = 0;
  for (auto& p : g) {
    PBT_CHECK(c, want.count(p.get()), "content", "unknown element");
    if (i) PBT_CHECK(c, (g.begin() + i - 1)->get() < p.get(), "order", "not in order");
    i++;
  }
  f = std::move(g);
  PBT_CHECK(c, f.size() == want.size(), "size", "lost elements");
}

// Comparators that are function pointers, lambdas or have no default constructor.
PBT_ARM(comparator_kinds, 3000, 150000) {
  int m = 1 + static_cast<int>(c.src.below(5));
  auto less = [m](int a, int b) { return (a ^ m) < (b ^ m); };
  bool (*fn)(int, int) = [](int a, int b) { return b < a; };
  arpc::flat_set<int, decltype(less)> s1(less);
  std::set<int, decltype(less)> t1(less);
  arpc::flat_map<int, int, bool (*)(int, int)> s2(fn), s3;
  std::map<int, int, bool (*)(int, int)> t2(fn);
  auto n = c.src.range<int>(0, 20);
  for (int i = 0; i < n; i++) {
    int k = c.src.range<int>(0, 15);
    s1.insert(k);
    t1.insert(k);
    s2.insert({k, i});
    t2.insert({k, i});
  }
  c.note("lambda and function pointer orders, xor ", m, ", ", n, " inserts");
  c.nontrivial(n > 1);
  auto check = [&](const auto& f, const auto& r, const char* what) {
    PBT_CHECK(c, f.size() == r.size() && std::equal(f.begin(), f.end(), r.begin(), [](auto& a, auto& b) {
                   if constexpr (std::is_same_v<std::decay_t<decltype(a)>, int>)
                     return a == b;
                   else
                     return a.first == b.first && a.second == b.second;
                 }),
              "content", what);
  };
  check(s1, t1, "lambda");
  check(s2, t2, "function pointer");
  auto c1 = s1;
  auto c2 = s2;
  s3 = s2;
  for (int k = 0; k < 4; k++) {
    int x = c.src.range<int>(0, 15);
    c1.insert(x);
    t1.insert(x);
    c2.insert({x, -1});
    s3.insert({x, -1});
    t2.insert({x, -1});
  }
  check(c1, t1, "copied lambda");
  check(c2, t2, "copied function pointer");
  check(s3, t2, "assigned function pointer");
  auto c3 = std::move(c2);
  check(c3, t2, "moved function pointer");
}
