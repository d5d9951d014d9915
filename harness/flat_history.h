// Model-based history of one flat container against the std one. The model of
// multi containers ignores the order among equivalent keys.
#ifndef VERIF_FLAT_HISTORY_H_
#define VERIF_FLAT_HISTORY_H_
#include "flat_common.h"

template <typename K, typename V, typename Cmp, bool multi>
struct flat_types {
  static constexpr bool map = true;
  using flat = std::conditional_t<multi, arpc::flat_multimap<K, V, Cmp>, arpc::flat_map<K, V, Cmp>>;
  using ref = std::conditional_t<multi, std::multimap<K, V, Cmp>, std::map<K, V, Cmp>>;
  using value = std::pair<K, V>;
  template <typename T>
  static const K& key(const T& v) {
    return v.first;
  }
  static value gen(pbt::Case& c, int range) {
    int k = c.src.range<int>(0, range), v = c.src.range<int>(0, 9);
    return value(make<K>::of(k), make<V>::of(v));
  }
  template <typename A, typename B>
  static bool same(const A& a, const B& b) {
    return a.first == b.first && a.second == b.second;
  }
};
template <typename K, typename Cmp, bool multi>
struct flat_types<K, void, Cmp, multi> {
  static constexpr bool map = false;
  using flat = std::conditional_t<multi, arpc::flat_multiset<K, Cmp>, arpc::flat_set<K, Cmp>>;
  using ref = std::conditional_t<multi, std::multiset<K, Cmp>, std::set<K, Cmp>>;
  using value = K;
  template <typename T>
  static const K& key(const T& v) {
    return v;
  }
  static value gen(pbt::Case& c, int range) { return make<K>::of(c.src.range<int>(0, range)); }
  template <typename A, typename B>
  static bool same(const A& a, const B& b) {
    return a == b;
  }
};

/// Compares contents; for multi containers up to the order among equivalent keys.
template <typename T, bool multi, typename F, typename R>
void same_content(pbt::Case& c, const F& f, const R& r, const char* when) {
  PBT_CHECK(c, f.size() == r.size(), "size", when << ": size " << f.size() << " want " << r.size());
  PBT_CHECK(c, f.empty() == r.empty(), "empty", when << ": empty() wrong");
  auto cmp = r.key_comp();
  auto i = f.begin();
  auto j = r.begin();
  if constexpr (!multi) {
    for (; j != r.end(); ++i, ++j) {
      PBT_CHECK(c, T::same(*i, *j), "content", when << ": element " << (i - f.begin()) << " differs, key " << T::key(*i) << " want " << T::key(*j));
    }
  } else {
    while (j != r.end()) {
      // One group of equivalent keys.
      auto je = j;
      std::size_t n = 0;
      while (je != r.end() && !cmp(T::key(*j), T::key(*je))) {
        ++je;
        n++;
      }
      std::vector<bool> used(n, false);
      for (std::size_t a = 0; a < n; a++) {
        auto jj = j;
        bool found = false;
        for (std::size_t b = 0; b < n && !found; b++, ++jj) {
          if (!used[b] && T::same(*(i + a), *jj)) used[b] = found = true;
        }
        PBT_CHECK(c, found, "content", when << ": element " << (i - f.begin() + a) << " with key " << T::key(*(i + a)) << " is not among the expected ones");
      }
      i += n;
      j = je;
    }
  }
  PBT_CHECK(c, f.end() - f.begin() == static_cast<std::ptrdiff_t>(f.size()), "end", when << ": end() - begin()");
  // Reverse and const iteration agree with forward iteration.
  auto fi = f.end();
  for (auto ri = f.rbegin(); ri != f.rend(); ++ri) PBT_CHECK(c, &*ri == &*--fi, "reverse", when << ": reverse iteration differs");
  PBT_CHECK(c, fi == f.begin(), "reverse", when << ": reverse iteration ends early");
  PBT_CHECK(c, f.cbegin() == f.begin() && f.cend() == f.end() && f.crend() - f.crbegin() == f.end() - f.begin(), "citer", when << ": c-iterators");
  if (!f.empty()) PBT_CHECK(c, f.data() == &*f.begin(), "data", when << ": data()");
}

template <typename K, typename V, typename Cmp, bool multi>
void flat_history(pbt::Case& c, int max_ops) {
  using T = flat_types<K, V, Cmp, multi>;
  using F = typename T::flat;
  using R = typename T::ref;
  using Val = typename T::value;
  long live0 = Tracked::live;
  {
    Cmp cmp = make_cmp<Cmp>(c);
    int range = c.src.coin() ? 6 : c.src.coin() ? 30 : 300;
    auto many = [&](std::size_t max) {
      std::vector<Val> v;
      auto n = c.src.range<std::uint64_t>(0, max);
      for (std::uint64_t i = 0; i < n; i++) v.push_back(T::gen(c, range));
      return v;
    };
    bool dup = false, big = false;
    std::unique_ptr<F> fp;
    std::unique_ptr<R> rp;
    switch (c.src.below(5)) {
      case 0:
        c.note("default");
        fp = std::make_unique<F>(cmp);
        rp = std::make_unique<R>(cmp);
        break;
      case 1: {
        auto v = many(c.src.coin() ? 10 : 120);
        c.note("range(", v.size(), ")");
        big = v.size() > 16;
        fp = std::make_unique<F>(v.begin(), v.end(), cmp);
        rp = std::make_unique<R>(v.begin(), v.end(), cmp);
        break;
      }
      case 2: {
        auto v = many(40);
        c.note("input-range(", v.size(), ")");
        big = v.size() > 16;
        using It = once_iterator<typename std::vector<Val>::const_iterator>;
        fp = std::make_unique<F>(It{v.cbegin()}, It{v.cend()}, cmp);
        rp = std::make_unique<R>(v.begin(), v.end(), cmp);
        break;
      }
      case 3: {
        Val a = T::gen(c, range), b = T::gen(c, range), d = T::gen(c, range);
        c.note("ilist(3)");
        fp = std::make_unique<F>(std::initializer_list<Val>{a, b, d}, cmp);
        std::vector<Val> v{a, b, d};
        rp = std::make_unique<R>(v.begin(), v.end(), cmp);
        break;
      }
      default: {
        auto v = many(60);
        std::list<Val> l(v.begin(), v.end());
        c.note("list-range(", v.size(), ")");
        big = v.size() > 16;
        fp = std::make_unique<F>(l.begin(), l.end(), cmp);
        rp = std::make_unique<R>(v.begin(), v.end(), cmp);
      }
    }
    F& f = *fp;
    R& r = *rp;
    const F& cf = f;
    const R& cr = r;
    same_content<T, multi>(c, cf, cr, "constructed");
    auto dist = [&](auto it) { return std::distance(r.begin(), typename R::iterator(it)); };
    // Both iterators at the same position; for multi containers at an element that is the same.
    auto nops = c.src.range<int>(1, max_ops);
    for (int op = 0; op < nops; op++) {
      auto what = c.src.below(20);
      std::string when = "op " + std::to_string(op) + " ";
      switch (what) {
        case 0:
        case 1: {  // insert one
          auto v = T::gen(c, range);
          auto how = c.src.below(4);
          static const char* names[] = {"insert(const&)", "insert(&&)", "emplace", "emplace(key,value)"};
          c.note(" ", names[how], "(", T::key(v), ")");
          when += names[how];
          Val v2 = v, v3 = v;
          if constexpr (!multi) {
            std::pair<typename F::iterator, bool> fr;
            if (how == 0)
              fr = f.insert(static_cast<const Val&>(v2));
            else if (how == 1)
              fr = f.insert(std::move(v2));
            else if (how == 2)
              fr = f.emplace(std::move(v2));
            else if constexpr (T::map)
              fr = f.emplace(v2.first, v2.second);
            else
              fr = f.emplace(v2);
            auto rr = r.insert(typename R::value_type(v3));
            dup |= !rr.second;
            PBT_CHECK(c, fr.second == rr.second, "insert-result", when << ": inserted " << fr.second << " want " << rr.second);
            PBT_CHECK(c, fr.first - f.begin() == dist(rr.first), "insert-position", when << ": returned position " << (fr.first - f.begin()) << " want " << dist(rr.first));
          } else {
            dup |= r.count(T::key(v)) > 0;
            typename F::iterator fi;
            if (how == 0)
              fi = f.insert(static_cast<const Val&>(v2));
            else if (how == 1)
              fi = f.insert(std::move(v2));
            else if (how == 2)
              fi = f.emplace(std::move(v2));
            else if constexpr (T::map)
              fi = f.emplace(v2.first, v2.second);
            else
              fi = f.emplace(v2);
            r.insert(typename R::value_type(v3));
            PBT_CHECK(c, fi >= f.begin() && fi < f.end() && T::same(*fi, v), "insert-position", when << ": the returned iterator is not at the inserted element");
          }
          break;
        }
        case 2: {  // hinted
          auto v = T::gen(c, range);
          auto hint = f.cbegin() + c.src.below(f.size() + 1);
          auto how = c.src.below(3);
          c.note(" hinted", how, "(", T::key(v), ")@", hint - f.cbegin());
          when += "hinted insert";
          Val v2 = v;
          typename F::iterator fi;
          if (how == 0)
            fi = f.insert(hint, static_cast<const Val&>(v2));
          else if (how == 1)
            fi = f.insert(hint, std::move(v2));
          else
            fi = f.emplace_hint(hint, std::move(v2));
          if constexpr (!multi) {
            auto rr = r.insert(typename R::value_type(v));
            PBT_CHECK(c, fi - f.begin() == dist(rr.first), "hint-position", when << ": returned position " << (fi - f.begin()) << " want " << dist(rr.first));
          } else {
            r.insert(typename R::value_type(v));
            PBT_CHECK(c, fi < f.end() && T::same(*fi, v), "hint-position", when << ": the returned iterator is not at the inserted element");
          }
          break;
        }
        case 3: {  // range
          auto v = many(c.src.coin() ? 6 : 30);
          c.note(" insert-range(", v.size(), ")");
          when += "insert range";
          std::list<Val> l(v.begin(), v.end());
          if (c.src.coin())
            f.insert(v.begin(), v.end());
          else
            f.insert(l.begin(), l.end());
          r.insert(v.begin(), v.end());
          break;
        }
        case 4: {
          Val a = T::gen(c, range), b = T::gen(c, range);
          c.note(" ilist(", T::key(a), ",", T::key(b), ")");
          std::vector<Val> v{a, b};
          when += "initializer list";
          if (c.src.chance(3, 4)) {
            f.insert({a, b});
          } else {
            f = std::initializer_list<Val>{a, b};
            c.note("=");
            r.clear();
          }
          r.insert(v.begin(), v.end());
          break;
        }
        case 5: {  // erase key
          auto v = T::gen(c, range);
          if (!f.empty() && c.src.coin()) v = *(f.begin() + c.src.below(f.size()));
          c.note(" erase-key(", T::key(v), ")");
          when += "erase key";
          auto n = f.erase(T::key(v)), m = r.erase(T::key(v));
          PBT_CHECK(c, n == m, "erase-count", when << ": erased " << n << " want " << m);
          break;
        }
        case 6: {  // erase by a reference to a key inside
          if (f.empty()) break;
          auto at = c.src.below(f.size());
          K k = T::key(*(f.begin() + at));
          c.note(" erase-own-key(", k, ")");
          when += "erase own key";
          auto n = f.erase(T::key(*(f.begin() + at)));
          auto m = r.erase(k);
          PBT_CHECK(c, n == m, "erase-count", when << ": erased " << n << " want " << m);
          break;
        }
        case 7: {  // erase iterator
          if (f.empty()) break;
          auto at = c.src.below(f.size());
          c.note(" erase@", at);
          when += "erase iterator";
          auto rit = std::next(r.begin(), at);
          if constexpr (multi) {
            rit = r.lower_bound(T::key(*(f.begin() + at)));
            while (!T::same(*rit, *(f.begin() + at))) ++rit;
          }
          r.erase(rit);
          auto ret = f.erase(f.begin() + at);
          PBT_CHECK(c, static_cast<std::size_t>(ret - f.begin()) == at, "erase-return", when << ": returned position " << (ret - f.begin()));
          break;
        }
        case 8: {  // erase range
          auto a = c.src.below(f.size() + 1);
          auto b = a + c.src.below(f.size() - a + 1);
          if (b - a > 6) b = a + 6;
          c.note(" erase[", a, ",", b, ")");
          when += "erase range";
          if constexpr (multi) {
            for (auto i = f.begin() + a; i != f.begin() + b; ++i) {
              auto rit = r.lower_bound(T::key(*i));
              while (!T::same(*rit, *i)) ++rit;
              r.erase(rit);
            }
          } else {
            r.erase(std::next(r.begin(), a), std::next(r.begin(), b));
          }
          auto ret = f.erase(f.begin() + a, f.begin() + b);
          PBT_CHECK(c, static_cast<std::size_t>(ret - f.begin()) == a, "erase-return", when << ": returned position " << (ret - f.begin()));
          break;
        }
        case 9:
          if (c.src.chance(1, 4)) {
            c.note(" clear");
            f.clear();
            r.clear();
          }
          break;
        case 10: {
          auto n = c.src.below(100);
          c.note(" reserve(", n, ")");
          when += "reserve";
          f.reserve(n);
          PBT_CHECK(c, f.capacity() >= n, "capacity", when);
          break;
        }
        case 11:
          c.note(" shrink_to_fit");
          f.shrink_to_fit();
          break;
        case 12:
          if constexpr (T::map && !multi) {  // operator[]
            auto v = T::gen(c, range);
            bool rv = c.src.coin(), assign = c.src.coin();
            c.note(rv ? " [&&" : " [", v.first, assign ? "]=" : "]");
            when += "operator[]";
            K k2 = v.first;
            auto& ref = rv ? f[std::move(k2)] : f[static_cast<const K&>(v.first)];
            auto& want = r[v.first];
            PBT_CHECK(c, ref == want, "subscript", when << ": value differs");
            if (assign) {
              ref = v.second;
              want = v.second;
            }
          }
          break;
        case 13:
          if constexpr (T::map && !multi) {  // at
            auto v = T::gen(c, range);
            c.note(" at(", v.first, ")");
            when += "at";
            bool fm = false, rm = false;
            V* fv = nullptr;
            const V* cfv = nullptr;
            V* rvp = nullptr;
            try {
              rvp = &r.at(v.first);
            } catch (const std::out_of_range&) {
              rm = true;
            }
            try {
              fv = &f.at(v.first);
            } catch (const std::out_of_range&) {
              fm = true;
            }
            bool cfm = false;
            try {
              cfv = &cf.at(v.first);
            } catch (const std::out_of_range&) {
              cfm = true;
            }
            PBT_CHECK(c, fm == rm && cfm == rm, "at-throws", when << ": threw " << fm << cfm << " want " << rm);
            if (!rm) PBT_CHECK(c, *fv == *rvp && fv == cfv, "at-value", when << ": value differs");
          }
          break;
        case 14:
          if constexpr (T::map) {  // change a value in place
            if (f.empty()) break;
            auto at = c.src.below(f.size());
            auto nv = make<V>::of(c.src.range<int>(10, 19));
            c.note(" set@", at);
            auto fi = f.begin() + at;
            auto ri = std::next(r.begin(), at);
            if constexpr (multi) {
              ri = r.lower_bound(fi->first);
              while (!T::same(*ri, *fi)) ++ri;
            }
            ri->second = nv;
            fi->second = nv;
          }
          break;
        default: {  // lookups, of present and absent keys
          auto v = T::gen(c, range);
          if (!f.empty() && c.src.chance(1, 3)) v = *(f.begin() + c.src.below(f.size()));
          const K& k = T::key(v);
          c.note(" look(", k, ")");
          when += "lookup";
          auto rl = dist(r.lower_bound(k)), ru = dist(r.upper_bound(k));
          auto n = static_cast<std::size_t>(ru - rl);
          PBT_CHECK(c, f.count(k) == n && cf.count(k) == n, "count", when << " " << k << ": count " << f.count(k) << " want " << n);
          PBT_CHECK(c, f.lower_bound(k) - f.begin() == rl && cf.lower_bound(k) - cf.begin() == rl, "lower_bound", when << " " << k << ": at " << (f.lower_bound(k) - f.begin()) << " want " << rl);
          PBT_CHECK(c, f.upper_bound(k) - f.begin() == ru && cf.upper_bound(k) - cf.begin() == ru, "upper_bound", when << " " << k << ": at " << (f.upper_bound(k) - f.begin()) << " want " << ru);
          auto e = f.equal_range(k);
          auto ce = cf.equal_range(k);
          PBT_CHECK(c, e.first - f.begin() == rl && e.second - f.begin() == ru && ce.first - cf.begin() == rl && ce.second - cf.begin() == ru, "equal_range", when << " " << k);
          auto it = f.find(k);
          auto cit = cf.find(k);
          if (n == 0) {
            PBT_CHECK(c, it == f.end() && cit == cf.end(), "find-absent", when << " " << k << ": found an absent key");
          } else {
            PBT_CHECK(c, it - f.begin() >= rl && it - f.begin() < ru && cit - cf.begin() >= rl && cit - cf.begin() < ru, "find", when << " " << k << ": find at " << (it - f.begin()) << " want in [" << rl << "," << ru << ")");
          }
          if (!f.empty()) {
            auto& x = *(f.begin() + c.src.below(f.size()));
            auto& y = *(f.begin() + c.src.below(f.size()));
            PBT_CHECK(c, f.key_comp()(T::key(x), T::key(y)) == cmp(T::key(x), T::key(y)), "key_comp", when);
            PBT_CHECK(c, f.value_comp()(x, y) == cmp(T::key(x), T::key(y)), "value_comp", when);
          }
        }
      }
      same_content<T, multi>(c, cf, cr, when.c_str());
    }
    PBT_CHECK(c, f.max_size() >= f.size(), "max_size", "max_size");
    c.nontrivial(r.size() > 1 || dup || big);
    if (dup) c.label("duplicate-key");
    if (big) c.label("range>16");
  }
  PBT_CHECK(c, Tracked::live == live0, "destroyed", "elements left after destruction: " << Tracked::live - live0);
}
#endif
