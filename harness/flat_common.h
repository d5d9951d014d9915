#ifndef VERIF_FLAT_COMMON_H_
#define VERIF_FLAT_COMMON_H_
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "pbt.h"

/// Heap-backed value: copies, moves and destructions are all visible to ASan and counted.
struct Tracked {
  static inline long live = 0;
  int* p;
  Tracked() : p(new int(0)) { live++; }
  explicit Tracked(int v) : p(new int(v)) { live++; }
  Tracked(const Tracked& o) : p(o.p ? new int(*o.p) : nullptr) { live++; }
  Tracked(Tracked&& o) noexcept : p(o.p) {
    o.p = nullptr;
    live++;
  }
  Tracked& operator=(const Tracked& o) {
    if (this != &o) {
      delete p;
      p = o.p ? new int(*o.p) : nullptr;
    }
    return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    if (this != &o) {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Tracked() {
    delete p;
    live--;
  }
  int get() const { return p ? *p : -1000000; }
  friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
  friend bool operator>(const Tracked& a, const Tracked& b) { return a.get() > b.get(); }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
  friend std::ostream& operator<<(std::ostream& o, const Tracked& t) { return o << "#" << t.get(); }
};

inline int key_rank(int k) { return k; }
inline int key_rank(const std::string& s) { return s.empty() ? -1 : static_cast<unsigned char>(s[0]) * 100 + static_cast<int>(s.size()); }
inline int key_rank(const Tracked& t) { return t.get(); }

/// Stateful order: keys in the same bucket of `m` are equivalent; `desc` reverses.
struct BucketLess {
  int m = 1;
  bool desc = false;
  template <typename K>
  bool operator()(const K& a, const K& b) const {
    auto f = [this](int x) { return x >= 0 ? x / m : -((-x + m - 1) / m); };
    int x = f(key_rank(a)), y = f(key_rank(b));
    return desc ? y < x : x < y;
  }
};

template <typename T>
struct make;
template <>
struct make<int> {
  static int of(int v) { return v; }
};
template <>
struct make<std::string> {
  static std::string of(int v) { return std::string(1, static_cast<char>('a' + (v & 15))) + std::string(v < 0 ? 0 : v / 16 % 40, 'x'); }
};
template <>
struct make<Tracked> {
  static Tracked of(int v) { return Tracked(v); }
};

template <typename C>
C make_cmp(pbt::Case&) {
  return C();
}
template <>
inline BucketLess make_cmp<BucketLess>(pbt::Case& c) {
  BucketLess b;
  b.m = 1 + static_cast<int>(c.src.below(4));
  b.desc = c.src.coin();
  c.note("[bucket ", b.m, b.desc ? " desc" : "", "]");
  return b;
}

/// An input iterator that can be passed only once.
template <typename It>
struct once_iterator {
  using iterator_category = std::input_iterator_tag;
  using value_type = typename std::iterator_traits<It>::value_type;
  using difference_type = std::ptrdiff_t;
  using pointer = const value_type*;
  using reference = const value_type&;
  It it;
  reference operator*() const { return *it; }
  pointer operator->() const { return &*it; }
  once_iterator& operator++() {
    ++it;
    return *this;
  }
  once_iterator operator++(int) {
    auto t = *this;
    ++it;
    return t;
  }
  friend bool operator==(const once_iterator& a, const once_iterator& b) { return a.it == b.it; }
  friend bool operator!=(const once_iterator& a, const once_iterator& b) { return !(a.it == b.it); }
};
#endif
