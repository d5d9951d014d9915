#include "arpc/highway_hash.h"
#include "hash_util.h"
#include "pbt.h"
using arpc::highway_hash;

namespace {
struct Result {
  std::uint64_t a;
  std::array<std::uint64_t, 2> b;
  std::array<std::uint64_t, 4> d;
};
Result once(const std::string& m, const std::array<std::uint64_t, 4>& k) {
  Result r;
  auto* p = reinterpret_cast<const std::uint8_t*>(m.data());
  r.a = highway_hash::hash64(p, m.size(), k.data());
  highway_hash::hash128(p, m.size(), k.data(), r.b.data());
  highway_hash::hash256(p, m.size(), k.data(), r.d.data());
  return r;
}
struct Obj {
  highway_hash h;
  std::array<std::uint64_t, 4> key;
  std::string fed;
};
}  // namespace

// A history over several hash objects: append, read any result (repeatedly),
// copy, assign, reset. Model: the bytes fed since the last reset.
PBT_ARM(history, 25000, 1200000) {
  std::vector<Obj> objs;
  auto k0 = gen_key(c);
  objs.push_back({highway_hash(k0.data()), k0, ""});
  std::size_t ops = c.src.range<std::uint64_t>(1, 24);
  bool appended_after_read = false, read = false, copied = false;
  for (std::size_t i = 0; i < ops; i++) {
    std::size_t w = c.src.below(objs.size());
    Obj& o = objs[w];
    switch (c.src.weighted({8, 5, 2, 1, 1})) {
      case 0: {
        auto n = gen_piece(c, 200);
        auto s = c.src.bytes(n);
        std::vector<std::uint8_t> v(s.begin(), s.end());
        o.h.append(v.data(), v.size());
        o.fed += s;
        c.note(" append[", w, "] ", n);
        appended_after_read |= read && n;
        break;
      }
      case 1: {
        auto want = once(o.fed, o.key);
        int what = static_cast<int>(c.src.below(3));
        int times = 1 + static_cast<int>(c.src.below(2));
        c.note(" read", 64 << what, "[", w, "]x", times);
        while (times--) {
          if (what == 0) {
            PBT_CHECK(c, o.h.finish64() == want.a, "finish64", "after " << o.fed.size() << " bytes");
          } else if (what == 1) {
            std::array<std::uint64_t, 2> g;
            o.h.finish128(g.data());
            PBT_CHECK(c, g == want.b, "finish128", "after " << o.fed.size() << " bytes");
          } else {
            std::array<std::uint64_t, 4> g;
            o.h.finish256(g.data());
            PBT_CHECK(c, g == want.d, "finish256", "after " << o.fed.size() << " bytes");
          }
        }
        read = true;
        break;
      }
      case 2:
        if (objs.size() < 4) {
          Obj n = o;
          objs.push_back(n);
          c.note(" copy[", w, "]");
          copied = true;
        }
        break;
      case 3: {
        auto k = c.src.coin() ? gen_key(c) : o.key;
        o.h.reset(k.data());
        o.key = k;
        o.fed.clear();
        c.note(" reset[", w, "]");
        c.label("reset");
        break;
      }
      default: {
        std::size_t v = c.src.below(objs.size());
        Obj tmp = objs[v];
        objs[w] = tmp;
        c.note(" assign[", w, "]=[", v, "]");
        copied = true;
      }
    }
  }
  for (auto& o : objs) {
    auto want = once(o.fed, o.key);
    PBT_CHECK(c, o.h.finish64() == want.a, "finish64", "at the end, after " << o.fed.size() << " bytes");
    std::array<std::uint64_t, 2> g;
    o.h.finish128(g.data());
    PBT_CHECK(c, g == want.b, "finish128", "at the end");
    std::array<std::uint64_t, 4> d;
    o.h.finish256(d.data());
    PBT_CHECK(c, d == want.d, "finish256", "at the end");
  }
  if (appended_after_read) c.label("append-after-read");
  if (copied) c.label("copied");
  c.nontrivial(appended_after_read || copied || objs[0].fed.size() > 32);
}

// Every split of a message into two pieces.
PBT_ARM(all_splits, 400, 20000) {
  auto k = gen_key(c);
  auto m = c.src.bytes(static_cast<std::size_t>(c.src.range<std::uint64_t>(0, 140)));
  auto want = once(m, k);
  c.note("all two-piece splits of ", m.size(), " bytes ", pbt::hex(m));
  c.nontrivial(m.size() > 1);
  for (std::size_t i = 0; i <= m.size(); i++) {
    highway_hash h(k.data());
    std::vector<std::uint8_t> a(m.begin(), m.begin() + i), b(m.begin() + i, m.end());
    h.append(a.data(), a.size());
    h.append(b.data(), b.size());
    PBT_CHECK(c, h.finish64() == want.a, "split64", "split at " << i);
    std::array<std::uint64_t, 4> d;
    h.finish256(d.data());
    PBT_CHECK(c, d == want.d, "split256", "split at " << i);
  }
}
