// Round trip of sequences of values of generated types.
#include "ser.h"
using namespace ser;

static const Ops& pick_type(pbt::Case& c) { return types()[c.src.below(types().size())]; }

static std::shared_ptr<void> gen_value(const Ops& o, model::Gen& g) {
  auto p = o.make();
  o.gen(g, p.get());
  return p;
}

// A sequence of values on one stream, into destinations that held something else.
PBT_ARM(sequence, 12000, 400000) {
  LibEnc e;
  e.big = c.src.coin();
  model::Gen g(c), dirty(c);
  dirty.budget = 60;
  auto n = 1 + c.src.below(4);
  std::vector<const Ops*> os;
  std::vector<std::shared_ptr<void>> vs;
  c.note(e.big ? "big endian:" : "little endian:");
  std::vector<std::size_t> ends;
  for (std::size_t i = 0; i < n; i++) {
    os.push_back(&pick_type(c));
    g.budget = 300;
    vs.push_back(gen_value(*os[i], g));
    os[i]->enc(vs[i].get(), e);
    ends.push_back(e.out.size());
    c.note(" ", os[i]->name, " = ", cut(os[i]->show(vs[i].get()), 200), ";");
  }
  c.nontrivial(e.out.size() > 8);
  if (e.out.size() > 16384) c.label("over-16KiB");
  LibDec d(e.out, e.big);
  model::Eq q;
  std::vector<std::shared_ptr<void>> keep;
  for (std::size_t i = 0; i < n; i++) {
    auto dst = os[i]->make();
    if (c.src.coin()) {
      os[i]->gen(dirty, dst.get());
      c.label("dirty-destination");
    }
    keep.push_back(dst);
    try {
      os[i]->dec(dst.get(), d);
    } catch (const std::exception& x) {
      c.fail("decode-throws", PBT_STR_(os[i]->name << ": " << x.what()));
    }
    PBT_CHECK(c, os[i]->eq(vs[i].get(), dst.get(), q), "value-differs",
              os[i]->name << ": wrote " << cut(os[i]->show(vs[i].get())) << " read "
                          << cut(os[i]->show(dst.get())));
  }
  auto rest = d.rest();
  PBT_CHECK(c, rest == 0, "not-all-consumed", rest << " bytes left of " << e.out.size());
}

// One destination object decoded into over and over.
PBT_ARM(reused_destination, 4000, 120000) {
  const Ops& o = pick_type(c);
  bool big = c.src.coin();
  auto dst = o.make();
  auto n = 2 + c.src.below(4);
  c.note(o.name, big ? " big" : " little");
  for (std::size_t i = 0; i < n; i++) {
    LibEnc e;
    e.big = big;
    model::Gen g(c);
    g.budget = 80;
    auto v = gen_value(o, g);
    o.enc(v.get(), e);
    c.note(" ", cut(o.show(v.get()), 150));
    LibDec d(e.out, big);
    try {
      o.dec(dst.get(), d);
    } catch (const std::exception& x) {
      c.fail("decode-throws", PBT_STR_(o.name << ": " << x.what()));
    }
    model::Eq q;
    PBT_CHECK(c, o.eq(v.get(), dst.get(), q), "value-differs",
              o.name << ": wrote " << cut(o.show(v.get())) << " read " << cut(o.show(dst.get())));
    PBT_CHECK(c, d.rest() == 0, "not-all-consumed", o.name);
  }
  c.nontrivial();
}

// Sizes around every boundary of the size encoding, up to millions of elements.
PBT_ARM(large_sizes, 300, 6000) {
  static const std::size_t base[] = {0, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 2097151, 2097152};
  auto n = base[c.src.below(std::size(base))] + c.src.below(3);
  bool big = c.src.coin();
  std::uint64_t st = c.src.draw(~0ull);
  auto go = [&](auto v, const char* name) {
    using T = decltype(v);
    for (std::size_t i = 0; i < n; i++)
      v.push_back(static_cast<typename T::value_type>(pbt::splitmix(st)));
    c.note(name, " of ", n, " elements");
    LibEnc e;
    e.big = big;
    T got{1, 0, 1};
    if (big)
      e.be(v);
    else
      e.le(v);
    LibDec d(e.out, big);
    if (big)
      d.be(got);
    else
      d.le(got);
    PBT_CHECK(c, got == v, "value-differs", name << " of " << n);
    PBT_CHECK(c, d.rest() == 0, "not-all-consumed", name << " of " << n);
  };
  c.nontrivial(n > 127);
  switch (c.src.below(6)) {
    case 0:
      return go(std::string(), "string");
    case 1:
      return go(std::vector<std::uint16_t>(), "vector<u16>");
    case 2:
      return go(std::vector<bool>(), "vector<bool>");
    case 3:
      return go(std::deque<std::uint8_t>(), "deque<u8>");
    case 4:
      if (n > 70000) n = 70000;
      return go(std::list<std::int32_t>(), "list<i32>");
    default:
      return go(std::basic_string<char32_t>(), "u32string");
  }
}

// Recursive structures (their structure hash is not defined through containers, see C07).
namespace {
struct Tree : arpc::serializable<Tree> {
  std::int32_t v = 0;
  std::unique_ptr<Tree> left;
  std::vector<Tree> kids;
  std::map<std::string, std::unique_ptr<Tree>> named;
  ARPC_FIELDS(v, left, kids, named)
};
struct Lst : arpc::serializable<Lst> {
  std::uint16_t v = 0;
  std::unique_ptr<Lst> next;
  template <typename S>
  void save(S& s) const {
    s(v);
    s(next);
  }
  template <typename S>
  void load(S& s) {
    s(v);
    s(next);
  }
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
};
void gen_tree(pbt::Case& c, Tree& t, int depth, int& budget) {
  t.v = c.src.integer<std::int32_t>();
  if (depth > 6 || budget <= 0) return;
  budget--;
  if (c.src.coin()) {
    t.left = std::make_unique<Tree>();
    gen_tree(c, *t.left, depth + 1, budget);
  }
  auto n = c.src.below(3);
  for (std::size_t i = 0; i < n; i++) {
    t.kids.emplace_back();
    gen_tree(c, t.kids.back(), depth + 1, budget);
  }
  n = c.src.below(2);
  for (std::size_t i = 0; i < n; i++) {
    auto& p = t.named["k" + std::to_string(c.src.below(5))];
    if (c.src.coin()) {
      p = std::make_unique<Tree>();
      gen_tree(c, *p, depth + 1, budget);
    }
  }
}
std::string show_tree(const Tree& t) {
  std::string s = std::to_string(t.v) + "(" + (t.left ? show_tree(*t.left) : "-") + ")[";
  for (auto& k : t.kids) s += show_tree(k) + ",";
  s += "]{";
  for (auto& [k, v] : t.named) s += k + ":" + (v ? show_tree(*v) : "-") + ",";
  return s + "}";
}
}  // namespace
PBT_ARM(recursive, 3000, 100000) {
  bool big = c.src.coin();
  Tree t, d;
  int budget = 30, b2 = 5;
  gen_tree(c, t, 0, budget);
  gen_tree(c, d, 0, b2);
  Lst l, ld;
  auto* p = &l;
  auto n = c.src.length(300);
  for (std::size_t i = 0; i < n; i++) {
    p->v = static_cast<std::uint16_t>(i * 77);
    p->next = std::make_unique<Lst>();
    p = p->next.get();
  }
  LibEnc e;
  if (big) {
    e.be(t);
    e.be(l);
  } else {
    e.le(t);
    e.le(l);
  }
  LibDec in(e.out, big);
  if (big) {
    in.be(d);
    in.be(ld);
  } else {
    in.le(d);
    in.le(ld);
  }
  c.note(cut(show_tree(t)), " and a list of ", n);
  c.nontrivial(n > 1 || !t.kids.empty());
  PBT_CHECK(c, show_tree(t) == show_tree(d), "value-differs", show_tree(t) << " read as " << show_tree(d));
  auto *x = &l, *y = &ld;
  for (;; x = x->next.get(), y = y->next.get()) {
    PBT_CHECK(c, x->v == y->v && !x->next == !y->next, "value-differs", "list of " << n);
    if (!x->next) break;
  }
  PBT_CHECK(c, in.rest() == 0, "not-all-consumed", "recursive");
}
