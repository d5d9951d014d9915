// The encoded bytes against the reference encoder, and equivalent types.
#include "ser.h"
using namespace ser;

static std::string difference(const std::string& want, const std::string& got) {
  std::size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  return PBT_STR_("at byte " << i << " of " << want.size() << "/" << got.size() << ": expected "
                             << pbt::hex(std::string_view(want).substr(i), 24) << " got "
                             << pbt::hex(std::string_view(got).substr(i), 24));
}

// Every byte of a stream of values, in both byte orders.
PBT_ARM(reference_bytes, 16000, 500000) {
  model::Gen g(c);
  auto n = 1 + c.src.below(3);
  std::vector<const Ops*> os;
  std::vector<std::shared_ptr<void>> vs;
  for (std::size_t i = 0; i < n; i++) {
    os.push_back(&types()[c.src.below(types().size())]);
    g.budget = 250;
    vs.push_back(os[i]->make());
    os[i]->gen(g, vs[i].get());
    c.note(os[i]->name, " = ", cut(os[i]->show(vs[i].get()), 200), "; ");
  }
  for (bool big : {false, true}) {
    LibEnc e;
    e.big = big;
    model::Enc r;
    r.big = big;
    for (std::size_t i = 0; i < n; i++) {
      os[i]->enc(vs[i].get(), e);
      os[i]->ref_enc(vs[i].get(), r);
      PBT_CHECK(c, e.out == r.out, big ? "bytes-big" : "bytes-little",
                os[i]->name << " " << cut(os[i]->show(vs[i].get())) << " " << difference(r.out, e.out));
    }
    if (r.size_groups) c.label("multi-byte-size");
    c.nontrivial(r.out.size() > 8);
    // A second encoding is the same.
    LibEnc again;
    again.big = big;
    for (std::size_t i = 0; i < n; i++) os[i]->enc(vs[i].get(), again);
    PBT_CHECK(c, again.out == e.out, "not-deterministic", os[0]->name);
  }
}

// A value encoded as one type and decoded as an equivalent one.
PBT_ARM(equivalent_types, 12000, 400000) {
  const Ops* a = nullptr;
  for (;;) {
    a = &types()[c.src.below(types().size())];
    if (a->variant >= 0) break;
  }
  const Ops* b = &types()[a->variant];
  bool swapped = c.src.coin();
  if (swapped) std::swap(a, b);
  model::Gen g(c), dirty(c);
  dirty.budget = 30;
  auto v = a->make();
  a->gen(g, v.get());
  LibEnc e;
  e.big = c.src.coin();
  a->enc(v.get(), e);
  c.note(a->name, " = ", cut(a->show(v.get()), 200), " read as ", b->name);
  c.nontrivial(a->name != b->name && e.out.size() > 2);
  auto w = b->make();
  if (c.src.coin()) b->gen(dirty, w.get());
  LibDec d(e.out, e.big);
  try {
    b->dec(w.get(), d);
  } catch (const std::exception& x) {
    c.fail("decode-throws", PBT_STR_(a->name << " as " << b->name << ": " << x.what()));
  }
  PBT_CHECK(c, d.rest() == 0, "not-all-consumed", a->name << " as " << b->name);
  auto sa = a->show(v.get()), sb = b->show(w.get());
  PBT_CHECK(c, sa == sb, "value-differs", a->name << " as " << b->name << ": " << cut(sa) << " became " << cut(sb));
  if (!a->unordered && !b->unordered) {
    LibEnc f;
    f.big = e.big;
    b->enc(w.get(), f);
    PBT_CHECK(c, e.out == f.out, "bytes-differ", a->name << " and " << b->name << " " << difference(e.out, f.out));
  }
  // A string view and a string of the same characters are encoded alike.
  if (c.src.chance(1, 4)) {
    auto s = c.src.bytes_upto(2000);
    LibEnc x, y;
    x.le(s);
    y.le(std::string_view(s));
    PBT_CHECK(c, x.out == y.out, "string-view", difference(x.out, y.out));
    LibDec dd(y.out, false);
    std::string t = "old";
    dd.le(t);
    PBT_CHECK(c, t == s, "string-view", "read back differently");
  }
}

// Sizes as groups of 7 bits, in both byte orders.
PBT_ARM(sizes, 4000, 100000) {
  auto n = c.src.chance(1, 20) ? static_cast<std::size_t>(c.src.range<std::uint64_t>(2097100, 2097200))
                               : static_cast<std::size_t>(c.src.range<std::uint64_t>(0, 20000));
  if (c.src.coin()) n = c.src.length(20000);
  std::string s(n, 'x');
  model::Enc r;
  model::M<std::string>::enc(s, r);
  for (bool big : {false, true}) {
    LibEnc e;
    big ? e.be(s) : e.le(s);
    PBT_CHECK(c, e.out == r.out, "bytes", "string of " << n << (big ? " big " : " little ") << difference(r.out, e.out));
    LibDec d(e.out, big);
    std::string t;
    big ? d.be(t) : d.le(t);
    PBT_CHECK(c, t == s, "value-differs", "string of " << n);
  }
  c.note("string of ", n);
  c.nontrivial(n > 127);
}
