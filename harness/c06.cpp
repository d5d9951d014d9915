// Structure verification.
#include "allocs.h"
#include "ser.h"
using namespace ser;

namespace {
std::string hash_bytes(std::uint32_t h, bool big) {
  std::string s;
  for (int i = 0; i < 4; i++) s.push_back(static_cast<char>(h >> (big ? 24 - 8 * i : 8 * i)));
  return s;
}
const Ops& pick(pbt::Case& c) {
  for (;;) {
    auto& o = types()[c.src.below(types().size())];
    if (o.venc) return o;
  }
}
}  // namespace

// Verification puts the hash in front of the plain bytes and nothing else, also
// within a longer stream.
PBT_ARM(prefix, 10000, 300000) {
  LibEnc e;
  model::Enc r;
  e.big = r.big = c.src.coin();
  model::Gen g(c);
  auto n = 1 + c.src.below(3);
  std::vector<const Ops*> os;
  std::vector<std::shared_ptr<void>> vs;
  std::vector<bool> ver;
  for (std::size_t i = 0; i < n; i++) {
    os.push_back(&pick(c));
    g.budget = 100;
    vs.push_back(os[i]->make());
    os[i]->gen(g, vs[i].get());
    ver.push_back(c.src.chance(3, 4));
    if (ver[i]) {
      os[i]->venc(vs[i].get(), e);
      r.out += hash_bytes(os[i]->hash(), r.big);
    } else {
      os[i]->enc(vs[i].get(), e);
    }
    os[i]->ref_enc(vs[i].get(), r);
    c.note(ver[i] ? "verified " : "plain ", os[i]->name, "; ");
    PBT_CHECK(c, e.out == r.out, "bytes", os[i]->name << (ver[i] ? " verified" : " plain") << ": "
                                                      << pbt::hex(r.out) << " vs " << pbt::hex(e.out));
  }
  c.nontrivial(e.out.size() > 5);
  LibDec d(e.out, e.big);
  model::Eq q;
  std::vector<std::shared_ptr<void>> keep;
  for (std::size_t i = 0; i < n; i++) {
    auto w = os[i]->make();
    keep.push_back(w);
    try {
      ver[i] ? os[i]->vdec(w.get(), d) : os[i]->dec(w.get(), d);
    } catch (const std::exception& x) {
      c.fail("decode-throws", PBT_STR_(os[i]->name << ": " << x.what()));
    }
    PBT_CHECK(c, os[i]->eq(vs[i].get(), w.get(), q), "value-differs", os[i]->name);
  }
  PBT_CHECK(c, d.rest() == 0, "not-all-consumed", "");
}

// Reading as another type: accepted exactly if the hashes agree.
PBT_ARM(other_type, 25000, 900000) {
  const Ops& a = pick(c);
  const Ops* b = &pick(c);
  if (a.variant >= 0 && c.src.chance(1, 3)) b = &types()[a.variant];
  LibEnc e;
  e.big = c.src.coin();
  model::Gen g(c), dg(c);
  g.budget = 60;
  dg.budget = 20;
  auto v = a.make();
  a.gen(g, v.get());
  a.venc(v.get(), e);
  if (c.src.chance(1, 8)) {
    // A damaged hash.
    e.out[c.src.below(4)] ^= static_cast<char>(1 << c.src.below(8));
    c.label("damaged-hash");
  }
  std::uint32_t written = 0;
  for (int i = 0; i < 4; i++)
    written |= static_cast<std::uint32_t>(static_cast<unsigned char>(e.out[e.big ? 3 - i : i])) << (8 * i);
  auto w = b->make();
  b->gen(dg, w.get());
  auto before = b->show(w.get());
  c.note(a.name, " read as ", b->name, written == b->hash() ? " (same hash)" : " (other hash)");
  // Types whose hashes collide may find any size.
  struct Limit {
    Limit() { allocs::max_size = 16 << 20; }
    ~Limit() { allocs::max_size = std::size_t{1} << 40; }
  } limit;
  LibDec d(e.out, e.big);
  std::string err;
  bool mismatch = false;
  try {
    b->vdec(w.get(), d);
  } catch (const arpc::errors::data_mismatch& x) {
    err = x.what();
    mismatch = true;
  } catch (const std::exception& x) {
    err = x.what();
  }
  if (written != b->hash()) {
    c.nontrivial();
    PBT_CHECK(c, mismatch, "not-rejected", a.name << " as " << b->name << ": " << (err.empty() ? "accepted" : err));
    PBT_CHECK(c, b->show(w.get()) == before, "modified-before-rejected", a.name << " as " << b->name);
    PBT_CHECK(c, e.out.size() - d.rest() == 4, "consumed", "more than the hash was read");
    c.label("rejected");
  } else {
    // What a plain read of the same bytes does.
    LibDec p(e.out.substr(4), e.big);
    auto x = b->make();
    std::string perr;
    try {
      b->dec(x.get(), p);
    } catch (const std::exception& z) {
      perr = z.what();
    }
    PBT_CHECK(c, err.empty() == perr.empty(), "differs-from-plain", a.name << " as " << b->name << ": " << err << "/" << perr);
    if (err.empty()) {
      PBT_CHECK(c, b->show(x.get()) == b->show(w.get()), "differs-from-plain", a.name << " as " << b->name);
      PBT_CHECK(c, p.rest() == d.rest(), "differs-from-plain", "consumed");
    }
    if (written == a.hash() && (b == &a || (a.variant >= 0 && &types()[a.variant] == b))) {
      PBT_CHECK(c, err.empty() && b->show(w.get()) == a.show(v.get()), "value-differs",
                a.name << " as " << b->name << ": " << cut(a.show(v.get())) << " became " << cut(b->show(w.get())));
      c.label(b == &a ? "same-type" : "equivalent-type");
      c.nontrivial(b != &a);
    }
  }
}

// Equivalent types have the same hash; without enough bytes for it, end of file.
PBT_ARM(hashes, 4000, 60000) {
  const Ops& a = pick(c);
  c.note(a.name);
  if (a.variant >= 0) {
    auto& b = types()[a.variant];
    c.note(" and ", b.name);
    c.nontrivial(b.name != a.name);
    PBT_CHECK(c, a.hash() == b.hash(), "equivalent-types", a.name << " and " << b.name);
  }
  auto n = c.src.below(4);
  LibDec d(std::string(n, '\x11'), c.src.coin());
  auto w = a.make();
  try {
    a.vdec(w.get(), d);
    c.fail("short-hash", "accepted");
  } catch (const arpc::errors::eof&) {
  }
}
