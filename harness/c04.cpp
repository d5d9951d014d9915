// Polymorphic objects behind pointers of generated hierarchies.
#include "allocs.h"
#include "poly.h"
#include "ser.h"
using namespace ser;

namespace {
struct Written {
  std::vector<const Ops*> os;
  std::vector<std::shared_ptr<void>> vs;
};
Written gen_values(pbt::Case& c, model::Gen& g, std::size_t n, long budget) {
  Written w;
  for (std::size_t i = 0; i < n; i++) {
    w.os.push_back(&types()[c.src.below(types().size())]);
    g.budget = budget;
    w.vs.push_back(w.os[i]->make());
    w.os[i]->gen(g, w.vs[i].get());
    c.note(w.os[i]->name, " = ", cut(w.os[i]->show(w.vs[i].get()), 250), "; ");
  }
  return w;
}
}  // namespace

// Round trip of several pointers on one stream: classes, contents and sharing.
PBT_ARM(round_trip, 12000, 800000) {
  model::Gen g(c), dirty(c);
  dirty.budget = 10;
  auto w = gen_values(c, g, 1 + c.src.below(5), 40);
  LibEnc e;
  model::Enc r;
  e.big = r.big = c.src.coin();
  for (std::size_t i = 0; i < w.os.size(); i++) {
    w.os[i]->enc(w.vs[i].get(), e);
    w.os[i]->ref_enc(w.vs[i].get(), r);
  }
  PBT_CHECK(c, e.out == r.out, "bytes", pbt::hex(r.out, 400) << " vs " << pbt::hex(e.out, 400));
  c.nontrivial(r.classes.size() > 1);
  if (r.classes.size() > 3) c.label("over-3-classes");
  LibDec d(e.out, e.big);
  model::Eq q;
  std::vector<std::shared_ptr<void>> keep;
  for (std::size_t i = 0; i < w.os.size(); i++) {
    auto dst = w.os[i]->make();
    if (c.src.coin()) w.os[i]->gen(dirty, dst.get());
    keep.push_back(dst);
    try {
      w.os[i]->dec(dst.get(), d);
    } catch (const std::exception& x) {
      c.fail("decode-throws", PBT_STR_(w.os[i]->name << ": " << x.what()));
    }
    PBT_CHECK(c, w.os[i]->eq(w.vs[i].get(), dst.get(), q), "value-differs",
              w.os[i]->name << ": wrote " << cut(w.os[i]->show(w.vs[i].get())) << " read "
                            << cut(w.os[i]->show(dst.get())));
  }
  PBT_CHECK(c, d.rest() == 0, "not-all-consumed", "");
}

// Streams whose class names, hashes, ids or bytes were changed, and data read
// through other pointer types.
PBT_ARM(tampered, 40000, 1500000) {
  model::Gen g(c);
  auto w = gen_values(c, g, 1 + c.src.below(3), 12);
  struct Limit {
    Limit() { allocs::max_size = 16 << 20; }
    ~Limit() { allocs::max_size = std::size_t{1} << 40; }
  } limit;
  model::Enc r;
  r.big = c.src.coin();
  auto kind = c.src.weighted({6, 2, 2});
  auto at = c.src.below(6);
  auto what = c.src.below(7);
  bool done = false;
  std::size_t seen = 0;
  if (kind == 0) {
    r.sabotage = [&](model::Enc& e, int cls) {
      if (seen++ != at) return false;
      done = true;
      auto& other = model::polys()[c.src.below(model::polys().size())];
      auto write = [&](std::size_t id, const std::string& name, std::uint32_t hash) {
        e.size(id);
        model::M<std::string>::enc(name, e);
        e.raw(&hash, 4);
      };
      auto& own = model::polys()[cls];
      auto next = e.classes.size() - 1;
      switch (what) {
        case 0:  // unknown class
          write(next, c.src.coin() ? "u::K99" : c.src.bytes_upto(12), own.hash);
          break;
        case 1:  // another class, consistently
          write(next, other.name, other.hash);
          break;
        case 2:  // another class' name with this class' hash
          write(next, other.name, own.hash);
          break;
        case 3:  // wrong hash
          write(next, own.name, own.hash ^ (1u << c.src.below(32)));
          break;
        case 4:  // wrong id
          e.size(c.src.below(e.classes.size() + 3));
          break;
        case 5:  // id too large, with a name
          write(next + 1 + c.src.below(3), own.name, own.hash);
          break;
        default:  // name with something appended or cut
          write(next, c.src.coin() ? own.name + std::string(1, '\0') : own.name.substr(0, own.name.size() - 1), own.hash);
      }
      return true;
    };
  }
  for (std::size_t i = 0; i < w.os.size(); i++) w.os[i]->ref_enc(w.vs[i].get(), r);
  auto s = r.out;
  std::vector<const Ops*> as = w.os;
  if (kind == 1 && !s.empty()) {
    auto n = 1 + c.src.below(3);
    while (n--) s[c.src.below(s.size())] = static_cast<char>(c.src.coin() ? c.src.byte() : c.src.below(6));
  }
  if (kind == 2 || c.src.chance(1, 6)) {
    auto i = c.src.below(as.size());
    as[i] = &types()[c.src.below(types().size())];
    c.note(" read as ", as[i]->name);
  }
  if (done) c.note(" (class reference ", at, " changed: ", what, ")");
  c.nontrivial(s.size() > 3);
  model::Dec rd(s, r.big);
  LibDec d(s, r.big);
  model::Eq q;
  std::vector<std::shared_ptr<void>> keep;
  for (auto* o : as) {
    auto x = o->make(), y = o->make();
    keep.push_back(x);
    keep.push_back(y);
    std::optional<model::Bad> want;
    try {
      o->ref_dec(x.get(), rd);
    } catch (model::Bad b) {
      want = b;
    }
    std::string got;
    bool lib = false;
    try {
      o->dec(y.get(), d);
    } catch (const arpc::errors::base_error& e) {
      got = std::string("error ") + e.what();
      lib = true;
    } catch (const std::bad_alloc&) {
      // A size above the allocation limit, found before whatever else is wrong.
      got = "bad_alloc";
      lib = true;
    } catch (const std::length_error&) {
      got = "length_error";
      lib = true;
    } catch (const std::exception& e) {
      got = std::string("exception ") + e.what();
    }
    if (want) {
      PBT_CHECK(c, !got.empty(), "accepted-bad",
                o->name << " from " << pbt::hex(s, 300) << " gave " << cut(o->show(y.get())));
      if (*want == model::Bad::mismatch)
        PBT_CHECK(c, lib, "not-a-library-error", o->name << " from " << pbt::hex(s, 300) << ": " << got);
      c.label(*want == model::Bad::mismatch ? "rejected-mismatch" : "rejected-eof");
      return;
    }
    PBT_CHECK(c, got.empty(), "rejected-good", o->name << " from " << pbt::hex(s, 300) << ": " << got);
    PBT_CHECK(c, o->eq(x.get(), y.get(), q), "misread",
              o->name << " from " << pbt::hex(s, 300) << ": expected " << cut(o->show(x.get())) << " got "
                      << cut(o->show(y.get())));
  }
  PBT_CHECK(c, d.rest() == static_cast<std::size_t>(rd.e - rd.p), "consumed", "");
  c.label("accepted");
}

// Classes the registry does not know.
namespace {
struct Hidden : arpc::dynamic_base_class {
  std::string n = "u::hidden";
  std::string_view portable_class_name_internal() const override { return n; }
};
}  // namespace
PBT_ARM(unregistered, 300, 5000) {
  static const char* names[] = {"u::hidden", "", "u::K99", "K01", "u::k01", "U::K01"};
  auto h = std::make_shared<Hidden>();
  h->n = names[c.src.below(6)];
  for (auto& p : model::polys())
    if (p.name == h->n) h->n += "?";
  c.note("encode an object of class '", h->n, "'");
  c.nontrivial();
  LibEnc e;
  e.big = c.src.coin();
  bool shared = c.src.coin();
  try {
    if (shared) {
      std::shared_ptr<arpc::dynamic_base_class> p = h;
      e.big ? e.be(p) : e.le(p);
    } else {
      auto o = std::make_unique<Hidden>();
      o->n = h->n;
      std::unique_ptr<arpc::dynamic_base_class> p = std::move(o);
      e.big ? e.be(p) : e.le(p);
    }
  } catch (const arpc::errors::base_error&) {
    return;
  }
  c.fail("encoded", "an unregistered class was encoded");
}
