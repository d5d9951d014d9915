// Graphs of shared, weak and unique pointers: the library's encoding against
// the reference one, isomorphism of what is read, and the lifetime of every
// object once the decoder is gone.
#include "poly.h"
#include "ser.h"

namespace g {
struct Tracked;
std::set<Tracked*>& alive() {
  static std::set<Tracked*> s;
  return s;
}
struct Edges {
  std::vector<Tracked*> strong, weak, owned;
};
/// Every object of the graph that can be the target of a pointer.
struct Tracked {
  int uid = 0;
  Tracked() { alive().insert(this); }
  Tracked(const Tracked&) = delete;
  virtual ~Tracked() { alive().erase(this); }
  virtual void edges(Edges&) const = 0;
  virtual void drop() = 0;
  virtual int* id() = 0;
};
struct D;
struct D2;
/// What dynamic classes point to: classes that contain themselves through a
/// container have no structure hash (see C07), which registration needs.
struct Link : arpc::serializable<Link>, Tracked {
  int n = 0;
  std::shared_ptr<Link> a;
  std::weak_ptr<Link> w;
  std::unique_ptr<Link> u;
  std::pair<std::shared_ptr<Link>, std::optional<std::shared_ptr<Link>>> pr;
  std::shared_ptr<D> d;
  ARPC_FIELDS(n, a, w, u, pr, d)
  void edges(Edges& e) const override;
  void drop() override;
  int* id() override { return &n; }
};
struct Node : arpc::serializable<Node>, Tracked {
  int n = 0;
  std::shared_ptr<Node> a, b;
  std::weak_ptr<Node> w;
  std::unique_ptr<Node> u;
  std::vector<std::shared_ptr<Node>> kids;
  std::list<std::weak_ptr<Node>> peers;
  std::map<std::string, std::shared_ptr<Node>> named;
  std::optional<std::shared_ptr<Node>> opt;
  std::pair<std::shared_ptr<Node>, std::weak_ptr<Node>> pr;
  std::array<std::shared_ptr<Node>, 2> arr;
  std::shared_ptr<int> num;
  std::weak_ptr<std::string> text;
  std::shared_ptr<D> d;
  std::weak_ptr<D2> wd2;
  std::shared_ptr<arpc::dynamic_base_class> any;
  std::deque<std::weak_ptr<Link>> links;
  ARPC_FIELDS(n, a, b, w, u, kids, peers, named, opt, pr, arr, num, text, d, wd2, any, links)
  void edges(Edges& e) const override;
  void drop() override;
  int* id() override { return &n; }
};
struct D : arpc::dynamic<D>, Tracked {
  int n = 0;
  std::shared_ptr<Link> node;
  std::shared_ptr<D> next;
  std::weak_ptr<D> prev;
  ARPC_FIELDS(n, node, next, prev)
  void edges(Edges& e) const override;
  void drop() override;
  int* id() override { return &n; }
};
struct Side : arpc::serializable<Side> {
  long pad[3] = {1, 2, 3};
  std::shared_ptr<int> num;
  ARPC_FIELDS(pad, num)
};
struct D2 : arpc::serializable<D2, D> {
  std::unique_ptr<D> own;
  std::shared_ptr<D2> same;
  ARPC_FIELDS(own, same)
  void edges(Edges& e) const override;
  void drop() override;
};
/// The dynamic base is not at the start of the object.
struct D3 : arpc::serializable<D3, Side, D> {
  std::weak_ptr<D3> self;
  std::shared_ptr<arpc::dynamic_base_class> any;
  ARPC_FIELDS(self, any)
  void edges(Edges& e) const override;
  void drop() override;
};
template <typename T>
void put(std::vector<Tracked*>& v, const std::shared_ptr<T>& p) {
  if (p) v.push_back(dynamic_cast<Tracked*>(p.get()));
}
template <typename T>
void put(std::vector<Tracked*>& v, const std::weak_ptr<T>& p) {
  if (auto s = p.lock()) v.push_back(dynamic_cast<Tracked*>(s.get()));
}
void Link::edges(Edges& e) const {
  put(e.strong, a);
  put(e.weak, w);
  if (u) e.owned.push_back(u.get());
  put(e.strong, pr.first);
  if (pr.second) put(e.strong, *pr.second);
  put(e.strong, d);
}
void Link::drop() {
  auto x = std::make_tuple(std::move(a), std::move(u), std::move(pr), std::move(d));
  pr.second.reset();
}
void Node::edges(Edges& e) const {
  put(e.strong, a);
  put(e.strong, b);
  put(e.weak, w);
  if (u) e.owned.push_back(u.get());
  for (auto& k : kids) put(e.strong, k);
  for (auto& k : peers) put(e.weak, k);
  for (auto& k : named) put(e.strong, k.second);
  if (opt) put(e.strong, *opt);
  put(e.strong, pr.first);
  put(e.weak, pr.second);
  put(e.strong, arr[0]);
  put(e.strong, arr[1]);
  put(e.strong, d);
  put(e.weak, wd2);
  put(e.strong, any);
  for (auto& l : links) put(e.weak, l);
}
void Node::drop() {
  auto x = std::make_tuple(std::move(a), std::move(b), std::move(kids), std::move(named), std::move(opt),
                           std::move(pr), std::move(arr), std::move(d), std::move(any), std::move(u));
  kids.clear();
  named.clear();
  opt.reset();
}
void D::edges(Edges& e) const {
  put(e.strong, node);
  put(e.strong, next);
  put(e.weak, prev);
}
void D::drop() { auto x = std::make_tuple(std::move(node), std::move(next)); }
void D2::edges(Edges& e) const {
  D::edges(e);
  if (own) e.owned.push_back(own.get());
  put(e.strong, same);
}
void D2::drop() {
  auto x = std::make_tuple(std::move(own), std::move(same));
  D::drop();
}
void D3::edges(Edges& e) const {
  D::edges(e);
  put(e.weak, self);
  put(e.strong, any);
}
void D3::drop() {
  auto x = std::move(any);
  D::drop();
}
}  // namespace g
ARPC_REGISTER(g::D);
ARPC_REGISTER(g::D2);
ARPC_REGISTER_WITH_NAME("third", g::D3);

namespace model {
#define F(f) &g::Node::f
template <> struct M<g::Node>
    : ClassM<g::Node, Bases<>,
             Ptrs<F(n), F(a), F(b), F(w), F(u), F(kids), F(peers), F(named), F(opt), F(pr), F(arr), F(num), F(text),
                  F(d), F(wd2), F(any), F(links)>> {};
#undef F
template <> struct M<g::Link>
    : ClassM<g::Link, Bases<>,
             Ptrs<&g::Link::n, &g::Link::a, &g::Link::w, &g::Link::u, &g::Link::pr, &g::Link::d>> {};
template <> struct M<g::D> : ClassM<g::D, Bases<>, Ptrs<&g::D::n, &g::D::node, &g::D::next, &g::D::prev>> {};
template <> struct M<g::Side> : ClassM<g::Side, Bases<>, Ptrs<&g::Side::pad, &g::Side::num>> {};
template <> struct M<g::D2> : ClassM<g::D2, Bases<g::D>, Ptrs<&g::D2::own, &g::D2::same>> {};
template <> struct M<g::D3> : ClassM<g::D3, Bases<g::Side, g::D>, Ptrs<&g::D3::self, &g::D3::any>> {};
}  // namespace model

using namespace ser;
using model::M;
namespace {
struct Init {
  Init() {
    using B = arpc::dynamic_base_class;
    model::polys() = {model::poly<g::D, B>("g::D"), model::poly<g::D2, g::D, B>("g::D2"),
                      model::poly<g::D3, g::D, B>("third")};
  }
} init;
/// A value on the stream.
struct Root {
  const Ops* o;
  std::shared_ptr<void> v;
};
template <typename T>
Ops root(const char* n) {
  return ops<T, false>(n, true, false, true, -1, -1);
}
const std::vector<Ops>& roots() {
  static const std::vector<Ops> v{
      root<std::shared_ptr<g::Node>>("shared_ptr<Node>"),
      root<std::shared_ptr<g::Node>>("shared_ptr<Node>"),
      root<std::weak_ptr<g::Node>>("weak_ptr<Node>"),
      root<std::unique_ptr<g::Node>>("unique_ptr<Node>"),
      root<std::vector<std::shared_ptr<g::Node>>>("vector<shared_ptr<Node>>"),
      root<std::shared_ptr<g::D>>("shared_ptr<D>"),
      root<std::unique_ptr<g::D>>("unique_ptr<D>"),
      root<std::shared_ptr<g::D2>>("shared_ptr<D2>"),
      root<std::weak_ptr<g::D3>>("weak_ptr<D3>"),
      root<std::shared_ptr<arpc::dynamic_base_class>>("shared_ptr<dynamic_base_class>"),
      root<std::tuple<std::shared_ptr<int>, std::weak_ptr<std::string>, std::shared_ptr<g::Node>>>(
          "tuple<shared_ptr<int>, weak_ptr<string>, shared_ptr<Node>>"),
      root<std::unique_ptr<g::Link>>("unique_ptr<Link>"),
      root<std::shared_ptr<g::Link>>("shared_ptr<Link>"),
  };
  return v;
}
/// Strong references and owned objects of a root.
void root_edges(const Root& r, g::Edges& e) {
  auto k = r.o - roots().data();
  auto get = [&](auto tag) -> auto& { return *static_cast<typename decltype(tag)::type*>(r.v.get()); };
  namespace m = arpc::mpt;
  using B = arpc::dynamic_base_class;
  switch (k) {
    case 0:
    case 1: put(e.strong, get(m::wrap_type<std::shared_ptr<g::Node>>{})); break;
    case 2: put(e.weak, get(m::wrap_type<std::weak_ptr<g::Node>>{})); break;
    case 3:
      if (auto& p = get(m::wrap_type<std::unique_ptr<g::Node>>{})) e.owned.push_back(p.get());
      break;
    case 4:
      for (auto& p : get(m::wrap_type<std::vector<std::shared_ptr<g::Node>>>{})) put(e.strong, p);
      break;
    case 5: put(e.strong, get(m::wrap_type<std::shared_ptr<g::D>>{})); break;
    case 6:
      if (auto& p = get(m::wrap_type<std::unique_ptr<g::D>>{})) e.owned.push_back(p.get());
      break;
    case 7: put(e.strong, get(m::wrap_type<std::shared_ptr<g::D2>>{})); break;
    case 8: put(e.weak, get(m::wrap_type<std::weak_ptr<g::D3>>{})); break;
    case 9: put(e.strong, get(m::wrap_type<std::shared_ptr<B>>{})); break;
    case 11:
      if (auto& p = get(m::wrap_type<std::unique_ptr<g::Link>>{})) e.owned.push_back(p.get());
      break;
    case 12: put(e.strong, get(m::wrap_type<std::shared_ptr<g::Link>>{})); break;
    case 10: {
      using T = std::tuple<std::shared_ptr<int>, std::weak_ptr<std::string>, std::shared_ptr<g::Node>>;
      put(e.strong, std::get<2>(get(m::wrap_type<T>{})));
    }
  }
}
/// The objects that stay alive once only the roots' references remain.
std::set<g::Tracked*> survivors(const std::vector<Root>& rs) {
  g::Edges top;
  for (auto& r : rs) root_edges(r, top);
  std::set<g::Tracked*> all;
  std::vector<g::Tracked*> todo;
  auto visit = [&](const g::Edges& e) {
    for (auto* v : {&e.strong, &e.weak, &e.owned})
      for (auto* t : *v)
        if (all.insert(t).second) todo.push_back(t);
  };
  visit(top);
  while (!todo.empty()) {
    auto* t = todo.back();
    todo.pop_back();
    g::Edges e;
    t->edges(e);
    visit(e);
  }
  std::map<g::Tracked*, int> refs;
  auto count = [&](const g::Edges& e, int d) {
    for (auto* t : e.strong) refs[t] += d;
    for (auto* t : e.owned) refs[t] += d;
  };
  count(top, 1);
  for (auto* t : all) {
    g::Edges e;
    t->edges(e);
    count(e, 1);
  }
  for (bool again = true; again;) {
    again = false;
    for (auto it = all.begin(); it != all.end();)
      if (refs[*it] == 0) {
        g::Edges e;
        (*it)->edges(e);
        count(e, -1);
        it = all.erase(it);
        again = true;
      } else {
        ++it;
      }
  }
  return all;
}
std::vector<int> ids(const std::vector<g::Tracked*>& v, const std::set<g::Tracked*>* keep = nullptr) {
  std::vector<int> o;
  for (auto* t : v)
    if (!keep || keep->count(t)) o.push_back(*t->id());
  return o;
}
std::string list(const std::set<int>& s) {
  std::string o;
  for (int i : s) o += std::to_string(i) + " ";
  return o;
}
/// Frees the graph, cycles and all.
struct Cleanup {
  ~Cleanup() {
    for (;;) {
      auto n = g::alive().size();
      if (n == 0) return;
      // Owners go with their last reference, so look again each time.
      std::vector<g::Tracked*> v(g::alive().begin(), g::alive().end());
      bool any = false;
      for (auto* t : v)
        if (g::alive().count(t)) {
          g::Edges e;
          t->edges(e);
          if (!e.strong.empty() || !e.owned.empty()) {
            t->drop();
            any = true;
          }
        }
      if (!any) return;
    }
  }
};
}  // namespace

PBT_ARM(graphs, 12000, 500000, false) {
  Cleanup cleanup;
  std::set<int> want_alive;
  std::vector<Root> src, dst;
  {
    model::Gen gen(c);
    gen.cycles = c.src.chance(3, 4);
    model::Enc ref;
    std::vector<std::shared_ptr<void>> witnesses;
    auto n = 1 + c.src.below(5);
    bool deep = c.src.chance(1, 2);
    for (std::size_t i = 0; i < n; i++) {
      auto& o = roots()[c.src.below(roots().size())];
      gen.budget = deep ? 60 : 15;
      Root r{&o, o.make()};
      o.gen(gen, r.v.get());
      src.push_back(r);
      c.note(o.name, " ");
    }
    int uid = 0;
    for (auto* t : g::alive()) *t->id() = ++uid;
    c.note("of ", uid, " objects");
    LibEnc e;
    e.big = ref.big = c.src.coin();
    for (auto& r : src) {
      r.o->enc(r.v.get(), e);
      r.o->ref_enc(r.v.get(), ref);
    }
    PBT_CHECK(c, e.out == ref.out, "bytes", pbt::hex(ref.out, 400) << " vs " << pbt::hex(e.out, 400));
    bool shared = false;
    for (auto& k : gen.pool)
      for (auto& p : k.second)
        if (p.use_count() > 2) shared = true;
    c.nontrivial(shared);
    if (shared) c.label("shared");
    auto keep = survivors(src);
    for (auto* t : keep) want_alive.insert(*t->id());

    auto before = g::alive();
    {
      LibDec d(e.out, e.big);
      model::Eq q;
      std::vector<std::shared_ptr<g::Node>> bystanders;
      for (auto& r : src) {
        Root x{r.o, r.o->make()};
        if (r.o->name == "shared_ptr<Node>" && c.src.coin()) {
          // A destination that shares an object with somebody else.
          auto b = std::make_shared<g::Node>();
          b->n = -7;
          *static_cast<std::shared_ptr<g::Node>*>(x.v.get()) = b;
          bystanders.push_back(b);
        }
        dst.push_back(x);
        try {
          r.o->dec(x.v.get(), d);
        } catch (const std::exception& ex) {
          c.fail("decode-throws", PBT_STR_(r.o->name << ": " << ex.what()));
        }
        PBT_CHECK(c, r.o->eq(r.v.get(), x.v.get(), q), "not-isomorphic",
                  r.o->name << ": wrote " << cut(r.o->show(r.v.get())) << " read " << cut(r.o->show(x.v.get())));
      }
      PBT_CHECK(c, d.rest() == 0, "not-all-consumed", "");
      for (auto& b : bystanders)
        PBT_CHECK(c, b->n == -7 && !b->a && b.use_count() == 1, "bystander-changed",
                  "the object a destination pointed to before was modified or kept");
    }
    // The decoder is gone.
    std::map<int, g::Tracked*> now, then;
    for (auto* t : g::alive())
      if (!before.count(t)) {
        PBT_CHECK(c, now.emplace(*t->id(), t).second, "duplicated", "object " << *t->id() << " was made twice");
      }
    for (auto* t : before) then[*t->id()] = t;
    std::set<int> got_alive;
    for (auto& k : now) got_alive.insert(k.first);
    PBT_CHECK(c, got_alive == want_alive, "lifetime",
              "objects alive after the decoder: " << list(got_alive) << "expected: " << list(want_alive));
    if (want_alive.size() < static_cast<std::size_t>(uid)) c.label("some-expired");
    for (auto& k : now) {
      g::Edges a, b;
      then[k.first]->edges(a);
      k.second->edges(b);
      PBT_CHECK(c, ids(a.strong) == ids(b.strong) && ids(a.owned) == ids(b.owned) && ids(a.weak, &keep) == ids(b.weak),
                "edges", "pointers of object " << k.first << " differ after the decoder is gone");
    }
  }
  // The source dies now: nothing read may depend on it. Then free the copy.
  src.clear();
  for (auto* t : g::alive()) {
    g::Edges e;
    t->edges(e);
    for (auto* x : e.strong) PBT_CHECK(c, g::alive().count(x), "points-to-dead", "");
  }
  dst.clear();
}

// Many objects: ids of several size groups, references back to any of them.
PBT_ARM(many, 60, 600, false) {
  auto n = c.src.pick(std::vector<std::size_t>{126, 127, 128, 129, 300, 5000, 16382, 16383, 16384, 20000});
  std::vector<std::shared_ptr<std::uint16_t>> v;
  std::vector<std::size_t> of;
  std::size_t made = 0;
  while (made < n) {
    if (made && c.src.chance(1, 8)) {
      auto i = made - 1 - c.src.below(std::min<std::size_t>(made, 200));
      for (std::size_t k = 0; k < of.size(); k++)
        if (of[k] == i) {
          v.push_back(v[k]);
          of.push_back(i);
          break;
        }
    } else {
      v.push_back(std::make_shared<std::uint16_t>(static_cast<std::uint16_t>(made * 7)));
      of.push_back(made++);
    }
  }
  for (int i = 0; i < 40; i++) {
    auto k = c.src.below(v.size());
    v.push_back(v[k]);
    of.push_back(of[k]);
  }
  c.note(n, " objects, ", v.size(), " pointers");
  c.nontrivial();
  using T = std::vector<std::shared_ptr<std::uint16_t>>;
  LibEnc e;
  model::Enc ref;
  e.big = ref.big = c.src.coin();
  e.big ? e.be(v) : e.le(v);
  M<T>::enc(v, ref);
  PBT_CHECK(c, e.out == ref.out, "bytes", "the encodings of " << n << " objects differ");
  T out;
  LibDec d(e.out, e.big);
  d.big ? d.be(out) : d.le(out);
  PBT_CHECK(c, out.size() == v.size(), "size", out.size());
  std::map<std::size_t, std::uint16_t*> seen;
  std::set<std::uint16_t*> distinct;
  for (std::size_t i = 0; i < v.size(); i++) {
    PBT_CHECK(c, out[i] && *out[i] == *v[i], "value", "element " << i);
    auto [it, fresh] = seen.emplace(of[i], out[i].get());
    PBT_CHECK(c, it->second == out[i].get(), "identity", "element " << i << " is not the object " << of[i]);
    if (fresh) PBT_CHECK(c, distinct.insert(out[i].get()).second, "merged", "element " << i);
  }
}

// Long chains, and a parent each child points back to.
PBT_ARM(chains, 60, 600, false) {
  Cleanup cleanup;
  auto n = 1 + c.src.below(400);
  bool cycle = c.src.coin(), back = c.src.coin();
  std::vector<std::shared_ptr<g::D>> v;
  for (std::size_t i = 0; i < n; i++) {
    v.push_back(c.src.coin() ? std::make_shared<g::D>() : std::make_shared<g::D2>());
    v[i]->n = static_cast<int>(i) + 1;
    if (i) {
      v[i - 1]->next = v[i];
      if (back) v[i]->prev = v[i - 1];
    }
  }
  if (cycle) v.back()->next = v[c.src.below(n)];
  c.note("chain of ", n, cycle ? " closed" : "", back ? " doubly linked" : "");
  c.nontrivial(n > 1);
  LibEnc e;
  model::Enc ref;
  e.big = ref.big = c.src.coin();
  e.big ? e.be(v[0]) : e.le(v[0]);
  M<std::shared_ptr<g::D>>::enc(v[0], ref);
  PBT_CHECK(c, e.out == ref.out, "bytes", "");
  std::shared_ptr<g::D> out;
  {
    LibDec d(e.out, e.big);
    d.big ? d.be(out) : d.le(out);
  }
  model::Eq q;
  PBT_CHECK(c, M<std::shared_ptr<g::D>>::eq(v[0], out, q), "not-isomorphic", "");
  for (auto& x : v) x->drop();
  v.clear();
  // Only strong references keep objects alive.
  std::size_t count = 0;
  for (auto* x = out.get(); x && count <= n; x = x->next.get()) count++;
  PBT_CHECK(c, count == (cycle ? n + 1 : n), "length", count << " of " << n);
  PBT_CHECK(c, g::alive().size() == n, "alive", g::alive().size() << " of " << n);
  if (!cycle) {
    // Unlink from the end, so that destruction does not recurse.
    out.reset();
    PBT_CHECK(c, g::alive().empty(), "leak", g::alive().size());
  }
}
