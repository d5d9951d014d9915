// Model of polymorphic objects: one entry per registered class.
#ifndef VERIF_POLY_H_
#define VERIF_POLY_H_
#include <typeinfo>
#include "arpc/serializable.h"
#include "model.h"
namespace model {
struct PolyClass {
  std::string name;
  std::uint32_t hash;
  std::vector<const void*> bases;  // type keys of the class itself and its dynamic ancestors
  bool usable = true;              // false: not registered with the library
  const std::type_info* type = nullptr;
  arpc::dynamic_base_class* (*make)();
  void (*gen)(Gen&, arpc::dynamic_base_class&);
  bool (*eq)(const arpc::dynamic_base_class&, const arpc::dynamic_base_class&, Eq&);
  void (*show)(const arpc::dynamic_base_class&, std::string&);
  void (*enc)(const arpc::dynamic_base_class&, Enc&);
  void (*dec)(arpc::dynamic_base_class&, Dec&);
  bool is(const void* key) const { return std::find(bases.begin(), bases.end(), key) != bases.end(); }
};
inline std::vector<PolyClass>& polys() {
  static std::vector<PolyClass> v;
  return v;
}
inline int poly_by_name(const std::string& n) {
  for (std::size_t i = 0; i < polys().size(); i++)
    if (polys()[i].usable && polys()[i].name == n) return static_cast<int>(i);
  return -1;
}
/// The concrete class, from the compiler's run-time type information (the
/// checks that use this are built with it, unlike the library's own build).
inline int class_of(const arpc::dynamic_base_class& o) {
  for (std::size_t i = 0; i < polys().size(); i++)
    if (*polys()[i].type == typeid(o)) return static_cast<int>(i);
  pbt::fatal("unknown-class", std::string("an object of class ") + typeid(o).name());
}

template <typename T, typename... Ancestors>
PolyClass poly(const char* name, bool usable = true) {
  PolyClass p;
  p.name = name;
  p.hash = usable ? std::uint32_t{arpc::traits::type_hash_v<T>} : 0;
  p.bases = {type_key<T>(), type_key<Ancestors>()...};
  p.usable = usable;
  p.type = &typeid(T);
  p.make = [] { return static_cast<arpc::dynamic_base_class*>(new T()); };
  p.gen = [](Gen& g, arpc::dynamic_base_class& o) { M<T>::gen(g, static_cast<T&>(o)); };
  p.eq = [](const arpc::dynamic_base_class& a, const arpc::dynamic_base_class& b, Eq& q) {
    return M<T>::eq(static_cast<const T&>(a), static_cast<const T&>(b), q);
  };
  p.show = [](const arpc::dynamic_base_class& o, std::string& s) { M<T>::show(static_cast<const T&>(o), s); };
  p.enc = [](const arpc::dynamic_base_class& o, Enc& e) { M<T>::enc(static_cast<const T&>(o), e); };
  p.dec = [](arpc::dynamic_base_class& o, Dec& d) { M<T>::dec(static_cast<T&>(o), d); };
  return p;
}

template <typename V>
struct Obj<V, std::enable_if_t<std::is_base_of_v<arpc::dynamic_base_class, V>>> {
  using B = arpc::dynamic_base_class;
  static const void* key() { return type_key<B>(); }
  static V* make(Gen& g) {
    std::vector<int> fit;
    for (std::size_t i = 0; i < polys().size(); i++)
      if (polys()[i].usable && polys()[i].is(type_key<V>())) fit.push_back(static_cast<int>(i));
    return static_cast<V*>(polys()[fit[g.src().below(fit.size())]].make());
  }
  static std::shared_ptr<V> make_shared(Gen& g) { return std::shared_ptr<V>(make(g)); }
  static std::unique_ptr<V> make_unique(Gen& g) { return std::unique_ptr<V>(make(g)); }
  static bool fits(const std::shared_ptr<void>& p) {
    return polys()[class_of(*static_cast<B*>(p.get()))].is(type_key<V>());
  }
  static std::shared_ptr<void> erase(const std::shared_ptr<V>& p) { return std::shared_ptr<B>(p, static_cast<B*>(p.get())); }
  static std::shared_ptr<V> cast(const std::shared_ptr<void>& p) {
    return std::static_pointer_cast<V>(std::static_pointer_cast<B>(p));
  }
  static const void* addr(const V& v) { return static_cast<const B*>(&v); }
  static const PolyClass& cls(const V& v) { return polys()[class_of(v)]; }
  static void gen(Gen& g, V& v) { cls(v).gen(g, v); }
  static bool eq(const V& a, const V& b, Eq& q) {
    return class_of(a) == class_of(b) && cls(a).eq(a, b, q);
  }
  static void show(const V& v, std::string& s) {
    s += cls(v).name;
    cls(v).show(v, s);
  }
  static void enc(const V& v, Enc& e) {
    auto& p = cls(v);
    auto [it, fresh] = e.classes.emplace(p.name, e.classes.size());
    if (e.sabotage && e.sabotage(e, class_of(v))) {
      // wrote something else in place of the class reference
    } else {
      e.size(it->second);
      if (fresh) {
        M<std::string>::enc(p.name, e);
        e.raw(&p.hash, 4);
      }
    }
    p.enc(v, e);
  }
  template <typename F>
  static void dec(Dec& d, F own) {
    auto id = d.size();
    if (id > d.classes.size()) throw Bad::mismatch;
    if (id == d.classes.size()) {
      std::string name;
      M<std::string>::dec(name, d);
      std::uint32_t hash;
      d.raw(&hash, 4);
      auto k = poly_by_name(name);
      if (k < 0) throw Bad::mismatch;
      if (polys()[k].hash != hash) throw Bad::mismatch;
      d.classes.push_back(k);
    }
    auto& p = polys()[d.classes[id]];
    if (!p.is(type_key<V>())) throw Bad::mismatch;
    auto* o = p.make();
    own(static_cast<V*>(o));
    p.dec(*o, d);
  }
};
}  // namespace model
#endif
