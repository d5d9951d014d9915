// Type-erased operations on the generated types: the model's and the library's.
#ifndef VERIF_SER_H_
#define VERIF_SER_H_
#include <cstddef>
#include <new>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/io_adapters.h"
#include "arpc/string_adapters.h"
#include "model.h"

namespace ser {
/// The library's encoder of either byte order, one instance per stream.
struct LibEnc {
  std::string out;
  arpc::string_output_stream os{out};
  arpc::little_endian_binary_encoder le{os};
  arpc::big_endian_binary_encoder be{os};
  bool big = false;
};
struct LibDec {
  std::string in;
  arpc::string_input_stream is;
  arpc::little_endian_binary_decoder le{is};
  arpc::big_endian_binary_decoder be{is};
  bool big = false;
  LibDec(std::string s, bool b) : in(std::move(s)), is(in), big(b) {}
  /// Bytes not consumed yet.
  std::size_t rest() {
    std::size_t n = 0;
    char b[4096];
    for (;;) {
      auto k = is.read(b, sizeof b);
      n += k;
      if (k < sizeof b) return n;
    }
  }
};
struct Ops {
  std::string name;
  bool has_shared = false, unordered = false, move_only = false;
  int variant = -1;  // index of the equivalent type
  int group = -1;    // types with equal structure
  std::shared_ptr<void> (*make)();
  void (*gen)(model::Gen&, void*);
  bool (*eq)(const void*, const void*, model::Eq&);
  std::string (*show)(const void*);
  void (*ref_enc)(const void*, model::Enc&);
  void (*ref_dec)(void*, model::Dec&);
  void (*enc)(const void*, LibEnc&);
  void (*dec)(void*, LibDec&);
  void (*venc)(const void*, LibEnc&);
  void (*vdec)(void*, LibDec&);
  std::uint32_t (*hash)();
};
inline std::vector<Ops>& types() {
  static std::vector<Ops> v;
  return v;
}
template <typename T, bool verify>
Ops ops(const char* name, bool has_shared, bool unordered, bool move_only, int variant, int group) {
  using model::M;
  Ops o;
  o.name = name;
  o.has_shared = has_shared;
  o.unordered = unordered;
  o.move_only = move_only;
  o.variant = variant;
  o.group = group;
  o.make = [] { return std::shared_ptr<void>(std::make_shared<T>()); };
  o.gen = [](model::Gen& g, void* p) { M<T>::gen(g, *static_cast<T*>(p)); };
  o.eq = [](const void* a, const void* b, model::Eq& q) {
    return M<T>::eq(*static_cast<const T*>(a), *static_cast<const T*>(b), q);
  };
  o.show = [](const void* p) { return model::show(*static_cast<const T*>(p)); };
  o.ref_enc = [](const void* p, model::Enc& e) { M<T>::enc(*static_cast<const T*>(p), e); };
  o.ref_dec = [](void* p, model::Dec& d) { M<T>::dec(*static_cast<T*>(p), d); };
  o.enc = [](const void* p, LibEnc& e) {
    if (e.big)
      e.be(*static_cast<const T*>(p));
    else
      e.le(*static_cast<const T*>(p));
  };
  o.dec = [](void* p, LibDec& d) {
    if (d.big)
      d.be(*static_cast<T*>(p));
    else
      d.le(*static_cast<T*>(p));
  };
  if constexpr (verify) {
    o.venc = [](const void* p, LibEnc& e) {
      if (e.big)
        e.be(*static_cast<const T*>(p), arpc::verify_structure{});
      else
        e.le(*static_cast<const T*>(p), arpc::verify_structure{});
    };
    o.vdec = [](void* p, LibDec& d) {
      if (d.big)
        d.be(*static_cast<T*>(p), arpc::verify_structure{});
      else
        d.le(*static_cast<T*>(p), arpc::verify_structure{});
    };
    o.hash = [] { return std::uint32_t{arpc::traits::type_hash_v<T>}; };
  } else {
    o.venc = nullptr;
    o.vdec = nullptr;
    o.hash = nullptr;
  }
  return o;
}
/// Cuts a rendering for messages.
inline std::string cut(const std::string& s, std::size_t n = 300) {
  return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + ")";
}
}  // namespace ser
#endif
