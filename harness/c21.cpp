#include <array>
#include <memory>
#include <stdexcept>
#include <system_error>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/result_holder.h"
#include "arpc/string_adapters.h"
#include "pbt.h"
using namespace arpc;

namespace {
long live = 0;
/// Counts its instances.
struct Counted {
  std::unique_ptr<std::string> s;
  Counted() : s(std::make_unique<std::string>()) { ++live; }
  explicit Counted(const std::string& v) : s(std::make_unique<std::string>(v)) { ++live; }
  Counted(const Counted& o) : s(o.s ? std::make_unique<std::string>(*o.s) : nullptr) { ++live; }
  Counted(Counted&& o) : s(std::move(o.s)) { ++live; }
  Counted& operator=(const Counted& o) { s = o.s ? std::make_unique<std::string>(*o.s) : nullptr; return *this; }
  Counted& operator=(Counted&& o) { s = std::move(o.s); return *this; }
  ~Counted() { --live; }
};
struct Derived : errors::io_error {
  using errors::io_error::io_error;
};
struct NotStd {
  int v;
};
struct OtherStd : std::exception {
  const char* what() const noexcept override { return "other what"; }
};
struct Known {
  const char* name;
  void (*raise)(const std::string&);
  bool (*is)(const std::exception&);
};
#define K(N) \
  Known { #N, [](const std::string& m) { throw errors::N(m); }, [](const std::exception& e) { return typeid(e) == typeid(errors::N); } }
const Known KNOWN[] = {K(unknown_error), K(cancelled), K(data_mismatch), K(deadline_exceeded), K(eof), K(internal_error), K(invalid_argument),
                       K(invalid_state), K(io_error), K(not_implemented), K(not_found), K(out_of_range), K(shutting_down), K(unavailable), K(try_again)};

/// Name of the class of what is thrown, and its message.
template <typename F>
std::pair<std::string, std::string> thrown(F f) {
  try {
    f();
  } catch (const std::exception& e) {
    for (auto& k : KNOWN)
      if (k.is(e)) return {k.name, e.what()};
    return {std::string("std:") + typeid(e).name(), e.what()};
  } catch (const NotStd& n) {
    return {"NotStd", std::to_string(n.v)};
  } catch (...) {
    return {"?", ""};
  }
  return {"nothing", ""};
}
std::string message(pbt::Case& c) {
  auto s = c.src.coin() ? c.src.bytes_upto(60) : c.src.bytes_upto(2000);
  return s;
}
std::string cstr(const std::string& s) { return s.c_str(); }

/// A random exception: its pointer, and what rebuilding it must give.
struct Any {
  std::exception_ptr p;
  std::string name, what;           // as thrown
  std::string name2, what2;         // rebuilt
};
Any any_exception(pbt::Case& c) {
  Any a;
  auto m = message(c);
  switch (c.src.below(6)) {
    case 0: case 1: case 2: {
      auto& k = c.src.pick(KNOWN);
      try { k.raise(m); } catch (...) { a.p = std::current_exception(); }
      a.name = a.name2 = k.name;
      a.what = a.what2 = cstr(m);
      break;
    }
    case 3:
      a.p = std::make_exception_ptr(Derived(m));
      a.name = std::string("std:") + typeid(Derived).name();
      a.name2 = "io_error";
      a.what = a.what2 = cstr(m);
      break;
    case 4:
      if (c.src.coin()) {
        a.p = std::make_exception_ptr(std::out_of_range(m));
        a.name = std::string("std:") + typeid(std::out_of_range).name();
        a.what = a.what2 = cstr(m);
      } else {
        a.p = std::make_exception_ptr(OtherStd());
        a.name = std::string("std:") + typeid(OtherStd).name();
        a.what = a.what2 = "other what";
      }
      a.name2 = "unknown_error";
      break;
    default:
      a.p = std::make_exception_ptr(NotStd{7});
      a.name = "NotStd";
      a.what = "7";
      a.name2 = "unknown_error";
      a.what2 = "";
  }
  c.note(a.name, "(", pbt::hex(a.what.substr(0, 20)), ") ");
  return a;
}
}  // namespace

PBT_ARM(rebuild, 12000, 400000) {
  auto a = any_exception(c);
  auto [type, what] = error_factory::analyze_exception(a.p);
  auto portable = a.name2 == "unknown_error" && a.name != "unknown_error" ? std::string() : a.name2;
  PBT_CHECK(c, type == portable, "class-name", PBT_STR_("class name " << type << ", expected " << portable));
  PBT_CHECK(c, what == a.what2, "message", PBT_STR_("message " << pbt::hex(what) << ", expected " << pbt::hex(a.what2)));
  auto t = thrown([&] { error_factory::get().throw_error(type, what.c_str()); });
  PBT_CHECK(c, t.first == a.name2, "rebuilt-class", PBT_STR_("rebuilt as " << t.first << ", expected " << a.name2));
  PBT_CHECK(c, t.second == a.what2, "rebuilt-message", "another message");
  try {
    std::rethrow_exception(a.p);
  } catch (const errors::base_error& e) {
    PBT_CHECK(c, e.portable_error_class_name() == a.name2, "portable-name", PBT_STR_("portable name " << e.portable_error_class_name()));
  } catch (...) {
  }
  auto none = error_factory::analyze_exception(nullptr);
  PBT_CHECK(c, none.first.empty() && none.second.empty(), "null", "something for no exception");
  c.nontrivial(a.what.size() > 0);
}

PBT_ARM(names, 12000, 400000) {
  // Names that are and are not those of known errors.
  std::string n = c.src.pick(KNOWN).name;
  switch (c.src.below(8)) {
    case 0: break;
    case 1: n = n.substr(0, c.src.below(n.size() + 1)); break;
    case 2: n += c.src.bytes_upto(3); break;
    case 3: n.insert(c.src.below(n.size() + 1), 1, static_cast<char>(c.src.range<int>(0, 255))); break;
    case 4: n[c.src.below(n.size())] ^= static_cast<char>(1 << c.src.below(8)); break;
    case 5: n = c.src.bytes_upto(40); break;
    case 6: n = std::string("errors::") + n; break;
    default: n += '\0'; break;
  }
  auto m = cstr(message(c));
  c.note(pbt::hex(n), " ", pbt::hex(m.substr(0, 20)));
  std::string want = "unknown_error";
  for (auto& k : KNOWN)
    if (n == k.name) want = n;
  auto t = thrown([&] { error_factory::get().throw_error(n, m.c_str()); });
  PBT_CHECK(c, t.first == want, "class", PBT_STR_(pbt::hex(n) << " gives " << t.first << ", expected " << want));
  PBT_CHECK(c, t.second == m, "message", "another message");
  c.nontrivial(true);
}

PBT_ARM(io_errors, 4000, 100000) {
  int code = c.src.pick(std::array<int, 12>{EINPROGRESS, EALREADY, EISCONN, EAGAIN, EWOULDBLOCK, EINTR, EPIPE, EBADF, EIO, 0, -2, ECONNRESET});
  if (c.src.chance(1, 3)) code = c.src.range<int>(-200, 200);
  auto m = cstr(message(c));
  std::string name = "io_error", what = m + ": " + std::to_string(code);
  if (code == EINPROGRESS || code == EALREADY || code == EISCONN)
    name = "nothing", what = "";
  else if (code == EAGAIN || code == EWOULDBLOCK || code == EINTR)
    name = "try_again", what = "Try again";
  auto t = thrown([&] { throw_io_error(m, code); });
  PBT_CHECK(c, t.first == name && t.second == what, "throw_io_error", PBT_STR_(code << " gives " << t.first << " " << t.second));
  auto u = thrown([&] { errno = code; throw_io_error(m); });
  PBT_CHECK(c, t == u, "throw_io_error-errno", "another error from errno");
  auto v = thrown([&] { throw_with_code<errors::not_found>(m, code); });
  PBT_CHECK(c, v.first == "not_found" && v.second == m + ": " + std::to_string(code), "throw_with_code", PBT_STR_(v.first << " " << v.second));
  errno = code;
  auto w = thrown([&] { throw_with_errno<errors::eof>(m); });
  PBT_CHECK(c, w.first == "eof" && w.second == m + ": " + std::to_string(code), "throw_with_errno", PBT_STR_(w.first << " " << w.second));
  c.note(code);
  c.nontrivial(true);
}

namespace {
template <typename T> struct Put;
template <> struct Put<std::string> {
  static std::string make(const std::string& s) { return s; }
  static std::string see(const std::string& v) { return v; }
};
template <> struct Put<std::unique_ptr<std::string>> {
  static std::unique_ptr<std::string> make(const std::string& s) { return std::make_unique<std::string>(s); }
  static std::string see(const std::unique_ptr<std::string>& v) { return v ? *v : "(null)"; }
};
template <> struct Put<Counted> {
  static Counted make(const std::string& s) { return Counted(s); }
  static std::string see(const Counted& v) { return v.s ? *v.s : "(moved)"; }
};
template <> struct Put<int> {
  static int make(const std::string& s) { return static_cast<int>(s.size()); }
  static std::string see(int v) { return std::string(static_cast<std::size_t>(v), 'x'); }
};

struct Model {
  enum { NONE, VALUE, EXC, MOVED } st = NONE;
  std::string v;
  Any e;
};

template <typename T>
void history(pbt::Case& c) {
  using H = result_holder<T>;
  constexpr bool IsVoid = std::is_void_v<T>;
  auto live0 = live;
  std::size_t interesting = 0;
  {
    std::vector<std::unique_ptr<H>> hs;
    std::vector<Model> ms;
    std::size_t kept = 0;
    std::size_t n = 1 + c.src.below(14);
    std::vector<long> extra;
    for (std::size_t i = 0; i < n; ++i) {
      auto op = hs.empty() ? c.src.below(3) : c.src.below(11);
      std::string v = c.src.bytes_upto(20);
      std::size_t a = hs.empty() ? 0 : c.src.below(hs.size()), b = hs.empty() ? 0 : c.src.below(hs.size());
      if (hs.size() >= 4 && op <= 2) op = 3;
      switch (op) {
        case 0:
          c.note("new ");
          hs.push_back(std::make_unique<H>());
          ms.emplace_back();
          break;
        case 1: {
          auto e = any_exception(c);
          c.note("new-exception ");
          hs.push_back(std::make_unique<H>(e.p));
          ms.push_back({Model::EXC, "", e});
          break;
        }
        case 2:
          if constexpr (!IsVoid) {
            auto x = Put<T>::make(v);
            if constexpr (std::is_copy_constructible_v<T>) {
              if (c.src.coin()) {
                c.note("new-from-lvalue ");
                hs.push_back(std::make_unique<H>(x));
                PBT_CHECK(c, Put<T>::see(x) == Put<T>::see(Put<T>::make(v)), "took-from-lvalue", "the value given was changed");
              } else {
                c.note("new-from-const ");
                const auto& cx = x;
                hs.push_back(std::make_unique<H>(cx));
                PBT_CHECK(c, Put<T>::see(x) == Put<T>::see(Put<T>::make(v)), "took-from-const", "the value given was changed");
              }
            } else {
              c.note("new-from-rvalue ");
              hs.push_back(std::make_unique<H>(std::move(x)));
            }
            ms.push_back({Model::VALUE, Put<T>::see(Put<T>::make(v)), {}});
          }
          break;
        case 3:
        case 4: {
          c.note("set_value#", a, " ");
          interesting += ms[a].st != Model::NONE;
          if constexpr (IsVoid) {
            hs[a]->set_value();
          } else {
            auto x = Put<T>::make(v);
            if constexpr (std::is_copy_constructible_v<T>) {
              if (c.src.coin()) {
                hs[a]->set_value(x);
                PBT_CHECK(c, Put<T>::see(x) == Put<T>::see(Put<T>::make(v)), "set-took-from-lvalue", "the value given was changed");
              } else {
                hs[a]->set_value(std::move(x));
              }
            } else {
              hs[a]->set_value(std::move(x));
            }
            ms[a].v = Put<T>::see(Put<T>::make(v));
          }
          ms[a].st = Model::VALUE;
          break;
        }
        case 5: {
          auto e = any_exception(c);
          c.note("set_exception#", a, " ");
          interesting += ms[a].st != Model::NONE;
          hs[a]->set_exception(e.p);
          ms[a] = {Model::EXC, "", e};
          break;
        }
        case 6: {
          c.note("move-construct#", a, " ");
          auto h = std::make_unique<H>(std::move(*hs[a]));
          auto m = ms[a];
          hs[a] = std::move(h);
          ms[a] = m;
          ++interesting;
          break;
        }
        case 7:
          if (a != b) {
            c.note("move-assign#", a, "<-#", b, " ");
            *hs[a] = std::move(*hs[b]);
            ms[a] = ms[b];
            ms[b].st = Model::MOVED;
            ++interesting;
          }
          break;
        case 8:
          c.note("swap#", a, ",#", b, " ");
          if (c.src.coin())
            hs[a]->swap(*hs[b]);
          else
            swap(*hs[a], *hs[b]);
          std::swap(ms[a], ms[b]);
          ++interesting;
          break;
        case 9:
          c.note("reset#", a, " ");
          hs[a]->reset();
          ms[a] = {};
          break;
        default:
          c.note("drop#", a, " ");
          hs.erase(hs.begin() + static_cast<long>(a));
          ms.erase(ms.begin() + static_cast<long>(a));
      }
      long values = 0;
      bool moved = false;
      for (std::size_t j = 0; j < hs.size(); ++j) {
        auto& h = *hs[j];
        const auto& ch = h;
        auto& m = ms[j];
        if (m.st == Model::MOVED) {  // Whatever it holds now.
          moved = true;
          continue;
        }
        values += m.st == Model::VALUE;
        PBT_CHECK(c, static_cast<bool>(ch) == (m.st != Model::NONE), "bool", PBT_STR_("bool of #" << j << " in state " << m.st));
        PBT_CHECK(c, ch.has_value() == (m.st != Model::NONE), "has_value", PBT_STR_("has_value of #" << j << " in state " << m.st));
        std::string got[4];
        std::pair<std::string, std::string> t[4];
        if constexpr (IsVoid) {
          t[0] = thrown([&] { ch.value(); });
          t[1] = thrown([&] { h.value(); });
          t[2] = thrown([&] { *ch; });
          t[3] = thrown([&] { *h; });
        } else {
          t[0] = thrown([&] { got[0] = Put<T>::see(ch.value()); });
          t[1] = thrown([&] { got[1] = Put<T>::see(h.value()); });
          t[2] = thrown([&] { got[2] = Put<T>::see(*ch); });
          t[3] = thrown([&] { got[3] = Put<T>::see(*(c.src.below(1) ? &*h : h.operator->())); });
        }
        for (int q = 0; q < 4; ++q) {
          auto want = m.st == Model::NONE ? std::pair<std::string, std::string>("invalid_state", t[q].second)
                      : m.st == Model::VALUE ? std::pair<std::string, std::string>("nothing", "")
                                             : std::pair<std::string, std::string>(m.e.name, m.e.what);
          PBT_CHECK(c, t[q] == want, "access", PBT_STR_("access " << q << " of #" << j << " throws " << t[q].first << ", expected " << want.first));
          if (!IsVoid && m.st == Model::VALUE) PBT_CHECK(c, got[q] == m.v, "value", PBT_STR_("another value in #" << j));
        }
        if constexpr (!IsVoid && std::is_copy_constructible_v<T>) {
          std::string vo;
          auto tt = thrown([&] { vo = Put<T>::see(ch.value_or(Put<T>::make("default"))); });
          if (m.st == Model::NONE) PBT_CHECK(c, vo == Put<T>::see(Put<T>::make("default")), "value_or", "not the default");
          if (m.st == Model::VALUE) PBT_CHECK(c, vo == m.v, "value_or", "not the value");
          if (m.st == Model::EXC) PBT_CHECK(c, tt.first == m.e.name, "value_or", "not the exception");
        }
      }
      if constexpr (std::is_same_v<T, Counted>)
        if (!moved)
          PBT_CHECK(c, live == live0 + values, "instances", PBT_STR_(live - live0 << " instances for " << values << " values held"));
      (void)kept;
    }
    // Taking the value out.
    for (std::size_t j = 0; j < hs.size(); ++j) {
      if (ms[j].st != Model::VALUE) continue;
      if constexpr (!IsVoid) {
        T x = c.src.coin() ? std::move(*hs[j]).value() : *std::move(*hs[j]);
        PBT_CHECK(c, Put<T>::see(x) == ms[j].v, "taken", "another value was taken out");
      }
    }
  }
  PBT_CHECK(c, live == live0, "destroyed", PBT_STR_(live - live0 << " instances left"));
  c.nontrivial(interesting > 0);
}
}  // namespace
PBT_ARM(holder_string, 4000, 150000) { history<std::string>(c); }
PBT_ARM(holder_counted, 4000, 150000) { history<Counted>(c); }
PBT_ARM(holder_unique, 3000, 100000) { history<std::unique_ptr<std::string>>(c); }
PBT_ARM(holder_int, 3000, 100000) { history<int>(c); }
PBT_ARM(holder_void, 3000, 100000) { history<void>(c); }

namespace {
template <typename T>
void transport(pbt::Case& c, T val, bool has) {
  result_holder<T> h, r;
  Any e;
  int st = static_cast<int>(c.src.below(3));
  if (st == 1) {
    if constexpr (std::is_void_v<T>) h.set_value(); else h.set_value(val);
  }
  if (st == 2) {
    e = any_exception(c);
    h.set_exception(e.p);
  }
  (void)has;
  // Into one that holds something else.
  int dirty = static_cast<int>(c.src.below(3));
  if (dirty == 1) {
    if constexpr (std::is_void_v<T>) r.set_value(); else r.set_value(T());
  }
  if (dirty == 2) r.set_exception(std::make_exception_ptr(errors::eof("before")));
  std::string data;
  string_output_stream out(data);
  if (c.src.coin()) {
    big_endian_binary_encoder enc(out);
    enc(h);
    string_input_stream in(data);
    big_endian_binary_decoder dec(in);
    dec(r);
  } else {
    little_endian_binary_encoder enc(out);
    enc(h);
    string_input_stream in(data);
    little_endian_binary_decoder dec(in);
    dec(r);
  }
  PBT_CHECK(c, static_cast<bool>(r) == (st != 0), "transported-bool", PBT_STR_("state " << st << " dirty " << dirty));
  std::pair<std::string, std::string> t;
  if constexpr (std::is_void_v<T>) {
    t = thrown([&] { r.value(); });
  } else {
    T got{};
    t = thrown([&] { got = r.value(); });
    if (st == 1) PBT_CHECK(c, got == val, "transported-value", "another value");
  }
  if (st == 0) PBT_CHECK(c, t.first == "invalid_state", "transported-empty", t.first);
  if (st == 1) PBT_CHECK(c, t.first == "nothing", "transported-value", t.first);
  if (st == 2)
    PBT_CHECK(c, t.first == e.name2 && t.second == e.what2, "transported-exception", PBT_STR_(t.first << " " << pbt::hex(t.second) << ", expected " << e.name2));
  c.nontrivial(st != 0);
}
}  // namespace
PBT_ARM(transport, 8000, 200000) {
  switch (c.src.below(3)) {
    case 0: transport<std::string>(c, c.src.bytes_upto(100), true); break;
    case 1: transport<std::vector<int>>(c, std::vector<int>(c.src.below(5), 3), true); break;
    default: {
      result_holder<void> h, r;
      Any e;
      int st = static_cast<int>(c.src.below(3)), dirty = static_cast<int>(c.src.below(3));
      if (st == 1) h.set_value();
      if (st == 2) e = any_exception(c), h.set_exception(e.p);
      if (dirty == 1) r.set_value();
      if (dirty == 2) r.set_exception(std::make_exception_ptr(errors::eof("before")));
      std::string data;
      string_output_stream out(data);
      little_endian_binary_encoder enc(out);
      enc(h);
      string_input_stream in(data);
      little_endian_binary_decoder dec(in);
      dec(r);
      auto t = thrown([&] { r.value(); });
      PBT_CHECK(c, static_cast<bool>(r) == (st != 0), "transported-bool", "void");
      PBT_CHECK(c, t.first == (st == 0 ? "invalid_state" : st == 1 ? "nothing" : e.name2), "transported-void", t.first);
      if (st == 2) PBT_CHECK(c, t.second == e.what2, "transported-message", pbt::hex(t.second));
      c.nontrivial(st != 0);
    }
  }
}
