// A small property-based testing engine.
//
// A case is a pure function of a sequence of integer choices drawn from a
// `Src`. In a campaign the choices come from a PRNG seeded by (VERIF_SEED, arm,
// case index) and are recorded; a failing sequence is shrunk by deleting,
// zeroing and lowering choices (re-running the case in a fresh process each
// time) and saved, so that `--replay FILE` re-runs exactly that case. The same
// case functions can be driven by bytes (`--bytes FILE`, or libFuzzer when the
// harness is built with -DPBT_LIBFUZZER).
//
// Cases run in forked worker processes, so a crash, sanitizer report, hang or
// deadlock is attributed to the case that was running and the campaign goes on.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

inline std::uint64_t splitmix(std::uint64_t& x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
  auto* b = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

/// When set, every draw is also recorded here (count, then values), so that the
/// choices of a crashing case survive it.
inline std::uint64_t*& live_rec() {
  static std::uint64_t* p = nullptr;
  return p;
}
inline constexpr std::size_t live_rec_cap = 1u << 20;

/// Source of choices.
class Src {
 public:
  enum mode { RANDOM, REPLAY, BYTES };
  explicit Src(std::uint64_t seed) : mode_(RANDOM), state_(seed) {}
  explicit Src(std::vector<std::uint64_t> choices) : mode_(REPLAY), in_(std::move(choices)) {}
  Src(const std::uint8_t* data, std::size_t size) : mode_(BYTES), data_(data), size_(size) {}

  /// A choice in [0, max].
  std::uint64_t draw(std::uint64_t max) {
    std::uint64_t v = 0;
    switch (mode_) {
      case RANDOM:
        v = splitmix(state_);
        if (max != ~0ull) v %= (max + 1);
        break;
      case REPLAY:
        v = pos_ < in_.size() ? std::min(in_[pos_], max) : 0;
        pos_++;
        break;
      case BYTES: {
        int n = max < 256 ? 1 : max < 65536 ? 2 : max < (1ull << 32) ? 4 : 8;
        for (int i = 0; i < n; i++) v = (v << 8) | (pos_ < size_ ? data_[pos_++] : 0);
        if (max != ~0ull) v %= (max + 1);
        break;
      }
    }
    if (rec_.size() < live_rec_cap) {
      rec_.push_back(v);
      if (auto* m = live_rec()) {
        m[1 + m[0]] = v;
        m[0]++;
      }
    }
    return v;
  }
  /// Inclusive range.
  template <typename T = std::int64_t>
  T range(T lo, T hi) {
    return static_cast<T>(static_cast<std::uint64_t>(lo) +
                          draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
  }
  std::size_t below(std::size_t n) { return n <= 1 ? 0 : static_cast<std::size_t>(draw(n - 1)); }
  /// True with probability num/den; shrinks to false.
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  bool coin() { return draw(1) != 0; }
  /// Index with the given weights; shrinks to 0.
  std::size_t weighted(std::initializer_list<unsigned> w) {
    unsigned total = 0;
    for (auto x : w) total += x;
    auto v = draw(total - 1);
    std::size_t i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x;
      i++;
    }
    return 0;
  }
  template <typename C>
  auto& pick(C& c) {
    return c[below(std::size(c))];
  }
  template <typename C>
  const auto& pick(const C& c) {
    return c[below(std::size(c))];
  }
  /// A length: mostly small, sometimes around interesting sizes, up to max.
  std::size_t length(std::size_t max) {
    static const std::size_t edge[] = {0,   1,   2,   3,   4,   7,   8,    15,   16,   31,   32,    33,   63,
                                       64,  65,  126, 127, 128, 129, 253,  254,  255,  256,  257,   300,  508,
                                       509, 510, 511, 512, 762, 763, 1016, 1270, 2047, 4095, 16383, 16384};
    switch (weighted({6, 2, 1})) {
      case 0:
        return static_cast<std::size_t>(range<std::uint64_t>(0, std::min<std::size_t>(max, 8)));
      case 1:
        return static_cast<std::size_t>(range<std::uint64_t>(0, std::min<std::size_t>(max, 40)));
      default: {
        auto v = edge[below(std::size(edge))];
        return v <= max ? v : static_cast<std::size_t>(range<std::uint64_t>(0, max));
      }
    }
  }
  /// Bytes, with a bias to 0 and 0xff.
  std::uint8_t byte() {
    switch (weighted({4, 1, 1, 1})) {
      case 0:
        return static_cast<std::uint8_t>(draw(255));
      case 1:
        return 0;
      case 2:
        return 0xff;
      default:
        return static_cast<std::uint8_t>(1 + draw(3));
    }
  }
  std::string bytes(std::size_t n) {
    std::string s;
    s.reserve(n);
    // Long strings: draw a pattern so that the choice sequence stays short.
    if (n > 48) {
      auto kind = weighted({3, 1, 1, 1, 1});
      std::uint64_t st = draw(~0ull >> 1);
      auto period = 1 + draw(300);
      for (std::size_t i = 0; i < n; i++) {
        switch (kind) {
          case 0:
            s.push_back(static_cast<char>(splitmix(st)));
            break;
          case 1:
            s.push_back(static_cast<char>((splitmix(st) % 255) + 1));
            break;
          case 2:
            s.push_back((splitmix(st) % 4) ? 0 : static_cast<char>(splitmix(st)));
            break;
          case 3:
            s.push_back(i % period == period - 1 ? 0 : static_cast<char>((splitmix(st) % 255) + 1));
            break;
          default:
            s.push_back(static_cast<char>(0xff));
            break;
        }
      }
    } else {
      for (std::size_t i = 0; i < n; i++) s.push_back(static_cast<char>(byte()));
    }
    return s;
  }
  std::string bytes_upto(std::size_t max) { return bytes(length(max)); }
  /// Any integer of type T, with a bias to boundary values.
  template <typename T>
  T integer() {
    using L = std::numeric_limits<T>;
    switch (weighted({3, 2, 2, 3})) {
      case 0:
        return static_cast<T>(draw(3));
      case 1:
        return static_cast<T>(draw(255));
      case 2: {
        T e[] = {L::min(), L::max(), T(L::max() - 1), T(L::min() + 1), T(L::max() / 2 + 1), T(-1), T(0), T(127)};
        return e[below(std::size(e))];
      }
      default:
        return static_cast<T>(draw(~0ull));
    }
  }
  const std::vector<std::uint64_t>& recorded() const { return rec_; }
  bool exhausted() const { return mode_ == BYTES && pos_ >= size_; }

 private:
  mode mode_;
  std::uint64_t state_ = 0;
  std::vector<std::uint64_t> in_, rec_;
  const std::uint8_t* data_ = nullptr;
  std::size_t size_ = 0, pos_ = 0;
};

struct Failure {
  std::string key, msg;
};

/// Per-case context.
class Case {
 public:
  Src& src;
  explicit Case(Src& s) : src(s) {}
  void label(const std::string& l) { labels.push_back(l); }
  void nontrivial(bool b = true) { is_nontrivial |= b; }
  /// Human readable rendering of the case (kept for samples and replays).
  template <typename... A>
  void note(const A&... a) {
    if (text.size() > 6000) return;
    std::ostringstream os;
    (os << ... << a);
    text += os.str();
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
  void check(bool cond, const std::string& key, const std::string& msg) {
    checks++;
    if (!cond) fail(key, msg);
  }
  template <typename A, typename B>
  void eq(const A& a, const B& b, const std::string& key) {
    checks++;
    if (!(a == b)) fail(key, "values differ");
  }
  std::vector<std::string> labels;
  bool is_nontrivial = false;
  std::string text;
  std::uint64_t checks = 0;
};

#define PBT_STR_(...) ([&] { std::ostringstream os_; os_ << __VA_ARGS__; return os_.str(); }())
#define PBT_CHECK(C, cond, key, ...)                    \
  do {                                                  \
    (C).checks++;                                       \
    if (!(cond)) (C).fail((key), PBT_STR_(__VA_ARGS__)); \
  } while (0)

inline std::string hex(std::string_view s, std::size_t max = 96) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (std::size_t i = 0; i < s.size() && i < max; i++) {
    r.push_back(d[static_cast<unsigned char>(s[i]) >> 4]);
    r.push_back(d[static_cast<unsigned char>(s[i]) & 15]);
  }
  if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}

struct Arm {
  std::string name;
  void (*fn)(Case&);
  std::uint64_t quick, thorough;
  bool isolate;  // run every case in its own process
  unsigned hang_s;
};
inline std::vector<Arm>& arms() {
  static std::vector<Arm> a;
  return a;
}
struct Reg {
  Reg(const char* n, void (*f)(Case&), std::uint64_t q, std::uint64_t t, bool iso = false, unsigned hang_s = 60) {
    arms().push_back({n, f, q, t, iso, hang_s});
  }
};
#define PBT_ARM(NAME, QUICK, THOROUGH, ...)                                        \
  static void arm_##NAME(pbt::Case&);                                              \
  static pbt::Reg reg_##NAME(#NAME, arm_##NAME, QUICK, THOROUGH, ##__VA_ARGS__);   \
  static void arm_##NAME(pbt::Case& c)

/// Hook run before every case (reset of global state).
inline std::function<void()>& before_case() {
  static std::function<void()> f;
  return f;
}

struct Shared {
  volatile std::uint64_t current;
  volatile std::uint64_t started;  // seconds, monotonic
  volatile std::uint32_t busy;
  volatile std::uint32_t has_fatal;
  char fatal_key[256];
  char fatal_msg[4096];
  char text[6200];
};
inline Shared*& shared() {
  static Shared* s = nullptr;
  return s;
}
inline Case*& current_case() {
  static Case* c = nullptr;
  return c;
}

/// Report a failure from anywhere (any thread, noexcept code) and end the process.
[[noreturn]] inline void fatal(const std::string& key, const std::string& msg) {
  if (auto* s = shared()) {
    std::snprintf(s->fatal_key, sizeof s->fatal_key, "%s", key.c_str());
    std::snprintf(s->fatal_msg, sizeof s->fatal_msg, "%s", msg.c_str());
    if (current_case()) std::snprintf(s->text, sizeof s->text, "%s", current_case()->text.c_str());
    s->has_fatal = 1;
    _exit(77);
  }
  std::fprintf(stderr, "FATAL %s: %s\n", key.c_str(), msg.c_str());
  std::abort();
}

inline std::uint64_t now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<std::uint64_t>(t.tv_sec);
}

inline std::string jstr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

struct Found {
  std::string arm, key, msg, text;
  std::uint64_t index = 0, count = 0;
  std::vector<std::uint64_t> choices;
};

struct Stats {
  std::uint64_t evaluations = 0, nontrivial = 0, checks = 0;
  std::map<std::string, std::uint64_t> labels;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, Found> found;  // by arm/key
};

inline std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '\n')
      r += "\\n";
    else if (c == '\\')
      r += "\\\\";
    else if (c == '\t')
      r += "\\t";
    else
      r += c;
  }
  return r;
}
inline std::string unesc(const std::string& s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      i++;
      r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i];
    } else {
      r += s[i];
    }
  }
  return r;
}

inline void dump_stats(const Stats& st, const std::string& path) {
  FILE* f = std::fopen((path + ".tmp").c_str(), "w");
  if (!f) return;
  std::fprintf(f, "E\t%llu\t%llu\t%llu\n", (unsigned long long)st.evaluations, (unsigned long long)st.nontrivial,
               (unsigned long long)st.checks);
  for (auto& [l, n] : st.labels) std::fprintf(f, "L\t%s\t%llu\n", esc(l).c_str(), (unsigned long long)n);
  for (auto& s : st.samples) std::fprintf(f, "S\t%s\n", esc(s).c_str());
  for (auto& [k, v] : st.found) {
    std::fprintf(f, "F\t%s\t%s\t%llu\t%llu\t%s\t%s\n", esc(v.arm).c_str(), esc(v.key).c_str(),
                 (unsigned long long)v.index, (unsigned long long)v.count, esc(v.msg).c_str(), esc(v.text).c_str());
  }
  std::fclose(f);
  std::rename((path + ".tmp").c_str(), path.c_str());
  f = std::fopen((path + ".d").c_str(), "wb");
  if (f) {
    for (auto h : st.distinct) std::fwrite(&h, 8, 1, f);
    std::fclose(f);
  }
}

inline std::vector<std::string> split_tabs(const std::string& l) {
  std::vector<std::string> r(1);
  for (char c : l) {
    if (c == '\t')
      r.emplace_back();
    else
      r.back() += c;
  }
  for (auto& s : r) s = unesc(s);
  return r;
}

inline std::string slurp(const std::string& p) {
  std::string s;
  FILE* f = std::fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  std::size_t n;
  while ((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  std::fclose(f);
  return s;
}

inline void add_found(Stats& st, Found f) {
  auto& e = st.found[f.arm + "/" + f.key];
  auto n = e.count + std::max<std::uint64_t>(f.count, 1);
  if (e.count == 0 || f.index < e.index) e = std::move(f);
  e.count = n;
}

inline void merge_stats(Stats& to, const std::string& path) {
  std::istringstream is(slurp(path));
  std::string l;
  while (std::getline(is, l)) {
    auto p = split_tabs(l);
    if (p[0] == "E") {
      to.evaluations += std::strtoull(p[1].c_str(), nullptr, 10);
      to.nontrivial += std::strtoull(p[2].c_str(), nullptr, 10);
      to.checks += std::strtoull(p[3].c_str(), nullptr, 10);
    } else if (p[0] == "L") {
      to.labels[p[1]] += std::strtoull(p[2].c_str(), nullptr, 10);
    } else if (p[0] == "S") {
      if (to.samples.size() < 12) to.samples.push_back(p[1]);
    } else if (p[0] == "F") {
      Found f;
      f.arm = p[1];
      f.key = p[2];
      f.index = std::strtoull(p[3].c_str(), nullptr, 10);
      f.count = std::strtoull(p[4].c_str(), nullptr, 10);
      f.msg = p[5];
      f.text = p[6];
      add_found(to, std::move(f));
    }
  }
  auto d = slurp(path + ".d");
  for (std::size_t i = 0; i + 8 <= d.size(); i += 8) {
    std::uint64_t h;
    std::memcpy(&h, d.data() + i, 8);
    to.distinct.insert(h);
  }
  unlink(path.c_str());
  unlink((path + ".d").c_str());
}

inline std::uint64_t case_seed(std::uint64_t seed, const std::string& arm, std::uint64_t index) {
  std::uint64_t x = fnv(arm.data(), arm.size()) ^ (seed * 0xd1342543de82ef95ull) ^ (index * 0x2545f4914f6cdd1dull);
  splitmix(x);
  return splitmix(x);
}

/// Runs one case in this process. Returns true if it held.
inline bool run_case(const Arm& arm, Src& src, Stats* st, std::uint64_t index, Failure* out = nullptr,
                     std::string* text = nullptr) {
  if (before_case()) before_case()();
  Case c(src);
  current_case() = &c;
  bool ok = true;
  Failure fl;
  try {
    arm.fn(c);
  } catch (Failure& f) {
    ok = false;
    fl = f;
  } catch (const std::exception& e) {
    ok = false;
    fl = {"uncaught-exception", std::string("uncaught std::exception in the case: ") + e.what()};
  } catch (...) {
    ok = false;
    fl = {"uncaught-exception", "uncaught exception in the case"};
  }
  current_case() = nullptr;
  if (text) *text = c.text;
  if (out) *out = fl;
  if (st) {
    st->evaluations++;
    st->checks += c.checks;
    for (auto& l : c.labels) st->labels[arm.name + ":" + l]++;
    if (c.is_nontrivial) {
      st->nontrivial++;
      std::uint64_t h = fnv(arm.name.data(), arm.name.size());
      auto& r = src.recorded();
      h = fnv(r.data(), r.size() * 8, h);
      if (st->distinct.size() < 400000) st->distinct.insert(h);
      if (st->samples.size() < 3 && !c.text.empty() && c.text.size() < 1500)
        st->samples.push_back(arm.name + ": " + c.text);
    }
    if (!ok) {
      Found f;
      f.arm = arm.name;
      f.key = fl.key;
      f.msg = fl.msg;
      f.text = c.text;
      f.index = index;
      add_found(*st, std::move(f));
    }
  }
  return ok;
}

inline std::string crash_key(const std::string& err, int status) {
  // A stable, short key: the sanitizer summary without addresses.
  auto p = err.find("SUMMARY: ");
  std::string k;
  if (p != std::string::npos) {
    auto e = err.find('\n', p);
    k = err.substr(p + 9, e - p - 9);
    // Drop paths and numbers that may differ between runs.
    std::string r;
    std::istringstream is(k);
    std::string w;
    while (is >> w) {
      if (w[0] == '(' || w.find("0x") != std::string::npos) continue;
      auto s = w.rfind('/');
      if (s != std::string::npos) w = w.substr(s + 1);
      auto col = w.find(':');
      if (col != std::string::npos && col > 0 && w.find(".h") != std::string::npos) w = w.substr(0, col);
      if (col != std::string::npos && col > 0 && w.find(".cpp") != std::string::npos) w = w.substr(0, col);
      if (!r.empty()) r += "-";
      r += w;
    }
    k = r;
    if (k.size() > 120) k.resize(120);
  }
  if (k.empty()) {
    p = err.find("runtime error: ");
    if (p != std::string::npos) {
      auto e = err.find('\n', p);
      k = err.substr(p + 15, std::min<std::size_t>(80, e - p - 15));
    }
  }
  if (k.empty()) {
    if (err.find("terminate called") != std::string::npos)
      k = "terminate";
    else if (WIFSIGNALED(status))
      k = "signal-" + std::to_string(WTERMSIG(status));
    else
      k = "exit-" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
  }
  return "crash:" + k;
}

struct Options {
  std::uint64_t seed = 1;
  bool thorough = false;
  std::string out, arm, replay, bytes, tmp = "/tmp";
  unsigned jobs = 8;
  double scale = 1;
  std::int64_t only = -1;
  unsigned max_s = 0;
};

inline const Arm* find_arm(const std::string& n) {
  for (auto& a : arms())
    if (a.name == n) return &a;
  return nullptr;
}

/// Runs the choices in a child; returns the failure key ("" if it held).
inline std::string probe(const Arm& arm, const std::vector<std::uint64_t>& choices, const std::string& tmp,
                         std::string* msg, std::string* text, std::vector<std::uint64_t>* used) {
  auto base = tmp + "/probe." + std::to_string(getpid());
  auto* sh = shared();
  std::memset((void*)sh, 0, sizeof *sh);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    Src s(choices);
    Failure f;
    std::string t;
    bool ok = run_case(arm, s, nullptr, 0, &f, &t);
    FILE* o = std::fopen((base + ".res").c_str(), "w");
    if (!ok) std::fprintf(o, "%s\t%s\t%s", esc(f.key).c_str(), esc(f.msg).c_str(), esc(t).c_str());
    std::fclose(o);
    if (used) {
      auto& r = s.recorded();
      o = std::fopen((base + ".use").c_str(), "wb");
      std::fwrite(r.data(), 8, r.size(), o);
      std::fclose(o);
    }
    _exit(ok ? 0 : 1);
  }
  int status = 0;
  auto t0 = now_s();
  bool hung = false;
  for (int spin = 0;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (now_s() - t0 > arm.hang_s) {
      hung = true;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(spin++ < 200 ? 100 : 2000);
  }
  std::string key;
  if (hung) {
    key = "hang";
    if (msg) *msg = "the case did not end within " + std::to_string(arm.hang_s) + " s";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    key = "";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 1) {
    auto p = split_tabs(slurp(base + ".res"));
    p.resize(3);
    key = p[0];
    if (msg) *msg = p[1];
    if (text) *text = p[2];
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 77 && sh->has_fatal) {
    key = sh->fatal_key;
    if (msg) *msg = sh->fatal_msg;
    if (text) *text = sh->text;
  } else {
    auto err = slurp(base + ".err");
    key = crash_key(err, status);
    if (msg) *msg = err.substr(0, 5000);
  }
  if (used) {
    auto d = slurp(base + ".use");
    used->assign(d.size() / 8, 0);
    std::memcpy(used->data(), d.data(), used->size() * 8);
  }
  unlink((base + ".res").c_str());
  unlink((base + ".use").c_str());
  unlink((base + ".err").c_str());
  return key;
}

inline void shrink(const Arm& arm, Found& f, const std::string& tmp, unsigned budget, unsigned seconds) {
  auto t0 = now_s();
  auto attempt = [&](const std::vector<std::uint64_t>& c) {
    if (budget == 0 || now_s() - t0 > seconds) return false;
    budget--;
    std::string m, t;
    auto k = probe(arm, c, tmp, &m, &t, nullptr);
    if (k != f.key) return false;
    f.choices = c;
    f.msg = m;
    if (!t.empty()) f.text = t;
    return true;
  };
  bool progress = true;
  while (progress && budget > 0 && now_s() - t0 <= seconds) {
    progress = false;
    // Truncate (missing choices read as zero).
    for (std::size_t keep = f.choices.size() / 2; keep < f.choices.size();) {
      auto c = f.choices;
      c.resize(keep);
      if (attempt(c)) {
        progress = true;
        keep = f.choices.size() / 2;
        if (f.choices.empty()) break;
      } else {
        keep += std::max<std::size_t>(1, (f.choices.size() - keep) / 2);
      }
    }
    // Delete blocks.
    for (std::size_t n : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (std::size_t i = 0; i + n <= f.choices.size();) {
        auto c = f.choices;
        c.erase(c.begin() + i, c.begin() + i + n);
        if (attempt(c))
          progress = true;
        else
          i += n > 4 ? n / 2 : 1;
        if (budget == 0) break;
      }
    }
    // Lower values.
    for (std::size_t i = 0; i < f.choices.size(); i++) {
      if (f.choices[i] == 0) continue;
      auto c = f.choices;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      for (auto lo = std::uint64_t{0}, hi = f.choices[i]; hi - lo > 1;) {
        auto mid = lo + (hi - lo) / 2;
        c = f.choices;
        c[i] = mid;
        if (attempt(c)) {
          hi = mid;
          progress = true;
        } else {
          lo = mid;
        }
        if (budget == 0) break;
      }
      if (budget == 0) break;
    }
  }
}

inline void write_replay(const Found& f, const std::string& path) {
  FILE* o = std::fopen(path.c_str(), "w");
  if (!o) return;
  std::fprintf(o, "{\"arm\": %s, \"key\": %s,\n \"choices\": [", jstr(f.arm).c_str(), jstr(f.key).c_str());
  for (std::size_t i = 0; i < f.choices.size(); i++)
    std::fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)f.choices[i]);
  std::fprintf(o, "],\n \"message\": %s,\n \"case\": %s}\n", jstr(f.msg).c_str(), jstr(f.text).c_str());
  std::fclose(o);
}

/// Reads "arm" and "choices" back from a replay file.
inline bool read_replay(const std::string& path, Found& f) {
  auto s = slurp(path);
  auto a = s.find("\"arm\": \"");
  auto c = s.find("\"choices\": [");
  if (a == std::string::npos || c == std::string::npos) return false;
  a += 8;
  f.arm = s.substr(a, s.find('"', a) - a);
  c += 12;
  while (c < s.size() && s[c] != ']') {
    if (s[c] == ',' || s[c] == ' ') {
      c++;
      continue;
    }
    char* e;
    f.choices.push_back(std::strtoull(s.c_str() + c, &e, 10));
    if (e == s.c_str() + c) break;
    c = e - s.c_str();
  }
  return true;
}

struct Worker {
  pid_t pid = -1;
  Shared* sh = nullptr;
  std::uint64_t next = 0;
  std::string stats, err;
};

inline void campaign(const Arm& arm, std::uint64_t count, const Options& o, Stats& total) {
  unsigned jobs = o.jobs;
  unsigned restarts = 0;
  static int gen = 0;
  auto t_end = o.max_s ? now_s() + o.max_s : ~0ull;
  std::vector<Worker> ws(jobs);
  auto spawn = [&](unsigned w) {
    auto& k = ws[w];
    k.stats = o.tmp + "/w" + std::to_string(getpid()) + "." + std::to_string(gen++);
    k.err = k.stats + ".err";
    k.sh->busy = 0;
    k.sh->has_fatal = 0;
    k.pid = fork();
    if (k.pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(k.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      shared() = k.sh;
      Stats st;
      std::uint64_t n = 0;
      for (std::uint64_t i = k.next; i < count; i += jobs) {
        k.sh->current = i;
        k.sh->started = now_s();
        k.sh->busy = 1;
        Src s(case_seed(o.seed, arm.name, i));
        run_case(arm, s, &st, i);
        k.sh->busy = 0;
        if (++n % 512 == 0) dump_stats(st, k.stats);
        if (arm.isolate && n >= 64 && i + jobs < count) {
          dump_stats(st, k.stats);
          k.sh->current = i + jobs;
          _exit(78);  // fresh process, go on with the next index
        }
        if (now_s() > t_end) break;
      }
      dump_stats(st, k.stats);
      _exit(0);
    }
  };
  for (unsigned w = 0; w < jobs; w++) {
    ws[w].sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    ws[w].next = w;
    spawn(w);
  }
  unsigned live = jobs;
  while (live > 0) {
    for (unsigned w = 0; w < jobs; w++) {
      auto& k = ws[w];
      if (k.pid < 0) continue;
      int status = 0;
      bool hung = false;
      pid_t r = waitpid(k.pid, &status, WNOHANG);
      if (r != k.pid) {
        if (k.sh->busy && now_s() > k.sh->started + arm.hang_s) {
          kill(k.pid, SIGKILL);
          waitpid(k.pid, &status, 0);
          hung = true;
        } else {
          continue;
        }
      }
      k.pid = -1;
      merge_stats(total, k.stats);
      bool again = false;
      if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      } else if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 78) {
        k.next = k.sh->current;
        again = true;
      } else {
        Found f;
        f.arm = arm.name;
        f.index = k.sh->current;
        if (hung) {
          f.key = "hang";
          f.msg = "the case did not end within " + std::to_string(arm.hang_s) + " s";
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 77 && k.sh->has_fatal) {
          f.key = k.sh->fatal_key;
          f.msg = k.sh->fatal_msg;
          f.text = k.sh->text;
        } else {
          auto err = slurp(k.err);
          f.key = crash_key(err, status);
          f.msg = err.substr(0, 5000);
        }
        total.evaluations++;
        add_found(total, std::move(f));
        k.next = k.sh->current + jobs;
        again = ++restarts < (hung ? 4 : 60) && k.next < count;
      }
      unlink(k.err.c_str());
      if (again)
        spawn(w);
      else
        live--;
    }
    usleep(3000);
  }
  for (auto& k : ws) munmap(k.sh, sizeof(Shared));
}

inline int main_impl(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed")
      o.seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier")
      o.thorough = next() == "thorough";
    else if (a == "--out")
      o.out = next();
    else if (a == "--arm")
      o.arm = next();
    else if (a == "--replay")
      o.replay = next();
    else if (a == "--bytes")
      o.bytes = next();
    else if (a == "--tmp")
      o.tmp = next();
    else if (a == "--jobs")
      o.jobs = std::strtoul(next().c_str(), nullptr, 10);
    else if (a == "--scale")
      o.scale = std::atof(next().c_str());
    else if (a == "--only")
      o.only = std::atoll(next().c_str());
    else if (a == "--max-s")
      o.max_s = std::strtoul(next().c_str(), nullptr, 10);
    else if (a == "--list") {
      for (auto& x : arms()) std::printf("%s\n", x.name.c_str());
      return 0;
    }
  }
  shared() = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (!o.replay.empty() || !o.bytes.empty()) {
    Found f;
    if (!o.replay.empty()) {
      if (!read_replay(o.replay, f)) {
        std::fprintf(stderr, "cannot read %s\n", o.replay.c_str());
        return 2;
      }
    } else {
      auto d = slurp(o.bytes);
      Src s(reinterpret_cast<const std::uint8_t*>(d.data()), d.size());
      f.arm = o.arm;
    }
    auto* arm = find_arm(f.arm);
    if (!arm) {
      std::fprintf(stderr, "no arm %s\n", f.arm.c_str());
      return 2;
    }
    std::string m, t;
    auto k = probe(*arm, f.choices, o.tmp, &m, &t, nullptr);
    if (k.empty()) {
      std::printf("REPLAY ok\n");
      return 0;
    }
    std::printf("REPLAY fails key=%s\n%s\ncase: %s\n", k.c_str(), m.c_str(), t.c_str());
    return 1;
  }
  if (o.only >= 0) {  // run one generated case in-process, verbosely
    auto* arm = find_arm(o.arm);
    Src s(case_seed(o.seed, o.arm, o.only));
    Failure f;
    std::string t;
    shared() = nullptr;
    bool ok = run_case(*arm, s, nullptr, 0, &f, &t);
    std::printf("%s key=%s\n%s\ncase: %s\n", ok ? "ok" : "FAIL", f.key.c_str(), f.msg.c_str(), t.c_str());
    return !ok;
  }
  Stats total;
  std::string per_arm;
  for (auto& a : arms()) {
    if (!o.arm.empty() && a.name != o.arm) continue;
    auto n = static_cast<std::uint64_t>((o.thorough ? a.thorough : a.quick) * o.scale);
    auto e0 = total.evaluations, n0 = total.nontrivial;
    auto s0 = total.samples.size();
    auto t0 = now_s();
    (void)s0;
    campaign(a, n, o, total);
    per_arm += (per_arm.empty() ? "" : ", ") + jstr(a.name) + ": {\"evaluations\": " +
               std::to_string(total.evaluations - e0) + ", \"nontrivial\": " + std::to_string(total.nontrivial - n0) +
               ", \"seconds\": " + std::to_string(now_s() - t0) + "}";
  }
  // Make every failure a shrunk choice sequence.
  std::vector<Found> fs;
  for (auto& [k, f] : total.found) fs.push_back(f);
  unsigned shrunk = 0;
  auto* rec = static_cast<std::uint64_t*>(
      mmap(nullptr, (live_rec_cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (auto& f : fs) {
    auto* arm = find_arm(f.arm);
    Src s(case_seed(o.seed, f.arm, f.index));
    // Recover the choices: run the generated case again in a child that records every draw in shared memory.
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 2);
      live_rec() = rec;
      rec[0] = 0;
      shared() = nullptr;
      alarm(arm->hang_s);
      run_case(*arm, s, nullptr, 0);
      _exit(0);
    }
    int status;
    waitpid(pid, &status, 0);
    f.choices.assign(rec + 1, rec + 1 + rec[0]);
    std::string m, t;
    auto key = probe(*arm, f.choices, o.tmp, &m, &t, nullptr);
    if (key == f.key && f.key != "hang" && shrunk++ < 6) shrink(*arm, f, o.tmp, 600, 25);
  }
  if (!o.out.empty()) {
    FILE* out = std::fopen(o.out.c_str(), "w");
    std::fprintf(out, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"checks\": %llu,\n",
                 (unsigned long long)total.evaluations, (unsigned long long)total.nontrivial,
                 (unsigned long long)total.distinct.size(), (unsigned long long)total.checks);
    std::fprintf(out, " \"arms\": {%s},\n \"labels\": {", per_arm.c_str());
    bool first = true;
    for (auto& [l, c] : total.labels) {
      std::fprintf(out, "%s%s: %llu", first ? "" : ", ", jstr(l).c_str(), (unsigned long long)c);
      first = false;
    }
    std::fprintf(out, "},\n \"samples\": [");
    first = true;
    for (auto& s : total.samples) {
      std::fprintf(out, "%s%s", first ? "" : ",\n  ", jstr(s).c_str());
      first = false;
    }
    std::fprintf(out, "],\n \"failures\": [");
    first = true;
    for (std::size_t i = 0; i < fs.size(); i++) {
      auto path = o.out + ".fail" + std::to_string(i) + ".json";
      write_replay(fs[i], path);
      std::fprintf(out, "%s{\"arm\": %s, \"key\": %s, \"count\": %llu, \"index\": %llu, \"replay\": %s, \"message\": %s}",
                   first ? "" : ",\n  ", jstr(fs[i].arm).c_str(), jstr(fs[i].key).c_str(),
                   (unsigned long long)fs[i].count, (unsigned long long)fs[i].index, jstr(path).c_str(),
                   jstr(fs[i].msg.substr(0, 2000)).c_str());
      first = false;
    }
    std::fprintf(out, "]}\n");
    std::fclose(out);
  } else {
    std::printf("%llu cases, %llu non-trivial, %llu checks\n", (unsigned long long)total.evaluations,
                (unsigned long long)total.nontrivial, (unsigned long long)total.checks);
    for (auto& [l, c] : total.labels) std::printf("  %-40s %llu\n", l.c_str(), (unsigned long long)c);
    for (auto& f : fs)
      std::printf("FAIL %s key=%s count=%llu index=%llu\n  %s\n  case: %s\n  choices: %zu\n", f.arm.c_str(),
                  f.key.c_str(), (unsigned long long)f.count, (unsigned long long)f.index, f.msg.c_str(),
                  f.text.c_str(), f.choices.size());
  }
  return fs.empty() ? 0 : 1;
}

}  // namespace pbt
#endif
