// Arbitrary, damaged and truncated bytes against the reference decoder.
#include "allocs.h"
#include "ser.h"
using namespace ser;

namespace {
const char* bad_name(model::Bad b) { return b == model::Bad::eof ? "end of data" : "mismatch"; }

std::string valid_bytes(pbt::Case& c, const Ops& o, bool big) {
  model::Gen g(c);
  g.budget = 40;
  auto v = o.make();
  o.gen(g, v.get());
  model::Enc r;
  r.big = big;
  o.ref_enc(v.get(), r);
  if (r.out.size() > 3000) r.out.resize(3000);
  return r.out;
}
void mutate(pbt::Case& c, std::string& s) {
  auto n = 1 + c.src.below(4);
  while (n--) {
    auto at = s.empty() ? 0 : c.src.below(s.size());
    switch (c.src.weighted({3, 3, 2, 2, 1, 2})) {
      case 0:
        if (!s.empty()) s[at] = static_cast<char>(s[at] ^ (1 << c.src.below(8)));
        break;
      case 1:
        if (!s.empty()) s[at] = static_cast<char>(c.src.byte());
        break;
      case 2:
        s.insert(at, c.src.bytes(1 + c.src.below(3)));
        break;
      case 3:
        if (!s.empty()) s.erase(at, 1 + c.src.below(4));
        break;
      case 4:
        s.resize(at);
        break;
      default: {  // a long size
        static const char* sizes[] = {"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x02",
                                      "\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x80\x01",
                                      "\xff\x7f", "\x82\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", "\x81\x80",
                                      "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80"};
        if (!s.empty()) s.erase(at, 1);
        s.insert(at, sizes[c.src.below(9)]);
      }
    }
  }
}

// Decodes `s` as `o` with the library and with the reference, and compares.
void compare(pbt::Case& c, const Ops& o, const std::string& s, bool big, bool dirty_dst) {
  allocs::max_size = 16 << 20;
  struct Reset {
    ~Reset() { allocs::max_size = std::size_t{1} << 40; }
  } reset;
  std::optional<model::Bad> want;
  auto ref = o.make();
  std::size_t used = 0;
  model::Dec rd(s, big);
  try {
    o.ref_dec(ref.get(), rd);
    used = s.size() - static_cast<std::size_t>(rd.e - rd.p);
  } catch (model::Bad b) {
    want = b;
  }
  auto dst = o.make();
  model::Gen dg(c);
  dg.budget = 20;
  if (dirty_dst) o.gen(dg, dst.get());
  // The input in an exactly sized heap block, so that over-reads are seen.
  std::string in(s.begin(), s.end());
  in.shrink_to_fit();
  LibDec d(in, big);
  std::string got;
  try {
    o.dec(dst.get(), d);
  } catch (const std::exception& e) {
    got = e.what();
    if (got.empty()) got = "exception";
  }
  allocs::max_size = std::size_t{1} << 40;
  if (!want) {
    PBT_CHECK(c, got.empty(), "rejected-good", o.name << " from " << pbt::hex(s) << ": " << got);
    model::Eq q;
    PBT_CHECK(c, o.eq(ref.get(), dst.get(), q), "misread",
              o.name << " from " << pbt::hex(s) << ": expected " << cut(o.show(ref.get())) << " got "
                     << cut(o.show(dst.get())));
    auto rest = d.rest();
    PBT_CHECK(c, s.size() - rest == used, "consumed", o.name << " from " << pbt::hex(s) << ": consumed "
                                                             << s.size() - rest << " not " << used);
    // What was accepted is a value: it encodes and decodes to an equal one.
    LibEnc e;
    e.big = big;
    o.enc(dst.get(), e);
    LibDec d2(e.out, big);
    auto again = o.make();
    try {
      o.dec(again.get(), d2);
    } catch (const std::exception& x) {
      c.fail("re-encode", PBT_STR_(o.name << " from " << pbt::hex(s) << ": " << x.what()));
    }
    model::Eq q2;
    PBT_CHECK(c, o.eq(dst.get(), again.get(), q2), "re-encode", o.name << " from " << pbt::hex(s));
    c.label("accepted");
  } else {
    PBT_CHECK(c, !got.empty(), "accepted-bad", o.name << " from " << pbt::hex(s) << ": expected " << bad_name(*want)
                                                      << ", got " << cut(o.show(dst.get())));
    c.label(std::string("rejected: ") + bad_name(*want));
    // The destination is still usable.
    (void)o.show(dst.get());
  }
}
}  // namespace

PBT_ARM(damaged, 30000, 1500000) {
  const Ops& o = types()[c.src.below(types().size())];
  bool big = c.src.coin();
  bool dirty = c.src.coin();
  auto kind = c.src.weighted({6, 1, 2});
  std::string s;
  if (kind == 0) {
    s = valid_bytes(c, o, big);
    mutate(c, s);
  } else if (kind == 1) {
    s = c.src.bytes_upto(60);
  } else {
    s = valid_bytes(c, types()[c.src.below(types().size())], big);
    if (c.src.coin()) mutate(c, s);
  }
  c.note(o.name, " from ", pbt::hex(s, 200));
  c.nontrivial(s.size() > 1);
  compare(c, o, s, big, dirty);
}

// Nothing is left allocated after a decode that failed or succeeded.
PBT_ARM(leaks, 8000, 300000) {
  const Ops& o = types()[c.src.below(types().size())];
  bool big = c.src.coin();
  auto s = valid_bytes(c, o, big);
  if (c.src.chance(3, 4)) mutate(c, s);
  c.note(o.name, " from ", pbt::hex(s, 200));
  c.nontrivial(s.size() > 1);
  long live[2];
  for (int round = 0; round < 2; round++) {
    allocs::max_size = 16 << 20;
    {
      std::string in(s);
      LibDec d(in, big);
      auto dst = o.make();
      try {
        o.dec(dst.get(), d);
      } catch (const std::exception&) {
      }
    }
    allocs::max_size = std::size_t{1} << 40;
    live[round] = allocs::live;
  }
  PBT_CHECK(c, live[1] == live[0], "leak", o.name << " from " << pbt::hex(s) << ": " << live[1] - live[0]
                                                 << " allocations stay");
}

// Every proper prefix of a valid encoding is an end of file.
PBT_ARM(prefixes, 6000, 200000) {
  const Ops& o = types()[c.src.below(types().size())];
  bool big = c.src.coin();
  auto s = valid_bytes(c, o, big);
  if (s.size() >= 3000) s.resize(64);
  c.note(o.name, " from prefixes of ", pbt::hex(s));
  c.nontrivial(s.size() > 1);
  for (std::size_t n = 0; n < s.size(); n += s.size() > 400 ? 1 + c.src.below(40) : 1) {
    std::string in(s, 0, n);
    LibDec d(in, big);
    auto dst = o.make();
    try {
      o.dec(dst.get(), d);
    } catch (const arpc::errors::eof&) {
      c.checks++;
      continue;
    } catch (const std::exception& e) {
      c.fail("prefix-other-error", PBT_STR_(o.name << " from " << n << " bytes of " << pbt::hex(s) << ": " << e.what()));
    }
    c.fail("prefix-accepted", PBT_STR_(o.name << " from " << n << " bytes of " << pbt::hex(s)));
  }
}

// The size encoding itself.
PBT_ARM(size_groups, 20000, 1000000) {
  std::string s;
  auto n = c.src.below(13);
  for (std::size_t i = 0; i < n; i++) {
    static const unsigned char hi[] = {0x80, 0xff, 0x81, 0xfe, 0xc0};
    s.push_back(static_cast<char>(c.src.coin() ? hi[c.src.below(5)] : (0x80 | c.src.byte())));
  }
  s.push_back(static_cast<char>(c.src.coin() ? c.src.below(3) : (c.src.byte() & 0x7f)));
  s += std::string(c.src.below(300), 'e');
  c.note(pbt::hex(s));
  c.nontrivial(n > 0);
  model::Dec rd(s, false);
  std::optional<std::size_t> want;
  bool too_long = false;
  try {
    want = rd.size();
  } catch (model::Bad) {
    too_long = true;
  }
  allocs::max_size = 16 << 20;
  std::string got;
  LibDec d(s, c.src.coin());
  std::vector<std::uint8_t> v;
  std::string err;
  bool mismatch = false;
  try {
    d.big ? d.be(v) : d.le(v);
  } catch (const arpc::errors::data_mismatch& e) {
    err = "mismatch";
    mismatch = true;
  } catch (const std::exception& e) {
    err = e.what();
  }
  allocs::max_size = std::size_t{1} << 40;
  if (too_long) {
    PBT_CHECK(c, mismatch, "size-overflow", "a size that does not fit gave '" << err << "'");
  } else if (*want <= static_cast<std::size_t>(rd.e - rd.p)) {
    PBT_CHECK(c, err.empty() && v.size() == *want, "size", "expected " << *want << ", got " << v.size() << " " << err);
    c.label("accepted");
  } else {
    PBT_CHECK(c, !err.empty() && !mismatch, "size-past-end", "size " << *want << " gave '" << err << "'");
  }
}

// Elements without bytes: the input does not bound the work.
PBT_ARM(empty_elements, 1, 1) {
  c.note("a list of 2^40 empty tuples");
  c.nontrivial();
  std::string s("\x80\x80\x80\x80\x80\x20", 6);
  LibDec d(s, false);
  std::list<std::tuple<>> v;
  allocs::total = 0;
  allocs::max_total = 1000000;
  std::string err;
  try {
    d.le(v);
  } catch (const std::exception& e) {
    err = e.what();
  }
  allocs::max_total = -1;
  PBT_CHECK(c, v.size() < 999000, "unbounded", "6 bytes of input made " << v.size() << " elements until memory ran out");
}

// Unbounded nesting: the input bounds the depth of the recursion only by its length.
namespace {
struct Chain : arpc::serializable<Chain> {
  std::unique_ptr<Chain> next;
  ~Chain() {
    // Not recursive, so that only the decoder's own recursion counts.
    auto p = std::move(next);
    while (p) p = std::move(p->next);
  }
  ARPC_FIELDS(next)
};
}  // namespace
PBT_ARM(deep_nesting, 1, 1) {
  c.note("a chain of 2000000 unique pointers");
  c.nontrivial();
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    std::string s(2000000, '\x01');
    LibDec d(s, false);
    Chain ch;
    try {
      d.le(ch);
    } catch (const std::exception&) {
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "stack-overflow", "2 MB of input overflowed the stack");
}
