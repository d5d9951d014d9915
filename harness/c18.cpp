#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
#include "cobs_ref.h"
#include "pbt.h"
using arpc::cobs_codec;
namespace {
// Payloads rich in runs of non-zero bytes around the 254 limit.
std::string gen_payload(pbt::Case& c) {
  if (c.src.chance(1, 3)) return c.src.bytes_upto(1300);
  std::string s;
  auto n = c.src.range<std::uint64_t>(0, 5);
  for (std::uint64_t i = 0; i < n; i++) {
    static const int runs[] = {0, 1, 2, 3, 252, 253, 254, 255, 256, 507, 508, 509, 510, 762, 763};
    std::size_t r = c.src.coin() ? runs[c.src.below(std::size(runs))] : c.src.range<std::uint64_t>(0, 300);
    std::uint64_t st = c.src.draw(~0ull >> 1);
    bool one = c.src.coin();
    for (std::size_t k = 0; k < r; k++) s.push_back(one ? static_cast<char>(st % 255 + 1) : static_cast<char>(pbt::splitmix(st) % 255 + 1));
    if (c.src.chance(3, 4)) s.append(c.src.range<std::uint64_t>(0, 3), '\0');
  }
  return s;
}
int decode(const std::string& e, std::string& d, std::string& what) {
  cobs_codec codec;
  d = e;
  d.shrink_to_fit();
  try {
    codec.decode(d);
    return 1;
  } catch (const arpc::errors::data_mismatch&) {
    return 0;
  } catch (const std::exception& x) {
    what = x.what();
    return -1;
  }
}
}  // namespace

PBT_ARM(encode, 30000, 1500000) {
  auto p = gen_payload(c);
  c.note("payload(", p.size(), ") ", pbt::hex(p));
  bool longrun = false;
  std::size_t run = 0;
  for (char ch : p) {
    run = ch ? run + 1 : 0;
    longrun |= run >= 254;
  }
  if (longrun) c.label("run>=254");
  c.nontrivial(longrun || p.find('\0') != std::string::npos);
  cobs_codec codec;
  std::string e = p;
  e.shrink_to_fit();
  codec.encode(e);
  PBT_CHECK(c, e.find('\0') == std::string::npos, "zero", "the encoding contains a zero: " << pbt::hex(e));
  PBT_CHECK(c, e.size() > p.size() && e.size() <= p.size() + 1 + p.size() / 254, "size",
            p.size() << " bytes became " << e.size());
  PBT_CHECK(c, e == cobs_ref::encode(p), "definition", "differs from the definition: " << pbt::hex(e));
  std::string d, what;
  int o = decode(e, d, what);
  PBT_CHECK(c, o == 1, "rejected", "own encoding rejected " << what);
  PBT_CHECK(c, d == p, "round-trip", "decoded to " << pbt::hex(d));
}

PBT_ARM(decode_arbitrary, 60000, 3000000) {
  std::string e;
  switch (c.src.weighted({3, 3, 2, 2})) {
    case 0:
      e = c.src.bytes_upto(300);
      break;
    case 1: {  // structured: valid blocks, then perhaps damaged
      auto n = c.src.range<std::uint64_t>(0, 6);
      for (std::uint64_t i = 0; i < n; i++) {
        static const int codes[] = {1, 2, 3, 10, 253, 254, 255, 255};
        int code = codes[c.src.below(8)];
        e.push_back(static_cast<char>(code));
        auto st = c.src.draw(~0ull >> 1);
        for (int k = 1; k < code; k++) e.push_back(static_cast<char>(pbt::splitmix(st) % 255 + 1));
      }
      if (c.src.chance(1, 4) && !e.empty()) e.resize(c.src.below(e.size()));
      if (c.src.chance(1, 4) && !e.empty()) e[c.src.below(e.size())] = static_cast<char>(c.src.byte());
      break;
    }
    case 2: {  // a damaged encoding
      e = cobs_ref::encode(gen_payload(c));
      auto n = c.src.range<std::uint64_t>(1, 3);
      while (n-- && !e.empty()) {
        auto at = c.src.below(e.size());
        switch (c.src.below(3)) {
          case 0:
            e[at] = static_cast<char>(c.src.byte());
            break;
          case 1:
            e.erase(at, 1);
            break;
          default:
            e.insert(at, 1, static_cast<char>(c.src.byte()));
        }
      }
      break;
    }
    default:
      e = c.src.bytes(c.src.range<std::uint64_t>(0, 6));
  }
  c.note("bytes(", e.size(), ") ", pbt::hex(e));
  std::string want, d, what;
  bool ok = cobs_ref::decode(e, want);
  if (ok && e.find('\0') != std::string::npos) {
    // A zero as data: in no encoding.
    ok = false;
    c.label("zero-data");
  }
  c.label(ok ? "valid" : "invalid");
  c.nontrivial(!e.empty());
  int o = decode(e, d, what);
  PBT_CHECK(c, o != -1, "error-class", "threw something other than data_mismatch: " << what);
  PBT_CHECK(c, o == (ok ? 1 : 0), ok ? "valid-rejected" : "invalid-accepted", "decoded to " << pbt::hex(d));
  if (ok) PBT_CHECK(c, d == want, "payload", "decoded to " << pbt::hex(d) << " want " << pbt::hex(want));
}
