#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
#include "hash_ref.h"
#include "hash_util.h"
#include "pbt.h"
using arpc::mac_codec;
namespace {
enum outcome { DELIVERED, MISMATCH, OTHER };
outcome decode(const mac_codec& m, const std::string& in, std::string& out, std::string& what) {
  auto codec = m;
  out = in;
  out.shrink_to_fit();
  try {
    codec.decode(out);
    return DELIVERED;
  } catch (const arpc::errors::data_mismatch&) {
    return MISMATCH;
  } catch (const std::exception& e) {
    what = e.what();
    return OTHER;
  }
}
std::string payload(pbt::Case& c) {
  return c.src.weighted({5, 1}) == 0 ? c.src.bytes(c.src.range<std::uint64_t>(0, 70)) : c.src.bytes_upto(700);
}
}  // namespace

PBT_ARM(round_trip, 20000, 1000000) {
  bool dflt = c.src.chance(1, 4);
  auto k = gen_key(c);
  if (dflt) std::copy(mac_codec::default_key, mac_codec::default_key + 4, k.begin());
  mac_codec m = dflt ? mac_codec() : mac_codec(k.data());
  auto p = payload(c);
  c.note(dflt ? "default key" : "key " + keystr(k), " payload ", pbt::hex(p));
  c.nontrivial(!p.empty());
  std::string e = p;
  m.encode(e);
  std::string want = p;
  auto h = hash_ref::h64(p, k.data());
  for (int i = 0; i < 8; i++) want.push_back(static_cast<char>(h >> (8 * i)));
  PBT_CHECK(c, e == want, "tag", "encoded " << pbt::hex(e) << " expected " << pbt::hex(want));
  // Once more with the same object: no state is carried from one packet to the next.
  std::string e2 = p;
  m.encode(e2);
  PBT_CHECK(c, e2 == e, "repeat", "encoding twice differs");
  std::string d, what;
  auto o = decode(m, e, d, what);
  PBT_CHECK(c, o == DELIVERED, "rejected", "an intact packet was rejected " << what);
  PBT_CHECK(c, d == p, "payload", "decoded " << pbt::hex(d));
}

// Exhaustively flips every bit, cuts at every length, and tries random edits and keys.
PBT_ARM(tampering, 1500, 60000) {
  auto k = gen_key(c);
  mac_codec m(k.data());
  auto p = c.src.bytes(c.src.range<std::uint64_t>(0, 40));
  std::string e = p;
  m.encode(e);
  c.note("key ", keystr(k), " packet ", pbt::hex(e), ": every bit flipped, every truncation, random edits");
  c.nontrivial();
  std::string d, what;
  auto reject = [&](const std::string& t, const char* key) {
    if (t == e) return;
    auto o = decode(m, t, d, what);
    PBT_CHECK(c, o == MISMATCH, key,
              (o == DELIVERED ? "delivered a changed packet " : "threw something else ") << what << " " << pbt::hex(t));
  };
  for (std::size_t i = 0; i < e.size() * 8; i++) {
    auto t = e;
    t[i / 8] = static_cast<char>(t[i / 8] ^ (1 << (i % 8)));
    reject(t, "bit-flip");
  }
  for (std::size_t i = 0; i < e.size(); i++) {
    reject(e.substr(0, i), "truncated");
    reject(e.substr(i + 1), "head-cut");
    auto t = e;
    t.erase(i, 1);
    reject(t, "byte-removed");
    t = e;
    t.insert(i, 1, static_cast<char>(c.src.byte()));
    reject(t, "byte-inserted");
    t = e;
    t[i] = static_cast<char>(c.src.byte());
    reject(t, "byte-changed");
    if (i + 1 < e.size()) {
      t = e;
      std::swap(t[i], t[i + 1]);
      reject(t, "swapped");
    }
  }
  for (int z = 1; z <= 9; z++) {
    reject(e + std::string(z, '\0'), "extended");
    reject(std::string(z, '\0') + e, "prefixed");
  }
  reject(e + e, "doubled");
  reject(e + std::string(1, static_cast<char>(c.src.byte())), "extended");
  // Any other key.
  for (int w = 0; w < 4; w++) {
    for (int b = 0; b < 64; b += 1 + static_cast<int>(c.src.below(9))) {
      auto k2 = k;
      k2[w] ^= 1ull << b;
      auto o = decode(mac_codec(k2.data()), e, d, what);
      PBT_CHECK(c, o == MISMATCH, "other-key", "accepted with key word " << w << " bit " << b << " changed");
    }
  }
}

// Random strings, short ones in particular.
PBT_ARM(arbitrary_bytes, 20000, 1000000) {
  auto k = gen_key(c);
  mac_codec m(k.data());
  auto t = c.src.bytes(c.src.range<std::uint64_t>(0, 24));
  c.note("key ", keystr(k), " bytes ", pbt::hex(t));
  c.nontrivial(t.size() < 9 || t.size() > 15);
  bool valid = false;
  if (t.size() >= 8) {
    auto h = hash_ref::h64(t.substr(0, t.size() - 8), k.data());
    valid = true;
    for (int i = 0; i < 8; i++) valid &= t[t.size() - 8 + i] == static_cast<char>(h >> (8 * i));
  }
  std::string d, what;
  auto o = decode(m, t, d, what);
  PBT_CHECK(c, o == (valid ? DELIVERED : MISMATCH), "arbitrary", "outcome " << o << " " << what);
}

// A tag that agrees with the right one in all but one byte, or is a permutation of it.
PBT_ARM(near_tags, 4000, 200000) {
  auto k = gen_key(c);
  mac_codec m(k.data());
  auto p = payload(c);
  auto e = p;
  m.encode(e);
  auto t = e;
  c.nontrivial();
  std::size_t n = p.size();
  switch (c.src.below(4)) {
    case 0:
      t[n + c.src.below(8)] = static_cast<char>(c.src.byte());
      break;
    case 1:
      std::reverse(t.begin() + n, t.end());
      break;
    case 2:
      std::rotate(t.begin() + n, t.begin() + n + c.src.below(8), t.end());
      break;
    default:
      t.replace(n, 4, t.substr(n + 4, 4));
  }
  c.note("packet ", pbt::hex(e), " as ", pbt::hex(t));
  std::string d, what;
  auto o = decode(m, t, d, what);
  PBT_CHECK(c, (o == DELIVERED) == (t == e) && o != OTHER, "near-tag", "outcome " << o << " " << what);
}
