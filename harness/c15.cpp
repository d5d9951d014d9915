#include "arpc/highway_hash.h"
#include "hash_ref.h"
#include "hash_util.h"
#include "pbt.h"
using arpc::highway_hash;

PBT_ARM(one_shot_vs_reference, 60000, 3000000) {
  auto k = gen_key(c);
  auto m = gen_message(c);
  c.note("key=", keystr(k), " msg=", pbt::hex(m));
  c.nontrivial(!m.empty());
  c.label("mod32=" + std::to_string(m.size() % 32));
  // Exactly sized block at a chosen misalignment: reads past the end are ASan errors.
  std::size_t off = c.src.below(17);
  std::vector<std::uint8_t> store(off + m.size());
  std::copy(m.begin(), m.end(), store.begin() + off);
  store.shrink_to_fit();
  const std::uint8_t* p = store.data() + off;
  auto r64 = hash_ref::h64(m, k.data());
  auto r128 = hash_ref::h128(m, k.data());
  auto r256 = hash_ref::h256(m, k.data());
  auto g64 = highway_hash::hash64(p, m.size(), k.data());
  PBT_CHECK(c, g64 == r64, "hash64", "got " << g64 << " reference " << r64);
  std::array<std::uint64_t, 2> g128;
  highway_hash::hash128(p, m.size(), k.data(), g128.data());
  PBT_CHECK(c, g128 == r128, "hash128", "hash128 differs from the reference");
  std::array<std::uint64_t, 4> g256;
  highway_hash::hash256(p, m.size(), k.data(), g256.data());
  PBT_CHECK(c, g256 == r256, "hash256", "hash256 differs from the reference");
  PBT_CHECK(c, std::memcmp(m.data(), p, m.size()) == 0, "input-modified", "the input was modified");
}

PBT_ARM(streaming_vs_reference, 30000, 1500000) {
  auto k = gen_key(c);
  auto m = gen_message(c);
  c.note("key=", keystr(k), " msg=", pbt::hex(m));
  c.nontrivial(!m.empty());
  highway_hash h(k.data());
  std::size_t done = 0;
  while (done < m.size()) {
    auto n = gen_piece(c, m.size() - done);
    std::vector<std::uint8_t> piece(m.begin() + done, m.begin() + done + n);
    h.append(piece.data(), n);
    c.note(" +", n);
    done += n;
  }
  auto r64 = hash_ref::h64(m, k.data());
  auto r128 = hash_ref::h128(m, k.data());
  auto r256 = hash_ref::h256(m, k.data());
  PBT_CHECK(c, h.finish64() == r64, "stream64", "streamed 64-bit hash differs from the reference");
  std::array<std::uint64_t, 2> g128;
  h.finish128(g128.data());
  PBT_CHECK(c, g128 == r128, "stream128", "streamed 128-bit hash differs from the reference");
  std::array<std::uint64_t, 4> g256;
  h.finish256(g256.data());
  PBT_CHECK(c, g256 == r256, "stream256", "streamed 256-bit hash differs from the reference");
}

// Every length 0..300 (and so every remainder after 0..9 blocks), random content.
PBT_ARM(every_length, 3000, 100000) {
  auto k = gen_key(c);
  auto n = static_cast<std::size_t>(c.src.range<std::uint64_t>(0, 300));
  std::uint64_t st = c.src.draw(~0ull >> 1);
  std::string m;
  for (std::size_t i = 0; i < n; i++) m.push_back(static_cast<char>(pbt::splitmix(st)));
  c.nontrivial(n > 0);
  c.note("len=", n, " key=", keystr(k), " seed=", st);
  auto* p = reinterpret_cast<const std::uint8_t*>(m.data());
  PBT_CHECK(c, highway_hash::hash64(p, n, k.data()) == hash_ref::h64(m, k.data()), "hash64", "length " << n);
  std::array<std::uint64_t, 2> g128;
  highway_hash::hash128(p, n, k.data(), g128.data());
  PBT_CHECK(c, g128 == hash_ref::h128(m, k.data()), "hash128", "length " << n);
  std::array<std::uint64_t, 4> g256;
  highway_hash::hash256(p, n, k.data(), g256.data());
  PBT_CHECK(c, g256 == hash_ref::h256(m, k.data()), "hash256", "length " << n);
}

// Published test vectors (64-bit, key 00 01 .. 1f, message 00 01 .. n-1).
PBT_ARM(published_vectors, 9, 9) {
  static const std::uint64_t want[] = {0x907A56DE22C26E53ull, 0x7EAB43AAC7CDDD78ull, 0xB8D0569AB0B53D62ull,
                                       0x5C6BEFAB8A463D80ull, 0xF205A46893007EDAull, 0x2B8A1668E4A94541ull,
                                       0xBD4CCC325BEFCA6Full, 0x4D02AE1738F59482ull};
  std::uint64_t key[4] = {0x0706050403020100ull, 0x0F0E0D0C0B0A0908ull, 0x1716151413121110ull, 0x1F1E1D1C1B1A1918ull};
  c.nontrivial();
  c.note("published 64-bit vectors for lengths 0..7");
  std::string m;
  for (auto w : want) {
    PBT_CHECK(c, hash_ref::h64(m, key) == w, "oracle-vector", "the reference disagrees with the published vector");
    auto g = highway_hash::hash64(reinterpret_cast<const std::uint8_t*>(m.data()), m.size(), key);
    PBT_CHECK(c, g == w, "vector", "length " << m.size());
    m.push_back(static_cast<char>(m.size()));
  }
}
