// Independent HighwayHash, written from the published description (byte
// shuffles on 128-bit halves, padding by bytes), used as oracle.
#ifndef VERIF_HASH_REF_H_
#define VERIF_HASH_REF_H_
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
namespace hash_ref {
using u64 = std::uint64_t;
using lanes = std::array<u64, 4>;
inline u64 swap32(u64 x) { return (x >> 32) | (x << 32); }
struct State {
  lanes v0, v1, mul0, mul1;
  explicit State(const u64* key) {
    mul0 = {0xdbe6d5d5fe4cce2full, 0xa4093822299f31d0ull, 0x13198a2e03707344ull, 0x243f6a8885a308d3ull};
    mul1 = {0x3bd39e10cb0ef593ull, 0xc0acf169b5f18a8cull, 0xbe5466cf34e90c6cull, 0x452821e638d01377ull};
    for (int i = 0; i < 4; i++) {
      v0[i] = mul0[i] ^ key[i];
      v1[i] = mul1[i] ^ swap32(key[i]);
    }
  }
  static void zip_add(lanes& to, const lanes& from) {
    static const int shuf[16] = {3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7};
    for (int h = 0; h < 2; h++) {
      unsigned char b[16];
      for (int i = 0; i < 16; i++) b[i] = static_cast<unsigned char>(from[2 * h + i / 8] >> (8 * (i % 8)));
      for (int l = 0; l < 2; l++) {
        u64 x = 0;
        for (int i = 7; i >= 0; i--) x = (x << 8) | b[shuf[8 * l + i]];
        to[2 * h + l] += x;
      }
    }
  }
  void update(const lanes& p) {
    for (int i = 0; i < 4; i++) {
      v1[i] += p[i];
      v1[i] += mul0[i];
      mul0[i] ^= (v0[i] >> 32) * (v1[i] & 0xffffffffull);
      v0[i] += mul1[i];
      mul1[i] ^= (v1[i] >> 32) * (v0[i] & 0xffffffffull);
    }
    zip_add(v0, v1);
    zip_add(v1, v0);
  }
  void packet(const unsigned char* b) {
    lanes p{};
    for (int i = 31; i >= 0; i--) p[i / 8] = (p[i / 8] << 8) | b[i];
    update(p);
  }
  void feed(const std::string& m) {
    auto* d = reinterpret_cast<const unsigned char*>(m.data());
    std::size_t n = m.size(), i = 0;
    for (; n - i >= 32; i += 32) packet(d + i);
    unsigned r = static_cast<unsigned>(n - i);
    if (!r) return;
    for (int k = 0; k < 4; k++) {
      v0[k] += (u64(r) << 32) + r;
      std::uint32_t lo = static_cast<std::uint32_t>(v1[k]), hi = static_cast<std::uint32_t>(v1[k] >> 32);
      lo = (lo << r) | (lo >> (32 - r));
      hi = (hi << r) | (hi >> (32 - r));
      v1[k] = (u64(hi) << 32) | lo;
    }
    unsigned char b[32] = {0};
    unsigned whole = r & ~3u, rest = r & 3u;
    std::memcpy(b, d + i, whole);
    if (r >= 16) {
      std::memcpy(b + 28, d + i + r - 4, 4);
    } else if (rest) {
      b[16] = d[i + whole];
      b[17] = d[i + whole + rest / 2];
      b[18] = d[i + whole + rest - 1];
    }
    packet(b);
  }
  void rounds(int n) {
    while (n--) update({swap32(v0[2]), swap32(v0[3]), swap32(v0[0]), swap32(v0[1])});
  }
};
inline u64 h64(const std::string& m, const u64* key) {
  State s(key);
  s.feed(m);
  s.rounds(4);
  return s.v0[0] + s.v1[0] + s.mul0[0] + s.mul1[0];
}
inline std::array<u64, 2> h128(const std::string& m, const u64* key) {
  State s(key);
  s.feed(m);
  s.rounds(6);
  return {s.v0[0] + s.mul0[0] + s.v1[2] + s.mul1[2], s.v0[1] + s.mul0[1] + s.v1[3] + s.mul1[3]};
}
/// x^128 + x^2 + x reduction of the published algorithm, on 256 bits.
inline void reduce(u64 a3, u64 a2, u64 a1, u64 a0, u64& m1, u64& m0) {
  unsigned __int128 hi = (static_cast<unsigned __int128>(a3 & 0x3fffffffffffffffull) << 64) | a2;
  unsigned __int128 lo = (static_cast<unsigned __int128>(a1) << 64) | a0;
  lo ^= (hi << 1) ^ (hi << 2);
  m1 = static_cast<u64>(lo >> 64);
  m0 = static_cast<u64>(lo);
}
inline std::array<u64, 4> h256(const std::string& m, const u64* key) {
  State s(key);
  s.feed(m);
  s.rounds(10);
  std::array<u64, 4> r;
  reduce(s.v1[1] + s.mul1[1], s.v1[0] + s.mul1[0], s.v0[1] + s.mul0[1], s.v0[0] + s.mul0[0], r[1], r[0]);
  reduce(s.v1[3] + s.mul1[3], s.v1[2] + s.mul1[2], s.v0[3] + s.mul0[3], s.v0[2] + s.mul0[2], r[3], r[2]);
  return r;
}
}  // namespace hash_ref
#endif
