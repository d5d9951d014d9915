#ifndef VERIF_HASH_UTIL_H_
#define VERIF_HASH_UTIL_H_
#include <array>
#include "pbt.h"
inline std::array<std::uint64_t, 4> gen_key(pbt::Case& c) {
  std::array<std::uint64_t, 4> k;
  for (auto& x : k) x = c.src.integer<std::uint64_t>();
  return k;
}
inline std::string keystr(const std::array<std::uint64_t, 4>& k) {
  std::ostringstream os;
  os << std::hex;
  for (auto x : k) os << x << "/";
  return os.str();
}
inline std::string gen_message(pbt::Case& c) {
  switch (c.src.weighted({6, 3, 1})) {
    case 0:
      return c.src.bytes(static_cast<std::size_t>(c.src.range<std::uint64_t>(0, 100)));
    case 1:
      return c.src.bytes_upto(600);
    default:
      return c.src.bytes(static_cast<std::size_t>(c.src.range<std::uint64_t>(0, 5000)));
  }
}
inline std::size_t gen_piece(pbt::Case& c, std::size_t left) {
  std::size_t n;
  switch (c.src.weighted({3, 3, 1, 1})) {
    case 0:
      n = c.src.range<std::uint64_t>(0, 8);
      break;
    case 1:
      n = c.src.range<std::uint64_t>(0, 70);
      break;
    case 2:
      n = 32 * c.src.range<std::uint64_t>(0, 4);
      break;
    default:
      n = left;
  }
  return n < left ? n : left;
}
#endif
