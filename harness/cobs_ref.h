// COBS by its definition (Cheshire & Baker): append a zero, cut into blocks
// that end at a zero or after 254 non-zero bytes, write each block's code.
#ifndef VERIF_COBS_REF_H_
#define VERIF_COBS_REF_H_
#include <string>
namespace cobs_ref {
inline std::string encode(const std::string& payload) {
  std::string in = payload + std::string(1, '\0'), out;
  std::size_t i = 0;
  while (i < in.size()) {
    std::size_t n = 0;
    while (n < 254 && in[i + n] != 0) n++;
    out.push_back(static_cast<char>(n + 1));
    out.append(in, i, n);
    i += n + (n < 254 ? 1 : 0);
  }
  return out;
}
/// False when the bytes are not an encoding of anything.
inline bool decode(const std::string& e, std::string& out) {
  out.clear();
  if (e.empty()) return false;
  std::size_t i = 0;
  bool zero = false;
  while (i < e.size()) {
    std::size_t code = static_cast<unsigned char>(e[i]);
    if (code == 0 || i + code > e.size()) return false;
    out.append(e, i + 1, code - 1);
    i += code;
    zero = code < 255;
    if (zero) out.push_back('\0');
  }
  if (zero) out.pop_back();
  return true;
}
}  // namespace cobs_ref
#endif
