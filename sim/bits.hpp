// Reads stored bytes bit by bit, without the library.
#pragma once

#include <cstddef>
#include <cstdint>
#include <string>

namespace sim {

struct Short {};

struct Cur {
  const std::uint8_t* p;
  std::size_t n, bit = 0;
  std::uint64_t u(int bits) {
    if (bit + static_cast<std::size_t>(bits) > n * 8) throw Short{};
    std::uint64_t v = 0;
    for (int i = 0; i < bits; ++i, ++bit) v = (v << 1) | ((p[bit / 8] >> (7 - bit % 8)) & 1u);
    return v;
  }
  std::int64_t s(int bits) {
    std::uint64_t v = u(bits);
    if (bits < 64 && (v >> (bits - 1))) v |= ~0ULL << bits;
    return static_cast<std::int64_t>(v);
  }
  std::size_t left() const { return n - bit / 8; }
  std::string bytes(std::size_t c) {
    std::string o;
    while (c--) o += static_cast<char>(u(8));
    return o;
  }
  std::string cstr() {
    std::string o;
    while (auto c = u(8)) o += static_cast<char>(c);
    return o;
  }
  void skip(int bits) { u(bits % 64), bits -= bits % 64; while (bits > 0) u(64), bits -= 64; }
  std::uint64_t len() {  // expandable size of a descriptor
    std::uint64_t v = 0;
    for (int i = 0; i < 4; ++i) {
      const auto b = u(8);
      v = (v << 7) | (b & 0x7f);
      if (!(b & 0x80)) break;
    }
    return v;
  }
};

}  // namespace sim
