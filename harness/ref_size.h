// Reference display width
#pragma once
#include "ref_char.h"
#include "ref_width.h"
namespace ref {
inline size_t width(uint32_t c) {
  if (!c || (c >= 0xfe00 && c <= 0xfe0f) || c == 0x3099 || c == 0x309a) return 0;
  for (auto& [a, b] : wideRanges())
    if (c >= a && c <= b) return 2;
  return 1;
}
inline size_t width(const std::string& s) {
  size_t r{};
  for (auto c : dec(s)) r += width(c);
  return r;
}
} // namespace ref
