// the code units that encode a code point
#pragma once
template <class U> static std::uint32_t unit(U c) { return static_cast<std::make_unsigned_t<U>>(c); }
static std::uint32_t unit(char8_t c) { return c; }

// the code units of s at i are the encoding of cp
template <class V> static void encodes(const std::basic_string<V>& s, std::size_t i, char32_t cp) {
  if constexpr (std::is_same_v<V, char8_t>) {
    if (cp < 0x80) vp_assert(unit(s[i]) == cp, "one code unit");
    else if (cp < 0x800) {
      vp_assert(unit(s[i]) == 0xC0 + (cp >> 6), "first of two code units");
      vp_assert(unit(s[i + 1]) == 0x80 + (cp & 63), "second of two code units");
    } else if (cp < 0x10000) {
      vp_assert(unit(s[i]) == 0xE0 + (cp >> 12), "first of three code units");
      vp_assert(unit(s[i + 1]) == 0x80 + (cp >> 6 & 63), "second of three code units");
      vp_assert(unit(s[i + 2]) == 0x80 + (cp & 63), "third of three code units");
    } else {
      vp_assert(unit(s[i]) == 0xF0 + (cp >> 18), "first of four code units");
      vp_assert(unit(s[i + 1]) == 0x80 + (cp >> 12 & 63), "second of four code units");
      vp_assert(unit(s[i + 2]) == 0x80 + (cp >> 6 & 63), "third of four code units");
      vp_assert(unit(s[i + 3]) == 0x80 + (cp & 63), "fourth of four code units");
    }
  } else if constexpr (std::is_same_v<V, char16_t>) {
    if (cp < 0x10000) vp_assert(unit(s[i]) == cp, "one code unit");
    else {
      vp_assert(unit(s[i]) == 0xD800 + ((cp - 0x10000) >> 10), "leading surrogate");
      vp_assert(unit(s[i + 1]) == 0xDC00 + (cp & 0x3FF), "trailing surrogate");
    }
  } else if constexpr (sizeof(V) == 4) vp_assert(unit(s[i]) == cp, "one code unit");
  else vp_assert(unit(s[i]) == (cp & 0xFF), "one code unit (narrow: its low byte)");
}
template <class U> constexpr unsigned kind = std::is_same_v<U, char> ? 0 : sizeof(U) == 1 ? 1 : sizeof(U);

