// C05: inserting, appending and prepending a code point.
#include "vp.hpp"
#include <string>
#include <cmp/unicode/algorithms.hpp>

// the encoding of cp in code units of type U; 0: not representable, must be rejected
template <class U> static unsigned encoding(char32_t cp, std::uint32_t* u) {
  bool valid = vp_and(cp <= 0x10FFFF, vp_or(cp < 0xD800, cp > 0xDFFF));
  if constexpr (std::is_same_v<U, char8_t>) {
    if (!valid) return 0;
    if (cp < 0x80) { u[0] = cp; return 1; }
    if (cp < 0x800) { u[0] = 0xC0 + cp / 64; u[1] = 0x80 + cp % 64; return 2; }
    if (cp < 0x10000) { u[0] = 0xE0 + cp / 4096; u[1] = 0x80 + cp / 64 % 64; u[2] = 0x80 + cp % 64; return 3; }
    u[0] = 0xF0 + cp / 262144; u[1] = 0x80 + cp / 4096 % 64; u[2] = 0x80 + cp / 64 % 64; u[3] = 0x80 + cp % 64;
    return 4;
  } else if constexpr (std::is_same_v<U, char16_t>) {
    if (!valid) return 0;
    if (cp < 0x10000) { u[0] = cp; return 1; }
    u[0] = 0xD800 + (cp - 0x10000) / 1024; u[1] = 0xDC00 + (cp - 0x10000) % 1024;
    return 2;
  } else if constexpr (sizeof(U) == 4) { u[0] = cp; return 1; }
  else { u[0] = cp & 0xFF; return 1; }
}
template <class U> static std::uint32_t unit(U c) { return static_cast<std::make_unsigned_t<U>>(c); }
static std::uint32_t unit(char8_t c) { return c; }

enum which { INSERT, APPEND, PREPEND };
template <class U> static void put(which w) {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::basic_string<U> s(p, n);
  std::size_t index = w == INSERT ? vp_u64("i") : w == APPEND ? n : 0;
  vp_assume(index <= n);
  std::size_t j = vp_u64("j");
  vp_assume(j < n);
  char32_t cp = vp_u32("c");
  std::uint32_t u[4] = {};
  unsigned len = encoding<U>(cp, u);
  bool threw = false;
  try {
    if (w == INSERT) cmp::insert_code_point(s, cp, index);
    else if (w == APPEND) cmp::append_code_point(s, cp);
    else cmp::prepend_code_point(s, cp);
  } catch (const cmp::invalid_code_point&) { threw = true; }
  vp_assert(threw == (len == 0), "exactly the invalid code points are rejected");
  if (threw) {
    vp_assert(s.size() == n, "a rejected code point leaves the string alone");
    vp_assert(unit(s[j]) == unit(p[j]), "a rejected code point leaves the contents alone");
    return;
  }
  vp_cover("inserted");
  vp_assert(s.size() == n + len, "the string grows by the length of the encoding");
  vp_assert(unit(s[index]) == u[0], "first code unit");
  if (len > 1) vp_assert(unit(s[index + 1]) == u[1], "second code unit");
  if (len > 2) vp_assert(unit(s[index + 2]) == u[2], "third code unit");
  if (len > 3) vp_assert(unit(s[index + 3]) == u[3], "fourth code unit");
  if (j < index) vp_assert(unit(s[j]) == unit(p[j]), "the text before is unchanged");
  else vp_assert(unit(s[j + len]) == unit(p[j]), "the text after is moved, unchanged");
}
// the same into an empty string
template <class U> static void empty() {
  std::basic_string<U> s;
  char32_t cp = vp_u32("c");
  unsigned op = vp_u8("op");
  vp_assume(op < 3);
  std::uint32_t u[4] = {};
  unsigned len = encoding<U>(cp, u);
  bool threw = false;
  try {
    if (op == 0) cmp::insert_code_point(s, cp, 0);
    else if (op == 1) cmp::append_code_point(s, cp);
    else cmp::prepend_code_point(s, cp);
  } catch (const cmp::invalid_code_point&) { threw = true; }
  vp_assert(threw == (len == 0), "exactly the invalid code points are rejected");
  vp_assert(s.size() == len, "the string is the encoding");
  if (threw) return;
  vp_cover("inserted");
  vp_assert(unit(s[0]) == u[0], "first code unit");
  if (len > 1) vp_assert(unit(s[1]) == u[1], "second code unit");
  if (len > 2) vp_assert(unit(s[2]) == u[2], "third code unit");
  if (len > 3) vp_assert(unit(s[3]) == u[3], "fourth code unit");
}
#define ALL(U, N) \
  VP_HARNESS(C05_insert_##N) { put<U>(INSERT); } \
  VP_HARNESS(C05_append_##N) { put<U>(APPEND); } \
  VP_HARNESS(C05_prepend_##N) { put<U>(PREPEND); } \
  VP_HARNESS(C05_empty_##N) { empty<U>(); }
ALL(char8_t, utf8)
ALL(char16_t, utf16)
ALL(char32_t, utf32)
ALL(wchar_t, wide)
ALL(char, char)
