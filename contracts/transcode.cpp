// C06: conversion between encodings preserves the text.
#include "vp.hpp"
#include <string>
#include <string_view>
#include <cmp/unicode/algorithms.hpp>

#include "encodes.hpp"

template <class V, class U> static std::basic_string<V> conv(const std::basic_string_view<U>& s, bool named) {
  if constexpr (std::is_same_v<V, char>) return named ? cmp::to_string(s) : cmp::convert_string<std::string>(s);
  else if constexpr (std::is_same_v<V, char8_t>) return named ? cmp::to_u8string(s) : cmp::convert_string<std::u8string>(s);
  else if constexpr (std::is_same_v<V, char16_t>) return named ? cmp::to_u16string(s) : cmp::convert_string<std::u16string>(s);
  else if constexpr (std::is_same_v<V, char32_t>) return named ? cmp::to_u32string(s) : cmp::convert_string<std::u32string>(s);
  else return named ? cmp::to_wstring(s) : cmp::convert_string<std::wstring>(s);
}
template <class U, class V> static void convert() {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::size_t k = vp_u64("k");
  std::size_t cnt = vp_text(p, n, kind<U>, 1);
  vp_assume(k < cnt);
  vp_skolem(k);
  char32_t cp = vp_cp(1, k);
  std::basic_string<V> r = conv<V>(std::basic_string_view<U>(p, n), true);
  vp_cover("converted");
  vp_assert(r.size() == vp_opos(1, kind<V>, cnt), "the result has exactly the code units of the text");
  encodes(r, vp_opos(1, kind<V>, k), cp);
}
// the empty text, and the equivalence of the named and the generic form on short text
template <class U, class V> static void empty(bool named) {
  std::size_t n = 0;
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  vp_cover("converted");
  vp_assert(conv<V>(std::basic_string_view<U>(p, n), named).size() == 0, "the empty text stays empty");
}
// malformed input is reported, never silently converted: the first sequence is malformed
template <class U, class V> static void malformed() {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n)); vp_assume(n > 0);
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  bool bad;
  if constexpr (sizeof(U) == 1) {
    unsigned len = p[0] < 0x80 ? 1 : (p[0] & 0xE0) == 0xC0 ? 2 : (p[0] & 0xF0) == 0xE0 ? 3 : (p[0] & 0xF8) == 0xF0 ? 4 : 0;
    bad = len == 0;
    bad = bad || n < len;
    bad = bad || (len > 1 && (p[1] & 0xC0) != 0x80);
    bad = bad || (len > 2 && (p[2] & 0xC0) != 0x80);
    bad = bad || (len > 3 && (p[3] & 0xC0) != 0x80);
    bad = bad || (len == 2 && p[0] < 0xC2);
    bad = bad || (len == 3 && p[0] == 0xE0 && p[1] < 0xA0);
    bad = bad || (len == 4 && p[0] == 0xF0 && p[1] < 0x90);
  } else {
    bad = (p[0] & 0xFC00) == 0xDC00;
    bad = bad || ((p[0] & 0xFC00) == 0xD800 && (n < 2 || (p[1] & 0xFC00) != 0xDC00));
  }
  vp_assume(bad);
  bool threw = false;
  try { conv<V>(std::basic_string_view<U>(p, n), true); }
  catch (const cmp::iterated_past_end&) { threw = true; }
  catch (const cmp::invalid_unicode_encoding&) { threw = true; }
  vp_cover("end");
  vp_assert(threw, "malformed text is rejected with an exception");
}
#define TO(U, N, V, M) VP_HARNESS(C06_##N##_to_##M) { convert<U, V>(); }
#define FROM(U, N) TO(U, N, char, char) TO(U, N, char8_t, utf8) TO(U, N, char16_t, utf16) TO(U, N, char32_t, utf32) TO(U, N, wchar_t, wide)
FROM(char, char)
FROM(char8_t, utf8)
FROM(char16_t, utf16)
FROM(char32_t, utf32)
FROM(wchar_t, wide)
template <class U> static void empties() {
  bool named = vp_split(vp_bool("named"), 0, 1);
  empty<U, char>(named); empty<U, char8_t>(named); empty<U, char16_t>(named); empty<U, char32_t>(named); empty<U, wchar_t>(named);
}
VP_HARNESS(C06_empty_char) { empties<char>(); }
VP_HARNESS(C06_empty_utf8) { empties<char8_t>(); }
VP_HARNESS(C06_empty_utf16) { empties<char16_t>(); }
VP_HARNESS(C06_empty_utf32) { empties<char32_t>(); }
VP_HARNESS(C06_empty_wide) { empties<wchar_t>(); }
VP_HARNESS(C06_malformed_utf8) { malformed<char8_t, char32_t>(); }
VP_HARNESS(C06_malformed_utf16) { malformed<char16_t, char32_t>(); }
