// C07: validate_string stops exactly at the first code unit that is not part of valid text.
// C08: starts_with, ends_with.   C14: string_size.
#include "vp.hpp"
#include <string>
#include <string_view>
#include <cmp/unicode/algorithms.hpp>

template <class U> constexpr unsigned kind = std::is_same_v<U, char> ? 0 : sizeof(U) == 1 ? 1 : sizeof(U);

// the n > 0 code units at p do not start with a well-formed sequence of a valid code point
template <class U> static bool bad(const U* p, std::size_t n) {
  if constexpr (sizeof(U) == 4) {
    char32_t c = p[0];
    return !vp_and(c <= 0x10FFFF, vp_or(c < 0xD800, c > 0xDFFF));
  } else if constexpr (sizeof(U) == 2) {
    if ((p[0] & 0xFC00) == 0xDC00) return true;
    if ((p[0] & 0xFC00) != 0xD800) return false;
    if (n < 2) return true;
    return (p[1] & 0xFC00) != 0xDC00;
  } else if constexpr (std::is_same_v<U, char8_t>) {
    unsigned b = p[0];
    if (b < 0x80) return false;
    if (b < 0xC2) return true;
    if (b > 0xF4) return true;
    if (n < 2) return true;
    unsigned c = p[1];
    if ((c & 0xC0) != 0x80) return true;
    if (b < 0xE0) return false;
    if (vp_or(vp_and(b == 0xE0, c < 0xA0), vp_and(b == 0xED, c >= 0xA0))) return true;
    if (vp_or(vp_and(b == 0xF0, c < 0x90), vp_and(b == 0xF4, c >= 0x90))) return true;
    if (n < 3) return true;
    if ((p[2] & 0xC0) != 0x80) return true;
    if (b < 0xF0) return false;
    if (n < 4) return true;
    return (p[3] & 0xC0) != 0x80;
  } else return false;
}
// every string is a longest well-formed prefix of m code units, followed by the end or by something bad
template <class U> static void validate() {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::size_t m = vp_u64("m");
  vp_assume(m <= n);
  std::size_t cnt = vp_text(p, m, kind<U>, 1);
  if (m < n) vp_assume(bad(p + m, n - m));
  std::basic_string<U> str(p, n);
  std::basic_string_view<U> v(str);
  auto it = cmp::validate_string(str);
  vp_cover("end");
  cmp::by_code_point<U> rest{v.substr(m)};
  vp_assert(it == rest.cbegin(), "the result is the position just past the last valid code point");
}
template <class U> static void validate_all() {   // any char text is valid; the end is returned
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  vp_text(p, n, kind<U>, 1);
  std::basic_string<U> str(p, n);
  std::basic_string_view<U> v(str);
  auto it = cmp::validate_string(str);
  vp_cover("end");
  vp_assert(it == cmp::by_code_point<U>{v}.cend(), "valid text is accepted to its end");
}
VP_HARNESS(C07_utf8) { validate<char8_t>(); }
VP_HARNESS(C07_utf16) { validate<char16_t>(); }
VP_HARNESS(C07_utf32) { validate<char32_t>(); }
VP_HARNESS(C07_wide) { validate<wchar_t>(); }
VP_HARNESS(C07_char) { validate_all<char>(); }

// ---------------------------------------------------------------- C08
template <class U, class V, bool End> static void affix_true() {
  std::size_t n = vp_u64("n"), m = vp_u64("m"), k = vp_u64("k");
  vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(m));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  V* q = static_cast<V*>(vp_array(m, sizeof(V), "t"));
  std::size_t c1 = vp_text(p, n, kind<U>, 1), c2 = vp_text(q, m, kind<V>, 2);
  vp_assume(k < c2);
  vp_skolem(k);
  std::basic_string_view<U> content(p, n);
  std::basic_string_view<V> sub(q, m);
  bool r = End ? cmp::ends_with(content, sub) : cmp::starts_with(content, sub);
  if (!r) return;
  vp_cover("found");
  vp_assert(c2 <= c1, "what is found is not longer than the content");
  vp_assume(k < c1);
  if (End) vp_assert(vp_cp(1, c1 - 1 - k) == vp_cp(2, c2 - 1 - k), "true: the last code points agree");
  else vp_assert(vp_cp(1, k) == vp_cp(2, k), "true: the first code points agree");
}
template <class U, class V, bool End> static void affix_false() {
  std::size_t n = vp_u64("n"), m = vp_u64("m");
  vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(m));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  V* q = static_cast<V*>(vp_array(m, sizeof(V), "t"));
  std::size_t c1 = vp_text(p, n, kind<U>, 1), c2 = vp_text(q, m, kind<V>, 2);
  vp_assume(c2 <= c1);
  vp_agree(1, 2, End ? c1 - c2 : 0);
  std::basic_string_view<U> content(p, n);
  std::basic_string_view<V> sub(q, m);
  bool r = End ? cmp::ends_with(content, sub) : cmp::starts_with(content, sub);
  vp_cover("end");
  vp_assert(r, "a text that is there is found (the empty one always is)");
}
#define AFFIX(U, N, V, M) \
  VP_HARNESS(C08_starts_##N##_##M##_sound) { affix_true<U, V, false>(); } \
  VP_HARNESS(C08_starts_##N##_##M##_complete) { affix_false<U, V, false>(); } \
  VP_HARNESS(C08_ends_##N##_##M##_sound) { affix_true<U, V, true>(); } \
  VP_HARNESS(C08_ends_##N##_##M##_complete) { affix_false<U, V, true>(); }
// every encoding on either side (the other side fixed width keeps the case analysis small; the
// function is one template over the iterators of C02-C04)
AFFIX(char32_t, utf32, char32_t, utf32)
AFFIX(char8_t, utf8, char32_t, utf32)
AFFIX(char32_t, utf32, char8_t, utf8)
AFFIX(char16_t, utf16, char32_t, utf32)
AFFIX(wchar_t, wide, char16_t, utf16)
AFFIX(char, char, wchar_t, wide)
AFFIX(wchar_t, wide, char, char)

// ---------------------------------------------------------------- C14
template <class U> static void size_of_view() {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  vp_cover("end");
  vp_assert(cmp::string_size(std::basic_string_view<U>(p, n)) == n, "the size of a view is its number of code units");
  std::basic_string<U> s(p, n);
  vp_assert(cmp::string_size(s) == n, "the size of a string is its number of code units");
}
template <class U> static void size_of_pointer() {
  std::size_t n = vp_u64("n"), k = vp_u64("k");
  vp_assume(VP_SIZE(n)); vp_assume(n > 0);
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::size_t z = vp_u64("z");
  vp_assume(z < n);
  vp_assume(p[z] == U(0));           // some terminator exists
  vp_terminated(p, z * sizeof(U));
  vp_skolem(k);
  std::size_t r = cmp::string_size(static_cast<const U*>(p));
  vp_cover("end");
  vp_assert(r <= z, "the size does not pass the first terminator");
  vp_assert(p[r] == U(0), "the size is the index of a terminator");
  if (k < r) vp_assert(p[k] != U(0), "no terminator before the size");
}
VP_HARNESS(C14_view_char) { size_of_view<char>(); }
VP_HARNESS(C14_view_utf8) { size_of_view<char8_t>(); }
VP_HARNESS(C14_view_utf16) { size_of_view<char16_t>(); }
VP_HARNESS(C14_view_utf32) { size_of_view<char32_t>(); }
VP_HARNESS(C14_view_wide) { size_of_view<wchar_t>(); }
VP_HARNESS(C14_pointer_char) { size_of_pointer<char>(); }
VP_HARNESS(C14_pointer_utf8) { size_of_pointer<char8_t>(); }
VP_HARNESS(C14_pointer_utf16) { size_of_pointer<char16_t>(); }
VP_HARNESS(C14_pointer_utf32) { size_of_pointer<char32_t>(); }
VP_HARNESS(C14_pointer_wide) { size_of_pointer<wchar_t>(); }
