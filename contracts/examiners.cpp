// C01: every character / code unit examiner classifies exactly the set it names.
#include "vp.hpp"
#include <cmp/unicode/examiners.hpp>

VP_HARNESS(C01_seven_bits) {
  char32_t c = vp_u32("c");
  vp_cover("end");
  vp_assert(cmp::fits_in_7_bits(c) == (c < 128), "exactly U+0000..U+007F fit in 7 bits");
}
VP_HARNESS(C01_bytes) {
  char8_t b = vp_u8("b");
  bool s = cmp::is_standalone_byte(b), l = cmp::is_leading_byte(b), t = cmp::is_trailing_byte(b);
  vp_cover("end");
  vp_assert(s == (b <= 0x7F), "standalone bytes are 00..7F");
  vp_assert(t == vp_and(b >= 0x80, b <= 0xBF), "trailing bytes are 80..BF");
  vp_assert(l == vp_and(b >= 0xC0, b <= 0xF7), "leading bytes are C0..F7");
  vp_assert(!vp_or(vp_and(s, l), vp_or(vp_and(s, t), vp_and(l, t))), "the classes are disjoint");
}
VP_HARNESS(C01_surrogates) {
  char16_t u = vp_u16("u");
  bool l = cmp::is_leading_surrogate(u), t = cmp::is_trailing_surrogate(u), s = cmp::is_surrogate(u);
  vp_cover("end");
  vp_assert(l == vp_and(u >= 0xD800, u <= 0xDBFF), "leading surrogates are D800..DBFF");
  vp_assert(t == vp_and(u >= 0xDC00, u <= 0xDFFF), "trailing surrogates are DC00..DFFF");
  vp_assert(s == vp_or(l, t), "a surrogate is a leading or a trailing one");
}
VP_HARNESS(C01_valid) {
  char32_t c = vp_u32("c");
  vp_cover("end");
  vp_assert(cmp::is_code_point_valid(c) == vp_and(c <= 0x10FFFF, vp_or(c < 0xD800, c > 0xDFFF)),
            "valid code points are U+0000..U+D7FF and U+E000..U+10FFFF");
}
VP_HARNESS(C01_whitespace) {
  char32_t c = vp_u32("c");
  bool spec = (c >= 9) & (c <= 13);
  spec |= c == 32; spec |= c == 0x85; spec |= c == 0xA0; spec |= c == 0x1680;
  spec |= (c >= 0x2000) & (c <= 0x200A);
  spec |= c == 0x2028; spec |= c == 0x2029; spec |= c == 0x202F; spec |= c == 0x205F; spec |= c == 0x3000;
  vp_cover("end");
  vp_assert(cmp::is_whitespace(c) == spec, "whitespace is exactly the Unicode White_Space set");
}
VP_HARNESS(C01_radix_digit) {
  char32_t c = vp_u32("c");
  unsigned r = vp_u32("r");
  vp_assume(r >= 2); vp_assume(r <= 36);
  bool ten = (c >= '0') & (c <= '9');
  bool low = (c >= 'a') & (c <= 'z');
  bool up = (c >= 'A') & (c <= 'Z');
  unsigned v = ten ? c - '0' : low ? c - 'a' + 10 : up ? c - 'A' + 10 : 99;
  vp_cover("end");
  vp_assert(cmp::is_radix_digit(c, r) == (v < r), "digits of a radix are the first radix characters of 0-9a-z, either case");
}
