// C09 C10 C11 C13 C28: numbers as text
#include "vp.hpp"
#include <string>
#include <type_traits>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/core/general.hpp>

template <class T> static T any(const char* n) {
  if constexpr (sizeof(T) == 1) return static_cast<T>(vp_u8(n));
  else if constexpr (sizeof(T) == 2) return static_cast<T>(vp_u16(n));
  else if constexpr (sizeof(T) == 4) return static_cast<T>(vp_u32(n));
  else return static_cast<T>(vp_u64(n));
}
template <class T> static std::uint64_t magnitude(T x) {
  std::uint64_t m = static_cast<std::uint64_t>(x);
  return std::is_signed_v<T> && x < 0 ? 0 - m : m;
}

// ---------------------------------------------------------------- C28
template <class T> static void digits() {
  T x = any<T>("x");
  T radix = any<T>("radix");
  vp_assume(radix >= 2); vp_assume(radix <= 36);
  if constexpr (sizeof(T) == 8) radix = static_cast<T>(vp_split(static_cast<std::uint64_t>(radix), 2, 36));
  unsigned got = cmp::count_digits(x, radix);
  T q = x;                                   // want: the least n >= 1 with x / radix^n == 0 (truncated)
  unsigned want = 1;
  while ((q = static_cast<T>(q / radix)) != 0) ++want;
  vp_cover("counted");
  vp_assert(got == want, "the number of digits of the magnitude in that radix");
}
#define C28(T, N) VP_HARNESS(C28_##N) { digits<T>(); }
C28(signed char, i8) C28(unsigned char, u8) C28(short, i16) C28(unsigned short, u16) C28(int, i32) C28(unsigned, u32) C28(long long, i64) C28(unsigned long long, u64)

// ---------------------------------------------------------------- C13
template <class F> static void radix_kept() {
  unsigned r = vp_u32("r"), r2 = vp_u32("r2");
  bool thrown = false, thrown2 = false;
  F f;
  vp_assert(f.get_radix() == 10, "decimal by default");
  vp_assert(f.get_sign_status() == cmp::sign_status::only_when_negative, "sign only when negative by default");
  vp_assert(f.get_thousands_separator() == cmp::thousands_separator::none, "no separators by default");
  try {
    if constexpr (std::is_same_v<F, cmp::integer_format>) f = F(r, cmp::sign_status::always_show, cmp::thousands_separator::comma);
    else f = F(r, cmp::sign_status::always_show, cmp::thousands_separator::comma, cmp::radix_character::comma, cmp::radix_place_limit::up_to, vp_u32("places"));
  } catch (const cmp::invalid_radix&) { thrown = true; }
  vp_assert(thrown == (r < 2 || r > 36), "exactly the radixes outside 2 to 36 are refused");
  unsigned before = f.get_radix();
  vp_assert(before == (thrown ? 10 : r), "the radix given, or that before");
  try { f.set_radix(r2); } catch (const cmp::invalid_radix&) { thrown2 = true; }
  vp_assert(thrown2 == (r2 < 2 || r2 > 36), "exactly the radixes outside 2 to 36 are refused");
  vp_assert(f.get_radix() == (thrown2 ? before : r2), "the radix set, or that before");
  vp_cover("set");
}
VP_HARNESS(C13_integer_radix) { radix_kept<cmp::integer_format>(); }
VP_HARNESS(C13_floating_radix) { radix_kept<cmp::floating_point_format>(); }
template <class F> static F format_of(unsigned r, cmp::sign_status s, cmp::thousands_separator t, cmp::radix_character c, cmp::radix_place_limit l, unsigned n) {
  if constexpr (std::is_same_v<F, cmp::integer_format>) return F(r, s, t);
  else return F(r, s, t, c, l, n);
}
static cmp::sign_status any_sign(const char* n) { return vp_bool(n) ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative; }
static cmp::thousands_separator any_separator(const char* n) {
  std::uint8_t s = vp_u8(n);
  vp_assume(s < 3);
  return s == 0 ? cmp::thousands_separator::none : s == 1 ? cmp::thousands_separator::comma : cmp::thousands_separator::period;
}
static cmp::radix_character any_point(const char* n) { return vp_bool(n) ? cmp::radix_character::comma : cmp::radix_character::period; }
static cmp::radix_place_limit any_limit(const char* n) {
  std::uint8_t s = vp_u8(n);
  vp_assume(s < 3);
  return s == 0 ? cmp::radix_place_limit::none : s == 1 ? cmp::radix_place_limit::exactly_equal : cmp::radix_place_limit::up_to;
}
// every setter changes its own field and no other
template <class F> static void fields_kept() {
  constexpr bool fl = !std::is_same_v<F, cmp::integer_format>;
  unsigned r = vp_u32("r"), n = vp_u32("places");
  vp_assume(r >= 2); vp_assume(r <= 36);
  auto s = any_sign("sign"); auto t = any_separator("separator"); auto c = any_point("point"); auto l = any_limit("limit");
  F f = format_of<F>(r, s, t, c, l, n);
  switch (vp_u8("which") % (fl ? 7 : 4)) {
    case 1: r = vp_u32("r2"); vp_assume(r >= 2); vp_assume(r <= 36); f.set_radix(r); break;
    case 2: f.set_sign_status(s = any_sign("sign2")); break;
    case 3: f.set_thousands_separator(t = any_separator("separator2")); break;
    case 4: if constexpr (fl) f.set_radix_character(c = any_point("point2")); break;
    case 5: if constexpr (fl) f.set_radix_place_limit(l = any_limit("limit2")); break;
    case 6: if constexpr (fl) f.set_radix_place_count(n = vp_u32("places2")); break;
    default: break;
  }
  F g(f);
  vp_cover("set");
  vp_assert(g.get_radix() == r, "the radix");
  vp_assert(g.get_sign_status() == s, "the sign status");
  vp_assert(g.get_thousands_separator() == t, "the separator");
  if constexpr (fl) {
    vp_assert(g.get_radix_character() == c, "the radix character");
    vp_assert(g.get_radix_place_limit() == l, "the place limit");
    vp_assert(g.get_radix_place_count() == n, "the place count");
  }
}
VP_HARNESS(C13_integer_fields) { fields_kept<cmp::integer_format>(); }
VP_HARNESS(C13_floating_fields) { fields_kept<cmp::floating_point_format>(); }

// ---------------------------------------------------------------- C09
static std::uint32_t sep_char(cmp::thousands_separator t) { return t == cmp::thousands_separator::none ? 0 : t == cmp::thousands_separator::comma ? ',' : '.'; }
template <class Out, class T> static void format_number() {
  using C = typename Out::value_type;
  T x = any<T>("x");
  unsigned r = vp_u32("radix");
  vp_assume(r >= 2); vp_assume(r <= 36);
  auto s = any_sign("sign"); auto t = any_separator("separator");
  bool neg = std::is_signed_v<T> && x < 0;
  std::size_t cnt = vp_digits(magnitude(x), r, sep_char(t), sizeof(C), 1), k = vp_u64("k");
  if (x != 0) { vp_assume(k < cnt); vp_skolem(k); }
  Out got = cmp::format_integer<Out>(x, cmp::integer_format(r, s, t));
  if (x == 0) {
    vp_cover("zero");
    vp_assert(got.size() == 1 && got[0] == C('0'), "zero is 0");
    return;
  }
  vp_cover("digits");
  bool sign = neg || s == cmp::sign_status::always_show;
  std::size_t n = vp_digit_pos(1, cnt);
  vp_assert(got.size() == n + sign, "as many characters as sign, digits and separators");
  if (sign) vp_assert(got[0] == C(neg ? '-' : '+'), "the sign");
  std::size_t p = vp_digit_pos(1, k);
  vp_assert(p < got.size(), "digit k is there");
  vp_assert(got[got.size() - 1 - p] == C(vp_digit_char(1, k)), "digit k from the right");
  if (k > 0 && vp_digit_group(1, k) == 0 && sep_char(t)) {
    vp_cover("separated");
    vp_assert(got[got.size() - p] == C(sep_char(t)), "a separator right of every third digit");
  }
}
#define C09(T, N) VP_HARNESS(C09_##N) { format_number<std::u8string, T>(); }
C09(signed char, i8) C09(unsigned char, u8) C09(short, i16) C09(unsigned short, u16) C09(int, i32) C09(unsigned, u32) C09(long long, i64) C09(unsigned long long, u64)
VP_HARNESS(C09_i64_string) { format_number<std::string, long long>(); }
VP_HARNESS(C09_i64_u16string) { format_number<std::u16string, long long>(); }
VP_HARNESS(C09_i64_u32string) { format_number<std::u32string, long long>(); }

// ---------------------------------------------------------------- C10
template <class T, class C, cmp::thousands_separator t> static void parse_number() {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n));
  const C* p = static_cast<const C*>(vp_array(n, sizeof(C), "numeral"));
  unsigned r = vp_u32("radix");
  vp_assume(r >= 2); vp_assume(r <= 36);
  auto s = vp_split(vp_bool("sign"), 0, 1) ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative;
  std::size_t b = vp_numeral(p, n, sizeof(C), r, sep_char(t), 1);
  bool got_it = true;
  T got = 0;
  // what precedes the numeral is looked at only to reject it; here it is one code unit
  if (b < n && sizeof(C) < 4) vp_assume(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, short>>>(p[n - 1 - b]) < 0x80);
  if (b + 1 < n && sizeof(C) < 4) vp_assume(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, short>>>(p[n - 2 - b]) < 0x80);
  try { got = cmp::parse_integer<T>(std::basic_string_view<C>(p, n), cmp::integer_format(r, s, t)); } catch (const cmp::parse_failed&) { got_it = false; }
  bool sign = b < n && (p[n - 1 - b] == C('-') || (p[n - 1 - b] == C('+') && s == cmp::sign_status::always_show));
  bool neg = sign && p[n - 1 - b] == C('-');
  bool numeral = b > 0 && !vp_numeral_separator(1, b) && (b == n || (b + 1 == n && sign)) && !(neg && !std::is_signed_v<T>);
  if (numeral) vp_cover("numeral"); else vp_cover("not a numeral");
  vp_assert(got_it == numeral, "exactly the numerals of the format are accepted");
  if (!got_it) return;
  std::uint64_t v = vp_numeral_value(1, b);
  if (neg) v = 0 - v;
  vp_assert(got == static_cast<T>(v), "the value of the numeral");
}
#define C10(T, N) VP_HARNESS(C10_##N##_comma) { parse_number<T, char32_t, cmp::thousands_separator::comma>(); }
C10(signed char, i8) C10(long long, i64) C10(unsigned long long, u64)
VP_HARNESS(C10_i64_plain) { parse_number<long long, char32_t, cmp::thousands_separator::none>(); }
VP_HARNESS(C10_i64_period) { parse_number<long long, char32_t, cmp::thousands_separator::period>(); }
