// C02 (UTF-8), C03 (UTF-16, UTF-32, wchar_t, char): decoding and forward iteration.
// C04: backward and multi-step traversal.
#include "vp.hpp"
#include <string_view>
#include <cmp/unicode/by_code_point.hpp>
using cmp::by_code_point;

enum outcome { VALUE, PAST_END, INVALID };

// the specification of UTF-8: what the n > 0 code units at p decode to
static outcome spec8(const char8_t* p, std::size_t n, std::size_t& len, char32_t& cp) {
  char8_t b = p[0];
  len = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0;
  if (len == 0) return INVALID;
  if (len == 1) { cp = b; return VALUE; }
  cp = b & (0x7F >> len);
  if (n < 2) return PAST_END;
  if ((p[1] & 0xC0) != 0x80) return INVALID;
  cp = (cp << 6) | (p[1] & 0x3F);
  if (len == 2) return VALUE;
  if (n < 3) return PAST_END;
  if ((p[2] & 0xC0) != 0x80) return INVALID;
  cp = (cp << 6) | (p[2] & 0x3F);
  if (len == 3) return VALUE;
  if (n < 4) return PAST_END;
  if ((p[3] & 0xC0) != 0x80) return INVALID;
  cp = (cp << 6) | (p[3] & 0x3F);
  return VALUE;
}
static outcome spec16(const char16_t* p, std::size_t n, std::size_t& len, char32_t& cp) {
  char16_t u = p[0];
  if ((u & 0xFC00) == 0xDC00) return INVALID;
  if ((u & 0xFC00) != 0xD800) { len = 1; cp = u; return VALUE; }
  if (n < 2) return PAST_END;
  if ((p[1] & 0xFC00) != 0xDC00) return INVALID;
  len = 2;
  cp = 0x10000 + ((char32_t(u) & 0x3FF) << 10) + (p[1] & 0x3FF);
  return VALUE;
}
template <class U> static outcome spec(const U* p, std::size_t n, std::size_t& len, char32_t& cp) {
  if constexpr (sizeof(U) == 1 && !std::is_same_v<U, char>) return spec8(p, n, len, cp);
  else if constexpr (std::is_same_v<U, char16_t>) return spec16(p, n, len, cp);
  else { len = 1; cp = static_cast<char32_t>(p[0]); return VALUE; }
}

template <class U> struct input {
  std::size_t n;
  U* p;
  std::basic_string_view<U> v;
  input() : n(vp_u64("n")) {
    vp_assume(VP_SIZE(n));
    p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
    v = std::basic_string_view<U>(p, n);
  }
};

template <class F> static outcome guarded(F f) {
  try { f(); }
  catch (const cmp::iterated_past_end&) { return PAST_END; }
  catch (const cmp::invalid_unicode_encoding&) { return INVALID; }
  return VALUE;
}

// *it: the code point, or the documented exception; never a read outside the text
template <class U> static void deref() {
  input<U> s;
  by_code_point<U> r{s.v};
  auto it = r.cbegin();
  char32_t got = 0, want = 0;
  std::size_t len = 0;
  outcome o = guarded([&] { got = static_cast<char32_t>(*it); });
  if (s.n == 0) { vp_cover("empty"); vp_assert(o == PAST_END, "dereferencing the end throws iterated_past_end"); return; }
  outcome w = spec<U>(s.p, s.n, len, want);
  // overlong encodings are malformed
  if (std::is_same_v<U, char8_t>) if (w == VALUE)
    if (vp_or(vp_and(len == 2, want < 0x80), vp_or(vp_and(len == 3, want < 0x800), vp_and(len == 4, want < 0x10000)))) w = INVALID;
  vp_assert(o == w, "malformed sequences throw, well-formed ones do not");
  if (o != VALUE) return;
  vp_cover("decoded");
  vp_assert(got == want, "the decoded value is the encoded code point");
}
// ++it: one whole sequence, or the documented exception
template <class U> static void advance() {
  input<U> s;
  vp_assume(s.n > 0);
  bool post = vp_bool("post");
  by_code_point<U> r{s.v};
  auto it = r.cbegin();
  auto old = r.cbegin();
  char32_t want = 0;
  std::size_t len = 0;
  outcome o = guarded([&] { if (post) old = it++; else ++it; });
  outcome w = spec<U>(s.p, s.n, len, want);
  vp_assert(o == w, "malformed sequences throw, well-formed ones do not");
  if (o != VALUE) return;
  vp_cover("advanced");
  by_code_point<U> rest{s.v.substr(len)};
  vp_assert(it == rest.cbegin(), "++ moves to the code unit after the sequence");
  vp_assert((it == r.cend()) == (len == s.n), "the end is reached exactly after the last code unit");
  vp_assert(old == r.cbegin(), "postfix ++ returns the old position");
}
template <class U> static void range() {
  input<U> s;
  by_code_point<U> r{s.v};
  vp_cover("end");
  vp_assert(r.begin() == r.cbegin(), "begin is cbegin");
  vp_assert(r.end() == r.cend(), "end is cend");
  vp_assert((r.begin() == r.end()) == (s.n == 0), "the range is empty exactly for empty text");
  vp_assert((r.begin() != r.end()) == (s.n != 0), "!= is the negation of ==");
  std::size_t i = vp_u64("i");
  vp_assume(i <= s.n);
  by_code_point<U> q{s.v.substr(i)};
  vp_assert((q.cbegin() == r.cbegin()) == (i == 0), "iterators are equal exactly at the same position");
  vp_assert((q.cbegin() != r.cbegin()) == (i != 0), "iterators differ exactly at different positions");
}
// iterating well-formed text yields its code points, in order, once each
template <class U> static void walk(unsigned kind) {
  input<U> s;
  std::size_t k = vp_u64("k");
  vp_skolem(k);
  std::size_t cnt = vp_text(s.p, s.n, kind, 1);
  vp_assume(k < cnt);
  char32_t want = vp_cp(1, k);
  std::size_t j = 0;
  char32_t got = 0;
  for (char32_t c : by_code_point<U>{s.v}) {
    if (j == k) got = c;
    ++j;
  }
  vp_cover("end");
  vp_assert(j == cnt, "as many steps as code points");
  vp_assert(got == want, "code point k comes at step k");
}

VP_HARNESS(C02_deref) { deref<char8_t>(); }
VP_HARNESS(C02_advance) { advance<char8_t>(); }
VP_HARNESS(C02_range) { range<char8_t>(); }
VP_HARNESS(C02_walk) { walk<char8_t>(1); }

VP_HARNESS(C03_deref_utf16) { deref<char16_t>(); }
VP_HARNESS(C03_deref_utf32) { deref<char32_t>(); }
VP_HARNESS(C03_deref_wide) { deref<wchar_t>(); }
VP_HARNESS(C03_deref_char) { deref<char>(); }
VP_HARNESS(C03_advance_utf16) { advance<char16_t>(); }
VP_HARNESS(C03_advance_utf32) { advance<char32_t>(); }
VP_HARNESS(C03_advance_wide) { advance<wchar_t>(); }
VP_HARNESS(C03_advance_char) { advance<char>(); }
VP_HARNESS(C03_range_utf16) { range<char16_t>(); }
VP_HARNESS(C03_range_utf32) { range<char32_t>(); }
VP_HARNESS(C03_range_wide) { range<wchar_t>(); }
VP_HARNESS(C03_range_char) { range<char>(); }
VP_HARNESS(C03_walk_utf16) { walk<char16_t>(2); }
VP_HARNESS(C03_walk_utf32) { walk<char32_t>(4); }
VP_HARNESS(C03_walk_wide) { walk<wchar_t>(4); }
VP_HARNESS(C03_walk_char) { walk<char>(0); }

// ---------------------------------------------------------------- C04
// the code units end with one well-formed sequence of length len
template <class U> static std::size_t last_sequence(const input<U>& s) {
  std::size_t len = vp_u64("len");
  vp_assume(len >= 1); vp_assume(len <= 4); vp_assume(len <= s.n);
  len = vp_split(len, 1, 4);
  std::size_t l = 0; char32_t c;
  vp_assume(spec<U>(s.p + (s.n - len), len, l, c) == VALUE);
  vp_assume(l == len);
  if (std::is_same_v<U, char8_t>) vp_assume(!vp_or(vp_and(len == 2, c < 0x80), vp_or(vp_and(len == 3, c < 0x800), vp_and(len == 4, c < 0x10000))));
  return len;
}
template <class U> static void back() {
  input<U> s;
  bool post = vp_bool("post");
  std::size_t len = last_sequence(s);
  by_code_point<U> r{s.v};
  auto it = r.cend();
  auto old = r.cbegin();
  if (post) old = it--; else --it;
  vp_cover("retreated");
  by_code_point<U> last{s.v.substr(s.n - len)};
  vp_assert(it == last.cbegin(), "-- moves to the first code unit of the preceding sequence");
  if (post) vp_assert(old == r.cend(), "postfix -- returns the old position");
  ++it;
  vp_assert(it == r.cend(), "++ undoes --");
  --it;
  char32_t want = 0; std::size_t l = 0;
  spec<U>(s.p + (s.n - len), len, l, want);
  vp_assert(static_cast<char32_t>(*it) == want, "the preceding code point is read");
  vp_assert(static_cast<char32_t>(*r.crbegin()) == want, "the reverse range starts with the last code point");
}
template <class U> static void jump(unsigned kind) {
  input<U> s;
  std::size_t k = vp_u64("k");
  std::size_t cnt = vp_text(s.p, s.n, kind, 1);
  vp_assume(k <= cnt);
  unsigned op = vp_u8("op");
  vp_assume(op < 3);
  by_code_point<U> r{s.v};
  auto b = r.cbegin();
  if (op == 0) b += static_cast<std::ptrdiff_t>(k);
  else if (op == 1) b = r.cbegin() + static_cast<std::ptrdiff_t>(k);
  else b = static_cast<std::ptrdiff_t>(k) + r.cbegin();
  vp_cover("forward");
  by_code_point<U> rest{s.v.substr(vp_pos(1, k))};
  vp_assert(b == rest.cbegin(), "adding k moves k code points forward");
}
template <class U> static void jump_back(unsigned kind) {
  input<U> s;
  std::size_t k = vp_u64("k");
  std::size_t cnt = vp_text(s.p, s.n, kind, 1);
  vp_assume(k <= cnt);
  bool op = vp_bool("op");
  by_code_point<U> r{s.v};
  auto e = r.cend();
  if (op) e -= static_cast<std::ptrdiff_t>(k);
  else e = r.cend() - static_cast<std::ptrdiff_t>(k);
  vp_cover("backward");
  by_code_point<U> rest{s.v.substr(vp_pos(1, cnt - k))};
  vp_assert(e == rest.cbegin(), "subtracting k moves k code points backward");
}
// reverse iteration yields the same code points in the opposite order
template <class U> static void walk_back(unsigned kind) {
  input<U> s;
  std::size_t k = vp_u64("k");
  std::size_t cnt = vp_text(s.p, s.n, kind, 1);
  vp_assume(k < cnt);
  vp_skolem(k);
  char32_t want = vp_cp(1, k);
  by_code_point<U> r{s.v};
  std::size_t j = cnt;
  char32_t got = 0;
  for (auto it = r.crbegin(); it != r.crend(); ++it) {
    --j;
    if (j == k) got = *it;
  }
  vp_cover("end");
  vp_assert(j == 0, "as many steps as code points");
  vp_assert(got == want, "code point k comes k-th from the end");
}
VP_HARNESS(C04_back_utf8) { back<char8_t>(); }
VP_HARNESS(C04_back_utf16) { back<char16_t>(); }
VP_HARNESS(C04_back_utf32) { back<char32_t>(); }
VP_HARNESS(C04_back_wide) { back<wchar_t>(); }
VP_HARNESS(C04_back_char) { back<char>(); }
VP_HARNESS(C04_jump_utf8) { jump<char8_t>(1); }
VP_HARNESS(C04_jump_utf16) { jump<char16_t>(2); }
VP_HARNESS(C04_jump_utf32) { jump<char32_t>(4); }
VP_HARNESS(C04_jump_wide) { jump<wchar_t>(4); }
VP_HARNESS(C04_jump_char) { jump<char>(0); }
VP_HARNESS(C04_jump_back_utf8) { jump_back<char8_t>(1); }
VP_HARNESS(C04_jump_back_utf16) { jump_back<char16_t>(2); }
VP_HARNESS(C04_jump_back_utf32) { jump_back<char32_t>(4); }
VP_HARNESS(C04_jump_back_wide) { jump_back<wchar_t>(4); }
VP_HARNESS(C04_jump_back_char) { jump_back<char>(0); }
VP_HARNESS(C04_walk_back_utf8) { walk_back<char8_t>(1); }
VP_HARNESS(C04_walk_back_utf16) { walk_back<char16_t>(2); }
VP_HARNESS(C04_walk_back_utf32) { walk_back<char32_t>(4); }
VP_HARNESS(C04_walk_back_wide) { walk_back<wchar_t>(4); }
VP_HARNESS(C04_walk_back_char) { walk_back<char>(0); }
