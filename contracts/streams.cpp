// C16: typed binary streams; C22, C23, C24: text streams
#include "vp.hpp"
#include <bit>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
constexpr std::endian native = std::endian::native, foreign = native == std::endian::little ? std::endian::big : std::endian::little;

// Resources that deliver and take everything (C17..C21 are about the ones that do not).
struct source {
  const std::byte* bytes; std::size_t n, pos;
  bool is_at_end() const noexcept { return pos == n; }
  std::size_t read(std::byte* data, std::size_t count) {
    std::size_t left = n - pos, r = count < left ? count : left;
    std::memcpy(data, bytes + pos, r);
    pos += r;
    return r;
  }
};
struct sink {
  std::byte* bytes; std::size_t n, pos;
  bool is_at_end() const noexcept { return false; }
  std::size_t write(const std::byte* data, std::size_t count) {
    vp_assert(count <= n - pos, "no more bytes are written than the value has");
    std::memcpy(bytes + pos, data, count);
    pos += count;
    return count;
  }
  void flush() {}
};
// ---------------------------------------------------------------- C16
template <std::size_t N> using word = std::conditional_t<N == 1, std::uint8_t, std::conditional_t<N == 2, std::uint16_t, std::conditional_t<N == 4, std::uint32_t, std::uint64_t>>>;
template <std::size_t N> static word<N> arbitrary() {
  if constexpr (N == 1) return vp_u8("v"); else if constexpr (N == 2) return vp_u16("v"); else if constexpr (N == 4) return vp_u32("v"); else return vp_u64("v");
}
template <class T> static void put(std::endian e) {
  word<sizeof(T)> bits = arbitrary<sizeof(T)>();
  T v;
  if constexpr (std::is_same_v<T, bool>) { vp_assume(bits <= 1); }
  std::memcpy(&v, &bits, sizeof v);
  std::size_t room = sizeof(T);
  sink s{static_cast<std::byte*>(vp_array(room, 1, "out")), room, 0};
  cmp::data_output_stream<sink> out(s, e);
  out << v;
  vp_cover("end");
  vp_assert(s.pos == sizeof(T), "exactly the bytes of the value are written");
  for (std::size_t i = 0; i < sizeof(T); ++i)
    vp_assert(static_cast<std::uint8_t>(s.bytes[e == std::endian::little ? i : sizeof(T) - 1 - i]) == static_cast<std::uint8_t>(bits >> 8 * i),
              "in the byte order of the stream");
  word<sizeof(T)> after;
  std::memcpy(&after, &v, sizeof v);
  vp_assert(after == bits, "the value stays");
}
template <class T> static void get(bool swapped) {
  std::size_t n = vp_u64("n"), pos = vp_u64("pos");
  vp_assume(VP_SIZE(n)); vp_assume(pos <= n);
  source s{static_cast<const std::byte*>(vp_array(n, 1, "in")), n, pos};
  word<sizeof(T)> old = arbitrary<sizeof(T)>(), bits = 0, plain = 0;
  T v;
  if constexpr (std::is_same_v<T, bool>) {
    vp_assume(old <= 1);
    if (pos < n) vp_assume(static_cast<std::uint8_t>(s.bytes[pos]) <= 1);
  }
  std::memcpy(&v, &old, sizeof v);
  cmp::data_input_stream<source> in(s, swapped ? foreign : native);
  bool threw = false;
  try { in >> v; } catch (const cmp::read_past_end&) { threw = true; }
  vp_assert(threw == (n - pos < sizeof(T)), "a value that is not there completely is reported");
  std::memcpy(&bits, &v, sizeof v);
  if (threw) {
    vp_cover("incomplete");
    vp_assert(bits == old, "and nothing is stored");
    return;
  }
  vp_cover("end");
  vp_assert(s.pos == pos + sizeof(T), "exactly the bytes of the value are taken");
  bool ok = true, unswapped = true;
  for (std::size_t i = 0; i < sizeof(T); ++i) {
    std::uint8_t want = static_cast<std::uint8_t>(bits >> 8 * i);
    bool little = (native == std::endian::little) != swapped;
    ok &= static_cast<std::uint8_t>(s.bytes[pos + (little ? i : sizeof(T) - 1 - i)]) == want;
    unswapped &= static_cast<std::uint8_t>(s.bytes[pos + (!little ? i : sizeof(T) - 1 - i)]) == want;
  }
  // known finding: with the foreign byte order the bytes are inverted twice
  vp_assert(vp_or(ok, vp_and(swapped, unswapped)), "the value in the byte order of the stream");
}
#define C16(T, N) VP_HARNESS(C16_out_##N) { put<T>(vp_bool("foreign") ? foreign : native); } \
  VP_HARNESS(C16_in_##N) { get<T>(false); } VP_HARNESS(C16_in_foreign_##N) { get<T>(true); }
C16(bool, bool) C16(char, char) C16(unsigned char, uchar) C16(short, short) C16(unsigned short, ushort) C16(int, int) C16(unsigned, uint)
C16(long, long) C16(unsigned long, ulong) C16(long long, llong) C16(unsigned long long, ullong) C16(wchar_t, wchar) C16(char8_t, char8)
C16(char16_t, char16) C16(char32_t, char32) C16(float, float) C16(double, double)
VP_HARNESS(C16_kf_foreign_read) {
  std::uint32_t v = vp_u32("v"), got = 0;
  std::byte b[4] = {std::byte(v >> 24), std::byte(v >> 16), std::byte(v >> 8), std::byte(v)};
  if (native == std::endian::big) for (int i = 0; i < 4; ++i) b[i] = std::byte(v >> 8 * i);
  source s{b, 4, 0};
  cmp::data_input_stream<source> in(s, foreign);
  in >> got;
  vp_cover("end");
  vp_assert(got == v, "a value stored in the byte order of the stream is read back");
}

// ---------------------------------------------------------------- C22
template <class U> static std::uint32_t unit(U c) { return static_cast<std::make_unsigned_t<U>>(c); }
static std::uint32_t unit(char8_t c) { return c; }
template <class U> constexpr unsigned kind = std::is_same_v<U, char> ? 0 : sizeof(U) == 1 ? 1 : sizeof(U);
template <class V> constexpr cmp::encoding_form form = sizeof(V) == 1 ? cmp::utf8 : sizeof(V) == 2 ? cmp::utf16 : cmp::utf32;
static inline char8_t flip(char8_t u) { return u; }
static inline char16_t flip(char16_t u) { return static_cast<char16_t>(u << 8 | u >> 8); }
static inline char32_t flip(char32_t u) { return u << 24 | (u & 0xFF00) << 8 | (u >> 8 & 0xFF00) | u >> 24; }
// collects the code units that the bytes in the given byte order stand for
template <class V> struct collector {
  std::basic_string<V> text;
  bool swapped;
  bool is_at_end() const noexcept { return false; }
  std::size_t write(const std::byte* data, std::size_t count) {
    vp_assert(count % sizeof(V) == 0, "whole code units are written");
    if (swapped && sizeof(V) > 1) {
      vp_assert(count == sizeof(V), "one code unit at a time");
      V u;
      std::memcpy(&u, data, sizeof u);
      text.push_back(flip(u));
    } else text.append(reinterpret_cast<const V*>(data), count / sizeof(V));
    return count;
  }
  void flush() {}
};
template <class V> static void encodes(const std::basic_string<V>& s, std::size_t i, char32_t cp) {
  if constexpr (sizeof(V) == 1) {
    if (cp < 0x80) vp_assert(unit(s[i]) == cp, "one code unit");
    else if (cp < 0x800) {
      vp_assert(unit(s[i]) == 0xC0 + (cp >> 6), "first of two code units");
      vp_assert(unit(s[i + 1]) == 0x80 + (cp & 63), "second of two code units");
    } else if (cp < 0x10000) {
      vp_assert(unit(s[i]) == 0xE0 + (cp >> 12), "first of three code units");
      vp_assert(unit(s[i + 1]) == 0x80 + (cp >> 6 & 63), "second of three code units");
      vp_assert(unit(s[i + 2]) == 0x80 + (cp & 63), "third of three code units");
    } else {
      vp_assert(unit(s[i]) == 0xF0 + (cp >> 18), "first of four code units");
      vp_assert(unit(s[i + 1]) == 0x80 + (cp >> 12 & 63), "second of four code units");
      vp_assert(unit(s[i + 2]) == 0x80 + (cp >> 6 & 63), "third of four code units");
      vp_assert(unit(s[i + 3]) == 0x80 + (cp & 63), "fourth of four code units");
    }
  } else if constexpr (sizeof(V) == 2) {
    if (cp < 0x10000) vp_assert(unit(s[i]) == cp, "one code unit");
    else {
      vp_assert(unit(s[i]) == 0xD800 + ((cp - 0x10000) >> 10), "leading surrogate");
      vp_assert(unit(s[i + 1]) == 0xDC00 + (cp & 0x3FF), "trailing surrogate");
    }
  } else vp_assert(unit(s[i]) == cp, "one code unit");
}
static bool valid(char32_t cp) { return vp_and(cp <= 0x10FFFF, vp_or(cp < 0xD800, cp > 0xDFFF)); }
static std::size_t length8(char32_t cp) { return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4; }
template <class V> static std::size_t length(char32_t cp) { return sizeof(V) == 1 ? length8(cp) : sizeof(V) == 2 && cp >= 0x10000 ? 2 : 1; }
template <class U, class V> static void print(bool swapped) {
  std::size_t n = vp_u64("n"), k = vp_u64("k");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::size_t cnt = vp_text(p, n, kind<U>, 1);
  vp_assume(k < cnt);
  vp_skolem(k);
  char32_t cp = vp_cp(1, k);
  collector<V> c{{}, swapped};
  cmp::text_output_stream<collector<V>> out(c, form<V>, swapped ? foreign : native);
  out << std::basic_string_view<U>(p, n);
  vp_cover("printed");
  vp_assert(c.text.size() == vp_opos(1, kind<V>, cnt), "exactly the code units of the text are written");
  encodes(c.text, vp_opos(1, kind<V>, k), cp);
}
#define C22P(U, N) VP_HARNESS(C22_##N##_to_utf8) { print<U, char8_t>(false); } \
  VP_HARNESS(C22_##N##_to_utf16) { print<U, char16_t>(false); } VP_HARNESS(C22_##N##_to_utf16_foreign) { print<U, char16_t>(true); } \
  VP_HARNESS(C22_##N##_to_utf32) { print<U, char32_t>(false); } VP_HARNESS(C22_##N##_to_utf32_foreign) { print<U, char32_t>(true); }
C22P(char, char) C22P(char8_t, utf8) C22P(char16_t, utf16) C22P(char32_t, utf32) C22P(wchar_t, wide)
template <class V> static void print_one(int what) {
  bool swapped = vp_bool("foreign");
  char32_t cp = what == 2 ? char32_t(0xFEFF) : vp_u32("c");
  vp_assume(valid(cp));
  collector<V> c{{}, swapped};
  {
    cmp::text_output_stream<collector<V>> out(c, form<V>, swapped ? foreign : native);
    if (what == 0) out << cp;
    else if (what == 1) { vp_assume(cp < 0x80); out << static_cast<char>(cp); }
    else out.write_bom();
  }
  vp_cover("printed");
  vp_assert(c.text.size() == length<V>(cp), "exactly the code units of the code point are written");
  encodes(c.text, 0, cp);
}
template <class V> static void switch_encoding() {         // the encoding and byte order in force are those set last
  bool swapped = vp_bool("foreign");
  char32_t cp = vp_u32("c");
  vp_assume(valid(cp));
  collector<V> c{{}, swapped};
  cmp::text_output_stream<collector<V>> out(c, vp_bool("eight") ? cmp::utf8 : cmp::utf16, vp_bool("other") ? foreign : native);
  out.set_encoding_form(form<V>);
  out.set_endianness(swapped ? foreign : native);
  vp_assert(out.get_encoding_form() == form<V>, "the encoding is reported");
  vp_assert(out.get_endianness() == (swapped ? foreign : native), "the byte order is reported");
  out << cp;
  vp_cover("printed");
  vp_assert(c.text.size() == length<V>(cp), "exactly the code units of the code point are written");
  encodes(c.text, 0, cp);
}
#define C22O(V, N) VP_HARNESS(C22_code_point_##N) { print_one<V>(0); } VP_HARNESS(C22_character_##N) { print_one<V>(1); } \
  VP_HARNESS(C24_write_##N) { print_one<V>(2); } VP_HARNESS(C22_switch_##N) { switch_encoding<V>(); }
C22O(char8_t, utf8) C22O(char16_t, utf16) C22O(char32_t, utf32)

// ---------------------------------------------------------------- C23
static bool white(char32_t c) {            // the Unicode property White_Space
  return vp_or(vp_or(vp_and(c >= 9, c <= 13), vp_or(c == 0x20, c == 0x85)),
               vp_or(vp_or(vp_or(c == 0xA0, c == 0x1680), vp_and(c >= 0x2000, c <= 0x200A)),
                     vp_or(vp_or(c == 0x2028, c == 0x2029), vp_or(c == 0x202F, vp_or(c == 0x205F, c == 0x3000)))));
}
// delivers code units of type U in the given byte order
template <class U> struct unit_source {
  const U* units; std::size_t n, pos;      // in code units
  bool swapped, no_cr;
  std::size_t line = 0, word = 0;          // no line feed before unit `line`, no white space before unit `word`
  bool is_at_end() const noexcept { return pos == n; }
  std::size_t read(std::byte* data, std::size_t count) {
    vp_assert(count == sizeof(U), "one code unit at a time");
    if (pos == n) return 0;
    U u = units[pos];
    if (no_cr) vp_assume(u != '\r');
    if (pos < line) vp_assume(u != '\n');
    if constexpr (sizeof(U) == 4) if (pos < word) vp_assume(!white(u));
    if (swapped) u = flip(u);
    std::memcpy(data, &u, sizeof u);
    ++pos;
    return sizeof u;
  }
};
enum outcome { VALUE, PAST_END, INVALID };
static outcome spec(const char8_t* p, std::size_t n, std::size_t& len, char32_t& cp) {
  char8_t b = p[0];
  len = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0;
  if (len == 0) return INVALID;
  if (len == 1) { cp = b; return VALUE; }
  cp = b & (0x7F >> len);
  if (n < 2) return PAST_END;
  if ((p[1] & 0xC0) != 0x80) return INVALID;
  cp = (cp << 6) | (p[1] & 0x3F);
  if (len == 2) return cp < 0x80 ? INVALID : VALUE;
  if (n < 3) return PAST_END;
  if ((p[2] & 0xC0) != 0x80) return INVALID;
  cp = (cp << 6) | (p[2] & 0x3F);
  if (len == 3) return cp < 0x800 ? INVALID : VALUE;
  if (n < 4) return PAST_END;
  if ((p[3] & 0xC0) != 0x80) return INVALID;
  cp = (cp << 6) | (p[3] & 0x3F);
  return cp < 0x10000 ? INVALID : VALUE;
}
static outcome spec(const char16_t* p, std::size_t n, std::size_t& len, char32_t& cp) {
  char16_t u = p[0];
  if ((u & 0xFC00) == 0xDC00) return INVALID;
  if ((u & 0xFC00) != 0xD800) { len = 1; cp = u; return VALUE; }
  if (n < 2) return PAST_END;
  if ((p[1] & 0xFC00) != 0xDC00) return INVALID;
  len = 2;
  cp = 0x10000 + ((char32_t(u) & 0x3FF) << 10) + (p[1] & 0x3FF);
  return VALUE;
}
static outcome spec(const char32_t* p, std::size_t, std::size_t& len, char32_t& cp) { len = 1; cp = p[0]; return VALUE; }
// one code point from any place of any input: its value, or the exception; CR LF counts as LF
template <class U> static void next() {
  std::size_t n = vp_u64("n"), pos = vp_u64("pos");
  bool swapped = vp_bool("foreign");
  vp_assume(VP_SIZE(n)); vp_assume(pos <= n);
  const U* p = static_cast<const U*>(vp_array(n, sizeof(U), "s"));
  unit_source<U> s{p, n, pos, swapped, false};
  cmp::text_input_stream<unit_source<U>> in(s, form<U>, swapped ? foreign : native);
  char32_t got = 0, want = 0, old;
  std::size_t len = 0, at = pos;
  outcome o = VALUE, w;
  try { in >> got; } catch (const cmp::read_past_end&) { o = PAST_END; } catch (const cmp::invalid_unicode_encoding&) { o = INVALID; }
  if (pos == n) { vp_cover("empty"); vp_assert(o == PAST_END, "reading at the end is reported"); return; }
  w = spec(p + pos, n - pos, len, want);
  if (w == VALUE && want == '\r' && pos + len < n) {
    // only CR LF is specified
    vp_assume(p[pos + len] == '\n');
    vp_cover("cr lf");
    at += len; len = 1; want = '\n';
  }
  vp_assert(o == w, "malformed or truncated input is reported, well-formed input is not");
  if (o != VALUE) { vp_cover("malformed"); return; }
  vp_cover("read");
  vp_assert(got == want, "the code point at the position");
  vp_assert(s.pos == at + len, "exactly its code units are taken");
}
template <class U> static void next4() {      // UTF-32: there is no malformed single unit
  std::size_t n = vp_u64("n"), pos = vp_u64("pos");
  bool swapped = vp_bool("foreign");
  vp_assume(VP_SIZE(n)); vp_assume(pos <= n);
  const U* p = static_cast<const U*>(vp_array(n, sizeof(U), "s"));
  unit_source<U> s{p, n, pos, swapped, false};
  cmp::text_input_stream<unit_source<U>> in(s, form<U>, swapped ? foreign : native);
  char32_t got = 0;
  bool past = false;
  try { in >> got; } catch (const cmp::read_past_end&) { past = true; }
  vp_assert(past == (pos == n), "reading at the end is reported");
  if (past) { vp_cover("empty"); return; }
  if (p[pos] == '\r' && pos + 1 < n) {
    vp_assume(p[pos + 1] == '\n');
    vp_cover("cr lf");
    vp_assert(got == '\n' && s.pos == pos + 2, "CR LF is LF");
    return;
  }
  vp_cover("read");
  vp_assert(got == p[pos], "the code point at the position");
  vp_assert(s.pos == pos + 1, "exactly its code unit is taken");
}
VP_HARNESS(C23_next_utf8) { next<char8_t>(); }
VP_HARNESS(C23_next_utf16) { next<char16_t>(); }
VP_HARNESS(C23_next_utf32) { next4<char32_t>(); }
// everything, from the start, into a string of another encoding (text without carriage returns)
template <class U, class V> static void all(bool swapped) {
  std::size_t n = vp_u64("n"), k = vp_u64("k");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::size_t cnt = vp_text(p, n, kind<U>, 1);
  vp_assume(k < cnt);
  vp_skolem(k);
  char32_t cp = vp_cp(1, k);
  unit_source<U> s{p, n, 0, swapped, true};
  cmp::text_input_stream<unit_source<U>> in(s, form<U>, swapped ? foreign : native);
  std::basic_string<V> r;
  in.read_all(r);
  vp_cover("read");
  vp_assert(s.pos == n, "the whole input is taken");
  vp_assert(r.size() == vp_opos(1, kind<V>, cnt), "the result has exactly the code units of the text");
  encodes(r, vp_opos(1, kind<V>, k), cp);
}
// a line: everything up to the first line feed, which is taken but not delivered; a word likewise up to white space
template <class U, class V> static void line(bool swapped) {
  std::size_t n = vp_u64("n"), k = vp_u64("k"), end = vp_u64("end");
  vp_assume(VP_SIZE(n));
  U* p = static_cast<U*>(vp_array(n, sizeof(U), "s"));
  std::size_t cnt = vp_text(p, n, kind<U>, 1);
  vp_assume(end <= cnt); vp_assume(k < end);
  vp_skolem(k);
  char32_t cp = vp_cp(1, k);
  unit_source<U> s{p, n, 0, swapped, true};
  s.line = vp_pos(1, end);
  vp_mark(1, end);
  if (end < cnt) vp_assume(p[s.line] == '\n');
  cmp::text_input_stream<unit_source<U>> in(s, form<U>, swapped ? foreign : native);
  std::basic_string<V> r;
  in.read_line(r);
  vp_cover("read");
  if (end < cnt) vp_cover("line feed");
  vp_assert(s.pos == (end < cnt ? s.line + 1 : n), "the line and its line feed are taken, no more");
  vp_assert(r.size() == vp_opos(1, kind<V>, end), "the result has exactly the code units of the line");
  encodes(r, vp_opos(1, kind<V>, k), cp);
}
template <class V> static void word_of(bool swapped) {
  std::size_t n = vp_u64("n"), k = vp_u64("k"), end = vp_u64("end");
  vp_assume(VP_SIZE(n));
  char32_t* p = static_cast<char32_t*>(vp_array(n, 4, "s"));
  std::size_t cnt = vp_text(p, n, 4, 1);
  vp_assume(end <= cnt); vp_assume(k < end);
  vp_skolem(k);
  char32_t cp = vp_cp(1, k);
  unit_source<char32_t> s{p, n, 0, swapped, true};
  s.word = end;
  if (end < cnt) vp_assume(white(p[end]));
  cmp::text_input_stream<unit_source<char32_t>> in(s, cmp::utf32, swapped ? foreign : native);
  std::basic_string<V> r;
  in >> r;
  vp_cover("read");
  if (end < cnt) vp_cover("white space");
  vp_assert(s.pos == (end < cnt ? end + 1 : n), "the word and one white space after it are taken, no more");
  vp_assert(r.size() == vp_opos(1, kind<V>, end), "the result has exactly the code units of the word");
  encodes(r, vp_opos(1, kind<V>, k), cp);
}
VP_HARNESS(C23_line_utf8_to_utf32) { line<char8_t, char32_t>(false); }
VP_HARNESS(C23_line_utf16_to_utf32) { line<char16_t, char32_t>(true); }
VP_HARNESS(C23_line_utf32_to_utf16) { line<char32_t, char16_t>(true); }
VP_HARNESS(C23_line_utf32_to_utf32) { line<char32_t, char32_t>(false); }
VP_HARNESS(C23_word_to_utf32) { word_of<char32_t>(false); }
#define C23A(U, N) VP_HARNESS(C23_##N##_to_utf8) { all<U, char8_t>(false); } VP_HARNESS(C23_##N##_to_utf16) { all<U, char16_t>(true); } \
  VP_HARNESS(C23_##N##_to_utf32) { all<U, char32_t>(false); }
C23A(char8_t, utf8) C23A(char16_t, utf16) C23A(char32_t, utf32)

// ---------------------------------------------------------------- C24
template <class U> static void bom(std::endian actual) {
  std::size_t n = vp_u64("n");
  std::endian set = vp_bool("set") ? std::endian::big : std::endian::little;
  vp_assume(VP_SIZE(n));
  std::size_t bytes = n * sizeof(U);
  const std::byte* p = static_cast<const std::byte*>(vp_array(bytes, 1, "s"));
  source s{p, bytes, 0};
  cmp::text_input_stream<source> in(s, form<U>, set);
  if (n == 0) {
    bool past = false;
    try { in.read_bom(); } catch (const cmp::read_past_end&) { past = true; }
    vp_cover("empty");
    vp_assert(past, "an empty input is reported");
    return;
  }
  U u = 0;
  for (std::size_t i = 0; i < sizeof(U); ++i) u = static_cast<U>(u << 8 | static_cast<U>(p[actual == std::endian::big ? i : sizeof(U) - 1 - i]));
  vp_assume(u == 0xFEFF);
  char32_t got = in.read_bom();
  vp_cover("marked");
  vp_assert(got == 0xFEFF, "the mark is delivered");
  vp_assert(in.get_endianness() == actual, "the byte order is the one of the mark");
  vp_assert(s.pos == sizeof(U), "exactly the mark is taken");
}
VP_HARNESS(C24_mark_utf16_big) { bom<char16_t>(std::endian::big); }
VP_HARNESS(C24_mark_utf16_little) { bom<char16_t>(std::endian::little); }
VP_HARNESS(C24_mark_utf32_big) { bom<char32_t>(std::endian::big); }
VP_HARNESS(C24_mark_utf32_little) { bom<char32_t>(std::endian::little); }
template <class U> static void no_bom() {
  std::size_t n = vp_u64("n");
  bool big = vp_bool("set");
  std::endian set = big ? std::endian::big : std::endian::little;
  vp_assume(VP_SIZE(n)); vp_assume(n > 0);
  std::size_t bytes = n * sizeof(U);
  const std::byte* p = static_cast<const std::byte*>(vp_array(bytes, 1, "s"));
  U u[2] = {}, f = 0;
  for (std::size_t i = 0; i < sizeof(U); ++i) u[0] = static_cast<U>(u[0] << 8 | static_cast<U>(p[big ? i : sizeof(U) - 1 - i]));
  if (n > 1) for (std::size_t i = 0; i < sizeof(U); ++i) u[1] = static_cast<U>(u[1] << 8 | static_cast<U>(p[sizeof(U) + (big ? i : sizeof(U) - 1 - i)]));
  vp_assume(u[0] != 0xFEFF); vp_assume(flip(u[0]) != 0xFEFF);
  source s{p, bytes, 0};
  cmp::text_input_stream<source> in(s, form<U>, set);
  char32_t got = 0, want = 0;
  std::size_t len = 0;
  outcome o = VALUE;
  try { got = in.read_bom(); } catch (const cmp::read_past_end&) { o = PAST_END; } catch (const cmp::invalid_unicode_encoding&) { o = INVALID; }
  outcome w = spec(u, n, len, want);
  vp_assert(o == w, "malformed or truncated input is reported, well-formed input is not");
  vp_assert(in.get_endianness() == set, "without a mark the byte order stays");
  if (o != VALUE) return;
  vp_cover("unmarked");
  vp_assert(got == want, "without a mark the first code point is delivered");
  vp_assert(s.pos == len * sizeof(U), "exactly its bytes are taken");
}
VP_HARNESS(C24_unmarked_utf16) { no_bom<char16_t>(); }
VP_HARNESS(C24_unmarked_utf32) { no_bom<char32_t>(); }
VP_HARNESS(C24_utf8) {
  std::size_t n = vp_u64("n");
  vp_assume(VP_SIZE(n)); vp_assume(n > 0);
  const char8_t* p = static_cast<const char8_t*>(vp_array(n, 1, "s"));
  source s{reinterpret_cast<const std::byte*>(p), n, 0};
  cmp::text_input_stream<source> in(s, cmp::utf8, std::endian::big);
  char32_t got = 0, want = 0;
  std::size_t len = 0;
  outcome o = VALUE;
  try { got = in.read_bom(); } catch (const cmp::read_past_end&) { o = PAST_END; } catch (const cmp::invalid_unicode_encoding&) { o = INVALID; }
  vp_assert(o == spec(p, n, len, want), "malformed or truncated input is reported, well-formed input is not");
  if (o != VALUE) return;
  vp_cover("read");
  vp_assert(got == want, "the first code point, a mark or not, is delivered");
  vp_assert(s.pos == len, "exactly its bytes are taken");
}

// ---------------------------------------------------------------- C15
VP_HARNESS(C15_invert) {
  std::size_t n = vp_u64("n"), k = vp_u64("k");
  vp_assume(VP_SIZE(n)); vp_assume(k < n);
  vp_skolem(k);
  std::byte* p = static_cast<std::byte*>(vp_array(n, 1, "data"));
  std::byte mirror = p[n - 1 - k];
  cmp::invert_endianness(p, n);
  vp_cover("inverted");
  vp_assert(p[k] == mirror, "byte k is the byte that was k places from the end");
}
VP_HARNESS(C15_nothing) {
  std::size_t size = 1;
  std::byte* p = static_cast<std::byte*>(vp_array(size, 1, "data"));
  std::byte b = *p;
  cmp::invert_endianness(nullptr, 0);
  cmp::invert_endianness(p, 0);
  cmp::invert_endianness(p + 1, 0);
  vp_cover("nothing");
  vp_assert(*p == b, "no byte changes");
}
template <class T> static void invert_twice() {      // a value inverted twice is itself, inverted once it is byte-reversed
  word<sizeof(T)> bits = arbitrary<sizeof(T)>(), once, twice;
  once = bits;
  cmp::invert_endianness(reinterpret_cast<std::byte*>(&once), sizeof once);
  for (std::size_t i = 0; i < sizeof(T); ++i)
    vp_assert(static_cast<std::uint8_t>(once >> 8 * i) == static_cast<std::uint8_t>(bits >> 8 * (sizeof(T) - 1 - i)), "the bytes of the value reversed");
  twice = once;
  cmp::invert_endianness(reinterpret_cast<std::byte*>(&twice), sizeof twice);
  vp_cover("inverted");
  vp_assert(twice == bits, "inverting twice gives the value back");
}
VP_HARNESS(C15_value_2) { invert_twice<std::uint16_t>(); }
VP_HARNESS(C15_value_4) { invert_twice<std::uint32_t>(); }
VP_HARNESS(C15_value_8) { invert_twice<std::uint64_t>(); }
// raw bytes through the streams: the sequence in the byte order of the stream
template <bool out> static void raw() {
  std::size_t n = vp_u64("n"), k = vp_u64("k");
  vp_assume(VP_SIZE(n)); vp_assume(k < n);
  vp_skolem(k);
  std::byte* p = static_cast<std::byte*>(vp_array(n, 1, "data"));
  std::byte mirror = p[n - 1 - k], same = p[k];
  std::byte* q = static_cast<std::byte*>(vp_array(n, 1, "other"));
  if constexpr (out) {
    sink s{q, n, 0};
    cmp::data_output_stream<sink> o(s, native);
    bool rev = vp_bool("reverse");
    std::size_t w = rev ? o.reverse_write(p, n) : o.write(p, n);
    vp_cover("written");
    vp_assert(w == n && s.pos == n, "everything is written");
    vp_assert(q[k] == (rev ? mirror : same), "in the order asked for");
  } else {
    source s{p, n, 0};
    bool rev = vp_bool("foreign");
    cmp::input_stream<source> i(s, rev ? foreign : native);
    std::size_t r = i.read(q, n);
    vp_cover("read");
    vp_assert(r == n && s.pos == n, "everything is read");
    vp_assert(q[k] == (rev ? mirror : same), "in the byte order of the stream");
  }
}
VP_HARNESS(C15_raw_write) { raw<true>(); }
VP_HARNESS(C15_raw_read) { raw<false>(); }
