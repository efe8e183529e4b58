// C11: truth values as text
#include "vp.hpp"
#include <string>
#include <string_view>
#include <type_traits>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>

#include "encodes.hpp"

static std::u8string any_string(const char* what, std::size_t& n, const char8_t*& p) {
  n = vp_u64(what);
  vp_assume(VP_SIZE(n));
  p = static_cast<const char8_t*>(vp_array(n, 1, what));
  return std::u8string(p, n);
}
// formatting: the chosen string, in the encoding of the result
template <class V> static void format(bool b) {
  std::size_t n = vp_u64("n"), k = vp_u64("k"), m;
  const char8_t* q;
  vp_assume(VP_SIZE(n));
  char8_t* p = static_cast<char8_t*>(vp_array(n, 1, "s"));
  std::size_t cnt = vp_text(p, n, 1, 1);
  vp_assume(k < cnt);
  vp_skolem(k);
  char32_t cp = vp_cp(1, k);
  std::u8string s(p, n), other = any_string("other", m, q);
  std::basic_string<V> r = cmp::format_bool<std::basic_string<V>>(b, b ? cmp::bool_format(s, other) : cmp::bool_format(other, s));
  vp_cover("formatted");
  vp_assert(r.size() == vp_opos(1, kind<V>, cnt), "the result has exactly the code units of the string chosen");
  encodes(r, vp_opos(1, kind<V>, k), cp);
}
#define C11F(V, N) VP_HARNESS(C11_format_true_##N) { format<V>(true); } VP_HARNESS(C11_format_false_##N) { format<V>(false); }
C11F(char8_t, utf8) C11F(char16_t, utf16) C11F(char32_t, utf32)

enum verdict { FALSE, TRUE, EMPTY, NEITHER, OTHER };
template <class S> static verdict parse(const S& s, const cmp::bool_format& f) {
  try { return cmp::parse_bool(s, f) ? TRUE : FALSE; }
  catch (const cmp::parse_failed& e) {
    return e.get_type() == cmp::parse_failed::type::empty_input ? EMPTY : e.get_type() == cmp::parse_failed::type::neither_boolean ? NEITHER : OTHER;
  }
}
// whatever is accepted is one of the two strings, unit by unit
template <class S> static void accepted() {
  std::size_t n, nt, nf, k = vp_u64("k");
  const char8_t *p, *t, *f;
  vp_skolem(k);
  std::u8string s = any_string("s", n, p), st = any_string("true", nt, t), sf = any_string("false", nf, f);
  verdict v = parse<S>(S(s), cmp::bool_format(st, sf));
  vp_assert(v != OTHER, "one of the two reasons to reject");
  vp_assert((v == EMPTY) == (n == 0), "the empty text is rejected, and only it as such");
  if (v == TRUE) {
    vp_cover("true");
    vp_assert(n == nt, "as long as the true string");
    if (k < n) vp_assert(p[k] == t[k], "the true string unit by unit");
  } else if (v == FALSE) {
    vp_cover("false");
    vp_assert(n == nf, "as long as the false string");
    if (k < n) vp_assert(p[k] == f[k], "the false string unit by unit");
  } else vp_cover("rejected");
}
// a copy of the true string is true; a copy of the false string that differs from the true string is false
template <class S> static void recognised(bool b) {
  std::size_t n, m, d = vp_u64("d");
  const char8_t *p, *q;
  vp_skolem(d);
  std::u8string s = any_string("s", n, p), other = any_string("other", m, q);
  vp_assume(n > 0);
  if (!b) {
    if (n == m) { vp_assume(d < n); vp_assume(p[d] != q[d]); vp_cover("as long as the true string"); }
    else vp_cover("another length");
  }
  verdict v = parse<S>(S(s), b ? cmp::bool_format(s, other) : cmp::bool_format(other, s));
  vp_cover("parsed");
  vp_assert(v == (b ? TRUE : FALSE), "its own string is recognised");
}
VP_HARNESS(C11_accepted) { accepted<std::u8string>(); }
VP_HARNESS(C11_accepted_view) { accepted<std::u8string_view>(); }
VP_HARNESS(C11_true) { recognised<std::u8string>(true); }
VP_HARNESS(C11_false) { recognised<std::u8string>(false); }
VP_HARNESS(C11_true_view) { recognised<std::u8string_view>(true); }
VP_HARNESS(C11_false_view) { recognised<std::u8string_view>(false); }
// the strings of a format: kept, replaced one at a time, copied with it
VP_HARNESS(C11_strings) {
  std::size_t n, m, l, k = vp_u64("k");
  const char8_t *p, *q, *r;
  vp_skolem(k);
  std::u8string s = any_string("s", n, p), t = any_string("t", m, q), u = any_string("u", l, r);
  cmp::bool_format f(s, t);
  bool first = vp_bool("which");
  if (first) f.set_true_string(u); else f.set_false_string(u);
  cmp::bool_format g = f;
  std::u8string a = g.get_true_string(), b = g.get_false_string();
  vp_cover("set");
  const char8_t *wa = first ? r : p, *wb = first ? q : r;
  vp_assert(a.size() == (first ? l : n), "size of the true string");
  vp_assert(b.size() == (first ? m : l), "size of the false string");
  if (k < a.size()) vp_assert(a[k] == wa[k], "the true string unit by unit");
  if (k < b.size()) vp_assert(b[k] == wb[k], "the false string unit by unit");
}
VP_HARNESS(C11_default) {
  cmp::bool_format f;
  std::u8string a = f.get_true_string(), b = f.get_false_string();
  vp_cover("default");
  vp_assert(a.size() == 1 && a[0] == u8'1' && b.size() == 1 && b[0] == u8'0', "1 and 0");
}
