// C19 C20: container resources
#include "vp.hpp"
#include <cstring>
#include <string>
#include <vector>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
using i64 = std::int64_t;
using cmp::position_reference;
constexpr position_reference refs[] = {position_reference::begin, position_reference::current, position_reference::end};

// content of n elements with arbitrary bytes b
template <class C> static C content(const std::byte* b, std::size_t n) {
  C c(n, typename C::value_type{});
  std::memcpy(reinterpret_cast<std::byte*>(c.data()), b, n * sizeof(typename C::value_type));
  return c;
}
// The class invariants, as constructors of every consistent state.
template <class C> struct reader : cmp::transparent_container_input_resource<C> {
  using base = cmp::transparent_container_input_resource<C>;
  using base::m_buffer;
  reader(C& c, std::size_t cap)
      : cmp::transfer_resource{cap}, cmp::seekable_transfer_resource<i64>{cap}, cmp::seekable_input_resource<i64>{cap},
        cmp::impl::ctr_essence<C>{&c}, base{c, cap} {}
  void state(const std::byte* b, bool dirty, std::size_t mpos, std::size_t s, std::size_t p) {
    this->m_position = static_cast<i64>(mpos);
    if (dirty) return;
    if (s > 0) std::memcpy(m_buffer.get_data_ptr(), b + mpos, s);
    m_buffer.set_read_dirty(false);
    m_buffer.set_size(s);
    m_buffer.set_position(p);
    this->m_last_fill_amount = s;
  }
  void check_invariant(const std::byte* b, std::size_t size, std::size_t j) {
    if (m_buffer.is_read_dirty()) {
      vp_assert(m_buffer.get_position() == 0, "nothing is taken from a buffer without data");
      vp_assert(this->m_last_fill_amount == 0, "nothing is buffered");
      return;
    }
    std::size_t s = m_buffer.get_size(), p = m_buffer.get_position(), m = static_cast<std::size_t>(this->m_position);
    vp_assert(s <= m_buffer.get_capacity(), "the buffered bytes fit the buffer");
    vp_assert(p <= s, "the buffer position is inside the buffered bytes");
    vp_assert(this->m_last_fill_amount == s, "the raw position lags by what is buffered");
    if (j < s) {
      vp_assert(m + s <= size, "only content is buffered");
      vp_assert(m_buffer.get_data_ptr()[j] == b[m + j], "the buffer holds the content at the position");
    }
  }
};
struct input_case {
  std::size_t n, size, cap, mpos, s, p;
  const std::byte* b;
  bool dirty;
  explicit input_case(std::size_t ew) {
    n = vp_u64("n"); cap = vp_u64("cap"); mpos = vp_u64("mpos"); s = vp_u64("s"); p = vp_u64("p"); dirty = vp_bool("dirty");
    vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(mpos));
    size = n * ew;
    vp_assume(vp_imp(cap == 0, dirty)); vp_assume(s <= cap); vp_assume(p <= s);
    vp_assume(vp_imp(dirty, s == 0));
    vp_assume(vp_or(s == 0, vp_and(mpos <= size, s <= size - mpos)));
    b = static_cast<const std::byte*>(vp_array(size, 1, "content"));
  }
};
template <class C> static void reading() {
  input_case c(sizeof(typename C::value_type));
  std::size_t m = vp_u64("m"), k = vp_u64("k"), j = vp_u64("j");
  vp_assume(VP_SIZE(m));
  C content_ = content<C>(c.b, c.n);
  reader<C> r(content_, c.cap);
  r.state(c.b, c.dirty, c.mpos, c.s, c.p);
  std::size_t pos = c.mpos + c.p, left = pos < c.size ? c.size - pos : 0;
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::size_t got = r.read(d, m);
  vp_cover("end");
  vp_assert(got == (m < left ? m : left), "all bytes requested, or all that are left");
  if (k < got) vp_assert(d[k] == c.b[pos + k], "the content from the position on");
  vp_assert(static_cast<std::size_t>(r.get_position()) == pos + got, "the position advances by the bytes read");
  if (pos <= c.size) vp_assert(r.is_at_end() == (pos + got == c.size), "at the end exactly when everything is read");
  r.check_invariant(c.b, c.size, j);
}
template <class C> static void seeking(bool read) {
  constexpr std::size_t ew = sizeof(typename C::value_type);
  input_case c(ew);
  std::size_t m = vp_u64("m"), k = vp_u64("k"), j = vp_u64("j");
  i64 to = static_cast<i64>(vp_u64("to"));
  vp_assume(VP_SIZE(m)); vp_assume(vp_or(VP_SIZE(static_cast<std::size_t>(to)), VP_SIZE(0 - static_cast<std::size_t>(to))));
  std::uint64_t ref = vp_u64("ref");
  vp_assume(ref <= 4);
  ref = vp_split(ref, 0, 4);
  C content_ = content<C>(c.b, c.n);
  reader<C> r(content_, c.cap);
  r.state(c.b, c.dirty, c.mpos, c.s, c.p);
  i64 here = static_cast<i64>(c.mpos + c.p), want;
  switch (ref) {
    case 0: want = to * ew; r.set_position(to, position_reference::begin); break;
    case 1: want = here + to * ew; r.set_position(to, position_reference::current); break;
    case 2: want = (static_cast<i64>(c.n) - to) * ew; r.set_position(to, position_reference::end); break;
    case 3: want = here - to * ew; r.go_back(to); break;
    default: want = here + to * ew; r.go_forward(to); break;
  }
  if (want < 0) want = 0;
  vp_assert(r.get_position() == want, "the new position, never before the start");
  r.check_invariant(c.b, c.size, j);
  vp_cover("seek");
  if (!read) return;                 // C20_read: from every consistent state the content at the position is read
  std::size_t pos = static_cast<std::size_t>(want), left = pos < c.size ? c.size - pos : 0;
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::size_t got = r.read(d, m);
  vp_assert(got == (m < left ? m : left), "all bytes requested, or all that are left");
  if (k < got) vp_assert(d[k] == c.b[pos + k], "the content from the new position on");
}
#define C20R(C, N) VP_HARNESS(C20_read_##N) { reading<C>(); } VP_HARNESS(C19_seek_##N) { seeking<C>(false); }
using blob = std::vector<std::byte>;
C20R(blob, blob) C20R(std::string, string) C20R(std::u8string, u8string) C20R(std::u16string, u16string) C20R(std::u32string, u32string) C20R(std::wstring, wstring)

VP_HARNESS(C19_seek_read_blob) { seeking<blob>(true); }
VP_HARNESS(C19_seek_read_u32string) { seeking<std::u32string>(true); }

// ---------------------------------------------------------------- writing
template <class C> struct writer : cmp::transparent_container_output_resource<C> {
  using base = cmp::transparent_container_output_resource<C>;
  using base::m_buffer;
  writer(C& c, std::size_t cap)
      : cmp::transfer_resource{cap}, cmp::seekable_transfer_resource<i64>{cap}, cmp::seekable_output_resource<i64>{cap},
        cmp::impl::ctr_essence<C>{&c}, base{c, cap} {}
  void state(std::size_t mpos, bool dirty, const std::byte* pending, std::size_t p) {
    this->m_position = static_cast<i64>(mpos);
    if (!dirty) return;
    std::memcpy(m_buffer.get_data_ptr(), pending, p);
    m_buffer.set_write_dirty(true);
    m_buffer.set_position(p);
  }
};
template <class C> static void writing(bool seek) {
  constexpr std::size_t ew = sizeof(typename C::value_type);
  std::size_t n = vp_u64("n"), cap = vp_u64("cap"), mpos = vp_u64("mpos"), p = vp_u64("p"), m = vp_u64("m"), k = vp_u64("k");
  bool dirty = vp_bool("dirty");
  vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(mpos)); vp_assume(VP_SIZE(m)); vp_assume(p <= cap);
  vp_assume(vp_imp(!dirty, p == 0)); vp_assume(vp_imp(cap == 0, !dirty));
  std::size_t size = n * ew;
  if (seek) { vp_assume(m > 0); vp_assume(vp_imp(dirty, p > 0)); }
  else vp_assume(vp_or(mpos <= size, vp_and(m > 0, vp_imp(dirty, p > 0))));   // past the end, writing nothing still extends the content
  const std::byte* b = static_cast<const std::byte*>(vp_array(size, 1, "content"));
  const std::byte* pend = static_cast<const std::byte*>(vp_array(p, 1, "pending"));
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  C content_ = content<C>(b, n);
  writer<C> w(content_, cap);
  w.state(mpos, dirty, pend, p);
  std::size_t at = mpos + p, after = mpos + p > size ? (mpos + p + ew - 1) / ew : n;   // elements once the pending bytes arrive
  if (p == 0) after = n;
  if (seek) {
    i64 to = static_cast<i64>(vp_u64("to"));
    vp_assume(vp_or(VP_SIZE(static_cast<std::size_t>(to)), VP_SIZE(0 - static_cast<std::size_t>(to))));
    std::uint64_t ref = vp_u64("ref");
    vp_assume(ref <= 2);
    ref = vp_split(ref, 0, 2);
    w.set_position(to, refs[ref]);
    vp_cover("seek");
    i64 want = (ref == 0 ? 0 : ref == 1 ? static_cast<i64>(at) : static_cast<i64>(after * ew)) + (ref == 2 ? -to : to) * static_cast<i64>(ew);
    if (want < 0) want = 0;
    vp_assert(w.get_position() == want, "the new position, never before the start");
    at = static_cast<std::size_t>(want);
  }
  vp_assert(w.write(d, m) == m, "everything is taken");
  vp_assert(static_cast<std::size_t>(w.get_position()) == at + m, "the position advances by the bytes written");
  w.flush();
  vp_cover("end");
  std::size_t elements = m > 0 && at + m > after * ew ? (at + m + ew - 1) / ew : after;
  vp_assert(content_.size() == elements, "the content grows by exactly what is written");
  const std::byte* out = reinterpret_cast<const std::byte*>(content_.data());
  if (k < elements * ew) {
    std::byte want = k < size ? b[k] : std::byte{0};
    if (k >= mpos && k - mpos < p) want = pend[k - mpos];
    if (k >= at && k - at < m) want = d[k - at];
    vp_assert(out[k] == want, "what is written at its place, zero between the old end and it, the rest unchanged");
  }
}
#define C20W(C, N) VP_HARNESS(C20_write_##N) { writing<C>(false); } VP_HARNESS(C19_write_##N) { writing<C>(true); }
C20W(blob, blob) C20W(std::string, string) C20W(std::u8string, u8string) C20W(std::u16string, u16string) C20W(std::u32string, u32string) C20W(std::wstring, wstring)

// ---------------------------------------------------------------- resources with content of their own, through the public functions
template <class C> static void opaque_reading() {
  constexpr std::size_t ew = sizeof(typename C::value_type);
  std::size_t n = vp_u64("n"), cap = vp_u64("cap"), m = vp_u64("m"), k = vp_u64("k"), to = vp_u64("to");
  vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(m)); vp_assume(to <= n);
  const std::byte* b = static_cast<const std::byte*>(vp_array(n * ew, 1, "content"));
  C content_ = content<C>(b, n);
  cmp::opaque_container_input_resource<C> r(content_, cap);
  vp_assert(r.get_position() == 0, "reading starts at the beginning");
  r.set_position(static_cast<i64>(to), position_reference::begin);
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::size_t got = r.read(d, m), left = (n - to) * ew;
  vp_cover("end");
  vp_assert(got == (m < left ? m : left), "all bytes requested, or all that are left");
  if (k < got) vp_assert(d[k] == b[to * ew + k], "the content from the position on");
  vp_assert(r.is_at_end() == (got == left), "at the end exactly when everything is read");
}
template <class C> static void opaque_writing() {
  constexpr std::size_t ew = sizeof(typename C::value_type);
  std::size_t n = vp_u64("n"), cap = vp_u64("cap"), m = vp_u64("m"), k = vp_u64("k"), to = vp_u64("to");
  vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(m)); vp_assume(to <= n);
  const std::byte* b = static_cast<const std::byte*>(vp_array(n * ew, 1, "content"));
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  C content_ = content<C>(b, n);
  cmp::opaque_container_output_resource<C> w(content_, cap);
  w.set_position(static_cast<i64>(to), position_reference::begin);
  vp_assert(w.write(d, m) == m, "everything is taken");
  w.flush();
  vp_cover("end");
  std::size_t end = to * ew + m, elements = end > n * ew ? (end + ew - 1) / ew : n;
  const C& r = w.grab_content();
  vp_assert(r.size() == elements, "the content grows by exactly what is written");
  if (k < elements * ew) {
    std::byte want = k < n * ew ? b[k] : std::byte{0};
    if (k >= to * ew && k - to * ew < m) want = d[k - to * ew];
    vp_assert(reinterpret_cast<const std::byte*>(r.data())[k] == want, "what is written at its place, the rest unchanged");
  }
  if (k < n * ew) vp_assert(reinterpret_cast<const std::byte*>(content_.data())[k] == b[k], "the initial content is copied, not shared");
}
template <class R, class C> static void write_then_read(R& w) {
  std::size_t m = vp_u64("m"), l = vp_u64("l"), k = vp_u64("k");
  vp_assume(VP_SIZE(m)); vp_assume(VP_SIZE(l));
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  std::byte* e = static_cast<std::byte*>(vp_array(l, 1, "e"));
  vp_assert(w.write(d, m) == m, "everything is taken");
  w.set_position(0, position_reference::begin);
  std::size_t got = w.read(e, l), all = (m + sizeof(typename C::value_type) - 1) / sizeof(typename C::value_type) * sizeof(typename C::value_type);
  vp_cover("end");
  vp_assert(got == (l < all ? l : all), "what was written can be read");
  if (k < got) vp_assert(e[k] == (k < m ? d[k] : std::byte{0}), "back, in order");
}
template <class C> static void opaque_both() {
  std::size_t cap = vp_u64("cap");
  vp_assume(VP_SIZE(cap));
  cmp::opaque_container_io_resource<C> w(cap);
  write_then_read<cmp::opaque_container_io_resource<C>, C>(w);
}
template <class C> static void transparent_both() {
  std::size_t cap = vp_u64("cap");
  vp_assume(VP_SIZE(cap));
  C content_{};
  cmp::transparent_container_io_resource<C> w(content_, cap);
  write_then_read<cmp::transparent_container_io_resource<C>, C>(w);
}
#define C20O(C, N) VP_HARNESS(C20_opaque_read_##N) { opaque_reading<C>(); } VP_HARNESS(C20_opaque_write_##N) { opaque_writing<C>(); } \
  VP_HARNESS(C20_opaque_io_##N) { opaque_both<C>(); } VP_HARNESS(C20_transparent_io_##N) { transparent_both<C>(); }
C20O(blob, blob) C20O(std::string, string) C20O(std::u8string, u8string) C20O(std::u16string, u16string) C20O(std::u32string, u32string) C20O(std::wstring, wstring)
