// C17 C18 C26: buffered input and output over any underlying resource
#include "vp.hpp"
#include <cstring>
#include <cmp/io/input_resource.hpp>
#include <cmp/io/output_resource.hpp>

// Any source of bytes: each raw read delivers between one and the requested number of the next bytes, none only at the end.
struct source : cmp::input_resource {
  const std::byte* bytes; std::size_t n, pos;
  source(std::size_t cap, const std::byte* b, std::size_t n, std::size_t pos)
      : cmp::transfer_resource{cap}, cmp::input_resource{cap}, bytes{b}, n{n}, pos{pos} {}
  bool is_at_end() const noexcept override { return false; }
  std::size_t read_raw(std::byte* data, std::size_t count, cmp::read_request) override {
    std::size_t r = vp_u64("delivered");
    vp_assume(r <= count); vp_assume(r <= n - pos);
    vp_assume(vp_or(r > 0, vp_or(count == 0, pos == n)));
    std::memcpy(data, bytes + pos, r);
    pos += r;
    return r;
  }
  // the class invariant: what is buffered and not yet consumed is what precedes the raw position
  std::size_t consumed() { return m_buffer.is_read_dirty() ? pos : pos - m_buffer.get_size() + m_buffer.get_position(); }
  void consistent_state(bool dirty, std::size_t s, std::size_t p) {
    if (dirty) return;
    std::memcpy(m_buffer.get_data_ptr(), bytes + (pos - s), s);
    m_buffer.set_read_dirty(false);
    m_buffer.set_size(s);
    m_buffer.set_position(p);
  }
  void check_invariant(std::size_t j) {
    if (m_buffer.is_read_dirty()) return;
    std::size_t s = m_buffer.get_size(), p = m_buffer.get_position();
    vp_assert(s <= m_buffer.get_capacity(), "the buffered bytes fit the buffer");
    vp_assert(p <= s, "the buffer position is inside the buffered bytes");
    vp_assert(s <= pos, "no more is buffered than was delivered");
    if (j < s) vp_assert(m_buffer.get_data_ptr()[j] == bytes[pos - s + j], "the buffer holds the bytes just before the raw position");
  }
};
static void step(source& s, const std::byte* b, std::size_t n, std::size_t& pos, std::size_t k) {
  std::size_t m = vp_u64("m");
  vp_assume(VP_SIZE(m));
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::size_t r = s.read(d, m);
  vp_assert(r <= m, "no more bytes than requested");
  vp_assert(r <= n - pos, "no bytes past the end");
  vp_assert(vp_or(r > 0, vp_or(m == 0, pos == n)), "something is delivered unless the stream ended");
  if (k < r) vp_assert(d[k] == b[pos + k], "the next bytes of the stream, in order, none lost or repeated");
  pos += r;
}
static void input_sequence(std::size_t cap, int steps) {
  std::size_t n = vp_u64("n"), pos = vp_u64("pos"), k = vp_u64("k");
  vp_assume(VP_SIZE(n)); vp_assume(pos <= n);
  vp_assume(VP_SIZE(cap));
  const std::byte* b = static_cast<const std::byte*>(vp_array(n, 1, "stream"));
  source s(cap, b, n, pos);
  step(s, b, n, pos, k);
  step(s, b, n, pos, k);
  vp_cover("end");
}
VP_HARNESS(C17_sequence_buffered) { std::size_t cap = vp_u64("cap"); vp_assume(cap > 0); input_sequence(cap, 2); }
VP_HARNESS(C17_sequence_unbuffered) { input_sequence(0, 2); }
// any history: from every consistent state a read delivers the next bytes and leaves a consistent state
VP_HARNESS(C17_any_history) {
  std::size_t cap = vp_u64("cap"), n = vp_u64("n"), pos = vp_u64("pos"), k = vp_u64("k"), s = vp_u64("s"), p = vp_u64("p"), j = vp_u64("j");
  bool dirty = vp_bool("dirty");
  vp_assume(VP_SIZE(n)); vp_assume(VP_SIZE(cap)); vp_assume(pos <= n); vp_assume(cap > 0);
  vp_assume(s <= cap); vp_assume(s <= pos); vp_assume(p <= s);
  const std::byte* b = static_cast<const std::byte*>(vp_array(n, 1, "stream"));
  source r(cap, b, n, pos);
  r.consistent_state(dirty, s, p);
  std::size_t q = r.consumed(), before = q;
  step(r, b, n, q, k);
  vp_cover("end");
  vp_assert(r.consumed() == q, "the stream position advances by the bytes delivered");
  r.check_invariant(j);
}

// ---------------------------------------------------------------- C18, C26
// Any sink that takes everything it is given.
struct sink : cmp::output_resource {
  std::byte* out; std::size_t room, pos;
  sink(std::size_t cap, std::byte* o, std::size_t room, std::size_t pos)
      : cmp::transfer_resource{cap}, cmp::output_resource{cap}, out{o}, room{room}, pos{pos} {}
  bool is_at_end() const noexcept override { return false; }
  std::size_t write_raw(const std::byte* data, std::size_t count) override {
    vp_assume(count <= room - pos);            // the harness made the sink large enough
    std::memcpy(out + pos, data, count);
    pos += count;
    return count;
  }
  void pending_state(bool dirty, const std::byte* pending, std::size_t p) {
    if (!dirty) return;
    std::memcpy(m_buffer.get_data_ptr(), pending, p);
    m_buffer.set_write_dirty(true);
    m_buffer.set_position(p);
  }
  std::size_t pending() { return m_buffer.is_write_dirty() ? m_buffer.get_position() : 0; }
  void check_invariant() {
    vp_assert(m_buffer.get_position() <= m_buffer.get_capacity(), "the pending bytes fit the buffer");
    if (!m_buffer.is_write_dirty()) vp_assert(m_buffer.get_position() == 0, "nothing pending means an empty buffer");
  }
  std::byte logical(std::size_t i) { return i < pos ? out[i] : m_buffer.get_data_ptr()[i - pos]; }
};
struct output_case {
  std::size_t cap, room, pos, p, total;
  const std::byte* pend; std::byte* out;
  bool dirty;
  output_case() {
    cap = vp_u64("cap"); room = vp_u64("room"); pos = vp_u64("pos"); p = vp_u64("p");
    dirty = vp_bool("dirty");
    vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(room)); vp_assume(pos <= room); vp_assume(p <= cap);
    vp_assume(vp_imp(!dirty, p == 0)); vp_assume(vp_imp(cap == 0, !dirty));
    pend = static_cast<const std::byte*>(vp_array(p, 1, "pending"));
    out = static_cast<std::byte*>(vp_array(room, 1, "sink"));
    total = pos + p;
  }
};
VP_HARNESS(C18_write) {
  output_case c;
  std::size_t m = vp_u64("m"), k = vp_u64("k"), j = vp_u64("j");
  vp_assume(VP_SIZE(m)); vp_assume(c.total <= c.room); vp_assume(m <= c.room - c.total);
  sink s(c.cap, c.out, c.room, c.pos);
  s.pending_state(c.dirty, c.pend, c.p);
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  vp_assume(k < m); vp_assume(j < c.total);
  std::byte before = s.logical(j);
  std::size_t r = s.write(d, m);
  vp_cover("end");
  vp_assert(r == m, "everything is taken");
  vp_assert(s.pos + s.pending() == c.total + m, "the output grows by exactly what was written");
  s.check_invariant();
  vp_assert(s.logical(c.total + k) == d[k], "the new bytes follow what was written before, in order");
  vp_assert(s.logical(j) == before, "what was written before stays");
}
VP_HARNESS(C18_write_nothing) {
  output_case c;
  vp_assume(c.total <= c.room);
  sink s(c.cap, c.out, c.room, c.pos);
  s.pending_state(c.dirty, c.pend, c.p);
  std::byte d{};
  vp_assert(s.write(&d, 0) == 0, "nothing is taken");
  vp_cover("end");
  vp_assert(s.pos + s.pending() == c.total, "nothing is added");
  s.check_invariant();
}
VP_HARNESS(C18_flush) {
  output_case c;
  std::size_t j = vp_u64("j");
  vp_assume(c.total <= c.room);
  sink s(c.cap, c.out, c.room, c.pos);
  s.pending_state(c.dirty, c.pend, c.p);
  vp_assume(j < c.total);
  std::byte before = s.logical(j);
  s.flush();
  vp_cover("end");
  vp_assert(s.pos == c.total, "flushing hands over everything pending");
  vp_assert(s.pending() == 0, "nothing stays pending");
  s.check_invariant();
  vp_assert(s.out[j] == before, "in order and unchanged");
  s.flush();
  vp_assert(s.pos == c.total, "a second flush repeats nothing");
}
VP_HARNESS(C18_sequence) {      // from construction, through the public functions only
  std::size_t cap = vp_u64("cap"), room = vp_u64("room"), m1 = vp_u64("m1"), m2 = vp_u64("m2"), k = vp_u64("k");
  vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(room)); vp_assume(m1 <= room); vp_assume(m2 <= room - m1);
  std::byte* out = static_cast<std::byte*>(vp_array(room, 1, "sink"));
  const std::byte* d1 = static_cast<const std::byte*>(vp_array(m1, 1, "d1"));
  const std::byte* d2 = static_cast<const std::byte*>(vp_array(m2, 1, "d2"));
  vp_assume(k < m1 + m2);
  sink s(cap, out, room, 0);
  vp_assert(s.write(d1, m1) == m1, "everything is taken");
  vp_assert(s.write(d2, m2) == m2, "everything is taken");
  s.flush();
  vp_cover("end");
  vp_assert(s.pos == m1 + m2, "after a flush everything written has arrived");
  if (k < m1) vp_assert(out[k] == d1[k], "the first bytes first");
  else vp_assert(out[k] == d2[k - m1], "then the following ones");
}
VP_HARNESS(C26_tied) {
  output_case c;
  std::size_t n = vp_u64("n"), in = vp_u64("in"), icap = vp_u64("icap"), m = vp_u64("m"), j = vp_u64("j"), s0 = vp_u64("s"), p0 = vp_u64("q");
  bool idirty = vp_bool("idirty");
  vp_assume(c.total <= c.room); vp_assume(VP_SIZE(n)); vp_assume(in <= n); vp_assume(VP_SIZE(icap)); vp_assume(VP_SIZE(m));
  vp_assume(s0 <= icap); vp_assume(s0 <= in); vp_assume(p0 <= s0); vp_assume(vp_imp(icap == 0, idirty));
  sink s(c.cap, c.out, c.room, c.pos);
  s.pending_state(c.dirty, c.pend, c.p);
  vp_assume(j < c.total);
  std::byte before = s.logical(j);
  const std::byte* b = static_cast<const std::byte*>(vp_array(n, 1, "stream"));
  source r(icap, b, n, in);
  r.consistent_state(idirty, s0, p0);
  r.tie(s);
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  r.read(d, m);
  vp_cover("end");
  vp_assert(s.pos == c.total, "everything written to the tied resource has arrived when the read returns");
  vp_assert(s.out[j] == before, "in order and unchanged");
}
