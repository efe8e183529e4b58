// C19 C21 C25 C27: files and standard streams over a ghost operating system
//
// The real code of cmp::file, stdin_resource and stdout_resource is compiled with the names of the five system calls it uses
// bound to the ghost system below (assumed contract of the operating system: a read delivers between one and the requested
// number of the next bytes, none only at the end; a write takes at least one byte; either may fail; lseek moves the offset),
// and std::filesystem::path/exists/file_size to their ghost counterparts.  Private state is reached with -fno-access-control.
#include "vp.hpp"
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <limits>
#include <filesystem>
#include <system_error>
#include <cstdio>
#include <iostream>
#include <functional>
#include <algorithm>
#include <bit>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>

struct vp_descriptor {
  std::byte* bytes; std::size_t size, room, pos;   // the file and the offset
  bool exists, live, readable, writable;
  std::size_t opened, closed;
};
static vp_descriptor vp_fd[5];                     // 0, 1: standard streams; 3, 4: two files
static bool vp_faults, vp_failed;                  // may a system call fail?  did one?

namespace std::vp_filesystem {
struct path {
  int id = 3;
  std::string string() const { return std::string(1, static_cast<char>('0' + id)); }
};
inline bool exists(const path& p, std::error_code&) { return vp_fd[p.id].exists; }
inline bool exists(const path& p) { return vp_fd[p.id].exists; }
inline std::uintmax_t file_size(const path& p) { return vp_fd[p.id].size; }
inline std::uintmax_t file_size(const path& p, std::error_code&) { return vp_fd[p.id].size; }
}
static bool vp_valid(int fd) { return fd >= 0 && fd < 5 && vp_fd[fd].live; }
extern "C++" {
ssize_t vp_read(int fd, void* buf, std::size_t n) {
  if (!vp_valid(fd) || !vp_fd[fd].readable) return -1;
  vp_descriptor& f = vp_fd[fd];
  if (vp_faults && vp_bool("fault")) { vp_failed = true; return -1; }
  std::size_t r = vp_u64("delivered"), left = f.pos < f.size ? f.size - f.pos : 0;
  vp_assume(r <= n); vp_assume(r <= left);
  vp_assume(vp_or(r > 0, vp_or(n == 0, left == 0)));
  if (r == 0) return 0;
  std::memcpy(buf, f.bytes + f.pos, r);
  f.pos += r;
  return static_cast<ssize_t>(r);
}
ssize_t vp_write(int fd, const void* buf, std::size_t n) {
  if (!vp_valid(fd) || !vp_fd[fd].writable) return -1;
  vp_descriptor& f = vp_fd[fd];
  if (vp_faults && vp_bool("fault")) { vp_failed = true; return -1; }
  std::size_t r = vp_u64("taken");
  vp_assume(r <= n); vp_assume(vp_or(r > 0, n == 0));
  vp_assume(f.pos <= f.size); vp_assume(r <= f.room - f.pos);      // the harness made the ghost file large enough
  std::memcpy(f.bytes + f.pos, buf, r);
  f.pos += r;
  f.size = f.size < f.pos ? f.pos : f.size;
  return static_cast<ssize_t>(r);
}
off_t vp_lseek(int fd, off_t by, int whence) {
  if (!vp_valid(fd)) return -1;
  vp_descriptor& f = vp_fd[fd];
  off_t to = by + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off_t>(f.pos) : static_cast<off_t>(f.size));
  if (to < 0) return -1;
  f.pos = static_cast<std::size_t>(to);
  return to;
}
int vp_open(const char* name, int flags, int = 0) {
  int id = name[0] - '0';
  vp_descriptor& f = vp_fd[id];
  if (!f.exists && !(flags & O_CREAT)) return -1;
  if (!f.exists) { f.exists = true; f.size = 0; }
  if (flags & O_TRUNC) f.size = 0;
  f.live = true;
  f.pos = flags & O_APPEND ? f.size : 0;
  f.readable = (flags & O_ACCMODE) != O_WRONLY;
  f.writable = (flags & O_ACCMODE) != O_RDONLY;
  ++f.opened;
  return id;
}
int vp_close(int fd) {
  if (!vp_valid(fd)) return -1;
  vp_fd[fd].live = false;
  ++vp_fd[fd].closed;
  return 0;
}
}
#define filesystem vp_filesystem
#define read vp_read
#define write vp_write
#define lseek vp_lseek
#define open vp_open
#define close vp_close
#include <cmp/io/file.hpp>
#ifndef VP_FILES_ONLY
#include <cmp/io/uio.hpp>
#endif
using cmp::access_mode; using cmp::if_not_there; using cmp::position_reference;
using i64 = std::int64_t;
using std::vp_filesystem::path;

static void ghost_file(int id, std::size_t size, std::size_t room, const char* name) {
  if (id != 4) { for (vp_descriptor& d : vp_fd) d = {}; vp_faults = vp_failed = false; }
  vp_fd[id].bytes = static_cast<std::byte*>(vp_array(room, 1, name));
  vp_fd[id].size = size; vp_fd[id].room = room; vp_fd[id].exists = true; vp_fd[id].pos = 0;
}
// every consistent state of a file that is being read: pos is the offset of the descriptor, s bytes from there are buffered, p of them consumed
static void reading_state(cmp::file& f, std::size_t pos, bool dirty, std::size_t s, std::size_t p) {
  vp_fd[3].pos = pos;
  if (dirty) return;
  if (s > 0) std::memcpy(f.m_buffer.get_data_ptr(), vp_fd[3].bytes + pos, s);
  f.m_buffer.set_read_dirty(false);
  f.m_buffer.set_size(s);
  f.m_buffer.set_position(p);
  f.m_last_fill_amount = s;
}
static void check_reading(cmp::file& f, std::size_t j) {
  vp_assert(!f.m_buffer.is_write_dirty(), "nothing waits to be written");
  if (f.m_buffer.is_read_dirty()) {
    vp_assert(f.m_buffer.get_position() == 0, "nothing is taken from a buffer without data");
    vp_assert(f.m_last_fill_amount == 0, "nothing is buffered");
    return;
  }
  std::size_t s = f.m_buffer.get_size(), p = f.m_buffer.get_position(), pos = vp_fd[3].pos;
  vp_assert(s <= f.m_buffer.get_capacity(), "the buffered bytes fit the buffer");
  vp_assert(p <= s, "the buffer position is inside the buffered bytes");
  vp_assert(f.m_last_fill_amount == s, "the offset lags by what is buffered");
  if (j < s) {
    vp_assert(pos + s <= vp_fd[3].size, "only content is buffered");
    vp_assert(f.m_buffer.get_data_ptr()[j] == vp_fd[3].bytes[pos + j], "the buffer holds the content at the offset");
  }
}
struct reading_case {
  std::size_t size, cap, pos, s, p;
  bool dirty;
  reading_case() {
    size = vp_u64("size"); cap = vp_u64("cap"); pos = vp_u64("pos"); s = vp_u64("s"); p = vp_u64("p"); dirty = vp_bool("dirty");
    vp_assume(VP_SIZE(size)); vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(pos));
    vp_assume(vp_imp(cap == 0, dirty)); vp_assume(s <= cap); vp_assume(p <= s); vp_assume(vp_imp(dirty, s == 0));
    vp_assume(vp_or(s == 0, vp_and(pos <= size, s <= size - pos)));
    ghost_file(3, size, size, "content");
  }
};
static void reading(bool faults, access_mode mode, bool dirty) {
  reading_case c;
  vp_assume(c.dirty == dirty);
  std::size_t m = vp_u64("m"), k = vp_u64("k"), j = vp_u64("j");
  vp_assume(VP_SIZE(m));
  cmp::file f(path{3}, mode, if_not_there::fail, c.cap);
  vp_assert(f.is_open(), "an existing file is opened");
  vp_assert(f.get_position() == 0, "at its start");
  reading_state(f, c.pos, c.dirty, c.s, c.p);
  std::size_t at = c.pos + c.p, left = at < c.size ? c.size - at : 0;
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  vp_faults = faults;
  std::size_t got = f.read(d, m);
  vp_faults = false;
  vp_cover("end");
  vp_assert(got <= m, "no more bytes than requested");
  vp_assert(got <= left, "no bytes past the end");
  if (!vp_failed) vp_assert(got == (m < left ? m : left), "all bytes requested, or all that are left");
  if (k < got) vp_assert(d[k] == vp_fd[3].bytes[at + k], "the content from the position on");
  vp_assert(f.get_position() == static_cast<i64>(at + got), "the position advances by the bytes read");
  if (at <= c.size) vp_assert(f.is_at_end() == (at + got == c.size), "at the end exactly when everything is read");
  check_reading(f, j);
}
VP_HARNESS(C21_file_read_fresh) { reading(false, access_mode::read_only, true); }
VP_HARNESS(C21_file_read_buffered) { reading(false, access_mode::read_and_write, false); }
VP_HARNESS(C21_file_read_fresh_faults) { reading(true, access_mode::read_only, true); }
VP_HARNESS(C21_file_read_buffered_faults) { reading(true, access_mode::read_only, false); }

// every consistent state of a file that is being written: pos is the offset of the descriptor, the pending bytes belong there
struct writing_case {
  std::size_t size, room, cap, pos, p;
  const std::byte *before, *pend;
  bool dirty;
  writing_case() {
    size = vp_u64("size"); room = vp_u64("room"); cap = vp_u64("cap"); pos = vp_u64("pos"); p = vp_u64("p"); dirty = vp_bool("dirty");
    vp_assume(VP_SIZE(room)); vp_assume(size <= room); vp_assume(VP_SIZE(cap)); vp_assume(pos <= size); vp_assume(p <= cap); vp_assume(p <= room - pos);
    vp_assume(vp_imp(!dirty, p == 0)); vp_assume(vp_imp(cap == 0, !dirty));
    ghost_file(3, size, room, "content");
    before = static_cast<const std::byte*>(vp_array(size, 1, "before"));
    std::memcpy(vp_fd[3].bytes, before, size);
    pend = static_cast<const std::byte*>(vp_array(p, 1, "pending"));
  }
  void state(cmp::file& f) {
    vp_fd[3].pos = pos;
    if (!dirty) return;
    std::memcpy(f.m_buffer.get_data_ptr(), pend, p);
    f.m_buffer.set_write_dirty(true);
    f.m_buffer.set_position(p);
  }
  void arrived(std::size_t at, const std::byte* d, std::size_t m, std::size_t k) {
    std::size_t end = at + m, all = end < size ? size : end;
    if (pos + p > all) all = pos + p;
    vp_assert(vp_fd[3].size == all, "the file grows by exactly what is written");
    if (k < all) {
      std::byte want = k < size ? before[k] : std::byte{0};
      if (k >= pos && k - pos < p) want = pend[k - pos];
      if (k >= at && k - at < m) want = d[k - at];
      vp_assert(vp_fd[3].bytes[k] == want, "what is written at its place, in order, the rest unchanged");
    }
  }
};
static void writing(access_mode mode) {
  writing_case c;
  std::size_t m = vp_u64("m"), k = vp_u64("k");
  vp_assume(VP_SIZE(m)); vp_assume(m <= c.room - (c.pos + c.p));
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  cmp::file f(path{3}, mode, if_not_there::fail, c.cap);
  c.state(f);
  vp_assert(f.get_position() == static_cast<i64>(c.pos + c.p), "the position counts what is pending");
  vp_assert(f.write(d, m) == m, "everything is taken");
  vp_assert(f.get_position() == static_cast<i64>(c.pos + c.p + m), "the position advances by the bytes written");
  f.flush();
  vp_cover("end");
  vp_assert(f.get_position() == static_cast<i64>(c.pos + c.p + m), "flushing keeps the position");
  c.arrived(c.pos + c.p, d, m, k);
  vp_assert(!f.m_buffer.is_write_dirty(), "nothing stays pending");
}
VP_HARNESS(C21_file_write) { writing(access_mode::write_only); }
VP_HARNESS(C21_file_write_rw) { writing(access_mode::read_and_write); }

// ---------------------------------------------------------------- C25
VP_HARNESS(C25_no_reading) {
  reading_case c;
  std::size_t m = vp_u64("m"), k = vp_u64("k");
  vp_assume(VP_SIZE(m)); vp_assume(k < m);
  cmp::file f(path{3}, access_mode::write_only, if_not_there::fail, c.cap);
  reading_state(f, c.pos, true, 0, 0);
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::byte old = d[k];
  try { f.read(d, m); vp_fail("a file opened for writing cannot be read"); } catch (const cmp::invalid_access_mode&) { vp_cover("rejected"); }
  vp_assert(d[k] == old, "nothing is transferred");
  vp_assert(vp_fd[3].pos == c.pos, "the position stays");
}
VP_HARNESS(C25_no_writing) {
  reading_case c;
  std::size_t m = vp_u64("m"), k = vp_u64("k"), j = vp_u64("j");
  vp_assume(VP_SIZE(m)); vp_assume(k < c.size);
  cmp::file f(path{3}, access_mode::read_only, if_not_there::fail, c.cap);
  reading_state(f, c.pos, c.dirty, c.s, c.p);
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  std::byte old = vp_fd[3].bytes[k];
  try { f.write(d, m); vp_fail("a file opened for reading cannot be written"); } catch (const cmp::invalid_access_mode&) { vp_cover("rejected"); }
  vp_assert(f.get_position() == static_cast<i64>(c.pos + c.p), "the position stays");
  check_reading(f, j);
  f.flush();
  vp_assert(vp_fd[3].bytes[k] == old, "nothing is transferred");
  vp_assert(vp_fd[3].size == c.size, "the file keeps its size");
}
VP_HARNESS(C25_rights) {
  std::size_t size = vp_u64("size"), cap = vp_u64("cap"), k = vp_u64("k");
  vp_assume(VP_SIZE(size)); vp_assume(VP_SIZE(cap)); vp_assume(k < size);
  bool there = vp_bool("there"), create = vp_bool("create");
  std::uint64_t mode = vp_u64("mode");
  vp_assume(mode <= 2);
  mode = vp_split(mode, 0, 2);
  const access_mode modes[] = {access_mode::read_only, access_mode::write_only, access_mode::read_and_write};
  ghost_file(3, size, size, "content");
  vp_fd[3].exists = there;
  std::byte old = vp_fd[3].bytes[k];
  cmp::file f(path{3}, modes[mode], create ? if_not_there::create : if_not_there::fail, cap);
  vp_cover("end");
  vp_assert(f.is_open() == (there || create), "a missing file is opened only when it may be created");
  vp_assert(vp_fd[3].live == f.is_open(), "open means that there is a descriptor");
  vp_assert(vp_fd[3].exists == (there || create), "nothing is created unless asked");
  if (f.is_open()) {
    vp_assert(vp_fd[3].readable == (mode != 1), "reading is allowed exactly by the modes that read");
    vp_assert(vp_fd[3].writable == (mode != 0), "writing is allowed exactly by the modes that write");
    vp_assert(f.get_access_mode() == modes[mode], "the mode is reported");
  }
  if (there) vp_assert(vp_fd[3].size == size && vp_fd[3].bytes[k] == old, "opening a file leaves its content");
}

// ---------------------------------------------------------------- C27
static void closing(int how) {
  writing_case c;
  std::size_t k = vp_u64("k");
  {
    cmp::file f(path{3}, access_mode::write_only, if_not_there::fail, c.cap);
    c.state(f);
    if (how == 1) {
      f.close();
      vp_assert(!f.is_open(), "closed");
      vp_assert(!vp_fd[3].live, "closing releases the descriptor");
      c.arrived(c.pos, nullptr, 0, k);
    }
  }
  vp_cover("end");
  vp_assert(!vp_fd[3].live, "the descriptor is released");
  vp_assert(vp_fd[3].closed == 1, "once");
  c.arrived(c.pos, nullptr, 0, k);
}
VP_HARNESS(C27_close) { closing(1); }
VP_HARNESS(C27_destruction) { closing(2); }
static void reopening(bool same) {
  reading_case c;
  std::size_t size2 = vp_u64("size2"), m = vp_u64("m"), k = vp_u64("k");
  vp_assume(VP_SIZE(size2)); vp_assume(VP_SIZE(m));
  ghost_file(4, size2, size2, "other");
  cmp::file f(path{3}, access_mode::read_only, if_not_there::fail, c.cap);
  reading_state(f, c.pos, c.dirty, c.s, c.p);
  int id = same ? 3 : 4;
  std::size_t size = same ? c.size : size2;
  vp_assert(f.open(path{id}, access_mode::read_and_write, if_not_there::fail), "the other file is opened");
  vp_assert(f.is_open() && vp_fd[id].live && vp_fd[id].opened == (same ? 2 : 1), "opened once");
  vp_assert(vp_fd[3].closed == 1, "the former file is closed once");
  vp_assert(f.get_access_mode() == access_mode::read_and_write, "in its mode");
  vp_assert(f.get_position() == 0, "at its start");
  vp_assert(f.is_at_end() == (size == 0), "at the end exactly when it is empty");
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::size_t got = f.read(d, m);
  vp_cover("end");
  vp_assert(got == (m < size ? m : size), "all bytes requested, or all there are");
  if (k < got) vp_assert(d[k] == vp_fd[id].bytes[k], "of the file opened last");
}
VP_HARNESS(C27_reopen_other) { reopening(false); }
VP_HARNESS(C27_reopen_same) { reopening(true); }
VP_HARNESS(C27_reopen_flushes) {
  writing_case c;
  std::size_t k = vp_u64("k"), size2 = vp_u64("size2"), j = vp_u64("j");
  vp_assume(VP_SIZE(size2)); vp_assume(j < size2);
  ghost_file(4, size2, size2, "other");
  bool there = vp_bool("there");
  vp_fd[4].exists = there;
  std::byte old = vp_fd[4].bytes[j];
  {
    cmp::file f(path{3}, access_mode::write_only, if_not_there::fail, c.cap);
    c.state(f);
    vp_assert(f.open(path{4}, access_mode::write_only, if_not_there::fail) == there, "opened exactly when it exists");
    vp_assert(f.is_open() == there, "open exactly when it exists");
    vp_assert(!vp_fd[3].live && vp_fd[3].closed == 1, "the former file is closed once");
    c.arrived(c.pos, nullptr, 0, k);
  }
  vp_cover("end");
  vp_assert(!vp_fd[4].live, "destruction closes the file opened last");
  vp_assert(vp_fd[4].bytes[j] == old && vp_fd[4].size == size2, "nothing pending leaks into it");
}

// ---------------------------------------------------------------- C19
static void seeking(std::uint64_t ref, bool read) {
  reading_case c;
  std::size_t m = vp_u64("m"), k = vp_u64("k"), j = vp_u64("j");
  i64 to = static_cast<i64>(vp_u64("to"));
  vp_assume(VP_SIZE(m)); vp_assume(vp_or(VP_SIZE(static_cast<std::size_t>(to)), VP_SIZE(0 - static_cast<std::size_t>(to))));
  cmp::file f(path{3}, access_mode::read_only, if_not_there::fail, c.cap);
  reading_state(f, c.pos, c.dirty, c.s, c.p);
  i64 here = static_cast<i64>(c.pos + c.p), want;
  switch (ref) {
    case 0: want = to < 0 ? 0 : to; f.set_position(to, position_reference::begin); break;
    case 1: want = here + to; vp_assume(want >= 0); f.set_position(to, position_reference::current); break;
    case 2: want = static_cast<i64>(c.size) + to; vp_assume(want >= 0); f.set_position(to, position_reference::end); break;
    case 3: want = here - to; vp_assume(want >= 0); f.go_back(to); break;
    default: want = here + to; vp_assume(want >= 0); f.go_forward(to); break;
  }
  vp_cover("seek");
  vp_assert(f.get_position() == want, "the new position");
  check_reading(f, j);
  if (!read) return;
  std::size_t pos = static_cast<std::size_t>(want), left = pos < c.size ? c.size - pos : 0;
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  std::size_t got = f.read(d, m);
  vp_assert(got == (m < left ? m : left), "all bytes requested, or all that are left");
  if (k < got) vp_assert(d[k] == vp_fd[3].bytes[pos + k], "the content from the new position on");
}
VP_HARNESS(C19_file_begin) { seeking(0, false); }    // C21: from every consistent state the content at the position is read or written
VP_HARNESS(C19_file_current) { seeking(1, false); }
VP_HARNESS(C19_file_end) { seeking(2, false); }
VP_HARNESS(C19_file_back) { seeking(3, false); }
VP_HARNESS(C19_file_forward) { seeking(4, false); }
VP_HARNESS(C19_file_write) {
  writing_case c;
  std::size_t k = vp_u64("k");
  i64 to = static_cast<i64>(vp_u64("to"));
  cmp::file f(path{3}, access_mode::read_and_write, if_not_there::fail, c.cap);
  c.state(f);
  std::uint64_t ref = vp_u64("ref");
  vp_assume(ref <= 2);
  ref = vp_split(ref, 0, 2);
  std::size_t after = c.pos + c.p > c.size ? c.pos + c.p : c.size;
  vp_assume(vp_or(VP_SIZE(static_cast<std::size_t>(to)), VP_SIZE(0 - static_cast<std::size_t>(to))));
  i64 want = (ref == 0 ? 0 : ref == 1 ? static_cast<i64>(c.pos + c.p) : static_cast<i64>(after)) + to;
  vp_assume(vp_and(want >= 0, want <= static_cast<i64>(after)));
  std::size_t at = static_cast<std::size_t>(want);
  f.set_position(to, ref == 0 ? position_reference::begin : ref == 1 ? position_reference::current : position_reference::end);
  vp_cover("end");
  vp_assert(f.get_position() == want, "the new position");
  vp_assert(vp_fd[3].pos == at, "nothing stays pending");
  vp_assert(!f.m_buffer.is_write_dirty() && f.m_buffer.is_read_dirty() && f.m_last_fill_amount == 0, "the state of a file without buffered bytes");
  c.arrived(c.pos, nullptr, 0, k);
}

// ---------------------------------------------------------------- standard streams
#ifndef VP_FILES_ONLY
static void standard_input(bool faults) {
  std::size_t size = vp_u64("size"), cap = vp_u64("cap"), m = vp_u64("m"), k = vp_u64("k");
  vp_assume(VP_SIZE(size)); vp_assume(VP_SIZE(cap)); vp_assume(VP_SIZE(m));
  ghost_file(0, size, size, "content");
  vp_fd[0].live = vp_fd[0].readable = true;
  cmp::stdin_resource in(cap);
  cmp::stdout_resource out(1, 0);
  in.tie(out);
  std::byte* d = static_cast<std::byte*>(vp_array(m, 1, "d"));
  vp_faults = faults;
  std::size_t got = in.read(d, m);
  vp_cover("end");
  vp_assert(got <= m && got <= size, "no more bytes than requested or there");
  if (!vp_failed) vp_assert(vp_or(got > 0, vp_or(m == 0, size == 0)), "something is delivered unless the input ended");
  if (k < got) vp_assert(d[k] == vp_fd[0].bytes[k], "the bytes of the standard input, in order");
}
VP_HARNESS(C21_stdin) { standard_input(false); }
VP_HARNESS(C21_stdin_faults) { standard_input(true); }
VP_HARNESS(C21_stdout) {
  std::size_t room = vp_u64("room"), size = vp_u64("size"), cap = vp_u64("cap"), m = vp_u64("m"), k = vp_u64("k");
  vp_assume(VP_SIZE(room)); vp_assume(size <= room); vp_assume(VP_SIZE(cap)); vp_assume(m <= room - size); vp_assume(k < m);
  ghost_file(1, size, room, "content");
  vp_fd[1].live = vp_fd[1].writable = true;
  vp_fd[1].pos = size;
  const std::byte* d = static_cast<const std::byte*>(vp_array(m, 1, "d"));
  cmp::stdout_resource out(1, cap);
  vp_assert(out.write(d, m) == m, "everything is taken");
  out.flush();
  vp_cover("end");
  vp_assert(vp_fd[1].size == size + m, "the output grows by exactly what is written");
  vp_assert(vp_fd[1].bytes[size + k] == d[k], "in order");
}
#endif
