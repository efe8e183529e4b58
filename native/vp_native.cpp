// Native runtime of the contract vocabulary: runs the same contract text against the real
// code, compiled with the sanitizers.
//   prog list
//   prog replay FILE           one case written by the verifier (or by fuzz)
//   prog fuzz HARNESS SEED SECONDS OUT   search for a failing input; OUT gets the case
#include "vp.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=512:"
         "detect_stack_use_after_return=0:abort_on_error=0:exitcode=42";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=42"; }

namespace vp_native {
struct entry { const char* name; void (*fn)(); };
std::vector<entry>& entries() { static std::vector<entry> e; return e; }
registration::registration(const char* n, void (*f)()) { entries().push_back({n, f}); }
std::map<std::string, ghost_fn>& ghosts() { static std::map<std::string, ghost_fn> g; return g; }
ghost_registration::ghost_registration(const char* n, ghost_fn f) { ghosts()[n] = f; }

std::jmp_buf env;
std::mt19937_64 rng;
bool replaying = false;
const char* current = "";
std::string out_path;
std::map<std::string, int> counters;
std::map<std::string, std::uint64_t> rep_nd;
std::map<std::string, std::vector<std::uint64_t>> rep_arr;
std::string log_text;            // the case so far
std::vector<void*> blocks;
std::set<std::string> covered;
unsigned long evaluations, discards;
bool nontrivial;
int profile;
volatile bool in_case = false;
std::size_t max_size = 64;

[[noreturn]] void finish(int rc) { std::fflush(stdout); _exit(rc); }

void dump(const char* what) {
  std::printf("VPFAIL harness=%s %s\n", current, what);
  std::string t = std::string("harness ") + current + "\nfailure " + what + "\n" + log_text;
  std::fwrite(t.data(), 1, t.size(), stdout);
  if (!out_path.empty()) {
    if (FILE* f = std::fopen(out_path.c_str(), "w")) { std::fwrite(t.data(), 1, t.size(), f); std::fclose(f); }
  }
  std::fflush(stdout);
}
[[noreturn]] void failed(const char* what) { dump(what); in_case = false; finish(42); }
void death() {
  if (in_case) { in_case = false; dump("the sanitizers report undefined behaviour, or the process is terminated"); }
}
void on_alarm(int) {
  if (in_case) { in_case = false; dump("the code does not terminate in time"); }
  finish(42);
}
[[noreturn]] void discard() { std::longjmp(env, 1); }

std::uint64_t r64() { return rng(); }
std::uint64_t below(std::uint64_t n) { return n ? rng() % n : 0; }

const std::uint64_t special[] = {
  0x00, 0x01, 0x09, 0x0a, 0x0d, 0x1f, 0x20, '+', '-', '.', ',', '0', '1', '7', '8', '9', 'A', 'F', 'G', 'Z', 'a', 'f', 'g', 'z', 0x7f, 0x80, 0x85, 0xa0, 0xbf, 0xc0,
  0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf7, 0xf8, 0xff, 0x100, 0x130, 0x7ff, 0x800, 0xfff, 0x1000, 0x1680, 0x2000,
  0x200a, 0x2028, 0x202f, 0x205f, 0x3000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffe,
  0xffff, 0x10000, 0x103ff, 0x10400, 0x1d800, 0x1dfff, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x7fffffff,
  0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff};

std::uint64_t gen_scalar(const std::string& name, int w) {
  std::uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
  char c = name[0];
  if (w == 1) return below(2);
  bool size_like = w == 64 && (c == 'n' || c == 'i' || c == 'j' || c == 'k' || c == 'p' || c == 'm');
  std::uint64_t d = below(100);
  if (size_like) {
    if (d < 60) return below(7);
    if (d < 92) return below(24);
    if (d < 98) return below(max_size);
    if (d < 99) return m - below(4);
    return r64() & m;
  }
  if (d < 10) return below(4);
  if (d < 30) return (special[below(sizeof special / sizeof *special)] + (below(3) == 0 ? below(5) - 2 : 0)) & m;
  if (d < 45) return (0x20 + below(0x60)) & m;
  if (d < 60) return below(0x110800) & m;
  if (d < 85) return (r64() >> below(64)) & m;
  if (d < 92) return ((1ull << below(w)) - below(2)) & m;
  return r64() & m;
}

std::size_t units(std::uint64_t c, std::size_t ew, std::uint64_t* b) {
  if (ew == 1) {
    if (c < 0x80) { b[0] = c; return 1; }
    if (c < 0x800) { b[0] = 0xc0 | c >> 6; b[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { b[0] = 0xe0 | c >> 12; b[1] = 0x80 | (c >> 6 & 63); b[2] = 0x80 | (c & 63); return 3; }
    b[0] = 0xf0 | c >> 18; b[1] = 0x80 | (c >> 12 & 63); b[2] = 0x80 | (c >> 6 & 63); b[3] = 0x80 | (c & 63); return 4;
  }
  if (ew == 2 && c >= 0x10000) { b[0] = 0xd800 + ((c - 0x10000) >> 10); b[1] = 0xdc00 + ((c - 0x10000) & 1023); return 2; }
  b[0] = c; return 1;
}
std::vector<std::uint64_t> shared;    // profile 5: all arrays of the case are encodings of this text
bool shared_back;
void make_shared() {
  shared.clear();
  shared_back = below(2);
  int fl = below(3);
  std::size_t k = 1 + below(4);
  std::uint64_t al[4];
  for (auto& c : al) {
    c = fl == 0 ? 0x20 + below(0x5f) : below(3) == 0 ? 0x20 + below(0x5f) : special[below(sizeof special / sizeof *special)];
    if (c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) c = below(2) ? 0x1f600 + below(4) : 0xe0 + below(32);
  }
  for (std::size_t i = 0; i < 80; ++i) shared.push_back(al[below(k)]);
}
void gen_array(std::vector<std::uint64_t>& v, std::size_t n, std::size_t ew) {
  if (profile == 5 && ew <= 4) {
    v.assign(n, 'x');
    std::size_t i = 0;
    std::uint64_t b[4];
    for (auto c : shared) {
      std::size_t l = units(c, ew, b);
      if (i + l > n) break;
      for (std::size_t q = 0; q < l; ++q) (shared_back ? v[n - i - l + q] : v[i + q]) = b[q];
      i += l;
    }
    return;
  }
  std::uint64_t m = ew >= 8 ? ~0ull : (1ull << (8 * ew)) - 1;
  v.assign(n, 0);
  int p = profile;
  if (p == 0) {                       // text, well formed, then possibly corrupted
    std::size_t i = 0;
    bool nz = below(4) != 0;
    int flavour = below(4);
    while (i < n) {
      std::uint64_t c;
      switch (flavour == 3 ? below(4) : flavour) {
        case 0: c = 0x20 + below(0x5f); break;
        case 1: c = below(0x800); break;
        default: c = below(3) ? below(0x110000) : special[below(sizeof special / sizeof *special)]; break;
      }
      if (nz && c == 0) c = 1;
      if (c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) c = 0x10ffff - below(0x100);
      if (ew == 1) {
        unsigned char b[4]; std::size_t l;
        if (c < 0x80) { b[0] = c; l = 1; }
        else if (c < 0x800) { b[0] = 0xc0 | c >> 6; b[1] = 0x80 | (c & 63); l = 2; }
        else if (c < 0x10000) { b[0] = 0xe0 | c >> 12; b[1] = 0x80 | (c >> 6 & 63); b[2] = 0x80 | (c & 63); l = 3; }
        else { b[0] = 0xf0 | c >> 18; b[1] = 0x80 | (c >> 12 & 63); b[2] = 0x80 | (c >> 6 & 63); b[3] = 0x80 | (c & 63); l = 4; }
        if (i + l > n && below(4)) { v[i++] = 'x'; continue; }
        for (std::size_t q = 0; q < l && i < n; ++q) v[i++] = b[q];
      } else if (ew == 2) {
        if (c < 0x10000) v[i++] = c;
        else if (i + 2 <= n) { v[i++] = 0xd800 + ((c - 0x10000) >> 10); v[i++] = 0xdc00 + ((c - 0x10000) & 1023); }
        else v[i++] = 'x';
      } else v[i++] = c & m;
    }
    if (n && below(3) == 0) v[below(n)] = gen_scalar("x", 8 * ew);
  } else if (p == 1) {                // numbers and words
    static const char al[] = "0123456789abcfz+-., \n\rtrue";
    int lim = below(2) ? 10 : (int)sizeof al - 1;
    for (auto& x : v) x = al[below(lim)];
    if (n && below(2)) v[0] = "-+01"[below(4)];
    if (n && below(2)) v[n - 1] = 0;
  } else if (p == 2) {
    for (auto& x : v) x = gen_scalar("x", 8 * ew);
  } else if (p == 3) {
    for (auto& x : v) x = r64() & m;
  } else {                            // few symbols: collisions, separators
    std::uint64_t a[4];
    for (auto& x : a) x = gen_scalar("x", 8 * ew);
    if (below(2)) a[0] = 10;
    if (below(2)) a[1] = 13;
    for (auto& x : v) x = a[below(4)];
  }
}

std::string full_name(const char* name) {
  std::string s = name;
  int k = counters[s]++;
  return s + "#" + std::to_string(k);
}

std::uint64_t scalar(const char* name, int w) {
  std::string f = full_name(name);
  std::uint64_t v;
  if (replaying) v = rep_nd.count(f) ? rep_nd[f] : 0;
  else v = gen_scalar(name, w);
  char b[64];
  std::snprintf(b, sizeof b, " %d %llu\n", w, (unsigned long long)v);
  log_text += "nd " + f + b;
  return v;
}
void contents(const std::string& f, std::size_t n, std::size_t ew, unsigned char* p) {
  std::vector<std::uint64_t> v;
  if (replaying) { if (rep_arr.count(f)) v = rep_arr[f]; v.resize(n); }
  else gen_array(v, n, ew);
  log_text += "arr " + f + " " + std::to_string(ew) + " " + std::to_string(n);
  for (std::size_t i = 0; i < n; ++i) {
    std::memcpy(p + i * ew, &v[i], ew);
    log_text += " " + std::to_string(v[i]);
  }
  log_text += "\n";
}

int run_one(void (*fn)()) {           // 0 ran, 1 discarded
  counters.clear();
  log_text.clear();
  profile = below(6);
  if (profile == 5) make_shared();
  static bool broken;
  broken = false;
  if (setjmp(env) == 0) {
    in_case = true;
    alarm(10);
    try {
      fn();
    } catch (const std::exception& e) {
      in_case = false;
      failed((std::string("unexpected exception ") + typeid(e).name()).c_str());
    } catch (...) {
      in_case = false;
      failed("unexpected exception");
    }
    in_case = false;
    alarm(0);
  } else {
    in_case = false;
    alarm(0);
    broken = true;
  }
  for (void* p : blocks) std::free(p);
  blocks.clear();
  return broken;
}
}  // namespace vp_native

using namespace vp_native;
extern "C" {
std::uint8_t vp_u8(const char* n) { return scalar(n, 8); }
std::uint16_t vp_u16(const char* n) { return scalar(n, 16); }
std::uint32_t vp_u32(const char* n) { return scalar(n, 32); }
std::uint64_t vp_u64(const char* n) { return scalar(n, 64); }
bool vp_bool(const char* n) { return scalar(n, 1) & 1; }
void* vp_array(std::size_t n, std::size_t ew, const char* name) {
  std::string f = full_name(name);
  if (n > (1u << 20)) discard();
  unsigned char* base = static_cast<unsigned char*>(std::malloc(n ? n * ew : 16));
  blocks.push_back(base);
  unsigned char* p = n ? base : base + 16;
  contents(f, n, ew, p);
  return p;
}
void vp_havoc(void* p, std::size_t nb, std::size_t ew, const char* name) {
  contents(full_name(name), nb / ew, ew, static_cast<unsigned char*>(p));
}
void vp_assume(bool c) { if (!c) discard(); }
void vp_assert(bool c, const char* what) { if (!c) { in_case = false; failed(what); } }
void vp_fail(const char* what) { in_case = false; failed(what); }
void vp_cover(const char* what) { covered.insert(what); nontrivial = true; }
std::uint64_t vp_split(std::uint64_t v, std::uint64_t, std::uint64_t) { return v; }
static std::uint64_t ghost(const char* n, std::uint64_t a, std::uint64_t b, std::uint64_t c) {
  auto it = ghosts().find(n);
  if (it == ghosts().end()) { std::printf("VPERROR no ghost %s\n", n); finish(3); }
  return it->second(a, b, c);
}
std::uint64_t vp_uf1(const char* n, std::uint64_t a) { return ghost(n, a, 0, 0); }
std::uint64_t vp_uf2(const char* n, std::uint64_t a, std::uint64_t b) { return ghost(n, a, b, 0); }
std::uint64_t vp_uf3(const char* n, std::uint64_t a, std::uint64_t b, std::uint64_t c) { return ghost(n, a, b, c); }
void vp_terminated(const void*, std::size_t) {}
void vp_skolem(std::uint64_t) {}
bool vp_same_object(const void*, const void*) { return true; }
struct text_t { std::vector<std::uint32_t> cp; std::vector<std::size_t> pos; };
static std::map<unsigned, text_t> texts;
std::size_t vp_text(const void* p, std::size_t n, unsigned kind, unsigned id) {
  text_t t;
  auto unit = [&](std::size_t i) -> std::uint32_t {
    if (kind == 2) { std::uint16_t v; std::memcpy(&v, static_cast<const char*>(p) + 2 * i, 2); return v; }
    if (kind == 4) { std::uint32_t v; std::memcpy(&v, static_cast<const char*>(p) + 4 * i, 4); return v; }
    return static_cast<const unsigned char*>(p)[i];
  };
  std::size_t i = 0;
  while (i < n) {
    std::uint32_t c = unit(i);
    std::size_t l = 1;
    if (kind == 0) { if (c >= 128) discard(); }
    else if (kind == 1) {
      l = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
      if (!l || n - i < l) discard();
      if (l > 1) c &= (1u << (7 - l)) - 1;
      for (std::size_t q = 1; q < l; ++q) { auto u = unit(i + q); if ((u & 0xC0) != 0x80) discard(); c = c << 6 | (u & 63); }
      if ((l == 2 && c < 0x80) || (l == 3 && c < 0x800) || (l == 4 && c < 0x10000)) discard();
    } else if (kind == 2) {
      if (c >= 0xDC00 && c <= 0xDFFF) discard();
      if (c >= 0xD800 && c <= 0xDBFF) {
        if (n - i < 2) discard();
        auto u = unit(i + 1);
        if (u < 0xDC00 || u > 0xDFFF) discard();
        c = ((c - 0xD800) << 10) + (u - 0xDC00) + 0x10000; l = 2;
      }
    }
    if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) discard();
    t.cp.push_back(c); t.pos.push_back(i); i += l;
  }
  t.pos.push_back(n);
  texts[id] = t;
  return t.cp.size();
}
std::size_t vp_pos(unsigned id, std::size_t x) { auto& t = texts[id]; if (x >= t.pos.size()) discard(); return t.pos[x]; }
void vp_mark(unsigned, std::size_t) {}
void vp_agree(unsigned a, unsigned b, std::size_t off) {
  auto& A = texts[a].cp; auto& B = texts[b].cp;
  if (off > A.size() || B.size() > A.size() - off) discard();
  for (std::size_t i = 0; i < B.size(); ++i) if (A[off + i] != B[i]) discard();
}
std::size_t vp_opos(unsigned id, unsigned kind, std::size_t x) {
  auto& t = texts[id];
  if (x > t.cp.size()) discard();
  std::size_t r = 0;
  for (std::size_t i = 0; i < x; ++i) {
    auto c = t.cp[i];
    r += kind == 2 ? (c >= 0x10000 ? 2 : 1) : kind == 1 ? (c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4) : 1;
  }
  return r;
}
std::uint32_t vp_cp(unsigned id, std::size_t x) { auto& t = texts[id]; if (x >= t.cp.size()) discard(); return t.cp[x]; }
struct digits_t { std::vector<std::uint32_t> c; std::vector<std::size_t> pos; };
static std::map<unsigned, digits_t> numbers;
std::size_t vp_digits(std::uint64_t v, unsigned r, std::uint64_t sep, unsigned, unsigned id) {
  digits_t d;
  if (r < 2) discard();
  std::size_t at = 0;
  for (std::size_t x = 0; v; v /= r, ++x) {
    if (x && x % 3 == 0 && sep) ++at;
    auto q = static_cast<std::uint32_t>(v % r);
    d.c.push_back(q < 10 ? '0' + q : 'A' + q - 10);
    d.pos.push_back(at++);
  }
  d.pos.push_back(at);
  numbers[id] = d;
  return d.c.size();
}
std::uint32_t vp_digit_char(unsigned id, std::size_t x) { auto& d = numbers[id]; if (x >= d.c.size()) discard(); return d.c[x]; }
std::size_t vp_digit_pos(unsigned id, std::size_t x) { auto& d = numbers[id]; if (x >= d.pos.size()) discard(); return d.pos[x]; }
std::size_t vp_digit_group(unsigned, std::size_t x) { return x % 3; }
struct numeral_t { std::vector<std::uint64_t> val; std::vector<bool> sep; };
static std::map<unsigned, numeral_t> numerals;
std::size_t vp_numeral(const void* p, std::size_t n, unsigned ew, unsigned r, std::uint64_t sep, unsigned id) {
  numeral_t t;
  t.val.push_back(0); t.sep.push_back(false);
  std::uint64_t q = 1;
  std::size_t since = 0;
  for (std::size_t x = 0; x < n; ++x) {
    std::uint32_t c = 0;
    std::memcpy(&c, static_cast<const char*>(p) + ew * (n - 1 - x), ew);
    if (sep && since == 3) {
      if (c != sep) break;
      since = 0;
      t.val.push_back(t.val.back()); t.sep.push_back(true);
      continue;
    }
    std::uint64_t d = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99;
    if (d >= r) break;
    ++since;
    t.val.push_back(t.val.back() + d * q); t.sep.push_back(false);
    q *= r;
  }
  numerals[id] = t;
  return t.val.size() - 1;
}
std::uint64_t vp_numeral_value(unsigned id, std::size_t x) { auto& t = numerals[id]; if (x >= t.val.size()) discard(); return t.val[x]; }
bool vp_numeral_separator(unsigned id, std::size_t x) { auto& t = numerals[id]; if (x >= t.sep.size()) discard(); return t.sep[x]; }
}

int main(int argc, char** argv) {
  __sanitizer_set_death_callback(death);
  std::signal(SIGALRM, on_alarm);
  std::signal(SIGPIPE, SIG_IGN);
  std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  if (argc >= 2 && !std::strcmp(argv[1], "list")) {
    for (auto& e : entries()) std::printf("%s\n", e.name);
    return 0;
  }
  if (argc >= 3 && !std::strcmp(argv[1], "replay")) {
    replaying = true;
    std::ifstream in(argv[2]);
    std::string line, h;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      std::string kind, name;
      s >> kind >> name;
      if (kind == "harness") h = name;
      else if (kind == "nd") { int w; unsigned long long v; s >> w >> v; rep_nd[name] = v; }
      else if (kind == "arr") {
        std::size_t ew, n; unsigned long long v;
        s >> ew >> n;
        auto& a = rep_arr[name];
        while (s >> v) a.push_back(v);
      }
    }
    for (auto& e : entries())
      if (h == e.name) {
        current = e.name;
        int r = run_one(e.fn);
        std::printf("VPOK %s %s\n", e.name, r ? "outside the requires clause" : "all ensures clauses hold");
        finish(r ? 7 : 0);
      }
    std::printf("VPERROR no harness %s\n", h.c_str());
    finish(3);
  }
  if (argc >= 6 && !std::strcmp(argv[1], "fuzz")) {
    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    double secs = std::atof(argv[4]);
    out_path = argv[5];
    for (auto& e : entries())
      if (!std::strcmp(argv[2], e.name)) {
        current = e.name;
        std::uint64_t hsh = 1469598103934665603ull;
        for (const char* q = e.name; *q; ++q) hsh = (hsh ^ (unsigned char)*q) * 1099511628211ull;
        std::timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        unsigned long distinct = 0, it = 0;
        std::set<std::size_t> seen;
        std::string sample;
        for (;; ++it) {
          if ((it & 31) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &b);
            if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
          }
          rng.seed(seed * 0x9e3779b97f4a7c15ull + it * 0xbf58476d1ce4e5b9ull + hsh);
          nontrivial = false;
          if (run_one(e.fn)) { ++discards; continue; }
          ++evaluations;
          if (nontrivial && distinct < 200000) {
            if (seen.insert(std::hash<std::string>{}(log_text)).second) ++distinct;
            sample = log_text;
          }
        }
        for (auto& ch : sample) if (ch == '\n') ch = ';';
        if (sample.size() > 300) sample.resize(300);
        std::printf("VPFUZZ %s evaluations %lu discarded %lu distinct %lu covered %zu sample %s\n", e.name, evaluations, discards,
                    distinct, covered.size(), sample.c_str());
        finish(0);
      }
    std::printf("VPERROR no harness\n");
    finish(3);
  }
  return 3;
}
