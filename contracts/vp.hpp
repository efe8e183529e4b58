// Contract vocabulary.  The same contract text is (1) turned into proof obligations by
// /verif/engine from the LLVM IR, and (2) compiled natively (sanitizers on) to replay
// counterexamples against the real code.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t vp_u8(const char* name);
std::uint16_t vp_u16(const char* name);
std::uint32_t vp_u32(const char* name);
std::uint64_t vp_u64(const char* name);
bool vp_bool(const char* name);
// an array of n elements of ew bytes with arbitrary contents, in an object of exactly n*ew bytes
void* vp_array(std::size_t n, std::size_t ew, const char* name);
// give existing memory arbitrary contents
void vp_havoc(void* p, std::size_t nbytes, std::size_t ew, const char* name);
void vp_assume(bool c);                       // requires
void vp_assert(bool c, const char* what);     // ensures
void vp_fail(const char* what);
void vp_cover(const char* what);              // must be reachable (vacuity guard)
std::uint64_t vp_split(std::uint64_t v, std::uint64_t lo, std::uint64_t hi);
std::uint64_t vp_uf1(const char* name, std::uint64_t a);
std::uint64_t vp_uf2(const char* name, std::uint64_t a, std::uint64_t b);
std::uint64_t vp_uf3(const char* name, std::uint64_t a, std::uint64_t b, std::uint64_t c);
void vp_terminated(const void* p, std::size_t byte_offset_of_zero);
void vp_skolem(std::uint64_t k);
bool vp_same_object(const void* a, const void* b);
// well-formed text (kind 0: ASCII, 1: UTF-8, 2: UTF-16, 4: UTF-32), see engine/texts.py; the number of code points
std::size_t vp_text(const void* p, std::size_t n, unsigned kind, unsigned id);
std::size_t vp_pos(unsigned id, std::size_t x);                  // code unit index of code point x (x <= count)
std::size_t vp_opos(unsigned id, unsigned kind, std::size_t x);  // the same in another encoding of the text
std::uint32_t vp_cp(unsigned id, std::size_t x);                 // code point x (x < count)
void vp_mark(unsigned id, std::size_t x);                          // a place of interest in the text
void vp_agree(unsigned a, unsigned b, std::size_t off);  // assume: text b occurs in text a from code point off on
// numbers as text, see engine/numerals.py
std::size_t vp_digits(std::uint64_t v, unsigned radix, std::uint64_t separator, unsigned ew, unsigned id);   // how many digits
std::uint32_t vp_digit_char(unsigned id, std::size_t x);         // digit x from the right, as a character
std::size_t vp_digit_pos(unsigned id, std::size_t x);            // characters to the right of digit x
std::size_t vp_digit_group(unsigned id, std::size_t x);          // x modulo 3
// the longest suffix of the characters in which all are as expected
std::size_t vp_numeral(const void* p, std::size_t n, unsigned ew, unsigned radix, std::uint64_t separator, unsigned id);
std::uint64_t vp_numeral_value(unsigned id, std::size_t x);      // value of the x rightmost characters, modulo 2^64
bool vp_numeral_separator(unsigned id, std::size_t x);           // character x-1 from the right is a separator
}
#ifdef VP_NATIVE
namespace vp_native {
using ghost_fn = std::uint64_t (*)(std::uint64_t, std::uint64_t, std::uint64_t);
struct ghost_registration { ghost_registration(const char* n, ghost_fn f); };
struct registration { registration(const char* n, void (*f)()); };
}
#define VP_GHOST(name, fn) static ::vp_native::ghost_registration name##_reg{#name, fn};
#define VP_HARNESS(name) extern "C" void vp_h_##name(); \
  static ::vp_native::registration vp_reg_##name{"vp_h_" #name, vp_h_##name}; extern "C" void vp_h_##name()
#else
#define VP_GHOST(name, fn)
#define VP_HARNESS(name) extern "C" void vp_h_##name()
#endif
// bitwise (non short-circuit) connectives keep the proof state small
static inline bool vp_and(bool a, bool b) { return a & b; }
static inline bool vp_or(bool a, bool b) { return a | b; }
static inline bool vp_imp(bool a, bool b) { return (!a) | b; }
#ifdef VP_NATIVE
#define VP_SIZE(n) ((n) < (std::size_t(1) << 20))   // what replays can allocate
#else
#define VP_SIZE(n) ((n) < (std::size_t(1) << 48))
#endif
#endif
