#pragma once
// Contract intrinsics.  In the proof they are symbolic; in a replay they read
// the counterexample; in the native search they are drawn at random.
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_u64(const char* name);
uint32_t vf_u32(const char* name);
uint16_t vf_u16(const char* name);
uint8_t  vf_u8(const char* name);
bool     vf_bool(const char* name);
int      vf_choose(const char* name, int n);     // 0..n-1, one case each
void     vf_assume(int cond);
void     vf_ensure(int cond, const char* label);
void     vf_cover(const char* label);
uint64_t vf_split(uint64_t v);                   // case split on all feasible values
int      vf_symbolic(void);
int      vf_out_count(int ch);                   // values written to stream ch: 0 numbers (one per line), 1 characters
int64_t  vf_out_value(int ch, int i);
void     vf_in_push(uint8_t c);                  // next character of the input stream
void     vf_co_start(void (*f)());               // prepare a second context that runs f
void     vf_co_switch(void);                     // run the other context until it switches back (or ends)
int      vf_co_done(void);                       // the second context has ended
void*    vf_array(const char* name, uint64_t n); // n 8-byte cells, arbitrary contents
}
#include <iosfwd>
extern "C" std::ostream* vf_ostream(int ch);
extern "C" std::istream* vf_istream(void);
inline int64_t vf_i64(const char* n) { return (int64_t)vf_u64(n); }
#define VF extern "C" void
