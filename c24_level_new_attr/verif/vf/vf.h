// Contract language used by every file in /verif/contracts.
// The same text is (1) compiled to LLVM IR, linked with the real /repo code, translated by
// ir2c.py and proved by cbmc, and (2) compiled natively (VF_NATIVE) to replay counterexamples.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vf_nd_u64(void); uint32_t vf_nd_u32(void); uint16_t vf_nd_u16(void); uint8_t vf_nd_u8(void);
bool vf_nd_bool(void); double vf_nd_double(void);
uint64_t vf_nd_below(uint64_t n);   // any value < n
void vf_assume(bool c);
void vf_check(bool c, const char* name);
void vf_reach(const char* name);
}
#define ND_U64 vf_nd_u64
#define ND_U32 vf_nd_u32
#define ND_U16 vf_nd_u16
#define ND_U8 vf_nd_u8
#define ND_BOOL vf_nd_bool
#define ND_DOUBLE vf_nd_double
#define REQUIRES(c) vf_assume(c)
#define ENSURES(c, name) vf_check((c), name)
#define REACH(name) vf_reach(name)
#define CONTRACT(fn) extern "C" void contract_##fn(void)
#define ND_BELOW(n) vf_nd_below(n)
