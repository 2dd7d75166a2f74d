// Specification intrinsics. Under the verifier these are given meaning by engine/hooks.py;
// natively (replay and search) by engine/vf_native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t  vf_u8(const char *name);
uint16_t vf_u16(const char *name);
uint32_t vf_u32(const char *name);
uint64_t vf_u64(const char *name);
uint64_t vf_range(const char *name, uint64_t lo, uint64_t hi);	// lo <= v <= hi
uint64_t vf_fresh(const char *name);									// a new arbitrary value at every call (contracts of callees, verifier only)
uint64_t vf_index(const char *name, uint64_t n);					// arbitrary index < n
void     vf_bytes(const char *name, void *p, size_t n);			// p[0..n) := arbitrary bytes
void    *vf_buf(const char *name, size_t n);						// fresh object of exactly n arbitrary bytes
void    *vf_raw(const char *name, size_t n);						// fresh object of exactly n bytes, uninitialised
uint8_t  vf_uf8(const char *name, uint64_t a, uint64_t b);			// uninterpreted function
uint64_t vf_uf(const char *name, uint64_t a, uint64_t b);
void    *vf_page(const char *name, uint64_t id, size_t n);			// object with byte k == vf_uf8(name, id, k)
void     vf_assume(bool c);
void     vf_assert(bool c, const char *what);
void     vf_cover(const char *what);								// this point must be reachable
void     vf_inst(uint64_t k);							// use the quantified invariants at k
uint8_t  vf_peek(const void *p, uint64_t k);						// byte p[k] without a bounds obligation (specifications only)
bool     vf_same_bytes(const void *a, const void *b, size_t n);	// goal position only
}
#define PROOF(name) extern "C" void name()
