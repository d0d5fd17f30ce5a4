// Mathematical side of the contracts: uninterpreted functions (arbitrary keys,
// substitutions, messages) and spec functions over them, from the standards.
#pragma once
#include "vc.h"

#define SPEC extern "C" __attribute__((noinline, weak))

extern "C" {
// arbitrary functions: every proof holds for all of them
uint32_t uf_F(uint32_t v, uint64_t i);   // round function of an arbitrary Magma key
uint32_t uf_K(uint64_t i);               // subkeys of an arbitrary key
uint32_t uf_S(uint32_t v);               // arbitrary substitution
uint8_t uf_M(uint64_t i);                // message bytes
uint64_t uf_W(uint64_t i);               // message words (64 bit)
uint8_t uf_T(uint64_t i);                // table bytes
uint8_t uf_C(uint64_t i);                // characters
}

#ifdef VC_NATIVE
uint64_t vc_memo(const char *name, uint64_t (*body)(uint64_t), uint64_t j);
// sequence defined by recursion: filled from the start, no deep recursion
#define SPEC_SEQ(name) static uint64_t name##_body(uint64_t); \
	extern "C" uint64_t name(uint64_t j) { return vc_memo(#name, name##_body, j); } \
	static uint64_t name##_body(uint64_t j)
#else
#define SPEC_SEQ(name) extern "C" __attribute__((noinline)) uint64_t name(uint64_t j)
#endif

// ---------------------------------------------------------------- Magma

// 32 rounds (GOST R 34.12-2015, 5.3), F(value, subkey number)
template <typename F>
inline uint64_t magma_net(uint64_t x, const F &f, bool decrypt)
{
	uint32_t a = uint32_t(x), b = uint32_t(x >> 32);
	for (int i = 0; i < 32; i++) {
		const int e = i < 24 ? i % 8 : 7 - i % 8;
		const int d = i < 8 ? i : 7 - i % 8;
		const uint32_t c = b ^ f(a, decrypt ? d : e);
		b = a;
		a = c;
	}
	return uint64_t(a) << 32 | b;
}

// 16 rounds without the final exchange (GOST 28147-89, 5)
template <typename F>
inline uint64_t imit_net(uint64_t x, const F &f)
{
	uint32_t a = uint32_t(x), b = uint32_t(x >> 32);
	for (int i = 0; i < 16; i++) {
		const uint32_t c = b ^ f(a, i % 8);
		b = a;
		a = c;
	}
	return uint64_t(b) << 32 | a;
}

inline uint32_t round_F(uint32_t v, uint64_t i) { return uf_F(v, i); }
inline uint32_t round_L(uint32_t v, uint64_t i) { return uf_S(uf_K(i) + v); }

// opaque in contract mode, unfolded when callee bodies are used
SPEC uint64_t spe_E(uint64_t x) { return magma_net(x, round_F, false); }
SPEC uint64_t spe_D(uint64_t x) { return magma_net(x, round_F, true); }
SPEC uint64_t spe_EL(uint64_t x) { return magma_net(x, round_L, false); }
SPEC uint64_t spe_I(uint64_t x) { return imit_net(x, round_L); }

inline uint8_t byte_of(uint64_t w, unsigned i) { return uint8_t(w >> (8 * i)); }

// word j of the message, least significant byte first
inline uint64_t MW(uint64_t j)
{
	uint64_t r = 0;
	for (unsigned i = 0; i < 8; i++) {
		r |= uint64_t(uf_M(8 * j + i)) << (8 * i);
	}
	return r;
}

// r message bytes from word j on, as a number
inline uint64_t MT(uint64_t j, unsigned r)
{
	uint64_t w = 0;
	for (unsigned i = 0; i < r; i++) {
		w |= uint64_t(uf_M(8 * j + i)) << (8 * i);
	}
	return w;
}

// doubling in GF(2^64) (GOST R 34.13-2015, 5.6)
inline uint64_t dbl64(uint64_t x) { return (x << 1) ^ (x >> 63 ? 0x1b : 0); }
