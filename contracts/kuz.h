// Abstract participants and spec functions for the Kuznyechik contracts.
#pragma once
#include "spec.h"
#include <memory>
#include <stdexcept>
#include <utility>
#include <goost/kuznyechik/Block.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/Stream.h>

namespace K = goost::kuznyechik;

typedef std::pair<uint64_t, uint64_t> u128;	// low half, high half

// ---------------------------------------------------------------- GOST R 34.12-2015, 4

// product in GF(2)[x]/(x^8 + x^7 + x^6 + x + 1)
inline uint8_t gf_mul(uint8_t c, uint8_t x)
{
	unsigned r = 0, p = x;
	for (int i = 0; i < 8; i++) {
		if (c >> i & 1) {
			r ^= p;
		}
		p = (p << 1 ^ (p >> 7 & 1) * 0xc3) & 255;
	}
	return uint8_t(r);
}

// R: l(a15, ..., a0), a15, ..., a1
inline u128 kuz_R(u128 a)
{
	static const uint8_t l[16] = {148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1};
	uint8_t s = 0;
	for (unsigned i = 0; i < 16; i++) {
		// l[i] is the coefficient of a_(15-i)
		const unsigned p = 15 - i;
		s = uint8_t(s ^ gf_mul(l[i], uint8_t((p < 8 ? a.first : a.second) >> (8 * (p % 8)))));
	}
	return {a.first >> 8 | a.second << 56, a.second >> 8 | uint64_t(s) << 56};
}

inline u128 kuz_L(u128 a)
{
	for (int i = 0; i < 16; i++) {
		a = kuz_R(a);
	}
	return a;
}

// opaque where the contracts of BlkL and BlkS are used
extern "C" {
uint64_t spe_LL(uint64_t low, uint64_t high);
uint64_t spe_LH(uint64_t low, uint64_t high);
uint64_t spe_S(uint64_t x);		// eight bytes at once
uint8_t kuz_pi(uint8_t x);
}

inline u128 kx(u128 a, u128 b) { return {a.first ^ b.first, a.second ^ b.second}; }
inline u128 kS(u128 a) { return {spe_S(a.first), spe_S(a.second)}; }
inline u128 kL(u128 a) { return {spe_LL(a.first, a.second), spe_LH(a.first, a.second)}; }

struct RoundKeys {
	u128 k[10];
};

// 4.3
inline RoundKeys kuz_schedule(u128 high, u128 low)
{
	RoundKeys r;
	u128 a1 = high, a0 = low;
	r.k[0] = a1;
	r.k[1] = a0;
	for (unsigned i = 1; i <= 4; i++) {
		for (unsigned j = 1; j <= 8; j++) {
			const u128 c = kL({8 * (i - 1) + j, 0});
			const u128 t = kx(kL(kS(kx(a1, c))), a0);
			a0 = a1;
			a1 = t;
		}
		r.k[2 * i] = a1;
		r.k[2 * i + 1] = a0;
	}
	return r;
}

// 4.4
inline u128 kuz_encrypt(const RoundKeys &r, u128 x)
{
	for (int i = 0; i < 9; i++) {
		x = kL(kS(kx(r.k[i], x)));
	}
	return kx(r.k[9], x);
}

// block encryption under the key of the current harness; opaque where the contract of Key::encrypt is used
extern "C" {
uint64_t speB_EL(uint64_t low, uint64_t high);
uint64_t speB_EH(uint64_t low, uint64_t high);
}
inline u128 kE(u128 x) { return {speB_EL(x.first, x.second), speB_EH(x.first, x.second)}; }

// doubling in GF(2^128) (GOST R 34.13-2015, 5.6)
inline u128 dbl128(u128 x)
{
	return {x.first << 1 ^ (x.second >> 63 ? 0x87 : 0), x.second << 1 | x.first >> 63};
}

// ---------------------------------------------------------------- participants

class KuzBlock final : public K::Block {
public:
	explicit KuzBlock(u128 v) : v(v) {}
	u128 value() const override { return v; }
private:
	const u128 v;
};

class AnyData final : public K::Key::Data {
public:
	AnyData(u128 high, u128 low) : h(high), l(low) {}
	std::shared_ptr<const K::Block> low() const override { return std::make_shared<KuzBlock>(l); }
	std::shared_ptr<const K::Block> high() const override { return std::make_shared<KuzBlock>(h); }
private:
	const u128 h, l;
};

inline u128 any128(const char *low, const char *high)
{
	const uint64_t l = vc_bits64(low);
	return {l, vc_bits64(high)};
}

extern const K::Key *g_kuz;
extern u128 g_khigh, g_klow;

// an arbitrary key
std::shared_ptr<const K::Key> any_kuz_key();
