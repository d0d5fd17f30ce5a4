// C01: Kuznyechik block encryption.  C06: cached blocks.  C18: block primitives.
#include "kuz.h"
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>

using namespace std;

static void check128(u128 a, u128 b, const char *label)
{
	vc_check_eq(a.first, b.first, label);
	vc_check_eq(a.second, b.second, label);
}

extern "C" {

// ---------------------------------------------------------------- C01

// contract of BlkL, against the standard
void h_C01_L()
{
	const u128 x = any128("x0", "x1");
	const K::BlkL l(make_shared<KuzBlock>(x));
	check128(l.value(), kL(x), "linear transformation");
	check128(l.value(), kL(x), "linear transformation the second time");
	vc_cover("L");
}

// contract of BlkS
void h_C01_S()
{
	const u128 x = any128("x0", "x1");
	const K::BlkS s(make_shared<KuzBlock>(x));
	check128(s.value(), kS(x), "substitution");
	check128(s.value(), kS(x), "substitution the second time");
	vc_cover("S");
}

// any key given as halves, any blocks, the key object used repeatedly
void h_C01_E()
{
	const auto key = any_kuz_key();
	const u128 x = any128("x0", "x1"), y = any128("y0", "y1");
	check128(key->encrypt(make_shared<KuzBlock>(x))->value(), kE(x), "encrypted block");
	check128(key->encrypt(make_shared<KuzBlock>(y))->value(), kE(y), "another block with the same key");
	const K::BlkEncrypted b(make_shared<KuzBlock>(x), key);
	check128(b.value(), kE(x), "encrypted block object");
	check128(b.value(), kE(x), "encrypted block object the second time");
	vc_cover("E");
}

// ---------------------------------------------------------------- C18

void h_C18_kxor()
{
	const u128 x = any128("x0", "x1"), y = any128("y0", "y1"), z = any128("z0", "z1");
	const auto a = make_shared<KuzBlock>(x), b = make_shared<KuzBlock>(y), c = make_shared<KuzBlock>(z);
	const K::BlkXored two(a, b);
	check128(two.value(), kx(x, y), "xor of two blocks");
	check128(K::BlkXored(a, b, c).value(), kx(kx(x, y), z), "xor of three blocks");
	check128(K::BlkXored(a, b, c, a).value(), kx(y, z), "xor of four blocks");
	check128(K::BlkXored(a, b, c, a, b).value(), z, "xor of five blocks");
	check128(two.value(), kx(x, y), "xor of two blocks again");
	vc_cover("xor");
}

void h_C18_kshift()
{
	const u128 x = any128("x0", "x1");
	const int n = int(vc_case("n", 1, 63));
	const K::BlkShifted s(make_shared<KuzBlock>(x), n);
	check128(s.value(), {x.first << n, x.second << n | x.first >> (64 - n)}, "shift left");
	vc_cover("shift");
}

void h_C18_kshift_any()
{
	const u128 x = any128("x0", "x1");
	const int n = int(vc_u64("n", 1, 63));
	const K::BlkShifted s(make_shared<KuzBlock>(x), n);
	check128(s.value(), {x.first << n, x.second << n | x.first >> (64 - n)}, "shift left");
	vc_cover("shift");
}

void h_C18_kinc()
{
	const u128 x = any128("x0", "x1");
	const K::BlkIncremented s(make_shared<KuzBlock>(x));
	check128(s.value(), {x.first + 1, x.second + (x.first == ~0ull ? 1 : 0)}, "increment modulo 2^128");
	check128(s.value(), {x.first + 1, x.second + (x.first == ~0ull ? 1 : 0)}, "increment the second time");
	vc_cover("inc");
}

void h_C18_kraw()
{
	const u128 x = any128("x0", "x1");
	check128(K::BlkRaw().value(), {0, 0}, "zero block");
	check128(K::BlkRaw(x.first, x.second).value(), x, "block from two halves");
	check128(K::BlkRaw(x).value(), x, "block from a pair");
	check128(K::BlkRaw(x.first).value(), {x.first, 0}, "block from a word");
	check128(K::BlkRaw(shared_ptr<const K::Block>(make_shared<KuzBlock>(x))).value(), x, "block from a block");
	uint64_t m[3] = {x.second, x.first, x.second};
	const K::BlkRaw fm(static_cast<const void *>(m + 1));
	m[0] = m[1] = m[2] = 0;
	check128(fm.value(), x, "block from memory");
	vc_cover("raw");
}

}  // extern "C"

// ---------------------------------------------------------------- C06, cached block

// a block that has another value at every reading, and whose readings number g_bad0 and g_bad1 fail
static uint64_t g_nread, g_bad0, g_bad1;

class Fickle final : public K::Block {
public:
	u128 value() const override
	{
		const uint64_t n = g_nread++;
		if (n == g_bad0 || n == g_bad1) {
			throw runtime_error("unreadable");
		}
		return {uf_W(2 * n), uf_W(2 * n + 1)};
	}
};

extern "C" {

void h_C06_block()
{
	g_nread = 0;
	g_bad0 = g_bad1 = ~0ull;
	const K::BlkCached c(make_shared<Fickle>());
	const auto d = make_shared<K::BlkCached>(c);
	check128(c.value(), {uf_W(0), uf_W(1)}, "first use of a cached block");
	check128(c.value(), {uf_W(0), uf_W(1)}, "later use of a cached block");
	check128(c.value(), {uf_W(0), uf_W(1)}, "later use of a cached block");
	vc_check(g_nread == 1, "the source is read once");
	vc_cover("block");
}

// two failures, at any of the first readings
void h_C06_blockfail()
{
	g_nread = 0;
	g_bad0 = vc_case("f", 0, 2);
	g_bad1 = vc_case("g", 0, 3);
	const K::BlkCached c(make_shared<Fickle>());
	uint64_t good = 0;
	while (good == g_bad0 || good == g_bad1) {
		bool thrown = false;
		try {
			c.value();
		} catch (const runtime_error &) {
			thrown = true;
		}
		vc_check(thrown, "the failure reaches the caller");
		good++;
	}
	for (int i = 0; i < 3; i++) {
		check128(c.value(), {uf_W(2 * good), uf_W(2 * good + 1)}, "value after failures");
	}
	vc_check(g_nread == good + 1, "the source is read until it has been read");
	vc_cover("blockfail");
}

}  // extern "C"
