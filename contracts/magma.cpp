// C02, C03, C04, C06 (key cache), C18 (Magma blocks)
#include "magma.h"
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>

using namespace std;
using namespace goost;
using namespace goost::magma;

static shared_ptr<const Block> any_block(const char *n)
{
	const uint64_t x = vc_bits64(n);
	return make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32));
}

// GOST R 34.12-2015, 5.1.1: table i acts on nibble i, lowest first
static const uint8_t PI[8][16] = {
	{12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1},
	{6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15},
	{11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0},
	{12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11},
	{7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12},
	{5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0},
	{8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7},
	{1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2},
};

static uint32_t rot11(uint32_t v) { return v << 11 | v >> 21; }

extern "C" {

// ---------------------------------------------------------------- C02
void h_C02_block()
{
	const auto key = any_key();
	const uint64_t x = vc_bits64("block");
	const auto e = make_shared<BlkEncrypted>(make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32)), key);
	vc_check_eq(word(e->value()), spe_E(x), "block encryption is the 32-round network");
	vc_check_eq(word(e->value()), spe_E(x), "block encryption is the 32-round network the second time");
	vc_cover("block");
}

void h_C02_word()
{
	const auto key = any_key();
	const uint64_t x = vc_bits64("block");
	const EncryptionBase b(key);
	vc_check_eq(b.transform(x), spe_E(x), "word encryption is the 32-round network");
	vc_check_eq(b.transform(x), spe_E(x), "word encryption is the 32-round network the second time");
	vc_cover("word");
}

// a lazy key adds the subkey modulo 2^32 and substitutes
void h_C02_lazy()
{
	const auto key = any_lazy_key();
	const uint32_t v = vc_bits32("v");
	const int i = int(vc_case("i", 0, 7));
	vc_check_eq(key->transform(v, i), uf_S(uf_K(i) + v), "round function");
	vc_check_eq(key->transform(v, i), uf_S(uf_K(i) + v), "round function the second time");
	vc_cover("lazy");
}

// the same built from eight numbers
void h_C02_native()
{
	vector<uint32_t> k;
	for (int i = 0; i < 8; i++) {
		k.push_back(uf_K(i));
	}
	const LazyKey key(k, make_shared<AnySbox>());
	const KeyDataNative data(k);
	const uint32_t v = vc_bits32("v");
	k.assign(8, 0);
	for (int i = 0; i < 8; i++) {
		vc_check_eq(data.key(i), uf_K(i), "subkey");
		vc_check_eq(key.transform(v, i), uf_S(uf_K(i) + v), "round function");
	}
	vc_cover("native");
}

// the whole cipher with a lazy key
void h_C02_whole()
{
	const auto key = any_lazy_key();
	const uint64_t x = vc_bits64("block");
	const BlkEncrypted e(make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32)), key);
	vc_check_eq(word(e.value()), spe_EL(x), "encryption with a subkey and substitution key");
	vc_check_eq(EncryptionBase(key).transform(x), spe_EL(x), "word encryption with a subkey and substitution key");
	vc_cover("whole");
}

// ---------------------------------------------------------------- C03
void h_C03_value()
{
	const auto key = any_key();
	const uint64_t x = vc_bits64("block");
	const BlkDecrypted d(make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32)), key);
	vc_check_eq(word(d.value()), spe_D(x), "decryption is the 32-round network with the reversed key order");
	vc_check_eq(word(d.value()), spe_D(x), "decryption is the 32-round network the second time");
	vc_cover("value");
}

void h_C03_inverse()
{
	const auto key = any_key();
	const uint64_t x = vc_bits64("block");
	const auto b = make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32));
	const BlkDecrypted d(make_shared<BlkEncrypted>(b, key), key);
	vc_check_eq(word(d.value()), x, "decryption of the encryption is the block");
	const BlkEncrypted e(make_shared<BlkDecrypted>(b, key), key);
	vc_check_eq(word(e.value()), x, "encryption of the decryption is the block");
	const BlkDecrypted w(make_shared<BlkRaw>(EncryptionBase(key).transform(x)), key);
	vc_check_eq(word(w.value()), x, "decryption of the word encryption is the block");
	vc_cover("inverse");
}

// lemma over the spec functions only: D inverts E
void h_C03_lemma()
{
	const uint64_t x = vc_bits64("block");
	vc_check_eq(spe_D(spe_E(x)), x, "D(E(x)) = x");
	vc_check_eq(spe_E(spe_D(x)), x, "E(D(x)) = x");
	vc_cover("lemma");
}

// ---------------------------------------------------------------- C04
void h_C04_standard()
{
	const SboxR3412 s;
	const uint32_t v = vc_bits32("v");
	uint32_t r = 0;
	for (int i = 0; i < 8; i++) {
		r |= uint32_t(PI[i][v >> (4 * i) & 15]) << (4 * i);
	}
	vc_check_eq(s.transform(v), rot11(r), "substitution of the standard");
	vc_check_eq(s.transform(v), rot11(r), "substitution of the standard the second time");
	vc_cover("standard");
}

// the key made from a text alone uses the standard substitution
void h_C04_default()
{
	const LazyKey key("00112233445566778899aabbccddeeff0123456789abcdeffedcba9876543210");
	const uint32_t v = vc_bits32("v");
	uint32_t r = 0;
	const uint32_t x = 0x00112233 + v;
	for (int i = 0; i < 8; i++) {
		r |= uint32_t(PI[i][x >> (4 * i) & 15]) << (4 * i);
	}
	vc_check_eq(key.transform(v, 0), rot11(r), "default substitution");
	vc_cover("default");
}

void h_C04_nibble()
{
	// any eight tables with entries 0 to 15
	vector<int> p[8];
	for (int i = 0; i < 8; i++) {
		for (int j = 0; j < 16; j++) {
			p[i].push_back(uf_T(16 * i + j) & 15);
		}
	}
	const SboxNibble s(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
	for (auto &x : p) {
		x.clear();
	}
	const uint32_t v = vc_bits32("v");
	uint32_t r = 0;
	for (int i = 0; i < 8; i++) {
		r |= uint32_t(uf_T(16 * i + (v >> (4 * i) & 15)) & 15) << (4 * i);
	}
	vc_check_eq(s.transform(v), r, "table i acts on nibble i");
	vc_cover("nibble");
}

void h_C04_byte()
{
	vector<uint8_t> uz;
	for (int i = 0; i < 64; i++) {
		uz.push_back(uf_T(i));
	}
	const SboxByte s(uz);
	uz.assign(64, 0);
	const uint32_t v = vc_bits32("v");
	uint32_t r = 0;
	for (int i = 0; i < 4; i++) {
		const uint8_t b = uint8_t(v >> (8 * i));
		r |= uint32_t((uf_T(4 * (b >> 4) + i) & 0xf0) | (uf_T(4 * (b & 15) + i) & 0x0f)) << (8 * i);
	}
	vc_check_eq(s.transform(v), r, "column i acts on the nibbles of byte i");
	vc_cover("byte");
}

void h_C04_column()
{
	vector<uint8_t> uz;
	for (int i = 0; i < 64; i++) {
		uz.push_back(uf_T(i));
	}
	const int o = int(vc_case("offset", 0, 3));
	const SboxByte64Tab tab(uz, o);
	const int v = int(vc_bits32("v"));
	const uint8_t b = uint8_t(v);
	vc_check_eq(tab.translate(v), (uf_T(4 * (b >> 4) + o) & 0xf0u) | (uf_T(4 * (b & 15) + o) & 0x0fu), "column of the packed table");
	vc_cover("column");
}

void h_C04_twisted()
{
	const SboxTwisted s(make_unique<AnySbox>());
	const uint32_t v = vc_bits32("v");
	vc_check_eq(s.transform(v), rot11(uf_S(v)), "rotation left by 11 bits");
	vc_cover("twisted");
}

// ---------------------------------------------------------------- C18, Magma
void h_C18_mxor()
{
	const uint64_t x = vc_bits64("a"), y = vc_bits64("b"), z = vc_bits64("c");
	const auto a = make_shared<BlkRaw>(x), b = make_shared<BlkRaw>(y), c = make_shared<BlkRaw>(z);
	const BlkXored two(a, b);
	vc_check_eq(word(two.value()), x ^ y, "xor of two blocks");
	const BlkXored three(a, b, c);
	vc_check_eq(word(three.value()), x ^ y ^ z, "xor of three blocks");
	const BlkXored four(a, b, c, a);
	vc_check_eq(word(four.value()), y ^ z, "xor of four blocks");
	const BlkXored five(a, b, c, a, b);
	vc_check_eq(word(five.value()), z, "xor of five blocks");
	vc_check_eq(word(two.value()), x ^ y, "xor of two blocks again");
	vc_cover("xor");
}

void h_C18_mshift()
{
	const uint64_t x = vc_bits64("a");
	const int n = int(vc_case("n", 1, 31));
	const BlkShifted s(make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32)), n);
	vc_check_eq(word(s.value()), x << n, "shift left");
	vc_cover("shift");
}

void h_C18_mshift_any()
{
	const uint64_t x = vc_bits64("a");
	const int n = int(vc_u64("n", 1, 31));
	const BlkShifted s(make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32)), n);
	vc_check_eq(word(s.value()), x << n, "shift left");
	vc_cover("shift");
}

void h_C18_mswap()
{
	const uint64_t x = vc_bits64("a");
	const BlkSwapped s(make_shared<AnyBlock>(uint32_t(x), uint32_t(x >> 32)));
	vc_check_eq(word(s.value()), x << 32 | x >> 32, "swap of the halves");
	vc_cover("swap");
}

void h_C18_mraw()
{
	const uint64_t x = vc_bits64("a");
	const uint32_t l = uint32_t(x), h = uint32_t(x >> 32);
	vc_check_eq(word(BlkRaw().value()), 0, "zero block");
	vc_check_eq(word(BlkRaw(l, h).value()), x, "block from two halves");
	vc_check_eq(word(BlkRaw(make_pair(l, h)).value()), x, "block from a pair");
	vc_check_eq(word(BlkRaw(x).value()), x, "block from a word");
	vc_check_eq(word(BlkRaw(shared_ptr<const Block>(make_shared<AnyBlock>(l, h))).value()), x, "block from a block");
	uint8_t m[8];
	vector<uint8_t> v;
	for (int i = 0; i < 8; i++) {
		m[i] = byte_of(x, i);
		v.push_back(m[i]);
	}
	const BlkRaw fm(static_cast<const void *>(m)), fv(v);
	for (int i = 0; i < 8; i++) {
		m[i] = 0;
		v[i] = 0;
	}
	vc_check_eq(word(fm.value()), x, "block from memory");
	vc_check_eq(word(fv.value()), x, "block from a vector");
	vc_cover("raw");
}

}  // extern "C"

// ---------------------------------------------------------------- C06, key cache
static int g_reads[8];
static int g_fail_at;
static int g_count;

class CountedKeyData final : public KeyData {
public:
	uint32_t key(int i) const override
	{
		if (g_count++ == g_fail_at) {
			throw runtime_error("unreadable");
		}
		g_reads[i & 7]++;
		return uf_K(uint64_t(int64_t(i)));
	}
};

extern "C" {

void h_C06_key()
{
	for (int x = 0; x < 8; x++) {
		g_reads[x] = 0;
	}
	g_fail_at = -1;
	g_count = 0;
	const KeyCachedData c(make_unique<CountedKeyData>());
	const int i = int(vc_case("i", 0, 7)), j = int(vc_u64("j", 0, 7)), k = int(vc_u64("k", 0, 7));
	vc_check_eq(c.key(i), uf_K(i), "first use");
	const int n = g_count;
	vc_check_eq(c.key(int(vc_concretize(j))), uf_K(vc_concretize(j)), "second use");
	vc_check_eq(c.key(int(vc_concretize(k))), uf_K(vc_concretize(k)), "third use");
	vc_check_eq(c.key(i), uf_K(i), "later use");
	for (int x = 0; x < 8; x++) {
		vc_check(g_reads[x] <= 1, "a subkey is read from the source at most once");
	}
	(void)n;
	vc_cover("key");
}

// reading fails at the f-th subkey
void h_C06_keyfail()
{
	for (int x = 0; x < 8; x++) {
		g_reads[x] = 0;
	}
	g_fail_at = int(vc_case("f", 0, 7));
	g_count = 0;
	const KeyCachedData c(make_unique<CountedKeyData>());
	const int i = int(vc_u64("i", 0, 7));
	bool thrown = false;
	int n = 0;
	// the failure shows at the latest when all subkeys have been asked for
	for (int x = 0; x < 8 && !thrown; x++) {
		try {
			vc_check_eq(c.key(x), uf_K(x), "value before the failure");
			n = g_count;
		} catch (const runtime_error &) {
			thrown = true;
		}
		vc_check(!thrown || g_count == g_fail_at + 1, "the failure reaches the caller at once");
		vc_check(thrown || g_count <= g_fail_at, "the failure reaches the caller");
	}
	vc_check(thrown, "the failure reaches the caller");
	(void)n;
	vc_check_eq(c.key(int(vc_concretize(i))), uf_K(vc_concretize(i)), "value after a failure");
	for (int x = 0; x < 8; x++) {
		vc_check_eq(c.key(x), uf_K(x), "every value after a failure");
	}
	vc_cover("keyfail");
}

// a subkey number outside 0..7 is not answered with some value
void h_C06_keyrange()
{
	g_fail_at = -1;
	g_count = 0;
	const KeyCachedData c(make_unique<CountedKeyData>());
	const int i = int(vc_bits32("i"));
	vc_assume(i < 0 || i > 7);
	bool thrown = false;
	try {
		c.key(i);
	} catch (const exception &) {
		thrown = true;
	}
	vc_check(thrown, "a subkey number outside 0..7 is rejected");
	vc_cover("keyrange");
}

}  // extern "C"
