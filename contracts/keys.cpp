// C05: textual keys.  C18: blocks from texts.
#include "magma.h"
#include "kuz.h"
#include <goost/magma/BlkString.h>
#include <goost/magma/KeyDataString.h>
#include <goost/kuznyechik/Block.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/KeyDataString.h>

using namespace std;
using namespace goost;

static bool is_hex(uint8_t c) { return bool((int(c >= '0') & int(c <= '9')) | (int(c >= 'a') & int(c <= 'f')) | (int(c >= 'A') & int(c <= 'F'))); }
static uint64_t nibble(uint8_t c) { return uint64_t(c & 15) + 9 * uint64_t(c >> 6 & 1); }

// arbitrary characters; most random runs have texts of hexadecimal digits
static bool g_digits;
static uint8_t anychar(uint64_t i)
{
	return g_digits ? uint8_t("0123456789abcdefABCDEF"[uf_C(i) % 22]) : uf_C(i);
}

static string text(uint64_t n)
{
	string s;
	if (vc_symbolic()) {
		vc_make_string(&s, uf_C, n);
	} else {
		vc_make_string(&s, anychar, n);
	}
	return s;
}

static void pick_digits() { g_digits = vc_u64("digits", 0, vc_symbolic() ? 0 : 3) != 0; }

// a text of which character p is no digit
static string bad_text(unsigned p)
{
	pick_digits();
	vc_assume(!is_hex(uf_C(p)));
	auto s = text(64);
	if (!vc_symbolic()) {
		s[p] = char(uf_C(p));
		const unsigned c = unsigned(vc_u64("special", 0, 40));
		if (g_digits && c < 20) {
			s[p] = " \t\n+-xX.,:;gG@/`_{\0\xff"[c];
		}
	}
	return s;
}

// character i of an arbitrary text of hexadecimal digits
static uint8_t hexchar(unsigned i, unsigned n)
{
	if (vc_symbolic()) {
		return uf_C(i);
	}
	return uint8_t("0123456789abcdefABCDEF"[(uf_C(i) ^ n) % 22]);
}

static string hextext(unsigned n)
{
	if (vc_symbolic()) {
		for (unsigned i = 0; i < n; i++) {
			vc_assume(is_hex(uf_C(i)));
		}
		return text(n);
	}
	string s;
	for (unsigned i = 0; i < n; i++) {
		s.push_back(char(hexchar(i, n)));
	}
	return s;
}

// number spelled by the digits from..to of the text of n digits
static uint64_t spelled(unsigned from, unsigned to, unsigned n)
{
	uint64_t r = 0;
	for (unsigned i = from; i < to; i++) {
		r = r << 4 | nibble(hexchar(i, n));
	}
	return r;
}

template <typename F>
static bool rejected(const F &f)
{
	try {
		f();
	} catch (const exception &) {
		return true;
	}
	return false;
}

extern "C" {

// ---------------------------------------------------------------- Magma keys
void h_C05_mvalid()
{
	const magma::KeyDataString k(hextext(64));
	for (int i = 0; i < 8; i++) {
		vc_check_eq(k.key(i), spelled(unsigned(8 * i), unsigned(8 * i + 8), 64), "subkey");
	}
	vc_check_eq(k.key(0), spelled(0, 8, 64), "subkey the second time");
	vc_cover("mvalid");
}

// the key object made from the text
void h_C05_mkey()
{
	const magma::LazyKey k(hextext(64), make_shared<AnySbox>());
	const uint32_t v = vc_bits32("v");
	for (int i = 0; i < 8; i++) {
		vc_check_eq(k.transform(v, i), uf_S(uint32_t(spelled(unsigned(8 * i), unsigned(8 * i + 8), 64)) + v), "round function of a textual key");
	}
	vc_cover("mkey");
}

void h_C05_mlength()
{
	const uint64_t n = vc_u64("n", 0, 1ull << 38);
	const int i = int(vc_case("i", 0, 7));
	vc_assume(n != 64);
	pick_digits();
	const auto s = text(n);
	vc_check(rejected([&]{ magma::KeyDataString(s).key(i); }), "a key of another length is rejected");
	vc_check(rejected([&]{ magma::LazyKey(s, make_shared<AnySbox>()).transform(0, i); }), "a textual key of another length is rejected");
	vc_cover("mlength");
}

// one character that is no digit, the others anything
void h_C05_mdigit()
{
	const unsigned p = unsigned(vc_case("p", 0, 63));
	const auto s = bad_text(p);
	const int i = int(vc_u64("i", 0, 7));
	vc_check(rejected([&]{ magma::KeyDataString(s).key(int(vc_concretize(uint64_t(i)))); }), "a key with another character is rejected");
	vc_check(rejected([&]{ magma::LazyKey(s, make_shared<AnySbox>()).transform(0, int(vc_concretize(uint64_t(i)))); }), "a textual key with another character is rejected");
	vc_cover("mdigit");
}

void h_C05_mindex()
{
	const auto s = hextext(64);
	const int i = int(vc_bits32("i"));
	vc_assume(i < 0 || i > 7);
	vc_check(rejected([&]{ magma::KeyDataString(s).key(i); }), "a subkey number outside 0..7 is rejected");
	vc_check(rejected([&]{ magma::LazyKey(s, make_shared<AnySbox>()).transform(0, i); }), "a subkey number outside 0..7 is rejected by the key");
	vc_cover("mindex");
}

// ---------------------------------------------------------------- Kuznyechik keys
void h_C05_kvalid()
{
	const kuznyechik::KeyDataString k(hextext(64));
	for (int r = 0; r < 2; r++) {
		const auto h = k.high()->value(), l = k.low()->value();
		vc_check_eq(h.second, spelled(0, 16, 64), "upper half of the upper half");
		vc_check_eq(h.first, spelled(16, 32, 64), "lower half of the upper half");
		vc_check_eq(l.second, spelled(32, 48, 64), "upper half of the lower half");
		vc_check_eq(l.first, spelled(48, 64, 64), "lower half of the lower half");
	}
	vc_cover("kvalid");
}

// the cipher with a key given as a text
void h_C01_text()
{
	const u128 x = any128("x0", "x1");
	const string s = hextext(64);
	const K::Key key(s);
	// which halves the text stands for: h_C05_kvalid
	const K::KeyDataString d(s);
	const u128 high = d.high()->value(), low = d.low()->value();
	const auto e = kuz_encrypt(kuz_schedule(high, low), x);
	const auto b = key.encrypt(make_shared<KuzBlock>(x));
	const auto v = b->value();
	vc_check_eq(v.first, e.first, "lower half of a block encrypted with a textual key");
	vc_check_eq(v.second, e.second, "upper half of a block encrypted with a textual key");
	vc_check(b->value() == v, "the same the second time");
	vc_cover("text");
}

class ZeroBlock final : public kuznyechik::Block {
public:
	pair<uint64_t, uint64_t> value() const override { return {0, 0}; }
};

// using the text in any way ends in an exception
static void kreject(const string &s, const char *label)
{
	vc_check(rejected([&]{ kuznyechik::KeyDataString(s).high()->value(); }), label);
	vc_check(rejected([&]{ kuznyechik::KeyDataString(s).low()->value(); }), label);
	vc_check(rejected([&]{
		const kuznyechik::Key key(s);
		key.encrypt(make_shared<ZeroBlock>())->value();
	}), label);
}

void h_C05_klength()
{
	const uint64_t n = vc_u64("n", 0, 1ull << 38);
	vc_assume(n != 64);
	pick_digits();
	kreject(text(n), "a key of another length is rejected");
	vc_cover("klength");
}

void h_C05_kdigit()
{
	const unsigned p = unsigned(vc_case("p", 0, 63));
	kreject(bad_text(p), "a key with another character is rejected");
	vc_cover("kdigit");
}

// ---------------------------------------------------------------- blocks from texts
void h_C18_mstring()
{
	const unsigned n = unsigned(vc_case("n", 0, 16));
	const magma::BlkString b(hextext(n));
	const uint64_t v = spelled(0, n, n);
	vc_check_eq(word(b.value()), v, "block from a text");
	vc_check_eq(word(b.value()), v, "block from a text the second time");
	vc_cover("mstring");
}

void h_C18_kstring()
{
	const unsigned n = unsigned(vc_case("n", 0, 32));
	const kuznyechik::BlkString b(hextext(n));
	const auto v = b.value();
	vc_check_eq(v.first, spelled(n > 16 ? n - 16 : 0, n, n), "lower half of a block from a text");
	vc_check_eq(v.second, spelled(0, n > 16 ? n - 16 : 0, n), "upper half of a block from a text");
	vc_check(b.value() == v, "block from a text the second time");
	vc_cover("kstring");
}

}  // extern "C"
