// C14: Kuznyechik MAC.  C16: Kuznyechik CTR.  C17: memory streams.
#include "kuz.h"
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>

using namespace std;

static const uint64_t MAX_BLOCKS = 1ull << 38;

static uint64_t g_n, g_size;	// blocks of the stream, size of its last block

static u128 block_at(uint64_t j) { return {uf_W(2 * j), uf_W(2 * j + 1)}; }

static void check128(u128 a, u128 b, const char *label)
{
	vc_check_eq(a.first, b.first, label);
	vc_check_eq(a.second, b.second, label);
}

// the chain of a MAC: H(0) = 0, H(j + 1) = E(H(j) ^ block j)
extern "C" uint64_t sp_HL(uint64_t);
extern "C" uint64_t sp_HH(uint64_t);
static u128 chain(uint64_t j)
{
	if (j == 0) {
		return {0, 0};
	}
	return kE(kx({sp_HL(j - 1), sp_HH(j - 1)}, block_at(j - 1)));
}
SPEC_SEQ(sp_HL) { return chain(j).first; }
SPEC_SEQ(sp_HH) { return chain(j).second; }

class SpecIterator final : public K::Iterator {
public:
	explicit SpecIterator(uint64_t j) : j(j) {}
	u128 value() const override
	{
		vc_reveal((void *)sp_HL, j + 1);
		vc_reveal((void *)sp_HH, j + 1);
		return block_at(j);
	}
	bool last() const override { return j + 1 == g_n; }
	size_t size() const override { return j + 1 == g_n ? g_size : 16; }
	shared_ptr<const K::Iterator> next() const override
	{
		if (j + 1 == g_n) {
			return {};
		}
		return make_shared<SpecIterator>(j + 1);
	}
	const uint64_t j;
};

class SpecStream final : public K::Stream {
public:
	shared_ptr<const K::Iterator> iter() const override
	{
		if (g_n == 0) {
			return {};
		}
		return make_shared<SpecIterator>(0);
	}
};

extern "C" {

// ---------------------------------------------------------------- C14

void h_C14_mac()
{
	vc_template((void *)sp_HL, 0);
	vc_template((void *)sp_HH, 0);
	const auto key = any_kuz_key();
	g_size = vc_case("size", 1, 16);
	g_n = vc_u64("blocks", 1, MAX_BLOCKS);
	vc_length(g_n);
	vc_reveal((void *)sp_HL, uint64_t(0));
	vc_reveal((void *)sp_HH, uint64_t(0));
	const K::Imit mac(make_shared<SpecStream>(), key);
	const u128 k1 = dbl128(kE({0, 0})), k2 = dbl128(k1);
	const u128 h = {sp_HL(g_n - 1), sp_HH(g_n - 1)};
	const u128 e = kE(kx(kx(h, block_at(g_n - 1)), g_size == 16 ? k1 : k2));
	check128(mac.value(), e, "MAC");
	vc_cover("mac");
}

void h_C14_again()
{
	vc_template((void *)sp_HL, 0);
	vc_template((void *)sp_HH, 0);
	const auto key = any_kuz_key();
	g_size = 16;
	g_n = vc_u64("blocks", 1, MAX_BLOCKS);
	vc_length(g_n);
	vc_reveal((void *)sp_HL, uint64_t(0));
	vc_reveal((void *)sp_HH, uint64_t(0));
	const K::Imit mac(make_shared<SpecStream>(), key);
	const auto a = mac.value();
	const auto b = mac.value();
	check128(a, b, "MAC taken twice");
	vc_cover("again");
}

void h_C14_empty()
{
	const auto key = any_kuz_key();
	g_n = 0;
	bool thrown = false;
	try {
		K::Imit(make_shared<SpecStream>(), key).value();
	} catch (const exception &) {
		thrown = true;
	}
	vc_check(thrown, "an empty stream is rejected");
	vc_cover("empty");
}

// ---------------------------------------------------------------- C16

void h_C16_ctr()
{
	const auto key = any_kuz_key();
	g_size = vc_u64("size", 1, 16);
	g_n = vc_u64("blocks", 0, MAX_BLOCKS);
	vc_length(g_n);
	const uint64_t iv = vc_bits64("iv");
	shared_ptr<const K::Iterator> it;
	{
		const K::StCTREncrypted st(make_shared<SpecStream>(), key, iv);
		it = st.iter();
	}
	uint64_t j = 0;
	while (it) {
		vc_check(j < g_n, "no more blocks than the stream has");
		check128(it->value(), kx(block_at(j), kE({j, iv})), "block of a CTR stream");
		vc_check(it->last() == (j + 1 == g_n), "last block");
		vc_check_eq(it->size(), j + 1 == g_n ? g_size : 16, "size of a block");
		it = it->next();
		j++;
	}
	vc_check_eq(j, g_n, "as many blocks as the stream has");
	vc_cover("ctr");
}

// advanced without looking at the blocks, then looked at repeatedly
void h_C16_jump()
{
	const auto key = any_kuz_key();
	g_size = 16;
	const uint64_t d = vc_u64("at", 0, MAX_BLOCKS);
	vc_length(d);
	g_n = MAX_BLOCKS + 2;
	const uint64_t iv = vc_bits64("iv");
	const K::StCTREncrypted st(make_shared<SpecStream>(), key, iv);
	auto it = st.iter();
	for (uint64_t j = 0; j < d; j++) {
		it = it->next();
	}
	const auto nx = it->next();
	check128(nx->value(), kx(block_at(d + 1), kE({d + 1, iv})), "next block of a CTR stream");
	check128(it->value(), kx(block_at(d), kE({d, iv})), "block reached by advancing");
	check128(it->value(), kx(block_at(d), kE({d, iv})), "the same block again");
	check128(it->next()->value(), kx(block_at(d + 1), kE({d + 1, iv})), "next block again");
	check128(st.iter()->value(), kx(block_at(0), kE({0, iv})), "first block again");
	vc_cover("jump");
}

// applied twice
void h_C16_twice()
{
	const auto key = any_kuz_key();
	g_size = vc_u64("size", 1, 16);
	g_n = vc_u64("blocks", 0, MAX_BLOCKS);
	vc_length(g_n);
	const uint64_t iv = vc_bits64("iv");
	const K::StCTREncrypted st(make_shared<K::StCTREncrypted>(make_shared<SpecStream>(), key, iv), key, iv);
	auto it = st.iter();
	uint64_t j = 0;
	while (it) {
		check128(it->value(), block_at(j), "CTR applied twice");
		vc_check(it->last() == (j + 1 == g_n), "last block");
		vc_check_eq(it->size(), j + 1 == g_n ? g_size : 16, "size of a block");
		it = it->next();
		j++;
	}
	vc_check_eq(j, g_n, "as many blocks as the stream has");
	vc_cover("twice");
}

// ---------------------------------------------------------------- C17

void h_C17_iterate()
{
	const uint64_t n = vc_u64("blocks", 0, MAX_BLOCKS);
	vc_length(n);
	shared_ptr<const K::Iterator> it, first;
	{
		vector<uint64_t> v;
		vc_fill_words(&v, uf_W, 0, 2 * n);
		const auto st = make_shared<K::StMemory>(v);
		it = st->iter();
	}
	first = it;
	uint64_t j = 0;
	while (it) {
		vc_check(j < n, "no more blocks than the stream has");
		check128(it->value(), block_at(j), "block of a memory stream");
		vc_check(it->last() == (j + 1 == n), "last block");
		vc_check_eq(it->size(), 16, "size of a block");
		it = it->next();
		j++;
	}
	vc_check_eq(j, n, "every block is visited");
	if (first) {
		check128(first->value(), block_at(0), "an earlier iterator keeps its block");
		vc_check(first->last() == (n == 1), "an earlier iterator keeps its place");
	}
	vc_cover("iterate");
}

// an iterator reached by advancing d times, the others released or kept
void h_C17_jump()
{
	const uint64_t d = vc_u64("at", 0, MAX_BLOCKS), more = vc_u64("more", 1, MAX_BLOCKS);
	const uint64_t n = d + more;
	vc_length(n);
	vector<uint64_t> v;
	vc_fill_words(&v, uf_W, 0, 2 * n);
	shared_ptr<const K::Stream> st = make_shared<K::StMemory>(v);
	auto it = st->iter();
	for (uint64_t j = 0; j < d; j++) {
		it = it->next();
	}
	vc_check(it != nullptr, "there is a block");
	const auto nx = it->next();
	st.reset();
	vc_check((nx == nullptr) == (more == 1), "nothing behind the last block");
	if (nx) {
		check128(nx->value(), block_at(d + 1), "next block");
		vc_check(nx->last() == (more == 2), "last mark of the next block");
		const auto nn = nx->next();
		vc_check((nn == nullptr) == (more == 2), "nothing behind the last block");
	}
	check128(it->value(), block_at(d), "block reached by advancing");
	vc_check(it->last() == (more == 1), "last mark");
	vc_check_eq(it->size(), 16, "size of a block");
	check128(it->value(), block_at(d), "the same block again");
	vc_cover("jump");
}

void h_C17_odd()
{
	const uint64_t n = vc_u64("blocks", 0, MAX_BLOCKS);
	vc_length(n);
	bool thrown = false;
	try {
		vector<uint64_t> v;
		vc_fill_words(&v, uf_W, 0, 2 * n + 1);
		const auto st = make_shared<K::StMemory>(v);
		for (auto it = st->iter(); it; it = it->next()) {
		}
	} catch (const exception &) {
		thrown = true;
	}
	vc_check(thrown, "an odd number of words is rejected");
	vc_cover("odd");
}

}  // extern "C"
