// C13: Magma MAC.  C15: GOST 28147-89 imitovstavka.
#include "magma.h"
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/Imit.h>

using namespace std;
using namespace goost;

static const uint64_t HUGE_LEN = 1ull << 38;

static uint64_t g_full, g_rest;		// the message: whole blocks and further bytes

// the chain of a MAC: H(0) = 0, H(j + 1) = E(H(j) ^ block j)
SPEC_SEQ(sp_H) { return j == 0 ? 0 : spe_EL(sp_H(j - 1) ^ MW(j - 1)); }

class MessageSource final : public Source {
public:
	explicit MessageSource(uint64_t p) : p(p) {}
	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		const uint64_t left = 8 * g_full + g_rest - p;
		const uint64_t n = vc_concretize(size < left ? size : left);
		// blocks may be read ahead
		vc_reveal((void *)sp_H, p / 8);
		if (n == 8) {
			vc_reveal((void *)sp_H, p / 8 + 1);
		}
		vector<byte> v;
		vc_fill_bytes(&v, uf_M, p, n);
		return {v, make_shared<MessageSource>(p + n)};
	}
	const uint64_t p;
};

// expected MAC of the message
static uint64_t expected()
{
	const uint64_t k1 = dbl64(spe_EL(0)), k2 = dbl64(k1);
	if (g_rest == 0 && g_full > 0) {
		return spe_EL(sp_H(g_full - 1) ^ MW(g_full - 1) ^ k1);
	}
	// the message, a one bit and zeros
	const unsigned r = unsigned(g_rest);
	const uint64_t p = (MT(g_full, r) << 8 | 0x80) << (8 * (7 - r));
	return spe_EL(sp_H(g_full) ^ p ^ k2);
}

static void mac(uint64_t lo)
{
	vc_template((void *)sp_H, 0);
	const auto key = any_lazy_key();
	vc_reveal((void *)sp_H, uint64_t(0));
	g_full = vc_u64("blocks", lo, HUGE_LEN);
	vc_length(g_full);
	const magma::Imit m(make_shared<MessageSource>(0), key);
	vc_check_eq(word(m.value()), expected(), "MAC");
	vc_cover("mac");
}

extern "C" {

void h_C13_whole()
{
	g_rest = 0;
	mac(1);
}

void h_C13_rest()
{
	g_rest = vc_case("rest", 1, 7);
	mac(0);
}

void h_C13_empty()
{
	const auto key = any_lazy_key();
	g_rest = g_full = 0;
	vc_reveal((void *)sp_H, uint64_t(0));
	const magma::Imit m(make_shared<MessageSource>(0), key);
	vc_check_eq(word(m.value()), expected(), "MAC of the empty message");
	vc_check_eq(word(m.value()), expected(), "MAC of the empty message again");
	vc_cover("empty");
}

void h_C13_again()
{
	vc_template((void *)sp_H, 0);
	const auto key = any_lazy_key();
	g_rest = vc_case("rest", 0, 1);
	vc_reveal((void *)sp_H, uint64_t(0));
	g_full = vc_u64("blocks", 1, HUGE_LEN);
	vc_length(g_full);
	const magma::Imit m(make_shared<MessageSource>(0), key);
	const auto a = m.value();
	vc_check(a == m.value(), "MAC taken twice");
	vc_cover("again");
}

}  // extern "C"

// ---------------------------------------------------------------- C15

// state after j whole blocks of the message
SPEC_SEQ(sp_J) { return j == 0 ? 0 : spe_I(sp_J(j - 1) ^ MW(j - 1)); }

static vector<uint8_t> message(uint64_t n)
{
	vector<uint8_t> v;
	vc_fill_bytes(&v, uf_M, 0, n);
	return v;
}

// the padded message must not be shorter than two blocks
static uint64_t imit(uint64_t full, unsigned rest)
{
	uint64_t s = sp_J(full), blocks = full;
	if (rest > 0) {
		s = spe_I(s ^ MT(full, rest));
		blocks++;
	}
	for (; blocks < 2; blocks++) {
		s = spe_I(s);
	}
	return s;
}

static void check_imit(const vector<uint8_t> &v, uint64_t e)
{
	vc_check_eq(v.size(), 8, "eight bytes");
	for (unsigned i = 0; i < 8; i++) {
		vc_check_eq(v[i], byte_of(e, i), "imitovstavka");
	}
}

static uint64_t g_done;

#ifndef VC_NATIVE
// contract of ImitedBlock: sixteen rounds
extern "C" {

void vcp__ZN5goost6gost8911ImitedBlockC2ERKNS_5magma6BlkRawERKSt10shared_ptrIKNS2_7LazyKeyEE(
	const gost89::ImitedBlock *self, const magma::BlkRaw &b, const shared_ptr<const magma::LazyKey> &k)
{
	vc_ghost_set(self, 0, word(b.value()));
	vc_ghost_set(self, 1, reinterpret_cast<uint64_t>(k.get()));
}

magma::BlkRaw vcr__ZNK5goost6gost8911ImitedBlock5valueEv(const gost89::ImitedBlock *self)
{
	vc_check(vc_ghost(self, 1) == reinterpret_cast<uint64_t>(static_cast<const magma::LazyKey *>(g_key)), "contract: the key of the caller is used");
	// blocks done so far, for the chain
	vc_reveal((void *)sp_J, g_done);
	g_done++;
	vc_reveal((void *)sp_J, g_done);
	return magma::BlkRaw(spe_I(vc_ghost(self, 0)));
}

}  // extern "C"
#endif

extern "C" {

void h_C15_block()
{
	const auto key = any_lazy_key();
	const uint64_t x = vc_bits64("x");
	const gost89::ImitedBlock b(magma::BlkRaw(x), key);
	vc_check_eq(word(b.value().value()), spe_I(x), "sixteen rounds");
	vc_check_eq(word(b.value().value()), spe_I(x), "sixteen rounds the second time");
	vc_cover("block");
}

void h_C15_short()
{
	const auto key = any_lazy_key();
	const unsigned n = unsigned(vc_case("n", 0, 15));
	for (uint64_t j = 0; j <= n / 8; j++) {
		vc_reveal((void *)sp_J, j);
	}
	const gost89::DataImit d(message(n), key);
	check_imit(d.value(), imit(n / 8, n % 8));
	check_imit(d.value(), imit(n / 8, n % 8));
	vc_cover("short");
}

void h_C15_long()
{
	vc_template((void *)sp_J, 0);
	g_done = 0;
	const auto key = any_lazy_key();
	const unsigned r = unsigned(vc_case("rest", 0, 7));
	const uint64_t q = vc_u64("blocks", 2, HUGE_LEN);
	vc_reveal((void *)sp_J, uint64_t(0));
	const gost89::DataImit d(message(8 * q + r), key);
	check_imit(d.value(), imit(q, r));
	vc_cover("long");
}

}  // extern "C"
