// C07: ECB encryption.  C08: ECB decryption.
#include "magma.h"
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>

using namespace std;
using namespace goost;
using namespace goost::magma;

static const uint64_t HUGE_LEN = 1ull << 38;

SPEC_SEQ(sp_EB) { return spe_E(MW(j)); }

static vector<byte> bytes(uint8_t (*fn)(uint64_t), uint64_t start, uint64_t n)
{
	vector<byte> v;
	vc_fill_bytes(&v, fn, start, n);
	return v;
}

// checks what arrives against the encryption of the message M, from block q on
class BlockSink final : public Sink {
public:
	BlockSink(uint64_t q, uint64_t r) : q(q), r(r) {}
	shared_ptr<const Sink> write(const vector<byte> &d) const override
	{
		uint64_t cq = q, cr = r;
		if (vc_longer(&d, 64)) {
			vc_check(cr == 0, "ciphertext starts at a block");
			vc_check_words(&d, sp_EB, cq, 0, d.size(), "ciphertext");
			return make_shared<BlockSink>(cq + d.size() / 8, d.size() % 8);
		}
		for (size_t i = 0; i < d.size(); i++) {
			vc_reveal((void *)sp_EB, cq);
			vc_check_eq(uint8_t(d[i]), byte_of(sp_EB(cq), unsigned(cr)), "ciphertext");
			if (++cr == 8) {
				cr = 0;
				cq++;
			}
		}
		return make_shared<BlockSink>(cq, cr);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<BlockSink>(q, r); }
	const uint64_t q, r;
};

static void check_pos(const shared_ptr<const Sink> &s, uint64_t q)
{
	vc_check(s != nullptr, "there is a continuation");
	const auto p = static_cast<const BlockSink *>(s.get());
	vc_check_eq(p->q, q, "as many blocks as the message has");
	vc_check_eq(p->r, 0, "no other bytes");
}

extern "C" {

// a write of whole blocks, after any number of blocks; then another one and closing
void h_C07_write()
{
	vc_template((void *)sp_EB, 0);
	const auto key = any_key();
	const uint64_t q = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t n = vc_u64("n", 0, HUGE_LEN);
	const shared_ptr<const Sink> s = make_shared<ECBSink>(make_shared<BlockSink>(q, 0), key);
	const auto d = bytes(uf_M, 8 * q, 8 * n);
	const auto t = s->write(d);
	vc_check(t != nullptr, "there is a continuation");
	// the continuation is an encryptor for the rest of the message
	const auto t2 = t->write(bytes(uf_M, 8 * (q + n), 8));
	const auto e = t2->finalize();
	check_pos(e, q + n + 1);
	vc_cover("write");
}

void h_C07_same()
{
	vc_template((void *)sp_EB, 0);
	const auto key = any_key();
	const uint64_t q = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t n = vc_u64("n", 0, HUGE_LEN);
	const shared_ptr<const Sink> s = make_shared<ECBSink>(make_shared<BlockSink>(q, 0), key);
	const auto t = s->write(bytes(uf_M, 8 * q, 8 * n));
	const shared_ptr<const Sink> e = make_shared<ECBSink>(make_shared<BlockSink>(q + n, 0), key);
	vc_same(t.get(), e.get(), "state after a write is the one for the rest of the message");
	check_pos(s->finalize(), q);
	vc_cover("same");
}

// the same, two long writes (when states cannot be compared)
void h_C07_two()
{
	vc_template((void *)sp_EB, 0);
	const auto key = any_key();
	const uint64_t n = vc_u64("n", 0, HUGE_LEN);
	const uint64_t m = vc_u64("m", 0, HUGE_LEN);
	shared_ptr<const Sink> s = make_shared<ECBSink>(make_shared<BlockSink>(0, 0), key);
	s = s->write(bytes(uf_M, 0, 8 * n));
	s = s->write(bytes(uf_M, 8 * n, 8 * m));
	check_pos(s->finalize(), n + m);
	vc_cover("two");
}

void h_C07_partial()
{
	vc_template((void *)sp_EB, 0);
	const auto key = any_key();
	const uint64_t q = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t n = vc_u64("n", 0, HUGE_LEN);
	const uint64_t r = vc_case("r", 1, 7);
	const shared_ptr<const Sink> s = make_shared<ECBSink>(make_shared<BlockSink>(q, 0), key);
	bool thrown = false;
	try {
		s->write(bytes(uf_M, 8 * q, 8 * n + r));
	} catch (const exception &) {
		thrown = true;
	}
	vc_check(thrown, "a partial block is rejected");
	vc_cover("partial");
}

}  // extern "C"

// ---------------------------------------------------------------- C08

static uint64_t g_full, g_rest;

// the ciphertext M of g_full blocks and g_rest bytes from block q on
class MessageSource final : public Source {
public:
	explicit MessageSource(uint64_t p) : p(p) {}
	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		const uint64_t left = 8 * g_full + g_rest - p;
		const uint64_t n = vc_concretize(size < left ? size : left);
		return {bytes(uf_M, p, n), make_shared<MessageSource>(p + n)};
	}
	const uint64_t p;
};

static void check_source(const shared_ptr<const Source> &s, uint64_t q)
{
	vc_check(s != nullptr, "there is a continuation");
}

extern "C" {

// a read from any block
void h_C08_read()
{
	const auto key = any_key();
	const uint64_t q = vc_u64("taken", 0, HUGE_LEN);
	const uint64_t left = vc_u64("blocks", 1, HUGE_LEN);
	const uint64_t size = vc_u64("size", 8, 16 * HUGE_LEN);
	g_full = q + left;
	g_rest = vc_case("rest", 0, 7);
	const shared_ptr<const Source> s = make_shared<ECBSource>(make_shared<MessageSource>(8 * q), key);
	for (int i = 0; i < 2; i++) {
		const auto r = s->read(size);
		vc_check_eq(r.first.size(), 8, "one block");
		const uint64_t d = spe_D(MW(q));
		for (unsigned j = 0; j < 8; j++) {
			vc_check_eq(uint8_t(r.first[j]), byte_of(d, j), "decryption of the block");
		}
		check_source(r.second, q + 1);
		if (left == 1) {
			// the next read is the last one
			bool thrown = false;
			vector<byte> x;
			try {
				x = r.second->read(8).first;
			} catch (const exception &) {
				thrown = true;
			}
			vc_check_eq(thrown, g_rest != 0, "a partial block is rejected");
			vc_check(x.empty(), "nothing behind the end");
		} else {
			const auto r2 = r.second->read(8);
			vc_check_eq(r2.first.size(), 8, "one block");
			const uint64_t d2 = spe_D(MW(q + 1));
			for (unsigned j = 0; j < 8; j++) {
				vc_check_eq(uint8_t(r2.first[j]), byte_of(d2, j), "decryption of the next block");
			}
		}
	}
	vc_cover("read");
}

void h_C08_same()
{
	const auto key = any_key();
	const uint64_t q = vc_u64("taken", 0, HUGE_LEN);
	const uint64_t left = vc_u64("blocks", 1, HUGE_LEN);
	const uint64_t size = vc_u64("size", 8, 16 * HUGE_LEN);
	g_full = q + left;
	g_rest = vc_case("rest", 0, 7);
	const shared_ptr<const Source> s = make_shared<ECBSource>(make_shared<MessageSource>(8 * q), key);
	const auto r = s->read(size);
	const shared_ptr<const Source> e = make_shared<ECBSource>(make_shared<MessageSource>(8 * (q + 1)), key);
	vc_same(r.second.get(), e.get(), "state after a read is the one for the rest of the message");
	vc_cover("same");
}

void h_C08_end()
{
	const auto key = any_key();
	const uint64_t q = vc_u64("taken", 0, HUGE_LEN);
	const uint64_t size = vc_u64("size", 8, 16 * HUGE_LEN);
	g_full = q;
	g_rest = vc_case("rest", 0, 7);
	const shared_ptr<const Source> s = make_shared<ECBSource>(make_shared<MessageSource>(8 * q), key);
	bool thrown = false;
	try {
		const auto r = s->read(size);
		vc_check(r.first.empty(), "nothing behind the end");
	} catch (const exception &) {
		thrown = true;
	}
	vc_check_eq(thrown, g_rest != 0, "exactly a partial block is rejected");
	vc_cover("end");
}

void h_C08_short()
{
	const auto key = any_key();
	const uint64_t q = vc_u64("taken", 0, HUGE_LEN);
	g_full = q + vc_u64("blocks", 0, HUGE_LEN);
	g_rest = vc_case("rest", 0, 7);
	const uint64_t size = vc_case("size", 0, 7);
	const shared_ptr<const Source> s = make_shared<ECBSource>(make_shared<MessageSource>(8 * q), key);
	bool thrown = false;
	try {
		s->read(size);
	} catch (const exception &) {
		thrown = true;
	}
	vc_check(thrown, "a read of less than a block is rejected");
	vc_cover("short");
}

}  // extern "C"

class AnyContainer final : public Container {
public:
	vector<byte> key() const override { return bytes(uf_C, 0, 32); }
	vector<byte> mask() const override { return bytes(uf_C, 32, 32); }
	vector<byte> sbox() const override { return bytes(uf_T, 0, 64); }
};

// eight big-endian subkeys, packed table, rotation
static uint32_t container_round(uint32_t v, uint64_t i)
{
	const uint32_t k = uint32_t(uf_C(4 * i)) << 24 | uint32_t(uf_C(4 * i + 1)) << 16 | uint32_t(uf_C(4 * i + 2)) << 8 | uf_C(4 * i + 3);
	const uint32_t x = v + k;
	uint32_t r = 0;
	for (int j = 0; j < 4; j++) {
		const uint8_t b = uint8_t(x >> (8 * j));
		r |= uint32_t((uf_T(4 * (b >> 4) + j) & 0xf0) | (uf_T(4 * (b & 15) + j) & 0x0f)) << (8 * j);
	}
	return r << 11 | r >> 21;
}

extern "C" {

// the key made from a container has the container's round function
static void probe(const Key *k)
{
	const uint32_t v = vc_bits32("v");
	for (int i = 0; i < 8; i++) {
		vc_check_eq(k->transform(v, i), container_round(v, i), "round function of a container");
	}
	vc_cover("container");
}

void h_C08_container()
{
	g_full = 1;
	g_rest = 0;
	g_probe = probe;
	const ECBSource s(make_shared<MessageSource>(0), make_shared<AnyContainer>());
	const auto r = s.read(8);
	vc_check_eq(r.first.size(), 8, "one block");
	const uint64_t d = vc_symbolic() ? spe_D(MW(0)) : magma_net(MW(0), container_round, true);
	for (unsigned j = 0; j < 8; j++) {
		vc_check_eq(uint8_t(r.first[j]), byte_of(d, j), "decryption with the key of a container");
	}
	vc_cover("container_read");
}

}  // extern "C"
