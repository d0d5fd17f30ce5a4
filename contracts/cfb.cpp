// C09, C11: CFB encryption.  C10, C12: CFB decryption.
#include "magma.h"
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>

using namespace std;
using namespace goost;

static const uint64_t HUGE_LEN = 1ull << 38;

// ---------------------------------------------------------------- spec
static uint64_t g_iv0, g_iv1;

// register contents: ciphertext word i is CV(i + 2) (Magma) or CG(i + 1) (GOST 28147-89)
SPEC_SEQ(sp_CV)
{
	if (j == 0) {
		return g_iv0;
	}
	if (j == 1) {
		return g_iv1;
	}
	return spe_E(sp_CV(j - 2)) ^ MW(j - 2);
}

SPEC_SEQ(sp_CG)
{
	if (j == 0) {
		return g_iv0;
	}
	return spe_E(sp_CG(j - 1)) ^ MW(j - 1);
}

// decryption: M is the ciphertext; contents of the register
SPEC_SEQ(sp_RV) { return j == 0 ? g_iv0 : j == 1 ? g_iv1 : MW(j - 2); }
SPEC_SEQ(sp_RG) { return j == 0 ? g_iv0 : MW(j - 1); }
// plaintext
SPEC_SEQ(sp_PV) { return spe_E(sp_RV(j)) ^ MW(j); }
SPEC_SEQ(sp_PG) { return spe_E(sp_RG(j)) ^ MW(j); }

// ---------------------------------------------------------------- variants
struct Magma {
	typedef magma::CFBSink CSink;
	typedef magma::CFBSource CSource;
	static const uint64_t shift = 2;
	static uint64_t (*Cfn())(uint64_t) { return sp_CV; }
	static void reveal_iv() { vc_reveal((void *)sp_CV, uint64_t(0)); vc_reveal((void *)sp_CV, uint64_t(1)); }
	static uint64_t C(uint64_t i) { return sp_CV(i + 2); }
	static void reveal(uint64_t i) { vc_reveal((void *)sp_CV, i + 2); }
	static uint64_t reg(uint64_t i) { return sp_CV(i); }
	// gamma for a last block of r bytes
	static uint64_t tail(uint64_t g, unsigned r) { return g >> (8 * (8 - r)); }
#ifndef VC_CHAIN_ONLY
	static shared_ptr<const Sink> sink(const shared_ptr<const Sink> &s, const shared_ptr<const magma::Key> &k, uint64_t q, const vector<byte> &p)
	{
		return make_shared<CSink>(s, k, sp_CV(q), sp_CV(q + 1), p);
	}
#endif
	static shared_ptr<const Sink> fresh_sink(const shared_ptr<const Sink> &s, const shared_ptr<const magma::Key> &k)
	{
		return make_shared<CSink>(s, k, g_iv0, g_iv1);
	}
	static void templ() { vc_template((void *)sp_CV, 0); vc_template((void *)sp_PV, 0); vc_template((void *)sp_RV, 0); }
	static uint64_t P(uint64_t i) { return sp_PV(i); }
	static uint64_t (*Pfn())(uint64_t) { return sp_PV; }
	static void revealP(uint64_t i) { vc_reveal((void *)sp_PV, i); vc_reveal((void *)sp_RV, i + 2); }
	static void reveal_R() { vc_reveal((void *)sp_RV, uint64_t(0)); vc_reveal((void *)sp_RV, uint64_t(1)); }
	static uint64_t R(uint64_t i) { return sp_RV(i); }
#ifndef VC_CHAIN_ONLY
	static shared_ptr<const Source> source(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k, uint64_t q, const vector<byte> &p)
	{
		return make_shared<CSource>(s, k, sp_RV(q), sp_RV(q + 1), p);
	}
#endif
#ifndef VC_CHAIN_ONLY
	static shared_ptr<const Source> ended(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k, uint64_t a, uint64_t b, const vector<byte> &p)
	{
		return make_shared<CSource>(s, k, a, b, p);
	}
#endif
	static shared_ptr<const Source> fresh_source(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k)
	{
		return make_shared<CSource>(s, k, g_iv0, g_iv1);
	}
};

struct Gost {
	typedef gost89::CFBSink CSink;
	typedef gost89::CFBSource CSource;
	static const uint64_t shift = 1;
	static uint64_t (*Cfn())(uint64_t) { return sp_CG; }
	static void reveal_iv() { vc_reveal((void *)sp_CG, uint64_t(0)); }
	static uint64_t C(uint64_t i) { return sp_CG(i + 1); }
	static void reveal(uint64_t i) { vc_reveal((void *)sp_CG, i + 1); }
	static uint64_t reg(uint64_t i) { return sp_CG(i); }
	static uint64_t tail(uint64_t g, unsigned) { return g; }
#ifndef VC_CHAIN_ONLY
	static shared_ptr<const Sink> sink(const shared_ptr<const Sink> &s, const shared_ptr<const magma::Key> &k, uint64_t q, const vector<byte> &p)
	{
		return make_shared<CSink>(s, k, sp_CG(q), p);
	}
#endif
	static shared_ptr<const Sink> fresh_sink(const shared_ptr<const Sink> &s, const shared_ptr<const magma::Key> &k)
	{
		return make_shared<CSink>(s, k, g_iv0);
	}
	static void templ() { vc_template((void *)sp_CG, 0); vc_template((void *)sp_PG, 0); vc_template((void *)sp_RG, 0); }
	static uint64_t P(uint64_t i) { return sp_PG(i); }
	static uint64_t (*Pfn())(uint64_t) { return sp_PG; }
	static void revealP(uint64_t i) { vc_reveal((void *)sp_PG, i); vc_reveal((void *)sp_RG, i + 1); }
	static void reveal_R() { vc_reveal((void *)sp_RG, uint64_t(0)); }
	static uint64_t R(uint64_t i) { return sp_RG(i); }
#ifndef VC_CHAIN_ONLY
	static shared_ptr<const Source> source(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k, uint64_t q, const vector<byte> &p)
	{
		return make_shared<CSource>(s, k, sp_RG(q), p);
	}
#endif
#ifndef VC_CHAIN_ONLY
	static shared_ptr<const Source> ended(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k, uint64_t a, uint64_t, const vector<byte> &p)
	{
		return make_shared<CSource>(s, k, a, p);
	}
#endif
	static shared_ptr<const Source> fresh_source(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k)
	{
		return make_shared<CSource>(s, k, g_iv0);
	}
};

static void setup_iv()
{
	g_iv0 = vc_bits64("iv0");
	g_iv1 = vc_bits64("iv1");
}

static vector<byte> bytes(uint8_t (*fn)(uint64_t), uint64_t start, uint64_t n)
{
	vector<byte> v;
	vc_fill_bytes(&v, fn, start, n);
	return v;
}

// ---------------------------------------------------------------- encryption

// Checks every byte that arrives against the ciphertext of the message M; a
// message of g_full whole blocks and g_rest bytes
static uint64_t g_full;
static uint64_t g_rest;

template <typename V>
class CipherSink final : public Sink {
public:
	CipherSink(uint64_t q, uint64_t r) : q(q), r(r) {}
	shared_ptr<const Sink> write(const vector<byte> &d) const override
	{
		uint64_t cq = q, cr = r;
		if (vc_longer(&d, 64)) {
			// a long write of unknown length: whole blocks only
			vc_check(cr == 0, "ciphertext starts at a block");
			vc_check_words(&d, V::Cfn(), cq + V::shift, 0, d.size(), "ciphertext");
			return make_shared<CipherSink>(cq + d.size() / 8, d.size() % 8);
		}
		for (size_t i = 0; i < d.size(); i++) {
			V::reveal(cq);
			const bool last = cq >= g_full;
			if (last) {
				vc_check(cr < g_rest, "no more bytes than the message has");
				const auto g = V::tail(spe_E(V::reg(cq)), g_rest);
				vc_check_eq(uint8_t(d[i]), uint8_t(byte_of(g, cr) ^ uf_M(8 * cq + cr)), "last block of the ciphertext");
			} else {
				vc_check_eq(uint8_t(d[i]), byte_of(V::C(cq), cr), "ciphertext");
			}
			if (++cr == 8) {
				cr = 0;
				cq++;
			}
		}
		return make_shared<CipherSink>(cq, cr);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<CipherSink>(q, r); }
	const uint64_t q, r;
};

static void check_pos(const void *s, uint64_t q, uint64_t r)
{
	struct P { const void *v; uint64_t q, r; };
	const auto p = static_cast<const P *>(s);
	vc_check_eq(p->q, q, "as many blocks as the message has");
	vc_check_eq(p->r, r, "as many bytes as the message has");
}

// one write, from any state reached after q blocks and k pending bytes
template <typename V>
static void sink_write()
{
	setup_iv();
	V::templ();
	const auto key = any_key();
	const uint64_t k = vc_case("pending", 0, 7);
	const uint64_t q = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t n = vc_u64("n", 0, HUGE_LEN);
	g_full = ~0ull;
	g_rest = 0;
	const auto s = V::sink(make_shared<CipherSink<V>>(q, 0), key, q, bytes(uf_M, 8 * q, k));
	const auto d = bytes(uf_M, 8 * q + k, n);
	const auto t = s->write(d);
	const uint64_t q2 = q + (k + n) / 8;
	const uint64_t k2 = (k + n) % 8;
	const auto e = V::sink(make_shared<CipherSink<V>>(q2, 0), key, q2, bytes(uf_M, 8 * q2, vc_concretize(k2)));
	vc_same(t.get(), e.get(), "state after a write is the one for the longer message");
	vc_cover("write returns");
}

// closing, from any such state
template <typename V>
static void sink_final()
{
	setup_iv();
	const auto key = any_key();
	const uint64_t k = vc_case("pending", 0, 7);
	const uint64_t q = vc_u64("blocks", 0, HUGE_LEN);
	g_full = q;
	g_rest = k;
	const auto s = V::sink(make_shared<CipherSink<V>>(q, 0), key, q, bytes(uf_M, 8 * q, k));
	const auto t = s->finalize();
	vc_check(t != nullptr, "closing gives a sink");
	check_pos(t.get(), q, k);
	vc_cover("finalize returns");
}

// the constructor gives the state for the empty message
template <typename V>
static void sink_init()
{
	setup_iv();
	const auto key = any_key();
	const auto s = V::fresh_sink(make_shared<CipherSink<V>>(0, 0), key);
	V::reveal_iv();
	const auto e = V::sink(make_shared<CipherSink<V>>(0, 0), key, 0, {});
	vc_same(s.get(), e.get(), "initial state");
}

// whole message in three writes and closing, without looking at states
template <typename V>
static void sink_chain()
{
	setup_iv();
	V::templ();
	V::reveal_iv();
	const auto key = any_key();
	const uint64_t a = vc_case("first", 0, 9);
	const uint64_t b = vc_case("rest", 0, 7);
	const uint64_t n = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t c = vc_case("third", 0, 2);
	const uint64_t len = 8 * n + b + c + a;
	g_full = n + (a + b + c) / 8;
	g_rest = (a + b + c) % 8;
	shared_ptr<const Sink> s = V::fresh_sink(make_shared<CipherSink<V>>(0, 0), key);
	s = s->write(bytes(uf_M, 0, a));
	s = s->write(bytes(uf_M, a, 8 * n + b));
	s = s->write(bytes(uf_M, a + 8 * n + b, c));
	s = s->finalize();
	vc_check(s != nullptr, "closing gives a sink");
	check_pos(s.get(), g_full, g_rest);
	vc_cover("chain");
}

// any number of writes of any lengths (only run natively, in the search for a failing input)
template <typename V>
static void sink_ops()
{
	setup_iv();
	const auto key = any_key();
	const uint64_t ops = vc_u64("ops", 0, 30);
	vector<uint64_t> len;
	uint64_t total = 0;
	for (uint64_t i = 0; i < ops; i++) {
		len.push_back(vc_u64("len", 0, i % 5 == 4 ? 100 : 18));
		total += len[i];
	}
	g_full = total / 8;
	g_rest = total % 8;
	shared_ptr<const Sink> s = V::fresh_sink(make_shared<CipherSink<V>>(0, 0), key);
	uint64_t p = 0;
	for (const auto n : len) {
		const auto before = s;
		const auto d = bytes(uf_M, p, n);
		s = s->write(d);
		vc_check(d == bytes(uf_M, p, n), "the data written is unchanged");
		// again, from the same object
		const auto t = before->write(d);
		s = n % 2 ? t : s;
		p += n;
	}
	for (int i = 0; i < 2; i++) {
		const auto t = s->finalize();
		vc_check(t != nullptr, "closing gives a sink");
		check_pos(t.get(), g_full, g_rest);
	}
}

extern "C" {
#ifndef VC_CHAIN_ONLY
void h_C09_write() { sink_write<Magma>(); }
void h_C09_final() { sink_final<Magma>(); }
void h_C09_init() { sink_init<Magma>(); }
void h_C11_write() { sink_write<Gost>(); }
void h_C11_final() { sink_final<Gost>(); }
void h_C11_init() { sink_init<Gost>(); }
#endif
void h_C09_chain() { sink_chain<Magma>(); }
void h_C11_chain() { sink_chain<Gost>(); }
void h_C09_ops() { sink_ops<Magma>(); }
void h_C11_ops() { sink_ops<Gost>(); }
}

// ---------------------------------------------------------------- decryption

// The ciphertext M: g_full whole blocks and g_rest bytes; hands out what is
// asked for, less only at the end
template <typename V>
class CipherSource final : public Source {
public:
	CipherSource(uint64_t q, uint64_t r) : q(q), r(r) {}
	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		if (size == 8 && r == 0) {
			if (q < g_full) {
				V::revealP(q);
				return {bytes(uf_M, 8 * q, 8), make_shared<CipherSource>(q + 1, 0)};
			}
			V::revealP(q);
			g_rest = vc_concretize(g_rest);
			return {bytes(uf_M, 8 * q, g_rest), make_shared<CipherSource>(q, g_rest)};
		}
		const uint64_t left = 8 * (g_full - q) + g_rest - r;
		const uint64_t n = size < left ? size : left;
		const uint64_t p = r + n;
		return {bytes(uf_M, 8 * q + r, n), make_shared<CipherSource>(q + p / 8, p % 8)};
	}
	const uint64_t q, r;
};

// plaintext byte r of the shorter last block
template <typename V>
static uint8_t tail_byte(unsigned r)
{
	return byte_of(V::tail(spe_E(V::R(g_full)), g_rest), r) ^ uf_M(8 * g_full + r);
}

static vector<byte> tail_bytes_from(uint8_t (*f)(unsigned), unsigned from)
{
	vector<byte> v;
	for (unsigned i = from; i < g_rest; i++) {
		v.push_back(byte(f(i)));
	}
	return v;
}

// the reader after q blocks were taken from the ciphertext, of which k bytes of plaintext are still to be given out
template <typename V>
static shared_ptr<const Source> reader(const shared_ptr<const magma::Key> &key, uint64_t q, unsigned k)
{
	vector<byte> p;
	for (unsigned i = 8 - k; i < 8; i++) {
		p.push_back(byte(byte_of(V::P(q - 1), i)));
	}
	return V::source(make_shared<CipherSource<V>>(q, 0), key, q, p);
}

// the reader when the shorter last block was taken as well
template <typename V>
static shared_ptr<const Source> last_reader(const shared_ptr<const magma::Key> &key, uint64_t ra, uint64_t rb, unsigned k)
{
	return V::ended(make_shared<CipherSource<V>>(g_full, g_rest), key, ra, rb, tail_bytes_from(tail_byte<V>, g_rest - k));
}

// a read of any size from any such state
template <typename V>
static void source_read()
{
	setup_iv();
	V::templ();
	const auto key = any_key();
	const unsigned k = unsigned(vc_case("pending", 0, 7));
	g_rest = vc_u64("rest", 0, 7);
	const uint64_t q = vc_u64("taken", k > 0 ? 1 : 0, HUGE_LEN);
	const uint64_t left = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t size = vc_u64("size", 0, 16 * HUGE_LEN);
	g_full = q + left;
	const auto s = reader<V>(key, q, k);
	const auto r = s->read(size);
	const uint64_t whole = k + 8 * left;
	const uint64_t total = whole + g_rest;
	const uint64_t n = r.first.size();
	vc_check_eq(n, size < total ? size : total, "as many bytes as asked for or left");
	vc_check(r.second != nullptr, "there is a continuation");
	if (n <= whole) {
		vc_check_words(&r.first, V::Pfn(), k > 0 ? q - 1 : q, k > 0 ? 8 - k : 0, n, "plaintext");
	} else {
		const uint64_t more = vc_concretize(n - whole);
		const uint64_t m = n - more;
		vc_check_prefix(&r.first, V::Pfn(), k > 0 ? q - 1 : q, k > 0 ? 8 - k : 0, m, "plaintext");
		for (unsigned i = 0; i < more; i++) {
			vc_check_eq(uint8_t(r.first[m + i]), tail_byte<V>(i), "last block of the plaintext");
		}
	}
	shared_ptr<const Source> e;
	if (n <= k) {
		e = reader<V>(key, q, k - unsigned(vc_concretize(n)));
	} else if (n <= whole) {
		const unsigned i = unsigned(vc_concretize((n - k) % 8));
		e = reader<V>(key, q + (n - k + 7) / 8, i ? 8 - i : 0);
	} else {
		e = last_reader<V>(key, vc_any(), vc_any(), g_rest - unsigned(vc_concretize(n - whole)));
	}
	vc_same(r.second.get(), e.get(), "state after a read is the one for the rest of the message");
	vc_cover("read returns");
}

// a read after the end of the ciphertext was reached
template <typename V>
static void source_tail()
{
	setup_iv();
	const auto key = any_key();
	g_rest = vc_case("rest", 1, 7);
	const unsigned k = unsigned(vc_case("pending", 0, 7));
	vc_assume(k <= g_rest);
	g_full = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t size = vc_u64("size", 0, 16 * HUGE_LEN);
	const auto s = last_reader<V>(key, vc_bits64("ra"), vc_bits64("rb"), k);
	const auto r = s->read(size);
	const uint64_t n = vc_concretize(size < k ? size : k);
	vc_check_eq(r.first.size(), n, "as many bytes as asked for or left");
	vc_check(r.second != nullptr, "there is a continuation");
	for (unsigned i = 0; i < n; i++) {
		vc_check_eq(uint8_t(r.first[i]), tail_byte<V>(unsigned(g_rest - k + i)), "last block of the plaintext");
	}
	const auto e = last_reader<V>(key, vc_any(), vc_any(), unsigned(k - n));
	vc_same(r.second.get(), e.get(), "state after a read is the one for the rest of the message");
	vc_cover("read at the end returns");
}

template <typename V>
static void source_init()
{
	setup_iv();
	const auto key = any_key();
	V::reveal_R();
	const auto s = V::fresh_source(make_shared<CipherSource<V>>(0, 0), key);
	const auto e = reader<V>(key, 0, 0);
	vc_same(s.get(), e.get(), "initial state");
}

// the whole message in three reads, without looking at states
template <typename V>
static void source_chain()
{
	setup_iv();
	V::templ();
	const auto key = any_key();
	const unsigned a = unsigned(vc_case("first", 0, 9));
	g_rest = vc_case("rest", 0, 7);
	g_full = vc_u64("blocks", 0, HUGE_LEN);
	const uint64_t total = 8 * g_full + g_rest;
	const uint64_t b = vc_u64("second", 0, 16 * HUGE_LEN);
	V::reveal_R();
	shared_ptr<const Source> s = V::fresh_source(make_shared<CipherSource<V>>(0, 0), key);
	uint64_t pos = 0;
	for (int i = 0; i < 3; i++) {
		const uint64_t size = i == 0 ? a : i == 1 ? b : 16 * HUGE_LEN;
		const auto r = s->read(size);
		const uint64_t n = size < total - pos ? size : total - pos;
		vc_check_eq(r.first.size(), n, "as many bytes as asked for or left");
		const uint64_t whole = pos > 8 * g_full ? 0 : 8 * g_full - pos;
		if (n <= whole) {
			vc_check_words(&r.first, V::Pfn(), pos / 8, pos % 8, n, "plaintext");
		} else {
			vc_check_prefix(&r.first, V::Pfn(), pos / 8, pos % 8, whole, "plaintext");
			for (unsigned i = 0; i < n - whole; i++) {
				vc_check_eq(uint8_t(r.first[whole + i]), tail_byte<V>(unsigned(pos + whole - 8 * g_full + i)), "last block of the plaintext");
			}
		}
		pos += n;
		s = r.second;
		vc_check(s != nullptr, "there is a continuation");
	}
	vc_cover("chain");
}

// any number of reads of any sizes (only run natively, in the search for a failing input)
template <typename V>
static void source_ops()
{
	setup_iv();
	const auto key = any_key();
	const uint64_t ops = vc_u64("ops", 0, 30);
	g_rest = vc_u64("rest", 0, 7);
	g_full = vc_u64("blocks", 0, 12);
	const uint64_t total = 8 * g_full + g_rest;
	shared_ptr<const Source> s = V::fresh_source(make_shared<CipherSource<V>>(0, 0), key);
	uint64_t pos = 0;
	for (uint64_t i = 0; i < ops; i++) {
		const uint64_t size = vc_u64("size", 0, i % 5 == 4 ? 100 : 18);
		const uint64_t n = size < total - pos ? size : total - pos;
		auto r = s->read(size);
		if (size % 2) {
			// again, from the same object
			r = s->read(size);
		}
		vc_check_eq(r.first.size(), n, "as many bytes as asked for or left");
		for (uint64_t j = 0; j < n; j++) {
			const uint64_t q = (pos + j) / 8, o = (pos + j) % 8;
			vc_check_eq(uint8_t(r.first[j]), q < g_full ? byte_of(V::P(q), o) : tail_byte<V>(unsigned(o)), "plaintext");
		}
		pos += n;
		s = r.second;
		vc_check(s != nullptr, "there is a continuation");
	}
}

extern "C" {
#ifndef VC_CHAIN_ONLY
void h_C10_read() { source_read<Magma>(); }
void h_C10_tail() { source_tail<Magma>(); }
void h_C10_init() { source_init<Magma>(); }
void h_C12_read() { source_read<Gost>(); }
void h_C12_tail() { source_tail<Gost>(); }
void h_C12_init() { source_init<Gost>(); }
#endif
void h_C10_chain() { source_chain<Magma>(); }
void h_C12_chain() { source_chain<Gost>(); }
void h_C10_ops() { source_ops<Magma>(); }
void h_C12_ops() { source_ops<Gost>(); }
}
