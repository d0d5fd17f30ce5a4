// C19: what an operation may change (nothing that existed before it), C20: no
// invalid access or arithmetic, C21: bounded stack and heap.  One harness per
// operation, on an arbitrary reachable object; no values are specified here.
#include "magma.h"
#include "kuz.h"
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>

using namespace std;
using namespace goost;

static const uint64_t HUGE_LEN = 1ull << 38;
static const uint64_t DEPTH = 400;	// nested calls, whatever the length

static uint64_t g_len;		// bytes of the message
static uint64_t g_heap;		// native: objects alive when the operation started

static void no_growth()
{
	if (!vc_symbolic()) {
		vc_check(vc_heap() <= g_heap + 200, "the number of living objects does not depend on the length");
	}
}

static vector<byte> bytes(uint64_t start, uint64_t n)
{
	vector<byte> v;
	vc_fill_bytes(&v, uf_M, start, n);
	return v;
}

// swallows everything
class USink final : public Sink {
public:
	shared_ptr<const Sink> write(const vector<byte> &) const override
	{
		no_growth();
		return make_shared<USink>();
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<USink>(); }
};

// gives g_len bytes
class USource final : public Source {
public:
	explicit USource(uint64_t p) : p(p) {}
	pair<vector<byte>, shared_ptr<const Source>> read(size_t size) const override
	{
		no_growth();
		const uint64_t left = g_len - p;
		const uint64_t n = vc_concretize(size < left ? size : left);
		return {bytes(p, n), make_shared<USource>(p + n)};
	}
	const uint64_t p;
};

class UIterator final : public K::Iterator {
public:
	explicit UIterator(uint64_t j) : j(j) {}
	u128 value() const override
	{
		no_growth();
		return {uf_W(2 * j), uf_W(2 * j + 1)};
	}
	bool last() const override { return j + 1 == g_len; }
	size_t size() const override { return j + 1 == g_len ? 5 : 16; }
	shared_ptr<const K::Iterator> next() const override
	{
		no_growth();
		if (j + 1 == g_len) {
			return {};
		}
		return make_shared<UIterator>(j + 1);
	}
	const uint64_t j;
};

class UStream final : public K::Stream {
public:
	shared_ptr<const K::Iterator> iter() const override
	{
		if (g_len == 0) {
			return {};
		}
		return make_shared<UIterator>(0);
	}
};

#ifdef VC_SHARE
// C22: the operation, while other threads may do the same with the same objects
template <typename F>
static void use(const char *label, const F &f)
{
	vc_share_begin();
	f();
	vc_share_end(label);
	vc_cover(label);
}
#else
template <typename F>
static void use(const char *label, const F &f)
{
	vc_option("heap", 1);
	vc_depth_limit();
	g_heap = vc_heap();
	vc_frame_begin();
	f();
	vc_frame_end(label);
	vc_depth_check(DEPTH, "nested calls are bounded");
	vc_cover(label);
}
#endif

template <typename F>
static void limited(const F &f)
{
	vc_option("heap", 1);
	vc_depth_limit();
	g_heap = vc_heap();
	f();
	vc_depth_check(DEPTH, "nested calls are bounded");
	vc_cover("limited");
}

template <typename F>
static void framed(const char *label, const F &f)
{
#ifdef VC_SHARE
	vc_share_begin();
	f();
	vc_share_end(label);
#else
	vc_frame_begin();
	f();
	vc_frame_end(label);
#endif
}

static uint64_t length(const char *name, uint64_t lo = 0, uint64_t hi = HUGE_LEN)
{
	const uint64_t n = vc_u64(name, lo, hi);
	vc_length(n / 8);
	return n;
}

// ---------------------------------------------------------------- sinks
static shared_ptr<const Sink> mcfb_sink() { const auto k = any_key(); return make_shared<magma::CFBSink>(make_shared<USink>(), k, vc_bits64("iv0"), vc_bits64("iv1")); }
static shared_ptr<const Sink> gcfb_sink() { const auto k = any_key(); return make_shared<gost89::CFBSink>(make_shared<USink>(), k, vc_bits64("iv0")); }
static shared_ptr<const Sink> ecb_sink() { const auto k = any_key(); return make_shared<magma::ECBSink>(make_shared<USink>(), k); }

// every register content and pending bytes
static void sink_write(const shared_ptr<const Sink> &s0)
{
	const auto s = s0->write(bytes(0, vc_case("pending", 0, 7)));
	const auto d = bytes(8, length("n"));
	use("write", [&]{ s->write(d); });
}

static void sink_final(const shared_ptr<const Sink> &s0)
{
	const auto s = s0->write(bytes(0, vc_case("pending", 0, 7)));
	use("finalize", [&]{ s->finalize(); });
}

static void sink_many(shared_ptr<const Sink> s, uint64_t a, uint64_t b)
{
	const uint64_t n = vc_u64("writes", 0, HUGE_LEN);
	vc_length(n);
	const auto x = bytes(0, a), y = bytes(3, b);
	limited([&]{
		for (uint64_t i = 0; i < n; i++) {
			s = s->write(x);
			s = s->write(y);
		}
		s->finalize();
	});
}

// ---------------------------------------------------------------- sources
static shared_ptr<const Source> mcfb_source() { const auto k = any_key(); return make_shared<magma::CFBSource>(make_shared<USource>(0), k, vc_bits64("iv0"), vc_bits64("iv1")); }
static shared_ptr<const Source> gcfb_source() { const auto k = any_key(); return make_shared<gost89::CFBSource>(make_shared<USource>(0), k, vc_bits64("iv0")); }

static void source_read(const shared_ptr<const Source> &s0)
{
	const uint64_t k = vc_case("pending", 0, 7);
	const uint64_t rest = vc_u64("rest", 0, 7);
	g_len = 8 * length("blocks", k > 0 ? 1 : 0) + rest;
	const auto s = k > 0 ? s0->read(8 - k).second : s0;
	const uint64_t n = length("size", 0, 16 * HUGE_LEN);
	use("read", [&]{ s->read(n); });
}

// what is left of a shorter last block
static void source_tail(const shared_ptr<const Source> &s0)
{
	const uint64_t rest = vc_case("rest", 1, 7);
	g_len = rest;
	const auto s = s0->read(vc_concretize(vc_u64("taken", 1, rest))).second;
	const uint64_t n = length("size", 0, 16 * HUGE_LEN);
	use("read", [&]{ s->read(n); });
}

static void source_many(shared_ptr<const Source> s, uint64_t a, uint64_t b)
{
	const uint64_t n = vc_u64("reads", 0, HUGE_LEN);
	vc_length(n);
	g_len = 8 * HUGE_LEN + 64;
	limited([&]{
		for (uint64_t i = 0; i < n; i++) {
			s = s->read(a).second;
			s = s->read(b).second;
		}
	});
}

class AnyContainer final : public magma::Container {
public:
	vector<byte> key() const override { return bytes(0, 32); }
	vector<byte> mask() const override { return bytes(32, 32); }
	vector<byte> sbox() const override { return bytes(64, 64); }
};

template <typename F>
static bool thrown(const F &f)
{
	try {
		f();
	} catch (const exception &) {
		return true;
	}
	return false;
}

static shared_ptr<const magma::Block> mblock() { return make_shared<AnyBlock>(vc_bits32("l"), vc_bits32("h")); }
static shared_ptr<const K::Block> kblock() { return make_shared<KuzBlock>(any128("x0", "x1")); }

static string text(uint64_t n)
{
	string s;
	vc_make_string(&s, uf_C, n);
	return s;
}

static vector<int> table(unsigned k)
{
	vector<int> v;
	for (unsigned i = 0; i < 16; i++) {
		v.push_back(int(uf_T(16 * k + i) & 15));
	}
	return v;
}

extern "C" {

void h_U_mcfbw() { sink_write(mcfb_sink()); }
void h_U_gcfbw() { sink_write(gcfb_sink()); }
void h_U_mcfbf() { sink_final(mcfb_sink()); }
void h_U_gcfbf() { sink_final(gcfb_sink()); }
void h_U_mcfbm() { sink_many(mcfb_sink(), 3, 5); }
void h_U_gcfbm() { sink_many(gcfb_sink(), 3, 5); }
void h_U_mcfbm8() { sink_many(mcfb_sink(), 8, 16); }
void h_U_gcfbm8() { sink_many(gcfb_sink(), 8, 16); }
void h_U_ecbm() { sink_many(ecb_sink(), 8, 16); }

void h_U_ecbw()
{
	const auto s = ecb_sink();
	const auto d = bytes(0, 8 * length("n"));
	use("write", [&]{ s->write(d); });
}

void h_U_ecbp()
{
	const auto s = ecb_sink();
	const auto d = bytes(0, 8 * length("n") + vc_case("r", 1, 7));
	use("write", [&]{ vc_check(thrown([&]{ s->write(d); }), "a partial block is rejected"); });
}

void h_U_ecbf()
{
	const auto s = ecb_sink();
	use("finalize", [&]{ s->finalize(); });
}

void h_U_mcfbr() { source_read(mcfb_source()); }
void h_U_gcfbr() { source_read(gcfb_source()); }
void h_U_mcfbt() { source_tail(mcfb_source()); }
void h_U_gcfbt() { source_tail(gcfb_source()); }
void h_U_mcfbn() { source_many(mcfb_source(), 3, 5); }
void h_U_gcfbn() { source_many(gcfb_source(), 3, 5); }
void h_U_mcfbn8() { source_many(mcfb_source(), 8, 16); }
void h_U_gcfbn8() { source_many(gcfb_source(), 8, 16); }

void h_U_ecbr()
{
	const auto k = any_key();
	const magma::ECBSource s(make_shared<USource>(0), k);
	g_len = vc_u64("len", 0, HUGE_LEN);
	const uint64_t n = vc_u64("size", 0, 16 * HUGE_LEN);
	use("read", [&]{ thrown([&]{ s.read(n); }); });
}

void h_U_ecbn()
{
	const auto k = any_key();
	shared_ptr<const Source> s = make_shared<magma::ECBSource>(make_shared<USource>(0), k);
	const uint64_t n = vc_u64("reads", 0, HUGE_LEN);
	vc_length(n);
	g_len = 8 * HUGE_LEN + 64;
	limited([&]{
		for (uint64_t i = 0; i < n; i++) {
			s = s->read(8).second;
		}
	});
}

// a container makes a key, which is used; the container is not changed
void h_U_ecbc()
{
	g_len = 24;
	const auto c = make_shared<const AnyContainer>();
	const auto u = make_shared<USource>(0);
	use("read with a container", [&]{
		const magma::ECBSource s(u, c);
		s.read(8);
	});
}

// ---------------------------------------------------------------- MACs
void h_U_mmac()
{
	const auto key = any_lazy_key();
	const uint64_t rest = vc_case("rest", 0, 7);
	g_len = 8 * length("blocks") + rest;
	const magma::Imit m(make_shared<USource>(0), key);
	use("value of the MAC", [&]{ m.value(); });
}

void h_U_gmac()
{
	const auto key = any_lazy_key();
	const uint64_t n = vc_case("rest", 0, 7) + 8 * length("blocks", 2);
	vector<uint8_t> d;
	vc_fill_bytes(&d, uf_M, 0, n);
	const gost89::DataImit m(d, key);
	use("value of the MAC", [&]{ m.value(); });
}

void h_U_gmacs()
{
	const auto key = any_lazy_key();
	vector<uint8_t> d;
	vc_fill_bytes(&d, uf_M, 0, vc_case("n", 0, 15));
	const gost89::DataImit m(d, key);
	use("value of the MAC", [&]{ m.value(); });
}

void h_U_kmac()
{
	const auto key = any_kuz_key();
	g_len = length("blocks", 1);
	const K::Imit m(make_shared<UStream>(), key);
	use("value of the MAC", [&]{ m.value(); });
}

void h_U_kmac0()
{
	const auto key = any_kuz_key();
	g_len = 0;
	const K::Imit m(make_shared<UStream>(), key);
	use("value of the MAC", [&]{ vc_check(thrown([&]{ m.value(); }), "an empty stream is rejected"); });
}

// ---------------------------------------------------------------- streams
void h_U_ctr()
{
	const auto key = any_kuz_key();
	g_len = length("blocks");
	const K::StCTREncrypted st(make_shared<UStream>(), key, vc_bits64("iv"));
	shared_ptr<const K::Iterator> it;
	use("first block", [&]{ st.iter(); });
	it = st.iter();
	limited([&]{
		while (it) {
			framed("use of a block of a CTR stream", [&]{
				it->value();
				it->last();
				it->size();
				it->next();
			});
			it = it->next();
		}
	});
}

void h_U_ctrn()
{
	const auto key = any_kuz_key();
	const uint64_t n = vc_u64("blocks", 0, HUGE_LEN);
	vc_length(n);
	g_len = HUGE_LEN + 2;
	const K::StCTREncrypted st(make_shared<UStream>(), key, vc_bits64("iv"));
	auto it = st.iter();
	limited([&]{
		for (uint64_t i = 0; i < n; i++) {
			it = it->next();
		}
		it->value();
	});
}

void h_U_mem()
{
	const uint64_t n = length("blocks");
	vector<uint64_t> v;
	vc_fill_words(&v, uf_W, 0, 2 * n);
	const auto st = make_shared<K::StMemory>(v);
	use("first block", [&]{ st->iter(); });
	shared_ptr<const K::Iterator> it = st->iter();
	limited([&]{
		while (it) {
			framed("use of a block of a memory stream", [&]{
				it->value();
				it->last();
				it->size();
				it->next();
			});
			it = it->next();
		}
	});
}

// the stream is released first
void h_U_memr()
{
	const uint64_t n = length("blocks", 1);
	shared_ptr<const K::Iterator> it;
	{
		vector<uint64_t> v;
		vc_fill_words(&v, uf_W, 0, 2 * n);
		it = make_shared<K::StMemory>(v)->iter();
	}
	limited([&]{
		while (it) {
			it = it->next();
		}
	});
}

void h_U_memodd()
{
	const uint64_t n = length("blocks");
	vector<uint64_t> v;
	vc_fill_words(&v, uf_W, 0, 2 * n + 1);
	const auto st = make_shared<K::StMemory>(v);
	use("first block", [&]{ vc_check(thrown([&]{ for (auto i = st->iter(); i; i = i->next()) {} }), "an odd number of words is rejected"); });
}

// ---------------------------------------------------------------- blocks, keys, substitutions
void h_U_mblocks()
{
	const auto key = any_key();
	const auto a = mblock(), b = mblock();
	const magma::BlkXored x(a, b);
	const int n = int(vc_u64("n", 1, 31));
	const magma::BlkShifted s(a, n);
	const magma::BlkSwapped w(a);
	const magma::BlkRaw r(a);
	const magma::BlkEncrypted e(a, key);
	const magma::BlkDecrypted d(a, key);
	const magma::EncryptionBase t(key);
	const uint64_t v = vc_bits64("v");
	use("value of a block", [&]{
		x.value();
		s.value();
		w.value();
		r.value();
		e.value();
		d.value();
		t.transform(v);
	});
}

void h_U_mraw()
{
	const auto m = bytes(0, 8);
	vector<uint8_t> u;
	vc_fill_bytes(&u, uf_M, 0, 8);
	const auto p = make_pair(vc_bits32("l"), vc_bits32("h"));
	use("making a block", [&]{
		magma::BlkRaw(&m[0]).value();
		magma::BlkRaw(u).value();
		magma::BlkRaw(p).value();
		magma::BlkRaw().value();
	});
}

void h_U_mstring()
{
	const magma::BlkString b(text(vc_case("n", 0, 16)));
	use("value of a text", [&]{ thrown([&]{ b.value(); }); });
}

void h_U_kstring()
{
	const K::BlkString b(text(vc_case("n", 0, 32)));
	use("value of a text", [&]{ thrown([&]{ b.value(); }); });
}

void h_U_kblocks()
{
	const auto a = kblock(), b = kblock();
	const K::BlkXored x(a, b);
	const int n = int(vc_u64("n", 1, 63));
	const K::BlkShifted s(a, n);
	const K::BlkIncremented i(a);
	const K::BlkRaw r(a);
	const K::BlkR rr(a);
	const K::BlkL l(a);
	const K::BlkS ss(a);
	const vector<uint64_t> m{1, 2};
	use("value of a block", [&]{
		x.value();
		s.value();
		i.value();
		r.value();
		rr.value();
		l.value();
		ss.value();
		K::BlkRaw(&m[0]).value();
	});
}

// a key that was used before is not changed by using it
void h_U_kkey()
{
	const auto key = any_kuz_key();
	const auto a = kblock();
#ifndef VC_SHARE
	key->encrypt(a)->value();
#endif
	const K::BlkEncrypted e(a, key);
	use("use of a key", [&]{ e.value(); });
}

void h_U_keys()
{
	const uint32_t v = vc_bits32("v");
	const int i = int(vc_u64("i", 0, 7));
	vector<uint32_t> kd(8);
	for (unsigned j = 0; j < 8; j++) {
		kd[j] = uf_K(j);
	}
	const magma::LazyKey n(kd, make_shared<magma::SboxR3412>());
	vector<uint8_t> p;
	vc_fill_bytes(&p, uf_T, 0, 64);
	const magma::LazyKey q(kd, make_shared<magma::SboxTwisted>(make_unique<magma::SboxByte>(p)));
	const magma::LazyKey r(kd, make_shared<magma::SboxNibble>(table(0), table(1), table(2), table(3), table(4), table(5), table(6), table(7)));
	use("use of a key", [&]{
		n.transform(v, i);
		q.transform(v, i);
		r.transform(v, i);
	});
}

void h_U_mtext()
{
	const uint64_t c = vc_case("i", 0, 7);
	const int i = int(c);
	const magma::KeyDataString k(text(vc_u64("n", 0, HUGE_LEN)));
	use("use of key data", [&]{ thrown([&]{ k.key(i); }); });
}

void h_U_ktext()
{
	const K::KeyDataString k(text(vc_u64("n", 0, HUGE_LEN)));
	use("use of key data", [&]{
		thrown([&]{ k.high()->value(); });
		thrown([&]{ k.low()->value(); });
	});
}

void h_U_imited()
{
	const auto key = any_lazy_key();
	const gost89::ImitedBlock b(magma::BlkRaw(vc_bits32("l"), vc_bits32("h")), key);
	use("value of a block", [&]{ b.value(); });
}

}  // extern "C"
