// C22: keys that threads share.  Between vc_share_begin and vc_share_end every
// access to what existed before is recorded with the locks held; two accesses
// of which one writes must have a lock in common or be atomic, whichever
// threads make them.  The operations above the key are those of use.cpp.
#include "magma.h"
#include "kuz.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/SboxR3412.h>
#ifdef VC_NATIVE
#include <atomic>
#include <functional>
#include <thread>
#endif

using namespace std;
using namespace goost;

#ifndef VC_NATIVE
// what another thread does where it may come in between: at the latest when a
// lock is released
enum { NOTHING, SUBKEY, CACHED };
static uint64_t g_other;
static const magma::KeyData *g_data;
static const K::Block *g_block;
static u128 g_value;

static void other()
{
	if (g_other == SUBKEY) {
		const uint64_t i = vc_case("subkey of the other thread", 0, 7);
		vc_check_eq(g_data->key(int(i)), uf_K(i), "subkey another thread gets meanwhile");
	}
	if (g_other == CACHED) {
		const auto v = g_block->value();
		vc_check_eq(v.first, g_value.first, "low half another thread gets meanwhile");
		vc_check_eq(v.second, g_value.second, "high half another thread gets meanwhile");
	}
}

static void meanwhile()
{
	if (g_other == NOTHING || vc_ghost(&g_other, 0)) {
		return;
	}
	if (vc_case("another thread comes in", 0, 1)) {
		vc_ghost_set(&g_other, 0, 1);
		other();
		vc_cover("another thread came in");
	}
}

extern "C" {

int vcr_pthread_mutex_lock(void *m)
{
	vc_lock(m);
	return 0;
}

int vcr_pthread_mutex_unlock(void *m)
{
	vc_unlock(m);
	meanwhile();
	return 0;
}

void h_C22_subkeys()
{
	const auto k = make_shared<magma::KeyCachedData>(make_unique<AnyKeyData>());
	const uint64_t i = vc_case("i", 0, 7), j = vc_case("j", 0, 7);
	g_data = k.get();
	g_other = SUBKEY;
	vc_ghost_set(&g_other, 0, 0);
	vc_share_begin();
	meanwhile();
	vc_check_eq(k->key(int(i)), uf_K(i), "first use");
	vc_check_eq(k->key(int(j)), uf_K(j), "second use");
	vc_share_end("use of key data");
	vc_cover("subkeys");
}

void h_C22_block()
{
	g_value = any128("x0", "x1");
	const auto b = make_shared<K::BlkCached>(make_shared<KuzBlock>(g_value));
	g_block = b.get();
	g_other = CACHED;
	vc_ghost_set(&g_other, 0, 0);
	vc_share_begin();
	meanwhile();
	for (int n = 0; n < 2; n++) {
		const auto v = b->value();
		vc_check_eq(v.first, g_value.first, "low half");
		vc_check_eq(v.second, g_value.second, "high half");
	}
	vc_share_end("use of a cached block");
	vc_cover("block");
}

// operations on a key that was never used
void h_C22_magma()
{
	g_other = NOTHING;
	const auto key = make_shared<magma::LazyKey>(
		unique_ptr<const magma::KeyData>(make_unique<magma::KeyCachedData>(make_unique<AnyKeyData>())),
		make_shared<AnySbox>()
	);
	const auto a = make_shared<AnyBlock>(vc_bits32("l"), vc_bits32("h"));
	const uint64_t w = vc_bits64("w");
	const auto e = make_shared<magma::BlkEncrypted>(a, key);
	const auto d = make_shared<magma::BlkDecrypted>(a, key);
	const auto i = make_shared<gost89::ImitedBlock>(magma::BlkRaw(a->value()), key);
	const unsigned n = unsigned(vc_case("operation", 0, 3));
	vc_share_begin();
	for (int x = 0; x < 2; x++) {
		if (n == 0) {
			e->value();
		} else if (n == 1) {
			d->value();
		} else if (n == 2) {
			i->value();
		} else {
			magma::EncryptionBase(key).transform(w);
		}
	}
	vc_share_end("use of a key");
	vc_cover("magma");
}

// block ciphers are opaque here, but not the caches of the key
void h_C22_kuz()
{
	g_other = NOTHING;
	const auto key = any_kuz_key();
	const auto a = make_shared<KuzBlock>(any128("x0", "x1"));
	vc_share_begin();
	for (int x = 0; x < 2; x++) {
		key->encrypt(a)->value();
	}
	vc_share_end("use of a key");
	vc_cover("kuz");
}

}  // extern "C"

#else

typedef vector<byte> Bytes;
typedef vector<uint64_t> Seen;
typedef function<Seen()> Use;

namespace {

class Words final : public magma::KeyData {
public:
	explicit Words(const array<uint32_t, 8> &w) : w(w) {}
	uint32_t key(int i) const override
	{
		this_thread::yield();  // others come in while a key is loaded
		return w.at(i);
	}
private:
	const array<uint32_t, 8> w;
};

void append(Seen &s, const Bytes &d)
{
	s.push_back(d.size());
	for (const auto b : d) {
		s.push_back(uint8_t(b));
	}
}

class Slow final : public K::Block {
public:
	explicit Slow(const u128 &v) : v(v) {}
	pair<uint64_t, uint64_t> value() const override
	{
		this_thread::yield();
		return {v.first, v.second};
	}
private:
	const u128 v;
};

class Collect final : public Sink {
public:
	explicit Collect(const shared_ptr<Bytes> &to) : to(to) {}
	shared_ptr<const Sink> write(const Bytes &d) const override
	{
		to->insert(to->end(), d.begin(), d.end());
		return make_shared<Collect>(to);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<Collect>(to); }
private:
	const shared_ptr<Bytes> to;
};

class Give final : public Source {
public:
	explicit Give(const Bytes &d) : d(d) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t n) const override
	{
		n = min(n, d.size());
		return {Bytes(d.begin(), d.begin() + n), make_shared<Give>(Bytes(d.begin() + n, d.end()))};
	}
private:
	const Bytes d;
};

Bytes data(uint64_t n)
{
	Bytes d;
	vc_fill_bytes(&d, uf_M, 0, n);
	return d;
}

string text()
{
	string s;
	for (unsigned i = 0; i < 64; i++) {
		s += "0123456789abcdefABCDEF"[uf_C(i) % 22];
	}
	return s;
}

// the same uses alone, with a key of their own, and by threads that share one
void compare(const function<vector<Use>()> &make)
{
	vector<Seen> alone;
	const size_t n = make().size();
	for (size_t i = 0; i < n; i++) {
		alone.push_back(make()[i]());
	}
	const auto uses = make();
	vector<Seen> got(2 * n);
	atomic<unsigned> ready(0);
	vector<thread> ts;
	for (size_t i = 0; i < 2 * n; i++) {
		ts.emplace_back([&, i]{
			ready.fetch_add(1, memory_order_relaxed);
			while (ready.load(memory_order_relaxed) < 2 * n) {
				this_thread::yield();
			}
			got[i] = uses[i % n]();
			if (got[i] != uses[i % n]()) {
				got[i].push_back(0xbad);
			}
		});
	}
	for (auto &t : ts) {
		t.join();
	}
	for (size_t i = 0; i < 2 * n; i++) {
		vc_check(got[i] == alone[i % n], "a thread that shares a key gets what it gets alone");
	}
}

Seen seen(const shared_ptr<const magma::Block> &b)
{
	const auto v = b->value();
	return {v.first, v.second};
}

Seen seen(const shared_ptr<const K::Block> &b)
{
	const auto v = b->value();
	return {v.first, v.second};
}

Seen written(const function<shared_ptr<const Sink>(const shared_ptr<const Sink> &)> &over, const Bytes &d, size_t part)
{
	const auto to = make_shared<Bytes>();
	auto s = over(make_shared<Collect>(to));
	for (size_t i = 0; i < d.size(); i += part) {
		s = s->write(Bytes(d.begin() + i, d.begin() + min(i + part, d.size())));
	}
	s->finalize();
	Seen r;
	append(r, *to);
	return r;
}

Seen readings(shared_ptr<const Source> s, size_t part)
{
	Seen r;
	for (unsigned n = 0; n < 400; n++) {
		const auto x = s->read(part);
		append(r, x.first);
		if (x.first.empty()) {
			break;
		}
		s = x.second;
	}
	return r;
}

Seen stream(const shared_ptr<const K::Iterator> &first)
{
	Seen r;
	for (auto i = first; i; i = i->next()) {
		const auto v = i->value();
		r.insert(r.end(), {v.first, v.second, i->size(), i->last()});
	}
	return r;
}

}  // namespace

extern "C" {

// caches alone, each subkey first
void h_C22_threads_caches()
{
	array<uint32_t, 8> w;
	for (unsigned i = 0; i < 8; i++) {
		w[i] = uf_K(i);
	}
	const u128 x = any128("x0", "x1");
	compare([=]{
		const auto k = make_shared<magma::KeyCachedData>(make_unique<Words>(w));
		const auto b = make_shared<K::BlkCached>(make_shared<Slow>(x));
		vector<Use> r;
		for (int i = 0; i < 8; i++) {
			r.push_back([=]{ return i % 2 ? Seen{k->key(i)} : Seen{k->key(i), seen(shared_ptr<const K::Block>(b)).at(i / 4)}; });
		}
		return r;
	});
	vc_cover("threads caches");
}

// magma and gost89, one key
void h_C22_threads_magma()
{
	const uint64_t kind = vc_u64("kind", 0, 3), len = vc_u64("len", 0, 40), part = vc_u64("part", 1, 24);
	const string t = text();
	const uint64_t x = vc_bits64("x"), y = vc_bits64("y");
	array<uint32_t, 8> w;
	for (unsigned i = 0; i < 8; i++) {
		w[i] = uf_K(i);
	}
	const Bytes d = data(len), whole = data(len / 8 * 8);
	compare([=]{
		shared_ptr<const magma::LazyKey> key;
		if (kind == 0) {
			key = make_shared<magma::LazyKey>(t);
		} else if (kind == 1) {
			key = make_shared<magma::LazyKey>(vector<uint32_t>(w.begin(), w.end()), make_shared<magma::SboxR3412>());
		} else if (kind == 2) {
			key = make_shared<magma::LazyKey>(t, make_shared<magma::SboxR3412>());
		} else {
			key = make_shared<magma::LazyKey>(
				unique_ptr<const magma::KeyData>(make_unique<magma::KeyCachedData>(make_unique<Words>(w))),
				make_shared<magma::SboxR3412>());
		}
		const auto b = make_shared<magma::BlkRaw>(x);
		const auto e = make_shared<magma::BlkEncrypted>(b, key);
		const auto dec = make_shared<magma::BlkDecrypted>(b, key);
		const auto m = make_shared<magma::Imit>(make_shared<Give>(d), key);
		vector<uint8_t> u;
		for (const auto c : d) {
			u.push_back(uint8_t(c));
		}
		const auto g = make_shared<gost89::DataImit>(u, key);
		const auto src = make_shared<magma::CFBSource>(make_shared<Give>(d), key, x, y);
		const auto gsrc = make_shared<gost89::CFBSource>(make_shared<Give>(d), key, x);
		const auto esrc = make_shared<magma::ECBSource>(make_shared<Give>(whole), key);
		return vector<Use>{
			[=]{ return Seen{key->transform(uint32_t(x), 0), key->transform(uint32_t(y), 7), key->transform(uint32_t(x), 3)}; },
			[=]{ return seen(e); },
			[=]{ return seen(dec); },
			[=]{ return seen(m); },
			[=]{ const auto v = g->value(); return Seen(v.begin(), v.end()); },
			[=]{ return Seen{magma::EncryptionBase(key).transform(y)}; },
			[=]{ return written([&](const shared_ptr<const Sink> &s) { return make_shared<magma::CFBSink>(s, key, x, y); }, d, part); },
			[=]{ return written([&](const shared_ptr<const Sink> &s) { return make_shared<gost89::CFBSink>(s, key, x); }, d, part); },
			[=]{ return written([&](const shared_ptr<const Sink> &s) { return make_shared<magma::ECBSink>(s, key); }, whole, 8); },
			[=]{ return readings(src, part); },
			[=]{ return readings(gsrc, part); },
			[=]{ return readings(esrc, 8); },
		};
	});
	vc_cover("threads magma");
}

void h_C22_threads_kuz()
{
	const uint64_t kind = vc_u64("kind", 0, 1), len = vc_u64("len", 1, 6);
	const string t = text();
	const u128 h = any128("h0", "h1"), l = any128("l0", "l1"), x = any128("x0", "x1");
	vector<uint64_t> ws;
	vc_fill_words(&ws, uf_W, 0, 2 * len);
	compare([=]{
		const auto key = kind == 0 ? make_shared<K::Key>(t) : make_shared<K::Key>(make_shared<AnyData>(h, l));
		const auto b = make_shared<KuzBlock>(x);
		const auto e = make_shared<K::BlkEncrypted>(b, key);
		const auto mem = make_shared<K::StMemory>(ws);
		const auto m = make_shared<K::Imit>(mem, key);
		const auto c = make_shared<K::StCTREncrypted>(mem, key, x.first);
		const auto first = c->iter();
		const auto cached = make_shared<K::BlkCached>(e);
		return vector<Use>{
			[=]{ return seen(shared_ptr<const K::Block>(key->encrypt(b))); },
			[=]{ return seen(e); },
			[=]{ return seen(m); },
			[=]{ return stream(c->iter()); },
			[=]{ return stream(first); },
			[=]{ return seen(cached); },
			[=]{ return stream(mem->iter()); },
		};
	});
	vc_cover("threads kuz");
}

}  // extern "C"
#endif
