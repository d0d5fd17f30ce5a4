// C19, natively: random histories with branches.  What an object returns must
// be what a new object with the same history of its own returns.  Only run in
// the search for a failing input; the proof is in use.cpp (frames).
#include "magma.h"
#include "kuz.h"
#include <functional>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>

using namespace std;
using namespace goost;

typedef vector<byte> Bytes;

static uint64_t rnd(const char *name, uint64_t hi) { return vc_u64(name, 0, hi); }

static Bytes bytes(uint64_t start, uint64_t n)
{
	Bytes v;
	vc_fill_bytes(&v, uf_M, start, n);
	return v;
}

// what an operation lets the user see
typedef vector<uint64_t> Seen;

static void append(Seen &s, const Bytes &d)
{
	s.push_back(d.size());
	for (const auto b : d) {
		s.push_back(uint8_t(b));
	}
}

static void same(const Seen &a, const Seen &b, const char *label)
{
	vc_check(a == b, label);
}

template <typename F>
static Seen seen(const F &f)
{
	Seen s;
	try {
		f(s);
	} catch (const exception &) {
		s.push_back(0xdead);
	}
	return s;
}

static shared_ptr<const magma::LazyKey> lazy()
{
	vector<uint32_t> kd(8);
	for (unsigned j = 0; j < 8; j++) {
		kd[j] = uf_K(j);
	}
	return make_shared<magma::LazyKey>(kd, make_shared<magma::SboxR3412>());
}

static const char *const TEXT = "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef";

static shared_ptr<const magma::LazyKey> texted() { return make_shared<magma::LazyKey>(string(TEXT)); }

// ---------------------------------------------------------------- sinks

static Seen g_last;	// everything the sink at the end of the chain got

class Collect final : public Sink {
public:
	explicit Collect(const Bytes &got = {}) : got(got) {}
	shared_ptr<const Sink> write(const Bytes &d) const override
	{
		Bytes n = got;
		n.insert(n.end(), d.begin(), d.end());
		g_last.clear();
		append(g_last, n);
		return make_shared<Collect>(n);
	}
	shared_ptr<const Sink> finalize() const override
	{
		g_last.clear();
		append(g_last, got);
		g_last.push_back(0xf1);
		return make_shared<Collect>(got);
	}
	const Bytes got;
};

struct Op {
	uint64_t start, size;
	bool final;
};

template <typename N>
static void sinks(const N &fresh)
{
	struct Node {
		vector<Op> h;
		shared_ptr<const Sink> s;
	};
	vector<Node> nodes{{{}, fresh()}};
	const uint64_t ops = rnd("ops", 24);
	const auto apply = [](const shared_ptr<const Sink> &s, const Op &o, Seen &r) {
		g_last.clear();
		const Bytes d = bytes(o.start, o.size), c = d;
		shared_ptr<const Sink> n;
		r = seen([&](Seen &x) {
			n = o.final ? s->finalize() : s->write(d);
			x = g_last;
		});
		vc_check(d == c, "the buffer passed to a sink is not changed");
		return n;
	};
	for (uint64_t i = 0; i < ops; i++) {
		const auto &at = nodes[rnd("node", nodes.size() - 1)];
		Op o{rnd("start", 100), rnd("size", 1) ? rnd("size8", 4) * 8 : rnd("sizeb", 20), rnd("final", 6) == 0};
		Seen a, b;
		const auto n = apply(at.s, o, a);
		shared_ptr<const Sink> f = fresh();
		for (const auto &p : at.h) {
			Seen x;
			f = apply(f, p, x);
		}
		apply(f, o, b);
		same(a, b, "an earlier sink gives what a new one gives");
		if (n && !o.final) {
			Node m{at.h, n};
			m.h.push_back(o);
			nodes.push_back(m);
		}
	}
}

// ---------------------------------------------------------------- sources

class Give final : public Source {
public:
	Give(uint64_t p, uint64_t n) : p(p), n(n) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t size) const override
	{
		const uint64_t k = size < n - p ? size : n - p;
		return {bytes(p, k), make_shared<Give>(p + k, n)};
	}
	const uint64_t p, n;
};

template <typename N>
static void sources(const N &fresh)
{
	struct Node {
		vector<uint64_t> h;
		shared_ptr<const Source> s;
	};
	vector<Node> nodes{{{}, fresh()}};
	const uint64_t ops = rnd("ops", 24);
	for (uint64_t i = 0; i < ops; i++) {
		const auto &at = nodes[rnd("node", nodes.size() - 1)];
		const uint64_t size = rnd("kind", 1) ? rnd("size8", 4) * 8 : rnd("sizeb", 20);
		shared_ptr<const Source> n;
		const auto a = seen([&](Seen &x) {
			const auto r = at.s->read(size);
			append(x, r.first);
			n = r.second;
		});
		const auto b = seen([&](Seen &x) {
			shared_ptr<const Source> f = fresh();
			for (const auto p : at.h) {
				f = f->read(p).second;
			}
			append(x, f->read(size).first);
		});
		same(a, b, "an earlier source gives what a new one gives");
		if (n) {
			Node m{at.h, n};
			m.h.push_back(size);
			nodes.push_back(m);
		}
	}
}

// ---------------------------------------------------------------- streams

static vector<uint64_t> words(uint64_t n)
{
	vector<uint64_t> v;
	vc_fill_words(&v, uf_W, 0, n);
	return v;
}

static void look(Seen &s, const shared_ptr<const K::Iterator> &i)
{
	if (!i) {
		s.push_back(7);
		return;
	}
	const auto v = i->value();
	s.insert(s.end(), {v.first, v.second, uint64_t(i->last()), i->size()});
}

template <typename N>
static void streams(const N &fresh)
{
	struct Node {
		uint64_t at;
		shared_ptr<const K::Iterator> i;
	};
	const shared_ptr<const K::Stream> st = fresh();
	vector<Node> nodes;
	const uint64_t ops = rnd("ops", 24);
	for (uint64_t i = 0; i < ops; i++) {
		if (nodes.empty() || rnd("again", 6) == 0) {
			seen([&](Seen &) { nodes.push_back({0, st->iter()}); });
			if (nodes.empty()) {
				continue;
			}
		}
		const Node at = nodes[rnd("node", nodes.size() - 1)];
		if (at.i && rnd("advance", 2)) {
			const auto r = seen([&](Seen &) { nodes.push_back({at.at + 1, at.i->next()}); });
			const auto q = seen([&](Seen &) {
				auto f = fresh()->iter();
				for (uint64_t j = 0; j < at.at && f; j++) {
					f = f->next();
				}
				f->next();
			});
			same(r, q, "an earlier iterator advances as a new one");
		}
		const auto a = seen([&](Seen &x) { look(x, at.i); });
		const auto b = seen([&](Seen &x) {
			shared_ptr<const K::Iterator> f = fresh()->iter();
			for (uint64_t j = 0; j < at.at && f; j++) {
				f = f->next();
			}
			look(x, f);
		});
		same(a, b, "an earlier iterator gives what a new one gives");
	}
}

// ---------------------------------------------------------------- values
// a: of objects sharing participants, taken in any order and repeatedly; b: of new ones
template <typename N>
static void values(const N &fresh)
{
	const vector<function<void(Seen &)>> all = fresh();
	const uint64_t ops = rnd("ops", 24);
	for (uint64_t i = 0; i < ops; i++) {
		const uint64_t k = rnd("which", all.size() - 1);
		same(seen(all[k]), seen(fresh()[k]), "a value is the same every time");
	}
}

template <typename B>
static function<void(Seen &)> value_of(const shared_ptr<const B> &b)
{
	return [b](Seen &s) {
		const auto v = b->value();
		s.insert(s.end(), {uint64_t(v.first), uint64_t(v.second)});
	};
}

static shared_ptr<const magma::Block> mraw(const char *n) { return make_shared<magma::BlkRaw>(vc_bits32(n), vc_bits32(n)); }

extern "C" {

void h_C19_mcfb_sink()
{
	const uint32_t a = vc_bits32("iv"), b = vc_bits32("iv");
	const bool t = rnd("text", 1);
	const auto key = t ? texted() : lazy();
	const uint64_t iv0 = uint64_t(a) << 32 | b, iv1 = ~iv0;
	bool first = true;
	sinks([&]{
		const auto k = first ? key : t ? texted() : lazy();
		first = false;
		return make_shared<magma::CFBSink>(make_shared<Collect>(), k, iv0, iv1);
	});
}

void h_C19_gcfb_sink()
{
	const uint64_t iv = vc_bits64("iv");
	sinks([&]{ return make_shared<gost89::CFBSink>(make_shared<Collect>(), lazy(), iv); });
}

void h_C19_ecb_sink()
{
	sinks([&]{ return make_shared<magma::ECBSink>(make_shared<Collect>(), lazy()); });
}

void h_C19_mcfb_source()
{
	const uint64_t a = vc_bits64("iv"), b = vc_bits64("iv"), n = rnd("len", 70);
	sources([&]{ return make_shared<magma::CFBSource>(make_shared<Give>(0, n), lazy(), a, b); });
}

void h_C19_gcfb_source()
{
	const uint64_t iv = vc_bits64("iv"), n = rnd("len", 70);
	sources([&]{ return make_shared<gost89::CFBSource>(make_shared<Give>(0, n), lazy(), iv); });
}

void h_C19_ecb_source()
{
	const uint64_t n = rnd("len", 9) * 8 + (rnd("odd", 4) == 0 ? rnd("rest", 7) : 0);
	sources([&]{ return make_shared<magma::ECBSource>(make_shared<Give>(0, n), lazy()); });
}

void h_C19_ctr()
{
	const uint64_t iv = vc_bits64("iv"), n = rnd("blocks", 6);
	const auto key = make_shared<K::Key>(string(TEXT));
	streams([&]{ return make_shared<K::StCTREncrypted>(make_shared<K::StMemory>(words(2 * n)), key, iv); });
}

void h_C19_ctrk()
{
	const uint64_t iv = vc_bits64("iv"), n = rnd("blocks", 3);
	streams([&]{ return make_shared<K::StCTREncrypted>(make_shared<K::StMemory>(words(2 * n)), make_shared<K::Key>(string(TEXT)), iv); });
}

void h_C19_memory()
{
	const uint64_t n = 2 * rnd("blocks", 8) + (rnd("odd", 4) == 0);
	const auto w = words(n);
	streams([&]{ return make_shared<K::StMemory>(w); });
	vc_check(w == words(n), "the vector passed to a memory stream is not changed");
}

void h_C19_macs()
{
	const uint64_t n = rnd("len", 40), k = rnd("blocks", 5);
	vector<uint8_t> d;
	vc_fill_bytes(&d, uf_M, 0, n);
	const vector<uint8_t> c = d;
	const uint32_t l = vc_bits32("l"), h = vc_bits32("h");
	const int sh = int(vc_u64("shift", 1, 31));
	values([&]{
		const auto lk = lazy();
		const auto kk = make_shared<K::Key>(string(TEXT));
		const auto st = make_shared<K::StMemory>(words(2 * k));
		const auto src = make_shared<Give>(0, n);
		const auto blk = make_shared<magma::BlkRaw>(l, h);
		const auto ib = make_shared<gost89::ImitedBlock>(*blk, lk);
		const auto di = make_shared<gost89::DataImit>(d, lk);
		vector<function<void(Seen &)>> r{
			value_of<magma::Block>(make_shared<magma::Imit>(src, lk)),
			value_of<K::Block>(make_shared<K::Imit>(st, kk)),
			value_of<magma::Block>(make_shared<magma::BlkEncrypted>(blk, lk)),
			value_of<magma::Block>(make_shared<magma::BlkDecrypted>(blk, lk)),
			value_of<magma::Block>(make_shared<magma::BlkXored>(blk, make_shared<magma::BlkShifted>(blk, sh))),
			value_of<magma::Block>(make_shared<magma::BlkSwapped>(blk)),
			[ib](Seen &s) {
				const auto v = magma::BlkRaw(ib->value()).value();
				s.insert(s.end(), {v.first, v.second});
			},
			value_of<magma::Block>(make_shared<magma::BlkString>(string(TEXT + sh, 16))),
			[di](Seen &s) {
				for (const auto b : di->value()) {
					s.push_back(b);
				}
			},
			[lk, l](Seen &s) { s.push_back(lk->transform(l, 3)); },
		};
		return r;
	});
	vc_check(d == c, "the data passed to a MAC is not changed");
}

void h_C19_kuz()
{
	const uint64_t a = vc_bits64("a"), b = vc_bits64("b"), c = vc_bits64("a"), d = vc_bits64("b");
	const int sh = int(vc_u64("shift", 1, 63));
	values([&]{
		const auto k = make_shared<K::Key>(string(TEXT));
		const auto x = make_shared<K::BlkRaw>(a, b), y = make_shared<K::BlkRaw>(c, d);
		const auto e = make_shared<K::BlkEncrypted>(x, k);
		vector<function<void(Seen &)>> r{
			value_of<K::Block>(e),
			value_of<K::Block>(make_shared<K::BlkEncrypted>(y, k)),
			value_of<K::Block>(make_shared<K::BlkEncrypted>(e, k)),
			value_of<K::Block>(make_shared<K::BlkIncremented>(x)),
			value_of<K::Block>(make_shared<K::BlkXored>(x, y)),
			value_of<K::Block>(make_shared<K::BlkShifted>(x, sh)),
			value_of<K::Block>(make_shared<K::BlkL>(x)),
			value_of<K::Block>(make_shared<K::BlkR>(x)),
			value_of<K::Block>(make_shared<K::BlkS>(x)),
			value_of<K::Block>(make_shared<K::BlkString>(string(TEXT + sh / 2, 32))),
			value_of<K::Block>(K::KeyDataString(string(TEXT)).high()),
			value_of<K::Block>(K::KeyDataString(string(TEXT)).low()),
		};
		return r;
	});
}

// any order of use of the subkeys, valid and invalid ones
void h_C19_keys()
{
	const uint32_t v = vc_bits32("v");
	string t(TEXT);
	const bool bad = rnd("bad", 3) == 0;
	if (bad) {
		t[vc_u64("at", 0, 63)] = 'g';
	}
	values([&]{
		const auto d = make_shared<magma::KeyDataString>(t);
		vector<function<void(Seen &)>> r;
		for (int i = 0; i < 8; i++) {
			r.push_back([d, i](Seen &s) { s.push_back(d->key(i)); });
		}
		shared_ptr<const magma::Key> k;
		try {
			k = make_shared<magma::LazyKey>(t);
		} catch (const exception &) {
		}
		if (k) {
			for (int i = 0; i < 8; i++) {
				r.push_back([k, v, i](Seen &s) { s.push_back(k->transform(v, i)); });
			}
		}
		return r;
	});
}

void h_C19_tables()
{
	vector<uint8_t> p;
	vc_fill_bytes(&p, uf_T, 0, 64);
	vector<uint8_t> c = p;
	vector<uint32_t> vs;
	for (int i = 0; i < 6; i++) {
		vs.push_back(vc_bits32("v"));
	}
	values([&]{
		const auto b = make_shared<magma::SboxByte>(p);
		const auto t = make_shared<magma::SboxTwisted>(make_unique<magma::SboxByte>(p));
		const auto n = make_shared<magma::SboxR3412>();
		vector<function<void(Seen &)>> r;
		for (const auto v : vs) {
			r.push_back([b, v](Seen &s) { s.push_back(b->transform(v)); });
			r.push_back([t, v](Seen &s) { s.push_back(t->transform(v)); });
			r.push_back([n, v](Seen &s) { s.push_back(n->transform(v)); });
		}
		return r;
	});
	vc_check(p == c, "the table passed to a substitution is not changed");
}

}  // extern "C"
