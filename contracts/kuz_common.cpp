#include "kuz.h"
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkS.h>

using namespace std;

const K::Key *g_kuz = nullptr;
u128 g_khigh, g_klow;

shared_ptr<const K::Key> any_kuz_key()
{
	g_khigh = any128("key0", "key1");
	g_klow = any128("key2", "key3");
	const auto k = make_shared<K::Key>(make_shared<AnyData>(g_khigh, g_klow));
	g_kuz = k.get();
	return k;
}

static const uint8_t PI[256] = {
	0xfc, 0xee, 0xdd, 0x11, 0xcf, 0x6e, 0x31, 0x16, 0xfb, 0xc4, 0xfa, 0xda, 0x23, 0xc5, 0x04, 0x4d,
	0xe9, 0x77, 0xf0, 0xdb, 0x93, 0x2e, 0x99, 0xba, 0x17, 0x36, 0xf1, 0xbb, 0x14, 0xcd, 0x5f, 0xc1,
	0xf9, 0x18, 0x65, 0x5a, 0xe2, 0x5c, 0xef, 0x21, 0x81, 0x1c, 0x3c, 0x42, 0x8b, 0x01, 0x8e, 0x4f,
	0x05, 0x84, 0x02, 0xae, 0xe3, 0x6a, 0x8f, 0xa0, 0x06, 0x0b, 0xed, 0x98, 0x7f, 0xd4, 0xd3, 0x1f,
	0xeb, 0x34, 0x2c, 0x51, 0xea, 0xc8, 0x48, 0xab, 0xf2, 0x2a, 0x68, 0xa2, 0xfd, 0x3a, 0xce, 0xcc,
	0xb5, 0x70, 0x0e, 0x56, 0x08, 0x0c, 0x76, 0x12, 0xbf, 0x72, 0x13, 0x47, 0x9c, 0xb7, 0x5d, 0x87,
	0x15, 0xa1, 0x96, 0x29, 0x10, 0x7b, 0x9a, 0xc7, 0xf3, 0x91, 0x78, 0x6f, 0x9d, 0x9e, 0xb2, 0xb1,
	0x32, 0x75, 0x19, 0x3d, 0xff, 0x35, 0x8a, 0x7e, 0x6d, 0x54, 0xc6, 0x80, 0xc3, 0xbd, 0x0d, 0x57,
	0xdf, 0xf5, 0x24, 0xa9, 0x3e, 0xa8, 0x43, 0xc9, 0xd7, 0x79, 0xd6, 0xf6, 0x7c, 0x22, 0xb9, 0x03,
	0xe0, 0x0f, 0xec, 0xde, 0x7a, 0x94, 0xb0, 0xbc, 0xdc, 0xe8, 0x28, 0x50, 0x4e, 0x33, 0x0a, 0x4a,
	0xa7, 0x97, 0x60, 0x73, 0x1e, 0x00, 0x62, 0x44, 0x1a, 0xb8, 0x38, 0x82, 0x64, 0x9f, 0x26, 0x41,
	0xad, 0x45, 0x46, 0x92, 0x27, 0x5e, 0x55, 0x2f, 0x8c, 0xa3, 0xa5, 0x7d, 0x69, 0xd5, 0x95, 0x3b,
	0x07, 0x58, 0xb3, 0x40, 0x86, 0xac, 0x1d, 0xf7, 0x30, 0x37, 0x6b, 0xe4, 0x88, 0xd9, 0xe7, 0x89,
	0xe1, 0x1b, 0x83, 0x49, 0x4c, 0x3f, 0xf8, 0xfe, 0x8d, 0x53, 0xaa, 0x90, 0xca, 0xd8, 0x85, 0x61,
	0x20, 0x71, 0x67, 0xa4, 0x2d, 0x2b, 0x09, 0x5b, 0xcb, 0x9b, 0x25, 0xd0, 0xbe, 0xe5, 0x6c, 0x52,
	0x59, 0xa6, 0x74, 0xd2, 0xe6, 0xf4, 0xb4, 0xc0, 0xd1, 0x66, 0xaf, 0xc2, 0x39, 0x4b, 0x63, 0xb6,
};

extern "C" {

uint8_t kuz_pi(uint8_t x) { return PI[x]; }

uint64_t spe_LL(uint64_t low, uint64_t high) { return kuz_L({low, high}).first; }
uint64_t spe_LH(uint64_t low, uint64_t high) { return kuz_L({low, high}).second; }

uint64_t spe_S(uint64_t x)
{
	uint64_t r = 0;
	for (unsigned i = 0; i < 64; i += 8) {
		r |= uint64_t(PI[x >> i & 255]) << i;
	}
	return r;
}

}  // extern "C"

// block encryption under the key of the harness
static u128 enc(u128 x)
{
	static u128 h, l;
	static bool valid = false;
	static RoundKeys r;
	if (!valid || h != g_khigh || l != g_klow) {
		h = g_khigh;
		l = g_klow;
		r = kuz_schedule(h, l);
		valid = true;
	}
	return kuz_encrypt(r, x);
}

extern "C" {
uint64_t speB_EL(uint64_t low, uint64_t high) { return enc({low, high}).first; }
uint64_t speB_EH(uint64_t low, uint64_t high) { return enc({low, high}).second; }
}

#ifndef VC_NATIVE
extern "C" {

// contract of BlkL: value() == L(value of the block)
void vcp__ZN5goost10kuznyechik4BlkLC2ERKSt10shared_ptrIKNS0_5BlockEE(const K::BlkL *self, const shared_ptr<const K::Block> &b)
{
	vc_ghost_set(self, 0, reinterpret_cast<uint64_t>(b.get()));
}

u128 vcr__ZNK5goost10kuznyechik4BlkL5valueEv(const K::BlkL *self)
{
	const auto x = reinterpret_cast<const K::Block *>(vc_ghost(self, 0))->value();
	return kL(x);
}

// contract of BlkS: value() == S(value of the block)
void vcp__ZN5goost10kuznyechik4BlkSC2ERKSt10shared_ptrIKNS0_5BlockEE(const K::BlkS *self, const shared_ptr<const K::Block> &b)
{
	vc_ghost_set(self, 0, reinterpret_cast<uint64_t>(b.get()));
}

u128 vcr__ZNK5goost10kuznyechik4BlkS5valueEv(const K::BlkS *self)
{
	const auto x = reinterpret_cast<const K::Block *>(vc_ghost(self, 0))->value();
	return kS(x);
}

// contract of Key::encrypt: a block with value E_key(value of the block)
namespace {
class Enc final : public K::Block {
public:
	explicit Enc(const shared_ptr<const K::Block> &b) : b(b) {}
	u128 value() const override { return kE(b->value()); }
private:
	const shared_ptr<const K::Block> b;
};
}

unique_ptr<const K::Block> vcrB__ZNK5goost10kuznyechik3Key7encryptERKSt10shared_ptrIKNS0_5BlockEE(
	const K::Key *self, const shared_ptr<const K::Block> &b)
{
	vc_check(self == g_kuz, "contract: the key of the caller is used");
	return make_unique<Enc>(b);
}

}  // extern "C"
#endif
