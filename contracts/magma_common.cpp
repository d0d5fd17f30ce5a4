#include "magma.h"
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/gost89/ImitedBlock.h>

using namespace std;
using namespace goost;
using namespace goost::magma;

const Key *g_key = nullptr;
bool g_lazy = false;
void (*g_probe)(const Key *) = nullptr;

shared_ptr<const Key> any_key()
{
	const auto k = make_shared<AnyKey>();
	g_key = k.get();
	g_probe = nullptr;
	g_lazy = false;
	return k;
}

shared_ptr<const LazyKey> any_lazy_key()
{
	const auto k = make_shared<LazyKey>(
		unique_ptr<const KeyData>(make_unique<AnyKeyData>()),
		make_shared<AnySbox>()
	);
	g_key = k.get();
	g_probe = nullptr;
	g_lazy = true;
	return k;
}

#ifndef VC_NATIVE
// ---------------------------------------------------------------- contracts of callees
// vcp_X runs after the constructor X, vcr_X stands for the body of X where X is
// called; that X satisfies its contract is the subject of its own harness.

static pair<uint32_t, uint32_t> halves(uint64_t x) { return {uint32_t(x), uint32_t(x >> 32)}; }

extern "C" {

void vcp__ZN5goost5magma12BlkEncryptedC2ERKSt10shared_ptrIKNS0_5BlockEERKS2_IKNS0_3KeyEE(
	const BlkEncrypted *self, const shared_ptr<const Block> &b, const shared_ptr<const Key> &k)
{
	vc_ghost_set(self, 0, reinterpret_cast<uint64_t>(b.get()));
	vc_ghost_set(self, 1, reinterpret_cast<uint64_t>(k.get()));
}

// ensures: result == E_key(block)
pair<uint32_t, uint32_t> vcr__ZNK5goost5magma12BlkEncrypted5valueEv(const BlkEncrypted *self)
{
	const auto b = reinterpret_cast<const Block *>(vc_ghost(self, 0));
	vc_check(vc_ghost(self, 1) == reinterpret_cast<uint64_t>(g_key), "contract: the key of the caller is used");
	const auto x = word(b->value());
	return halves(g_lazy ? spe_EL(x) : spe_E(x));
}

void vcp__ZN5goost5magma12BlkDecryptedC2ERKSt10shared_ptrIKNS0_5BlockEERKS2_IKNS0_3KeyEE(
	const BlkDecrypted *self, const shared_ptr<const Block> &b, const shared_ptr<const Key> &k)
{
	vc_ghost_set(self, 0, reinterpret_cast<uint64_t>(b.get()));
	vc_ghost_set(self, 1, reinterpret_cast<uint64_t>(k.get()));
}

// ensures: result == D_key(block)
pair<uint32_t, uint32_t> vcr__ZNK5goost5magma12BlkDecrypted5valueEv(const BlkDecrypted *self)
{
	const auto b = reinterpret_cast<const Block *>(vc_ghost(self, 0));
	if (g_probe) {
		// requires: the key has the round function of the caller's contract
		g_probe(reinterpret_cast<const Key *>(vc_ghost(self, 1)));
		return halves(spe_D(word(b->value())));
	}
	vc_check(vc_ghost(self, 1) == reinterpret_cast<uint64_t>(g_key) && !g_lazy, "contract: the key of the caller is used");
	return halves(spe_D(word(b->value())));
}

void vcp__ZN5goost5magma14EncryptionBaseC2ERKSt10shared_ptrIKNS0_3KeyEE(
	const EncryptionBase *self, const shared_ptr<const Key> &k)
{
	vc_ghost_set(self, 1, reinterpret_cast<uint64_t>(k.get()));
}

// ensures: result == E_key(block)
uint64_t vcr__ZNK5goost5magma14EncryptionBase9transformEm(const EncryptionBase *self, uint64_t x)
{
	vc_check(vc_ghost(self, 1) == reinterpret_cast<uint64_t>(g_key), "contract: the key of the caller is used");
	return g_lazy ? spe_EL(x) : spe_E(x);
}

}  // extern "C"
#endif
