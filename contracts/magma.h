// Abstract participants for the Magma / GOST 28147-89 contracts.
#pragma once
#include "spec.h"
#include <memory>
#include <stdexcept>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/magma/Block.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/Sbox.h>

// a key with an arbitrary round function
class AnyKey final : public goost::magma::Key {
public:
	uint32_t transform(uint32_t v, int i) const override { return uf_F(v, uint64_t(int64_t(i))); }
};

class AnyKeyData final : public goost::magma::KeyData {
public:
	uint32_t key(int i) const override { return uf_K(uint64_t(int64_t(i))); }
};

class AnySbox final : public goost::magma::Sbox {
public:
	uint32_t transform(uint32_t v) const override { return uf_S(v); }
};

// the key of the current harness, for the contracts of block encryption
extern const goost::magma::Key *g_key;
extern bool g_lazy;
// when set: the round function a key passed to block decryption must have
extern void (*g_probe)(const goost::magma::Key *);

std::shared_ptr<const goost::magma::Key> any_key();
std::shared_ptr<const goost::magma::LazyKey> any_lazy_key();

// arbitrary block
class AnyBlock final : public goost::magma::Block {
public:
	AnyBlock(uint32_t l, uint32_t h) : l(l), h(h) {}
	std::pair<uint32_t, uint32_t> value() const override { return {l, h}; }
private:
	const uint32_t l, h;
};

inline uint64_t word(const std::pair<uint32_t, uint32_t> &v) { return uint64_t(v.second) << 32 | v.first; }
