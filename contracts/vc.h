// Interface between contract harnesses and the verifier (symbolic: intrinsics
// modelled in vc/models.py; native: contracts/native.cpp).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
// inputs
uint64_t vc_u64(const char *name, uint64_t lo, uint64_t hi);
uint64_t vc_bits64(const char *name);
uint32_t vc_bits32(const char *name);
uint8_t vc_bits8(const char *name);
uint64_t vc_case(const char *name, uint64_t lo, uint64_t hi);
// facts and obligations
void vc_assume(bool c);
void vc_check(bool c, const char *label);
void vc_check_eq(uint64_t a, uint64_t b, const char *label);
void vc_cover(const char *label);
void vc_fail(const char *label);
void vc_end();
void vc_length(uint64_t n);            // the run takes n steps or more (native runs leave large ones out)
int vc_symbolic();
uint64_t vc_concretize(uint64_t x);   // one path per value
int vc_longer(const void *vec, uint64_t n); // length of a byte vector is not a known number up to n
// containers of symbolic length
void vc_fill_bytes(void *vec, uint8_t (*fn)(uint64_t), uint64_t start, uint64_t n);
void vc_fill_words(void *vec, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t n);
void vc_make_string(void *str, uint8_t (*fn)(uint64_t), uint64_t n);
// the vector's bytes are those of the words fn(start), fn(start + 1), ..., from byte `skip` of the first on, n bytes
void vc_check_words(const void *vec, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t skip, uint64_t n, const char *label);
// the same for the first n bytes of a longer vector
void vc_check_prefix(const void *vec, uint64_t (*fn)(uint64_t), uint64_t start, uint64_t skip, uint64_t n, const char *label);
void vc_check_bytes(const void *vec, uint8_t (*fn)(uint64_t), uint64_t start, uint64_t n, const char *label);
// spec functions
void vc_template(const void *fn, uint64_t base);
void vc_reveal(const void *fn, ...);
uint64_t vc_any();
// ghosts, frames, graphs
void vc_ghost_set(const void *p, uint64_t k, uint64_t v);
uint64_t vc_ghost(const void *p, uint64_t k);
void vc_frame_begin();
void vc_frame_except(const void *p);
void vc_frame_end(const char *label);
void vc_same(const void *actual, const void *canonical, const char *label);
void vc_depth_limit();
void vc_depth_check(uint64_t d, const char *label);
uint64_t vc_heap();
// threads: everything that exists is shared between begin and end
void vc_share_begin();
void vc_share_end(const char *label);
void vc_lock(void *mutex);
void vc_unlock(void *mutex);
void vc_option(const char *name, uint64_t v);
}
