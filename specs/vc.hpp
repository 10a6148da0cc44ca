// Specification vocabulary.  In verification builds the vc_* functions are intrinsics of the VC generator;
// with -DVC_NATIVE they are linked against irvc/native.cpp to replay a counterexample on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t  vc_nondet_u8() noexcept;
std::uint16_t vc_nondet_u16() noexcept;
std::uint32_t vc_nondet_u32() noexcept;
std::uint64_t vc_nondet_u64() noexcept;
bool  vc_nondet_bool() noexcept;
void* vc_nondet_ptr() noexcept;
void  vc_havoc(void*, std::size_t) noexcept;               // arbitrary bytes
void  vc_make_indeterminate(void*, std::size_t) noexcept;  // uninitialised bytes
void  vc_assume(bool) noexcept;
void  vc_assert(bool, const char*) noexcept;
void  vc_cover(const char*) noexcept;                      // must be reachable (anti-vacuity)
void  vc_spec(bool) noexcept;                              // inside: evaluation of a precondition
void  vc_end() noexcept;
std::uint64_t vc_uf(std::uint32_t, std::uint64_t, std::uint64_t) noexcept;   // uninterpreted function
void  vc_ghost_set(const void*, std::uint32_t, std::uint64_t) noexcept;
std::uint64_t vc_ghost_get(const void*, std::uint32_t) noexcept;
std::uint32_t vc_ghost_in(const void*, std::size_t, std::uint32_t, std::uint64_t) noexcept;
std::uint32_t vc_ghost_count(std::uint32_t, std::uint64_t) noexcept;
void  vc_trap_ok(bool) noexcept;
void  vc_assigns_begin() noexcept;
void  vc_assigns_allow(const void*, std::size_t) noexcept;
void  vc_assigns_end(const char*) noexcept;
void  vc_snap(const void*, std::size_t, std::uint32_t) noexcept;
bool  vc_same(const void*, std::size_t, std::uint32_t) noexcept;
}
