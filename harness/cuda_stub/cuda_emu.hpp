// Host stand-in for the CUDA keywords, intrinsics and atomics; included before the headers
#pragma once
#define __host__
#define __device__
#define __global__
#define __shared__ static
#define __constant__ static const
#define __forceinline__ inline
#define __noinline__
#include <cstring>
#include <vector>
namespace emu {
inline void (*beforeAtomic)() = nullptr; inline void (*afterAtomic)(void*, const void*, std::size_t) = nullptr;
template <typename T, typename F> T rmw(T* p, F next) { if (beforeAtomic) beforeAtomic(); const T old = *p, now = next(old); *p = now; if (afterAtomic) afterAtomic(p, &now, sizeof now); return old; }
}
#define EMU_ATOMIC(T) \
    inline T atomicExch(T* p, T v) { return emu::rmw(p, [v](T) { return v; }); } \
    inline T atomicCAS(T* p, T expected, T v) { return emu::rmw(p, [=](T o) { return o == expected ? v : o; }); } \
    inline T atomicAdd(T* p, T v) { return emu::rmw(p, [v](T o) { return static_cast<T>(o + v); }); } \
    inline T atomicMin(T* p, T v) { return emu::rmw(p, [v](T o) { return o < v ? o : v; }); } \
    inline T atomicMax(T* p, T v) { return emu::rmw(p, [v](T o) { return o > v ? o : v; }); } \
    inline T atomicAnd(T* p, T v) { return emu::rmw(p, [v](T o) { return static_cast<T>(o & v); }); } \
    inline T atomicOr(T* p, T v) { return emu::rmw(p, [v](T o) { return static_cast<T>(o | v); }); } \
    inline T atomicXor(T* p, T v) { return emu::rmw(p, [v](T o) { return static_cast<T>(o ^ v); }); }
EMU_ATOMIC(int)
EMU_ATOMIC(unsigned)
EMU_ATOMIC(unsigned long long)
#undef EMU_ATOMIC
inline unsigned atomicSub(unsigned* p, unsigned v) { return emu::rmw(p, [v](unsigned o) { return o - v; }); }
inline int atomicSub(int* p, int v) { return emu::rmw(p, [v](int o) { return o - v; }); }
inline void __threadfence() {}
inline void __threadfence_block() {}
inline void __threadfence_system() {}
constexpr inline int __clz(int v) { return v ? __builtin_clz(static_cast<unsigned>(v)) : 32; }
constexpr inline int __clzll(long long v) { return v ? __builtin_clzll(static_cast<unsigned long long>(v)) : 64; }
constexpr inline int __ffs(int v) { return __builtin_ffs(v); }
constexpr inline int __popc(unsigned v) { return __builtin_popcount(v); }
constexpr inline int __popcll(unsigned long long v) { return __builtin_popcountll(v); }
constexpr inline unsigned __umulhi(unsigned a, unsigned b) { return static_cast<unsigned>(static_cast<unsigned long long>(a) * b >> 32); }
constexpr inline unsigned long long __umul64hi(unsigned long long a, unsigned long long b) { return static_cast<unsigned long long>(static_cast<unsigned __int128>(a) * b >> 64); }
