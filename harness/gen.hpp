// Generators for integers and related operands. Everything is drawn through Src.
#pragma once
#include "engine.hpp"
#include <array>
#include <climits>

namespace gen {
using eng::Src;

inline const uint64_t dictionary[] = {
#if __has_include("dict.inc")
#include "dict.inc"
#else
    10, 16, 32, 64
#endif
};
constexpr uint32_t special32[] = { 0u, 1u, 0xffffffffu, 0x80000000u, 0x7fffffffu, 2u, 0xfffffffeu, 0x80000001u, 0x0000ffffu, 0x00010000u, 0xffff0000u, 0x000000ffu, 0xff000000u, 0x00ffffffu, 0x01000000u, 0x55555555u, 0xaaaaaaaau, 10u, 0x7ffffffeu, 0x0000ff00u, 3u };

inline uint64_t dict(Src& s) { return dictionary[s.draw(std::size(dictionary) - 1)]; }

inline mpz_class pow2(size_t k) { mpz_class r = 1; mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), k); return r; }
inline mpz_class mod2(const mpz_class& v, size_t bits) { mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), v.get_mpz_t(), bits); return r; }
inline mpz_class fromU64(uint64_t v) { mpz_class r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v); return r; }
template <class I> mpz_class fromInt(I v) {
    if constexpr (std::is_signed_v<I>) { if (v < 0) return -fromU64(0ULL - (uint64_t)(long long)v); }
    return fromU64((uint64_t)v);
}
inline uint64_t lowU64(const mpz_class& v) { mpz_class t = mod2(v, 64); uint64_t r = 0; mpz_export(&r, nullptr, -1, 8, 0, 0, t.get_mpz_t()); return r; }
inline mpz_class fromBlocks(const std::vector<uint32_t>& b) { mpz_class r; mpz_import(r.get_mpz_t(), b.size(), -1, 4, 0, 0, b.data()); return r; }

inline uint32_t block(Src& s) {
    switch (s.draw(3)) { case 0: return s.pick(special32); case 1: return (uint32_t)s.draw(0xffffffffu); case 2: return (uint32_t)(1ULL << s.draw(31)) - (uint32_t)s.draw(1); default: return s.oneIn(2) ? (uint32_t)dict(s) : (uint32_t)s.draw(0xffffffffu); }
}

// machine integer below or around interesting boundaries
inline uint64_t u64(Src& s) {
    switch (s.draw(7)) {
        case 0: return s.draw(16);
        case 1: return s.draw(~0ULL);
        case 2: return (uint64_t)block(s) << 32 | block(s);
        case 3: { const uint64_t k = s.draw(63); return (1ULL << k) + s.draw(4) - 2; }
        case 4: return ~0ULL - s.draw(16);
        case 5: return (uint64_t)block(s);
        case 6: return dict(s) + s.draw(2) - 1;
        default: return 0x100000000ULL - 8 + s.draw(16);
    }
}
template <class I> I integral(Src& s) {
    if constexpr (std::is_same_v<I, bool>) return (bool)s.draw(1);
    else if (s.oneIn(6)) { constexpr I edge[] = { std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), (I)(std::numeric_limits<I>::min() + 1), (I)(std::numeric_limits<I>::max() - 1) }; return edge[s.draw(3)]; }
    else return static_cast<I>(u64(s));
}

// value in [0, 2^bits); 32 | bits
inline mpz_class uvalue(Src& s, size_t bits) {
    const size_t n = bits / 32;
    mpz_class v;
    switch (s.draw(13)) {
        case 0: v = fromU64(s.draw(20)); break;
        case 1: { std::vector<uint32_t> b(n); for (auto& x : b) x = (uint32_t)s.draw(0xffffffffu); v = fromBlocks(b); } break;
        case 2: { std::vector<uint32_t> b(1 + s.draw(n - 1)); for (auto& x : b) x = (uint32_t)s.draw(0xffffffffu); v = fromBlocks(b); v >>= s.draw(31); } break;
        case 3: { std::vector<uint32_t> b(1 + s.draw(n - 1)); for (auto& x : b) x = block(s); v = fromBlocks(b); } break;
        case 4: v = pow2(s.draw(bits)) + mpz_class((long)s.draw(6) - 3); break;
        case 5: { const size_t i = s.draw(bits), j = s.draw(bits); v = pow2(i > j ? i : j) - pow2(i > j ? j : i); } break;
        case 6: v = pow2(bits) - 1 - fromU64(s.oneIn(2) ? s.draw(20) : u64(s)); break;
        case 7: { v = 0; const size_t k = 1 + s.draw(4); for (size_t i = 0; i < k; ++i) mpz_setbit(v.get_mpz_t(), s.draw(bits - 1)); } break;
        case 8: { const uint32_t x = block(s), y = s.coin() ? block(s) : x; std::vector<uint32_t> b(1 + s.draw(n - 1)); for (size_t i = 0; i < b.size(); ++i) b[i] = i % 2 ? y : x; v = fromBlocks(b); } break;
        case 9: { v = fromU64(dict(s)); v <<= (32 * s.draw(n - 1)); v += (long)s.draw(4) - 2; if (s.coin()) v += fromU64(dict(s)); } break;
        case 10: { static constexpr unsigned milliLog2[] = { 1000, 1585, 2000, 2322, 2585, 2808, 3000, 3170, 3322, 3460, 3585, 3701, 3808, 3907, 4000 }; const size_t b = s.draw(14); mpz_ui_pow_ui(v.get_mpz_t(), 2 + b, s.draw(bits * 1000 / milliLog2[b])); v += (long)s.draw(4) - 2; } break; // powers of every small base, up to the whole width
        case 11: v = fromU64(u64(s)); break;
        case 12: { std::vector<uint32_t> b(n); for (auto& x : b) x = s.pick(special32); if (s.coin()) { const size_t z = s.draw(n); for (size_t i = z; i < n; ++i) b[i] = 0; } v = fromBlocks(b); } break;
        default: { std::vector<uint32_t> b(n); const size_t lo = s.draw(n - 1), hi = lo + s.draw(n - 1 - lo); for (size_t i = 0; i < n; ++i) b[i] = i < lo ? 0 : i <= hi ? (uint32_t)s.draw(0xffffffffu) : 0; v = fromBlocks(b); } break;
    }
    return mod2(v, bits);
}
// a value related to a, in [0, 2^bits)
inline mpz_class related(Src& s, const mpz_class& a, size_t bits) {
    const size_t n = bits / 32; mpz_class v;
    switch (s.draw(11)) {
        case 0: v = a; break;
        case 1: v = a + ((long)s.draw(6) - 3); break;
        case 2: v = -a + ((long)s.draw(4) - 2); break;
        case 3: { const size_t k = s.draw(bits - 1); v = a; if (mpz_tstbit(v.get_mpz_t(), k)) mpz_clrbit(v.get_mpz_t(), k); else mpz_setbit(v.get_mpz_t(), k); } break;
        case 4: { const size_t k = 32 * s.draw(n); v = mod2(a, k) + (uvalue(s, bits) >> k << k); } break;           // shared low part
        case 5: { const size_t k = 32 * s.draw(n); v = (a >> k << k) + mod2(uvalue(s, bits), k); } break;           // shared high part
        case 6: v = a >> s.draw(bits - 1); break;
        case 7: v = a << s.draw(bits - 1); break;
        case 8: v = a * fromU64(s.range(2, 40)) + (long)s.draw(2) - 1; break;
        case 9: { const size_t i = 32 * s.draw(n - 1), j = 32 * s.draw(n - 1); v = a; mpz_class x = mod2(a >> i, 32), y = mod2(a >> j, 32); v = v - (x << i) + (y << i); if (i != j) v = v - (y << j) + (x << j); } break; // two blocks swapped
        case 10: { const size_t i = 32 * s.draw(n - 1); mpz_class x = mod2(a >> i, 32); v = a - (x << i) + (fromU64(block(s)) << i); } break; // one block replaced
        default: v = ~a; break;
    }
    return mod2(v, bits);
}
inline mpz_class second(Src& s, const mpz_class& a, size_t bits) { return s.draw(2) == 2 ? related(s, a, bits) : uvalue(s, bits); }

// non-zero divisor with an interesting relation to a
inline mpz_class divisor(Src& s, const mpz_class& a, size_t bits) {
    mpz_class d;
    switch (s.draw(5)) {
        case 0: d = uvalue(s, bits); break;
        case 1: d = related(s, a, bits); break;
        case 2: d = uvalue(s, bits) >> s.draw(bits - 1); break;
        case 3: { const size_t len = mpz_sizeinbase(a.get_mpz_t(), 2); const size_t k = s.draw(len ? len - 1 : 0); d = (a >> k) + (long)s.draw(2) - 1; } break; // quotient near 2^k
        case 4: d = fromU64(u64(s)); break;
        default: d = pow2(s.draw(bits - 1)); break;
    }
    d = mod2(d, bits);
    return d == 0 ? mpz_class(1) : d;
}
inline mpz_class svalue(Src& s, size_t bits) { mpz_class v = uvalue(s, bits); return s.coin() ? mpz_class(-v) : v; }
inline size_t filled(const mpz_class& v) { return v == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 31) / 32; }
} // namespace gen
