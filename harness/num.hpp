// Bridge between the library's numbers and the GMP oracle.
#pragma once
#ifndef NO_AESI
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#endif
#include "engine.hpp"
#include "gen.hpp"

namespace num {
using eng::Src; using eng::eq; using eng::truth; using eng::fail; using eng::AllW; using eng::MidW; using eng::PairW; using eng::W;

template <size_t N> Aeu<N> U(const mpz_class& v) {           // v taken modulo 2^N
    Aeu<N> r = 0u; uint32_t b[N / 32] {}; size_t cnt = 0;
    mpz_class t = gen::mod2(v, N); mpz_export(b, &cnt, -1, 4, 0, 0, t.get_mpz_t());
    for (size_t i = 0; i < N / 32; ++i) r.setBlock(i, b[i]);
    return r;
}
template <size_t N> mpz_class Z(const Aeu<N>& v) {
    uint32_t b[N / 32]; for (size_t i = 0; i < N / 32; ++i) b[i] = v.getBlock(i);
    mpz_class r; mpz_import(r.get_mpz_t(), N / 32, -1, 4, 0, 0, b); return r;
}
template <size_t N> Aesi<N> S(const mpz_class& v) {          // |v| < 2^N
    if (v == 0) return Aesi<N>(0);
    Aesi<N> r = v < 0 ? -1 : 1; uint32_t b[N / 32] {}; size_t cnt = 0;
    mpz_class t = abs(v); mpz_export(b, &cnt, -1, 4, 0, 0, t.get_mpz_t());
    for (size_t i = 0; i < N / 32; ++i) r.setBlock(i, b[i]);
    return r;
}
template <size_t N> mpz_class mag(const Aesi<N>& v) {
    uint32_t b[N / 32]; for (size_t i = 0; i < N / 32; ++i) b[i] = v.getBlock(i);
    mpz_class r; mpz_import(r.get_mpz_t(), N / 32, -1, 4, 0, 0, b); return r;
}
// a signed value is coherent when exactly one of the three sign predicates holds and zero is only ever the zero sign with a zero magnitude
template <size_t N> void coherent(const char* what, const Aesi<N>& v) {
    const int z = v.isZero(), p = v.isPositive(), n = v.isNegative();
    if (z + p + n != 1) fail(std::string(what) + ": sign predicates zero/positive/negative are " + std::to_string(z) + std::to_string(p) + std::to_string(n));
    const mpz_class m = mag(v);
    if ((m == 0) != (z == 1)) fail(std::string(what) + ": isZero() is " + std::to_string(z) + " but the magnitude is " + eng::hex(m));
}
template <size_t N> mpz_class Z(const Aesi<N>& v) { mpz_class m = mag(v); return v.isNegative() ? mpz_class(-m) : m; }
// exact signed comparison including the sign/magnitude coherence of the result
template <size_t N> void seq(const char* what, const Aesi<N>& got, const mpz_class& want) { coherent(what, got); eq(what, Z(got), want); }
template <size_t N> void ueq(const char* what, const Aeu<N>& got, const mpz_class& want) { eq(what, Z(got), want); }
inline bool fits(const mpz_class& v, size_t bits) { return v == 0 || mpz_sizeinbase(v.get_mpz_t(), 2) <= bits; }
inline mpz_class tdivq(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_tdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline mpz_class tdivr(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_tdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }

// calls f with a value of one of the built-in integer types
template <class F> void withUnsigned(Src& s, F&& f) {
    switch (s.draw(9)) {
        case 0: { auto v = gen::integral<unsigned>(s); s.note("unsigned", v); f(v); } break;
        case 1: { auto v = gen::integral<unsigned long>(s); s.note("unsigned long", v); f(v); } break;
        case 2: { auto v = gen::integral<unsigned long long>(s); s.note("unsigned long long", v); f(v); } break;
        case 3: { auto v = gen::integral<unsigned short>(s); s.note("unsigned short", v); f(v); } break;
        case 4: { auto v = gen::integral<unsigned char>(s); s.note("unsigned char", v); f(v); } break;
        case 5: { auto v = gen::integral<bool>(s); s.note("bool", v); f(v); } break;
        case 6: { auto v = gen::integral<char8_t>(s); s.note("char8_t", v); f(v); } break;
        case 7: { auto v = gen::integral<char16_t>(s); s.note("char16_t", v); f(v); } break;
        case 8: { auto v = gen::integral<char32_t>(s); s.note("char32_t", v); f(v); } break;
        default: { auto v = gen::integral<unsigned long long>(s); s.note("unsigned long long", v); f(v); } break;
    }
}
template <class F> void withSigned(Src& s, F&& f) {
    switch (s.draw(6)) {
        case 0: { auto v = gen::integral<int>(s); s.note("int", v); f(v); } break;
        case 1: { auto v = gen::integral<long>(s); s.note("long", v); f(v); } break;
        case 2: { auto v = gen::integral<long long>(s); s.note("long long", v); f(v); } break;
        case 3: { auto v = gen::integral<short>(s); s.note("short", v); f(v); } break;
        case 4: { auto v = gen::integral<char>(s); s.note("char", v); f(v); } break;
        case 5: { auto v = gen::integral<wchar_t>(s); s.note("wchar_t", v); f(v); } break;
        default: { auto v = gen::integral<signed char>(s); s.note("signed char", v); f(v); } break;
    }
}
template <class F> void withIntegral(Src& s, F&& f) { if (s.coin()) withSigned(s, f); else withUnsigned(s, f); }
} // namespace num
