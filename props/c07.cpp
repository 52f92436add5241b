// C07: bit, byte and block accessors address one position of the same number; counts and parity agree; out-of-range indices do nothing
#include "num.hpp"
using namespace num;

static mpz_class patch(const mpz_class& m, size_t at, size_t len, const mpz_class& v, size_t N) { // replace `len` bits from `at`
    if (at >= N) return m;
    const mpz_class mask = (gen::pow2(len) - 1) << at; return gen::mod2((m & ~mask) | (gen::mod2(v, len) << at), N);
}
template <size_t N> static size_t index(Src& s, size_t limit) { // positions of interest, inside and outside
    switch (s.draw(6)) {
        case 0: return s.draw(limit - 1);
        case 1: return limit - 1 - s.draw(limit > 8 ? 8 : limit - 1);
        case 2: return limit + s.draw(8);
        case 3: return s.draw(limit * 2);
        case 4: { if (s.coin()) return (size_t)gen::u64(s); return ((size_t)1 << (8 + s.draw(55))) + s.draw(limit - 1); } // an index that a narrower type or a product with the block size would wrap into the number
        case 5: return limit * (1 + s.draw(40)) + s.draw(3);
        default: return (32 * s.draw(limit / 32 + 1) + s.draw(2)) % (limit + 2);
    }
}
template <size_t N, class T> static void observe(Src& s, const T& x, const mpz_class& m) {
    const size_t bits = m == 0 ? 0 : mpz_sizeinbase(m.get_mpz_t(), 2);
    eq("bitCount", (size_t)x.bitCount(), bits); eq("byteCount", (size_t)x.byteCount(), (bits + 7) / 8); eq("filledBlocksNumber", (size_t)x.filledBlocksNumber(), (bits + 31) / 32);
    eq("isOdd", (bool)x.isOdd(), (bool)mpz_tstbit(m.get_mpz_t(), 0)); eq("isEven", (bool)x.isEven(), !mpz_tstbit(m.get_mpz_t(), 0));
    for (int k = 0; k < 3; ++k) {
        const size_t i = index<N>(s, N), j = index<N>(s, N / 8), b = index<N>(s, N / 32);
        eq("getBit", (bool)x.getBit(i), i < N && mpz_tstbit(m.get_mpz_t(), i));
        eq("getByte", (uint64_t)x.getByte(j), j < N / 8 ? gen::lowU64(mpz_class(m >> (8 * j))) & 0xff : 0);
        eq("getBlock", (uint64_t)x.getBlock(b), b < N / 32 ? gen::lowU64(mpz_class(m >> (32 * b))) & 0xffffffff : 0);
    }
}
template <size_t N, class T> static void steps(Src& s, T& x, mpz_class& m) {
    const size_t k = 1 + s.draw(11); bool inside = false, outside = false;
    for (size_t i = 0; i < k; ++i) {
        switch (s.draw(2)) {
            case 0: { const size_t p = index<N>(s, N); const bool v = s.coin(); s.note("setBit index", p); s.note("bit", v); x.setBit(p, v); m = patch(m, p < N ? p : N, 1, v, N); (p < N ? inside : outside) = true; } break;
            case 1: { const size_t p = index<N>(s, N / 8); const uint8_t v = (uint8_t)(s.coin() ? s.draw(255) : s.coin() ? 255 : 128); s.note("setByte index", p); s.note("byte", v); x.setByte(p, v); m = patch(m, p < N / 8 ? 8 * p : N, 8, v, N); (p < N / 8 ? inside : outside) = true; } break;
            default: { const size_t p = index<N>(s, N / 32); const uint32_t v = gen::block(s); s.note("setBlock index", p); s.note("block", v); x.setBlock(p, v); m = patch(m, p < N / 32 ? 32 * p : N, 32, gen::fromU64(v), N); (p < N / 32 ? inside : outside) = true; } break;
        }
    }
    s.nontrivial(inside); if (outside) s.label("out-of-range index");
}
template <size_t N> struct Named { using U = void; using S = void; };   // the names the headers give to precisions
#define NAMED(K) template <> struct Named<K> { using U = Aeu##K; using S = Aesi##K; };
NAMED(128) NAMED(256) NAMED(512) NAMED(768) NAMED(1024) NAMED(1536) NAMED(2048) NAMED(3072) NAMED(4096) NAMED(6144) NAMED(8192)
BODY(named) {
    constexpr size_t N = C::a; using NU = typename Named<N>::U; using NS = typename Named<N>::S;
    if constexpr (!std::is_void_v<NU>) {
        mpz_class m = gen::uvalue(s, N); if (m == 0) m = 1; s.note("a", m); s.nontrivial(gen::filled(m) == N / 32);
        eq("same type as the spelled-out one", std::is_same_v<NU, Aeu<N>> && std::is_same_v<NS, Aesi<N>>, true); eq("bitness of the named types", (size_t)NU::getBitness() + NS::getBitness(), 2 * N);
        NU x = 0u; NS y = 1; for (size_t i = 0; i < N / 32; ++i) { const uint32_t b = (uint32_t)gen::lowU64(mpz_class(m >> (32 * i))); x.setBlock(i, b); y.setBlock(i, b); }
        observe<N>(s, x, m); observe<N>(s, y, m);
    }
}
ENTRY(named, AllW, 4000)
BODY(aeu) {
    constexpr size_t N = C::a; mpz_class m = gen::uvalue(s, N); s.note("a", m);
    Aeu<N> x = U<N>(m); observe<N>(s, x, m); steps<N>(s, x, m); ueq("value after the accessors", x, m); observe<N>(s, x, m);
    eq("isZero", (bool)x.isZero(), m == 0); eq("getBitness", (size_t)Aeu<N>::getBitness(), N); eq("totalBlocksNumber", (size_t)Aeu<N>::totalBlocksNumber(), N / 32);
}
ENTRY(aeu, AllW, 500000)
BODY(aesi) {
    constexpr size_t N = C::a; mpz_class m = gen::uvalue(s, N); if (m == 0) m = 1; const bool neg = s.coin(); s.note("a", mpz_class(neg ? mpz_class(-m) : m));
    Aesi<N> x = S<N>(neg ? mpz_class(-m) : m); observe<N>(s, x, m); steps<N>(s, x, m); eq("magnitude after the accessors", mag(x), m); observe<N>(s, x, m);
    eq("isNegative afterwards", (bool)x.isNegative(), neg); eq("isPositive afterwards", (bool)x.isPositive(), !neg);
    eq("getBitness", (size_t)Aesi<N>::getBitness(), N); eq("totalBlocksNumber", (size_t)Aesi<N>::totalBlocksNumber(), N / 32);
}
ENTRY(aesi, AllW, 300000)
BODY(rebuild) { // the three views describe one number: rebuild it from each
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); s.note("a", m); s.nontrivial(gen::filled(m) > 1);
    const Aeu<N> x = U<N>(m); Aeu<N> a = 0u, b = 0u, c = 0u;
    for (size_t i = 0; i < N; ++i) a.setBit(i, x.getBit(i));
    for (size_t i = 0; i < N / 8; ++i) b.setByte(i, x.getByte(i));
    for (size_t i = 0; i < N / 32; ++i) c.setBlock(i, x.getBlock(i));
    ueq("rebuilt from bits", a, m); ueq("rebuilt from bytes", b, m); ueq("rebuilt from blocks", c, m);
}
ENTRY(rebuild, AllW, 60000)
