// C15: powm equals base^power mod modulo whenever the squares of residues fit the precision
#include "num.hpp"
using namespace num;

static mpz_class modulus(Src& s, size_t N) { // (m-1)^2 < 2^N
    const mpz_class top = gen::pow2(N / 2); mpz_class m;
    switch (s.draw(5)) { case 0: m = 1 + s.draw(16); break; case 1: m = top - s.draw(8); break; case 2: m = gen::mod2(gen::uvalue(s, N), N / 2) + 1; break; case 3: { mpz_class t = gen::mod2(gen::uvalue(s, N), N / 2); mpz_nextprime(m.get_mpz_t(), gen::mod2(t, 64).get_mpz_t()); } break; case 4: m = gen::pow2(s.draw(N / 2)); break; default: m = gen::mod2(gen::uvalue(s, N), 1 + s.draw(N / 2 - 1)) | 1; }
    if (m < 1) m = 1; if (m > top) m = top; return m;
}
template <size_t N, size_t P> static void drive(Src& s) {
    constexpr size_t usual = N <= 128 ? 2048 : N <= 256 ? 300 : N <= 1024 ? 64 : 8, rare = N <= 512 ? 600 : N <= 1024 ? 1024 : 3 * 131072 / N; // long powers cost N^2 per bit
    const size_t powerBits = std::min(P, s.oneIn(N <= 512 ? 4 : 8) ? std::max(usual, rare) : N <= 128 && s.coin() ? 300 : usual);
    const mpz_class m = modulus(s, N); mpz_class b, e;
    switch (s.draw(4)) { case 0: b = gen::uvalue(s, N); break; case 1: b = gen::mod2(gen::uvalue(s, N), N / 2) % m; break; case 2: b = gen::mod2(m * (1 + s.draw(5)) + (long)s.draw(2) - 1, N); break; case 3: b = s.draw(3); break; default: b = m - 1 - s.draw(1) * (m > 2); }
    e = s.oneIn(6) ? mpz_class(s.draw(3)) : gen::mod2(gen::uvalue(s, P), s.coin() ? powerBits : 1 + s.draw(powerBits - 1));
    s.note("base", b); s.note("power", e); s.note("modulo", m); s.nontrivial(b > 1 && e > 1 && m > 2); if (b >= m) s.label("base not reduced"); if (m == 1) s.label("modulo 1"); if (e == 0) s.label("power 0"); if (b % m == 0) s.label("base divisible by modulo");
    mpz_class want; mpz_powm(want.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    const Aeu<N> x = U<N>(b), z = U<N>(m); const Aeu<P> y = U<P>(e);
    ueq("powm(base, power, modulo)", Aeu<N>::powm(x, y, z), want);
    if constexpr (N == P) ueq("powm with explicit power precision", Aeu<N>::template powm<P>(x, y, z), want);
    ueq("base afterwards", x, b); ueq("power afterwards", y, e); ueq("modulo afterwards", z, m);
}
BODY(same_precision) { constexpr size_t N = C::a; drive<N, N>(s); }
ENTRY(same_precision, AllW, 9000, 2.6, 12)
BODY(cross_precision) { constexpr size_t N = C::a, P = C::b; drive<N, P>(s); }
ENTRY(cross_precision, PairW, 5000, 2.4, 12)
BODY(laws) { // g^(x+y) = g^x g^y mod m
    constexpr size_t N = C::a; const mpz_class m = modulus(s, N), b = gen::uvalue(s, N), x = gen::mod2(gen::uvalue(s, N), 40), y = gen::mod2(gen::uvalue(s, N), 40); s.note("base", b); s.note("x", x); s.note("y", y); s.note("modulo", m); s.nontrivial(b > 1 && x > 1 && y > 1 && m > 2);
    const Aeu<N> B = U<N>(b), M = U<N>(m); const Aeu<N> l = Aeu<N>::powm(B, U<N>(x + y), M), r = Aeu<N>::powm(B, U<N>(x), M) * Aeu<N>::powm(B, U<N>(y), M) % M; eq("g^(x+y) against g^x * g^y", Z(l), Z(r));
}
using L = eng::List<W<256>, W<96>, W<128>, W<160>, W<192>, W<224>, W<288>, W<384>, W<512>, W<768>, W<1024>, W<2048>>;
ENTRY(laws, L, 3000, 2.0, 24)
