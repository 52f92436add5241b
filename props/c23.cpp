// C23: GMP integers convert and compare exactly
#include "signedgen.hpp"
using namespace sg;

static mpz_class any(Src& s, size_t N, bool sign) { mpz_class v; if (s.oneIn(100)) { v = gen::uvalue(s, N) + gen::uvalue(s, 256) * gen::pow2(s.draw(140000)); return sign && s.coin() ? mpz_class(-v) : v; } switch (s.draw(4)) { case 0: v = gen::uvalue(s, N); break; case 1: v = gen::uvalue(s, N + 32 * (1 + s.draw(6))); break; case 2: v = gen::pow2(N) + (long)s.draw(6) - 3; break; case 3: v = gen::uvalue(s, N) + gen::uvalue(s, N) * gen::pow2(N + s.draw(80)); break; default: v = gen::mod2(gen::uvalue(s, N), 1 + s.draw(N - 1)); } return sign && s.coin() ? mpz_class(-v) : v; }
BODY(construct_aeu) { constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); s.note("z", m); s.nontrivial(gen::filled(m) > 1); const Aeu<N> x(m); ueq("Aeu(z)", x, m); Aeu<N> y = m; ueq("Aeu = z", y, m); y = U<N>(gen::uvalue(s, N)); y = m; ueq("assigned z", y, m); y = U<N>(3); y = mpz_class(m); ueq("assigned again", y, m); truth("x == z", x == m); truth("x == z + 0", x == m + 0); if (m > 0) { truth("x == z - 1", !(x == m - 1)); } truth("x != z", !(x != m)); truth("z == x", m == x); }
ENTRY(construct_aeu, AllW, 300000)
BODY(construct_aesi) { constexpr size_t N = C::a; const mpz_class m = gen::svalue(s, N); s.note("z", m); s.nontrivial(gen::filled(m) > 1); const Aesi<N> x(m); seq("Aesi(z)", x, m); Aesi<N> y = m; seq("Aesi = z", y, m); y = S<N>(gen::svalue(s, N)); y = m; seq("assigned z", y, m); y = S<N>(-3); y = mpz_class(m); seq("assigned again", y, m); truth("x == z", x == m); truth("x == z * 1", x == m * 1); truth("x == z + 1", !(x == m + 1)); if (m != 0) truth("x == -z", !(x == -m)); truth("x != z", !(x != m)); }
ENTRY(construct_aesi, AllW, 300000)
BODY(equality) { // also against integers that do not fit
    constexpr size_t N = C::a; const mpz_class a = gen::uvalue(s, N); mpz_class z;
    switch (s.draw(3)) { case 0: z = any(s, N, true); break; case 1: z = a + gen::pow2(N + 32 * s.draw(4)); break; case 2: z = gen::related(s, a, N); break; default: z = -a; }
    const bool neg = s.coin(); const mpz_class sa = neg ? mpz_class(-a) : a; s.note("a", a); s.note("negated", neg); s.note("z", z); s.nontrivial(z != 0); if (!fits(abs(z), N)) s.label("does not fit");
    const auto x = U<N>(a); const auto y = S<N>(sa); truth("Aeu == z", (x == z) == (a == z)); truth("Aesi == z", (y == z) == (sa == z)); truth("Aeu == expression", (x == z + 0) == (a == z)); truth("Aesi == expression", (y == z * 1) == (sa == z));
    truth("Aeu != z", (x != z) == (a != z)); truth("Aesi != z", (y != z) == (sa != z));
}
ENTRY(equality, AllW, 300000)
BODY(does_not_fit) { // constructing from a wider integer keeps the low bits of the magnitude
    constexpr size_t N = C::a; const mpz_class z = any(s, N, true); s.note("z", z); s.nontrivial(!fits(abs(z), N)); mpz_class w = gen::mod2(abs(z), N); const Aesi<N> y(z); seq("Aesi(z)", y, z < 0 ? mpz_class(-w) : w); if (z >= 0) ueq("Aeu(z)", Aeu<N>(z), w);
}
ENTRY(does_not_fit, AllW, 200000)
