// C16: squareRoot is the integer square root, power2 the power of two
#include "num.hpp"
using namespace num;

static mpz_class radicand(Src& s, size_t N) { mpz_class r; switch (s.draw(4)) { case 0: return gen::uvalue(s, N); case 1: { const mpz_class t = gen::mod2(gen::uvalue(s, N), N / 2); return gen::mod2(t * t + (long)s.draw(2) - 1, N); } case 2: { const mpz_class t = gen::mod2(gen::uvalue(s, N), 1 + s.draw(N / 2 - 1)); return gen::mod2(t * (t + 2) + (long)s.draw(2) - 1, N); } case 3: return gen::mod2(gen::pow2(s.draw(N)) + (long)s.draw(4) - 2, N); default: return gen::mod2(gen::uvalue(s, N), 1 + s.draw(N - 1)); } }
BODY(root_aeu) {
    constexpr size_t N = C::a; const mpz_class a = radicand(s, N); s.note("a", a); s.nontrivial(a > 3); if (mpz_perfect_square_p(a.get_mpz_t())) s.label("perfect square");
    const auto x = U<N>(a); ueq("squareRoot", x.squareRoot(), sqrt(a)); ueq("operand afterwards", x, a);
}
ENTRY(root_aeu, AllW, 24000, 2.4, 16)
BODY(root_aesi) {
    constexpr size_t N = C::a; mpz_class a = radicand(s, N); if (s.oneIn(3)) a = -a; s.note("a", a); s.nontrivial(a > 3);
    const auto x = S<N>(a); seq("squareRoot", x.squareRoot(), a > 0 ? mpz_class(sqrt(a)) : mpz_class(0)); seq("operand afterwards", x, a);
}
ENTRY(root_aesi, AllW, 12000, 2.4, 16)
BODY(power2) { // every exponent below the precision, enumerated
    constexpr size_t N = C::a; const size_t k = s.cycle(N); s.note("k", k); s.nontrivial(k > 0); ueq("Aeu power2", Aeu<N>::power2(k), gen::pow2(k)); seq("Aesi power2", Aesi<N>::power2(k), gen::pow2(k));
    size_t big = N + (size_t)(s.coin() ? s.draw(100) : gen::u64(s)); if (big < N) big = ~(size_t)0; s.note("big", big); ueq("Aeu power2 beyond the precision", Aeu<N>::power2(big), 0); seq("Aesi power2 beyond the precision", Aesi<N>::power2(big), 0);
}
template <class... Ws> static int regAll(eng::List<Ws...> l) { return eng::reg<power2>(l, 24000, 1, 17000); }
static const int r1 = regAll(eng::AllW{});
