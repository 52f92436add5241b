// C13: casts keep the value when it fits and the low bits otherwise
#include "num.hpp"
using namespace num;

template <size_t M> static mpz_class nearFit(Src& s, size_t N) { // values around the narrower precision
    mpz_class v = gen::uvalue(s, N);
    switch (s.draw(4)) { case 0: return v; case 1: return gen::mod2(gen::uvalue(s, N) << M, N); case 2: return gen::mod2(gen::pow2(M) + (long)s.draw(4) - 2, N); case 3: return gen::mod2(v, M); default: return gen::mod2(v << s.draw(M), N); }
}
BODY(precision_aeu) {
    constexpr size_t N = C::a, M = C::b; const mpz_class m = nearFit<M>(s, N); s.note("a", m); s.nontrivial(gen::filled(m) > 1); if (!fits(m, M)) s.label("cropped");
    const auto x = U<N>(m); const auto y = x.template precisionCast<M>(); ueq("precisionCast", y, gen::mod2(m, M)); ueq("operand afterwards", x, m);
    if (fits(m, M)) { truth("cast == original", y == x); ueq("cast there and back", y.template precisionCast<N>(), m); }
}
ENTRY(precision_aeu, PairW, 400000)
BODY(precision_aesi) {
    constexpr size_t N = C::a, M = C::b; mpz_class m = nearFit<M>(s, N); if (s.coin()) m = -m; s.note("a", m); s.nontrivial(gen::filled(m) > 1 && m < 0);
    const auto x = S<N>(m); const auto y = x.template precisionCast<M>(); mpz_class w = gen::mod2(abs(m), M); if (m < 0) w = -w; if (!fits(m, M)) s.label("cropped");
    seq("precisionCast", y, w); seq("operand afterwards", x, m); if (fits(m, M)) { truth("cast == original", y == x); seq("cast there and back", y.template precisionCast<N>(), m); }
}
ENTRY(precision_aesi, PairW, 300000)
template <class I, size_t N> static void intAeu(const char* t, const Aeu<N>& x, const mpz_class& m) { eq(t, (uint64_t)x.template integralCast<I>(), (uint64_t)(I)gen::lowU64(m)); }
BODY(integral_aeu) {
    constexpr size_t N = C::a; const mpz_class m = s.coin() ? gen::uvalue(s, N) : gen::fromU64(gen::u64(s)); s.note("a", m); s.nontrivial(m > 255); const auto x = U<N>(m);
    intAeu<unsigned char>("integralCast<unsigned char>", x, m); intAeu<signed char>("integralCast<signed char>", x, m); intAeu<unsigned short>("integralCast<unsigned short>", x, m); intAeu<short>("integralCast<short>", x, m);
    intAeu<unsigned>("integralCast<unsigned>", x, m); intAeu<int>("integralCast<int>", x, m); intAeu<unsigned long>("integralCast<unsigned long>", x, m); intAeu<long>("integralCast<long>", x, m); intAeu<unsigned long long>("integralCast<unsigned long long>", x, m); intAeu<long long>("integralCast<long long>", x, m);
}
ENTRY(integral_aeu, AllW, 300000)
template <class I, size_t N> static void intAesi(const char* t, const Aesi<N>& x, const mpz_class& m) {
    if (m < gen::fromInt(std::numeric_limits<I>::min()) || m > gen::fromInt(std::numeric_limits<I>::max())) return;
    eq(t, gen::fromInt(x.template integralCast<I>()), m);
}
BODY(integral_aesi) { // in-range values are exact
    constexpr size_t N = C::a; mpz_class m; switch (s.draw(3)) { case 0: m = gen::fromInt(gen::integral<long long>(s)); break; case 1: m = gen::fromU64(gen::u64(s)); break; case 2: m = gen::fromInt(gen::integral<short>(s)); break; default: m = gen::svalue(s, 64); } s.note("a", m); s.nontrivial(m < 0 || m > 255); const auto x = S<N>(m);
    intAesi<unsigned char>("integralCast<unsigned char>", x, m); intAesi<signed char>("integralCast<signed char>", x, m); intAesi<unsigned short>("integralCast<unsigned short>", x, m); intAesi<short>("integralCast<short>", x, m);
    intAesi<unsigned>("integralCast<unsigned>", x, m); intAesi<int>("integralCast<int>", x, m); intAesi<unsigned long>("integralCast<unsigned long>", x, m); intAesi<long>("integralCast<long>", x, m); intAesi<unsigned long long>("integralCast<unsigned long long>", x, m); intAesi<long long>("integralCast<long long>", x, m);
}
ENTRY(integral_aesi, AllW, 300000)
BODY(between_classes) {
    constexpr size_t N = C::a; const mpz_class m = gen::svalue(s, N); s.note("a", m); s.nontrivial(gen::filled(m) > 1);
    const auto x = S<N>(m); ueq("unsignedCast", x.unsignedCast(), abs(m)); const auto u = U<N>(abs(m)); seq("Aesi(Aeu)", Aesi<N>(u), abs(m)); seq("operand afterwards", x, m);
    seq("+a", +x, m); seq("Aesi(unsignedCast)", Aesi<N>(x.unsignedCast()), abs(m));
}
ENTRY(between_classes, AllW, 300000)
