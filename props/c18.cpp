// C18: signed multiplication is exact whenever the product fits
#include "signedgen.hpp"
using namespace sg;

BODY(mul) {
    constexpr size_t N = C::a; mpz_class a = gen::svalue(s, N), b = partner(s, a, N);
    if (s.draw(3)) { const size_t len = a == 0 ? 1 : mpz_sizeinbase(a.get_mpz_t(), 2); const size_t room = N - len + (s.coin() ? 1 : 0); mpz_class r = gen::mod2(abs(b), room); b = b < 0 ? mpz_class(-r) : r; }
    s.note("a", a); s.note("b", b); s.nontrivial(gen::filled(a) > 1 && b != 0); const mpz_class p = a * b; if (fits(p, N)) s.label("product fits");
    const auto x = S<N>(a), y = S<N>(b);
    expect(s, "a * b", x * y, p); expect(s, "b * a", y * x, p); Aesi<N> t = x; auto& r = (t *= y); truth("a *= b returns a", &r == &t); expect(s, "a *= b", t, p);
    t = y; t *= t; expect(s, "b *= b", t, b * b); seq("operand a afterwards", x, a); seq("operand b afterwards", y, b);
}
ENTRY(mul, AllW, 400000, 1.6)
BODY(laws) {
    constexpr size_t N = C::a; const mpz_class a = gen::svalue(s, N / 64 * 32), b = gen::svalue(s, N / 64 * 32 - (N > 96 ? 16 : 0)), c = partner(s, b, N / 64 * 32 - (N > 96 ? 16 : 0)); s.note("a", a); s.note("b", b); s.note("c", c); s.nontrivial(a != 0 && b != 0 && c != 0);
    if (!fits(a * (b + c), N) || !fits(a * b, N) || !fits(a * c, N) || !fits(b + c, N)) return;
    const auto x = S<N>(a), y = S<N>(b), z = S<N>(c); seq("a*(b+c)", x * (y + z), a * (b + c)); seq("a*b + a*c", x * y + x * z, a * (b + c)); seq("(-a)*b", (-x) * y, -a * b); seq("-(a*b)", -(x * y), -a * b);
}
ENTRY(laws, MidW, 150000, 1.6)
BODY(builtin) {
    constexpr size_t N = C::a; mpz_class a = operand(s, N);
    withIntegral(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v); if (s.coin() && N > 64) { mpz_class r = gen::mod2(abs(a), N - 64); a = a < 0 ? mpz_class(-r) : r; } s.note("a", a); s.nontrivial(gen::filled(a) > 1 && v != 0 && v != 1);
        const mpz_class p = a * b; const auto x = S<N>(a); Aesi<N> t = x;
        expect(s, "a * v", x * v, p); expect(s, "v * a", v * x, p); auto& r = (t *= v); truth("a *= v returns a", &r == &t); expect(s, "a *= v", t, p); seq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 400000)
