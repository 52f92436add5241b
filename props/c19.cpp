// C19: signed division truncates toward zero, the remainder has the dividend's sign, and a = q*d + r
#include "signedgen.hpp"
using namespace sg;

BODY(division) {
    constexpr size_t N = C::a; mpz_class a, d;
    if (s.draw(3) == 3) { const size_t k = 1 + s.draw(N - 2); d = gen::mod2(gen::uvalue(s, N), k); if (d == 0) d = 1; const mpz_class q = gen::mod2(gen::uvalue(s, N), N - k); mpz_class r = s.coin() ? mpz_class(0) : mpz_class(d - 1); a = gen::mod2(d * q + r, N); }
    else { a = gen::uvalue(s, N); d = gen::divisor(s, a, N); }
    if (s.coin()) a = -a; if (s.coin()) d = -d; s.note("a", a); s.note("d", d);
    const mpz_class q = tdivq(a, d), r = tdivr(a, d); s.nontrivial(q != 0 && abs(d) > 1 && gen::filled(a) > 1); if (r == 0) s.label("exact"); if (a < 0) s.label("negative dividend"); if (d < 0) s.label("negative divisor"); if (q == 0) s.label("quotient zero");
    const auto x = S<N>(a), y = S<N>(d);
    Aesi<N> Q = S<N>(s.coin() ? gen::svalue(s, N) : mpz_class(7)), R = S<N>(s.coin() ? gen::svalue(s, N) : mpz_class(0)); Aesi<N>::divide(x, y, Q, R); seq("divide quotient", Q, q); seq("divide remainder", R, r);
    seq("a / d", x / y, q); seq("a % d", x % y, r);
    Aesi<N> t = x; auto& r1 = (t /= y); truth("a /= d returns a", &r1 == &t); seq("a /= d", t, q); t = x; auto& r2 = (t %= y); truth("a %= d returns a", &r2 == &t); seq("a %= d", t, r);
    if (fits(q * d, N)) seq("(a/d)*d + a%d", (x / y) * y + x % y, a);
    if (a != 0) { t = x; t /= t; seq("a /= a", t, 1); t = x; t %= t; seq("a %= a", t, 0); }
    seq("operand a afterwards", x, a); seq("operand d afterwards", y, d);
}
ENTRY(division, AllW, 130000, 2.2, 24)
BODY(builtin) {
    constexpr size_t N = C::a; mpz_class a = operand(s, N);
    withIntegral(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v); if (s.oneIn(3)) { a = gen::mod2(b * b * (long)s.draw(3) + (long)s.draw(2), N); if (s.coin()) a = -a; } s.note("a", a); s.nontrivial(a != 0 && v != 0 && abs(b) > 1);
        const auto x = S<N>(a); Aesi<N> t = x;
        if (v != 0) { seq("a / v", x / v, tdivq(a, b)); seq("a % v", x % v, tdivr(a, b)); t /= v; seq("a /= v", t, tdivq(a, b)); t = x; t %= v; seq("a %= v", t, tdivr(a, b)); }
        if (a != 0) { seq("v / a", v / x, tdivq(b, a)); seq("v % a", v % x, tdivr(b, a)); }
        seq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 130000, 2.2, 24)
