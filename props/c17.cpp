// C17: signed addition, subtraction, negation and steps are exact
#include "signedgen.hpp"
using namespace sg;

BODY(add_sub) {
    constexpr size_t N = C::a; const mpz_class a = operand(s, N), b = partner(s, a, N); s.note("a", a); s.note("b", b); s.nontrivial(a != 0 && b != 0 && gen::filled(a) + gen::filled(b) > 2);
    if (a + b == 0) s.label("sum is zero"); if (sgn(a) * sgn(b) < 0) s.label("opposite signs");
    const auto x = S<N>(a), y = S<N>(b);
    expect(s, "a + b", x + y, a + b); expect(s, "b + a", y + x, a + b); expect(s, "a - b", x - y, a - b); expect(s, "b - a", y - x, b - a);
    Aesi<N> t = x; auto& r = (t += y); truth("a += b returns a", &r == &t); expect(s, "a += b", t, a + b);
    t = x; auto& q = (t -= y); truth("a -= b returns a", &q == &t); expect(s, "a -= b", t, a - b);
    t = x; t -= t; seq("a -= a", t, 0); t = x; t += t; expect(s, "a += a", t, 2 * a);
    seq("operand a afterwards", x, a); seq("operand b afterwards", y, b);
}
ENTRY(add_sub, AllW, 500000)
BODY(unary) {
    constexpr size_t N = C::a; mpz_class a = s.oneIn(3) ? mpz_class((long)s.draw(6) - 3) : operand(s, N); s.note("a", a); s.nontrivial(a != 0);
    const auto x = S<N>(a); seq("+a", +x, a); seq("-a", -x, -a); seq("-(-a)", -(-x), a); seq("a + -a", x + -x, 0); { auto c = x; c.inverse(); seq("inverse", c, -a); }
    Aesi<N> t = x; auto& r = ++t; truth("++a returns a", &r == &t); expect(s, "++a", t, a + 1); t = x; auto& q = --t; truth("--a returns a", &q == &t); expect(s, "--a", t, a - 1);
    t = x; auto o = t++; seq("a++ result", o, a); expect(s, "a after a++", t, a + 1); t = x; o = t--; seq("a-- result", o, a); expect(s, "a after a--", t, a - 1);
    mpz_class m = a; t = x; const uint64_t k = s.draw(30); s.note("steps", k); const bool mostly = s.coin();
    for (uint64_t i = 0; i < k; ++i) { const bool up = s.oneIn(4) ? !mostly : mostly; if (up) { ++t; ++m; } else { t--; --m; } if (!fits(m, N)) return; seq("sequence of ++ and --", t, m); }
}
ENTRY(unary, AllW, 250000)
BODY(builtin) {
    constexpr size_t N = C::a;
    withIntegral(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v); mpz_class a = s.coin() ? operand(s, N) : partner(s, b, N); s.note("a", a); s.nontrivial(a != 0 && v != 0); if (a + b == 0) s.label("sum is zero");
        const auto x = S<N>(a);
        expect(s, "a + v", x + v, a + b); expect(s, "v + a", v + x, a + b); expect(s, "a - v", x - v, a - b); expect(s, "v - a", v - x, b - a);
        Aesi<N> t = x; t += v; expect(s, "a += v", t, a + b); t = x; t -= v; expect(s, "a -= v", t, a - b); seq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 400000)
