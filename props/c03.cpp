// C03: unsigned division returns the floor quotient and the matching remainder
#include "num.hpp"
using namespace num;

BODY(division) {
    constexpr size_t N = C::a;
    mpz_class a, d;
    if (s.draw(3) == 3) { // built from the identity: a = d*q + r
        const size_t k = 1 + s.draw(N - 2); d = gen::mod2(gen::uvalue(s, N), k); if (d == 0) d = 1;
        mpz_class q = gen::mod2(gen::uvalue(s, N), N - k), r;
        switch (s.draw(3)) { case 0: r = 0; break; case 1: r = d - 1; break; case 2: r = gen::uvalue(s, N) % d; break; default: r = d / 2; }
        a = gen::mod2(d * q + r, N);
    } else { a = gen::uvalue(s, N); d = gen::divisor(s, a, N); }
    s.note("a", a); s.note("d", d);
    const mpz_class q = a / d, r = a % d; s.nontrivial(q > 1 && d > 1 && gen::filled(a) > 1);
    if (r == 0) s.label("exact"); if (gen::filled(d) > 1) s.label("multi-block divisor"); if (a < d) s.label("dividend below divisor");
    const Aeu<N> x = U<N>(a), y = U<N>(d);
    Aeu<N> Q = U<N>(gen::mod2(~a, N)), R = U<N>(d + 5);
    Aeu<N>::divide(x, y, Q, R); ueq("divide quotient", Q, q); ueq("divide remainder", R, r);
    const auto pr = Aeu<N>::divide(x, y); ueq("divide pair quotient", pr.first, q); ueq("divide pair remainder", pr.second, r);
    ueq("a / d", x / y, q); ueq("a % d", x % y, r);
    Aeu<N> t = x; Aeu<N>& r1 = (t /= y); truth("a /= d returns a", &r1 == &t); ueq("a /= d", t, q);
    t = x; Aeu<N>& r2 = (t %= y); truth("a %= d returns a", &r2 == &t); ueq("a %= d", t, r);
    if (a != 0 && s.oneIn(4)) { t = x; t /= t; ueq("a /= a", t, 1); t = x; t %= t; ueq("a %= a", t, 0); }
    ueq("operand a afterwards", x, a); ueq("operand d afterwards", y, d);
}
ENTRY(division, AllW, 6000, 2.2, 24)

BODY(builtin) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N); s.note("a", a);
    withUnsigned(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v); s.nontrivial(v > 1 && gen::filled(a) > 1);
        const Aeu<N> x = U<N>(a); Aeu<N> t = x;
        if (v) {
            ueq("a / v", x / v, a / b); ueq("a % v", x % v, a % b);
            t /= v; ueq("a /= v", t, a / b); t = x; t %= v; ueq("a %= v", t, a % b);
        }
        if (a != 0) { ueq("v / a", v / x, b / a); ueq("v % a", v % x, b % a); }
        ueq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 6000, 2.2, 24)
