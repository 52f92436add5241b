// C01: unsigned addition, subtraction, negation, increment, decrement are exact modulo 2^N
#include "num.hpp"
using namespace num;

BODY(add_sub) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N), b = gen::second(s, a, N);
    s.note("a", a); s.note("b", b); s.nontrivial(gen::filled(a) > 1 && b != 0);
    const mpz_class sum = gen::mod2(a + b, N), dif = gen::mod2(a - b, N);
    if (sum != a + b) s.label("sum wraps");
    if (a < b) s.label("difference wraps");
    const Aeu<N> x = U<N>(a), y = U<N>(b);
    ueq("a + b", x + y, sum); ueq("a - b", x - y, dif);
    ueq("b + a", y + x, sum); ueq("b - a", y - x, gen::mod2(b - a, N));
    Aeu<N> t = x; Aeu<N>& r = (t += y); truth("a += b returns a", &r == &t); ueq("a += b", t, sum);
    t = x; Aeu<N>& q = (t -= y); truth("a -= b returns a", &q == &t); ueq("a -= b", t, dif);
    t -= x; ueq("(a - b) - a", t, gen::mod2(-b, N));
    t = x; t += t; ueq("a += a", t, gen::mod2(2 * a, N));
    t = y; t -= t; ueq("b -= b", t, 0);
    ueq("(a + b) - b", (x + y) - y, a);
    ueq("operand a afterwards", x, a); ueq("operand b afterwards", y, b);
}
ENTRY(add_sub, AllW, 12000)

BODY(unary) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N); s.note("a", a); s.nontrivial(gen::filled(a) > 1 || a == 0 || a == gen::pow2(N) - 1);
    const Aeu<N> x = U<N>(a);
    ueq("+a", +x, a); ueq("-a", -x, gen::mod2(-a, N)); ueq("-(-a)", -(-x), a); ueq("a + -a", x + -x, 0);
    Aeu<N> t = x; Aeu<N>& r = ++t; truth("++a returns a", &r == &t); ueq("++a", t, gen::mod2(a + 1, N));
    t = x; Aeu<N>& q = --t; truth("--a returns a", &q == &t); ueq("--a", t, gen::mod2(a - 1, N));
    t = x; Aeu<N> old = t++; ueq("a++ result", old, a); ueq("a after a++", t, gen::mod2(a + 1, N));
    t = x; old = t--; ueq("a-- result", old, a); ueq("a after a--", t, gen::mod2(a - 1, N));
    const uint64_t k = s.draw(40); mpz_class m = a; t = x; s.note("steps", k);
    for (uint64_t i = 0; i < k; ++i) { if (s.coin()) { ++t; ++m; } else { t--; --m; } }
    ueq("sequence of ++ and --", t, gen::mod2(m, N));
    ueq("operand afterwards", x, a);
}
ENTRY(unary, AllW, 10000)

BODY(builtin) {
    constexpr size_t N = C::a;
    mpz_class a = gen::uvalue(s, N);
    withUnsigned(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v);
        // half of the time put the number next to the point where adding or subtracting v ripples through blocks
        if (s.draw(2) == 2) { const size_t k = 32 * s.draw(N / 32); a = gen::mod2(gen::pow2(k) * (s.coin() ? a : mpz_class(1)) - (s.coin() ? b : mpz_class(0)) + (long)s.draw(2) - 1, N); }
        s.note("a", a); s.nontrivial(v > 1 && gen::filled(a) > 1);
        const mpz_class sum = gen::mod2(a + b, N), dif = gen::mod2(a - b, N);
        const Aeu<N> x = U<N>(a); Aeu<N> t = x;
        ueq("a + v", x + v, sum); ueq("v + a", v + x, sum); ueq("a - v", x - v, dif); ueq("v - a", v - x, gen::mod2(b - a, N));
        Aeu<N>& r = (t += v); truth("a += v returns a", &r == &t); ueq("a += v", t, sum);
        t = x; t -= v; ueq("a -= v", t, dif);
        ueq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 12000)
