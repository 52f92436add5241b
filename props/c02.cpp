// C02: unsigned multiplication is exact modulo 2^N
#include "num.hpp"
using namespace num;

static mpz_class factor(Src& s, const mpz_class& a, size_t N) {
    switch (s.draw(3)) {
        case 0: return gen::second(s, a, N);
        case 1: { const size_t len = gen::filled(a) * 32, rest = len < N ? N - len : 32; return gen::mod2(gen::uvalue(s, N), rest); }   // product just fits
        case 2: return gen::mod2(gen::uvalue(s, N), 32 * (1 + s.draw(N / 32 - 1)));
        default: { const size_t k = s.draw(N - 1); return gen::mod2(gen::pow2(k) + (long)s.draw(2) - 1, N); }
    }
}
BODY(mul) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N), b = factor(s, a, N);
    s.note("a", a); s.note("b", b); s.nontrivial(gen::filled(a) > 1 && gen::filled(b) > 1);
    const mpz_class p = gen::mod2(a * b, N); if (p != a * b) s.label("product wraps");
    const Aeu<N> x = U<N>(a), y = U<N>(b);
    ueq("a * b", x * y, p); ueq("b * a", y * x, p);
    Aeu<N> t = x; Aeu<N>& r = (t *= y); truth("a *= b returns a", &r == &t); ueq("a *= b", t, p);
    t = x; t *= t; ueq("a *= a", t, gen::mod2(a * a, N));
    ueq("operand a afterwards", x, a); ueq("operand b afterwards", y, b);
}
ENTRY(mul, AllW, 14000, 1.6)

BODY(laws) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N), b = gen::uvalue(s, N), c = gen::second(s, a, N);
    s.note("a", a); s.note("b", b); s.note("c", c); s.nontrivial(gen::filled(a) > 1 && gen::filled(b) > 1 && gen::filled(c) > 1);
    const Aeu<N> x = U<N>(a), y = U<N>(b), z = U<N>(c);
    eq("a*(b+c) against a*b + a*c", Z(x * (y + z)), Z(x * y + x * z));
    eq("(a*b)*c against a*(b*c)", Z((x * y) * z), Z(x * (y * z)));
    ueq("a*(b-c)", x * (y - z), gen::mod2(a * (b - c), N));
}
ENTRY(laws, MidW, 4000, 1.6)

BODY(builtin) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N); s.note("a", a);
    withUnsigned(s, [&](auto v) {
        const mpz_class p = gen::mod2(a * gen::fromInt(v), N); s.nontrivial(v > 1 && gen::filled(a) > 1);
        const Aeu<N> x = U<N>(a); Aeu<N> t = x;
        ueq("const a * v", x * v, p); ueq("a * v", t * v, p); ueq("v * a", v * x, p); ueq("operand after a * v", t, a);
        Aeu<N>& r = (t *= v); truth("a *= v returns a", &r == &t); ueq("a *= v", t, p);
        ueq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 14000)
