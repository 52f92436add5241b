// C04: bitwise operators act on every bit position independently
#include "num.hpp"
using namespace num;

BODY(binary) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N), b = gen::second(s, a, N);
    s.note("a", a); s.note("b", b); s.nontrivial(gen::filled(a) > 1 && gen::filled(b) > 1);
    const Aeu<N> x = U<N>(a), y = U<N>(b); const mpz_class A = a & b, O = a | b, X = a ^ b;
    ueq("a & b", x & y, A); ueq("a | b", x | y, O); ueq("a ^ b", x ^ y, X); ueq("~a", ~x, gen::pow2(N) - 1 - a); ueq("~~a", ~~x, a);
    Aeu<N> t = x; Aeu<N>& r = (t &= y); truth("a &= b returns a", &r == &t); ueq("a &= b", t, A);
    t = x; Aeu<N>& r2 = (t |= y); truth("a |= b returns a", &r2 == &t); ueq("a |= b", t, O);
    t = x; Aeu<N>& r3 = (t ^= y); truth("a ^= b returns a", &r3 == &t); ueq("a ^= b", t, X);
    t = x; t &= t; ueq("a &= a", t, a); t |= t; ueq("a |= a", t, a); t ^= t; ueq("a ^= a", t, 0);
    ueq("operand a afterwards", x, a); ueq("operand b afterwards", y, b);
}
ENTRY(binary, AllW, 14000)

BODY(builtin) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N); s.note("a", a);
    withUnsigned(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v), A = a & b, O = a | b, X = a ^ b; s.nontrivial(gen::filled(a) > 1 && v != 0);
        const Aeu<N> x = U<N>(a); Aeu<N> t = x;
        ueq("a & v", x & v, A); ueq("a | v", x | v, O); ueq("a ^ v", x ^ v, X);
        ueq("v & a", v & x, A); ueq("v | a", v | x, O); ueq("v ^ a", v ^ x, X);
        t &= v; ueq("a &= v", t, A); t = x; t |= v; ueq("a |= v", t, O); t = x; t ^= v; ueq("a ^= v", t, X);
        ueq("operand afterwards", x, a);
    });
}
ENTRY(builtin, AllW, 10000)
