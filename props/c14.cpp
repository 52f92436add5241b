// C14: gcd and lcm are the arithmetic ones and the Bezout coefficients satisfy the identity modulo 2^N
#include "num.hpp"
using namespace num;

static mpz_class g(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
template <size_t N> static void check(Src& s, const mpz_class& a, const mpz_class& b) {
    s.note("a", a); s.note("b", b); const mpz_class d = g(a, b), l = d == 0 ? mpz_class(0) : mpz_class(a / d * b); if (a == 0 || b == 0) s.label("zero operand"); s.nontrivial(a != 1 && b != 1 && gen::filled(a) + gen::filled(b) > 2);
    if (d == 1) s.label("coprime"); else s.label("common factor"); if (a == b) s.label("equal"); if (!fits(l, N)) s.label("lcm wraps");
    const Aeu<N> x = U<N>(a), y = U<N>(b);
    ueq("gcd(a, b)", Aeu<N>::gcd(x, y), d);
    Aeu<N> p = U<N>(gen::mod2(~a, N)), q = U<N>(7); ueq("gcd(a, b, x, y)", Aeu<N>::gcd(x, y, p, q), d);
    eq("a*x + b*y mod 2^N", gen::mod2(a * Z(p) + b * Z(q), N), gen::mod2(d, N));
    if (d != 0) ueq("lcm(a, b)", Aeu<N>::lcm(x, y), gen::mod2(l, N));
    ueq("operand a afterwards", x, a); ueq("operand b afterwards", y, b);
}
static mpz_class nz(mpz_class v) { return v == 0 ? mpz_class(1) : v; }
BODY(small) { // full Euclid runs
    constexpr size_t N = C::a; mpz_class a, b; const size_t cap = N > 512 ? 256 : N;
    switch (s.draw(6)) {
        case 0: a = gen::uvalue(s, cap); b = gen::uvalue(s, cap); break;
        case 1: { const mpz_class f = gen::mod2(gen::uvalue(s, cap), cap / 2); a = gen::mod2(gen::uvalue(s, cap), cap / 2) * f; b = gen::mod2(gen::uvalue(s, cap), cap / 2) * f; } break;   // common factor
        case 2: { a = gen::uvalue(s, cap); b = gen::second(s, a, cap); } break;
        case 3: { mpz_class x = 1, y = 1; const size_t k = s.draw(cap - 8); for (size_t i = 0; i < k && fits(x + y, cap); ++i) { mpz_class t = x + y; x = y; y = t; } a = y; b = x; } break;       // Fibonacci: longest run
        case 4: { b = gen::uvalue(s, cap); a = gen::mod2(b * gen::fromU64(gen::u64(s)), cap); } break;                                                                                                // multiple
        case 5: { a = b = gen::uvalue(s, cap); } break;
        default: { a = gen::fromU64(gen::u64(s)); b = gen::fromU64(gen::u64(s)); } break;
    }
    if (s.coin()) std::swap(a, b);
    a = gen::mod2(a, N); b = gen::mod2(b, N); if (s.oneIn(16)) b = 0;
    if (s.oneIn(2) && s.oneIn(2)) check<N>(s, b, a); else check<N>(s, a, b);
}
ENTRY(small, MidW, 8000, 3.0, 30)
BODY(built) { // built upwards from the quotients of a short Euclid run: full-width operands at bounded cost
    constexpr size_t N = C::a; mpz_class d = nz(gen::mod2(gen::uvalue(s, N), 1 + s.draw(N / 2))), x = d, y = 0; const size_t k = 1 + s.draw(N > 2048 ? 2 : 6);
    for (size_t i = 0; i < k; ++i) { const size_t room = N - (x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2)); if (room < 2) break; mpz_class q = gen::mod2(gen::uvalue(s, N), 1 + s.draw(room - 2)); if (q == 0) q = 1; mpz_class t = q * x + y; if (!fits(t, N)) break; y = x; x = t; }
    if (y == 0) y = x; s.label("built");
    if (s.coin()) check<N>(s, x, y); else check<N>(s, y, x);
}
ENTRY(built, AllW, 12000, 2.2, 24)
