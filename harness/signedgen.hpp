#pragma once
#include "num.hpp"
namespace sg {
using namespace num;
// second operand whose combination with a is likely to stay in range or to hit a boundary
inline mpz_class partner(Src& s, const mpz_class& a, size_t N) {
    mpz_class v;
    switch (s.draw(6)) {
        case 0: v = gen::svalue(s, N); break;
        case 1: v = -a; break;
        case 2: v = a + (long)s.draw(4) - 2; break;
        case 3: v = -a + (long)s.draw(4) - 2; break;
        case 4: v = gen::related(s, abs(a), N); if (s.coin()) v = -v; break;
        case 5: v = gen::mod2(gen::uvalue(s, N), 1 + s.draw(N - 1)); if (s.coin()) v = -v; break;
        default: v = (a < 0 ? 1 : -1) * gen::uvalue(s, N); break;
    }
    if (!fits(v, N)) { mpz_class m = gen::mod2(abs(v), N); v = v < 0 ? mpz_class(-m) : m; }
    return v;
}
// leave room at the top in two of three cases, so that results mostly stay representable
inline mpz_class operand(Src& s, size_t N) { mpz_class v = gen::svalue(s, N); switch (s.draw(2)) { case 0: return v; case 1: { mpz_class r = abs(v) >> 1; return v < 0 ? mpz_class(-r) : r; } default: { mpz_class r = gen::mod2(abs(v), 1 + s.draw(N - 1)); return v < 0 ? mpz_class(-r) : r; } } }
// in range: exact value; out of range: the result is still a coherent number
template <size_t N> void expect(Src& s, const char* what, const Aesi<N>& got, const mpz_class& want) { if (fits(want, N)) seq(what, got, want); else { s.label("out of range"); coherent(what, got); } }
}
