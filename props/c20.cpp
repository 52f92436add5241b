// C20: comparisons of signed numbers agree with the numeric order, within and across precisions and with built-ins
#include "signedgen.hpp"
using namespace sg;

template <class X, class Y> static void order(const char* what, const X& x, const Y& y, int c) {
    auto t = [&](const char* op, bool got, bool want) { if (got != want) fail(std::string(what) + ": " + op + " is " + (got ? "true" : "false")); };
    t("==", x == y, c == 0); t("!=", x != y, c != 0); t("<", x < y, c < 0); t("<=", x <= y, c <= 0); t(">", x > y, c > 0); t(">=", x >= y, c >= 0);
    const auto o = x <=> y; t("<=> less", o < 0, c < 0); t("<=> equal", o == 0, c == 0); t("<=> greater", o > 0, c > 0);
    if constexpr (requires { x.compareTo(y); }) { const auto k = x.compareTo(y); t("compareTo less", k == Comparison::less, c < 0); t("compareTo equal", k == Comparison::equal, c == 0); t("compareTo greater", k == Comparison::greater, c > 0); }
}
static int sgnc(const mpz_class& a, const mpz_class& b) { const int c = cmp(a, b); return (c > 0) - (c < 0); }
BODY(same_precision) {
    constexpr size_t N = C::a; const mpz_class a = gen::svalue(s, N), b = partner(s, a, N); s.note("a", a); s.note("b", b); s.nontrivial(a != 0 && b != 0); if (a == b) s.label("equal"); if (a < 0 && b < 0) s.label("both negative");
    const auto x = S<N>(a), y = S<N>(b); order("a ? b", x, y, sgnc(a, b)); order("b ? a", y, x, sgnc(b, a)); order("a ? a", x, x, 0); seq("operand a afterwards", x, a);
}
ENTRY(same_precision, AllW, 500000)
BODY(cross_precision) {
    constexpr size_t N = C::a, M = C::b, Lo = N < M ? N : M, Hi = N < M ? M : N; mpz_class a = gen::uvalue(s, N), b;
    switch (s.draw(4)) {
        case 0: b = gen::mod2(a, M); break;
        case 1: b = gen::related(s, gen::mod2(a, M), M); break;
        case 2: b = gen::uvalue(s, M); break;
        case 3: { const mpz_class low = gen::uvalue(s, Lo); a = gen::mod2(low + (N > M ? mpz_class(gen::uvalue(s, Hi) >> Lo << Lo) : mpz_class(0)), N); b = gen::mod2(low + (M > N ? mpz_class(gen::uvalue(s, Hi) >> Lo << Lo) : mpz_class(0)), M); } break;
        default: { const size_t bit = s.range(Lo, Hi - 1); b = gen::mod2(gen::related(s, gen::mod2(a, Lo), Lo), M); if (N > M) a = gen::mod2(a, Lo) + gen::pow2(bit); else b += gen::pow2(bit); } break;
    }
    switch (s.draw(3)) { case 0: a = -a; b = -b; break; case 1: break; case 2: a = -a; break; default: b = -b; }
    s.note("a", a); s.note("b", b); s.nontrivial(gen::filled(a) * 32 > Lo || gen::filled(b) * 32 > Lo || a == b); if (a == b) s.label("equal across precisions");
    const auto x = S<N>(a); const auto y = S<M>(b); order("a ? b", x, y, sgnc(a, b)); order("b ? a", y, x, sgnc(b, a));
}
ENTRY(cross_precision, PairW, 400000)
BODY(builtin) {
    constexpr size_t N = C::a;
    withIntegral(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v); mpz_class a;
        switch (s.draw(5)) { case 0: a = b; break; case 1: a = b + (long)s.draw(2) - 1; break; case 2: a = (gen::mod2(abs(b), 64) + (gen::uvalue(s, N) >> 64 << 64)) * (s.coin() ? 1 : -1); break; case 3: a = -b; break; case 4: a = (gen::mod2(abs(b), 32) + (gen::uvalue(s, N) >> 32 << 32)) * (s.coin() ? 1 : -1); break; default: a = gen::svalue(s, N); }
        s.note("a", a); s.nontrivial(a != 0 && v != 0); const auto x = S<N>(a); order("a ? v", x, v, sgnc(a, b)); order("v ? a", v, x, sgnc(b, a));
    });
}
ENTRY(builtin, AllW, 400000)
BODY(total_order) {
    constexpr size_t N = C::a; std::vector<mpz_class> m; std::vector<Aesi<N>> v; m.push_back(gen::svalue(s, N)); const size_t k = 3 + s.draw(5); while (m.size() < k) m.push_back(partner(s, s.pick(m), N));
    for (auto& z : m) { s.note("value", z); v.push_back(S<N>(z)); } s.nontrivial(k > 3);
    for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && v[j] < v[j - 1]; --j) v[j].swap(v[j - 1]);
    for (size_t i = 1; i < m.size(); ++i) for (size_t j = i; j > 0 && m[j] < m[j - 1]; --j) std::swap(m[j], m[j - 1]);
    for (size_t i = 0; i < m.size(); ++i) seq("sorted sequence element", v[i], m[i]);
}
ENTRY(total_order, MidW, 120000)
