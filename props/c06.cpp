// C06: comparisons of unsigned numbers agree with the numeric order, within and across precisions and with built-ins
#include "num.hpp"
using namespace num;

template <class X, class Y> static void order(Src& s, const char* what, const X& x, const Y& y, int c) {
    auto t = [&](const char* op, bool got, bool want) { if (got != want) fail(std::string(what) + ": " + op + " is " + (got ? "true" : "false")); };
    t("==", x == y, c == 0); t("!=", x != y, c != 0); t("<", x < y, c < 0); t("<=", x <= y, c <= 0); t(">", x > y, c > 0); t(">=", x >= y, c >= 0);
    const auto o = x <=> y; t("<=> less", o < 0, c < 0); t("<=> equal", o == 0, c == 0); t("<=> greater", o > 0, c > 0);
    if constexpr (requires { x.compareTo(y); }) { const auto k = x.compareTo(y); t("compareTo less", k == Comparison::less, c < 0); t("compareTo equal", k == Comparison::equal, c == 0); t("compareTo greater", k == Comparison::greater, c > 0); }
    (void)s;
}
static int sg(const mpz_class& a, const mpz_class& b) { const int c = cmp(a, b); return (c > 0) - (c < 0); }

BODY(same_precision) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N), b = s.draw(3) ? gen::related(s, a, N) : gen::uvalue(s, N); s.note("a", a); s.note("b", b);
    s.nontrivial(gen::filled(a) > 1 && gen::filled(b) > 1); if (a == b) s.label("equal");
    const Aeu<N> x = U<N>(a), y = U<N>(b);
    order(s, "a ? b", x, y, sg(a, b)); order(s, "b ? a", y, x, sg(b, a)); order(s, "a ? a", x, x, 0);
    ueq("operand a afterwards", x, a); ueq("operand b afterwards", y, b);
}
ENTRY(same_precision, AllW, 10000)

BODY(cross_precision) {
    constexpr size_t N = C::a, M = C::b, Lo = N < M ? N : M, Hi = N < M ? M : N;
    mpz_class a = gen::uvalue(s, N), b;
    switch (s.draw(4)) {
        case 0: b = gen::mod2(a, M); break;                                                             // same low part
        case 1: b = gen::related(s, gen::mod2(a, M), M); break;
        case 2: b = gen::uvalue(s, M); break;
        case 3: { const mpz_class low = gen::uvalue(s, Lo); a = gen::mod2(low + (N > M ? mpz_class(gen::uvalue(s, Hi) >> Lo << Lo) : mpz_class(0)), N); b = gen::mod2(gen::related(s, low, Lo) + (M > N ? mpz_class(gen::uvalue(s, Hi) >> Lo << Lo) : mpz_class(0)), M); } break;
        default: { const size_t bit = s.range(Lo, Hi - 1); b = gen::mod2(gen::related(s, gen::mod2(a, Lo), Lo), M); if (N > M) a = gen::mod2(a, Lo) + gen::pow2(bit); else b += gen::pow2(bit); } break; // one bit above the narrower precision
    }
    s.note("a", a); s.note("b", b); s.nontrivial(gen::filled(a) * 32 > Lo || gen::filled(b) * 32 > Lo || a == b); if (a == b) s.label("equal across precisions");
    const Aeu<N> x = U<N>(a); const Aeu<M> y = U<M>(b);
    order(s, "a ? b", x, y, sg(a, b)); order(s, "b ? a", y, x, sg(b, a));
}
ENTRY(cross_precision, PairW, 8000)

BODY(builtin) {
    constexpr size_t N = C::a;
    withUnsigned(s, [&](auto v) {
        const mpz_class b = gen::fromInt(v); mpz_class a;
        switch (s.draw(4)) { case 0: a = b; break; case 1: a = gen::mod2(b + (long)s.draw(2) - 1, N); break; case 2: a = gen::mod2(b, 64) + (gen::uvalue(s, N) >> 64 << 64); break; case 3: a = gen::mod2(b, 32) + gen::mod2(gen::uvalue(s, N) >> 32 << 32, N); break; default: a = gen::uvalue(s, N); }
        s.note("a", a); s.nontrivial(a != 0 && v != 0);
        const Aeu<N> x = U<N>(a);
        order(s, "a ? v", x, v, sg(a, b)); order(s, "v ? a", v, x, sg(b, a));
    });
}
ENTRY(builtin, AllW, 10000)

BODY(total_order) { // transitivity and sorting agree with numeric order
    constexpr size_t N = C::a;
    std::vector<mpz_class> m; std::vector<Aeu<N>> v; m.push_back(gen::uvalue(s, N));
    const size_t k = 3 + s.draw(5); while (m.size() < k) m.push_back(gen::related(s, s.pick(m), N));
    for (auto& z : m) { s.note("value", z); v.push_back(U<N>(z)); }
    s.nontrivial(k > 3);
    for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && v[j] < v[j - 1]; --j) v[j].swap(v[j - 1]);
    std::vector<mpz_class> w = m; for (size_t i = 1; i < w.size(); ++i) for (size_t j = i; j > 0 && w[j] < w[j - 1]; --j) std::swap(w[j], w[j - 1]);
    for (size_t i = 0; i < w.size(); ++i) ueq("sorted sequence element", v[i], w[i]);
}
ENTRY(total_order, MidW, 2500)
