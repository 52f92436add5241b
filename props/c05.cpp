// C05: shifts move every bit by exactly the count; counts not below the precision leave the value unchanged
#include "num.hpp"
using namespace num;

template <size_t N, class T> static void oneCount(const char* type, Src& s, const mpz_class& a, T k) {
    s.note(type, k);
    const bool in = (uint64_t)k < N;
    const mpz_class L = in ? gen::mod2(a << (unsigned long)k, N) : a, R = in ? mpz_class(a >> (unsigned long)k) : a;
    const Aeu<N> x = U<N>(a);
    ueq("a << k", x << k, L); ueq("a >> k", x >> k, R);
    Aeu<N> t = x; Aeu<N>& r1 = (t <<= k); truth("a <<= k returns a", &r1 == &t); ueq("a <<= k", t, L);
    if (in) { t >>= k; ueq("(a << k) >> k", t, L >> (unsigned long)k); }
    t = x; Aeu<N>& r2 = (t >>= k); truth("a >>= k returns a", &r2 == &t); ueq("a >>= k", t, R);
    ueq("operand afterwards", x, a);
}
template <size_t N> static void anyType(Src& s, const mpz_class& a, uint64_t k) {
    switch (s.draw(4)) {
        case 0: oneCount<N>("unsigned count", s, a, (unsigned)k); break;
        case 1: oneCount<N>("unsigned long count", s, a, (unsigned long)k); break;
        case 2: oneCount<N>("unsigned long long count", s, a, (unsigned long long)k); break;
        case 3: oneCount<N>("unsigned short count", s, a, (unsigned short)k); break;
        default: oneCount<N>("unsigned char count", s, a, (unsigned char)k); break;
    }
}
BODY(every_count) { // counts 0..N-1 are enumerated by case index
    constexpr size_t N = C::a;
    const uint64_t k = s.cycle(N); const mpz_class a = gen::uvalue(s, N);
    s.note("a", a); s.nontrivial(k != 0 && gen::filled(a) > 1);
    anyType<N>(s, a, k);
}
template <class... Ws> static int regCounts(eng::List<Ws...> l) { return eng::reg<every_count>(l, 24000, 1, 17000); }
static const int r1 = regCounts(eng::AllW{});

BODY(out_of_range) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N); uint64_t k;
    switch (s.draw(5)) { case 0: k = N + s.draw(70); break; case 1: k = N * (1 + s.draw(40)); break; case 2: k = (1ULL << 32) + s.draw(N); break; case 3: k = ~0ULL - s.draw(N); break; case 4: k = gen::u64(s); break; default: k = (1ULL << s.range(6, 63)) + s.draw(N); break; }
    s.note("a", a); s.nontrivial(a != 0 && k >= N);
    anyType<N>(s, a, k);
}
ENTRY(out_of_range, AllW, 4000)

BODY(compose) {
    constexpr size_t N = C::a;
    const mpz_class a = gen::uvalue(s, N); const unsigned i = (unsigned)s.draw(N - 1), j = (unsigned)s.draw(N - 1);
    s.note("a", a); s.note("i", i); s.note("j", j); s.nontrivial(a != 0 && i && j);
    const Aeu<N> x = U<N>(a);
    if (i + j < N) { eq("(a<<i)<<j", Z((x << i) << j), gen::mod2(a << (i + j), N)); eq("(a>>i)>>j", Z((x >> i) >> j), mpz_class(a >> (i + j))); }
    eq("a << i against a * 2^i", Z(x << i), Z(x * Aeu<N>::power2(i)));
}
ENTRY(compose, MidW, 4000)
