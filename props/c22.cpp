// C22: construction, assignment and conversion of built-in values, copies and swaps keep the value exactly
#include "signedgen.hpp"
#include <array>
using namespace sg;

template <size_t N, class I> static void one(I v, const mpz_class& before = -12345) {
    const mpz_class m = gen::fromInt(v); if constexpr (std::is_unsigned_v<I>) {
        Aeu<N> x = v; ueq("Aeu(v)", x, m); Aeu<N> y(v); ueq("Aeu y(v)", y, m); Aeu<N> z { v }; ueq("Aeu z{v}", z, m); Aeu<N> a = ~Aeu<N>(0u); a = v; ueq("Aeu = v", a, m); Aeu<N> p = U<N>(abs(before)); auto& r = (p = v); ueq("Aeu holding a number = v", p, m); truth("assignment returns the target", &r == &p); eq("Aeu integralCast back", gen::fromInt(x.template integralCast<I>()), m); truth("Aeu == v", x == v);
    }
    Aesi<N> x = v; seq("Aesi(v)", x, m); Aesi<N> y(v); seq("Aesi y(v)", y, m); Aesi<N> a = S<N>(before); auto& r = (a = v); seq("Aesi = v", a, m); truth("assignment returns the target", &r == &a); a = S<N>(mpz_class(-before)); a = v; seq("Aesi = v again", a, m); eq("Aesi integralCast back", gen::fromInt(x.template integralCast<I>()), m); truth("Aesi == v", x == v);
}
BODY(builtin) { constexpr size_t N = C::a; withIntegral(s, [&](auto v) { s.nontrivial(v != 0 && v != 1); mpz_class before = gen::svalue(s, N); if (s.coin()) { const mpz_class t = gen::mod2(abs(before), 32 * (1 + s.draw(3))); before = before < 0 ? mpz_class(-t) : t; } s.note("target before", before); one<N>(v, before); }); }
ENTRY(builtin, AllW, 250000)
template <size_t N, class I> static void edges() { for (I v : { std::numeric_limits<I>::min(), (I)(std::numeric_limits<I>::min() + 1), (I)-1, (I)0, (I)1, (I)(std::numeric_limits<I>::max() - 1), std::numeric_limits<I>::max() }) one<N, I>(v); }
BODY(extremes) { constexpr size_t N = C::a; s.note("width", N); s.nontrivial(); edges<N, signed char>(); edges<N, unsigned char>(); edges<N, short>(); edges<N, unsigned short>(); edges<N, int>(); edges<N, unsigned>(); edges<N, long>(); edges<N, unsigned long>(); edges<N, long long>(); edges<N, unsigned long long>(); one<N, bool>(false); one<N, bool>(true); }
ENTRY(extremes, AllW, 1, 0, 1)
template <class T, class F> static void copies(Src& s, const T& x, const T& o, F&& is, const mpz_class& a, const mpz_class& b) {
    T c(x); is("copy", c, a); T mv(std::move(c)); is("moved-to", mv, a); T d = o; d = x; is("assigned", d, a); T& r = (d = o); truth("assignment returns the target", &r == &d); is("assigned again", d, b); d = std::move(mv); is("move-assigned", d, a);
    T& self = d; d = self; is("self-assigned", d, a); T p = x, q = o; p.swap(q); is("swap left", p, b); is("swap right", q, a); q.swap(q); is("swap with itself", q, a); std::swap(p, q); is("std::swap left", p, a); is("std::swap right", q, b);
    std::array<T, 3> arr { x, o, x }; arr[1].swap(arr[2]); is("array element 0", arr[0], a); is("array element 1", arr[1], a); is("array element 2", arr[2], b);
    c = x; c = o; is("source afterwards", x, a); is("other afterwards", o, b); (void)s;
}
BODY(copies_aeu) { constexpr size_t N = C::a; const mpz_class a = gen::uvalue(s, N), b = gen::second(s, a, N); s.note("a", a); s.note("b", b); s.nontrivial(a != b); copies(s, U<N>(a), U<N>(b), [](const char* w, const Aeu<N>& g, const mpz_class& v) { ueq(w, g, v); }, a, b); Aeu<N> z {}; ueq("value-initialised", z, 0); ueq("Aeu()", Aeu<N>(), 0); }
ENTRY(copies_aeu, AllW, 150000)
BODY(copies_aesi) { constexpr size_t N = C::a; const mpz_class a = gen::svalue(s, N), b = partner(s, a, N); s.note("a", a); s.note("b", b); s.nontrivial(a != b); copies(s, S<N>(a), S<N>(b), [](const char* w, const Aesi<N>& g, const mpz_class& v) { seq(w, g, v); }, a, b); Aesi<N> z {}; seq("value-initialised", z, 0); seq("Aesi()", Aesi<N>(), 0); }
ENTRY(copies_aesi, AllW, 150000)
