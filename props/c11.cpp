// C11: printing and parsing are inverse: whatever text the library produces reads back as the same number
#include "text.hpp"
#include <iomanip>
#include <sstream>
using namespace num;

template <unsigned char B, bool Up, class Char, class T> static std::basic_string<Char> viaBuffer(const T& x, bool show) {
    std::vector<Char> b(T::getBitness() + 16, Char {}); x.template getString<B, Up, Char>(b.data(), b.size(), show); return std::basic_string<Char>(b.data());
}
template <class Char, class T> static std::basic_string<Char> print(Src& s, const T& x) {
    switch (s.draw(11)) {
        case 9: { s.note("via", "stream with the base flag cleared"); std::basic_ostringstream<Char> o; o.unsetf(std::ios::basefield); o << x; return o.str(); }
        case 10: { s.note("via", "stream that printed another number before"); std::basic_ostringstream<Char> o, u; u << std::hex << std::uppercase << std::showbase << x; switch (s.draw(2)) { case 0: o << std::oct; break; case 1: o << std::hex; } o << std::showbase << T(3u) << Char(' ') << std::showbase << x; const auto t = o.str(); return t.substr(t.find(Char(' ')) + 1); }
        case 11: { s.note("via", "stream into a wide field"); std::basic_ostringstream<Char> o; o << (s.coin() ? std::hex : std::oct) << std::showbase << std::setw((int)s.draw(40)) << x; auto t = o.str(); while (!t.empty() && t[0] == Char(' ')) t.erase(0, 1); return t; }
        case 0: s.note("via", "getString<16>"); return viaBuffer<16, false, Char>(x, true);
        case 1: s.note("via", "getString<16, true>"); return viaBuffer<16, true, Char>(x, true);
        case 2: s.note("via", "getString<10>"); return viaBuffer<10, false, Char>(x, s.coin());
        case 3: s.note("via", "getString<8>"); return viaBuffer<8, false, Char>(x, true);
        case 4: s.note("via", "getString<2>"); return viaBuffer<2, false, Char>(x, true);
        case 5: { s.note("via", "stream dec"); std::basic_ostringstream<Char> o; o << x; return o.str(); }
        case 6: { s.note("via", "stream oct"); std::basic_ostringstream<Char> o; o << std::oct << std::showbase << x; return o.str(); }
        case 7: { s.note("via", "stream hex"); std::basic_ostringstream<Char> o; o << std::hex << std::showbase << x; return o.str(); }
        default: { s.note("via", "stream hex uppercase"); std::basic_ostringstream<Char> o; o << std::hex << std::uppercase << std::showbase << x; return o.str(); }
    }
}
template <class T> static T parse(Src& s, const T& x) {
    if (s.coin()) { const auto t = print<wchar_t>(s, x); s.note("text", text::narrow<wchar_t>(t)); return T(std::wstring_view(t)); }
    const auto t = print<char>(s, x); s.note("text", t); return s.coin() ? T(t) : T(t.data(), t.size());
}
BODY(aeu) { constexpr size_t N = C::a; const mpz_class m = text::value(s, N, 768); s.note("a", m); s.nontrivial(gen::filled(m) > 1); const auto x = U<N>(m); const auto y = parse(s, x); truth("read back == original", x == y); ueq("read back", y, m); }
ENTRY(aeu, AllW, 40000, 2.6, 24)
BODY(aesi) { constexpr size_t N = C::a; mpz_class m = text::value(s, N, 768); if (s.coin()) m = -m; s.note("a", m); s.nontrivial(gen::filled(m) > 1); const auto x = S<N>(m); const auto y = parse(s, x); truth("read back == original", x == y); seq("read back", y, m); }
ENTRY(aesi, AllW, 40000, 2.6, 24)
BODY(edges) { // texts whose length in digits is decided by the last unit
    constexpr size_t N = C::a; const size_t cap = N > 1024 ? 1024 : N; mpz_class m; static const unsigned bases[] = { 10, 8, 10, 16, 2, 10 }; mpz_ui_pow_ui(m.get_mpz_t(), s.pick(bases), s.draw(cap)); if (s.coin() || !fits(m, cap)) m = gen::pow2(s.draw(cap)); m += (long)s.draw(4) - 2; m = gen::mod2(abs(m), N); s.note("a", m); s.nontrivial(gen::filled(m) > 1);
    const auto x = U<N>(m); ueq("read back", parse(s, x), m); const bool neg = s.coin(); const auto y = S<N>(neg ? mpz_class(-m) : m); seq("read back", parse(s, y), neg ? mpz_class(-m) : m);
}
ENTRY(edges, AllW, 36000, 1.9, 60)
BODY(widen) { // text printed at one precision reads back at a wider one
    constexpr size_t N = C::a, M = C::b; if constexpr (M > N) { const mpz_class m = text::value(s, N, 512); s.note("a", m); s.nontrivial(gen::filled(m) > 1); const auto t = print<char>(s, U<N>(m)); s.note("text", t); ueq("read back at a wider precision", Aeu<M>(t), m); }
}
using L = eng::List<W<256, 512>, W<96, 128>, W<128, 160>, W<512, 768>, W<96, 1024>, W<224, 2048>, W<160, 192>, W<288, 544>, W<768, 1536>, W<1024, 1536>, W<512, 8192>, W<2048, 3072>>;
ENTRY(widen, L, 4000, 1.6)
