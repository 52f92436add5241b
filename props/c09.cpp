// C09: text output is the canonical numeral of the number in the chosen base, and streams are left as they were
#include "text.hpp"
#include <sstream>
#include <locale>
using namespace num;

template <class Char> struct Groups : std::numpunct<Char> { std::string do_grouping() const override { return "\3"; } Char do_thousands_sep() const override { return (Char)','; } };
template <class Char> static const std::locale& grouping() { static const std::locale l(std::locale::classic(), new Groups<Char>); return l; }

template <class Char, class T> static void stream(Src& s, const T& x, const mpz_class& m) {
    static const int bases[] = { 10, 16, 8, 10 }; const uint64_t which = s.draw(3); const int base = bases[which]; const bool upper = s.coin(), show = s.coin() && m != 0;
    const uint64_t adj = s.draw(3); const Char fill = (Char)(s.coin() ? '*' : ' '); const uint64_t twice = s.draw(3); const long after = (long)s.draw(5000);
    s.note("base", base); s.note("uppercase", upper); s.note("showbase", show);
    const uint64_t width = s.oneIn(4) ? s.draw(s.coin() ? 60 : s.draw(7) ? 400 : 3000) : 0; const bool grouped = s.oneIn(5); s.note("width", width); s.note("digit grouping", grouped);
    std::basic_ostringstream<Char> os; if (grouped) os.imbue(grouping<Char>());
    os << (base == 10 ? std::dec : base == 16 ? std::hex : std::oct); if (which == 3) os.unsetf(std::ios::basefield); /* as for built-ins, that means decimal */ if (upper) os << std::uppercase; if (show) os << std::showbase;
    if (adj == 1) os << std::left; else if (adj == 2) os << std::internal; else if (adj == 3) os << std::right; os.fill(fill);
    const auto flags = os.flags(); const auto prec = os.precision();
    os.width((std::streamsize)width);
    auto& ret = (os << x); truth("operator<< returns the stream", &ret == &os); truth("stream good after output", os.good()); eq("width afterwards", (uint64_t)os.width(), (uint64_t)0);
    std::string want = text::full(m, base, show, upper && base == 16), got = text::narrow<Char>(os.str());
    if (show && base != 10) { const size_t p = got.find_first_of("xXoO"); if (p != std::string::npos) got[p] = (char)tolower((unsigned char)got[p]); } // case of the prefix letter is not specified
    if (width > want.size()) {
        s.label("padded"); const std::string pad(width - want.size(), (char)fill); const size_t head = (m < 0 ? 1 : 0) + (show && base != 10 ? 2 : 0);
        if (adj == 1) want += pad;
        else if (adj == 2 && got != pad + want) { const size_t h = m < 0 && head == 3 && got.substr(0, 2) != "-0" ? 1 : head; want = want.substr(0, h) + pad + want.substr(h); } // std::internal: before the numeral, or after its sign and prefix
        else want = pad + want;
    }
    eq("streamed text", got, want);
    // formatting state: everything except showbase (which the library consumes) is as before
    eq("flags afterwards", (uint64_t)(os.flags() & ~std::ios::showbase), (uint64_t)(flags & ~std::ios::showbase)); truth("showbase is not switched on by output", (flags & std::ios::showbase) || !(os.flags() & std::ios::showbase)); truth("fill afterwards", os.fill() == fill); truth("precision afterwards", os.precision() == prec);
    if (twice) { os.str({}); os << std::noshowbase; os << x << (Char)' ' << x; eq("two numbers in one stream", text::narrow<Char>(os.str()), text::full(m, base, false, upper && base == 16) + " " + text::full(m, base, false, upper && base == 16));
        os.str({}); os.width(8); os << after; std::basic_ostringstream<Char> ref; ref.flags(flags & ~std::ios::showbase); ref.fill(fill); if (grouped) ref.imbue(grouping<Char>()); ref.width(8); ref << after; eq("a built-in printed after the number", text::narrow<Char>(os.str()), text::narrow<Char>(ref.str())); }
}
template <unsigned char B, bool Up, class Char, class T> static void oneBuffer(Src& s, const T& x, const mpz_class& m, bool show) {
    const std::string want = text::full(m, B, show, Up && B == 16); s.note("getString base", (int)B); s.note("showBase", show); s.note("uppercase", Up);
    const size_t size = want.size() + 2 + s.draw(6); std::vector<Char> buf(size + 4, (Char)'#');
    const size_t n = x.template getString<B, Up, Char>(buf.data(), size, show);
    size_t len = 0; while (len < size && buf[len] != Char {}) ++len;
    truth("terminated text", len < size); eq("text", text::narrow<Char>(std::basic_string<Char>(buf.data(), len)), want);
    if (n != len + 1) fail("returned count " + std::to_string(n) + " for a text of " + std::to_string(len) + " characters");
}
template <class Char, class T> static void buffer(Src& s, const T& x, const mpz_class& m, bool bigOk) {
    const bool show = s.coin();
    switch (s.draw(bigOk ? 4 : 2)) {
        case 0: oneBuffer<16, false, Char>(s, x, m, show); break;
        case 1: oneBuffer<16, true, Char>(s, x, m, show); break;
        case 2: oneBuffer<10, false, Char>(s, x, m, show); break;
        case 3: oneBuffer<8, false, Char>(s, x, m, show); break;
        default: oneBuffer<2, false, Char>(s, x, m, show); break;
    }
}
BODY(stream_aeu) { constexpr size_t N = C::a; const mpz_class m = text::value(s, N, 1024); s.note("a", m); s.nontrivial(gen::filled(m) > 1); const auto x = U<N>(m); if (s.coin()) stream<wchar_t>(s, x, m); else stream<char>(s, x, m); ueq("number afterwards", x, m); }
ENTRY(stream_aeu, AllW, 40000, 2.6, 24)
BODY(stream_aesi) { constexpr size_t N = C::a; mpz_class m = text::value(s, N, 1024); if (s.coin()) m = -m; s.note("a", m); s.nontrivial(gen::filled(m) > 1 && m < 0); const auto x = S<N>(m); if (s.coin()) stream<wchar_t>(s, x, m); else stream<char>(s, x, m); seq("number afterwards", x, m); }
ENTRY(stream_aesi, AllW, 30000, 2.6, 24)
BODY(hex_full_width) { // hexadecimal costs one pass, so the whole width is used
    constexpr size_t N = C::a; mpz_class m = gen::uvalue(s, N); s.note("a", m); s.nontrivial(gen::filled(m) > 1); const auto x = U<N>(m);
    const bool up = s.coin(); std::ostringstream os; os << std::hex; if (up) os << std::uppercase; os << x; eq("hexadecimal stream", os.str(), text::full(m, 16, false, up));
    if (up) oneBuffer<16, true, char>(s, x, m, s.coin()); else oneBuffer<16, false, wchar_t>(s, x, m, s.coin());
}
ENTRY(hex_full_width, AllW, 300000)
BODY(buffer_aeu) { constexpr size_t N = C::a; const mpz_class m = text::value(s, N, 512); s.note("a", m); s.nontrivial(gen::filled(m) > 1); const auto x = U<N>(m); if (s.coin()) buffer<wchar_t>(s, x, m, true); else buffer<char>(s, x, m, true); }
ENTRY(buffer_aeu, AllW, 40000, 2.6, 24)
BODY(buffer_aesi) { constexpr size_t N = C::a; mpz_class m = text::value(s, N, 512); if (s.coin()) m = -m; s.note("a", m); s.nontrivial(gen::filled(m) > 1 && m < 0); const auto x = S<N>(m); if (s.coin()) buffer<wchar_t>(s, x, m, true); else buffer<char>(s, x, m, true); }
ENTRY(buffer_aesi, AllW, 40000, 2.6, 24)

BODY(full_width) { // the conversions that divide, over the whole width: cubic in the precision, hence few cases
    constexpr size_t N = C::a; mpz_class m = s.oneIn(3) ? gen::uvalue(s, N) : mpz_class(gen::pow2(N) - 1 - (s.coin() ? gen::mod2(gen::uvalue(s, N), N - 8) : mpz_class(s.draw(3))));
    const bool sign = s.coin(), octal = s.coin(), buffered = s.coin(); s.note("a", m); s.note("base", octal ? 8 : 10); s.note("getString", buffered); s.nontrivial(gen::filled(m) == N / 32);
    if (buffered) { if (octal) oneBuffer<8, false, char>(s, U<N>(m), m, false); else oneBuffer<10, false, char>(s, U<N>(m), m, false); return; }
    std::ostringstream os; if (octal) os << std::oct; if (sign) os << S<N>(mpz_class(-m)); else os << U<N>(m); eq("streamed text", os.str(), text::full(sign ? mpz_class(-m) : m, octal ? 8 : 10, false));
}
using Wide = eng::List<W<1536>, W<2048>, W<3072>, W<4096>>;
ENTRY(full_width, Wide, 5400, 3.0, 8)
BODY(length_edges) { // where the numeral gets one digit longer, in its own base and in binary: conversions that guess the length from the bits go wrong there
    constexpr size_t N = C::a; const size_t k = 1 + s.draw(N - 1); mpz_class m; const uint64_t form = s.draw(4); static const int bases[] = { 10, 10, 10, 8, 2 };
    const int base = s.pick(bases);
    if (form < 3) m = gen::pow2(k) - (long)(form == 0 ? 1 : s.draw(3)) ; else { mpz_ui_pow_ui(m.get_mpz_t(), base, (unsigned long)(base == 10 ? k * 0.30103 : base == 8 ? k / 3 : k)); m += (long)s.draw(2) - 1; }
    m = gen::mod2(m, N); const bool sign = s.coin() && m != 0, wide = s.coin(), streamed = base != 2 && s.oneIn(3); const mpz_class v = sign ? mpz_class(-m) : m; s.note("a", v); s.note("base", base); s.nontrivial(gen::filled(m) > 1);
    if (streamed) { std::ostringstream os; if (base == 8) os << std::oct; if (sign) os << S<N>(v); else os << U<N>(m); eq("streamed text", os.str(), text::full(v, base, false)); return; }
    auto go = [&](const auto& x) { if (wide) { if (base == 10) oneBuffer<10, false, wchar_t>(s, x, v, false); else if (base == 8) oneBuffer<8, false, wchar_t>(s, x, v, s.coin()); else oneBuffer<2, false, wchar_t>(s, x, v, s.coin()); }
        else { if (base == 10) oneBuffer<10, false, char>(s, x, v, s.coin()); else if (base == 8) oneBuffer<8, false, char>(s, x, v, false); else oneBuffer<2, false, char>(s, x, v, false); } };
    if (sign) go(S<N>(v)); else go(U<N>(m));
}
using Edges = eng::List<W<128>, W<160>, W<256>, W<512>, W<768>, W<1024>, W<1536>, W<2048>>;
ENTRY(length_edges, Edges, 200000, 2.6, 1500)
struct Sink : std::streambuf { // accepts a limited number of characters
    std::string got; size_t room; explicit Sink(size_t r) : room(r) {}
    int_type overflow(int_type c) override { if (got.size() >= room) return traits_type::eof(); got.push_back((char)c); return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { const size_t k = std::min<size_t>((size_t)n, room - got.size()); got.append(p, k); return (std::streamsize)k; }
};
BODY(full_sink) { // fault injection: the stream runs out of room inside the numeral
    constexpr size_t N = C::a; mpz_class m = text::value(s, N, 512); const bool isSigned = s.coin(), exceptions = s.oneIn(3); if (isSigned && s.coin()) m = -m; static const int bases[] = { 16, 10, 8 }; const int base = s.pick(bases); const bool show = s.coin() && m != 0;
    const std::string want = text::full(m, base, show, false); const size_t width = s.oneIn(4) ? s.draw(80) : 0; const size_t room = s.draw(want.size() + 2);
    s.note("a", m); s.note("base", base); s.note("room", room); s.note("width", width); s.note("showbase", show); s.note("stream exceptions", exceptions); const size_t total = std::max(width, want.size()); s.nontrivial(room > 0 && room < total);
    Sink sink(room); std::ostream os(&sink); os << (base == 16 ? std::hex : base == 8 ? std::oct : std::dec); if (show) os << std::showbase; os.width((std::streamsize)width); if (exceptions) os.exceptions(std::ios::badbit); bool thrown = false;
    try { if (isSigned) os << S<N>(m); else os << U<N>(m); } catch (const std::ios_base::failure&) { thrown = true; }
    const std::string text = std::string(total - want.size(), ' ') + want; eq("characters accepted", sink.got, text.substr(0, std::min(room, total)));
    truth("failure is visible in the stream state", os.fail() == (room < total)); truth("an exception reaches the caller exactly when the stream enables it", thrown == (exceptions && room < total));
}
ENTRY(full_sink, AllW, 30000, 2.6, 24)
