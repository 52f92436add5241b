// C10: getString stays inside the buffer it is given, whatever its size, and never returns more than that size
#include "text.hpp"
using namespace num;

template <unsigned char B, bool Up, class Char, class T> static void one(Src& s, const T& x, const mpz_class& m, bool show, bool isSigned) {
    const std::string want = text::full(m, B, show, Up && B == 16); const size_t len = want.size(); size_t size;
    switch (s.draw(4)) { case 0: size = s.draw(6); break; case 1: size = s.draw(len + 1); break; case 2: size = len + s.draw(2); break; case 3: { const size_t k = 8 * s.draw(len / 8 + 1) + s.draw(4); size = k > len + 9 ? len : k; } break; default: size = len + 1 + s.draw(100); }
    s.note("base", (int)B); s.note("showBase", show); s.note("uppercase", Up); s.note("bytes per character", (int)sizeof(Char)); s.note("buffer size", size); s.note("full length", len);
    s.nontrivial(size <= len && size > 0); s.label(size <= len ? "too small" : "large enough");
    constexpr size_t Guard = 64; constexpr Char mark = (Char)0x5a;
    Char* heap = new Char[size ? size : 1];                               // exact size: the sanitizer sees the first element beyond it
    std::vector<Char> buf(size + 2 * Guard, mark); Char* const p = buf.data() + Guard; for (size_t i = 0; i < size; ++i) heap[i] = p[i] = (Char)(i % 2 ? 'Q' : 'q');
    const size_t n = x.template getString<B, Up, Char>(p, size, show), n2 = size ? x.template getString<B, Up, Char>(heap, size, show) : n;
    std::vector<Char> copy(heap, heap + size); delete[] heap;
    for (size_t i = 0; i < Guard; ++i) { if (buf[i] != mark) fail("wrote " + std::to_string(Guard - i) + " characters before the buffer"); if (p[size + i] != mark) fail("wrote past the end of the buffer, at offset " + std::to_string(i) + " beyond size " + std::to_string(size)); }
    eq("same count for the same buffer size", n2, n); for (size_t i = 0; i < size && i < len; ++i) if (copy[i] != p[i]) fail("two calls wrote different text");
    truth("returned count at most the buffer size", n <= size);
    for (size_t i = 0; i < size; ++i) { const Char fill = (Char)(i % 2 ? 'Q' : 'q'); if ((p[i] != fill) != (i < n)) fail("the returned count is " + std::to_string(n) + ", but the character at " + std::to_string(i) + (p[i] != fill ? " was" : " was not") + " written"); }
    size_t got = 0; while (got < size && p[got] != Char {}) ++got;
    if (size > len) { truth("terminated", got < size); eq("complete text", text::narrow<Char>(std::basic_string<Char>(p, got)), want); }
    else if (!isSigned && size >= 2) truth("truncated text is terminated", got < size);
    if (size <= len && m != 0 && size >= (m < 0 ? 5u : 4u)) { // as many characters as fit: sign and prefix, then consecutive digits
        const std::string text = text::narrow<Char>(std::basic_string<Char>(p, got)); const size_t head = (m < 0 ? 1 : 0) + (show && B != 10 ? 2 : 0);
        eq("length of the text that was cut", (uint64_t)got, (uint64_t)(size - 1)); eq("sign and prefix", text.substr(0, head), want.substr(0, head)); if (want.substr(head).find(text.substr(head)) == std::string::npos) fail("the text that was cut is no run of digits of the numeral: " + text);
    }
}
template <class T> static void any(Src& s, const T& x, const mpz_class& m, bool isSigned) {
    const bool show = s.coin(), wide = s.coin();
    switch (s.draw(4)) {
        case 0: wide ? one<16, false, wchar_t>(s, x, m, show, isSigned) : one<16, false, char>(s, x, m, show, isSigned); break;
        case 1: wide ? one<16, true, wchar_t>(s, x, m, show, isSigned) : one<16, true, char>(s, x, m, show, isSigned); break;
        case 2: wide ? one<10, false, wchar_t>(s, x, m, show, isSigned) : one<10, false, char>(s, x, m, show, isSigned); break;
        case 3: wide ? one<8, false, wchar_t>(s, x, m, show, isSigned) : one<8, false, char>(s, x, m, show, isSigned); break;
        default: wide ? one<2, false, wchar_t>(s, x, m, show, isSigned) : one<2, false, char>(s, x, m, show, isSigned); break;
    }
}
BODY(aeu) { constexpr size_t N = C::a; mpz_class m = s.oneIn(5) ? mpz_class(0) : text::value(s, N, 512); s.note("a", m); any(s, U<N>(m), m, false); }
ENTRY(aeu, AllW, 6000, 1.8, 60)
BODY(aesi) { constexpr size_t N = C::a; mpz_class m = s.oneIn(5) ? mpz_class(0) : text::value(s, N, 512); if (s.coin()) m = -m; s.note("a", m); any(s, S<N>(m), m, true); }
ENTRY(aesi, AllW, 6000, 1.8, 60)
