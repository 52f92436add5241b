// C08: every documented spelling of a number parses to that number
#include "text.hpp"
using namespace num;

template <size_t K, class Char, class T, class F> static bool asLiteral(const std::string& body, const std::string& head, F&& f) {
    if (head.size() + body.size() > K - 1) return false;
    std::string t = head + std::string(K - 1 - head.size() - body.size(), '0') + body; // padded with leading zeros to the array length
    Char a[K]; for (size_t i = 0; i + 1 < K; ++i) a[i] = (Char)t[i]; a[K - 1] = Char {};
    f(T(static_cast<const Char (&)[K]>(a))); return true;
}
template <class T, class Char, class F> static void construct(Src& s, const std::string& sign, const std::string& pre, const std::string& body, F&& f) {
    const std::string t = sign + pre + body; const std::basic_string<Char> str = text::widen<Char>(t);
    switch (s.draw(8)) {
        case 0: s.label("pointer and size"); f(T(str.data(), str.size())); break;
        case 1: { s.label("const string lvalue"); f(T(str)); } break;
        case 2: { s.label("string lvalue"); auto c = str; f(T(c)); } break;
        case 3: { s.label("string rvalue"); f(T(std::basic_string<Char>(str))); } break;
        case 4: { s.label("string view rvalue"); f(T(std::basic_string_view<Char>(str))); } break;
        case 5: { s.label("string view lvalue"); std::basic_string_view<Char> v(str); f(T(v)); } break;
        case 6: { s.label("const string view"); const std::basic_string_view<Char> v(str); T x = v; f(x); } break;
        case 7: { s.label("view into a longer text"); // only `size` characters belong to the number
            const std::basic_string<Char> longer = text::widen<Char>("7" ) + str + text::widen<Char>("9f1"); f(T(longer.data() + 1, str.size())); } break;
        default: {
            s.label("literal array"); const std::string head = sign + pre;
            (void)(asLiteral<2, Char, T>(body, head, f) || asLiteral<3, Char, T>(body, head, f) || asLiteral<6, Char, T>(body, head, f) || asLiteral<12, Char, T>(body, head, f) || asLiteral<35, Char, T>(body, head, f) || asLiteral<72, Char, T>(body, head, f) || asLiteral<200, Char, T>(body, head, f) || asLiteral<520, Char, T>(body, head, f) || asLiteral<1200, Char, T>(body, head, f));
        }
    }
}
struct Spelling { std::string sign, pre, body; };
static Spelling spell(Src& s, const mpz_class& m, bool dashes, int& base, bool& neg, bool wide) {
    static const int bases[] = { 10, 16, 2, 8 }; base = s.pick(bases); Spelling r;
    if (base != 10) { r.pre = text::prefix(base); if (s.coin()) r.pre[1] = (char)toupper(r.pre[1]); }
    r.body = text::digits(m, base);
    if (base == 16) { const auto mode = s.draw(2); for (auto& c : r.body) if (mode == 1 || (mode == 2 && s.coin())) c = (char)toupper(c); }
    if (s.oneIn(3)) r.body = std::string(1 + (size_t)s.draw(!s.oneIn(4) ? 4 : !s.oneIn(12) ? 40 : !s.oneIn(40) || wide ? 400 : 70000), '0') + r.body;
    neg = false;
    if (dashes) { const uint64_t k = s.draw(5); const size_t d = k < 4 ? k % 2 : s.oneIn(30) ? (size_t)s.draw(300) : k - 2; r.sign = std::string(d, '-'); neg = d % 2; }
    return r;
}
BODY(aeu) {
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); int base; bool neg; const auto sp = spell(s, m, false, base, neg, N > 512);
    s.note("text", sp.pre + sp.body); s.nontrivial(gen::filled(m) > 1 || base != 10);
    auto f = [&](const Aeu<N>& x) { ueq("parsed value", x, m); };
    if (s.coin()) { s.note("characters", "wchar_t"); construct<Aeu<N>, wchar_t>(s, sp.sign, sp.pre, sp.body, f); } else construct<Aeu<N>, char>(s, sp.sign, sp.pre, sp.body, f);
}
ENTRY(aeu, AllW, 160000, 1.7)
BODY(aesi) {
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); int base; bool neg; const auto sp = spell(s, m, true, base, neg, N > 512);
    s.note("text", sp.sign + sp.pre + sp.body); s.nontrivial(gen::filled(m) > 1 || neg); if (neg) s.label("negative");
    auto f = [&](const Aesi<N>& x) { seq("parsed value", x, neg ? mpz_class(-m) : m); };
    if (s.coin()) { s.note("characters", "wchar_t"); construct<Aesi<N>, wchar_t>(s, sp.sign, sp.pre, sp.body, f); } else construct<Aesi<N>, char>(s, sp.sign, sp.pre, sp.body, f);
}
ENTRY(aesi, AllW, 160000, 1.7)
