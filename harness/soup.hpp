// A program interpreter over the whole public API, free of GMP and of the engine.
// A program is a list of draws; running it yields a trace (one hash per step) that depends only on what the code does.
#pragma once
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace soup {
struct Dice { virtual ~Dice() = default; virtual uint64_t draw(uint64_t max) = 0; uint64_t range(uint64_t a, uint64_t b) { return a + draw(b - a); } bool coin() { return draw(1); } };
struct Trace {
    uint64_t h = 0xcbf29ce484222325ULL; bool verbose = false; std::vector<std::string> lines; std::vector<uint64_t> perStep; unsigned distinctOps = 0; uint64_t opsSeen = 0;
    void see(uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 31; }
    void text(const std::string& s) { for (unsigned char c : s) see(c); see(s.size()); if (verbose) lines.push_back("  text \"" + s + "\""); }
    void say(const std::string& s) { if (verbose) lines.push_back(s); }
    template <size_t N> void num(const char* n, const Aeu<N>& v) { std::string t; for (size_t i = N / 32; i-- > 0;) { see(v.getBlock(i)); if (verbose) { char b[12]; snprintf(b, sizeof b, "%08x", v.getBlock(i)); t += b; } } if (verbose) lines.push_back(std::string("  ") + n + " = 0x" + t); }
    template <size_t N> void num(const char* n, const Aesi<N>& v) { see((uint64_t)v.isZero() | (uint64_t)v.isPositive() << 1 | (uint64_t)v.isNegative() << 2); std::string t; for (size_t i = N / 32; i-- > 0;) { see(v.getBlock(i)); if (verbose) { char b[12]; snprintf(b, sizeof b, "%08x", v.getBlock(i)); t += b; } } if (verbose) lines.push_back(std::string("  ") + n + " = " + (v.isNegative() ? "-" : v.isZero() ? "(zero)" : "") + "0x" + t); }
    void val(const char* n, uint64_t x) { see(x); if (verbose) lines.push_back(std::string("  ") + n + " = " + std::to_string(x)); }
};
inline uint32_t block32(Dice& d) { switch (d.draw(4)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return (uint32_t)1 << d.draw(31); case 3: return (uint32_t)d.draw(20); default: return (uint32_t)d.draw(0xffffffffu); } }
template <size_t N> Aeu<N> makeU(Dice& d) {
    Aeu<N> r = 0u; const uint64_t kind = d.draw(5); const size_t top = kind == 0 ? 1 : kind == 1 ? N / 32 : 1 + (size_t)d.draw(N / 32 - 1);
    for (size_t i = 0; i < top; ++i) { uint32_t b; switch (kind) { case 0: b = (uint32_t)d.draw(30); break; case 1: b = 0xffffffffu - (i ? 0u : (uint32_t)d.draw(3)); break; case 2: b = block32(d); break; case 3: b = i + 1 == top ? (uint32_t)1 << d.draw(31) : 0; break; default: b = (uint32_t)d.draw(0xffffffffu); } r.setBlock(i, b); }
    return r;
}
template <size_t N> Aesi<N> makeS(Dice& d) { Aeu<N> m = makeU<N>(d); Aesi<N> r(m); if (d.coin()) r.inverse(); return r; }
inline uint64_t word(Dice& d) { switch (d.draw(4)) { case 0: return d.draw(12); case 1: return ~0ULL - d.draw(5); case 2: { const uint64_t hi = block32(d), lo = block32(d); return hi << 32 | lo; } case 3: return (uint64_t)1 << d.draw(63); default: return d.draw(~0ULL); } }
template <class F> void anyUnsigned(Dice& d, F&& f) { const uint64_t k = d.draw(4); const uint64_t w = word(d); switch (k) { case 0: f((unsigned char)w); break; case 1: f((unsigned short)w); break; case 2: f((unsigned)w); break; case 3: f((unsigned long)w); break; default: f((unsigned long long)w); } }
template <class F> void anyIntegral(Dice& d, F&& f) { const uint64_t k = d.draw(8); const uint64_t w = word(d); switch (k) { case 0: f((unsigned char)w); break; case 1: f((unsigned short)w); break; case 2: f((unsigned)w); break; case 3: f((unsigned long)w); break; case 4: f((signed char)w); break; case 5: f((short)w); break; case 6: f((int)w); break; case 7: f((long)w); break; default: f((long long)w); } }

template <size_t N> struct Shared { std::vector<Aeu<N>> u; std::vector<Aesi<N>> g; };
constexpr unsigned Ops = 62;

template <size_t N, size_t M> struct Soup {
    Dice& d; Trace& t; bool wild; const Shared<N>* shared; Aeu<N> u[3]; Aesi<N> g[3]; Aeu<M> uw; Aesi<M> gw;
    Soup(Dice& dice, Trace& trace, bool isWild, const Shared<N>* sh = nullptr) : d(dice), t(trace), wild(isWild), shared(sh) { for (auto& x : u) x = makeU<N>(d); for (auto& x : g) x = makeS<N>(d); uw = makeU<M>(d); gw = makeS<M>(d); dump(); }
    void dump() { for (auto& x : u) t.num("u", x); for (auto& x : g) t.num("g", x); }
    const Aeu<N>& cu(size_t j) { if (shared && d.coin()) return shared->u[(size_t)d.draw(shared->u.size() - 1)]; return u[j]; }
    const Aesi<N>& cg(size_t j) { if (shared && d.coin()) return shared->g[(size_t)d.draw(shared->g.size() - 1)]; return g[j]; }
    size_t pos(size_t limit) { if (wild) { switch (d.draw(3)) { case 0: return (size_t)word(d); case 1: return limit + (size_t)d.draw(9); default: break; } } return (size_t)d.draw(limit - 1); }
    template <class Char> std::basic_string<Char> junk() { // characters a caller might pass
        const size_t n = (size_t)d.draw(40); std::basic_string<Char> r; static const char common[] = "0123456789abcdefABCDEF0xX0bB0oO-- +',_.zZ";
        for (size_t i = 0; i < n; ++i) { if (wild && d.draw(5) == 5) r += (Char)d.draw(sizeof(Char) == 1 ? 255 : 0x10ffff); else r += (Char)common[d.draw(sizeof common - 2)]; } return r;
    }
    template <unsigned char B, bool Up, class Char, class T> void toBuffer(const T& x) {
        const size_t size = (size_t)d.draw(d.coin() ? 12 : N + 8); const bool show = d.coin(); std::unique_ptr<Char[]> b(new Char[size ? size : 1]); for (size_t i = 0; i < size; ++i) b[i] = (Char)'#';
        const size_t n = x.template getString<B, Up, Char>(b.get(), size, show); t.val("count", n); std::string s; for (size_t i = 0; i < size && b[i]; ++i) s += (char)b[i]; t.text(s);
    }
    template <class T> void format(const T& x) {
        switch (d.draw(7)) { case 0: toBuffer<16, false, char>(x); break; case 1: toBuffer<16, true, wchar_t>(x); break; case 2: toBuffer<10, false, char>(x); break; case 3: toBuffer<8, false, wchar_t>(x); break; case 4: toBuffer<2, false, char>(x); break;
            case 5: { std::ostringstream o; o << x; t.text(o.str()); } break; case 6: { std::ostringstream o; o << std::hex << std::uppercase << x << " " << std::oct << x; t.text(o.str()); } break; default: { std::wostringstream o; o << std::hex << std::showbase << x; auto w = o.str(); t.text(std::string(w.begin(), w.end())); } }
    }
    template <class Char, class T> void manipulatedAs(const T& x, const T& y) {
        std::basic_ostringstream<Char> o; switch (d.draw(3)) { case 0: o << std::hex; break; case 1: o << std::oct; break; case 2: o << std::dec; break; default: o.unsetf(std::ios::basefield); }
        if (d.coin()) o << std::showbase; if (d.coin()) o << std::uppercase; switch (d.draw(3)) { case 0: o << std::left; break; case 1: o << std::right; break; case 2: o << std::internal; break; default: break; }
        o.fill((Char)"* 0x"[d.draw(3)]); o.width((std::streamsize)d.draw(N / 3)); o << x; t.val("width", (uint64_t)o.width()); t.val("fill", (uint64_t)o.fill()); o << (Char)'|' << y; o << 42; const auto w = o.str(); t.text(std::string(w.begin(), w.end()));
    }
    void manipulated(bool wide, size_t i, size_t j) { const bool sign = d.coin(); if (wide) { if (sign) manipulatedAs<wchar_t>(cg(i), cg(j)); else manipulatedAs<wchar_t>(cu(i), cu(j)); } else { if (sign) manipulatedAs<char>(cg(i), cg(j)); else manipulatedAs<char>(cu(i), cu(j)); } }
    template <class Char> void words(size_t i, size_t j) { // texts of numbers, through every way to pass a text
        const auto& x = cg(i); std::basic_string<Char> s(N + 8, Char {}); switch (d.draw(3)) { case 0: x.template getString<16, false, Char>(s.data(), s.size(), true); break; case 1: x.template getString<10, false, Char>(s.data(), s.size(), true); break; case 2: x.template getString<8, false, Char>(s.data(), s.size(), true); break; default: x.template getString<2, false, Char>(s.data(), s.size(), true); }
        s.resize(std::char_traits<Char>::length(s.c_str())); switch (d.draw(5)) { case 0: u[j] = Aeu<N>(s); g[j] = Aesi<N>(s); break; case 1: u[j] = Aeu<N>(std::basic_string_view<Char>(s)); g[j] = Aesi<N>(std::basic_string_view<Char>(s)); break; case 2: u[j] = Aeu<N>(s.data(), s.size()); g[j] = Aesi<N>(s.data(), s.size()); break;
            case 3: u[j] = Aeu<N>(std::basic_string_view<Char> {}); g[j] = Aesi<N>(std::basic_string_view<Char> {}); break; case 4: u[j] = Aeu<N>((const Char*)nullptr, 0); g[j] = Aesi<N>(std::basic_string<Char> {}); break; default: { const std::basic_string<Char> padded = s + Char('7'); u[j] = Aeu<N>(std::basic_string_view<Char>(padded).substr(0, s.size())); g[j] = Aesi<N>(std::basic_string_view<Char>(padded).substr(0, s.size())); } }
    }
    template <class T> void compare(const T& a, const T& b) {
        t.val("==", a == b); t.val("!=", a != b); t.val("<", a < b); t.val("<=", a <= b); t.val(">", a > b); t.val(">=", a >= b); t.val("compareTo", (uint64_t)a.compareTo(b));
    }
    void step() {
        const unsigned op = (unsigned)d.draw(Ops - 1); const size_t i = (size_t)d.draw(2), j = (size_t)d.draw(2), k = (size_t)d.draw(2); const bool costly = N > 300;
        if (!(t.opsSeen >> op & 1)) { t.opsSeen |= 1ULL << op; ++t.distinctOps; }
        t.say("op " + std::to_string(op) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + " k=" + std::to_string(k)); t.see(op);
        switch (op) {
            case 0: u[i] += cu(j); break; case 1: u[i] -= cu(j); break; case 2: u[i] *= cu(j); break;
            case 3: { const auto& y = cu(j); if (!y.isZero()) u[i] /= y; } break; case 4: { const auto& y = cu(j); if (!y.isZero()) u[i] %= y; } break;
            case 5: u[i] = u[j] & cu(k); break; case 6: u[i] = u[j] | cu(k); break; case 7: u[i] = u[j] ^ cu(k); break; case 8: u[i] = ~cu(j); break; case 9: u[i] = -cu(j); break;
            case 10: anyUnsigned(d, [&](auto c) { const auto s = wild || d.draw(4) == 0 ? c : (decltype(c))(c % N); u[i] <<= s; }); break; case 11: anyUnsigned(d, [&](auto c) { const auto s = wild || d.draw(4) == 0 ? c : (decltype(c))(c % N); u[i] = u[j] >> s; }); break;
            case 12: anyUnsigned(d, [&](auto v) { u[i] += v; u[j] = u[j] + v; }); break; case 13: anyUnsigned(d, [&](auto v) { u[i] -= v; u[j] = v - u[j]; }); break; case 14: anyUnsigned(d, [&](auto v) { u[i] *= v; u[j] = v * u[j]; }); break;
            case 15: anyUnsigned(d, [&](auto v) { if (v) { u[i] /= v; u[j] %= v; } }); break; case 16: anyUnsigned(d, [&](auto v) { u[i] &= v; u[j] |= v; u[k] ^= v; }); break;
            case 17: ++u[i]; { auto o = u[j]++; t.num("old", o); } break; case 18: --u[i]; { auto o = u[j]--; t.num("old", o); } break;
            case 19: { const auto& a = cu(i); const auto& b = cu(j); compare(a, b); } break; case 20: anyUnsigned(d, [&](auto v) { t.val("== v", u[i] == v); t.val("!= v", u[i] != v); t.val("< v", u[i] < v); t.val("> v", u[i] > v); t.val("compareTo v", (uint64_t)u[i].compareTo(v)); }); break;
            case 21: t.val("== wide", u[i] == uw); t.val("compareTo wide", (uint64_t)u[i].compareTo(uw)); t.val("wide compareTo", (uint64_t)uw.compareTo(u[i])); break;
            case 22: { const size_t p = pos(N), q = pos(N / 8), r = pos(N / 32); const bool b = d.coin(); u[i].setBit(p, b); u[j].setByte(q, (uint8_t)d.draw(255)); u[k].setBlock(r, block32(d)); t.val("bit", u[j].getBit(p)); t.val("byte", u[k].getByte(q)); t.val("block", u[i].getBlock(r)); } break;
            case 23: { const auto& a = cu(i); t.val("bits", a.bitCount()); t.val("bytes", a.byteCount()); t.val("blocks", a.filledBlocksNumber()); t.val("odd", a.isOdd()); t.val("even", a.isEven()); t.val("zero", a.isZero()); } break;
            case 24: if (!costly || d.draw(3) == 0) { Aeu<N> a = u[i], b = u[j]; if (costly) { a >>= (unsigned)(N - 200); b >>= (unsigned)(N - 200); } if (!a.isZero() && !b.isZero()) { Aeu<N> x, y; t.num("gcd", Aeu<N>::gcd(a, b, x, y)); t.num("x", x); t.num("y", y); t.num("lcm", Aeu<N>::lcm(a, b)); t.num("gcd", Aeu<N>::gcd(a, b)); } } break;
            case 25: { Aeu<N> m = u[i]; if (!wild) m >>= (unsigned)(N / 2); if (!m.isZero()) { Aeu<N> e = u[k]; e >>= (unsigned)(N - (costly ? 8 : 30)); Aeu<M> ew = uw >> (unsigned)(M - 7); t.num("powm", Aeu<N>::powm(u[j], e, m)); t.num("powm wide", Aeu<N>::template powm<M>(u[j], ew, m)); } } break;
            case 26: u[i] = cu(j).squareRoot(); break; case 27: { const size_t p = pos(N); u[i] = Aeu<N>::power2(p); t.num("power2", Aesi<N>::power2(p)); } break;
            case 28: format(cu(i)); break; case 29: format(cg(i)); break;
            case 30: { if (d.coin()) { const auto s = junk<char>(); std::unique_ptr<char[]> e(new char[s.size() ? s.size() : 1]); memcpy(e.get(), s.data(), s.size()); u[i] = Aeu<N>(e.get(), s.size()); g[i] = Aesi<N>(std::string_view(e.get(), s.size())); } else { const auto s = junk<wchar_t>(); std::unique_ptr<wchar_t[]> e(new wchar_t[s.size() ? s.size() : 1]); if (!s.empty()) memcpy(e.get(), s.data(), s.size() * sizeof(wchar_t)); u[i] = Aeu<N>(e.get(), s.size()); g[i] = Aesi<N>(e.get(), s.size()); } } break;
            case 31: { std::stringstream ss; const bool big = d.coin(); cu(i).writeBinary(ss, big); t.text(ss.str()); if (d.draw(2) == 0) { std::string s = ss.str(); s.resize((size_t)d.draw(s.size())); ss.str(s); if (d.draw(4) == 0) ss.setstate(std::ios::failbit); else if (d.draw(4) == 0) ss.setstate(std::ios::eofbit); } u[j].readBinary(ss, wild ? d.coin() : big); } break;
            case 32: uw = cu(i).template precisionCast<M>(); t.num("wide", uw); uw *= uw; u[j] = uw.template precisionCast<N>(); break; case 33: gw = cg(i).template precisionCast<M>(); t.num("wide", gw); if (d.coin()) gw -= Aesi<M>(word(d)); g[j] = gw.template precisionCast<N>(); break;
            case 34: t.val("u8", u[i].template integralCast<unsigned char>()); t.val("i16", (uint64_t)u[i].template integralCast<short>()); t.val("u32", u[i].template integralCast<unsigned>()); t.val("i64", (uint64_t)u[i].template integralCast<long long>()); t.val("i32", (uint64_t)g[i].template integralCast<int>()); t.val("i64s", (uint64_t)g[i].template integralCast<long long>()); t.val("i8s", (uint64_t)g[i].template integralCast<signed char>()); break;
            case 35: g[i] += cg(j); break; case 36: g[i] -= cg(j); break; case 37: g[i] *= cg(j); break;
            case 38: { const auto& y = cg(j); if (!y.isZero()) { g[k] = g[i] / y; g[i] %= y; } } break;
            case 39: anyIntegral(d, [&](auto v) { g[i] += v; g[j] = v - g[j]; }); break; case 40: anyIntegral(d, [&](auto v) { g[i] *= v; g[j] = v * g[j]; }); break; case 41: anyIntegral(d, [&](auto v) { if (v) { g[i] /= v; g[j] %= v; } }); break;
            case 42: { const auto& a = cg(i); const auto& b = cg(j); compare(a, b); } break; case 43: anyIntegral(d, [&](auto v) { t.val("== v", g[i] == v); t.val("!= v", g[i] != v); t.val("< v", g[i] < v); t.val(">= v", g[i] >= v); t.val("compareTo v", (uint64_t)g[i].compareTo(v)); g[j] = Aesi<N>(v); }); break;
            case 44: ++g[i]; g[j]--; g[k].inverse(); g[i].swap(g[k]); u[i].swap(u[k]); break;
            case 45: { const size_t p = pos(N), q = pos(N / 8), r = pos(N / 32); if (!g[i].isZero()) { Aesi<N> c = g[i]; c.setBit(p, d.coin()); c.setByte(q, (uint8_t)d.draw(255)); c.setBlock(r, block32(d)); t.num("edited", c.unsignedCast()); t.val("bit", c.getBit(p)); t.val("byte", c.getByte(q)); t.val("block", c.getBlock(r)); t.val("bits", c.bitCount()); t.val("bytes", c.byteCount()); } } break;
            case 46: g[i] = Aesi<N>(cu(j)); u[j] = g[k].unsignedCast(); t.val("== wide", g[i] == gw); t.val("compareTo wide", (uint64_t)g[i].compareTo(gw)); g[j] = g[j].squareRoot(); break;
            case 48: manipulated(d.coin(), i, j); break;
            case 49: { const size_t n = (size_t)d.draw(d.coin() ? N / 8 + 9 : 9); std::string s; for (size_t x = 0; x < n; ++x) s += (char)d.draw(255); std::stringstream ss(s); u[i].readBinary(ss, d.coin()); t.val("stream", (uint64_t)ss.rdstate()); ss.clear(); t.val("rest", (uint64_t)ss.rdbuf()->in_avail()); u[j].readBinary(ss, d.coin()); } break;
            case 50: { const auto& a = cu(i); const auto& b = cu(j); if (!b.isZero()) { Aeu<N> q = a, r = b; Aeu<N>::divide(a, b, q, r); t.num("q", q); t.num("r", r); auto [q2, r2] = Aeu<N>::divide(b, b); t.num("q", q2); t.num("r", r2); } const auto& c = cg(j); const auto& e = cg(k); if (!e.isZero()) { Aesi<N> q, r; Aesi<N>::divide(c, e, q, r); t.num("q", q); t.num("r", r); } } break;
            case 51: anyUnsigned(d, [&](auto v) { const auto& a = cu(i); if (!a.isZero()) { t.num("v/u", v / a); t.num("v%u", v % a); } u[j] = v & a; u[k] = (v | u[j]) ^ (v ^ a); }); break;
            case 52: anyIntegral(d, [&](auto v) { const auto& a = cg(i); if (!a.isZero()) { t.num("v/g", v / a); t.num("v%g", v % a); } t.num("v+g", v + a); g[j] = v * (v - a); }); break;
            case 53: { Aeu<N> c(u[i]); Aesi<N> e(g[i]); u[j] = u[j]; g[j] = g[j]; u[k].swap(u[k]); g[k].swap(g[k]); c.swap(u[j]); e.swap(g[j]); u[i] = c; g[i] = e; } break;
            case 54: words<char>(i, j); break; case 55: words<wchar_t>(i, j); break;
            case 56: { const uint64_t w = word(d); switch (d.draw(5)) { case 0: u[i] = (w & 1) != 0; g[j] = (w & 1) != 0; break; case 1: u[i] = (char16_t)w; g[j] = (char16_t)w; break; case 2: u[i] = (unsigned long long)w; g[j] = (long long)w; break; case 3: u[i] = (unsigned short)w; g[j] = (short)w; break; case 4: u[i] = (char32_t)w; g[j] = (char32_t)w; break; default: u[i] = (unsigned)w; g[j] = (int)w; } } break;
            case 57: { const auto& a = cu(i); const auto& c = cg(j); uint64_t x = 0; for (size_t p = 0; p < N; ++p) x = x * 3 + a.getBit(p) + 2 * (uint64_t)c.getBit(p); t.val("bits", x); for (size_t p = 0; p < N / 8; ++p) x = x * 257 + a.getByte(p) + 7 * (uint64_t)c.getByte(p); t.val("bytes", x); Aeu<N> e = 0u; for (size_t p = 0; p < N / 8; ++p) e.setByte(N / 8 - 1 - p, a.getByte(p)); t.num("turned", e); for (size_t p = 0; p < N; ++p) e.setBit(p, a.getBit(p)); t.num("copied", e); } break;
            case 58: { const auto& a = cu(i); t.val("bool", a.template integralCast<bool>()); t.val("i8", (uint64_t)a.template integralCast<signed char>()); t.val("u16", a.template integralCast<unsigned short>()); t.val("u64", a.template integralCast<unsigned long>()); const auto& c = cg(j); t.val("i16s", (uint64_t)c.template integralCast<short>()); t.val("ls", (uint64_t)c.template integralCast<long>()); if (!c.isNegative()) t.val("us", c.template integralCast<unsigned>()); } break;
            case 59: { Aeu<N> r = cu(i); r >>= (unsigned)(N / 2); Aeu<N> sq = r * r; t.num("root", sq.squareRoot()); if (!sq.isZero()) { --sq; t.num("root", sq.squareRoot()); } Aesi<N> z(sq); t.num("root", z.squareRoot()); t.num("+", +z); t.num("-", -z); t.num("big", (z.template precisionCast<2 * N>() * z.template precisionCast<2 * N>()).template precisionCast<N>()); } break;
            case 60: anyUnsigned(d, [&](auto v) { Aeu<N>& a = u[i]; const auto& c = cu(j); t.num("u*v", a * v); t.num("c*v", c * v); t.num("u+v", a + v); t.num("c+v", c + v); t.num("u-v", a - v); t.num("c-v", c - v); if (v) { t.num("u/v", a / v); t.num("c/v", c / v); t.num("u%v", a % v); t.num("c%v", c % v); } t.num("&^|", ((a & v) ^ v) | v); t.num("c&^|", (c | v) ^ (c & v)); });
                anyIntegral(d, [&](auto v) { Aesi<N>& a = g[i]; const auto& c = cg(j); t.num("g*v", a * v); t.num("h*v", c * v); t.num("g+v", a + v); t.num("h-v", c - v); if (v) { t.num("g/v", a / v); t.num("h/v", c / v); t.num("g%v", a % v); t.num("h%v", c % v); } }); break;
            case 61: { // a second operand made from the first: equal, next to it, its top part, twice its top, a multiple, the complement
                Aeu<N> a = cu(i), b = a; switch (d.draw(7)) { case 0: break; case 1: ++b; break; case 2: --b; break; case 3: b >>= (unsigned)(32 * d.draw(N / 32 - 1)); break; case 4: { const size_t n = a.filledBlocksNumber(); b = a >> 1u; if (n > 0) { const size_t at = (size_t)d.draw(n - 1); b.setBlock(at, block32(d)); } } break; case 5: a *= (unsigned)d.draw(9); break; case 6: b = ~a; break; default: { const size_t at = (size_t)d.draw(N / 32 - 1); b.setBlock(at, b.getBlock(at) ^ (1u << d.draw(31))); } }
                t.num("a", a); t.num("b", b); compare(a, b); t.num("a-b", a - b); t.num("a^b", a ^ b); t.num("a*b", a * b); if (!b.isZero()) { t.num("a/b", a / b); t.num("a%b", a % b); } if (!a.isZero()) { t.num("b/a", b / a); t.num("b%a", b % a); }
                Aesi<N> e(a), f(b); if (d.coin()) e.inverse(); if (d.coin()) f.inverse(); compare(e, f); t.num("e+f", e + f); t.num("e-f", e - f); if (!f.isZero()) { t.num("e/f", e / f); t.num("e%f", e % f); } } break;
            default: { const auto& a = cu(i); const auto& b = cu(j); const auto& c = cg(i); const auto& e = cg(k); const Aeu<N> v = (a + b) * (a - b) ^ (b & ~a); const Aesi<N> w = (c - e) + -e; u[k] = v; g[k] = w; } break;
        }
        dump(); t.perStep.push_back(t.h);
    }
    void run(size_t steps) { for (size_t n = 0; n < steps; ++n) step(); }
};
} // namespace soup
