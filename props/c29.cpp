// C29: numbers carry no hidden shared state: threads working on their own numbers, and reading shared constant ones, get the sequential results without data races (ThreadSanitizer)
#include "engine.hpp"
#include "soup.hpp"
#include <atomic>
#include <thread>
using eng::W; using eng::Src;

struct Seeded : soup::Dice { uint64_t x; explicit Seeded(uint64_t s) : x(s) {} uint64_t draw(uint64_t max) override { x += 0x9e3779b97f4a7c15ULL; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; return max == ~0ULL ? z : z % (max + 1); } };
template <size_t N, size_t M> static soup::Trace program(uint64_t seed, size_t len, const soup::Shared<N>& sh) { Seeded d(seed); soup::Trace t; soup::Soup<N, M> p(d, t, false, &sh); p.run(len); return t; }
BODY(threads) {
    constexpr size_t N = C::a, M = C::b; const size_t T = 2 + s.draw(2), len = 1 + s.draw(30); soup::Shared<N> sh; Seeded d(s.draw(~0ULL)); for (int i = 0; i < 3; ++i) { sh.u.push_back(soup::makeU<N>(d)); sh.g.push_back(soup::makeS<N>(d)); }
    std::vector<uint64_t> seeds(T); for (auto& x : seeds) x = s.coin() ? seeds[0] : s.draw(~0ULL);       // equal programs touch equal code paths at the same time
    s.note("threads", T); s.note("steps", len); for (auto x : seeds) s.note("program", x);
    std::vector<soup::Trace> want, got(T); for (size_t i = 0; i < T; ++i) want.push_back(program<N, M>(seeds[i], len, sh));
    std::atomic<size_t> ready { 0 }; std::vector<std::thread> th; for (size_t i = 0; i < T; ++i) th.emplace_back([&, i] { ++ready; while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield(); got[i] = program<N, M>(seeds[i], len, sh); }); for (auto& x : th) x.join();
    for (size_t i = 0; i < T; ++i) for (size_t k = 0; k < len; ++k) if (got[i].perStep[k] != want[i].perStep[k]) eng::fail("thread " + std::to_string(i) + " step " + std::to_string(k) + " differs from the sequential run");
    s.nontrivial(len >= 5 && want[0].distinctOps >= 4);
}
using L = eng::List<W<96, 192>, W<128, 96>, W<256, 512>, W<512, 128>>;
ENTRY(threads, L, 2500, 1.2)

// calls that must not change their arguments, all on the same few numbers in every thread
template <size_t N, size_t M> struct Reader {
    Seeded d; soup::Trace t; const soup::Shared<N>& sh; const soup::Shared<M>& other; uint64_t sum = 0;
    Reader(uint64_t seed, const soup::Shared<N>& a, const soup::Shared<M>& b) : d(seed), sh(a), other(b) {}
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)d.draw(v.size() - 1)]; }
    template <class T> void text(const T& x) {
        switch (d.draw(5)) { case 0: { std::ostringstream o; o << x; t.text(o.str()); } break; case 1: { std::ostringstream o; o << std::hex << std::showbase << x; t.text(o.str()); } break; case 2: { std::wostringstream o; o << std::oct << x; const auto w = o.str(); t.text(std::string(w.begin(), w.end())); } break;
            case 3: { std::ostringstream o; o.width((std::streamsize)(N / 3)); o << std::uppercase << std::hex << x; t.text(o.str()); } break; case 4: { std::vector<char> b(N + 8); t.val("count", x.template getString<2>(b.data(), b.size(), true)); t.text(b.data()); } break; default: { std::vector<wchar_t> b(N); t.val("count", x.template getString<16, true>(b.data(), 9 + (size_t)d.draw(N / 4))); t.text(std::string(b.begin(), b.end())); } }
    }
    template <class T> void look(const T& a) { t.val("bits", a.bitCount()); t.val("bytes", a.byteCount()); t.val("blocks", a.filledBlocksNumber()); t.val("odd", a.isOdd()); t.val("even", a.isEven()); t.val("zero", a.isZero()); const size_t p = (size_t)d.draw(N - 1); t.val("bit", a.getBit(p)); t.val("byte", a.getByte(p / 8)); t.val("block", a.getBlock(p / 32)); t.val("i", (uint64_t)a.template integralCast<int>()); t.val("u", a.template integralCast<unsigned long long>()); }
    template <class T, class O> void order(const T& a, const T& b, const O& o) { t.val("==", a == b); t.val("<", a < b); t.val(">=", a >= b); t.val("compareTo", (uint64_t)a.compareTo(b)); t.val("== other", a == o); t.val("< other", a < o); t.val("other <", o < a); const unsigned v = (unsigned)d.draw(5); t.val("== v", a == v); t.val("< v", a < v); }
    void step() {
        const auto& a = pick(sh.u); const auto& b = pick(sh.u); const auto& c = pick(sh.g); const auto& e = pick(sh.g);
        switch (d.draw(15)) {
            case 0: { const Aeu<N> x = a; const Aesi<N> y = c; t.num("copy", x); t.num("copy", y); } break;
            case 1: t.num("a+b", a + b); t.num("a-b", a - b); t.num("a*b", a * b); t.num("-a", -a); t.num("+a", +a); break;
            case 2: t.num("c+e", c + e); t.num("c-e", c - e); t.num("c*e", c * e); t.num("-c", -c); t.num("+c", +c); break;
            case 3: if (!b.isZero()) { t.num("a/b", a / b); t.num("a%b", a % b); } break;
            case 4: if (!e.isZero()) { t.num("c/e", c / e); t.num("c%e", c % e); } break;
            case 5: t.num("a&b", a & b); t.num("a|b", a | b); t.num("a^b", a ^ b); t.num("~a", ~a); break;
            case 6: { const unsigned k = (unsigned)d.draw(N - 1); t.num("a>>k", a >> k); t.num("a<<k", a << k); } break;
            case 7: order(a, b, pick(other.u)); break; case 8: order(c, e, pick(other.g)); break;
            case 9: look(a); break; case 10: look(c); break;
            case 11: t.num("root", a.squareRoot()); t.num("root", c.squareRoot()); break;
            case 12: text(a); break; case 13: text(c); break;
            case 14: { std::ostringstream o; a.writeBinary(o, d.coin()); t.text(o.str()); t.num("cast", a.template precisionCast<M>()); t.num("cast", c.template precisionCast<M>()); t.num("unsigned", c.unsignedCast()); } break;
            default: if (!a.isZero() && !b.isZero()) { Aeu<N> x, y; t.num("gcd", Aeu<N>::gcd(a, b)); t.num("gcd", Aeu<N>::gcd(a, b, x, y)); t.num("lcm", Aeu<N>::lcm(a, b)); const Aeu<N> m = b >> (unsigned)(N / 2); if (!m.isZero()) t.num("powm", Aeu<N>::powm(a, Aeu<N>(5u + (unsigned)d.draw(30)), m)); } break;
        }
        t.perStep.push_back(t.h);
    }
};
template <size_t N> static void fill(Seeded& d, soup::Shared<N>& sh) {
    for (int i = 0; i < 4; ++i) { Aeu<N> x = soup::makeU<N>(d); switch (d.draw(4)) { case 0: x <<= (unsigned)(32 * d.draw(N / 32 - 1)); break; case 1: x >>= (unsigned)d.draw(N - 1); break; case 2: x = Aeu<N>::power2((size_t)d.draw(N - 1)); break; case 3: if (i) x = sh.u[0]; break; default: break; } sh.u.push_back(x); Aesi<N> g(x); if (d.draw(2) == 0) g.inverse(); sh.g.push_back(g); }
}
BODY(shared_constants) {
    constexpr size_t N = C::a, M = C::b; const size_t T = 2 + s.draw(2), len = 1 + s.draw(30); soup::Shared<N> sh; soup::Shared<M> other; Seeded d(s.draw(~0ULL)); fill<N>(d, sh); fill<M>(d, other);
    std::vector<uint64_t> seeds(T); for (auto& x : seeds) x = s.draw(2) ? s.draw(~0ULL) : seeds[0]; s.note("threads", T); s.note("steps", len); for (auto x : seeds) s.note("calls", x);
    std::vector<std::vector<uint64_t>> want, got(T); for (size_t i = 0; i < T; ++i) { Reader<N, M> r(seeds[i], sh, other); for (size_t k = 0; k < len; ++k) r.step(); want.push_back(r.t.perStep); }
    std::atomic<size_t> ready { 0 }; std::vector<std::thread> th; for (size_t i = 0; i < T; ++i) th.emplace_back([&, i] { ++ready; while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield(); Reader<N, M> r(seeds[i], sh, other); for (size_t k = 0; k < len; ++k) r.step(); got[i] = r.t.perStep; }); for (auto& x : th) x.join();
    for (size_t i = 0; i < T; ++i) for (size_t k = 0; k < len; ++k) if (got[i][k] != want[i][k]) eng::fail("thread " + std::to_string(i) + " call " + std::to_string(k) + " on shared constants differs from the sequential run");
    s.nontrivial(len >= 5);
}
ENTRY(shared_constants, L, 2500, 1.2)
