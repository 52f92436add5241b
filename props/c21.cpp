// C21: over any history of operations a signed number stays a coherent number, zero has one representation, and only the target changes
#include "signedgen.hpp"
#include "text.hpp"
#include <sstream>
using namespace sg;

template <size_t N, size_t M> struct Machine {
    static constexpr size_t K = 4;
    Src& s; Aesi<N> v[K]; mpz_class m[K]; Aesi<M> w; mpz_class mw; std::vector<Aesi<N>> fresh; size_t zeros = 0, wraps = 0;
    explicit Machine(Src& src) : s(src), w(S<M>(0)), mw(0) { for (size_t i = 0; i < K; ++i) { m[i] = i == 0 ? mpz_class(0) : operand(s, N); v[i] = S<N>(m[i]); s.note("start", m[i]); } }
    // the target must equal the exact result when it fits; otherwise it must be coherent and the model follows it
    void settle(const char* op, size_t i, const mpz_class& want) { if (fits(want, N)) { seq(op, v[i], want); m[i] = want; } else { coherent(op, v[i]); m[i] = Z(v[i]); ++wraps; } if (m[i] == 0) ++zeros; }
    void same(const char* op, const Aesi<N>& got, const mpz_class& want) { if (fits(want, N)) seq(op, got, want); else coherent(op, got); }
    void step() {
        const size_t i = s.draw(K - 1), j = s.draw(K - 1); const uint64_t op = s.draw(38); s.note("op", op); s.note("i", i); s.note("j", j);
        const bool big = N > 512;
        switch (op) {
            case 0: v[i] += v[j]; settle("+=", i, m[i] + m[j]); break;
            case 1: v[i] -= v[j]; settle("-=", i, m[i] - m[j]); break;
            case 2: v[i] *= v[j]; settle("*=", i, m[i] * m[j]); break;
            case 3: if (m[j] != 0 && !(big && s.draw(3))) { const mpz_class t = tdivq(m[i], m[j]); v[i] /= v[j]; settle("/=", i, t); } break;
            case 4: if (m[j] != 0 && !(big && s.draw(3))) { const mpz_class t = tdivr(m[i], m[j]); v[i] %= v[j]; settle("%=", i, t); } break;
            case 5: v[i] = v[j]; settle("=", i, m[j]); break;
            case 6: v[i].swap(v[j]); std::swap(m[i], m[j]); settle("swap", i, m[i]); settle("swap other", j, m[j]); break;
            case 7: v[i].inverse(); settle("inverse", i, -m[i]); break;
            case 8: ++v[i]; settle("++", i, m[i] + 1); break;
            case 9: --v[i]; settle("--", i, m[i] - 1); break;
            case 10: { auto o = v[i]++; seq("post ++ result", o, m[i]); settle("post ++", i, m[i] + 1); } break;
            case 11: { auto o = v[i]--; seq("post -- result", o, m[i]); settle("post --", i, m[i] - 1); } break;
            case 12: withIntegral(s, [&](auto k) { v[i] += k; settle("+= built-in", i, m[i] + gen::fromInt(k)); }); break;
            case 13: withIntegral(s, [&](auto k) { v[i] -= k; settle("-= built-in", i, m[i] - gen::fromInt(k)); }); break;
            case 14: withIntegral(s, [&](auto k) { v[i] *= k; settle("*= built-in", i, m[i] * gen::fromInt(k)); }); break;
            case 15: withIntegral(s, [&](auto k) { if (k != 0 && !(big && s.draw(3))) { v[i] /= k; settle("/= built-in", i, tdivq(m[i], gen::fromInt(k))); } }); break;
            case 16: withIntegral(s, [&](auto k) { if (k != 0 && !(big && s.draw(3))) { v[i] %= k; settle("%= built-in", i, tdivr(m[i], gen::fromInt(k))); } }); break;
            case 17: withSigned(s, [&](auto k) { v[i] = k; settle("= built-in", i, gen::fromInt(k)); }); break;
            case 18: { const size_t k = s.draw(K - 1); v[i] = v[j] + v[k]; settle("= a + b", i, m[j] + m[k]); } break;
            case 19: { const size_t k = s.draw(K - 1); v[i] = v[j] - v[k]; settle("= a - b", i, m[j] - m[k]); } break;
            case 20: { const size_t k = s.draw(K - 1); v[i] = v[j] * v[k]; settle("= a * b", i, m[j] * m[k]); } break;
            case 21: v[i] = -v[j]; settle("= -a", i, -m[j]); break;
            case 22: { w = v[j].template precisionCast<M>(); mw = gen::mod2(abs(m[j]), M); if (m[j] < 0) mw = -mw; seq("cast", w, mw); if (s.coin()) { w *= w; mw = mw * mw; if (fits(mw, M)) seq("square at another precision", w, mw); else { coherent("square at another precision", w); mw = Z(w); } } v[i] = w.template precisionCast<N>(); mpz_class t = gen::mod2(abs(mw), N); settle("cast back", i, mw < 0 ? mpz_class(-t) : t); } break;
            case 23: { v[i] = Aesi<N>(v[j].unsignedCast()); settle("from Aeu", i, abs(m[j])); } break;
            case 24: { std::ostringstream o; o << std::hex << v[j]; eq("hexadecimal text", o.str(), text::full(m[j], 16, false)); std::string t = o.str(); t.insert(t[0] == '-' ? 1 : 0, "0x"); v[i] = Aesi<N>(t); settle("parsed", i, m[j]); } break;
            case 25: if (!(big && s.draw(3))) { v[i] = v[j].squareRoot(); settle("squareRoot", i, m[j] > 0 ? mpz_class(sqrt(m[j])) : mpz_class(0)); } break;
            case 26: { const size_t k = s.draw(N - 1); v[i] = Aesi<N>::power2(k); settle("power2", i, gen::pow2(k)); } break;
            case 28: withIntegral(s, [&](auto k) { const mpz_class z = gen::fromInt(k); switch (s.draw(4)) { case 0: v[i] = k - v[j]; settle("= built-in - a", i, z - m[j]); break; case 1: v[i] = k + v[j]; settle("= built-in + a", i, z + m[j]); break; case 2: v[i] = k * v[j]; settle("= built-in * a", i, z * m[j]); break; case 3: v[i] = v[j] * k; settle("= a * built-in", i, m[j] * z); break; default: v[i] = v[j] - k; settle("= a - built-in", i, m[j] - z); } }); break;
            case 29: withIntegral(s, [&](auto k) { const mpz_class z = gen::fromInt(k); if (big && s.draw(3)) return; switch (s.draw(3)) { case 0: if (m[j] != 0) { v[i] = k / v[j]; settle("= built-in / a", i, tdivq(z, m[j])); } break; case 1: if (m[j] != 0) { v[i] = k % v[j]; settle("= built-in % a", i, tdivr(z, m[j])); } break; case 2: if (k != 0) { v[i] = v[j] / k; settle("= a / built-in", i, tdivq(m[j], z)); } break; default: if (k != 0) { v[i] = v[j] % k; settle("= a % built-in", i, tdivr(m[j], z)); } } }); break;
            case 30: { const size_t k = s.draw(K - 1); if (m[k] != 0 && !(big && s.draw(3))) { if (s.coin()) { const mpz_class t = tdivq(m[j], m[k]); v[i] = v[j] / v[k]; settle("= a / b", i, t); } else { const mpz_class t = tdivr(m[j], m[k]); v[i] = v[j] % v[k]; settle("= a % b", i, t); } } } break;
            case 31: { const mpz_class t = partner(s, m[j], N); s.note("new", t); v[i] = S<N>(t); settle("= new number", i, t); } break;
            case 32: { Aesi<N> t = std::move(v[j]); v[j] = std::move(t); v[i] = std::move(v[j]); v[j] = v[i]; settle("moved", i, m[j]); } break;
            case 33: if (fits(m[j], 640)) { std::ostringstream o; o << v[j]; eq("decimal text", o.str(), text::full(m[j], 10, false)); v[i] = Aesi<N>(o.str()); settle("decimal round trip", i, m[j]); } break;
            case 34: { const mpz_class low = gen::mod2(abs(m[j]), 62); const long long k = m[j] < 0 ? -(long long)low.get_ui() : (long long)low.get_ui(); v[i] = k; settle("= low bits", i, m[j] < 0 ? mpz_class(-low) : low); const auto back = v[i].template integralCast<long long>(); truth("through long long", back == k); v[i] = back; settle("= cast back", i, m[i]); } break;
            case 35: if (m[i] != 0) { const size_t p = s.draw(N - 1); mpz_class t = abs(m[i]); mpz_setbit(t.get_mpz_t(), p); v[i].setBit(p, true); settle("setBit true", i, m[i] < 0 ? mpz_class(-t) : t); } break;
            case 36: { const size_t k = s.draw(K - 1); v[i] = v[j] - v[k] * v[i]; const mpz_class p = m[k] * m[i]; if (fits(p, N)) settle("= a - b*c", i, m[j] - p); else { coherent("= a - b*c", v[i]); m[i] = Z(v[i]); ++wraps; } } break;
            case 37: { v[i] += -v[j]; settle("+= -a", i, m[i] - m[j]); } break;
            case 38: { const bool up = s.coin(); Aesi<N>* const r = up ? &(++v[i]) : &(--v[i]); truth("++/-- return the number itself", r == &v[i]); settle("++/--", i, up ? mpz_class(m[i] + 1) : mpz_class(m[i] - 1)); } break;
            default: if (m[j] != 0 && i != j && !(big && s.draw(3))) { size_t a = s.draw(K - 1), b = (a + 1 + s.draw(K - 2)) % K; if (a == i || a == j || b == i || b == j) break; Aesi<N>::divide(v[i], v[j], v[a], v[b]); const mpz_class q = tdivq(m[i], m[j]), r = tdivr(m[i], m[j]); settle("divide quotient", a, q); settle("divide remainder", b, r); } break;
        }
        for (size_t k = 0; k < K; ++k) seq("every number after the step", v[k], m[k]);           // only the target changed, nothing lost coherence
        const size_t a = s.draw(K - 1), b = s.draw(K - 1); const int c = cmp(m[a], m[b]);
        truth("== after the history", (v[a] == v[b]) == (c == 0)); truth("< after the history", (v[a] < v[b]) == (c < 0)); truth("> after the history", (v[a] > v[b]) == (c > 0));
        const size_t bits = m[a] == 0 ? 0 : mpz_sizeinbase(m[a].get_mpz_t(), 2), p = s.draw(N - 1);
        switch (s.draw(3)) {       // what the number says about itself after the history
            case 0: { const mpz_class u = abs(m[a]); truth("counters after the history", v[a].bitCount() == bits && v[a].byteCount() == (bits + 7) / 8 && v[a].filledBlocksNumber() == (bits + 31) / 32); truth("getBit after the history", v[a].getBit(p) == (bool)mpz_tstbit(u.get_mpz_t(), p)); truth("getByte after the history", (unsigned)v[a].getByte(p / 8) == (unsigned)gen::mod2(u >> (p / 8 * 8), 8).get_ui()); } break;
            case 1: withIntegral(s, [&](auto k) { const int c = cmp(m[a], gen::fromInt(k)); truth("built-in comparison after the history", (v[a] == k) == (c == 0) && (v[a] < k) == (c < 0) && (v[a] >= k) == (c >= 0) && (k < v[a]) == (c > 0)); }); break;
            case 2: { mpz_class t = gen::mod2(abs(m[b]), M); if (m[b] < 0) t = -t; const Aesi<M> o = S<M>(t); const int c = cmp(m[a], t); truth("other precision after the history", (v[a] == o) == (c == 0) && (v[a] < o) == (c < 0) && (o > v[a]) == (c < 0) && (o == v[a]) == (c == 0)); } break;
            default: truth("predicates after the history", v[a].isOdd() == (bool)mpz_odd_p(m[a].get_mpz_t()) && v[a].isEven() != v[a].isOdd() && v[a].isZero() == (m[a] == 0) && v[a].isPositive() == (m[a] > 0) && v[a].isNegative() == (m[a] < 0)); break;
        }
        if (m[a] == 0) { same("0 + b", v[a] + v[b], m[b]); same("b - 0", v[b] - v[a], m[b]); same("0 - b", v[a] - v[b], -m[b]); truth("zero == 0", v[a] == 0); std::ostringstream o; o << v[a]; eq("text of zero", o.str(), std::string("0")); }
    }
};
BODY(history) {
    constexpr size_t N = C::a, M = C::b; Machine<N, M> mc(s); const size_t len = 1 + s.draw(40); s.note("length", len);
    for (size_t k = 0; k < len; ++k) mc.step();
    s.nontrivial(len >= 5 && mc.zeros > 0); if (mc.wraps) s.label("some result out of range"); if (mc.zeros) s.label("reaches zero");
}
using L = eng::List<W<96, 192>, W<128, 256>, W<160, 96>, W<256, 512>, W<512, 256>, W<96, 1024>, W<224, 128>, W<768, 1536>, W<1024, 2048>, W<544, 288>, W<1536, 768>, W<2048, 4096>, W<4096, 288>, W<352, 448>, W<480, 416>, W<640, 576>>;
ENTRY(history, L, 90000, 1.8, 100)
