// C27: over any history of operations on a set of unsigned numbers, each operation changes its target to the exact result and nothing else
#include "text.hpp"
#include <sstream>
using namespace num;

template <size_t N, size_t M> struct Machine {
    static constexpr size_t K = 4; Src& s; struct { Aeu<N> pre[1]; Aeu<N> v[K]; Aeu<N> post[1]; } st; mpz_class m[K]; mpz_class guard; size_t aliased = 0;
    explicit Machine(Src& src) : s(src) { guard = gen::mod2(gen::pow2(N) / 3, N); st.pre[0] = st.post[0] = U<N>(guard); for (size_t i = 0; i < K; ++i) { m[i] = i == 3 ? mpz_class(0) : gen::uvalue(s, N); st.v[i] = U<N>(m[i]); s.note("start", m[i]); } }
    void set(const char* op, size_t i, const mpz_class& want) { m[i] = gen::mod2(want, N); ueq(op, st.v[i], m[i]); }
    void step() {
        auto& v = st.v; const size_t i = s.draw(K - 1), j = s.draw(K - 1); if (i == j) ++aliased; const uint64_t op = s.draw(41); s.note("op", op); s.note("i", i); s.note("j", j); const bool rare = N > 512 && s.draw(3);
        switch (op) {
            case 0: v[i] += v[j]; set("+=", i, m[i] + m[j]); break;
            case 1: v[i] -= v[j]; set("-=", i, m[i] - m[j]); break;
            case 2: v[i] *= v[j]; set("*=", i, m[i] * m[j]); break;
            case 3: if (m[j] != 0 && !rare) { const mpz_class t = m[i] / m[j]; v[i] /= v[j]; set("/=", i, t); } break;
            case 4: if (m[j] != 0 && !rare) { const mpz_class t = m[i] % m[j]; v[i] %= v[j]; set("%=", i, t); } break;
            case 5: v[i] &= v[j]; set("&=", i, m[i] & m[j]); break;
            case 6: v[i] |= v[j]; set("|=", i, m[i] | m[j]); break;
            case 7: v[i] ^= v[j]; set("^=", i, m[i] ^ m[j]); break;
            case 8: { const unsigned k = (unsigned)s.draw(N - 1); s.note("count", k); v[i] <<= k; set("<<=", i, m[i] << k); } break;
            case 9: { const unsigned k = (unsigned)s.draw(N - 1); s.note("count", k); v[i] >>= k; set(">>=", i, m[i] >> k); } break;
            case 10: v[i] = v[j]; set("=", i, m[j]); break;
            case 11: v[i].swap(v[j]); std::swap(m[i], m[j]); set("swap", i, m[i]); break;
            case 12: ++v[i]; set("++", i, m[i] + 1); break;
            case 13: --v[i]; set("--", i, m[i] - 1); break;
            case 14: { auto o = v[i]++; ueq("post ++", o, m[i]); set("post ++", i, m[i] + 1); } break;
            case 15: { auto o = v[i]--; ueq("post --", o, m[i]); set("post --", i, m[i] - 1); } break;
            case 16: withUnsigned(s, [&](auto k) { v[i] += k; set("+= built-in", i, m[i] + gen::fromInt(k)); }); break;
            case 17: withUnsigned(s, [&](auto k) { v[i] -= k; set("-= built-in", i, m[i] - gen::fromInt(k)); }); break;
            case 18: withUnsigned(s, [&](auto k) { v[i] *= k; set("*= built-in", i, m[i] * gen::fromInt(k)); }); break;
            case 19: withUnsigned(s, [&](auto k) { if (k && !rare) { v[i] /= k; set("/= built-in", i, m[i] / gen::fromInt(k)); } }); break;
            case 20: withUnsigned(s, [&](auto k) { if (k && !rare) { v[i] %= k; set("%= built-in", i, m[i] % gen::fromInt(k)); } }); break;
            case 21: { const size_t k = s.draw(K - 1); v[i] = v[j] + v[k] * v[i]; set("= a + b*c", i, m[j] + m[k] * m[i]); } break;
            case 22: { const size_t k = s.draw(K - 1); v[i] = (v[j] - v[k]) ^ v[i]; set("= (a - b) ^ c", i, gen::mod2(m[j] - m[k], N) ^ m[i]); } break;
            case 23: v[i] = ~v[j]; set("= ~a", i, gen::pow2(N) - 1 - m[j]); break;
            case 24: v[i] = -v[j]; set("= -a", i, -m[j]); break;
            case 25: { const size_t p = s.draw(N - 1); const bool b = s.coin(); s.note("bit", p); v[i].setBit(p, b); mpz_class t = m[i]; if (b) mpz_setbit(t.get_mpz_t(), p); else mpz_clrbit(t.get_mpz_t(), p); set("setBit", i, t); } break;
            case 26: { const size_t p = s.draw(N / 32 - 1); const uint32_t b = gen::block(s); v[i].setBlock(p, b); mpz_class o = gen::mod2(m[i] >> (32 * p), 32); set("setBlock", i, m[i] - (o << (32 * p)) + (gen::fromU64(b) << (32 * p))); } break;
            case 27: { Aeu<M> w = v[j].template precisionCast<M>(); w *= w; v[i] = w.template precisionCast<N>(); set("square at another precision", i, gen::mod2(gen::mod2(m[j], M) * gen::mod2(m[j], M), M)); } break;
            case 28: { std::stringstream o; const bool big = s.coin(); v[j].writeBinary(o, big); v[i].readBinary(o, big); set("binary round trip", i, m[j]); } break;
            case 29: { std::ostringstream o; o << std::hex << v[j]; v[i] = Aeu<N>("0x" + o.str()); set("text round trip", i, m[j]); } break;
            case 30: if (!rare) { v[i] = v[j].squareRoot(); set("squareRoot", i, sqrt(m[j])); } break;
            case 32: withUnsigned(s, [&](auto k) { v[i] <<= k; set("<<= any count of any type", i, k < N ? mpz_class(m[i] << (size_t)k) : m[i]); }); break;
            case 33: withUnsigned(s, [&](auto k) { v[i] = v[j] >> k; set("= a >> any count of any type", i, k < N ? mpz_class(m[j] >> (size_t)k) : m[j]); }); break;
            case 34: withUnsigned(s, [&](auto k) { const mpz_class z = gen::fromInt(k); switch (s.draw(4)) { case 0: v[i] = k - v[j]; set("= built-in - a", i, z - m[j]); break; case 1: v[i] = k + v[j]; set("= built-in + a", i, z + m[j]); break; case 2: v[i] = k * v[j]; set("= built-in * a", i, z * m[j]); break; case 3: v[i] = v[j] * k; set("= a * built-in", i, z * m[j]); break; default: v[i] = k; set("= built-in", i, z); } }); break;
            case 35: { const mpz_class t = gen::second(s, m[j], N); s.note("new", t); v[i] = U<N>(t); set("= new number", i, t); } break;
            case 36: if (!rare) { const mpz_class n = gen::mod2(m[i], N / 2) + 1, e = gen::mod2(m[j], 1 + s.draw(N <= 256 ? 40 : 9)); mpz_class w; mpz_powm(w.get_mpz_t(), m[j].get_mpz_t(), e.get_mpz_t(), n.get_mpz_t()); v[i] = Aeu<N>::powm(v[j], U<N>(e), U<N>(n)); set("powm", i, w); } break;
            case 37: if (!rare && m[i] != 0 && m[j] != 0) { const size_t k = 1 + s.draw(N <= 256 ? N - 1 : 90); const mpz_class a = gen::mod2(m[i], k), b = gen::mod2(m[j], k); if (a != 0 && b != 0) { v[i] = Aeu<N>::gcd(U<N>(a), U<N>(b)); set("gcd", i, gcd(a, b)); } } break;
            case 38: { Aeu<N> t = std::move(v[j]); v[j] = std::move(t); v[i] = std::move(v[j]); v[j] = v[i]; set("moved", i, m[j]); } break;
            case 39: { const size_t k = s.draw(N / 8 - 1); const unsigned b = (unsigned)s.draw(255); v[i].setByte(k, (unsigned char)b); mpz_class o = gen::mod2(m[i] >> (8 * k), 8); set("setByte", i, m[i] - (o << (8 * k)) + (gen::fromU64(b) << (8 * k))); } break;
            case 40: if (fits(m[j], 640)) { std::ostringstream o; o << v[j]; v[i] = Aeu<N>(o.str()); set("decimal round trip", i, m[j]); } break;
            case 41: { const auto t = v[j].template integralCast<unsigned long long>(); v[i] = t; set("through unsigned long long", i, gen::mod2(m[j], 64)); } break;
            default: if (m[j] != 0 && !rare) { size_t a = s.draw(K - 1), b = (a + 1 + s.draw(K - 2)) % K; if (a == i || a == j || b == i || b == j) break; Aeu<N>::divide(v[i], v[j], v[a], v[b]); const mpz_class q = m[i] / m[j], r = m[i] % m[j]; set("divide quotient", a, q); set("divide remainder", b, r); } break;
        }
        for (size_t k = 0; k < K; ++k) ueq("every number after the step", v[k], m[k]);
        ueq("memory before the numbers", st.pre[0], guard); ueq("memory after the numbers", st.post[0], guard);
        const size_t a = s.draw(K - 1), b = s.draw(K - 1); truth("== after the history", (v[a] == v[b]) == (m[a] == m[b])); truth("< after the history", (v[a] < v[b]) == (m[a] < m[b]));
        const size_t bits = m[a] == 0 ? 0 : mpz_sizeinbase(m[a].get_mpz_t(), 2), p = s.draw(N - 1);
        switch (s.draw(3)) {       // what the number says about itself after the history
            case 0: truth("counters after the history", v[a].bitCount() == bits && v[a].byteCount() == (bits + 7) / 8 && v[a].filledBlocksNumber() == (bits + 31) / 32); truth("getBit after the history", v[a].getBit(p) == (bool)mpz_tstbit(m[a].get_mpz_t(), p)); break;
            case 1: withUnsigned(s, [&](auto k) { const int c = cmp(m[a], gen::fromInt(k)); truth("built-in comparison after the history", (v[a] == k) == (c == 0) && (v[a] < k) == (c < 0) && (v[a] >= k) == (c >= 0) && (k < v[a]) == (c > 0)); }); break;
            case 2: { const Aeu<M> w = U<M>(gen::mod2(m[b], M)); const int c = cmp(m[a], gen::mod2(m[b], M)); truth("other precision after the history", (v[a] == w) == (c == 0) && (v[a] < w) == (c < 0) && (w > v[a]) == (c < 0) && (w == v[a]) == (c == 0)); } break;
            default: truth("parity after the history", v[a].isOdd() == (bool)mpz_tstbit(m[a].get_mpz_t(), 0) && v[a].isEven() != v[a].isOdd() && v[a].isZero() == (m[a] == 0)); break;
        }
    }
};
BODY(history) { constexpr size_t N = C::a, M = C::b; Machine<N, M> mc(s); const size_t len = 1 + s.draw(40); s.note("length", len); for (size_t k = 0; k < len; ++k) mc.step(); s.nontrivial(len >= 5 && mc.aliased > 0); if (mc.aliased) s.label("operand aliases the target"); }
using L = eng::List<W<96, 192>, W<128, 96>, W<160, 320>, W<256, 512>, W<512, 256>, W<224, 1024>, W<768, 1536>, W<1024, 512>, W<1536, 768>, W<2048, 4096>, W<4096, 288>, W<544, 288>, W<352, 448>, W<480, 416>, W<640, 576>>;
ENTRY(history, L, 90000, 1.8, 100)
