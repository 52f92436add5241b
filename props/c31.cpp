// C31: calls have no memory, and equal numbers are interchangeable however they were made
#include "text.hpp"
#include <sstream>
using namespace num;

// the value v of precision N, made in one of many ways
template <size_t N> static Aeu<N> route(Src& s, const mpz_class& v) {
    const size_t len = mpz_sgn(v.get_mpz_t()) ? mpz_sizeinbase(v.get_mpz_t(), 2) : 0; const size_t k = s.draw(19); s.note("made by", k);
    const auto other = [&] { return gen::related(s, v, N); };
    switch (k) {
        case 1: return Aeu<N>(text::full(v, 16, true));
        case 2: if (len <= 512) return Aeu<N>(std::string_view(text::full(v, 10, false))); break;
        case 3: { const mpz_class x = other(); return U<N>(v - x) + U<N>(x); }
        case 4: { const mpz_class x = other(); return U<N>(v + x) - U<N>(x); }
        case 5: { const mpz_class x = other(); return U<N>(v ^ x) ^ U<N>(x); }
        case 6: { const mpz_class x = other(); return U<N>(v & x) | (U<N>(v) & ~U<N>(x)); }
        case 7: return U<N + 96>(v + (gen::uvalue(s, 96) << N)).template precisionCast<N>();
        case 8: if (len <= 96 && N != 96) { if constexpr (N != 96) return U<96>(v).template precisionCast<N>(); } break;
        case 9: if (len < N) { const size_t h = s.draw(N - 1 - len); return (U<N>((v << h) + gen::mod2(other(), h))) >> h; } break;
        case 10: { size_t z = len ? mpz_scan1(v.get_mpz_t(), 0) : 0; z = s.draw(z); return U<N>(v >> z) << z; }
        case 11: { std::stringstream ss; U<N>(v).writeBinary(ss); Aeu<N> r = U<N>(other()); r.readBinary(ss); return r; }
        case 12: if (len > 0) { const mpz_class d = 1 + gen::mod2(other(), N - len); if (fits(v * d, N)) { Aeu<N> q = U<N>(other()), r = U<N>(other()); Aeu<N>::divide(U<N>(v * d + s.draw(1) * (d - 1)), U<N>(d), q, r); return q; } } break;
        case 13: if (len + 2 < N) { Aeu<N> r = U<N>(other()); r %= U<N>(v + 1); return U<N>(v) % U<N>(v + 1 + gen::mod2(other(), 20)); } break;
        case 14: { Aeu<N> a = U<N>(v), b = U<N>(other()); a.swap(b); return b; }
        case 15: { Aeu<N> r = U<N>(v - 1); return ++r; }
        case 16: { Aeu<N> r = U<N>(v + 1); r--; return r; }
        case 17: return Aesi<N>(U<N>(v)).unsignedCast();
        case 18: { if (v > 0) return Aeu<N>::gcd(U<N>(v), U<N>(v)); Aeu<N> r = U<N>(other()); r -= r; return r; }
        case 19: { Aeu<N> r = U<N>(other()); for (size_t i = 0; i < N / 8; ++i) r.setByte(i, (unsigned char)gen::lowU64(gen::mod2(v >> (8 * i), 8))); return r; }
        default: break;
    }
    return U<N>(v);
}
template <size_t N> static Aesi<N> sroute(Src& s, const mpz_class& v) {
    const size_t k = s.draw(11); s.note("made by", k); const mpz_class m = abs(v); const bool room = fits(m, N - 2);
    switch (k) {
        case 1: return Aesi<N>(text::full(v, 16, true));
        case 2: if (fits(m, 400)) return Aesi<N>(std::string(s.draw(2) * 2, '-') + text::full(v, 10, false)); break;
        case 3: if (room) { const mpz_class x = gen::mod2(gen::uvalue(s, N), N - 2) * (s.coin() ? 1 : -1); return S<N>(v - x) + S<N>(x); } break;
        case 4: if (room) { const mpz_class x = gen::mod2(gen::uvalue(s, N), N - 2) * (s.coin() ? 1 : -1); return S<N>(v + x) - S<N>(x); } break;
        case 5: return -S<N>(-v);
        case 6: { Aesi<N> r = S<N>(-v); r.inverse(); return r; }
        case 7: { Aesi<N> r(route<N>(s, m)); if (v < 0) r *= -1; return r; }
        case 8: return S<N + 64>(v).template precisionCast<N>();
        case 9: if (room) { Aesi<N> r = S<N>(v - 1); return ++r; } break;
        case 10: if (room) { Aesi<N> q, r = S<N>(3); Aesi<N>::divide(S<N>(v * 2), S<N>(2), q, r); return q; } break;
        case 11: if (room) return S<N>(v) % S<N>((m + 1) * (s.coin() ? 1 : -1)); break;
        default: break;
    }
    return S<N>(v);
}

// one pure call, answered as text by the library and by GMP. Small sizes for the expensive ones
struct Call { unsigned kind; size_t i, j, k; unsigned arg; };
enum { Observe, Text, Compare, Sum, Product, Quotient, Remainder, Gcd, Bezout, Lcm, Powm, PowmShort, Root, Shift, Cast, Narrow, Parse, Logic, SDivide, SProduct, SSum, SCompare, STextual, SCast, SRoot, Builtin, Kinds };

template <size_t N> struct World {
    static constexpr size_t P = N <= 256 ? 5 : 4, M = N <= 512 ? N + 64 : 160;
    mpz_class v[P], w[P]; Aeu<N> a[P]; Aesi<N> b[P];
    void judge(const Call& c) const {
        const mpz_class &x = v[c.i], &y = v[c.j], &z = v[c.k], &p = w[c.i], &q = w[c.j]; const Aeu<N> &X = a[c.i], &Y = a[c.j], &Z = a[c.k]; const Aesi<N> &p_ = b[c.i], &q_ = b[c.j]; const unsigned r = c.arg;
        switch (c.kind) {
            case Observe: { const size_t bits = x > 0 ? mpz_sizeinbase(x.get_mpz_t(), 2) : 0; eq("bitCount", X.bitCount(), bits); eq("byteCount", X.byteCount(), (bits + 7) / 8); eq("filledBlocksNumber", X.filledBlocksNumber(), (bits + 31) / 32); eq("isOdd", X.isOdd(), (bool)mpz_odd_p(x.get_mpz_t())); eq("isZero", X.isZero(), x == 0); eq("getBit", X.getBit(r % N), (bool)mpz_tstbit(x.get_mpz_t(), r % N)); ueq("value", X, x); } break;
            case Text: { char buf[N + 8]; std::string t; const bool sh = r & 8; switch (fits(x, 400) ? r % 3 : 0) { case 0: X.template getString<16>(buf, sizeof buf, sh && x != 0); t = buf; eq("hexadecimal text", t, text::full(x, 16, sh && x != 0)); break; case 1: X.template getString<10>(buf, sizeof buf); t = buf; eq("decimal text", t, text::full(x, 10, false)); break; default: { std::ostringstream os; if (r & 16) os << std::hex; os << X; eq("streamed", os.str(), text::full(x, r & 16 ? 16 : 10, false)); } } } break;
            case Compare: eq("==", X == Y, x == y); eq("<", X < Y, x < y); eq("<=", X <= Y, x <= y); eq("> other precision", U<M>(y) < X.template precisionCast<M>(), gen::mod2(y, M) < gen::mod2(x, M)); break;
            case Sum: ueq("a + b", X + Y, gen::mod2(x + y, N)); ueq("a - b", X - Y, gen::mod2(x - y, N)); break;
            case Product: ueq("a * b", X * Y, gen::mod2(x * y, N)); break;
            case Quotient: if (y != 0) ueq("a / b", X / Y, x / y); break;
            case Remainder: if (y != 0) ueq("a % b", X % Y, x % y); break;
            case Gcd: if ((x != 0 || y != 0) && fits(x, 700)) ueq("gcd", Aeu<N>::gcd(X, Y), gcd(x, y)); break;
            case Bezout: if ((x != 0 || y != 0) && fits(x, 400)) { Aeu<N> s, t; ueq("gcd with coefficients", Aeu<N>::gcd(X, Y, s, t), gcd(x, y)); ueq("identity", X * s + Y * t, gcd(x, y)); } break;
            case Lcm: if ((x != 0 || y != 0) && fits(x, 400)) ueq("lcm", Aeu<N>::lcm(X, Y), gen::mod2(x / gcd(x, y) * y, N)); break;
            case Powm: case PowmShort: { const mpz_class m = gen::mod2(z, N / 2 < 300 ? N / 2 : 300), e = gen::mod2(y, 9 + r % 40); if (m == 0) break; mpz_class want; mpz_powm(want.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); const Aeu<N> m_ = U<N>(m); if (c.kind == Powm) ueq("powm", Aeu<N>::powm(X, U<N>(e), m_), want); else ueq("powm with another precision", Aeu<N>::powm(X, U<N == 96 ? 128 : 96>(e), m_), want); } break;
            case Root: if (fits(x, 600)) ueq("squareRoot", X.squareRoot(), sqrt(x)); break;
            case Shift: ueq("a << k", X << (r % N), gen::mod2(x << (r % N), N)); ueq("a >> k", X >> (r % N), x >> (r % N)); break;
            case Cast: { const auto c_ = X.template precisionCast<M>(); eq("cast", Z_(c_), gen::mod2(x, M)); eq("product after cast", Z_(c_ * c_), gen::mod2(gen::mod2(x, M) * gen::mod2(x, M), M)); if (y != 0 && fits(y, M)) eq("quotient in the other precision", Z_(c_ / Y.template precisionCast<M>()), gen::mod2(x, M) / y); } break;
            case Narrow: eq("integralCast", X.template integralCast<unsigned long long>(), (unsigned long long)gen::lowU64(x)); eq("integralCast short", X.template integralCast<unsigned short>(), (unsigned short)gen::lowU64(x)); break;
            case Parse: { const int base = r % 2 ? 16 : 10; const mpz_class u = base == 10 ? gen::mod2(x, 300) : x; ueq("parsed", Aeu<N>(text::full(u, base, true)), gen::mod2(u, N)); } break;
            case Logic: ueq("a & b", X & Y, x & y); ueq("a | b", X | Y, x | y); ueq("a ^ b", X ^ Y, x ^ y); ueq("~a", ~X, gen::pow2(N) - 1 - x); break;
            case SDivide: if (q != 0) { Aesi<N> s, t; Aesi<N>::divide(p_, q_, s, t); seq("signed quotient", s, tdivq(p, q)); seq("signed remainder", t, tdivr(p, q)); seq("p / q", p_ / q_, tdivq(p, q)); seq("p % q", p_ % q_, tdivr(p, q)); } break;
            case SProduct: if (fits(p * q, N)) seq("p * q", p_ * q_, p * q); break;
            case SSum: if (fits(p + q, N)) seq("p + q", p_ + q_, p + q); if (fits(p - q, N)) seq("p - q", p_ - q_, p - q); seq("-p", -p_, -p); break;
            case SCompare: eq("p == q", p_ == q_, p == q); eq("p < q", p_ < q_, p < q); eq("p >= q", p_ >= q_, p >= q); eq("p < int", p_ < (int)r, p < mpz_class(gen::fromInt((int)r))); break;
            case STextual: { char buf[N + 8]; p_.template getString<16>(buf, sizeof buf); eq("signed text", std::string(buf), text::full(p, 16, false)); std::ostringstream os; if (fits(p, 300)) { os << p_; eq("signed streamed", os.str(), text::full(p, 10, false)); } } break;
            case SCast: { const mpz_class m = gen::mod2(abs(p), M); seq("signed cast", p_.template precisionCast<M>(), p < 0 ? mpz_class(-m) : m); if (fits(p, 63)) eq("integralCast", gen::fromInt(p_.template integralCast<long long>()), p); } break;
            case SRoot: if (fits(p, 500)) seq("signed squareRoot", p_.squareRoot(), p > 0 ? mpz_class(sqrt(p)) : mpz_class(0)); break;
            case Builtin: { const unsigned long long u = (unsigned long long)r * 0x100000001ull; const mpz_class g = gen::fromU64(u); ueq("a + u", X + u, gen::mod2(x + g, N)); ueq("a * u", a[c.i] * u + 0u, gen::mod2(x * g, N)); eq("a == u", X == u, x == g); if (u) ueq("a % u", X % u, x % g); } break;
        }
    }
    template <size_t K> static mpz_class Z_(const Aeu<K>& u) { return Z(u); }
};

BODY(calls) {
    constexpr size_t N = C::a; World<N> w; mpz_class base = gen::uvalue(s, N);
    for (size_t i = 0; i < w.P; ++i) { w.v[i] = i == 0 ? base : s.draw(3) ? gen::related(s, w.v[s.draw(i - 1)], N) : gen::uvalue(s, N); w.w[i] = i && s.coin() ? gen::related(s, abs(w.w[0]), N) : w.v[i]; if (s.coin()) w.w[i] = -w.w[i]; s.note("v", w.v[i]); s.note("w", w.w[i]); w.a[i] = route<N>(s, w.v[i]); w.b[i] = sroute<N>(s, w.w[i]); }
    for (size_t i = 0; i < w.P; ++i) { ueq("made", w.a[i], w.v[i]); seq("made signed", w.b[i], w.w[i]); }
    std::vector<Call> done; const size_t steps = 1 + s.draw(N <= 512 ? 23 : 11); size_t repeated = 0; unsigned kinds = 0;
    for (size_t t = 0; t < steps; ++t) {
        Call c; const size_t how = done.empty() ? 0 : s.draw(4);
        if (how <= 1) { c.kind = (unsigned)s.draw(Kinds - 1); c.i = s.draw(w.P - 1); c.j = s.draw(w.P - 1); c.k = s.draw(w.P - 1); c.arg = (unsigned)s.draw(0xffff); }
        else { c = done[s.draw(done.size() - 1)]; ++repeated; // an earlier call, exactly, or with another operand, or after the object has changed in place
            if (how == 2) { switch (s.draw(3)) { case 0: c.i = s.draw(w.P - 1); break; case 1: c.j = s.draw(w.P - 1); break; case 2: c.k = s.draw(w.P - 1); break; default: std::swap(c.i, c.j); } }
            else if (how == 3) { const size_t o = s.coin() ? c.i : s.coin() ? c.j : c.k; w.v[o] = gen::related(s, w.v[o], N); w.w[o] = gen::related(s, abs(w.w[o]), N) * (s.coin() ? 1 : -1); s.note("changed", o); s.note("v", w.v[o]); s.note("w", w.w[o]); w.a[o] = route<N>(s, w.v[o]); w.b[o] = sroute<N>(s, w.w[o]); } }
        kinds |= 1u << c.kind; s.note("call", c.kind); s.note("i", c.i); s.note("j", c.j); s.note("k", c.k); s.note("arg", c.arg); w.judge(c); done.push_back(c);
    }
    for (size_t i = 0; i < w.P; ++i) { ueq("operand afterwards", w.a[i], w.v[i]); seq("signed operand afterwards", w.b[i], w.w[i]); }
    for (size_t t = done.size(); t-- > 0;) w.judge(done[t]); // once more, in the opposite order
    s.nontrivial(repeated >= 1 && __builtin_popcount(kinds) >= 2 && gen::filled(base) > 1);
}
using L = eng::List<W<256>, W<96>, W<128>, W<160>, W<192>, W<224>, W<288>, W<384>, W<512>, W<544>, W<768>, W<1024>, W<2048>>;
ENTRY(calls, L, 6000, 1.7, 60)
