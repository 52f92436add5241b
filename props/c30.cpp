// C30: number-theoretic programs written with the public operations give the textbook answers
#include "text.hpp"
#include <sstream>
using namespace num;

static mpz_class prime(Src& s, size_t bits) { mpz_class t = gen::mod2(gen::uvalue(s, 2048), bits - 1) | gen::pow2(bits - 1), p; mpz_nextprime(p.get_mpz_t(), t.get_mpz_t()); if (mpz_sizeinbase(p.get_mpz_t(), 2) > bits) mpz_nextprime(p.get_mpz_t(), mpz_class(gen::pow2(bits - 1)).get_mpz_t()); return p; }
// inverse of a modulo m by the library's extended Euclid; the coefficient is a residue modulo 2^N that stands for a small signed number
template <size_t N> static Aeu<N> inverseMod(const Aeu<N>& a, const Aeu<N>& m, bool& coprime) { Aeu<N> x, y; coprime = Aeu<N>::gcd(a, m, x, y) == 1u; return x.getBit(N - 1) ? m - (-x) % m : x % m; }
template <size_t N> static constexpr size_t keyBits() { return N > 288 ? 64 : N / 4; } // of one prime; the modulus takes twice that

BODY(rsa) { // keys from the library's gcd and lcm, encryption and signature round trips
    constexpr size_t N = C::a; const size_t k = 8 + s.draw(keyBits<N>() - 8); const mpz_class p = prime(s, k); mpz_class q = prime(s, 8 + s.draw(k - 8)); if (p == q) mpz_nextprime(q.get_mpz_t(), q.get_mpz_t());
    static const unsigned es[] = { 3, 5, 17, 257, 65537, 7, 11 }; const unsigned e = s.pick(es); const mpz_class n = p * q, msg = gen::mod2(gen::uvalue(s, N), 2 * k) % n; s.note("p", p); s.note("q", q); s.note("e", e); s.note("message", msg);
    const Aeu<N> P = U<N>(p), Q = U<N>(q), n_ = P * Q, phi = Aeu<N>::lcm(P - 1u, Q - 1u); bool ok; const Aeu<N> d = inverseMod<N>(Aeu<N>(e), phi, ok);
    mpz_class lam; mpz_lcm(lam.get_mpz_t(), mpz_class(p - 1).get_mpz_t(), mpz_class(q - 1).get_mpz_t()); ueq("lcm(p-1, q-1)", phi, lam);
    truth("e is coprime exactly when GMP says so", ok == (gcd(mpz_class(e), lam) == 1)); if (!ok) { s.label("e not coprime"); return; }
    s.nontrivial(msg > 1 && lam > 2); ueq("private exponent", d, [&] { mpz_class r; mpz_invert(r.get_mpz_t(), mpz_class(e).get_mpz_t(), lam.get_mpz_t()); return r; }());
    const Aeu<N> c = Aeu<N>::powm(U<N>(msg), Aeu<N>(e), n_); ueq("decrypted message", Aeu<N>::powm(c, d, n_), msg); ueq("verified signature", Aeu<N>::powm(Aeu<N>::powm(U<N>(msg), d, n_), Aeu<N>(e), n_), msg);
    // the same through the Chinese remainder theorem, with signed arithmetic for the difference
    const Aeu<N> mp = Aeu<N>::powm(c % P, d % (P - 1u), P), mq = Aeu<N>::powm(c % Q, d % (Q - 1u), Q), qi = inverseMod<N>(Q % P, P, ok); truth("q has an inverse", ok);
    Aesi<N> h = (Aesi<N>(mp) - Aesi<N>(mq)) * Aesi<N>(qi) % Aesi<N>(P); if (h.isNegative()) h += Aesi<N>(P); ueq("message from the remainders", mq + h.unsignedCast() * Q, msg);
}
using L = eng::List<W<256>, W<96>, W<128>, W<160>, W<192>, W<288>, W<512>, W<768>>;
ENTRY(rsa, L, 1500, 1.6, 60)
BODY(diffie_hellman) {
    constexpr size_t N = C::a; const mpz_class p = prime(s, 8 + s.draw(2 * keyBits<N>() - 8)), g = 2 + gen::mod2(gen::uvalue(s, N), 24) % (p - 2), a = gen::mod2(gen::uvalue(s, N), 64), b = gen::mod2(gen::uvalue(s, N), 90); s.note("p", p); s.note("g", g); s.note("a", a); s.note("b", b); s.nontrivial(a > 1 && b > 1);
    const Aeu<N> P = U<N>(p), G = U<N>(g); const Aeu<96> A = U<96>(a); const Aeu<N> B = U<N>(b);
    const Aeu<N> left = Aeu<N>::powm(Aeu<N>::powm(G, A, P), B, P), right = Aeu<N>::powm(Aeu<N>::powm(G, B, P), A, P); mpz_class want; mpz_powm(want.get_mpz_t(), g.get_mpz_t(), mpz_class(a * b).get_mpz_t(), p.get_mpz_t());
    ueq("secret of one side", left, want); ueq("secret of the other side", right, want);
}
ENTRY(diffie_hellman, L, 2500, 1.8, 60)
template <size_t N> static bool strongProbablePrime(const Aeu<N>& n, unsigned base) { // Miller-Rabin
    if (n <= 3u) return n > 1u; if (n.isEven()) return false; Aeu<N> d = n - 1u; unsigned r = 0; while (d.isEven()) { d >>= 1u; ++r; }
    if ((n % Aeu<N>(base)).isZero()) return n == base; Aeu<N> x = Aeu<N>::powm(Aeu<N>(base), d, n); if (x == 1u || x == n - 1u) return true; while (--r > 0 && r < N) { x = x * x % n; if (x == n - 1u) return true; } return false;
}
BODY(primality) {
    constexpr size_t N = C::a; const size_t bits = 4 + s.draw(2 * keyBits<N>() - 4); mpz_class n = gen::mod2(gen::uvalue(s, N), bits);
    switch (s.draw(3)) { case 0: mpz_nextprime(n.get_mpz_t(), n.get_mpz_t()); break; case 1: { const mpz_class p = prime(s, 3 + bits / 2 / 2); n = p * (2 * p - 1); } break; case 2: n |= 1; break; default: { mpz_class t = n | 1, q; mpz_nextprime(q.get_mpz_t(), mpz_class(gen::mod2(t, bits / 2)).get_mpz_t()); n = q * (1 + s.draw(60)); } }
    if (!fits(n, N / 2)) n = gen::mod2(n, N / 2); s.note("n", n); s.nontrivial(n > 1000); static const unsigned bases[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }; // enough for certainty below 2^81, and error below 4^-12 beyond
    bool all = true; for (unsigned b : bases) all = all && strongProbablePrime<N>(U<N>(n), b); truth("strong probable prime exactly when GMP says prime", all == (mpz_probab_prime_p(n.get_mpz_t(), 30) != 0)); if (all) s.label("prime");
}
ENTRY(primality, L, 1500, 1.8, 60)
BODY(products) { // factorials, binomials and primorials built with the built-in operators; the README's example among them
    constexpr size_t N = C::a; const unsigned n = (unsigned)(2 + s.draw(N <= 1024 ? N / 4 : N <= 4096 ? 120 : 24)), k = (unsigned)s.draw(n); s.note("n", n); s.note("k", k); s.nontrivial(n > 20);
    Aeu<N> f = 1u; Aesi<N> g = -1; bool wrapped = false; mpz_class exact = 1; for (unsigned i = 2; i <= n; ++i) { f *= i; exact *= i; wrapped = wrapped || !fits(exact, N); if (!wrapped) g *= -(long)i; }
    ueq("n!", f, gen::mod2(exact, N)); if (wrapped) s.label("wraps");
    if (!wrapped) { const mpz_class want = n % 2 ? mpz_class(-exact) : exact; seq("signed product", g, want); std::ostringstream o; o << std::showbase << std::hex << f; eq("n! in hexadecimal", o.str(), "0x" + exact.get_str(16));
        for (unsigned i = n; i >= 2; --i) { const auto [q, r] = Aeu<N>::divide(f, i); truth("n! is divisible by its factors", r.isZero()); f = q; g /= -(int)i; } ueq("n! divided back", f, 1); seq("signed product divided back", g, -1); }
    Aeu<N> c = 1u; mpz_class w = 1; const unsigned m = k < n - k ? k : n - k; bool fit = true; for (unsigned i = 1; i <= m && fit; ++i) { fit = fits(w * (n - i + 1), N); if (!fit) break; w *= n - i + 1; w /= i; c *= n - i + 1; c /= i; } ueq("binomial coefficient", c, w);
}
ENTRY(products, AllW, 3000, 2.2, 12)
BODY(recurrences) { // Fibonacci numbers three ways
    constexpr size_t N = C::a; const unsigned n = (unsigned)s.draw(N + N / 2); s.note("n", n); s.nontrivial(n > 100); mpz_class want; mpz_fib_ui(want.get_mpz_t(), n); const mpz_class m = gen::mod2(want, N);
    Aeu<N> a = 0u, b = 1u; for (unsigned i = 0; i < n; ++i) { Aeu<N> t = a + b; a = b; b = t; } ueq("by addition, modulo 2^N", a, m);
    Aeu<N> f = 0u, g = 1u; for (unsigned bit = 16; bit-- > 0;) { const Aeu<N> h = f * ((g << 1u) - f), k = f * f + g * g; f = h; g = k; if (n >> bit & 1) { const Aeu<N> t = f + g; f = g; g = t; } } ueq("by doubling, modulo 2^N", f, m);
    Aesi<N> x = 0, y = 1; const unsigned k = n % (N + N / 4); unsigned i = 0; for (; i < k; ++i) { Aesi<N> t = x - y; x = y; y = t; if (x.bitCount() + 2 > N) { ++i; break; } } mpz_class fk; mpz_fib_ui(fk.get_mpz_t(), i); seq("negative indices by subtraction", x, i % 2 ? fk : mpz_class(-fk)); // F(-i) = (-1)^(i+1) F(i)
}
ENTRY(recurrences, AllW, 12000, 2.0, 12)
BODY(radix) { // any radix from 2 to 2^32 by repeated division, and back by Horner's rule
    constexpr size_t N = C::a; const mpz_class m = text::value(s, N, N <= 2048 ? 768 : 256); const unsigned r = s.coin() ? (unsigned)s.range(2, 62) : (unsigned)(2 + s.draw(0xfffffffdu)); s.note("a", m); s.note("radix", r); s.nontrivial(gen::filled(m) > 1);
    std::vector<uint32_t> d; Aeu<N> x = U<N>(m); while (!x.isZero() && d.size() < N) { const auto [q, rem] = Aeu<N>::divide(x, r); d.push_back(rem.template integralCast<uint32_t>()); x = q; } truth("division ends", x.isZero());
    if (r <= 62) { std::string t; static const char low[] = "0123456789abcdefghijklmnopqrstuvwxyz", up[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; for (size_t i = d.size(); i-- > 0;) t += (r <= 36 ? low : up)[d[i]]; eq("digits", t.empty() ? std::string("0") : t, m.get_str((int)r)); }
    Aeu<N> y = 0u; Aesi<N> z = 0; for (size_t i = d.size(); i-- > 0;) { y *= r; y += d[i]; z *= r; z -= d[i]; if (i) z = -z, z = -z; } ueq("Horner's rule", y, m); seq("Horner's rule below zero", z, mpz_class(-m));
}
ENTRY(radix, AllW, 20000, 2.4, 16)
BODY(euclid) { // extended Euclid written by the user over signed numbers; modular fractions
    constexpr size_t N = C::a; const size_t cap = N > 512 ? 256 : N / 2 - 1; const mpz_class a = gen::mod2(gen::uvalue(s, cap), cap) + 1, b = gen::second(s, a, cap) + 1; s.note("a", a); s.note("b", b); s.nontrivial(a > 1 && b > 1 && gen::filled(a) > 1);
    Aesi<N> r0 = S<N>(a), r1 = S<N>(b), x0 = 1, x1 = 0, y0 = 0, y1 = 1; unsigned steps = 0; while (!r1.isZero() && steps++ < 2 * N) { const Aesi<N> q = r0 / r1; Aesi<N> t = r0 - q * r1; r0 = r1; r1 = t; t = x0 - q * x1; x0 = x1; x1 = t; t = y0 - q * y1; y0 = y1; y1 = t; }
    truth("Euclid's algorithm ends", r1.isZero()); const mpz_class g = gcd(a, b); seq("last remainder", r0, g); seq("a*x + b*y", S<N>(a) * x0 + S<N>(b) * y0, g); eq("gcd of the unsigned class", Z(Aeu<N>::gcd(U<N>(a), U<N>(b))), g);
    seq("x vanishes at the end", x1, mpz_class(mpz_class(b / g) * (Z(x1) < 0 ? -1 : 1))); if (a != b) truth("|x| is at most b/g", abs(Z(x0)) <= b / g && abs(Z(y0)) <= a / g);
}
using M = eng::List<W<256>, W<96>, W<128>, W<160>, W<192>, W<224>, W<288>, W<320>, W<384>, W<512>, W<768>, W<1024>>;
ENTRY(euclid, M, 6000, 2.6, 40)
BODY(fractions) { // sums of reduced fractions: signed numerators, gcd for the reduction
    constexpr size_t N = C::a; const size_t cap = N / 5; const unsigned n = 2 + (unsigned)s.draw(10); Aesi<N> p = 0; Aeu<N> q = 1u; mpq_class w = 0; unsigned done = 0;
    for (unsigned i = 0; i < n; ++i) {
        const mpz_class a = gen::mod2(gen::uvalue(s, N), 1 + s.draw(cap)), b = s.coin() ? mpz_class(1 + i) : mpz_class(gen::mod2(gen::uvalue(s, N), 1 + s.draw(cap)) + 1); const bool minus = s.coin(); const mpz_class qn = w.get_den() * b; const mpz_class x = abs(w.get_num()) * b + a * w.get_den();
        if (!fits(x, N) || !fits(qn, N)) break; s.note("numerator", minus ? mpz_class(-a) : a); s.note("denominator", b); ++done;
        Aesi<N> t = p * S<N>(b); const Aesi<N> u = Aesi<N>(U<N>(a) * q); if (minus) t -= u; else t += u; Aeu<N> d = q * U<N>(b);
        const Aeu<N> g = Aeu<N>::gcd(t.unsignedCast(), d); t /= Aesi<N>(g); d /= g; p = t; q = d; mpq_class f(minus ? mpz_class(-a) : a, b); f.canonicalize(); w += f;
        seq("numerator of the sum", p, w.get_num()); ueq("denominator of the sum", q, w.get_den());
    }
    s.nontrivial(done > 2 && w != 0);
}
ENTRY(fractions, M, 4000, 2.4, 24)
BODY(multiples) { // the least common multiple of several numbers, as long as it fits although the product does not
    constexpr size_t N = C::a; mpz_class w = 1; Aeu<N> l = 1u; const unsigned n = 2 + (unsigned)s.draw(30); unsigned done = 0; bool tight = false; const bool run = s.coin();
    for (unsigned i = 0; i < n; ++i) {
        mpz_class t = run ? mpz_class(i + 1 + s.draw(1)) : mpz_class(1); if (!run) for (unsigned k = 1 + (unsigned)s.draw(3); k-- > 0;) { static const unsigned ps[] = { 2, 3, 5, 7, 11, 13, 65537, 4294967291u, 2 }; mpz_class f; mpz_ui_pow_ui(f.get_mpz_t(), s.pick(ps), s.draw(N / 24)); if (fits(t * f, N)) t *= f; }
        mpz_class z; mpz_lcm(z.get_mpz_t(), w.get_mpz_t(), t.get_mpz_t()); if (!fits(z, N)) break; if (!fits(w * t, N)) tight = true; s.note("t", t); ++done; const bool swap = s.coin();
        const Aeu<N> T = U<N>(t); ueq("gcd with the next", Aeu<N>::gcd(swap ? T : l, swap ? l : T), gcd(w, t)); l = swap ? Aeu<N>::lcm(T, l) : Aeu<N>::lcm(l, T); w = z; ueq("lcm so far", l, w); truth("divisible by the last", (l % T).isZero());
    }
    s.nontrivial(done > 2); if (tight) s.label("the product would not fit");
}
ENTRY(multiples, M, 3000, 2.4, 24)
BODY(congruences) { // the general Chinese remainder theorem, moduli with common factors
    constexpr size_t N = C::a; const mpz_class x = gen::mod2(gen::uvalue(s, N), N / 2 - 2); mpz_class m = 1, r = 0; Aeu<N> Mo = 1u, R = 0u; const unsigned n = 2 + (unsigned)s.draw(5); unsigned done = 0; s.note("x", x);
    for (unsigned i = 0; i < n; ++i) {
        mpz_class k = gen::mod2(gen::uvalue(s, N), 1 + s.draw(N / 4)) + 1; if (s.oneIn(4)) k = gcd(k, m) * (1 + s.draw(6)); const mpz_class g = gcd(m, k), l = m / g * k; if (!fits(l, N / 2 - 2) || !fits(k * k, N)) continue; s.note("modulus", k); ++done;
        const Aeu<N> K = U<N>(k), want = U<N>(x % k); Aeu<N> a = 0u, b = 0u; const Aeu<N> G = Aeu<N>::gcd(Mo, K, a, b); ueq("gcd of the moduli", G, g); ueq("identity of Bezout", Mo * a + K * b, g);
        const Aesi<N> diff = Aesi<N>(want) - Aesi<N>(R); truth("the congruences agree", (diff % Aesi<N>(G)).isZero()); const Aeu<N> KG = K / G, MG = Mo / G; bool ok; const Aeu<N> inv = KG == 1u ? Aeu<N>(0u) : inverseMod<N>(MG % KG, KG, ok);
        Aesi<N> h = diff / Aesi<N>(G) % Aesi<N>(KG) * Aesi<N>(inv) % Aesi<N>(KG); if (h.isNegative()) h += Aesi<N>(KG); R += Mo * h.unsignedCast(); Mo = Mo * KG; m = l; r = x % m; ueq("combined modulus", Mo, m); ueq("combined residue", R, r);
    }
    s.nontrivial(done > 1 && m > 100);
}
ENTRY(congruences, M, 3000, 2.4, 24)
BODY(continued_fraction) { // the square root of D as a continued fraction, and Pell's equation along the way
    constexpr size_t N = C::a; const mpz_class D = gen::mod2(gen::uvalue(s, N), 4 + s.draw((N > 512 ? 512 : N) / 3)) + 2, a0 = sqrt(D); s.note("D", D); if (a0 * a0 == D) { s.label("square"); ueq("root of a square", U<N>(D).squareRoot() * U<N>(D).squareRoot(), D); return; }
    const Aeu<N> d = U<N>(D), A0 = d.squareRoot(); ueq("integer part", A0, a0); Aesi<N> m = 0, q = 1, a = Aesi<N>(A0), p0 = 1, p1 = Aesi<N>(A0), q0 = 0, q1 = 1; mpz_class wp0 = 1, wp1 = a0, wq0 = 0, wq1 = 1, wa = a0; unsigned k = 0;
    for (; k < 60; ++k) {
        m = q * a - m; q = (Aesi<N>(d) - m * m) / q; a = (Aesi<N>(A0) + m) / q; truth("the steps stay positive", q.isPositive() && a.isPositive());
        if (k < 59) { const Aesi<N> norm = p1 * p1 - Aesi<N>(d) * q1 * q1; seq("p^2 - D q^2", norm, k % 2 ? Z(q) : mpz_class(-Z(q))); }
        wa = Z(a); mpz_class t = wa * wp1 + wp0; wp0 = wp1; wp1 = t; t = wa * wq1 + wq0; wq0 = wq1; wq1 = t; if (!fits(wp1 * wp1, N) || !fits(D * wq1 * wq1, N)) break;
        Aesi<N> u = a * p1 + p0; p0 = p1; p1 = u; u = a * q1 + q0; q0 = q1; q1 = u; seq("numerator", p1, wp1); seq("denominator", q1, wq1); seq("neighbouring convergents", p1 * q0 - p0 * q1, k % 2 ? -1 : 1);
        if (k % 8 == 0) ueq("same as the rounded quotient", (p1.unsignedCast() * p1.unsignedCast()).squareRoot(), wp1);
    }
    s.nontrivial(k > 3);
}
ENTRY(continued_fraction, M, 2500, 2.4, 24)
BODY(determinant) { // Bareiss' elimination: every division is exact
    constexpr size_t N = C::a; const unsigned n = 2 + (unsigned)s.draw(3); const size_t bits = 1 + s.draw(N / (2 * n) > 8 ? N / (2 * n) - 6 : 1); std::vector<std::vector<mpz_class>> w(n, std::vector<mpz_class>(n)); std::vector<std::vector<Aesi<N>>> a(n, std::vector<Aesi<N>>(n, Aesi<N>(0)));
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { w[i][j] = gen::mod2(gen::uvalue(s, N), bits); if (s.coin()) w[i][j] = -w[i][j]; if (i && s.oneIn(12)) w[i][j] = w[0][j]; s.note("entry", w[i][j]); a[i][j] = S<N>(w[i][j]); }
    mpz_class wp = 1; Aesi<N> p = 1; bool minus = false; bool fit = true;
    for (unsigned k = 0; k + 1 < n && fit; ++k) {
        unsigned r = k; while (r < n && w[r][k] == 0) ++r; unsigned r2 = k; while (r2 < n && a[r2][k].isZero()) ++r2; eq("first row with a pivot", r2, r); if (r == n) { s.label("singular"); return; } if (r != k) { std::swap(w[r], w[k]); for (unsigned j = 0; j < n; ++j) a[r][j].swap(a[k][j]); minus = !minus; }
        for (unsigned i = k + 1; i < n; ++i) for (unsigned j = k + 1; j < n; ++j) { const mpz_class x = w[i][j] * w[k][k], y = w[i][k] * w[k][j]; if (!fits(abs(x) + abs(y), N)) fit = false; w[i][j] = (x - y) / wp; if (fit) { Aesi<N> t = a[i][j] * a[k][k] - a[i][k] * a[k][j]; truth("exact division", (t % p).isZero()); a[i][j] = t / p; seq("entry after elimination", a[i][j], w[i][j]); } }
        wp = w[k][k]; if (fit) p = a[k][k];
    }
    if (fit) seq("determinant", minus ? -a[n - 1][n - 1] : a[n - 1][n - 1], minus ? mpz_class(-w[n - 1][n - 1]) : w[n - 1][n - 1]); s.nontrivial(fit && bits > 4);
}
ENTRY(determinant, M, 6000, 2.2, 24)
BODY(sieve) { // the number as a set of bits: primes in a window, marked by single bits or by shifted masks, counted three ways
    constexpr size_t N = C::a; const uint64_t from = s.coin() ? s.draw(100000) : s.draw(50); const bool masks = s.coin(); s.note("from", from); s.note("masks", masks); s.nontrivial(true);
    Aeu<N> set = ~Aeu<N>(0u), twins = 0u; for (uint64_t p = 2; p * p < from + N; ++p) {
        const uint64_t first = std::max(p * p, (from + p - 1) / p * p) - from; if (first >= N) continue;
        if (!masks) for (uint64_t i = first; i < N; i += p) set.setBit(i, false);
        else { Aeu<N> m = 1u; for (uint64_t w = p; w < N; w *= 2) m |= m << (unsigned)w; set &= ~(m << first); }
    }
    for (uint64_t i = from; i < 2 && i - from < N; ++i) set.setBit(i - from, false);
    mpz_class want = 0; size_t count = 0; for (size_t i = 0; i < N; ++i) { const uint64_t x = from + i; bool prime = x > 1; for (uint64_t p = 2; p * p <= x && prime; ++p) prime = x % p != 0; if (prime) { mpz_setbit(want.get_mpz_t(), i); ++count; } }
    ueq("primes of the window", set, want); twins = set & (set >> 2u); ueq("twins", twins, want & (want >> 2));
    size_t c = 0; for (Aeu<N> x = set; !x.isZero() && c <= N; x &= x - 1u) ++c; eq("counted by clearing the lowest", c, count);
    Aeu<N> v = set; const Aeu<N> all = ~Aeu<N>(0u), m1 = all / 3u, m2 = all / 5u, m4 = all / 17u; v -= (v >> 1u) & m1; v = (v & m2) + ((v >> 2u) & m2); v = (v + (v >> 4u)) & m4; size_t t = 0; for (size_t i = 0; i < N / 8; ++i) t += v.getByte(i); eq("counted in parallel", t, count);
    Aeu<N> low = set & -set; if (count) { eq("lowest", (size_t)low.bitCount() - 1, mpz_scan1(want.get_mpz_t(), 0)); eq("highest", (size_t)set.bitCount(), mpz_sizeinbase(want.get_mpz_t(), 2)); }
}
ENTRY(sieve, AllW, 1500, 1.8, 12)
BODY(identities) { // polynomial identities, which hold modulo 2^N too
    constexpr size_t N = C::a; const size_t part = s.coin() ? N / 2 : N; const mpz_class a = gen::mod2(gen::uvalue(s, N), part), b = gen::mod2(gen::second(s, a, N), part), c = gen::uvalue(s, N); s.note("a", a); s.note("b", b); s.note("c", c); s.nontrivial(gen::filled(a) > 1 && gen::filled(b) > 1);
    const Aeu<N> A = U<N>(a), B = U<N>(b), K = U<N>(c); ueq("a^2 - b^2", (A + B) * (A - B), gen::mod2(a * a - b * b, N)); ueq("the same by squares", A * A - B * B, gen::mod2(a * a - b * b, N)); Aeu<N> q = A + B; q *= q; q -= (A * B) << 1u; ueq("a^2 + b^2", q, gen::mod2(a * a + b * b, N));
    ueq("a^4 + 4 b^4", (A * A + (B * B << 1u) + (A * B << 1u)) * (A * A + (B * B << 1u) - (A * B << 1u)), gen::mod2(a * a * a * a + 4 * b * b * b * b, N)); ueq("three factors", (A - B) * (B - K) * (K - A), gen::mod2((a - b) * (b - c) * (c - a), N));
    if (part == N / 2 && fits(a, N / 2 - 1) && fits(b, N / 2 - 1)) { const Aesi<N> x = Aesi<N>(A), y = Aesi<N>(B); seq("signed a^2 - b^2", (x + y) * (x - y), a * a - b * b); seq("-(a - b)^2", -(x - y) * (x - y), mpz_class(-(a - b) * (a - b))); seq("(a*b - 1) - a*b", x * y - 1 - x * y, -1); }
    Aeu<N> inv = 1u; const Aeu<N> odd = A | Aeu<N>(1u); for (unsigned k = 1; k < N; k *= 2) inv *= Aeu<N>(2u) - odd * inv; ueq("inverse modulo 2^N by Newton", odd * inv, 1);
}
ENTRY(identities, AllW, 20000, 1.9, 16)
BODY(bit_tricks) { // Gray code and its inverse, reversal, rotation, interleaving of halves
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); s.note("a", m); s.nontrivial(gen::filled(m) > 1); const Aeu<N> x = U<N>(m); const Aeu<N> g = x ^ (x >> 1u); ueq("Gray code", g, m ^ (m >> 1));
    Aeu<N> y = g; for (unsigned k = 1; k < N; k *= 2) y ^= y >> k; ueq("Gray code inverted", y, m);
    const unsigned r = (unsigned)s.draw(N - 1); s.note("r", r); const Aeu<N> rot = r ? (x << r) | (x >> (unsigned)(N - r)) : x; ueq("rotated", rot, gen::mod2(m << r, N) | (m >> (N - r))); ueq("rotated back", r ? (rot >> r) | (rot << (unsigned)(N - r)) : rot, m);
    Aeu<N> rev = 0u; Aeu<N> t = x; for (size_t i = 0; i < N; ++i) { rev <<= 1u; if (t.isOdd()) rev |= Aeu<N>(1u); t >>= 1u; } mpz_class wr = 0; for (size_t i = 0; i < N; ++i) if (mpz_tstbit(m.get_mpz_t(), i)) mpz_setbit(wr.get_mpz_t(), N - 1 - i); ueq("reversed", rev, wr);
    const unsigned h = N / 2; const Aeu<N> lo = x & (Aeu<N>::power2(h) - 1u), hi = x >> h; ueq("halves", hi * Aeu<N>::power2(h) + lo, m); ueq("sum of halves", lo + hi, gen::mod2(m, h) + (m >> h));
    ueq("difference of or and and", (x | y << 1u) - (x & y << 1u), gen::mod2(m ^ gen::mod2(m << 1, N), N)); ueq("average without overflow", (x & g) + ((x ^ g) >> 1u), (m + (m ^ (m >> 1))) >> 1);
}
ENTRY(bit_tricks, AllW, 20000, 1.8, 12)
BODY(series) { // pi by Machin's formula and e by its series, in fixed point
    constexpr size_t N = C::a; const unsigned P = (unsigned)(N - 8 - s.draw(N / 2)); s.note("fraction bits", P); s.nontrivial(true); static const unsigned xs[] = { 5, 239, 57, 18, 7, 2 }; const unsigned k = s.pick(xs), sq = k * k; s.note("1/x", k);
    Aeu<N> term = Aeu<N>::power2(P) / k, sum = term; mpz_class wt = gen::pow2(P) / k, ws = wt; Aesi<N> signedSum = Aesi<N>(term); for (unsigned i = 1; i < 2 * N && !term.isZero(); ++i) { term /= sq; wt /= sq; const auto [q, r] = Aeu<N>::divide(term, 2 * i + 1); if (i % 2) { sum -= q; ws -= wt / (2 * i + 1); signedSum -= Aesi<N>(q); } else { sum += q; ws += wt / (2 * i + 1); signedSum += Aesi<N>(q); } } ueq("last term", term, wt); ueq("arctangent", sum, ws); seq("arctangent with signs", signedSum, ws);
    Aeu<N> e = Aeu<N>::power2(P), f = e; mpz_class we = gen::pow2(P), wf = we; for (unsigned i = 1; i < N && wf != 0; ++i) { f /= i; e += f; wf /= i; we += wf; } ueq("e", e, we);
}
ENTRY(series, M, 1200, 2.0, 12)
using List3 = eng::List<W<96>, W<128>, W<160>, W<192>, W<224>, W<256>, W<288>, W<512>>;
BODY(perfect_powers) { // integer roots by Newton and bisection, checked by multiplication
    constexpr size_t N = C::a; const unsigned k = 2 + (unsigned)s.draw(7); mpz_class m; if (s.coin()) { const mpz_class r = gen::mod2(gen::uvalue(s, N), N / k); mpz_pow_ui(m.get_mpz_t(), r.get_mpz_t(), k); m += (long)s.draw(2) - 1; if (m < 0 || !fits(m, N)) m = 8; } else m = gen::uvalue(s, N); s.note("k", k); s.note("a", m); s.nontrivial(m > 1000);
    mpz_class want; mpz_root(want.get_mpz_t(), m.get_mpz_t(), k); const Aeu<N> x = U<N>(m); if (k == 2) ueq("root", x.squareRoot(), want); if (k == 4) ueq("root of the root", x.squareRoot().squareRoot(), want); if (k == 8) ueq("root three times", x.squareRoot().squareRoot().squareRoot(), want);
    Aeu<N> r = 0u; for (size_t b = (x.bitCount() + k - 1) / k + 1; b-- > 0;) { Aeu<N> t = r; t.setBit(b, true); if (t.bitCount() * k > N + k) continue; Aeu<N> p = t; bool over = false; for (unsigned i = 1; i < k && !over; ++i) { if (!p.isZero() && x / p < t) over = true; else p *= t; } if (!over && p <= x) r = t; } ueq("root by bisection", r, want);
}
ENTRY(perfect_powers, List3, 1500, 2.2, 24)
BODY(lucas_lehmer) { // Mersenne numbers, reduced by shifts, against powm and against plain division
    constexpr size_t N = C::a; unsigned p = 3 + 2 * (unsigned)s.draw((N / 2 > 130 ? 130 : N / 2) / 2 - 2); s.note("p", p); const Aeu<N> m = Aeu<N>::power2(p) - 1u; const mpz_class w = gen::pow2(p) - 1; s.nontrivial(p > 10); const bool prime = mpz_probab_prime_p(mpz_class(p).get_mpz_t(), 20), division = s.coin();
    Aeu<N> x = 4u; for (unsigned i = 0; i < p - 2; ++i) { x *= x; if (division) x = (x + m - 2u) % m; else { x += m; x -= 2u; while (x.bitCount() > p) x = (x & m) + (x >> p); if (x == m) x = 0u; } }
    if (prime) truth("Mersenne prime exactly when GMP says so", x.isZero() == (mpz_probab_prime_p(w.get_mpz_t(), 20) != 0)); ueq("Fermat", Aeu<N>::powm(3u, m - 1u, m), [&] { mpz_class r; mpz_powm(r.get_mpz_t(), mpz_class(3).get_mpz_t(), mpz_class(w - 1).get_mpz_t(), w.get_mpz_t()); return r; }());
}
ENTRY(lucas_lehmer, L, 400, 1.8, 12)
