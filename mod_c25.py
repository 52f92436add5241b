"""C25: generated programs evaluate to the exact results inside constant expressions (g++ and clang++) and the same at run time. Oracle: Python integers."""
import concurrent.futures as cf, copy, hashlib, json, math, os, random, re, subprocess, time

WIDTHS = [96, 128, 160, 256, 512]
PRELUDE = r'''
#include <AesiMultiprecision/Aeu.h>
#include <AesiMultiprecision/Aesi.h>
#include <array>
#include <cstdio>
#include <string>
#include <string_view>
template <size_t N> constexpr Aeu<N> mu(const std::array<unsigned, N / 32>& b) { Aeu<N> r = 0u; for (size_t i = 0; i < N / 32; ++i) r.setBlock(i, b[i]); return r; }
template <size_t N> constexpr Aesi<N> ms(int sign, const std::array<unsigned, N / 32>& b) { if (sign == 0) return Aesi<N>(0); Aesi<N> r = sign; for (size_t i = 0; i < N / 32; ++i) r.setBlock(i, b[i]); return r; }
template <size_t N> constexpr bool is(const Aeu<N>& v, const std::array<unsigned, N / 32>& b) { for (size_t i = 0; i < N / 32; ++i) if (v.getBlock(i) != b[i]) return false; return true; }
template <size_t N> constexpr bool is(const Aesi<N>& v, int sign, const std::array<unsigned, N / 32>& b) { if (v.isZero() != (sign == 0) || v.isPositive() != (sign > 0) || v.isNegative() != (sign < 0)) return false; for (size_t i = 0; i < N / 32; ++i) if (v.getBlock(i) != b[i]) return false; return true; }
template <class T> constexpr bool txt(const T& v, std::string_view want, bool show, auto call) { char b[600] {}; call(v, b, sizeof b, show); size_t n = 0; while (b[n]) ++n; return std::string_view(b, n) == want; }
#ifdef PRE_CPP_20
#define ORDER(K, X)
#else
#define ORDER(K, X) CHECK(K, X)
#endif
#ifdef AESI_UNSAFE
#define SAFE(K, X)
#else
#define SAFE(K, X) CHECK(K, X)
#endif
#define CHECK(K, X) do { if (!(X)) return K; } while (0)
'''

def value(r, n):
    k = r.randrange(9)
    if k == 0: v = r.randrange(20)
    elif k == 1: v = r.getrandbits(n)
    elif k == 2: v = r.getrandbits(r.randrange(1, n + 1))
    elif k == 3: v = (1 << r.randrange(n + 1)) + r.randrange(-2, 3)
    elif k == 4: v = (1 << n) - 1 - r.randrange(5)
    elif k == 5: v = sum(r.choice([0, 0xffffffff, 0x80000000, 1, r.getrandbits(32)]) << (32 * i) for i in range(n // 32))
    elif k == 6: i, j = sorted((r.randrange(n + 1), r.randrange(n + 1))); v = (1 << j) - (1 << i)
    elif k == 7: v = r.getrandbits(64)
    else: v = r.getrandbits(32) << (32 * r.randrange(n // 32))
    return v % (1 << n)

def blocks(v, n): return "{" + ", ".join(f"{(v >> (32 * i)) & 0xffffffff}u" for i in range(n // 32)) + "}"
def U(v, n): return f"mu<{n}>({{{blocks(v, n)}}})"
def S(v, n): return f"ms<{n}>({(v > 0) - (v < 0)}, {{{blocks(abs(v), n)}}})"
def isU(e, v, n): return f"is<{n}>({e}, {{{blocks(v, n)}}})"
def isS(e, v, n): return f"is<{n}>({e}, {(v > 0) - (v < 0)}, {{{blocks(abs(v), n)}}})"
def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def trem(a, b): return a - b * tdiv(a, b)
def digits(v, base):
    if v == 0: return "0"
    s = ""
    while v: s = "0123456789abcdef"[v % base] + s; v //= base
    return s
PRE = {2: "0b", 8: "0o", 10: "", 16: "0x"}

OPS = ["add", "sub", "mul", "div", "mod", "and", "or", "xor", "not", "neg", "shl", "shr", "inc", "dec", "addw", "mulw", "cmp", "bits", "set", "gcd", "powm", "sqrt", "power2", "cast", "text", "parse", "lit", "sadd", "ssub", "smul", "sdiv", "smod", "sneg", "sstep", "scmp", "sint", "scast", "sparse", "stext", "icast", "swap", "wide", "left", "divide", "shassign", "saccess", "sroot", "scross", "wtext", "wparse", "powmx", "sleft", "order", "bitw", "post", "divw", "inverse", "copy", "sgcd", "manip", "compound", "scompound", "wcompound", "range", "cut", "ints", "string", "ssmall", "ratio", "zerotext", "wright", "wright", "related", "related", "related"]

def gen_case(r):
    n = 1024 if r.randrange(14) == 0 else r.choice(WIDTHS); m = r.choice([w for w in WIDTHS if w != n]); sv = lambda: value(r, n) * r.choice([1, -1])
    return {"n": n, "m": m, "u": [value(r, n), value(r, n)], "s": [sv(), sv()], "ops": [{"op": r.choice(OPS), "i": r.randrange(2), "j": r.randrange(2), "x": value(r, 64), "v": value(r, n), "neg": r.randrange(2)} for _ in range(r.randrange(1, 6))]}

def emit(case, name):
    """C++ text of one case: a function returning 0 or the number of the step whose result is wrong"""
    n, m, u, s = case["n"], case["m"], list(case["u"]), list(case["s"]); M = 1 << n; MM = 1 << m
    L = [f"constexpr int {name}() {{", f"  Aeu<{n}> u[2] = {{ {U(u[0], n)}, {U(u[1], n)} }}; Aesi<{n}> s[2] = {{ {S(s[0], n)}, {S(s[1], n)} }};"]
    nontrivial = 0
    for k, o in enumerate(case["ops"], 1):
        op, i, j, x, v = o["op"], o["i"], o["j"], o["x"], o["v"]; a, b = u[i], u[j]; p, q = s[i], s[j]; chk = lambda e: L.append(f"  CHECK({k}, {e});"); do = lambda e: L.append("  " + e)
        setu = lambda e, w: (do(f"u[{i}] = {e};"), u.__setitem__(i, w % M), chk(isU(f"u[{i}]", u[i], n)))
        def sets(e, w, stmt=False):
            if abs(w) >= M: return False
            do(e if stmt else f"s[{i}] = {e};"); s[i] = w; chk(isS(f"s[{i}]", w, n)); return True
        nontrivial += 1
        w64, w32 = x, x & 0xffffffff
        if op == "add": setu(f"u[{i}] + u[{j}]", a + b)
        elif op == "sub": do(f"u[{i}] -= u[{j}];"); u[i] = (a - b) % M; chk(isU(f"u[{i}]", u[i], n))
        elif op == "mul": setu(f"u[{i}] * u[{j}]", a * b)
        elif op == "div" and b: setu(f"u[{i}] / u[{j}]", a // b)
        elif op == "mod" and b: setu(f"u[{i}] % u[{j}]", a % b)
        elif op == "and": setu(f"u[{i}] & u[{j}]", a & b)
        elif op == "or": do(f"u[{i}] |= u[{j}];"); u[i] = a | b; chk(isU(f"u[{i}]", u[i], n))
        elif op == "xor": setu(f"u[{i}] ^ u[{j}]", a ^ b)
        elif op == "not": setu(f"~u[{j}]", M - 1 - b)
        elif op == "neg": setu(f"-u[{j}]", -b)
        elif op == "shl": c = x % (n + 8); setu(f"u[{i}] << {c}u", a << c if c < n else a)
        elif op == "shr": c = x % (n + 8); setu(f"u[{i}] >> {c}u", a >> c if c < n else a)
        elif op == "inc": do(f"++u[{i}]; u[{i}]++;"); u[i] = (a + 2) % M; chk(isU(f"u[{i}]", u[i], n))
        elif op == "dec": do(f"--u[{i}]; u[{i}]--;"); u[i] = (a - 2) % M; chk(isU(f"u[{i}]", u[i], n))
        elif op == "addw": setu(f"u[{i}] + {w64}ull - {w32}u", a + w64 - w32)
        elif op == "mulw": do(f"u[{i}] *= {w64}ull;"); u[i] = a * w64 % M; chk(isU(f"u[{i}]", u[i], n)); chk(isU(f"u[{i}] * {w32}u", u[i] * w32 % M, n))
        elif op == "cmp":
            for t, w in (("==", a == b), ("!=", a != b), ("<", a < b), ("<=", a <= b), (">", a > b), (">=", a >= b)): chk(f"(u[{i}] {t} u[{j}]) == {str(w).lower()}")
            chk(f"(u[{i}] < {w64}ull) == {str(a < w64).lower()}"); chk(f"(u[{i}] == {w32}u) == {str(a == w32).lower()}")
        elif op == "bits":
            bl = a.bit_length(); chk(f"u[{i}].bitCount() == {bl}u && u[{i}].byteCount() == {(bl + 7) // 8}u && u[{i}].filledBlocksNumber() == {(bl + 31) // 32}u && u[{i}].isOdd() == {a & 1} && u[{i}].isZero() == {int(a == 0)}")
            c = x % n; chk(f"u[{i}].getBit({c}) == {(a >> c) & 1} && u[{i}].getByte({c // 8}) == {(a >> (c // 8 * 8)) & 255}")
        elif op == "set":
            c = x % n; t = o["neg"]; do(f"u[{i}].setBit({c}, {str(bool(t)).lower()}); u[{i}].setByte({c // 8}, {v & 255}); u[{i}].setBlock({c // 32}, {(v >> 8) & 0xffffffff}u);")
            a = (a & ~(1 << c)) | (t << c); y = c // 8 * 8; a = (a & ~(255 << y)) | ((v & 255) << y); y = c // 32 * 32; a = (a & ~(0xffffffff << y)) | (((v >> 8) & 0xffffffff) << y); u[i] = a; chk(isU(f"u[{i}]", a, n))
        elif op == "gcd":
            c, d = (x >> 20) or 1, (v & 0xffffffffffff) or 1; g = math.gcd(c, d); do(f"{{ Aeu<{n}> x = 0u, y = 0u; const auto g = Aeu<{n}>::gcd({U(c, n)}, {U(d, n)}, x, y);"); chk(isU("g", g, n)); chk(isU(f"({U(c, n)} * x + {U(d, n)} * y)", g, n)); chk(isU(f"Aeu<{n}>::lcm({U(c, n)}, {U(d, n)})", c // g * d % M, n)); do("}")
        elif op == "powm": md = (v & 0xffffffffff) + 1; e = x & 0xfff; setu(f"Aeu<{n}>::powm(u[{i}], {U(e, n)}, {U(md, n)})", pow(a, e, md)); 
        elif op == "sqrt" and n <= 160: setu(f"u[{j}].squareRoot()", math.isqrt(b))
        elif op == "power2": setu(f"Aeu<{n}>::power2({x % n})", 1 << (x % n))
        elif op == "cast": do(f"{{ const auto w = u[{i}].precisionCast<{m}>();"); chk(isU("w", a % MM, m)); chk(isU(f"w.precisionCast<{n}>()", a % MM % M, n)); do("}")
        elif op == "text":
            c = b & ((1 << 64) - 1) if n > 256 else b; base = (16, 10, 8, 2)[x % 4]; sh = o["neg"]
            if base != 16: c &= (1 << 70) - 1
            chk(f"txt({U(c, n)}, \"{(PRE[base] if sh else '') + digits(c, base)}\", {str(bool(sh)).lower()}, [](const auto& v, char* b, size_t n, bool s) {{ v.template getString<{base}>(b, n, s); }})")
        elif op == "parse": base = (16, 10, 8, 2)[x % 4]; t = PRE[base] + digits(v, base); setu(f"Aeu<{n}>(std::string_view(\"{t}\"))", v)
        elif op == "lit": base = (16, 10, 8, 2)[x % 4]; t = PRE[base].upper() + digits(v, base); setu(f"Aeu<{n}>({'L' if o['neg'] else ''}\"{t}\")", v)
        elif op == "sadd": sets(f"s[{i}] + s[{j}]", p + q)
        elif op == "ssub": sets(f"s[{i}] -= s[{j}];", p - q, True)
        elif op == "smul": sets(f"s[{i}] * s[{j}]", p * q)
        elif op == "sdiv" and q: sets(f"s[{i}] / s[{j}]", tdiv(p, q))
        elif op == "smod" and q: sets(f"s[{i}] % s[{j}]", trem(p, q))
        elif op == "sneg": sets(f"-s[{j}]", -q)
        elif op == "sstep":
            d = 1 if o["neg"] else -1; sets(("++" if d > 0 else "--") + f"s[{i}];", p + d, True)
        elif op == "scmp":
            for t, w in (("==", p == q), ("!=", p != q), ("<", p < q), ("<=", p <= q), (">", p > q), (">=", p >= q)): chk(f"(s[{i}] {t} s[{j}]) == {str(w).lower()}")
            c = -(x >> 1) if o["neg"] else x >> 1; lit = f"{c}ll"; chk(f"(s[{i}] < {lit}) == {str(p < c).lower()}"); chk(f"(s[{i}] == {lit}) == {str(p == c).lower()}")
        elif op == "sint": c = -(x >> 1) if o["neg"] else x >> 1; sets(f"s[{i}] = {c}ll;", c, True); sets(f"s[{i}] *= {c // 3}ll;", c * (c // 3), True) if True else None
        elif op == "scast":
            c = abs(p) % MM; c = -c if p < 0 else c; chk(isS(f"s[{i}].precisionCast<{m}>()", c, m)); chk(isU(f"s[{i}].unsignedCast()", abs(p), n)); chk(isS(f"Aesi<{n}>(u[{i}])", a, n))
        elif op == "sparse": base = (16, 10, 8, 2)[x % 4]; t = ("-" if o["neg"] else "") + PRE[base] + digits(v, base); sets(f"Aesi<{n}>(\"{t}\")", -v if o["neg"] else v)
        elif op == "stext":
            c = q if abs(q) < 1 << 70 else (abs(q) & ((1 << 66) - 1)) * (-1 if q < 0 else 1); base = (16, 10, 8, 2)[x % 4]; chk(f"txt({S(c, n)}, \"{'-' if c < 0 else ''}{digits(abs(c), base)}\", false, [](const auto& v, char* b, size_t n, bool s) {{ v.template getString<{base}>(b, n, s); }})")
        elif op == "icast":
            chk(f"u[{i}].integralCast<unsigned long long>() == {a & ((1 << 64) - 1)}ull && u[{i}].integralCast<unsigned short>() == {a & 0xffff}u"); c = -(x >> 1) if o["neg"] else x >> 1; chk(f"{S(c, n)}.integralCast<long long>() == {c}ll")
        elif op == "swap": do("u[0].swap(u[1]); s[0].swap(s[1]);"); u.reverse(); s.reverse(); chk(isU("u[0]", u[0], n)); chk(isU("u[1]", u[1], n)); chk(isS("s[0]", s[0], n)); chk(isS("s[1]", s[1], n))
        elif op == "wide": c = v % MM; chk(f"({U(a, n)} == {U(c, m)}) == {str(a == c).lower()}"); chk(f"({U(a, n)}.compareTo({U(c, m)}) == Comparison::less) == {str(a < c).lower()}")
        elif op == "left":
            f = ("+", "-", "*", "/", "%", "^", "&", "|")[x % 8]; c = w64
            if f in "/%" and not a: nontrivial -= 1; continue
            w = {"+": c + a, "-": c - a, "*": c * a, "/": a and c // a, "%": a and c % a, "^": c ^ a, "&": c & a, "|": c | a}[f]; chk(isU(f"({c}ull {f} u[{i}])", w % M, n))
        elif op == "divide" and b: do(f"{{ Aeu<{n}> q = 5u, r = 7u; Aeu<{n}>::divide(u[{i}], u[{j}], q, r); const auto pr = Aeu<{n}>::divide(u[{i}], u[{j}]);"); chk(f"{isU('q', a // b, n)} && {isU('r', a % b, n)} && {isU('pr.first', a // b, n)} && {isU('pr.second', a % b, n)}"); do("}")
        elif op == "shassign":
            c = x % (n + 3); ty = ("unsigned long", "unsigned short", "unsigned long long")[v % 3]; do(f"u[{i}] <<= ({ty}){c};"); a = (a << c) % M if c < n else a; chk(isU(f"u[{i}]", a, n)); d = (v >> 5) % min(n, 255); do(f"u[{i}] >>= (unsigned char){d};"); u[i] = a >> d; chk(isU(f"u[{i}]", u[i], n))
        elif op == "saccess" and p:
            mg = abs(p); bl = mg.bit_length(); c = x % n; chk(f"s[{i}].bitCount() == {bl}u && s[{i}].byteCount() == {(bl + 7) // 8}u && s[{i}].filledBlocksNumber() == {(bl + 31) // 32}u && s[{i}].isOdd() == {mg & 1} && s[{i}].isEven() != s[{i}].isOdd()")
            chk(f"s[{i}].getBit({c}) == {(mg >> c) & 1} && s[{i}].getByte({c // 8}) == {(mg >> (c // 8 * 8)) & 255} && s[{i}].getBlock({c // 32}) == {(mg >> (c // 32 * 32)) & 0xffffffff}u")
            y = c // 32 * 32; mg = mg & ~(0xffffffff << y) | (((v >> 8) | 1) & 0xffffffff) << y; mg = mg | (1 << c); y = (c + 77) % n // 8 * 8; mg = mg & ~(255 << y) | ((v & 255) | 1) << y
            do(f"s[{i}].setBlock({c // 32}, {((v >> 8) | 1) & 0xffffffff}u); s[{i}].setBit({c}, true); s[{i}].setByte({(c + 77) % n // 8}, {(v & 255) | 1});"); s[i] = mg if p > 0 else -mg; chk(isS(f"s[{i}]", s[i], n))
        elif op == "sroot" and n <= 160: chk(isS(f"s[{j}].squareRoot()", math.isqrt(q) if q > 0 else 0, n)); chk(isS(f"Aesi<{n}>::power2({x % n})", 1 << (x % n), n)); do(f"SAFE({k}, ({isU(f'Aeu<{n}>::power2({n + x % 99})', 0, n)} && {isS(f'Aesi<{n}>::power2({n + x % 99})', 0, n)}));")
        elif op == "scross":
            c = abs(p) % MM if o["neg"] else v % MM; c = -c if x & 1 else c; e = S(c, m)
            for t, w in (("==", p == c), ("!=", p != c), ("<", p < c), (">=", p >= c)): do(f"{'CHECK' if t == '==' else 'ORDER'}({k}, (s[{i}] {t} {e}) == {str(w).lower()});")
            chk(f"({e}.compareTo(s[{i}]) == Comparison::{'less' if c < p else 'greater' if c > p else 'equal'})")
        elif op == "wtext":
            c = b & ((1 << 90) - 1) if x & 3 else b; up = o["neg"]; sg = c and x & 4; txt_ = digits(c, 16); txt_ = "0x" + (txt_.upper() if up else txt_) if c else "0"
            e = S(-c, n) if sg else U(c, n); do(f"{{ wchar_t b[300] {{}}; {e}.template getString<16, {str(bool(up)).lower()}, wchar_t>(b, 300, {str(bool(c)).lower()});"); chk(f"std::wstring_view(b) == std::wstring_view(L\"{'-' if sg else ''}{txt_}\")"); do("}")
        elif op == "wparse":
            base = (16, 10, 8, 2)[x % 4]; t = (PRE[base] + digits(v, base)); t = t.upper() if x & 16 else t; z = "-" * (x >> 5 & 3); c = -v if len(z) & 1 else v
            chk(isU(f"Aeu<{n}>(std::wstring_view(L\"{t}\"))", v, n)); chk(isU(f"Aeu<{n}>(\"{t}99zz\", {len(t)})", v, n)); chk(isS(f"Aesi<{n}>(std::string_view(\"{z}{t}\"))", c, n)); chk(isS(f"Aesi<{n}>(L\"{z}{t}\")", c, n))
        elif op == "powmx": md = (v & 0xffffffffff) + 1; e = (x & 0xffff) % MM; chk(isU(f"Aeu<{n}>::powm(u[{j}], {U(e, m)}, {U(md, n)})", pow(b, e, md), n))
        elif op == "sleft":
            f = ("+", "-", "*", "/", "%")[x % 5]; c = -(x >> 1) if o["neg"] else x >> 1
            if f in "/%" and not p: nontrivial -= 1; continue
            w = {"+": c + p, "-": c - p, "*": c * p, "/": p and tdiv(c, p), "%": p and trem(c, p)}[f]
            if abs(w) < M: chk(isS(f"({c}ll {f} s[{i}])", w, n))
        elif op == "order":
            for l, r_, w in ((f"u[{i}]", f"u[{j}]", (a > b) - (a < b)), (f"u[{i}]", f"{w64}ull", (a > w64) - (a < w64)), (f"s[{i}]", f"s[{j}]", (p > q) - (p < q)), (f"s[{i}]", f"{x >> 1}ll", (p > x >> 1) - (p < x >> 1))):
                do(f"ORDER({k}, (({l} <=> {r_}) {('<', '==', '>')[w + 1]} 0));"); chk(f"{l}.compareTo({r_}) == Comparison::{('less', 'equal', 'greater')[w + 1]}")
            do(f"ORDER({k}, ({w64}ull > u[{i}]) == {str(w64 > a).lower()} && ({w64}ull == u[{i}]) == {str(w64 == a).lower()} && ({x >> 1}ll <= s[{i}]) == {str((x >> 1) <= p).lower()});")
        elif op == "bitw": f, w = (("&", a & w64), ("|", a | w64), ("^", a ^ w64))[x % 3]; chk(isU(f"(u[{i}] {f} {w64}ull)", w, n)); do(f"u[{i}] {f}= u[{j}];"); u[i] = (a & b, a | b, a ^ b)[x % 3]; chk(isU(f"u[{i}]", u[i], n))
        elif op == "post":
            d = 1 if o["neg"] else -1; f = "++" if d > 0 else "--"; chk(isU(f"u[{i}]{f}", a, n)); u[i] = (a + d) % M; chk(isU(f"u[{i}]", u[i], n))
            if abs(p + d) < M: chk(isS(f"s[{i}]{f}", p, n)); s[i] = p + d; chk(isS(f"s[{i}]", s[i], n))
        elif op == "divw" and w32:
            chk(isU(f"u[{i}] / {w32}u", a // w32, n)); do(f"u[{i}] %= {w64}ull;") if w64 else None; u[i] = a % w64 if w64 else a; chk(isU(f"u[{i}]", u[i], n)); c = -(x >> 1) if o["neg"] else x >> 1
            if c: chk(isS(f"s[{i}] % {c}ll", trem(p, c), n)); do(f"s[{i}] /= {c}ll;"); s[i] = tdiv(p, c); chk(isS(f"s[{i}]", s[i], n))
        elif op == "inverse": do(f"s[{i}].inverse();"); s[i] = -p; chk(isS(f"s[{i}]", -p, n)); chk(isS(f"+s[{i}]", -p, n)); chk(isU(f"+u[{i}]", a, n))
        elif op == "copy": do(f"{{ const Aeu<{n}> c(u[{i}]); Aeu<{n}> d {{}}; "); chk(isU("d", 0, n)); do(f"d = c; Aesi<{n}> e {{}}; "); chk(isS("e", 0, n)); do(f"e = s[{j}];"); chk(isU("d", a, n)); chk(isS("e", q, n)); do(f"e = {w32}u; d = {w64}ull;"); chk(isS("e", w32, n)); chk(isU("d", w64, n)); do("}")
        elif op == "sgcd": c, d = (x >> 24) or 1, (v & 0xffffffffff) or 1; chk(isU(f"Aeu<{n}>::gcd({U(c, n)}, {U(d, n)})", math.gcd(c, d), n)); chk(isU(f"Aeu<{n}>::lcm({U(d, n)}, {U(c, n)})", math.lcm(c, d) % M, n))
        elif op == "manip" and q: do(f"{{ Aesi<{n}> d, r; Aesi<{n}>::divide(s[{i}], s[{j}], d, r);"); chk(f"{isS('d', tdiv(p, q), n)} && {isS('r', trem(p, q), n)}"); do("}")
        elif op == "compound":
            f = ("+", "-", "*", "/", "%", "^", "&", "|")[x % 8]
            if f in "/%" and not b: nontrivial -= 1; continue
            w = {"+": a + b, "-": a - b, "*": a * b, "/": b and a // b, "%": b and a % b, "^": a ^ b, "&": a & b, "|": a | b}[f]; do(f"{{ auto& r = (u[{i}] {f}= u[{j}]);"); chk(f"&r == &u[{i}]"); do("}"); u[i] = w % M; chk(isU(f"u[{i}]", u[i], n))
        elif op == "wcompound":          # built-ins of every width and signedness
            f = ("+", "-", "*", "/", "%", "^", "&", "|")[x % 8]; ty, bits = (("unsigned char", 8), ("unsigned short", 16), ("unsigned", 32), ("unsigned long", 64), ("unsigned long long", 64))[x // 8 % 5]; c = (v if o["neg"] else v | ((1 << 64) - 8)) & ((1 << bits) - 1)
            if f in "/%" and not c: nontrivial -= 1; continue
            w = {"+": a + c, "-": a - c, "*": a * c, "/": c and a // c, "%": c and a % c, "^": a ^ c, "&": a & c, "|": a | c}[f]; u[i] = w % M
            chk(isU(f"(u[{i}] {f} ({ty}){c}ull)", u[i], n)); do(f"u[{i}] {f}= ({ty}){c}ull;"); chk(isU(f"u[{i}]", u[i], n))
        elif op == "scompound":
            f = ("+", "-", "*", "/", "%")[x % 5]; ty, lo, hi = (("signed char", -128, 127), ("short", -32768, 32767), ("int", -1 << 31, (1 << 31) - 1), ("long", -1 << 63, (1 << 63) - 1), ("long long", -1 << 63, (1 << 63) - 1), ("unsigned char", 0, 255), ("unsigned", 0, (1 << 32) - 1), ("unsigned long long", 0, (1 << 64) - 1))[x // 8 % 8]
            c = (lo, hi, lo + v % (hi - lo + 1), v % 17 - (8 if lo < 0 else 0))[x // 64 % 4]; lit = f"({ty})({c}{'ull' if lo == 0 else 'll'})" if c > -1 << 63 else f"({ty})(-9223372036854775807ll - 1)"
            if f in "/%" and not c: nontrivial -= 1; continue
            w = {"+": p + c, "-": p - c, "*": p * c, "/": c and tdiv(p, c), "%": c and trem(p, c)}[f]
            if abs(w) < M: chk(isS(f"(s[{i}] {f} {lit})", w, n)); do(f"s[{i}] {f}= {lit};"); s[i] = w; chk(isS(f"s[{i}]", w, n))
            if f in "/%" and not q: continue
            p = s[i]; q = s[j]; w = {"+": p + q, "-": p - q, "*": p * q, "/": q and tdiv(p, q), "%": q and trem(p, q)}[f]
            if abs(w) < M and (q or f not in "/%"): do(f"s[{i}] {f}= s[{j}];"); s[i] = w; chk(isS(f"s[{i}]", w, n))
        elif op == "range":              # documented: nothing happens, zero comes back
            c = n + (x % 5, x, 0, (1 << 64) - 1 - n - x % 3)[v % 4]; c = min(c, (1 << 64) - 1); y = n // 8 + (x % 5, x >> 1, 0)[v % 3]; z = n // 32 + (x % 5, x >> 1, 0)[v % 3]
            do("#ifndef AESI_UNSAFE"); do(f"u[{i}].setBit({c}ull, {str(bool(o['neg'])).lower()}); u[{i}].setByte({y}ull, 170); u[{i}].setBlock({z}ull, 0xa5a5a5a5u);"); chk(isU(f"u[{i}]", a, n)); chk(f"!u[{i}].getBit({c}ull) && u[{i}].getByte({y}ull) == 0 && u[{i}].getBlock({z}ull) == 0u && !s[{i}].getBit({c}ull) && s[{i}].getByte({y}ull) == 0 && s[{i}].getBlock({z}ull) == 0u"); do("#endif")
            c = x % (n + 4) + n - 2 if o["neg"] else n; 
            if c >= n: chk(isU(f"(u[{i}] << {c}u)", a, n)); chk(isU(f"(u[{i}] >> {c}ull)", a, n))
        elif op == "cut":                # a buffer that is too small for the text
            c = b & ((1 << 80) - 1) or 5; c = -c if o["neg"] else c; base = (16, 10, 8, 2)[x % 4]; sh = x & 8; t = ("-" if c < 0 else "") + (PRE[base] if sh else "") + digits(abs(c), base); z = (x >> 4) % (len(t) + 4)
            do(f"{{ char b[140]; for (auto& h : b) h = '#'; const size_t z = {S(c, n) if c < 0 else U(c, n)}.template getString<{base}>(b, {z}u, {str(bool(sh)).lower()});"); chk(f"z <= {z}u")
            do(f"for (size_t h = {z}; h < 140; ++h) if (b[h] != '#') return {k};")
            if z > len(t): chk(f"z == {len(t) + 1}u && std::string_view(b) == \"{t}\"")
            do("}")
        elif op == "ints":               # built-ins in and out
            for ty, bits in (("bool", 1), ("unsigned char", 8), ("unsigned short", 16), ("unsigned", 32), ("unsigned long", 64)): c = (x if o["neg"] else v) & ((1 << bits) - 1); chk(isU(f"Aeu<{n}>(({ty}){c}ull)", c, n)); chk(isS(f"Aesi<{n}>(({ty}){c}ull)", c, n)); chk(f"u[{i}].template integralCast<{ty}>() == ({ty}){a & ((1 << bits) - 1) if bits > 1 else int(a & 1)}ull") if bits > 1 else None
            for ty, bits in (("signed char", 8), ("short", 16), ("int", 32), ("long", 64)):
                c = x & ((1 << bits) - 1); c = c - (1 << bits) if c >> (bits - 1) else c; c += c == -1 << 63; chk(isS(f"Aesi<{n}>(({ty}){c}ll)", c, n)); do(f"s[{i}] = ({ty}){c}ll;"); s[i] = c; chk(isS(f"s[{i}]", c, n)); chk(f"s[{i}].template integralCast<{ty}>() == ({ty}){c}ll"); chk(f"s[{i}] == ({ty}){c}ll"); chk(f"s[{i}].compareTo(({ty}){c}ll) == Comparison::equal"); do(f"ORDER({k}, s[{i}] <= ({ty}){c}ll && !(s[{i}] > ({ty}){c}ll));")
            chk(f"u[{i}].compareTo({w32}u) == Comparison::{('less', 'equal', 'greater')[(a > w32) - (a < w32) + 1]} && u[{i}].isEven() == {str(a % 2 == 0).lower()}")
        elif op == "string":
            base = (16, 10, 8, 2)[x % 4]; t = PRE[base] + digits(v, base); z = "-" if o["neg"] else ""
            do(f"{{ const std::string_view t = \"{z}{t}\"; std::wstring_view w = L\"{t}\"; std::string o = \"{t}\"; const std::wstring ow = L\"{z}{t}\";"); chk(isU(f"Aeu<{n}>(t)", v, n)); chk(isU(f"Aeu<{n}>(w)", v, n)); chk(isU(f"Aeu<{n}>(o)", v, n)); chk(isU(f"Aeu<{n}>(std::string(\"{t}\"))", v, n)); chk(isS(f"Aesi<{n}>(t)", -v if z else v, n)); chk(isS(f"Aesi<{n}>(w)", v, n)); chk(isS(f"Aesi<{n}>(ow)", -v if z else v, n)); chk(isS(f"Aesi<{n}>(o)", v, n)); do("}")
        elif op == "ssmall":             # results around zero
            c = x % 7 - 3; d = x // 7 % 7 - 3; e, f = S(c, n), S(d, n)
            for g, w in (("+", c + d), ("-", c - d), ("*", c * d)): chk(isS(f"({e} {g} {f})", w, n)); chk(isS(f"({e} {g} ({d}))", w, n)); chk(isS(f"(({c}) {g} {f})", w, n)); do(f"s[{i}] = {e}; s[{i}] {g}= {f};"); chk(isS(f"s[{i}]", w, n))
            if d: chk(isS(f"({e} / {f})", tdiv(c, d), n)); chk(isS(f"({e} % {f})", trem(c, d), n)); chk(isS(f"({e} / ({d}))", tdiv(c, d), n)); chk(isS(f"({e} % ({d}))", trem(c, d), n))
            do(f"s[{i}] = {e}; ++s[{i}];"); chk(isS(f"s[{i}]", c + 1, n)); do(f"--s[{i}]; s[{i}]--;"); chk(isS(f"s[{i}]", c - 1, n)); s[i] = c - 1
            for t, w in (("==", c == d), ("!=", c != d), ("<", c < d), ("<=", c <= d), (">", c > d), (">=", c >= d)): chk(f"({e} {t} {f}) == {str(w).lower()}"); do(f"ORDER({k}, ({e} {t} ({d})) == {str(w).lower()} && (({c}) {t} {f}) == {str(w).lower()});")
        elif op == "ratio" and b:        # a dividend made of a quotient and a remainder
            c = x & 0xffffffff if o["neg"] else x; c = min(c, (M - 1) // b); d = (v % b, 0, b - 1)[x % 3]; e = c * b + d
            if e >= M: e = c * b; d = 0
            u[i if i != j else 1 - j] = e; t = i if i != j else 1 - j; do(f"u[{t}] = {U(e, n)};"); chk(isU(f"(u[{t}] / u[{j}])", e // b, n)); chk(isU(f"(u[{t}] % u[{j}])", e % b, n))
        elif op == "wright":             # a named number times, plus, minus ... a built-in of either width, powers of two and their neighbours among them
            f = ("*", "*", "+", "-", "/", "%", "&", "|", "^")[x % 9]; c = (1 << (v % 64)) - (0, 0, 0, 1)[x // 9 % 4] if o["neg"] else v >> (v % 37)
            for ty, bits in (("unsigned", 32), ("unsigned long", 64), ("unsigned long long", 64)):
                y = c & ((1 << bits) - 1)
                if f in "/%" and not y: continue
                w = {"+": a + y, "-": a - y, "*": a * y, "/": y and a // y, "%": y and a % y, "^": a ^ y, "&": a & y, "|": a | y}[f]; chk(isU(f"(u[{i}] {f} ({ty}){y}ull)", w % M, n)); do(f"{{ const auto& c = u[{i}];"); chk(isU(f"(c {f} ({ty}){y}ull)", w % M, n)); do("}")
        elif op == "related":            # a second operand made from the first
            z = n // 32; t = max((a.bit_length() + 31) // 32, 1); y = x >> 8
            if o["neg"]: a |= (1 << 31) << (32 * (z - 1 - y % 2)); t = (a.bit_length() + 31) // 32
            e = (a, a + 1, a - 1, a >> (32 * (y % z)), (a >> 1) & ~(0xffffffff << (32 * (y % t))) | ((v & 0xffffffff) << (32 * (y % t))), (a >> (32 * (t - 1)) << (32 * (t - 1))) | (v % (1 << (32 * (t - 1)))), a * (y % 9), M - 1 - a, a ^ (1 << (y % n)), a >> (32 * (t - 1)) << (32 * (t - 1)), a >> 1, (a >> 1) + 1)[x % 12] % M
            zz = 32 * (v % min(t, 2)) if y & 1 else 0; a = a >> zz << zz; e = e >> zz << zz; A, E = U(a, n), U(e, n)
            for t_, w in (("==", a == e), ("<", a < e), (">=", a >= e)): chk(f"({A} {t_} {E}) == {str(w).lower()}")
            chk(isU(f"({A} - {E})", (a - e) % M, n)); chk(isU(f"({E} ^ {A})", a ^ e, n)); chk(isU(f"({A} * {E})", a * e % M, n))
            if e: chk(isU(f"({A} / {E})", a // e, n)); chk(isU(f"({A} % {E})", a % e, n))
            if a: chk(isU(f"({E} / {A})", e // a, n)); chk(isU(f"({E} % {A})", e % a, n))
            g, h = (-a if y & 2 else a), (-e if y & 4 else e); G, H = S(g, n), S(h, n)
            if abs(g + h) < M: chk(isS(f"({G} + {H})", g + h, n))
            if abs(g - h) < M: chk(isS(f"({G} - {H})", g - h, n))
            if h: chk(isS(f"({G} / {H})", tdiv(g, h), n)); chk(isS(f"({G} % {H})", trem(g, h), n))
            chk(f"({G} < {H}) == {str(g < h).lower()}")
        elif op == "zerotext": do(f"{{ char b[9] {{}}; wchar_t w[9] {{}}; Aeu<{n}>(0u).template getString<{(2, 8, 10, 16)[x % 4]}>(b, 9); Aesi<{n}>(0).template getString<{(2, 8, 10, 16)[x // 4 % 4]}>(w, 9);"); chk("std::string_view(b) == \"0\" && std::wstring_view(w) == L\"0\""); do("}")
        else: nontrivial -= 1
    L.append("  return 0;"); L.append("}")
    return "\n".join(L), nontrivial

COMPILERS = {"g++": ["g++", "-std=gnu++20", "-w", "-O0", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000", "-fmax-errors=3"], "clang++": ["clang++", "-std=gnu++20", "-w", "-O0", "-fconstexpr-steps=400000000", "-ferror-limit=3"]}

for _c in ("g++", "clang++"):     # the dialects and switches of the library, in constant expressions too
    COMPILERS[_c + "23"] = [x.replace("gnu++20", "gnu++23") for x in COMPILERS[_c]]
    COMPILERS[_c + "-pre20"] = COMPILERS[_c] + ["-DPRE_CPP_20", "-DNDEBUG"]
    COMPILERS[_c + "-unsafe"] = COMPILERS[_c] + ["-DAESI_UNSAFE", "-funsigned-char", "-O2"]
VARIANTS = ("", "", "23", "", "-pre20", "", "-unsafe", "")

def unit(cases, static=True):
    body = [PRELUDE]; 
    for k, (txt, _) in enumerate(cases): body.append(txt)
    if static: body += [f"static_assert(c{k}() == 0, \"case {k}\");" for k in range(len(cases))]
    body.append("int (*volatile table[])() = {" + ", ".join(f"c{k}" for k in range(len(cases))) + "};")
    body.append("int main() { int bad = 0; for (unsigned k = 0; k < sizeof table / sizeof *table; ++k) if (int r = table[k]()) { std::printf(\"%u %d\\n\", k, r); bad = 1; } return bad; }")
    return "\n".join(body)

def build_run(D, d, tag, comp, text):
    """(failing case index or None, message)"""
    src = f"{d}/{tag}.cpp"; exe = f"{d}/{tag}.{comp.replace('+', 'x')}"; open(src, "w").write(text)
    try: r = D.sh(COMPILERS[comp] + [f"-I{D.REPO}/include", src, "-o", exe], timeout=240)
    except subprocess.TimeoutExpired: return 0, "compile time: the compiler did not finish within 240 s"
    if r.returncode:
        m = re.search(r'static_assert\(c(\d+)\(\)', r.stderr) or re.search(r'static assertion failed[^\n]*case (\d+)', r.stderr)
        return (int(m.group(1)) if m else 0), "compile time: " + r.stderr[:2500]
    try: q = subprocess.run([exe], capture_output=True, text=True, errors="backslashreplace", timeout=120)
    except subprocess.TimeoutExpired: return 0, "run time: no result within 120 s"
    finally: os.remove(exe)
    if q.returncode:
        m = re.match(r"(\d+) (\d+)", q.stdout); return (int(m.group(1)) if m else 0), f"run time: step {m.group(2) if m else '?'} of the case is wrong (exit {q.returncode})"
    return None, ""

def one(D, d, tag, comp, case): return build_run(D, d, tag, comp, unit([emit(case, "c0")]))

def shrink(D, d, comp, case):
    end = time.time() + 90; best = copy.deepcopy(case); n = 0
    def cands(c):
        for k in range(len(c["ops"])): x = copy.deepcopy(c); del x["ops"][k]; yield x
        for key in ("u", "s"):
            for i in (0, 1):
                for v in (0, 1, c[key][i] >> 32 if c[key][i] >= 0 else -(-c[key][i] >> 32)):
                    if v != c[key][i] and abs(v) < abs(c[key][i]): x = copy.deepcopy(c); x[key][i] = v; yield x
        for k, o in enumerate(c["ops"]):
            for f in ("x", "v"):
                for v in (0, 1, o[f] >> 16):
                    if v < o[f]: x = copy.deepcopy(c); x["ops"][k][f] = v; yield x
    progress = True
    while progress and time.time() < end:
        progress = False; cs = list(cands(best))
        with cf.ThreadPoolExecutor(D.JOBS) as ex:
            for s in range(0, len(cs), D.JOBS):
                res = list(ex.map(lambda t: one(D, d, f"s{n}_{t[0]}", comp, t[1])[0], enumerate(cs[s:s + D.JOBS]))); n += 1
                hit = next((c for c, r in zip(cs[s:s + D.JOBS], res) if r is not None), None)
                if hit: best = hit; progress = True; break
                if time.time() > end: break
    return best

def run(D, pid, spec, tier, digest):
    d = os.path.join(D.BUILD, pid); import shutil; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = random.Random(D.SEED * 7919 + 25); batches = int(spec["batches"] * (6 if tier == "thorough" else 1) * max(float(os.environ.get("CASE_SCALE", "1")), 0.2)); per = spec["per"]; limit = 560 if tier == "thorough" else 300
    work = []; ops = set(); checks = 0; nt = 0
    for b in range(batches):
        cs = [gen_case(r) for _ in range(per)]; em = [emit(c, f"c{k}") for k, c in enumerate(cs)]; work.append((b, cs, em))
    bad = None; t0 = time.time(); done = 0; seen = set()
    def job(w):
        b, cs, em, comp = w
        if time.time() - t0 > limit: return w, None
        return w, build_run(D, d, f"b{b}_{comp[0]}", comp, unit(em))
    tasks = [(b, cs, em, comp) for b, cs, em in work for comp in ("g++" + VARIANTS[b % 8], "clang++" + VARIANTS[b % 8])]
    with cf.ThreadPoolExecutor(D.JOBS) as ex:
        for (b, cs, em, comp), res in ex.map(job, tasks):
            if res is None: continue
            done += len(cs)
            for c, (t, k) in zip(cs, em):
                checks += t.count("CHECK(")
                if k >= 1: seen.add((comp, hashlib.sha256(t.encode()).hexdigest()))
            if res[0] is not None and bad is None: bad = (comp, cs[min(res[0], len(cs) - 1)], res[1], cs)
    cov = {"evaluations": done, "distinct_nontrivial": len(seen), "rule": spec["rule"], "samples": [work[0][2][0][0][:1500], work[-1][2][1][0][:1500]], "checks_evaluated_at_compile_time_and_at_run_time": checks, "compilers": list(COMPILERS)}
    rp = None
    if bad:
        comp, case, msg, cs = bad
        if one(D, d, "confirm", comp, case)[0] is None:            # the message did not name the case: find it
            case = next((c for k, c in enumerate(cs) if one(D, d, f"f{k}", comp, c)[0] is not None), None)
        if case is None: cov["unreproduced"] = 1; raise D.CompileError([comp], msg)
        small = shrink(D, d, comp, case); k, m2 = one(D, d, "final", comp, small)
        if k is None: small, m2 = case, msg
        rp = os.path.join(D.REPLAYS, f"{pid}-{hashlib.sha256(json.dumps([comp, small]).encode()).hexdigest()[:16]}.replay")
        open(rp, "w").write(f"property {pid}\ncompiler {comp}\ncase {json.dumps(small)}\nmessage {m2[:3000]}\n--- program\n{emit(small, 'c0')[0]}\n")
    shutil.rmtree(d, ignore_errors=True)
    D.write_evidence(pid, tier, "exploration", cov, spec.get("assumptions", []), 1 if rp else 0)
    if rp: print(open(rp).read()[:3000]); D.violation(pid, rp)
    print(f"{pid} held: {done} programs ({checks} checks at compile time and at run time), {len(seen)} distinct non-trivial, {time.time() - D.T0:.1f} s"); return 0

def replay(D, pid, spec, path, digest):
    L = open(path).read().splitlines(); comp = next(l[9:] for l in L if l.startswith("compiler ")); case = json.loads(next(l[5:] for l in L if l.startswith("case ")))
    d = os.path.join(D.BUILD, pid); os.makedirs(d, exist_ok=True); k, m = one(D, d, "replay", comp, case); print("HOLDS" if k is None else "FAILS " + m); return 0 if k is None else 1
