"""One entry per property: source of the check, case counts, and the rule that says what a case is and when it is non-trivial."""
ORACLE = "the oracle is GMP (libgmp), trusted as a reference for integer arithmetic"
BRIDGE = "values enter and leave the library through setBlock/getBlock and the sign predicates, which C07, C13 and C21 check on their own"
X86 = "little-endian 64-bit Linux, g++ -O1 with automatic variables filled with a pattern; precisions are multiples of 32 bits above 64 (the library's static_assert)"
BASE = [ORACLE, BRIDGE, X86]
OPER = ("operands come from 14 structured generators (small, dense, sparse, runs of ones, 2^k +- few, complement of small, repeated blocks, block patterns, literals mined from the headers, powers of small bases) "
        "over 20 precisions from 96 to 16384 bits; second operands are often related to the first (equal, neighbour, one bit or block changed, shared high or low part, multiple)")


def s(pid, rule, assumptions=BASE, **kw): return (pid, dict(src=pid.lower() + ".cpp", rule=rule, assumptions=assumptions, **kw))


SPECS = dict([
    s("C01", OPER + "; a case evaluates every form of + - unary -, ++, -- on them. Non-trivial: the first operand spans more than one block and the second is not zero (for single-operand cases: more than one block, zero or the maximum; for built-ins: the built-in is above one).", scale=60),
    s("C02", OPER + "; half the second factors are sized so that the product just fits. Non-trivial: both factors span more than one block (built-in factors: above one).", scale=60),
    s("C03", OPER + "; a quarter of the dividends are built as d*q+r, other divisors are related to the dividend (quotient near a power of two, neighbour, dividend's high part). Non-trivial: quotient and divisor above one and a dividend of several blocks.", scale=28),
    s("C04", OPER + ". Non-trivial: both operands span more than one block (built-in operands: not zero).", scale=80),
    s("C05", OPER + "; every count from 0 to N-1 is enumerated for every precision by case index, in five unsigned count types; counts from N up to the maximum of the type are generated separately. Non-trivial: count not zero and a value of several blocks (out of range: value not zero and count at least N).", scale=30),
    s("C06", OPER + "; cross-precision pairs share the low part and differ in blocks only one of them has, in half of the cases. Non-trivial: both span several blocks, or one does not fit the narrower precision, or the two are equal across precisions.", scale=80),
    s("C07", OPER + "; sequences of 1 to 12 setBit/setByte/setBlock calls with all getters and counters before and after, at positions inside, at the edges, just outside and far outside the number; both classes; numbers rebuilt from each of the three views. Non-trivial: at least one setter addresses a position inside the number (rebuild: number of several blocks).", scale=1.5),
    s("C08", "texts are assembled from any number of leading dashes (signed), a prefix in either case or none, leading zeros, and digits in lower, upper or mixed case of a generated value, handed in through 9 constructor forms (pointer and size, strings, views, view into a longer text, literal arrays) over 2 character types. Non-trivial: a value of several blocks, or a base other than ten, or (signed) a negative number.", scale=4),
    s("C09", OPER + "; base (or none), case, base prefix, field width, fill, adjustment, digit grouping of the locale and stream character type are generated; a body of its own takes values at 2^k, base^k and their neighbours. Non-trivial: value of several blocks.", scale=0.35),
    s("C10", OPER + "; the buffer has every size from zero to past the text, is allocated exactly, surrounded by guards and under AddressSanitizer; base, case, prefix, character type and class are generated. Non-trivial: a buffer that is not empty and too small for the text and its terminator.", san="asan", assumptions=BASE + ["AddressSanitizer and UndefinedBehaviorSanitizer of gcc"], scale=1),
    s("C11", OPER + "; printed through one of 12 forms and read back through one of 3. Non-trivial: value of several blocks.", scale=1),
    s("C12", OPER + "; stream contents before and after the number, block order, several numbers of two precisions in one stream, inputs that end early at a block boundary, stream format settings, sources that deliver in pieces or throw. Non-trivial: value of several blocks, several numbers, or a short input that is not empty.", scale=3),
    s("C13", OPER + "; values around the narrower of the two precisions and around the limits of ten built-in types. Non-trivial: value of several blocks (signed: also negative; built-in targets: above 255 or negative).", scale=2),
    s("C14", "pairs with a planted common factor, Fibonacci neighbours (longest run), multiples, equal numbers, related numbers, and full-width pairs built upwards from the quotients of a short Euclid run. Non-trivial: neither is one and at least one spans several blocks.", scale=5),
    s("C15", "modulo between 1 and 2^(N/2) (so that squares of residues fit): tiny, top of the range, prime, power of two, odd; base reduced, unreduced, multiple of the modulo or neighbour; power of the same or another precision. Non-trivial: base and power above one and modulo above two.", scale=3),
    s("C16", "radicands around perfect squares, around powers of two, dense, short; power2 exponents are enumerated from 0 to N-1 for every precision. Non-trivial: radicand above three, exponent above zero.", scale=8),
    s("C17", OPER + ", with a sign; partners cancel, nearly cancel or leave room at the top. Results that fit must be exact, others must still be coherent numbers. Non-trivial: operands not zero (two-operand cases: also more than one block each or one of several).", scale=1.2),
    s("C18", OPER + ", with a sign; factors are mostly sized so that the product fits or just does not. Non-trivial: first factor of several blocks, second not zero.", scale=2.5),
    s("C19", OPER + ", with signs; a quarter of the dividends are built as d*q+r; the divisor is never zero. Non-trivial: quotient not zero, divisor beyond one, dividend of several blocks.", scale=2),
    s("C20", OPER + ", with signs; cross-precision pairs often share the narrower part; built-ins include the extremes of their type. Non-trivial: both not zero, or one does not fit the narrower precision, or equal across precisions.", scale=2),
    s("C21", "histories of 1 to 40 operations over several signed numbers compared with a model after every step; wrapping steps must leave coherent numbers, which the model then adopts. Non-trivial: at least five steps, of which at least one produced zero.", scale=3.6),
    s("C22", "every built-in type with its extremes and values around powers of two, at 20 precisions; copies, assignments, swaps and default construction of generated numbers. Non-trivial: a built-in other than 0 and 1; for copies and swaps, two different numbers.", scale=3),
    s("C23", OPER + ", exchanged with mpz_class in both directions, including GMP integers wider than the precision and negative ones. Non-trivial: several blocks (comparisons: the GMP integer is not zero; cropping: it does not fit).", scale=1.5),
    s("C24", "programs of 1 to 25 random calls over the whole public API with wild arguments (indices and shift counts of any size, arbitrary text, truncated and failed streams), run under AddressSanitizer and UndefinedBehaviorSanitizer, texts and buffers allocated exactly. Non-trivial: at least three different kinds of call.", san="asan", assumptions=[X86, "AddressSanitizer and UndefinedBehaviorSanitizer of gcc (thorough: also of clang) as judges of undefined behaviour; zero divisors are excluded, as for built-in integers"], scale=0.8),
    s("C27", "histories of 1 to 40 operations over four unsigned numbers, operands often aliasing the target, every number compared with a model after every step. Non-trivial: at least five steps, of which one aliases.", scale=3.8),
    s("C28", "sequential set and exchange of generated values, and 2 to 4 logical threads interleaved at every atomic operation by a generated schedule over an emulated atomicExch. Non-trivial: the two values differ; for schedules, more context switches than threads.", flags=["-D__CUDACC__", "-I{ROOT}/harness/cuda_stub"], fuzz=False, assumptions=[X86, "atomicExch and the CUDA std headers are emulated on the host; memory is sequentially consistent between atomic operations"], scale=2),
    s("C30", "programs of a user: RSA with keys from gcd and lcm and with the remainder theorem, Diffie-Hellman, Miller-Rabin, factorials, binomials, Fibonacci numbers three ways, conversion to any radix, extended Euclid over signed numbers, fractions, congruences, lcm chains, continued fractions, determinants, sieves, bit tricks, series, integer roots, Lucas-Lehmer; sizes and parameters are generated. Non-trivial: parameters beyond the smallest ones (rule per program in the source)."),
    s("C29", "2 to 3 threads run random programs over the whole API on their own numbers while reading shared constant numbers, or only constant calls on the same few shared numbers (structured: multiples of powers of the block base, powers of two, equal numbers), under ThreadSanitizer, results compared step by step with the same program run alone. Non-trivial: at least five steps and four different kinds of call.", san="tsan", fuzz=False, assumptions=[X86, "ThreadSanitizer of gcc detects the data races of the schedules that occur; the operating system schedules the threads"], scale=0.9),
])
SPECS.update([s("C31", "a pool of related numbers, each made in one of 20 ways (parsed, sums, differences, shifts, casts, streams, quotients, swaps, bytes ...), and 1 to 24 calls of 26 kinds on them, many of them repetitions of earlier calls, exactly, with one operand replaced by a related number, or after an object changed in place; at the end all calls once more in the opposite order. Non-trivial: at least one repetition, two kinds of call and a number of several blocks.", scale=4)])
SPECS["C25"] = dict(module="mod_c25", batches=22, per=40, assumptions=[X86, "the expected values come from Python integers"],
    rule="generated C++ programs (functions of several operations over generated operands: construction from literals and texts, arithmetic, shifts, comparisons, casts, gcd, powm, squareRoot, accessors, text output) are evaluated once in a static_assert by the compiler and once at run time through a volatile pointer, with g++ and clang++ (two of eight batches with PRE_CPP_20 or AESI_UNSAFE, one as C++23), every step against Python integers. Non-trivial: distinct pairs of compiler and program that execute at least one operation (steps whose precondition fails, such as a zero divisor, do not count).")
SPECS["C26"] = dict(module="mod_c26", programs=40000, assumptions=[X86, "the reference is one of the eighteen configurations; that it is right in itself is what the other properties check"],
    rule="random programs of 1 to 25 calls over the whole API, run by eighteen builds (two compilers, -O0 to -O3, -Os, -Og, -Ofast and -march=native, C++20 and C++23, NDEBUG, library assertions, AESI_UNSAFE (in-range arguments only), PRE_CPP_20, AESI_GMP_INTEGRATION, unsigned plain char, hardening switches with AddressSanitizer, emulated CUDA host and device paths); the trace hash of every step must be equal in all. Non-trivial: distinct traces with at least three different kinds of call.")
