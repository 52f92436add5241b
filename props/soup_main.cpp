// C26 runner, built once per build configuration. gen SEED FROM COUNT: one hash per program. serve: programs (lists of draws) on stdin, one hash per line. show: one program, with its trace.
#ifdef __CUDACC__
#include "cuda_emu.hpp"
#endif
#include "soup.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
struct Rng : soup::Dice { uint64_t x; explicit Rng(uint64_t s) : x(s) {} std::vector<uint64_t> used; bool keep = false; uint64_t draw(uint64_t max) override { x += 0x9e3779b97f4a7c15ULL; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; z = max == ~0ULL ? z : z % (max + 1); if (keep) used.push_back(z); return z; } };
struct Tape : soup::Dice { std::vector<uint64_t> v; size_t p = 0; uint64_t draw(uint64_t max) override { uint64_t z = p < v.size() ? v[p] : 0; ++p; return max == ~0ULL ? z : z % (max + 1); } };
static bool skipped; // programs with arguments out of range are run by every configuration that allows them
template <size_t N, size_t M> static soup::Trace one(soup::Dice& d, bool verbose) {
    soup::Trace t; t.verbose = verbose; const size_t len = 1 + (size_t)d.draw(24); const bool wild = d.draw(3) == 3; skipped = false;
#ifdef AESI_UNSAFE
    if (wild) { skipped = true; return t; }
#endif
    soup::Soup<N, M> s(d, t, wild); s.run(len); return t;
}
static soup::Trace any(soup::Dice& d, bool verbose) { switch (d.draw(7)) { case 0: case 1: return one<96, 192>(d, verbose); case 2: case 3: return one<128, 96>(d, verbose); case 4: return one<256, 512>(d, verbose); case 5: return one<224, 160>(d, verbose); case 6: return d.draw(3) ? one<192, 96>(d, verbose) : one<512, 768>(d, verbose); default: return one<160, 128>(d, verbose); } }
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 1 << 12); // what a crash leaves behind names the program
    const std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "gen" || mode == "tape") {
        const uint64_t seed = strtoull(argv[2], nullptr, 10), from = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
        for (uint64_t i = from; i < from + n; ++i) { Rng d(seed * 0x9fb21c651e98df25ULL + i * 0xd1342543de82ef95ULL); d.keep = mode == "tape"; auto t = any(d, false); if (d.keep) { for (auto x : d.used) printf("%llu ", (unsigned long long)x); printf("\n"); } else if (skipped) printf("skipped\n"); else printf("%016llx %u\n", (unsigned long long)t.h, t.distinctOps); }
        return 0;
    }
    std::string line;
    while (std::getline(std::cin, line)) { Tape d; std::istringstream is(line); uint64_t x; while (is >> x) d.v.push_back(x); auto t = any(d, mode == "show"); for (auto& l : t.lines) printf("%s\n", l.c_str()); if (skipped) printf("skipped\n"); else printf("%016llx %zu\n", (unsigned long long)t.h, d.p); fflush(stdout); }
}
