// C24: no documented call on any input touches memory outside its objects or executes undefined behaviour (ASan + UBSan are the oracle)
#include "engine.hpp"
#include "soup.hpp"
using eng::W; using eng::Src;

struct SrcDice : soup::Dice { Src& s; explicit SrcDice(Src& x) : s(x) {} uint64_t draw(uint64_t max) override { return s.draw(max); } };
BODY(wild_programs) {
    constexpr size_t N = C::a, M = C::b; SrcDice d(s); soup::Trace t; t.verbose = s.describing; const size_t len = 1 + s.draw(24);
    struct { volatile uint64_t before = 0x1122334455667788ULL; soup::Soup<N, M>* p = nullptr; volatile uint64_t after = 0x8877665544332211ULL; } frame;
    auto m = std::make_unique<soup::Soup<N, M>>(d, t, true); frame.p = m.get(); m->run(len); // on the heap: the sanitizer guards both ends
    eng::truth("frame intact", frame.before == 0x1122334455667788ULL && frame.after == 0x8877665544332211ULL);
    s.mix(t.h); s.nontrivial(t.distinctOps >= 3); if (s.describing) for (auto& l : t.lines) s.note("trace", l);
}
using L = eng::List<W<96, 128>, W<128, 96>, W<160, 320>, W<256, 512>, W<288, 256>, W<512, 96>, W<1024, 160>, W<224, 768>, W<768, 1024>, W<2048, 512>>;
ENTRY(wild_programs, L, 24000, 1.6, 200)
