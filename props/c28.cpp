// C28: the atomic-like CUDA operations set and exchange whole values, and under any interleaving no block is lost or invented
#include "cuda_emu.hpp"
#include "num.hpp"
#include <ucontext.h>
#include <functional>
#include <memory>
using namespace num;

BODY(set_aeu) { constexpr size_t N = C::a; const mpz_class a = gen::uvalue(s, N), b = gen::second(s, a, N); s.note("a", a); s.note("b", b); s.nontrivial(a != b); auto x = U<N>(a); const auto y = U<N>(b); x.tryAtomicSet(y); ueq("target after tryAtomicSet", x, b); ueq("source afterwards", y, b); x.tryAtomicSet(x); ueq("set from itself", x, b); }
ENTRY(set_aeu, AllW, 100000)
BODY(exchange_aeu) { constexpr size_t N = C::a; const mpz_class a = gen::uvalue(s, N), b = gen::second(s, a, N); s.note("a", a); s.note("b", b); s.nontrivial(a != b); auto x = U<N>(a), y = U<N>(b); x.tryAtomicExchange(y); ueq("target after tryAtomicExchange", x, b); ueq("other after tryAtomicExchange", y, a); y.tryAtomicExchange(x); ueq("exchanged back", x, a); ueq("other exchanged back", y, b); }
ENTRY(exchange_aeu, AllW, 100000)
BODY(set_aesi) { constexpr size_t N = C::a; const mpz_class a = gen::svalue(s, N), b = s.oneIn(5) ? mpz_class(0) : gen::svalue(s, N); s.note("a", a); s.note("b", b); s.nontrivial(a != b); auto x = S<N>(a); const auto y = S<N>(b); x.tryAtomicSet(y); seq("target after tryAtomicSet", x, b); seq("source afterwards", y, b); }
ENTRY(set_aesi, AllW, 100000)
BODY(exchange_aesi) { constexpr size_t N = C::a; const mpz_class a = gen::svalue(s, N), b = s.oneIn(5) ? mpz_class(0) : gen::svalue(s, N); s.note("a", a); s.note("b", b); s.nontrivial(a != b); auto x = S<N>(a), y = S<N>(b); x.tryAtomicExchange(y); seq("target after tryAtomicExchange", x, b); seq("other after tryAtomicExchange", y, a); }
ENTRY(exchange_aesi, AllW, 100000)

// ---- interleavings: logical threads as coroutines that give up control before every atomic operation; the schedule is drawn ----
namespace sched {
static constexpr size_t Stack = 128 * 1024; static ucontext_t mainCtx, ctx[4]; static std::unique_ptr<char[]> stacks[4]; static bool done[4]; static size_t current; static std::function<void()> body[4];
static void yieldNow() { swapcontext(&ctx[current], &mainCtx); }
static void entry() { body[current](); done[current] = true; swapcontext(&ctx[current], &mainCtx); }
// the shared objects may change only through atomicExch: a shadow copy follows the atomic operations and is compared at every switch
static char* sharedAt; static size_t sharedSize; static std::vector<char> shadow;
static void follow(void* p, const void* v, size_t n) { auto* c = static_cast<char*>(p); if (c >= sharedAt && c + n <= sharedAt + sharedSize) memcpy(shadow.data() + (c - sharedAt), v, n); }
static size_t run(Src& s, size_t n, void* mem, size_t size) {
    sharedAt = static_cast<char*>(mem); sharedSize = size; shadow.assign(sharedAt, sharedAt + size); emu::afterAtomic = follow; bool plain = false;
    for (size_t i = 0; i < n; ++i) { if (!stacks[i]) stacks[i].reset(new char[Stack]); done[i] = false; getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp = stacks[i].get(); ctx[i].uc_stack.ss_size = Stack; ctx[i].uc_link = nullptr; makecontext(&ctx[i], entry, 0); }
    emu::beforeAtomic = yieldNow; size_t switches = 0, last = n; std::vector<size_t> live; for (size_t i = 0; i < n; ++i) live.push_back(i);
    while (!live.empty()) { const size_t k = (size_t)s.draw(live.size() - 1); current = live[k]; if (current != last) ++switches; last = current; swapcontext(&mainCtx, &ctx[current]); plain |= memcmp(shadow.data(), sharedAt, size) != 0; if (done[current]) live.erase(live.begin() + (long)k); }
    emu::beforeAtomic = nullptr; emu::afterAtomic = nullptr; if (plain) fail("a shared object changed other than through an atomic operation"); return switches;
}
}
BODY(interleaved_exchange) { // every exchange moves blocks: per position, the multiset of blocks over all objects is conserved
    constexpr size_t N = C::a, B = N / 32; const size_t T = 2 + s.draw(2), shared = 1 + s.draw(1); std::vector<Aeu<N>> sh, own; std::vector<std::vector<uint64_t>> plan(T);
    for (size_t i = 0; i < shared; ++i) sh.push_back(U<N>(gen::uvalue(s, N))); for (size_t i = 0; i < T; ++i) own.push_back(U<N>(gen::uvalue(s, N)));
    for (auto& p : plan) { const size_t k = 1 + s.draw(2); for (size_t i = 0; i < k; ++i) p.push_back(s.draw(shared - 1)); }
    auto column = [&](size_t b) { std::vector<uint32_t> c; for (auto& x : sh) c.push_back(x.getBlock(b)); for (auto& x : own) c.push_back(x.getBlock(b)); std::sort(c.begin(), c.end()); return c; };
    std::vector<std::vector<uint32_t>> before; for (size_t b = 0; b < B; ++b) before.push_back(column(b));
    for (size_t i = 0; i < T; ++i) sched::body[i] = [&, i] { for (auto k : plan[i]) sh[k].tryAtomicExchange(own[i]); };
    const size_t sw = sched::run(s, T, sh.data(), sh.size() * sizeof(Aeu<N>)); s.note("threads", T); s.note("context switches", sw); s.nontrivial(sw > T);
    for (size_t b = 0; b < B; ++b) if (column(b) != before[b]) fail("block " + std::to_string(b) + " was lost or invented by interleaved exchanges");
}
BODY(interleaved_set) { // every block of the target comes from one of the values being set, or is the old one
    constexpr size_t N = C::a, B = N / 32; const size_t T = 2 + s.draw(2); Aeu<N> target = U<N>(gen::uvalue(s, N)); std::vector<Aeu<N>> src; for (size_t i = 0; i < T; ++i) src.push_back(U<N>(gen::uvalue(s, N))); const std::vector<Aeu<N>> keep = src;
    for (size_t i = 0; i < T; ++i) sched::body[i] = [&, i] { target.tryAtomicSet(src[i]); };
    const size_t sw = sched::run(s, T, &target, sizeof target); s.note("threads", T); s.note("context switches", sw); s.nontrivial(sw > T);
    for (size_t b = 0; b < B; ++b) { bool ok = false; for (auto& x : keep) ok |= x.getBlock(b) == target.getBlock(b); if (!ok) fail("block " + std::to_string(b) + " of the target is none of the values set"); }
    for (size_t i = 0; i < T; ++i) ueq("source afterwards", src[i], Z(keep[i]));
}
using L = eng::List<W<256>, W<96>, W<128>, W<160>, W<224>, W<288>, W<512>, W<768>, W<1024>, W<2048>>;
ENTRY(interleaved_exchange, L, 40000)
ENTRY(interleaved_set, L, 40000)
