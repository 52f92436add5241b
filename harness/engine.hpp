// Property-based testing engine: every random decision of a case is one recorded "choice".
// A case is a pure function of (entry, choices); choices come from a PRNG seeded with
// (VERIF_SEED, entry, case index), from a replay file, or from libFuzzer bytes.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <type_traits>
#include <gmpxx.h>

namespace eng {

struct Failure { std::string msg; };

// ---- shared record of the choices of the case being run (survives a crash of the worker) ----
struct ChoiceLog { uint64_t count; uint64_t v[1]; };

class Src {
public:
    enum class Mode { Random, Replay, Bytes };
    Mode mode = Mode::Random;
    uint64_t index = 0;              // case index inside the entry
    bool describing = false;         // keep a written-out description of the case
    std::vector<std::string> desc;
    std::vector<uint64_t> choices;   // what was drawn
    const uint64_t* replay = nullptr; size_t replaySize = 0, pos = 0;
    const uint8_t* bytes = nullptr; size_t bytesSize = 0;
    bool isNontrivial = false;
    uint64_t hash = 0;
    ChoiceLog* log = nullptr; size_t logCap = 0;
    std::map<const char*, uint64_t>* labels = nullptr;

    void seed(uint64_t s) { for (auto& x : st) { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; x = z ^ (z >> 31); } }
    void reset() { choices.clear(); desc.clear(); pos = 0; isNontrivial = false; hash = 0x1234567; if (log) log->count = 0; }

    // uniform in [0, max]; 0 is the simplest choice
    uint64_t draw(uint64_t max) {
        uint64_t c = 0;
        switch (mode) {
            case Mode::Random: c = (max == ~0ULL) ? next() : (uint64_t)(((unsigned __int128)next() * ((unsigned __int128)max + 1)) >> 64); break;
            case Mode::Replay: c = pos < replaySize ? replay[pos] : 0; if (max != ~0ULL && c > max) c %= (max + 1); break;
            case Mode::Bytes: {
                int n = max == 0 ? 0 : max < 0x100 ? 1 : max < 0x10000 ? 2 : max <= 0xffffffffULL ? 4 : 8;
                for (int i = 0; i < n; ++i) { uint8_t b = bpos < bytesSize ? bytes[bpos] : 0; ++bpos; c |= (uint64_t)b << (8 * i); }
                if (max != ~0ULL) c %= (max + 1);
            } break;
        }
        return record(c);
    }
    // enumerates [0, n) by case index when generating; an ordinary choice when replaying
    uint64_t cycle(uint64_t n) {
        if (mode == Mode::Random) return record(n ? index % n : 0);
        return draw(n ? n - 1 : 0);
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    bool coin() { return draw(1); }
    bool oneIn(unsigned n) { return draw(n - 1) == n - 1; }
    template <class T, size_t K> const T& pick(const T (&a)[K]) { return a[draw(K - 1)]; }
    template <class T> const T& pick(const std::vector<T>& a) { return a[draw(a.size() - 1)]; }
    bool exhausted() const { return mode == Mode::Bytes && bpos >= bytesSize; }

    void label(const char* l) { if (labels) ++(*labels)[l]; }
    void nontrivial(bool b = true) { if (b) isNontrivial = true; }
    void mix(uint64_t x) { hash ^= x + 0x9e3779b97f4a7c15ULL + (hash << 6) + (hash >> 2); hash *= 0xff51afd7ed558ccdULL; hash ^= hash >> 29; }
    void note(const char* name, const mpz_class& v) {
        const mpz_srcptr p = v.get_mpz_t(); mix((uint64_t)mpz_sgn(p) + 7);
        for (size_t i = 0; i < mpz_size(p); ++i) mix(mpz_getlimbn(p, i));
        if (describing) { std::string t = v.get_str(16); if (!t.empty() && t[0] == '-') t = "-0x" + t.substr(1); else t = "0x" + t; desc.push_back(std::string(name) + " = " + t); }
    }
    void note(const char* name, const std::string& v) {
        for (unsigned char c : v) mix(c);
        mix(v.size());
        if (describing) { std::string t; for (unsigned char c : v) { if (c >= 32 && c < 127 && c != '\\') t += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); t += b; } } desc.push_back(std::string(name) + " = \"" + t + "\""); }
    }
    void note(const char* name, const char* v) { note(name, std::string(v)); }
    template <class I> requires (std::is_integral_v<I>)
    void note(const char* name, I v) { mix((uint64_t)v); if (describing) desc.push_back(std::string(name) + " = " + std::to_string(v)); }

private:
    uint64_t st[4] {}; size_t bpos = 0;
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() { const uint64_t r = rotl(st[1] * 5, 7) * 9, t = st[1] << 17; st[2] ^= st[0]; st[3] ^= st[1]; st[1] ^= st[2]; st[0] ^= st[3]; st[2] ^= t; st[3] = rotl(st[3], 45); return r; }
    uint64_t record(uint64_t c) {
        ++pos; choices.push_back(c);
        if (log && log->count < logCap) { log->v[log->count] = c; ++log->count; }
        return c;
    }
};

inline std::string hex(const mpz_class& v) { return (v < 0 ? "-0x" + mpz_class(-v).get_str(16) : "0x" + v.get_str(16)); }
inline std::string show(const mpz_class& v) { return hex(v); }
inline std::string show(const std::string& v) { std::string t = "\""; for (unsigned char c : v) { if (c >= 32 && c < 127) t += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); t += b; } } return t + "\""; }
template <class I> requires (std::is_integral_v<I>) std::string show(I v) { return std::to_string(v); }

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
template <class A, class B> void eq(const char* what, const A& got, const B& want) {
    if (!(got == want)) fail(std::string(what) + ": got " + show(got) + ", expected " + show(want));
}
inline void truth(const char* what, bool ok) { if (!ok) fail(std::string(what) + ": does not hold"); }

using Fn = void (*)(Src&);
struct Entry { std::string name; Fn fn; uint64_t cases; };
std::vector<Entry>& entries();
void addEntry(const std::string& name, Fn fn, uint64_t cases);

// ---- registration over type-level configurations, split over translation units ----
#ifndef GROUPS
#define GROUPS 1
#endif
#ifndef GROUP
#define GROUP 0
#endif
template <size_t A, size_t B = 0> struct W {
    static constexpr size_t a = A, b = B, big = A > B ? A : B;
    static std::string name() { return B ? std::to_string(A) + "," + std::to_string(B) : std::to_string(A); }
};
template <class... Ws> struct List {};

inline uint64_t scaled(uint64_t cases, size_t width, double exponent, uint64_t least) {
    double f = 1.0; for (double w = 256; w * 1.01 < (double)width; w *= 1.0905077326652577 /* 2^(1/8) */) f *= __builtin_pow(2.0, -exponent / 8);
    const auto r = (uint64_t)((double)cases * f);
    return r < least ? least : r;
}
template <size_t Group, class Body, class... Ws, size_t... I> // the group is a template argument: each object file needs an instance of its own
int registerAll(List<Ws...>, std::index_sequence<I...>, uint64_t cases, double exponent, uint64_t least) {
    ([&] { if constexpr (I % GROUPS == Group) addEntry(std::string(Body::name()) + "<" + Ws::name() + ">", &Body::template run<Ws>, scaled(cases, Ws::big, exponent, least)); } (), ...);
    return 0;
}
template <class Body, size_t Group = GROUP, class... Ws> int reg(List<Ws...> l, uint64_t cases, double exponent = 1, uint64_t least = 40) { return registerAll<Group, Body>(l, std::make_index_sequence<sizeof...(Ws)>{}, cases, exponent, least); }

#define BODY(NAME) struct NAME { static const char* name() { return #NAME; } template <class C> static void run(eng::Src& s); }; template <class C> void NAME::run(eng::Src& s)
#define ENTRY(NAME, LIST, ...) static const int reg_##NAME = eng::reg<NAME>(LIST{}, __VA_ARGS__);

// every typedef'd precision plus odd block counts
using AllW = List<W<256>, W<96>, W<128>, W<160>, W<192>, W<224>, W<288>, W<320>, W<384>, W<512>, W<544>, W<768>, W<1024>, W<1536>, W<2048>, W<3072>, W<4096>, W<6144>, W<8192>, W<16384>>;
using MidW = List<W<256>, W<96>, W<128>, W<160>, W<192>, W<224>, W<288>, W<320>, W<384>, W<512>, W<544>, W<768>, W<1024>, W<1536>, W<2048>>;
using PairW = List<W<256,128>, W<128,256>, W<96,128>, W<128,96>, W<160,96>, W<96,160>, W<256,512>, W<512,256>, W<512,128>, W<128,512>, W<96,1024>, W<1024,96>, W<544,512>, W<512,544>, W<768,1024>, W<1024,768>, W<2048,128>, W<128,2048>, W<4096,2048>, W<2048,4096>, W<8192,6144>, W<8192,16384>, W<16384,8192>, W<1536,3072>>;

} // namespace eng
