// Reference text of a number
#pragma once
#include "num.hpp"
namespace text {
inline std::string digits(const mpz_class& v, int base, bool upper = false) { std::string t = mpz_class(abs(v)).get_str(base); if (upper) for (auto& c : t) c = (char)toupper(c); return t; }
inline std::string prefix(int base) { return base == 2 ? "0b" : base == 8 ? "0o" : base == 16 ? "0x" : ""; }
inline std::string full(const mpz_class& v, int base, bool showBase, bool upper = false) { return (v < 0 ? "-" : "") + (showBase ? prefix(base) : std::string()) + digits(v, base, upper); }
template <class Char> std::basic_string<Char> widen(const std::string& t) { return std::basic_string<Char>(t.begin(), t.end()); }
template <class Char> std::string narrow(const std::basic_string<Char>& t) { std::string r; for (auto c : t) { if ((unsigned long)c < 256) r += (char)c; else r += "<" + std::to_string((unsigned long)c) + ">"; } return r; }
// division-based conversion is cubic in the precision: bound the magnitude by `bits` at large widths, but always allow the full width up to 1024
inline mpz_class value(eng::Src& s, size_t N, size_t limit) { mpz_class v = gen::uvalue(s, N); if (N > limit) { if (s.coin()) v = gen::mod2(v, limit); else v >>= N - limit; } return v; }
}
