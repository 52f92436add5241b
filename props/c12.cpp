// C12: binary output is the exact block image and reading it back restores the number
#include "text.hpp"
#include <sstream>
using namespace num;

// reference image: blocks in the chosen order, bytes of a block in the machine's order (little endian here)
static std::string image(const mpz_class& m, size_t N, bool big) { std::string r; for (size_t k = 0; k < N / 32; ++k) { const size_t i = big ? N / 32 - 1 - k : k; uint32_t b = (uint32_t)gen::lowU64(mpz_class(m >> (32 * i))); r.append(reinterpret_cast<const char*>(&b), 4); } return r; }
// formatting settings of a stream: generated before the call, equal afterwards, without influence on binary transfers
struct Format {
    std::ios::fmtflags flags; std::streamsize width, precision; char fill;
    template <class St> Format(Src& s, St& st) {
        static const std::ios::fmtflags some[] = { std::ios::dec | std::ios::skipws, std::ios::hex | std::ios::skipws, std::ios::oct | std::ios::showbase | std::ios::skipws, std::ios::hex | std::ios::uppercase, std::ios::boolalpha | std::ios::left | std::ios::dec | std::ios::skipws, std::ios::internal | std::ios::showpos | std::ios::skipws };
        st.flags(s.pick(some)); st.width(s.coin() ? 0 : (long)s.draw(40)); st.precision((long)s.draw(12)); st.fill(s.coin() ? ' ' : '*'); flags = st.flags(); width = st.width(); precision = st.precision(); fill = st.fill();
    }
    template <class St> void same(St& st, const char* when) const { if (st.flags() != flags || st.width() != width || st.precision() != precision || st.fill() != fill) fail(std::string("formatting settings of the stream changed by ") + when); }
};
BODY(write) {
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); const bool big = s.coin(); s.note("a", m); s.note("bigEndian", big); s.nontrivial(gen::filled(m) > 1);
    const auto x = U<N>(m); std::ostringstream os; const Format f(s, os); if (big && s.coin()) x.writeBinary(os); else x.writeBinary(os, big);
    truth("stream good", os.good()); eq("bytes written", os.str(), image(m, N, big)); f.same(os, "writeBinary"); ueq("number afterwards", x, m);
}
ENTRY(write, AllW, 200000)
BODY(read) {
    constexpr size_t N = C::a; std::string bytes(N / 8, '\0'); const uint64_t kind = s.draw(2); mpz_class src = gen::uvalue(s, N); const bool big = s.coin();
    bytes = kind == 2 ? std::string(N / 8, '\0') : image(src, N, big); if (kind == 2) for (auto& c : bytes) c = (char)s.draw(255);
    mpz_class want = 0; for (size_t k = 0; k < N / 32; ++k) { uint32_t b; memcpy(&b, bytes.data() + 4 * k, 4); want += gen::fromU64(b) << (32 * (big ? N / 32 - 1 - k : k)); }
    const std::string tail(s.draw(9), 'z'), head(s.draw(5), 'h'); s.note("bytes", bytes); s.note("bigEndian", big); s.nontrivial(gen::filled(want) > 1);
    std::istringstream is(head + bytes + tail); is.ignore((long)head.size()); const Format f(s, is); Aeu<N> x = U<N>(gen::uvalue(s, N));
    if (big && s.coin()) x.readBinary(is); else x.readBinary(is, big);
    ueq("number read", x, want); truth("stream good", is.good()); eq("bytes consumed", (uint64_t)is.tellg(), (uint64_t)(head.size() + N / 8)); f.same(is, "readBinary");
}
ENTRY(read, AllW, 200000)
BODY(several) { // numbers of different precision and order share one stream
    constexpr size_t N = C::a, M = C::b; const size_t k = 1 + s.draw(4); std::vector<mpz_class> v; std::vector<int> o; std::stringstream ss; std::string want;
    for (size_t i = 0; i < k; ++i) { const bool wide = i % 2; v.push_back(gen::uvalue(s, wide ? M : N)); o.push_back((int)s.draw(1)); s.note("value", v.back()); s.note("bigEndian", o.back()); if (wide) U<M>(v[i]).writeBinary(ss, o[i]); else U<N>(v[i]).writeBinary(ss, o[i]); want += image(v[i], wide ? M : N, o[i]); }
    s.nontrivial(k > 1); eq("stream contents", ss.str(), want);
    for (size_t i = 0; i < k; ++i) { if (i % 2) { Aeu<M> y = ~Aeu<M>(0u); y.readBinary(ss, o[i]); ueq("number read back", y, v[i]); } else { Aeu<N> y = ~Aeu<N>(0u); y.readBinary(ss, o[i]); ueq("number read back", y, v[i]); } }
    truth("stream good", ss.good());
}
ENTRY(several, PairW, 60000)
BODY(short_input) { // bytes missing at the end of the input read as zero
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); const bool big = s.coin(); const size_t have = s.coin() ? 4 * s.draw(N / 32 - 1) : s.draw(N / 8 - 1); s.note("a", m); s.note("bigEndian", big); s.note("bytes available", have); s.nontrivial(have > 0); if (have % 4) s.label("ends inside a block");
    std::string bytes = image(m, N, big).substr(0, have); const bool throwing = s.oneIn(4); std::istringstream is(bytes); Aeu<N> x = ~Aeu<N>(0u);
    if (throwing) { is.exceptions(std::ios::failbit | std::ios::badbit); bool thrown = false; try { x.readBinary(is, big); } catch (const std::ios_base::failure&) { thrown = true; } truth("the stream's exception reaches the caller", thrown); s.label("stream exceptions enabled"); }
    else x.readBinary(is, big);
    truth("end of input is visible in the stream state", is.eof() && is.fail());
    bytes.resize(N / 8, '\0'); mpz_class want = 0; for (size_t k = 0; k < N / 32; ++k) { uint32_t b; memcpy(&b, bytes.data() + 4 * k, 4); want += gen::fromU64(b) << (32 * (big ? N / 32 - 1 - k : k)); }
    ueq("number read from a short input", x, want);
}
ENTRY(short_input, AllW, 120000)
struct Source : std::streambuf { // hands out a few characters at a time, then ends or throws
    std::string data; size_t at = 0, piece; bool throws; Source(std::string d, size_t p, bool t) : data(std::move(d)), piece(p), throws(t) {}
    int_type underflow() override { if (at >= data.size()) { if (throws) throw std::runtime_error("source"); return traits_type::eof(); } const size_t k = std::min(piece, data.size() - at); setg(data.data() + at, data.data() + at, data.data() + at + k); at += k; return traits_type::to_int_type(*gptr()); }
};
BODY(slow_source) { // fault injection: input in pieces, that ends or breaks early, and formatted input after the number
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); const bool big = s.coin(), enough = s.draw(2) != 0, breaks = s.coin(), bad = s.oneIn(10), exceptions = s.oneIn(4); const size_t have = enough ? N / 8 : s.draw(N / 8 - 1), piece = s.pick({ 1, 2, 3, 4, 5, 7, 8, 1000 }); const long follow = (long)s.draw(100000);
    s.note("a", m); s.note("bigEndian", big); s.note("bytes available", have); s.note("piece", piece); s.note("source throws at its end", breaks); s.note("failed before", bad); s.note("stream exceptions", exceptions); s.nontrivial(piece < N / 8 && have > 0);
    std::string bytes = image(m, N, big).substr(0, have); Source src(enough ? bytes + "  " + std::to_string(follow) + " " : bytes, piece, breaks && !enough); std::istream is(&src); Aeu<N> x = ~Aeu<N>(0u); const Format f(s, is); bool thrown = false;
    if (bad) is.setstate(std::ios::failbit); else if (exceptions) is.exceptions(std::ios::badbit | std::ios::failbit);
    try { x.readBinary(is, big); } catch (const std::exception&) { thrown = true; }
    f.same(is, "readBinary"); if (bad) bytes.clear();
    if (bad || !enough) truth("failure is visible in the stream state", is.fail()); else truth("stream good", is.good());
    truth("an exception reaches the caller exactly when the stream enables it", thrown == (exceptions && !bad && !enough));
    if (!(breaks && !enough)) { bytes.resize(N / 8, '\0'); mpz_class want = 0; for (size_t k = 0; k < N / 32; ++k) { uint32_t b; memcpy(&b, bytes.data() + 4 * k, 4); want += gen::fromU64(b) << (32 * (big ? N / 32 - 1 - k : k)); } ueq("number read", x, want); }
    if (enough && !bad) { is.flags(std::ios::dec | (f.flags & std::ios::skipws)); is.width(0); if (!(f.flags & std::ios::skipws)) is >> std::ws; long got = -1; is >> got; eq("a built-in read after the number", (uint64_t)got, (uint64_t)follow); }
}
ENTRY(slow_source, AllW, 100000)
struct Sink : std::streambuf { // accepts a limited number of bytes
    std::string got; size_t room; bool throws; Sink(size_t r, bool t) : room(r), throws(t) {}
    int_type overflow(int_type c) override { if (got.size() >= room) { if (throws) throw std::runtime_error("full"); return traits_type::eof(); } got.push_back((char)c); return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { const size_t k = std::min<size_t>((size_t)n, room - got.size()); got.append(p, k); if (k < (size_t)n && throws) throw std::runtime_error("full"); return (std::streamsize)k; }
};
BODY(full_sink) { // fault injection: the stream runs out of room, or was bad before
    constexpr size_t N = C::a; const mpz_class m = gen::uvalue(s, N); const bool big = s.coin(), sinkThrows = s.oneIn(3), exceptions = s.oneIn(3), bad = s.oneIn(8); const size_t room = s.oneIn(6) ? N / 8 : s.draw(N / 8 - 1);
    s.note("a", m); s.note("bigEndian", big); s.note("room", room); s.note("sink throws", sinkThrows); s.note("stream exceptions", exceptions); s.note("bad before", bad); s.nontrivial(room > 0 && room < N / 8);
    Sink sink(room, sinkThrows); std::ostream os(&sink); const auto x = U<N>(m); const std::string want = image(m, N, big); const bool fails = bad || room < N / 8; bool thrown = false;
    if (bad) os.setstate(std::ios::failbit); if (exceptions && !bad) os.exceptions(std::ios::badbit);
    try { x.writeBinary(os, big); } catch (const std::exception&) { thrown = true; }
    eq("bytes accepted", sink.got, bad ? std::string() : want.substr(0, room)); truth("failure is visible in the stream state", os.fail() == fails); truth("an exception reaches the caller exactly when the stream enables it", thrown == (exceptions && fails && !bad)); ueq("number afterwards", x, m);
}
ENTRY(full_sink, AllW, 120000)
