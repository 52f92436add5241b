#include "engine.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace eng {
std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
void addEntry(const std::string& name, Fn fn, uint64_t cases) { entries().push_back({name, fn, cases}); }
}
using namespace eng;

static uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static uint64_t caseSeed(uint64_t seed, const std::string& entry, uint64_t index) { uint64_t h = fnv(entry) ^ (seed * 0xd1342543de82ef95ULL); h += index * 0x2545f4914f6cdd1dULL; h ^= h >> 31; h *= 0x9fb21c651e98df25ULL; return h ^ (h >> 28); }

#ifndef ENGINE_FUZZ
struct Slot { std::atomic<uint64_t> seq, entry, index; };
constexpr int MaxWorkers = 64; constexpr size_t LogCap = 1 << 20; constexpr size_t MsgCap = 1 << 16;
struct Shared {
    std::atomic<uint64_t> nextChunk, stop, evaluations, nontrivial, failCount;
    Slot slots[MaxWorkers];
    std::atomic<uint64_t> failEntry[MaxWorkers], failIndex[MaxWorkers]; // failure reported by worker w (entry+1)
    char msg[MsgCap];
    ChoiceLog* log() { return reinterpret_cast<ChoiceLog*>(this + 1); }
};
static Shared* shm;
static std::string jsonEsc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double cpuOf(pid_t pid) { clockid_t c; timespec t; if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return -1; return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static double hangLimit = 20;

struct Outcome { enum { Ok, Fail, Crash, Hang } kind; std::string msg; std::vector<std::string> desc; };

// run one case in a forked child; choices go to the shared log as they are drawn
static Outcome runIsolated(const Entry& e, const std::vector<uint64_t>* replay, uint64_t seed, uint64_t index, bool describe) {
    shm->msg[0] = 0; shm->log()->count = 0;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        rlimit r { (rlim_t)hangLimit, (rlim_t)hangLimit + 5 }; setrlimit(RLIMIT_CPU, &r);
        rlimit c { 0, 0 }; setrlimit(RLIMIT_CORE, &c);
        int fd = open("/dev/null", O_WRONLY); if (fd >= 0 && !getenv("ENGINE_STDERR")) dup2(fd, 2);
        Src s; s.log = shm->log(); s.logCap = LogCap - 8; s.describing = describe; s.index = index;
        if (replay) { s.mode = Src::Mode::Replay; s.replay = replay->data(); s.replaySize = replay->size(); }
        else s.seed(caseSeed(seed, e.name, index));
        s.reset();
        int code = 0; std::string m;
        try { e.fn(s); } catch (const Failure& f) { m = f.msg; code = 3; } catch (const std::exception& x) { m = std::string("exception: ") + x.what(); code = 3; } catch (...) { m = "unknown exception"; code = 3; }
        std::string all = m; for (auto& d : s.desc) { all += '\n'; all += d; }
        if (all.size() >= MsgCap) all.resize(MsgCap - 1);
        memcpy(shm->msg, all.c_str(), all.size() + 1);
        _exit(code);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    Outcome o; o.kind = Outcome::Ok;
    std::istringstream in(shm->msg); std::string line; std::getline(in, o.msg); while (std::getline(in, line)) o.desc.push_back(line);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { o.kind = Outcome::Fail; return o; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { o.kind = Outcome::Hang; o.msg = "the call did not return within " + std::to_string((int)hangLimit) + " s of CPU time"; return o; }
    o.kind = Outcome::Crash;
    o.msg = WIFSIGNALED(st) ? std::string("crashed with signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")" : "exited with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report)";
    return o;
}
static std::vector<uint64_t> loggedChoices() { auto* l = shm->log(); return std::vector<uint64_t>(l->v, l->v + std::min<uint64_t>(l->count, LogCap - 8)); }

static std::vector<uint64_t> shrink(const Entry& e, std::vector<uint64_t> best, bool wasHang) {
    const double deadline = nowS() + 60; int execs = 0;
    auto still = [&](const std::vector<uint64_t>& c) {
        if (nowS() > deadline || execs > 4000) return false;
        ++execs; auto o = runIsolated(e, &c, 0, 0, false);
        if (o.kind == Outcome::Ok || (o.kind == Outcome::Hang) != wasHang) return false;
        auto used = loggedChoices(); best = used.size() <= c.size() && !used.empty() ? used : c; return true;
    };
    if (wasHang) return best;
    bool progress = true;
    while (progress && nowS() < deadline && execs <= 4000) {
        progress = false;
        for (size_t span = std::max<size_t>(1, best.size() / 2); span >= 1; span /= 2) {
            for (size_t i = 0; i + span <= best.size();) { auto c = best; c.erase(c.begin() + (long)i, c.begin() + (long)(i + span)); if (c.size() < best.size() && still(c)) progress = true; else i += std::max<size_t>(1, span / 2); if (nowS() > deadline) break; }
            if (span == 1) break;
        }
        for (size_t i = 0; i < best.size(); ++i) if (best[i]) { auto c = best; c[i] = 0; const auto before = best; if (still(c) && best != before) progress = true; }
        for (size_t i = 0; i < best.size(); ++i) {
            uint64_t lo = 0, hi = best[i];
            for (int it = 0; it < 24 && lo + 1 < hi && i < best.size(); ++it) { auto c = best; const uint64_t mid = lo + (hi - lo) / 2; c[i] = mid; if (still(c)) { hi = mid; progress = true; } else lo = mid; }
        }
    }
    return best;
}

static int replayFile(const char* path) {
    std::ifstream in(path); std::string line, entry; std::vector<uint64_t> ch;
    while (std::getline(in, line)) {
        if (line.rfind("entry ", 0) == 0) entry = line.substr(6);
        else if (line.rfind("choices", 0) == 0) { std::istringstream is(line.substr(7)); uint64_t x; while (is >> x) ch.push_back(x); }
    }
    for (auto& e : entries()) if (e.name == entry) {
        auto o = runIsolated(e, &ch, 0, 0, true);
        std::cout << (o.kind == Outcome::Ok ? "HOLDS " : "FAILS ") << entry << ": " << o.msg << "\n"; for (auto& d : o.desc) std::cout << "  " << d << "\n";
        return o.kind == Outcome::Ok ? 0 : 1;
    }
    std::cout << "UNKNOWN-ENTRY " << entry << "\n"; return 2;
}

int main(int argc, char** argv) {
    std::string prop = "X", out, replayDir = ".", hashDir = "/tmp", only; uint64_t seed = 1; double scale = 1, wall = 600; int jobs = 8; const char* rp = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return ++i < argc ? argv[i] : (char*)""; };
        if (a == "--prop") prop = val(); else if (a == "--seed") seed = strtoull(val(), nullptr, 10); else if (a == "--scale") scale = atof(val());
        else if (a == "--jobs") jobs = atoi(val()); else if (a == "--out") out = val(); else if (a == "--replays") replayDir = val(); else if (a == "--wall") wall = atof(val());
        else if (a == "--tmp") hashDir = val(); else if (a == "--replay") rp = val(); else if (a == "--only") only = val(); else if (a == "--hang") hangLimit = atof(val());
        else if (a == "--list") { for (auto& e : entries()) std::cout << e.name << " " << e.cases << "\n"; return 0; }
    }
    jobs = std::clamp(jobs, 1, MaxWorkers);
    const size_t bytes = sizeof(Shared) + sizeof(uint64_t) * LogCap;
    shm = static_cast<Shared*>(mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED) { perror("mmap"); return 2; }
    std::sort(entries().begin(), entries().end(), [](auto& a, auto& b) { return a.name < b.name; });
    if (!only.empty()) std::erase_if(entries(), [&](auto& e) { return e.name.find(only) == std::string::npos; });
    if (rp) return replayFile(rp);
    const auto& es = entries(); if (es.empty()) { std::cerr << "no entries\n"; return 2; }

    struct Chunk { size_t entry; uint64_t from, to; };
    std::vector<Chunk> chunks;
    const uint64_t Rounds = 24;
    std::vector<uint64_t> total(es.size());
    for (size_t i = 0; i < es.size(); ++i) total[i] = std::max<uint64_t>(1, (uint64_t)((double)es[i].cases * scale));
    for (uint64_t r = 0; r < Rounds; ++r) for (size_t i = 0; i < es.size(); ++i) {
        const uint64_t a = total[i] * r / Rounds, b = total[i] * (r + 1) / Rounds; if (a < b) chunks.push_back({i, a, b});
    }
    const double start = nowS();
    std::vector<pid_t> pids((size_t)jobs, -1);
    auto spawn = [&](int w) {
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid) { pids[(size_t)w] = pid; return; }
        rlimit c { 0, 0 }; setrlimit(RLIMIT_CORE, &c);
        { int fd = open("/dev/null", O_WRONLY); if (fd >= 0 && !getenv("ENGINE_STDERR")) dup2(fd, 2); }
        std::map<const char*, uint64_t> labels; std::vector<uint64_t> hashes; std::vector<uint64_t> perEntry(es.size());
        Src s; s.labels = &labels; uint64_t evals = 0;
        while (!shm->stop.load()) {
            const uint64_t k = shm->nextChunk.fetch_add(1); if (k >= chunks.size()) break;
            const Chunk& ck = chunks[k]; const Entry& e = es[ck.entry];
            for (uint64_t i = ck.from; i < ck.to && !shm->stop.load(std::memory_order_relaxed); ++i) {
                auto& sl = shm->slots[w]; sl.entry = ck.entry; sl.index = i; ++sl.seq;
                s.index = i; s.seed(caseSeed(seed, e.name, i)); s.reset();
                bool bad = false;
                try { e.fn(s); } catch (...) { bad = true; }
                ++evals; ++perEntry[ck.entry];
                if (bad) { shm->failIndex[w] = i; shm->failEntry[w] = ck.entry + 1; shm->stop = 1; break; }
                if (s.isNontrivial) { uint64_t h = s.hash ^ fnv(e.name); hashes.push_back(h); }
            }
        }
        shm->slots[w].seq = 0;
        std::ofstream f(hashDir + "/w" + std::to_string(w) + ".stat", std::ios::binary | std::ios::app);
        std::sort(hashes.begin(), hashes.end()); hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
        std::ofstream h(hashDir + "/w" + std::to_string(w) + ".hash", std::ios::binary | std::ios::app);
        h.write(reinterpret_cast<const char*>(hashes.data()), (long)(hashes.size() * 8));
        for (auto& [l, n] : labels) f << "L " << n << " " << l << "\n";
        for (size_t i = 0; i < es.size(); ++i) if (perEntry[i]) f << "E " << perEntry[i] << " " << es[i].name << "\n";
        f.close(); h.close();
        shm->evaluations += evals;
        _exit(0);
    };
    for (int w = 0; w < jobs; ++w) { remove((hashDir + "/w" + std::to_string(w) + ".stat").c_str()); remove((hashDir + "/w" + std::to_string(w) + ".hash").c_str()); spawn(w); }
    struct Found { size_t entry; uint64_t index; bool hang; }; std::vector<Found> found; bool truncated = false;
    std::vector<uint64_t> lastSeq((size_t)jobs, ~0ULL); std::vector<double> cpuAt((size_t)jobs, 0);
    int alive = jobs;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < jobs; ++w) if (pids[(size_t)w] == p) {
                pids[(size_t)w] = -1; --alive;
                if (shm->failEntry[w].load()) found.push_back({shm->failEntry[w].load() - 1, shm->failIndex[w].load(), false});
                else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && shm->slots[w].seq.load()) {
                    found.push_back({shm->slots[w].entry.load(), shm->slots[w].index.load(), WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL}); shm->stop = 1;
                }
            }
            continue;
        }
        usleep(20000);
        for (int w = 0; w < jobs; ++w) if (pids[(size_t)w] > 0) {
            const uint64_t q = shm->slots[w].seq.load(); const double c = cpuOf(pids[(size_t)w]); if (c < 0) continue;
            if (q != lastSeq[(size_t)w]) { lastSeq[(size_t)w] = q; cpuAt[(size_t)w] = c; }
            else if (q && c - cpuAt[(size_t)w] > hangLimit) { kill(pids[(size_t)w], SIGKILL); }
        }
        if (nowS() - start > wall && !shm->stop.load()) { truncated = true; shm->stop = 1; }
    }
    // ---- confirm, shrink, write the replay file ----
    int exitCode = 0; std::string violation, violMsg; uint64_t unreproduced = 0;
    std::sort(found.begin(), found.end(), [](auto& a, auto& b) { return a.entry != b.entry ? a.entry < b.entry : a.index < b.index; });
    for (auto& f : found) {
        const Entry& e = es[f.entry];
        auto o = runIsolated(e, nullptr, seed, f.index, false); auto ch = loggedChoices();
        if (o.kind == Outcome::Ok) { ++unreproduced; continue; }
        auto small = shrink(e, ch, o.kind == Outcome::Hang);
        int times = 0; Outcome last; for (int k = 0; k < 3; ++k) { last = runIsolated(e, &small, 0, 0, true); if (last.kind != Outcome::Ok) ++times; }
        if (times < 3) { small = ch; times = 0; for (int k = 0; k < 3; ++k) { last = runIsolated(e, &small, 0, 0, true); if (last.kind != Outcome::Ok) ++times; } }
        if (times < 3) { ++unreproduced; continue; }
        char nm[64]; std::string cs; for (auto c : small) cs += " " + std::to_string(c);
        snprintf(nm, sizeof nm, "%016llx", (unsigned long long)fnv(e.name + cs));
        violation = replayDir + "/" + prop + "-" + nm + ".replay";
        std::ofstream r(violation);
        r << "property " << prop << "\nentry " << e.name << "\nfound-by seed " << seed << " case " << f.index << "\nmessage " << last.msg << "\n";
        for (auto& d : last.desc) r << "input " << d << "\n";
        r << "choices" << cs << "\n"; violMsg = last.msg; exitCode = 1; break;
    }
    // ---- evidence ----
    std::vector<uint64_t> hs; std::map<std::string, uint64_t> labels, per;
    for (int w = 0; w < jobs; ++w) {
        const std::string b = hashDir + "/w" + std::to_string(w);
        std::ifstream h(b + ".hash", std::ios::binary); uint64_t x; while (h.read(reinterpret_cast<char*>(&x), 8)) hs.push_back(x);
        std::ifstream f(b + ".stat"); std::string kind, name; uint64_t n; while (f >> kind >> n && std::getline(f, name)) { (kind == "L" ? labels : per)[name.substr(1)] += n; }
        remove((b + ".hash").c_str()); remove((b + ".stat").c_str());
    }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    std::ostringstream js; js << "{\"evaluations\":" << shm->evaluations.load() << ",\"distinct_nontrivial\":" << hs.size() << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"unreproduced\":" << unreproduced << ",\"wall_s\":" << (nowS() - start) << ",\"labels\":{";
    bool first = true; for (auto& [l, n] : labels) { js << (first ? "" : ",") << "\"" << jsonEsc(l) << "\":" << n; first = false; }
    js << "},\"per_entry\":{"; first = true; for (auto& [l, n] : per) { js << (first ? "" : ",") << "\"" << jsonEsc(l) << "\":" << n; first = false; }
    js << "},\"samples\":["; first = true;
    if (exitCode == 0) for (size_t k = 0; k < 8; ++k) {
        const size_t i = es.size() * k / 8; if (k && i == es.size() * (k - 1) / 8) continue;
        for (uint64_t idx = total[i] / 3; idx < std::min<uint64_t>(total[i] / 3 + 1, total[i]); ++idx) {
            auto o = runIsolated(es[i], nullptr, seed, idx, true);
            std::string t = es[i].name + " case " + std::to_string(idx) + ":"; for (auto& d : o.desc) { t += " " + (d.size() > 300 ? d.substr(0, 300) + "..." : d) + ";"; if (t.size() > 1500) break; }
            js << (first ? "" : ",") << "\"" << jsonEsc(t) << "\""; first = false;
        }
    }
    js << "],\"violation\":\"" << jsonEsc(violation) << "\",\"message\":\"" << jsonEsc(violMsg) << "\"}\n";
    if (!out.empty()) { std::ofstream(out) << js.str(); } else std::cout << js.str();
    if (exitCode) std::cout << "FAILED " << violMsg << "\nreplay " << violation << "\n";
    return exitCode;
}
#else
// ---- libFuzzer front end: two bytes pick the entry, the rest become choices ----
static const char* outDir() { static const char* d = getenv("FUZZ_OUT"); return d ? d : "/tmp"; }
static bool sorted = false;
static void writeReplay(const Entry& e, const Src& s, const std::string& msg) {
    std::string cs; for (auto c : s.choices) cs += " " + std::to_string(c);
    char nm[64]; snprintf(nm, sizeof nm, "%016llx", (unsigned long long)fnv(e.name + cs));
    std::ofstream r(std::string(outDir()) + "/" + nm + ".replay");
    r << "property " << (getenv("FUZZ_PROP") ? getenv("FUZZ_PROP") : "X") << "\nentry " << e.name << "\nfound-by libFuzzer\nmessage " << msg << "\nchoices" << cs << "\n";
}
static const Entry* curE; static const Src* curS;
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void onDeath() { if (curE && curS) writeReplay(*curE, *curS, "sanitizer report or abort"); }
extern "C" int LLVMFuzzerInitialize(int*, char***) { __sanitizer_set_death_callback(onDeath); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    auto& es = entries();
    if (!sorted) { std::sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.name < b.name; }); sorted = true; }
    if (size < 2) return 0;
    const Entry& e = es[(size_t)(data[0] | data[1] << 8) % es.size()];
    Src s; s.mode = Src::Mode::Bytes; s.bytes = data + 2; s.bytesSize = size - 2; s.reset();
    curE = &e; curS = &s;
    try { e.fn(s); } catch (const Failure& f) { writeReplay(e, s, f.msg); fprintf(stderr, "PROPERTY-FAILURE %s\n", f.msg.c_str()); curE = nullptr; abort(); }
    curE = nullptr; return 0;
}
#endif
