// Exhaustive bounded exploration of the real FFCL code: shared runtime of all harnesses.
//
// A harness enumerates one or more named *spaces*. Every member of a space is a *case* with a number; the numbering is
// deterministic, so (space, case number) is a replayable identity. Shards take the cases whose number is congruent to
// their rank; the union of all shards is the complete space.
#pragma once
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct SpaceStat {
    std::uint64_t            cases = 0;  // members of the space executed by this shard
    std::uint64_t            total = 0;  // members enumerated (all shards)
    std::uint64_t            execs = 0;  // executions of library code (states explored)
    std::uint64_t            steps = 0;  // library operations whose result was checked (transitions)
    std::vector<std::string> samples;
};

inline std::string              g_tier   = "quick";
inline int                      g_shard  = 0;
inline int                      g_shards = 1;
inline std::string              g_replay_space;
inline long long                g_replay_case = -1;
inline bool                     g_replaying   = false;
inline char                     g_space[128]  = "";
inline volatile std::uint64_t   g_case        = 0;
inline volatile std::uint64_t   g_progress    = 0;
inline std::map<std::string, SpaceStat> g_stats;
inline SpaceStat*               g_cur = nullptr;
inline std::unordered_set<std::uint64_t> g_outcomes;
inline int                      g_failures = 0;
inline int                      g_known    = 0;
inline std::set<std::string>    g_known_sigs;
inline std::set<std::string>    g_known_seen;
inline std::string              g_only;  // run only the spaces whose name starts with this
inline bool                     g_count_only = false;
inline FILE*                    g_out        = nullptr;

inline bool quick() { return g_tier == "quick"; }
inline bool thorough() { return g_tier == "thorough"; }
inline bool san() { return g_tier == "san"; }  // reduced spaces for the sanitizer build

struct Stop {};

inline void handler(int sig) {
    char buf[256];
    int  n = std::snprintf(buf, sizeof buf, "\nCRASH\t%s\t%llu\t%s (signal %d)\n", g_space, (unsigned long long)g_case,
                          sig == SIGPROF ? "no progress: the call does not terminate" : "crash", sig);
    if (n > 0) {
        ssize_t r = write(fileno(g_out), buf, n);
        (void)r;
    }
    _exit(97);
}

inline std::uint64_t g_last_progress = 0;
inline int           g_ticks         = 0;
inline int           g_hang_ticks    = 12;  // seconds of CPU time within one case
inline void          tick(int sig) {
    if (g_progress == g_last_progress) {
        if (++g_ticks >= g_hang_ticks) {
            handler(sig);
        }
    } else {
        g_last_progress = g_progress;
        g_ticks         = 0;
    }
}

inline bool begin_space(const std::string& name) {
    std::snprintf(g_space, sizeof g_space, "%s", name.c_str());
    g_case = 0;
    if (g_replaying && name != g_replay_space) {
        return false;
    }
    if (!g_only.empty() && name.compare(0, g_only.size(), g_only) != 0) {
        return false;
    }
    g_cur = &g_stats[name];
    return true;
}

// true when this shard has to run the next case of the space
inline bool take() {
    const std::uint64_t number = g_case + 1;
    g_case                     = number;
    ++g_cur->total;
    if (g_replaying) {
        if (static_cast<long long>(number) > g_replay_case) {
            throw Stop{};
        }
        if (static_cast<long long>(number) != g_replay_case) {
            return false;
        }
    } else if (static_cast<int>(number % g_shards) != g_shard) {
        return false;
    }
    g_progress = g_progress + 1;
    ++g_cur->cases;
    return true;
}

inline void exec(std::uint64_t n = 1) {
    g_cur->execs += n;
    g_progress = g_progress + 1;
}
inline void step(std::uint64_t n = 1) { g_cur->steps += n; }

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
inline void outcome(std::uint64_t h) {
    if (g_outcomes.size() < 2000000) {
        g_outcomes.insert(h);
    }
}

inline void clean(std::string& s) {
    for (auto& c : s) {
        if (c == '\n' || c == '\t' || c == '\r') c = ' ';
    }
}

template <typename F>
void sample(F&& f) {
    if (g_cur->samples.size() < 2 && g_shard == 0) {
        std::string s = f();
        clean(s);
        g_cur->samples.push_back(s);
    }
}

// Report that the current case violates the property. `sig` identifies the finding for the known-findings list.
inline void fail(const std::string& sig, std::string message) {
    clean(message);
    if (g_known_sigs.count(sig)) {
        ++g_known;
        if (g_known_seen.insert(sig).second) {
            std::fprintf(g_out, "KNOWN\t%s\t%llu\t%s\t%s\n", g_space, (unsigned long long)g_case, sig.c_str(),
                         message.c_str());
            std::fflush(g_out);
        }
        return;
    }
    std::fprintf(g_out, "FAIL\t%s\t%llu\t%s\t%s\n", g_space, (unsigned long long)g_case, sig.c_str(), message.c_str());
    std::fflush(g_out);
    if (++g_failures >= 8) {
        throw Stop{};
    }
}

// run one case body; exceptions leaving the library are violations (the caller chose valid inputs)
template <typename Body, typename Desc>
void guard(const char* sig, Body&& body, Desc&& desc) {
    try {
        body();
    } catch (const Stop&) {
        throw;
    } catch (const std::exception& e) {
        fail(std::string(sig) + ":exception", std::string("exception '") + e.what() + "' for " + desc());
    }
}

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
};

int explore();  // implemented by the harness

inline int main_impl(int argc, char** argv) {
    g_out = stdout;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto        v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") g_tier = v();
        else if (a == "--shard") g_shard = std::stoi(v());
        else if (a == "--shards") g_shards = std::stoi(v());
        else if (a == "--only") g_only = v();
        else if (a == "--hang") g_hang_ticks = std::stoi(v());
        else if (a == "--known") g_known_sigs.insert(v());
        else if (a == "--replay") {
            g_replaying    = true;
            std::string s  = v();
            auto        p  = s.rfind(':');
            g_replay_space = s.substr(0, p);
            g_replay_case  = std::stoll(s.substr(p + 1));
        }
    }
    // the library prints progress on std::cout: silence it, results go through g_out
    static NullBuf& null_buf = *new NullBuf;  // outlives the streams
    std::cout.rdbuf(&null_buf);
    std::cerr.rdbuf(&null_buf);

    static char altstack[1 << 16];
    stack_t     ss{};
    ss.ss_sp   = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_flags   = SA_ONSTACK;
    sa.sa_handler = handler;
#ifndef MC_SAN
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    rlimit rl{2ull << 30, 2ull << 30};
    setrlimit(RLIMIT_AS, &rl);
#endif
    sa.sa_handler = tick;
    sa.sa_flags |= SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval it{{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);

    bool stopped = false;
    try {
        explore();
    } catch (const Stop&) {
        stopped = true;
    } catch (const std::exception& e) {
        std::fprintf(g_out, "\nCRASH\t%s\t%llu\tunexpected exception: %s\n", g_space, (unsigned long long)g_case,
                     e.what());
        std::fflush(g_out);
        return 97;
    }
    for (auto& [name, s] : g_stats) {
        std::fprintf(g_out, "SPACE\t%s\t%llu\t%llu\t%llu\t%llu\n", name.c_str(), (unsigned long long)s.cases,
                     (unsigned long long)s.total, (unsigned long long)s.execs, (unsigned long long)s.steps);
        for (auto& x : s.samples) std::fprintf(g_out, "SAMPLE\t%s\t%s\n", name.c_str(), x.c_str());
    }
    std::fprintf(g_out, "DONE\t%d\t%d\t%llu\t%d\n", g_failures, stopped ? 1 : 0, (unsigned long long)g_outcomes.size(),
                 g_known);
    std::fflush(g_out);
    return g_failures ? 3 : 0;
}

template <typename V>
std::string show(const V& v) {
    std::ostringstream o;
    o << "[";
    std::size_t count = 0;
    for (const auto& x : v) {
        if (count++) o << ",";
        if (count > 3000) {  // the case can be replayed, no need to write it all
            o << "...";
            break;
        }
        o << +x;
    }
    o << "]";
    return o.str();
}

}  // namespace mc

#ifdef MC_SAN
extern "C" void __asan_on_error() {
    std::fprintf(mc::g_out ? mc::g_out : stdout, "\nCRASH\t%s\t%llu\tmemory error reported by AddressSanitizer\n",
                 mc::g_space, (unsigned long long)mc::g_case);
    std::fflush(mc::g_out ? mc::g_out : stdout);
}
#endif

#define MC_MAIN \
    int main(int argc, char** argv) { return mc::main_impl(argc, argv); }
