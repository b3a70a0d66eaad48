// Runtime oracle support: contracts evaluated on concrete executions of the real code (replay / bounded stand-in).
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <map>
#include <set>
#include <random>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
namespace drv {
inline char g_case[8192] = "";
inline std::map<std::string, long> g_cover, g_fail;
inline std::mt19937_64 rng;
inline bool thorough = false;
inline std::string outdir = ".";
inline volatile long g_progress = 0;      // advances with every case and check
inline void Case(const char* fmt, ...) { ++g_progress; va_list a; va_start(a, fmt); vsnprintf(g_case, sizeof g_case, fmt, a); va_end(a); }
inline void fail(const char* name, const std::string& detail) {
    long& n = g_fail[name];
    if (n++ < 3) { printf("FAIL %s :: %s :: %s\n", name, g_case, detail.c_str()); fflush(stdout); }
}
inline void check(bool ok, const char* name, const std::string& detail = "") { ++g_progress; g_cover[name]++; if (!ok) fail(name, detail); }
inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
// |a-b| <= tol*(1+|b|)
inline void close(double a, double b, double tol, const char* name, const std::string& what = "") {
    ++g_progress; g_cover[name]++;
    if (!(std::abs(a - b) <= tol * (1.0 + std::abs(b)))) fail(name, what + " got " + num(a) + " expected " + num(b));
}
inline double U(double lo, double hi) { return lo + (hi - lo) * std::uniform_real_distribution<double>(0, 1)(rng); }
inline double N01() { return std::normal_distribution<double>(0, 1)(rng); }
inline int RI(int lo, int hi) { return lo + (int)(rng() % (unsigned long)(hi - lo + 1)); }
template<class F> inline void throws(F f, const char* name, const std::string& what = "") {
    ++g_progress; g_cover[name]++;
    try { f(); } catch (std::exception const&) { return; }
    fail(name, what + " did not raise");
}
template<class F> inline void nothrow(F f, const char* name, const std::string& what = "") {
    ++g_progress; g_cover[name]++;
    try { f(); } catch (std::exception const& e) { fail(name, what + " raised " + e.what()); }
}
inline void onsig(int s) {
    char b[9000]; int n = snprintf(b, sizeof b, "CRASH signal %d in %s\n", s, g_case);
    fflush(stdout);
    if (write(1, b, n)) {}
    _exit(3);
}
// a case that uses 60 s of processor time, or 240 s of time, without reaching its next check does not end
inline void ontick(int s) {
    static long last[2] = {-1, -1}; static int still[2] = {0, 0}; const int w = s == SIGPROF ? 0 : 1;
    if (g_progress != last[w]) { last[w] = g_progress; still[w] = 0; return; }
    if (++still[w] < 12) return;
    char b[9000]; int n = snprintf(b, sizeof b, "CRASH no end in sight (hang) in %s\n", g_case);
    if (write(1, b, n)) {}
    _exit(4);
}
template<class F> int run(int argc, char** argv, F body) {
    long seed = argc > 1 ? atol(argv[1]) : 1;
    thorough = argc > 2 && !strcmp(argv[2], "thorough");
    if (argc > 3) outdir = argv[3];
    rng.seed(seed);
    signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig);
    signal(SIGPROF, ontick); signal(SIGALRM, ontick);
    itimerval cpu{{5, 0}, {5, 0}}, wall{{20, 0}, {20, 0}}; setitimer(ITIMER_PROF, &cpu, nullptr); setitimer(ITIMER_REAL, &wall, nullptr);
    Kokkos::initialize();
    signal(SIGSEGV, onsig); signal(SIGABRT, onsig);
    try { body(); } catch (std::exception const& e) { fail("unexpected-exception", e.what()); }
    long t = 0;
    for (auto& p : g_cover) printf("COVER %s %ld\n", p.first.c_str(), p.second);
    for (auto& p : g_fail) t += p.second;
    printf("DONE\n"); fflush(stdout);
    _exit(t ? 1 : 0);
}
template<class F> void section(F f) { try { f(); } catch (std::exception const& e) { fail("unexpected-exception", e.what()); } }
}
