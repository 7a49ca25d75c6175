// Bounded public-API oracle: random operation sequences against a specification model.
// Supplies concrete failing inputs; never counted as proof.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
namespace orc {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s((x ^ (x >> 7)) * 0xD1342543DE82EF95ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
    // interesting integers: small, boundary, random
    uint64_t weird(unsigned bits = 64) {
        uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1), r;
        switch (below(6)) {
        case 0: r = below(16); break;
        case 1: r = m - below(16); break;
        case 2: r = (1ull << below(bits)) + below(3) - 1; break;
        case 3: r = next() >> below(64); break;
        case 4: r = (1ull << below(bits)); break;
        default: r = next();
        }
        return r & m;
    }
};
static char logbuf[1 << 16];
static size_t loglen = 0;
static uint64_t cases = 0, steps = 0;
static const char* what = "";
static uint64_t seed0 = 1;
inline void newcase(const char* fmt, ...) {
    loglen = 0; ++cases;
    va_list ap; va_start(ap, fmt);
    loglen = vsnprintf(logbuf, sizeof(logbuf) - 1, fmt, ap);
    va_end(ap);
    struct itimerval t = {{0, 0}, {60, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);   // CPU time: a case that does not terminate
}
inline void op(const char* fmt, ...) {
    ++steps;
    if (loglen > sizeof(logbuf) - 400) { memmove(logbuf, logbuf + sizeof(logbuf) / 2, loglen - sizeof(logbuf) / 2); loglen -= sizeof(logbuf) / 2; }
    logbuf[loglen++] = '\n';
    va_list ap; va_start(ap, fmt);
    loglen += vsnprintf(logbuf + loglen, 300, fmt, ap);
    va_end(ap);
    if (loglen > sizeof(logbuf) - 10) loglen = sizeof(logbuf) - 10;
}
inline void wr(const char* s, size_t n) { while (n) { ssize_t k = write(1, s, n); if (k <= 0) break; s += k; n -= k; } }
[[noreturn]] inline void fail(const char* msg) {
    fflush(stdout);
    char b[300];
    int k = snprintf(b, sizeof b, "ORACLE-FAIL %s\nseed=%llu case=%llu step=%llu; operations of the failing case:\n", msg, (unsigned long long)seed0, (unsigned long long)cases, (unsigned long long)steps);
    wr(b, k);
    wr(logbuf, loglen); wr("\n", 1);
    _exit(1);
}
inline void onsig(int s) {
    char b[64]; snprintf(b, sizeof b, s == SIGPROF ? "operation does not terminate" : "crash: signal %d", s);
    fail(b);
}
inline void onterm() {
    const char* m = "uncaught exception";
    static char b[400];
    try { if (auto p = std::current_exception()) std::rethrow_exception(p); } catch (const std::exception& e) { snprintf(b, sizeof b, "unexpected exception: %.300s", e.what()); m = b; } catch (...) {}
    fail(m);
}
}
#define OP(...) orc::op(__VA_ARGS__)
#define CASE(...) orc::newcase(__VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) { char _m[400], _b[600]; snprintf(_m, sizeof _m, __VA_ARGS__); snprintf(_b, sizeof _b, "%s  [%s]", _m, #c); orc::fail(_b); } } while (0)
#define CHECKEQ(a, b, ...) do { auto _x = (a); auto _y = (b); if (!(_x == _y)) { char _m[400], _b[600]; snprintf(_m, sizeof _m, __VA_ARGS__); snprintf(_b, sizeof _b, "%s: got %lld expected %lld  [%s == %s]", _m, (long long)_x, (long long)_y, #a, #b); orc::fail(_b); } } while (0)
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
using orc::Rng;
void oracle(Rng& r, unsigned scale);
int main(int argc, char** argv) {
    orc::seed0 = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    unsigned scale = argc > 2 ? atoi(argv[2]) : 1;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF}) signal(s, orc::onsig);
    std::set_terminate(orc::onterm);
    Rng r(orc::seed0);
    oracle(r, scale);
    printf("\nORACLE-OK cases=%llu steps=%llu\n", (unsigned long long)orc::cases, (unsigned long long)orc::steps);
    fflush(stdout);
    _exit(0);
}
