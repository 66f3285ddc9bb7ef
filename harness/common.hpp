// Common parts of the bounded replay / search harnesses (they take /repo's sources).
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>

namespace H {
static uint64_t state = 88172645463325252ull;
static uint64_t evaluations = 0, nontrivial = 0;
static double budget = 5;
static std::chrono::steady_clock::time_point t0;
static std::string current;      // description of the case being run
static std::vector<std::string> samples;

inline uint64_t rnd() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
inline uint64_t range(uint64_t a, uint64_t b) { return a + rnd(b - a + 1); }
inline bool chance(int pct) { return rnd(100) < (uint64_t) pct; }
inline bool time_left() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget;
}
inline void init() {
    const char *s = getenv("VERIF_SEED");
    uint64_t seed = s ? strtoull(s, nullptr, 10) : 1;
    state = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    if (!state) state = 1;
    for (int i = 0; i < 10; i++) rnd();
    const char *b = getenv("HARNESS_BUDGET");
    if (b) budget = atof(b);
    t0 = std::chrono::steady_clock::now();
}
inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap);
    return buf;
}
inline std::string hex(const void *p, size_t n) {
    std::string s; char b[4];
    for (size_t i = 0; i < n && i < 200; i++) { snprintf(b, 4, "%02x", ((const unsigned char *) p)[i]); s += b; }
    if (n > 200) s += "...";
    return s;
}
// note the case first, so that a crash also leaves it behind
inline void begin(const std::string &c) {
    current = c;
    evaluations++;
    if (samples.size() < 3) samples.push_back(c);
    const char *p = getenv("HARNESS_CASE");
    if (p) { FILE *f = fopen(p, "w"); if (f) { fwrite(c.data(), 1, c.size(), f); fclose(f); } }
}
[[noreturn]] inline void fail(const std::string &why) {
    printf("FAIL %s\nCASE %s\n", why.c_str(), current.c_str());
    fflush(stdout);
    _exit(1);
}
inline int finish(const char *rule) {
    printf("OK evaluations=%llu nontrivial=%llu\nRULE %s\n", (unsigned long long) evaluations, (unsigned long long) nontrivial, rule);
    for (auto &s : samples) printf("SAMPLE %s\n", s.substr(0, 300).c_str());
    fflush(stdout);
    _exit(0);
}
}
#define CHECK(c, ...) do { if (!(c)) H::fail(H::fmt(__VA_ARGS__) + "  [" #c "]"); } while (0)
