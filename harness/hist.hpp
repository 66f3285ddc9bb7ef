// histograms, generators and the reference the histogram harnesses compare with
#pragma once
#include "common.hpp"
#include "utils/Histogram.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <string.h>
typedef ::Histogram::Histogram Hist;

struct Edges { std::vector<double> e; int fail_first; int calls; std::vector<double> seen; bool over; };
// a user's generator: the edges it was given, or failure
static int user_gen(const double *first, const size_t n, double **buckets, size_t *size, void *extra) {
    Edges *x = (Edges *) extra;
    x->calls++;
    x->seen.assign(first, first + (first ? n : 0));     // ASAN sees a length that is too large
    if (x->calls <= x->fail_first) return HISTOGRAM_ERROR;
    *size = x->e.size();
    *buckets = alloc_array<double>(*size + 1);
    for (size_t i = 0; i < *size; i++) (*buckets)[i] = x->e[i];
    return HISTOGRAM_SUCCESS;
}
static double number() {
    switch (H::rnd(9)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return (double) H::rnd(10) / 4;
        case 3: return -(double) H::rnd(10);
        case 4: return 1e300 * ((double) H::rnd(3) - 1);
        case 5: return 5e-324 * (double) H::rnd(3);
        case 6: return -2.2250738585072014e-308;
        case 7: return (double) (int64_t) H::rnd() / 1e6;
        default: return (double) H::rnd(20) - 10;
    }
}
static size_t total_values(Hist &h) {
    std::stringstream s; h.print(s);
    const std::string t = s.str(); const size_t p = t.find("has ");
    return p == std::string::npos ? 0 : strtoull(t.c_str() + p + 4, nullptr, 10);
}
