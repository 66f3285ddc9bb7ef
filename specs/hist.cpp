// where the contracts find the members of a histogram, by name
#include <cstddef>
#include "utils/Histogram.hpp"
typedef ::Histogram::Histogram Hist;
#define OFF(N) extern "C" std::size_t off_H_##N() { return offsetof(Hist, N); }
OFF(name_) OFF(first_n_) OFF(gen_) OFF(extra_) OFF(cache_) OFF(count_) OFF(buckets_) OFF(counts_) OFF(size_)
extern "C" std::size_t size_histogram() { return sizeof(Hist); }
extern "C" int hist_success() { return HISTOGRAM_SUCCESS; }
extern "C" int hist_error() { return HISTOGRAM_ERROR; }
extern "C" std::size_t size_hconfig() { return sizeof(Histogram::Config); }
extern "C" std::size_t off_C_first_n() { return offsetof(Histogram::Config, first_n); }
extern "C" std::size_t off_C_generator() { return offsetof(Histogram::Config, generator); }
extern "C" std::size_t off_C_extra() { return offsetof(Histogram::Config, extra_args); }
