// where the contracts find the members of results, by name
#include <cstddef>
#include "hxhim/private/Results.hpp"
#include "hxhim/private/hxhim.hpp"
#define O(T, N, M) extern "C" std::size_t off_res_##N() { return offsetof(hxhim::Result::T, M); }
O(Result, hx, hx) O(Result, op, op) O(Result, range_server, range_server) O(Result, status, status) O(Get, subject, subject) O(Get, predicate, predicate) O(Get, object, object) O(Get, next, next) O(Hist, histogram, histogram)
O(Put, put_subject, subject) O(Put, put_predicate, predicate) O(Delete, delete_subject, subject) O(Delete, delete_predicate, predicate) O(GetOp, getop_next, next) O(GetOp, getop_object, object)
extern "C" std::size_t off_res_timestamps() { return offsetof(hxhim::Result::Result, timestamps); }
#define S(T) extern "C" std::size_t size_res_##T() { return sizeof(hxhim::Result::T); }
S(Put) S(Get) S(GetOp) S(Delete) S(Hist)
extern "C" std::size_t size_results() { return sizeof(hxhim::Results); }
extern "C" std::size_t off_results_list() { return offsetof(hxhim::Results, results); }
extern "C" std::size_t off_results_it() { return offsetof(hxhim::Results, it); }
extern "C" std::size_t off_cresults_hx() { return offsetof(hxhim_results_t, hx); }
extern "C" std::size_t off_cresults_res() { return offsetof(hxhim_results_t, res); }
extern "C" std::size_t size_cresults() { return sizeof(hxhim_results_t); }
extern "C" int hist_success() { return HISTOGRAM_SUCCESS; }
