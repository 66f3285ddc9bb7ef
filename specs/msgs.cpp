// where the contracts find the members of messages, by name
#include <cstddef>
#include "message/Messages.hpp"
#include "datastore/constants.hpp"
#define OFF(T, D, N, M) extern "C" std::size_t off_##T##_##N() { return offsetof(Message::D::T, M); }
#define COMMON(T, D) OFF(T, D, direction, direction) OFF(T, D, op, op) OFF(T, D, src, src) OFF(T, D, dst, dst) \
    OFF(T, D, max_count, max_count) OFF(T, D, count, count) OFF(T, D, serialized_size, serialized_size) OFF(T, D, reqs, timestamps.reqs) \
    extern "C" std::size_t size_##T() { return sizeof(Message::D::T); } \
    extern "C" Message::D::D *up_##T(Message::D::T *x) { return x; }
#define REQ(T) COMMON(T, Request)
#define SP(T) OFF(T, Request, subjects, subjects) OFF(T, Request, predicates, predicates) OFF(T, Request, orig_subjects, orig.subjects) OFF(T, Request, orig_predicates, orig.predicates)
using namespace Message::Request;
REQ(BPut) SP(BPut) OFF(BPut, Request, objects, objects)
REQ(BGet) SP(BGet) OFF(BGet, Request, object_types, object_types)
REQ(BGetOp) SP(BGetOp) OFF(BGetOp, Request, object_types, object_types) OFF(BGetOp, Request, num_recs, num_recs) OFF(BGetOp, Request, ops, ops)
REQ(BDelete) SP(BDelete)
REQ(BHistogram) OFF(BHistogram, Request, names, names)
#define ROFF(T, N, M) extern "C" std::size_t off_R##T##_##N() { return offsetof(Message::Response::T, M); }
#define RES(T) ROFF(T, direction, direction) ROFF(T, op, op) ROFF(T, src, src) ROFF(T, dst, dst) \
    ROFF(T, max_count, max_count) ROFF(T, count, count) ROFF(T, serialized_size, serialized_size) ROFF(T, reqs, timestamps.reqs) ROFF(T, statuses, statuses) ROFF(T, next, next) \
    extern "C" std::size_t size_R##T() { return sizeof(Message::Response::T); }
#define RSP(T) ROFF(T, orig_subjects, orig.subjects) ROFF(T, orig_predicates, orig.predicates)
RES(BPut) RSP(BPut)
RES(BGet) RSP(BGet) ROFF(BGet, objects, objects)
RES(BGetOp) ROFF(BGetOp, num_recs, num_recs) ROFF(BGetOp, subjects, subjects) ROFF(BGetOp, predicates, predicates) ROFF(BGetOp, objects, objects)
RES(BDelete) RSP(BDelete)
RES(BHistogram) ROFF(BHistogram, histograms, histograms)
extern "C" std::size_t size_send() { return sizeof(struct Stats::Send); }
extern "C" int dir_request() { return Message::REQUEST; }
extern "C" int dir_response() { return Message::RESPONSE; }
extern "C" int op_put() { return (int) hxhim_op_t::HXHIM_PUT; }
extern "C" int op_get() { return (int) hxhim_op_t::HXHIM_GET; }
extern "C" int op_getop() { return (int) hxhim_op_t::HXHIM_GETOP; }
extern "C" int op_delete() { return (int) hxhim_op_t::HXHIM_DELETE; }
extern "C" int op_histogram() { return (int) hxhim_op_t::HXHIM_HISTOGRAM; }
extern "C" int getop_first() { return (int) hxhim_getop_t::HXHIM_GETOP_FIRST; }
extern "C" int getop_last() { return (int) hxhim_getop_t::HXHIM_GETOP_LAST; }
extern "C" int ds_success() { return DATASTORE_SUCCESS; }
extern "C" int msg_success() { return MESSAGE_SUCCESS; }
extern "C" int msg_error() { return MESSAGE_ERROR; }
// keep the constructors (and with them the tables of virtual functions) reachable for the contracts
#define MK(T) extern "C" void ctor_##T(void *p) { new (p) Message::Request::T(0); } extern "C" void ctor_R##T(void *p) { new (p) Message::Response::T(0); }
MK(BPut) MK(BGet) MK(BGetOp) MK(BDelete) MK(BHistogram)
extern "C" std::size_t size_histogram() { return sizeof(Histogram::Histogram); }
extern "C" std::size_t off_sptr() { std::shared_ptr<Histogram::Histogram> p; return reinterpret_cast<char *>(&p._M_ptr) - reinterpret_cast<char *>(&p); }
