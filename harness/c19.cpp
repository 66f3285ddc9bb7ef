#include "queue.hpp"
#include <pthread.h>
#include <thread>
#include <atomic>
// random delays in front of every lock, and while a batch is being served
static std::atomic<unsigned> JITTER{0};
static void jitter() {
    static thread_local uint64_t x = 0x9E3779B97F4A7C15ull ^ (uint64_t) pthread_self();
    const unsigned j = JITTER.load(std::memory_order_relaxed);
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if (j && x % 4 == 0) { if (x % 3) sched_yield(); else usleep((x >> 8) % j); }
}
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { jitter(); return __real_pthread_mutex_lock(m); }

struct Sent { void *s, *p; Val o; };
static std::vector<std::vector<Sent>> LOG;          // written under the datastore's lock
struct Store : public ::Datastore::Datastore {
    Store(int i) : ::Datastore::Datastore(0, i, nullptr), me(i) {}
    int me;
    bool OpenImpl(const std::string &) { return true; } void CloseImpl() {} bool UsableImpl() const { return true; }
    int WriteHistogramsImpl() { return DATASTORE_SUCCESS; } size_t ReadHistogramsImpl(const ::Datastore::HistNames_t &) { return 0; } int SyncImpl() { return DATASTORE_SUCCESS; }
    #define SR ReferenceBlob(r->orig.subjects[i], r->subjects[i].size(), r->subjects[i].data_type())
    #define PR ReferenceBlob(r->orig.predicates[i], r->predicates[i].size(), r->predicates[i].data_type())
    Message::Response::BPut *BPutImpl(Message::Request::BPut *r) {
        auto *out = construct<Message::Response::BPut>(r->count);
        for (size_t i = 0; i < r->count; i++) { jitter(); LOG[me].push_back(Sent{r->orig.subjects[i], r->orig.predicates[i], Val{std::string((char *) r->objects[i].data(), r->objects[i].size()), r->objects[i].data_type()}}); out->add(SR, PR, LOG[me].size() % 3 ? DATASTORE_SUCCESS : DATASTORE_ERROR); }
        out->src = r->dst; out->dst = r->src; return out;
    }
    template <typename Res, typename Req> Res *none(Req *r) { auto *out = construct<Res>(r->count); for (size_t i = 0; i < r->count; i++) out->add(SR, PR, DATASTORE_ERROR); out->src = r->dst; out->dst = r->src; return out; }
    Message::Response::BGet *BGetImpl(Message::Request::BGet *r) { auto *out = construct<Message::Response::BGet>(r->count); for (size_t i = 0; i < r->count; i++) out->add(SR, PR, Blob(), DATASTORE_ERROR); out->src = r->dst; out->dst = r->src; return out; }
    Message::Response::BGetOp *BGetOpImpl(Message::Request::BGetOp *r) { auto *out = construct<Message::Response::BGetOp>(r->count); for (size_t i = 0; i < r->count; i++) out->add(nullptr, nullptr, nullptr, 0, DATASTORE_ERROR); out->src = r->dst; out->dst = r->src; return out; }
    Message::Response::BDelete *BDeleteImpl(Message::Request::BDelete *r) { return none<Message::Response::BDelete>(r); }
};
typedef std::tuple<int, void *, void *> Id;
static std::string name(const Id &i) { return H::fmt("datastore %d, subject %p, predicate %p", std::get<0>(i), std::get<1>(i), std::get<2>(i)); }

int main() {
    H::init();
    while (H::time_left()) {
        const int total = H::range(1, 3);
        Keep k; LOG.assign(total, {});
        JITTER = H::chance(30) ? 0 : H::range(1, 120);
        Session s(total, H::range(1, 4), 0);
        for (int d = 0; d < total; d++) { Store *st = new Store(d); st->Open("x"); s.p.range_server.datastores.ds.push_back(st); }
        s.p.async_puts.enabled = true; s.p.async_puts.max_queued = H::range(1, 6);
        std::string hist = H::fmt("%d datastores, batches of %zu, background processing at %zu batches, delays up to %u us: start; ", total, s.p.queues.max_per_request.ops, s.p.async_puts.max_queued, JITTER.load());
        H::begin(hist);
        CHECK(hxhim::init::async_puts(&s.hx) == HXHIM_SUCCESS, "init::async_puts");
        std::map<Id, size_t> issued, returned, sent;
        size_t puts = 0, gets = 0;
        auto flushed = [&](hxhim::Results *res, size_t getsnow, const char *what) {
            CHECK(res, "no results");
            size_t g = 0;
            for (res->GoToHead(); res->ValidIterator(); res->GoToNext()) {
                int rs; hxhim_op_t op; void *sp, *pp; size_t l; hxhim_data_t t;
                res->RangeServer(&rs); res->Op(&op); res->Subject(&sp, &l, &t); res->Predicate(&pp, &l, &t);
                if (op == HXHIM_PUT) returned[Id(rs, sp, pp)]++; else g++;
            }
            CHECK(g == getsnow, "%zu results of other operations, %zu expected", g, getsnow);
            hxhim::Results::Destroy(res);
            for (auto &e : issued) CHECK(returned[e.first] == e.second, "%s: %zu results of the PUT to %s, it was issued %zu times", what, returned[e.first], name(e.first).c_str(), e.second);
            for (auto &e : returned) CHECK(issued[e.first] == e.second, "%s: %zu results of the PUT to %s, it was issued %zu times", what, e.second, name(e.first).c_str(), issued[e.first]);
        };
        const int rounds = H::range(1, 5);
        for (int rd = 0; rd < rounds; rd++) {
            for (int n = H::rnd(12); n; n--) {
                if (H::chance(25)) { Op o = mkop(k, total, HXHIM_GET); hist += "GET; "; H::begin(hist); CHECK(issue(s, o) == HXHIM_SUCCESS, "GET"); gets++; continue; }
                std::vector<Op> os; const int c = H::chance(60) ? 1 : H::range(1, 6);
                hist += "PUT"; for (int j = 0; j < c; j++) { os.push_back(mkop(k, total, HXHIM_PUT)); bool ok; auto q = expand(os.back(), ok); for (auto &x : q) { issued[Id(x.ds, x.sa, x.pa)]++; puts++; } hist += H::fmt(" x%zu", q.size()); } hist += "; ";
                H::begin(hist);
                if (c == 1 && H::chance(60)) issue(s, os[0]); else bulk(s, os);
                if (H::chance(30)) usleep(H::rnd(200));
            }
            switch (H::rnd(4)) {
                case 0: hist += "flush gets; "; H::begin(hist); { auto *r = hxhim::FlushGets(&s.hx); size_t g = 0; for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) g++; CHECK(g == gets, "%zu results of %zu GETs", g, gets); gets = 0; hxhim::Results::Destroy(r); } break;
                case 1: hist += "flush; "; H::begin(hist); flushed(hxhim::Flush(&s.hx), gets, "flush"); gets = 0; break;
                default: hist += "flush puts; "; H::begin(hist); flushed(hxhim::FlushPuts(&s.hx), 0, "flush of PUTs"); break;
            }
        }
        hist += "flush puts; close"; H::begin(hist);
        const bool last = H::chance(70);
        if (last) { flushed(hxhim::FlushPuts(&s.hx), 0, "last flush of PUTs"); }
        hxhim::destroy::running(&s.hx);
        hxhim::Results::Destroy(hxhim::Flush(&s.hx));      // as Close does
        hxhim::destroy::async_puts(&s.hx);
        for (int d = 0; d < total; d++) for (auto &x : LOG[d]) sent[Id(d, x.s, x.p)]++;
        for (auto &e : issued) CHECK(sent[e.first] == e.second, "the PUT to %s was sent %zu times, issued %zu times", name(e.first).c_str(), sent[e.first], e.second);
        for (auto &e : sent) CHECK(issued[e.first] == e.second, "the PUT to %s was sent %zu times, issued %zu times", name(e.first).c_str(), e.second, issued[e.first]);
        CHECK(!s.p.async_puts.results, "results are left after the background thread has stopped");
        hxhim::destroy::queues(&s.hx); for (auto &q : s.p.queues.puts.queue) q.clear(); for (auto &q : s.p.queues.gets) q.clear();
        if (puts > 4) H::nontrivial++;
        s.p.async_puts.enabled = false;
        drop(k);
    }
    return H::finish("sessions of PUTs of all kinds, GETs and flushes with a background thread, random delays in front of every lock and inside the datastores, and a shutdown");
}
