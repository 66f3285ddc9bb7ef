// a session without MPI: queues, a hash of our own, optional datastores
#pragma once
#include "msg.hpp"
#include "hxhim/hxhim.hpp"
#include "hxhim/private/Results.hpp"
#include "hxhim/private/accessors.hpp"
#include "hxhim/private/hxhim.hpp"
#include "hxhim/private/process.hpp"
#include "transport/transport.hpp"
#include <functional>

static uint64_t HKEY = 1; static int HREJ = 0, HTOTAL = 1;
// any function of the bytes; rejects about HREJ percent of the pairs
static int place(const std::string &s, const std::string &p) {
    uint64_t h = HKEY * 0x9E3779B97F4A7C15ull;
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
    h ^= 0xabcd; for (unsigned char c : p) h = (h ^ c) * 0x100000001b3ull;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    if ((int) (h % 100) < HREJ) return -1 - (int) (h % 3);
    return (int) ((h >> 20) % HTOTAL);
}
static int hasher(hxhim_t *, void *s, const size_t sl, void *p, const size_t pl, void *) { return place(std::string((char *) s, sl), std::string((char *) p, pl)); }

struct Session {
    hxhim_t hx; hxhim_private_t p;
    Session(int total, size_t ops, size_t size, int rej = 0, int rank = 0, int ranks = 1) {
        hx.p = &p;
        p.bootstrap.rank = rank; p.bootstrap.size = ranks; p.running = true;
        p.queues.max_per_request.ops = ops; p.queues.max_per_request.size = size;
        p.queues.puts.count = 0; p.queues.puts.flushed = false;
        p.queues.puts.queue.resize(total); p.queues.gets.resize(total); p.queues.getops.resize(total); p.queues.deletes.resize(total); p.queues.histograms.resize(total);
        p.queues.ds_to_rank.assign(total, rank);
        p.async_puts.enabled = false; p.async_puts.max_queued = (size_t) -1; p.async_puts.results = nullptr;
        p.hash.func = hasher; p.hash.args = nullptr;
        p.range_server.id = 0; p.range_server.client_ratio = p.range_server.server_ratio = 1;
        p.range_server.total_range_servers = total; p.range_server.datastores.total = total; p.range_server.datastores.per_server = total; p.range_server.datastores.config = nullptr;
        HKEY = H::rnd() | 1; HREJ = rej; HTOTAL = total;
    }
    template <typename Q> static void clear(Q &q) { for (auto &t : q) { for (auto *r : t) destruct(r); t.clear(); } }
    ~Session() {
        clear(p.queues.puts.queue); clear(p.queues.gets); clear(p.queues.getops); clear(p.queues.deletes); clear(p.queues.histograms);
        for (auto *d : p.range_server.datastores.ds) delete d;
        destruct(p.async_puts.results);
        destruct(p.transport.transport);
    }
};
// an operation the user issues
struct Op { hxhim_op_t op; Val s, p, o; hxhim_data_t t; size_t n; hxhim_getop_t g; size_t perm; int ds; void *sa, *pa, *oa; };
static std::string show(const Op &o) {
    std::string c = std::string(opname(o.op)) + " " + show(o.s);
    if (o.op != HXHIM_HISTOGRAM) c += "," + show(o.p);
    if (o.op == HXHIM_PUT) c += "=" + show(o.o) + H::fmt(" flags %zx", o.perm);
    if (o.op == HXHIM_GETOP) c += H::fmt(" op %d recs %zu", (int) o.g, o.n);
    return c;
}
static void *hold(Keep &k, const Val &v) { std::string *s = new std::string(v.b); s->reserve(1); k.push_back(s); return &(*s)[0]; }
static const size_t FLAGS[6] = {HXHIM_PUT_SPO, HXHIM_PUT_SOP, HXHIM_PUT_PSO, HXHIM_PUT_POS, HXHIM_PUT_OSP, HXHIM_PUT_OPS};
static const char ROLES[6][4] = {"SPO", "SOP", "PSO", "POS", "OSP", "OPS"};
static const Val &role(const Op &o, char r) { return r == 'S' ? o.s : r == 'P' ? o.p : o.o; }
static void *addr(const Op &o, char r) { return r == 'S' ? o.sa : r == 'P' ? o.pa : o.oa; }

// what is expected in a queue: one triple
struct Queued { hxhim_op_t op; Val s, p, o; hxhim_data_t t; size_t n; hxhim_getop_t g; int ds; void *sa, *pa; };
static std::string show(const Queued &q) { Op o{q.op, q.s, q.p, q.o, q.t, q.n, q.g, 0, q.ds, q.sa, q.pa, nullptr}; return show(o) + H::fmt(" for datastore %d", q.ds); }
// the triples of an operation that may be queued; ok: none was rejected
static std::vector<Queued> expand(const Op &o, bool &ok) {
    std::vector<Queued> r; ok = true;
    if (o.op == HXHIM_HISTOGRAM) { r.push_back(Queued{o.op, o.s, o.p, o.o, o.t, o.n, o.g, o.ds, o.sa, o.pa}); return r; }
    if (o.op != HXHIM_PUT) { const int d = place(o.s.b, o.p.b); if (d < 0) { ok = false; return r; } r.push_back(Queued{o.op, o.s, o.p, o.o, o.t, o.n, o.g, d, o.sa, o.pa}); return r; }
    for (int i = 0; i < 6; i++) if (o.perm & FLAGS[i]) {
        const Val &s = role(o, ROLES[i][0]), &p = role(o, ROLES[i][1]), &b = role(o, ROLES[i][2]);
        const int d = place(s.b, p.b);
        if (d < 0) { ok = false; continue; }
        r.push_back(Queued{HXHIM_PUT, s, p, b, o.t, o.n, o.g, d, addr(o, ROLES[i][0]), addr(o, ROLES[i][1])});
    }
    return r;
}
static bool matches(const Queued &q, Message::Request::Request *r, size_t i) {
    using namespace Message::Request;
    if (r->op != q.op || i >= r->count) return false;
    if (q.op == HXHIM_HISTOGRAM) return eq(static_cast<BHistogram *>(r)->names[i], q.s, false);
    auto *sp = static_cast<SubjectPredicate *>(r);
    if (!eq(sp->subjects[i], q.s) || !eq(sp->predicates[i], q.p)) return false;
    if (q.op == HXHIM_GETOP) { auto *m = static_cast<BGetOp *>(r); return m->object_types[i] == q.t && m->num_recs[i] == q.n && m->ops[i] == q.g; }
    if (sp->orig.subjects[i] != q.sa || sp->orig.predicates[i] != q.pa) return false;
    if (q.op == HXHIM_PUT) return eq(static_cast<BPut *>(r)->objects[i], q.o);
    if (q.op == HXHIM_GET) return static_cast<BGet *>(r)->object_types[i] == q.t;
    return true;
}
static std::string describe(Message::Request::Request *r, size_t i) {
    using namespace Message::Request;
    if (r->op == HXHIM_HISTOGRAM) return show(static_cast<BHistogram *>(r)->names[i]);
    auto *sp = static_cast<SubjectPredicate *>(r);
    return show(sp->subjects[i]) + "," + show(sp->predicates[i]) + (r->op == HXHIM_PUT ? "=" + show(static_cast<BPut *>(r)->objects[i]) : "");
}
template <typename Q> static void each(Q &q, std::function<void(int, Message::Request::Request *, size_t)> f) {
    for (size_t d = 0; d < q.size(); d++) { size_t k = 0; for (auto *r : q[d]) f((int) d, r, k++); }
}
static void each(Session &s, hxhim_op_t op, std::function<void(int, Message::Request::Request *, size_t)> f) {
    auto &q = s.p.queues;
    switch (op) { case HXHIM_PUT: each(q.puts.queue, f); break; case HXHIM_GET: each(q.gets, f); break; case HXHIM_GETOP: each(q.getops, f); break; case HXHIM_DELETE: each(q.deletes, f); break; default: each(q.histograms, f); }
}
static Val qval() { Val v = H::chance(20) ? bytes(40) : value(5); if (v.b.empty()) v.b = "z"; return v; }
static Op mkop(Keep &k, int total, int force = -1) {
    Op o; o.op = force >= 0 ? (hxhim_op_t) force : OPS[H::rnd(5)];
    o.s = qval(); o.p = qval(); o.o = qval(); o.t = (hxhim_data_t) H::range(1, 8); o.n = H::rnd(5); o.g = (hxhim_getop_t) H::rnd(7); o.ds = H::rnd(total);
    o.perm = H::chance(30) ? HXHIM_PUT_ALL : H::chance(30) ? FLAGS[H::rnd(6)] : H::rnd(64);
    o.sa = hold(k, o.s); o.pa = hold(k, o.p); o.oa = hold(k, o.o);
    return o;
}
// issue operations of one kind through the single, bulk and typed interfaces
static int issue(Session &s, const Op &o) {
    hxhim_t *hx = &s.hx;
    switch (o.op) {
        case HXHIM_PUT:
            if (o.o.t == HXHIM_DATA_DOUBLE && o.o.b.size() == 8 && H::chance(50)) return hxhim::PutDouble(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, (double *) o.oa, o.perm);
            if (o.o.t == HXHIM_DATA_FLOAT && o.o.b.size() == 4 && H::chance(50)) return hxhim::PutFloat(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, (float *) o.oa, o.perm);
            return hxhim::Put(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, o.oa, o.o.b.size(), o.o.t, o.perm);
        case HXHIM_GET:
            if (o.t == HXHIM_DATA_DOUBLE && H::chance(50)) return hxhim::GetDouble(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t);
            if (o.t == HXHIM_DATA_FLOAT && H::chance(50)) return hxhim::GetFloat(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t);
            return hxhim::Get(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, o.t);
        case HXHIM_GETOP:
            if (o.t == HXHIM_DATA_DOUBLE && H::chance(50)) return hxhim::GetOpDouble(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, o.n, o.g);
            if (o.t == HXHIM_DATA_FLOAT && H::chance(50)) return hxhim::GetOpFloat(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, o.n, o.g);
            return hxhim::GetOp(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t, o.t, o.n, o.g);
        case HXHIM_DELETE: return hxhim::Delete(hx, o.sa, o.s.b.size(), o.s.t, o.pa, o.p.b.size(), o.p.t);
        default: return hxhim::Histogram(hx, o.ds, (const char *) o.sa, o.s.b.size());
    }
}
static int bulk(Session &s, const std::vector<Op> &os) {        // all of one kind
    hxhim_t *hx = &s.hx;
    std::vector<void *> sa, pa, oa; std::vector<size_t> sl, pl, ol, n, pm; std::vector<hxhim_data_t> st, pt, ot, t; std::vector<hxhim_getop_t> g; std::vector<int> ds; std::vector<const char *> nm;
    bool one = true, oneo = true;
    for (auto &o : os) { sa.push_back(o.sa); pa.push_back(o.pa); oa.push_back(o.oa); sl.push_back(o.s.b.size()); pl.push_back(o.p.b.size()); ol.push_back(o.o.b.size()); n.push_back(o.n); pm.push_back(o.perm);
        st.push_back(o.s.t); pt.push_back(o.p.t); ot.push_back(o.o.t); t.push_back(o.t); g.push_back(o.g); ds.push_back(o.ds); nm.push_back((const char *) o.sa); one = one && o.t == os[0].t; oneo = oneo && o.o.t == os[0].o.t; }
    const size_t c = os.size();
    const bool ty = H::chance(50);
    const hxhim_data_t t0 = t[0];
    switch (os[0].op) {
        case HXHIM_PUT:
            if (oneo && ty) {
                bool full = true; for (auto &o : os) full = full && o.o.b.size() == (o.o.t == HXHIM_DATA_DOUBLE ? 8 : 4);
                if (ot[0] == HXHIM_DATA_DOUBLE && full && H::chance(50)) return hxhim::BPutDouble(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], (double **) &oa[0], &pm[0], c);
                if (ot[0] == HXHIM_DATA_FLOAT && full && H::chance(50)) return hxhim::BPutFloat(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], (float **) &oa[0], &pm[0], c);
                return hxhim::BPutSingleType(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], &oa[0], &ol[0], ot[0], &pm[0], c);
            }
            return hxhim::BPut(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], &oa[0], &ol[0], &ot[0], &pm[0], c);
        case HXHIM_GET:
            if (one && ty) return t0 == HXHIM_DATA_DOUBLE ? hxhim::BGetDouble(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], c) : t0 == HXHIM_DATA_FLOAT ? hxhim::BGetFloat(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], c)
                                 : hxhim::BGetSingleType(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], t0, c);
            return hxhim::BGet(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], &t[0], c);
        case HXHIM_GETOP:
            if (one && ty) return t0 == HXHIM_DATA_DOUBLE ? hxhim::BGetOpDouble(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], &n[0], &g[0], c) : t0 == HXHIM_DATA_FLOAT ? hxhim::BGetOpFloat(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], &n[0], &g[0], c)
                                 : hxhim::BGetOpSingleType(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], t0, &n[0], &g[0], c);
            return hxhim::BGetOp(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], &t[0], &n[0], &g[0], c);
        case HXHIM_DELETE: return hxhim::BDelete(hx, &sa[0], &sl[0], &st[0], &pa[0], &pl[0], &pt[0], c);
        default: return hxhim::BHistogram(hx, &ds[0], &nm[0], &sl[0], c);
    }
}
