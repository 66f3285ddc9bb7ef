// random messages with a description to compare the received message with
#pragma once
#include "ds.hpp"
#include "hist.hpp"
#include "message/Messages.hpp"
#include "message/Packer.hpp"
#include "message/Unpacker.hpp"
#include <memory>

struct MEntry { Val s, p, o; void *sa, *pa; hxhim_data_t t; size_t n; hxhim_getop_t op; int status; std::vector<Rec> recs; std::shared_ptr<Hist> h; };
struct MDesc { hxhim_op_t op; int src, dst; std::vector<MEntry> e; };
static const hxhim_op_t OPS[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM};
static const char *opname(hxhim_op_t o) { return o == HXHIM_PUT ? "PUT" : o == HXHIM_GET ? "GET" : o == HXHIM_GETOP ? "GETOP" : o == HXHIM_DELETE ? "DELETE" : "HISTOGRAM"; }

static Val mval() { Val v = value(H::chance(10) ? 60 : 6); if (H::chance(15)) v.b.clear(); if (H::chance(10)) v.t = (hxhim_data_t) H::range(0, 9); return v; }
// a value object: a reference, an owner, or (for no bytes) sometimes a null pointer
static Blob mblob(Keep &k, const Val &v, bool may_own = true) {
    if (v.b.empty() && H::chance(40)) return ReferenceBlob(nullptr, 0, v.t);
    if (may_own && H::chance(40)) { void *p = alloc(v.b.size() ? v.b.size() : 1); memcpy(p, v.b.data(), v.b.size()); return RealBlob(p, v.b.size(), v.t); }
    return ref(k, v);
}
static std::string mshow(const MDesc &d, bool req) {
    std::string c = H::fmt("%s %s src %d dst %d entries %zu:", req ? "request" : "response", opname(d.op), d.src, d.dst, d.e.size());
    for (auto &e : d.e) {
        c += " [";
        if (d.op != HXHIM_HISTOGRAM && !(d.op == HXHIM_GETOP && !req)) c += show(e.s) + " " + show(e.p);
        if (d.op == HXHIM_HISTOGRAM && req) c += show(e.s);
        if (req && d.op == HXHIM_PUT) c += " = " + show(e.o);
        if (req && d.op == HXHIM_GETOP) c += H::fmt(" op %d recs %zu", (int) e.op, e.n);
        if (!req) c += H::fmt(" status %d", e.status);
        if (!req && d.op == HXHIM_GETOP) c += H::fmt(" %zu records", e.recs.size());
        c += "]";
        if (c.size() > 1500) { c += "..."; break; }
    }
    return c;
}
static bool eq(const Blob &b, const Val &v, bool type = true) {
    return (!type || b.data_type() == v.t) && b.size() == v.b.size() && (!b.size() || (b.data() && !memcmp(b.data(), v.b.data(), v.b.size())));
}
static bool is_ref(const Blob &b, void *p, const Val &v) { return b.data() == p && b.size() == v.b.size() && b.data_type() == v.t; }

static size_t entries() { return H::chance(10) ? 0 : H::chance(5) ? H::range(20, 200) : H::range(1, 5); }
static Message::Request::Request *mreq(MDesc &d, Keep &k) {
    d.op = OPS[H::rnd(5)]; d.src = (int) H::rnd(); d.dst = (int) H::rnd(); d.e.clear();
    const size_t n = entries(), max = n + H::rnd(3);
    Message::Request::Request *out = nullptr;
    for (size_t i = 0; i < n; i++) {
        MEntry e; e.s = mval(); e.p = mval(); e.o = mval(); e.t = (hxhim_data_t) H::range(0, 9); e.n = H::chance(20) ? H::rnd() : H::rnd(10); e.op = (hxhim_getop_t) H::range(0, 7); e.status = 0; e.sa = e.pa = nullptr;
        d.e.push_back(e);
    }
    #define EACH for (auto &e : d.e)
    switch (d.op) {
        case HXHIM_PUT: { auto *m = construct<Message::Request::BPut>(max); EACH { Blob s = mblob(k, e.s, false), p = mblob(k, e.p, false); e.sa = s.data(); e.pa = p.data(); m->add(s, p, mblob(k, e.o, false)); e.sa = m->subjects[m->count - 1].data(); e.pa = m->predicates[m->count - 1].data(); } out = m; break; }
        case HXHIM_GET: { auto *m = construct<Message::Request::BGet>(max); EACH { m->add(ref(k, e.s), ref(k, e.p), e.t); e.sa = m->subjects[m->count - 1].data(); e.pa = m->predicates[m->count - 1].data(); } out = m; break; }
        case HXHIM_GETOP: { auto *m = construct<Message::Request::BGetOp>(max); EACH m->add(ref(k, e.s), ref(k, e.p), e.t, e.n, e.op); out = m; break; }
        case HXHIM_DELETE: { auto *m = construct<Message::Request::BDelete>(max); EACH { m->add(ref(k, e.s), ref(k, e.p)); e.sa = m->subjects[m->count - 1].data(); e.pa = m->predicates[m->count - 1].data(); } out = m; break; }
        default: { auto *m = construct<Message::Request::BHistogram>(max); EACH m->add(ref(k, e.s)); out = m; break; }
    }
    out->src = d.src; out->dst = d.dst;
    return out;
}
static void mcheck(const MDesc &d, Message::Request::Request *got) {
    using namespace Message::Request;
    CHECK(got && got->op == d.op && got->direction == Message::REQUEST, "wrong operation received");
    CHECK(got->src == d.src, "source %d received as %d", d.src, got->src);
    CHECK(got->dst == d.dst, "destination %d received as %d", d.dst, got->dst);
    CHECK(got->count == d.e.size(), "%zu entries received as %zu", d.e.size(), (size_t) got->count);
    for (size_t i = 0; i < d.e.size(); i++) {
        const MEntry &e = d.e[i];
        if (d.op == HXHIM_HISTOGRAM) { auto *m = static_cast<BHistogram *>(got); CHECK(eq(m->names[i], e.s, false), "name of entry %zu differs: %s", i, show(m->names[i]).c_str()); continue; }
        auto *sp = static_cast<SubjectPredicate *>(got);
        if (!(d.op == HXHIM_GETOP && (e.op == HXHIM_GETOP_FIRST || e.op == HXHIM_GETOP_LAST))) {
            CHECK(eq(sp->subjects[i], e.s), "subject of entry %zu differs: %s", i, show(sp->subjects[i]).c_str());
            CHECK(eq(sp->predicates[i], e.p), "predicate of entry %zu differs: %s", i, show(sp->predicates[i]).c_str());
        }
        if (d.op != HXHIM_GETOP) {
            CHECK(sp->orig.subjects[i] == e.sa, "caller's subject address of entry %zu differs", i);
            CHECK(sp->orig.predicates[i] == e.pa, "caller's predicate address of entry %zu differs", i);
        }
        if (d.op == HXHIM_PUT) CHECK(eq(static_cast<BPut *>(got)->objects[i], e.o), "object of entry %zu differs: %s", i, show(static_cast<BPut *>(got)->objects[i]).c_str());
        if (d.op == HXHIM_GET) CHECK(static_cast<BGet *>(got)->object_types[i] == e.t, "object type of entry %zu differs", i);
        if (d.op == HXHIM_GETOP) { auto *m = static_cast<BGetOp *>(got); CHECK(m->object_types[i] == e.t, "object type of entry %zu differs", i); CHECK(m->num_recs[i] == e.n, "record count of entry %zu differs", i); CHECK(m->ops[i] == e.op, "query operation of entry %zu differs", i); }
    }
}
static int one(const double *, const size_t, double **b, size_t *n, void *e) { *n = (size_t) e; *b = alloc_array<double>(*n + 1); for (size_t i = 0; i < *n; i++) (*b)[i] = (double) i * 3 - 10; return HISTOGRAM_SUCCESS; }
static std::shared_ptr<Hist> mhist() {
    const size_t first = H::rnd(8);
    std::string nm; const size_t l = H::rnd(12); for (size_t i = 0; i < l; i++) nm += (char) H::rnd(256);
    std::shared_ptr<Hist> h(new Hist(::Histogram::Config{first, one, (void *) (size_t) H::range(1, 9)}, nm));
    const size_t n = H::rnd(14);
    for (size_t i = 0; i < n; i++) h->add((double) H::rnd(100) / 3 - 15);
    return h;
}
static std::string dump(Hist &h) {       // everything a histogram exposes
    std::string s, n; h.get_name(n); s = n + H::fmt("|%zu|", total_values(h));
    size_t f, c; double *v; h.get_cache(&f, &v, &c); s += H::fmt("%zu|", f);
    if (total_values(h) < f) s.append((char *) v, c * 8);
    double *b; size_t *k, z;
    if (h.get(&b, &k, &z) == HISTOGRAM_SUCCESS) { s += H::fmt("|%zu|", z); if (z) { s.append((char *) b, (z + 1) * 8); s.append((char *) k, z * 8); } }
    return s;
}
static int stat() { return H::chance(60) ? DATASTORE_SUCCESS : H::chance(80) ? DATASTORE_ERROR : (int) H::rnd(5); }
static Message::Response::Response *mres(MDesc &d, Keep &k, int force = -1) {
    using namespace Message::Response;
    d.op = force >= 0 ? (hxhim_op_t) force : OPS[H::rnd(5)]; d.src = (int) H::rnd(); d.dst = (int) H::rnd(); d.e.clear();
    const size_t n = entries(), max = n + H::rnd(3);
    for (size_t i = 0; i < n; i++) {
        MEntry e; e.s = mval(); e.p = mval(); e.o = mval(); e.status = stat(); e.sa = (void *) (H::chance(10) ? 0 : H::rnd()); e.pa = (void *) (H::chance(10) ? 0 : H::rnd());
        if (d.op == HXHIM_GETOP) { const size_t r = H::chance(20) ? 0 : H::range(1, 4); for (size_t j = 0; j < r; j++) e.recs.push_back(Rec{mval(), mval(), mval()}); }
        if (d.op == HXHIM_HISTOGRAM && e.status == DATASTORE_SUCCESS) e.h = mhist();
        d.e.push_back(e);
    }
    Response *out = nullptr;
    #define SREF ReferenceBlob(e.sa, e.s.b.size(), e.s.t)
    #define PREF ReferenceBlob(e.pa, e.p.b.size(), e.p.t)
    switch (d.op) {
        case HXHIM_PUT: { auto *m = construct<BPut>(max); EACH m->add(SREF, PREF, e.status); out = m; break; }
        case HXHIM_DELETE: { auto *m = construct<BDelete>(max); EACH m->add(SREF, PREF, e.status); out = m; break; }
        case HXHIM_GET: { auto *m = construct<BGet>(max); EACH m->add(SREF, PREF, mblob(k, e.o), e.status); out = m; break; }
        case HXHIM_GETOP: {
            auto *m = construct<BGetOp>(max);
            EACH {
                const size_t r = e.recs.size();
                Blob *s = alloc_array<Blob>(r), *p = alloc_array<Blob>(r), *o = alloc_array<Blob>(r);
                // as the datastores do (space first, records later) or all at once
                if (H::chance(50)) {
                    m->add(s, p, o, 0, DATASTORE_UNSET);
                    const size_t i = m->count - 1;
                    for (size_t j = 0; j < r; j++) { s[j] = mblob(k, e.recs[j].s); p[j] = mblob(k, e.recs[j].p); if (e.status == DATASTORE_SUCCESS) o[j] = mblob(k, e.recs[j].o); m->num_recs[i]++; }
                    m->statuses[i] = e.status; m->update_size(i);
                } else {
                    for (size_t j = 0; j < r; j++) { s[j] = mblob(k, e.recs[j].s); p[j] = mblob(k, e.recs[j].p); o[j] = mblob(k, e.recs[j].o); }
                    m->add(s, p, o, r, e.status);
                }
            }
            out = m; break;
        }
        default: { auto *m = construct<BHistogram>(max); EACH m->add(e.h, e.status); out = m; break; }
    }
    out->src = d.src; out->dst = d.dst;
    return out;
}
static void mcheck(const MDesc &d, Message::Response::Response *got) {
    using namespace Message::Response;
    CHECK(got && got->op == d.op && got->direction == Message::RESPONSE, "wrong operation received");
    CHECK(got->src == d.src, "source %d received as %d", d.src, got->src);
    CHECK(got->dst == d.dst, "destination %d received as %d", d.dst, got->dst);
    CHECK(got->count == d.e.size(), "%zu entries received as %zu", d.e.size(), (size_t) got->count);
    for (size_t i = 0; i < d.e.size(); i++) {
        const MEntry &e = d.e[i];
        CHECK(got->statuses[i] == e.status, "status of entry %zu is %d, was %d", i, got->statuses[i], e.status);
        if (d.op == HXHIM_PUT || d.op == HXHIM_GET || d.op == HXHIM_DELETE) {
            auto *sp = static_cast<SubjectPredicate *>(got);
            CHECK(is_ref(sp->orig.subjects[i], e.sa, e.s), "subject reference of entry %zu differs", i);
            CHECK(is_ref(sp->orig.predicates[i], e.pa, e.p), "predicate reference of entry %zu differs", i);
        }
        if (d.op == HXHIM_GET && e.status == DATASTORE_SUCCESS) CHECK(eq(static_cast<BGet *>(got)->objects[i], e.o), "object of entry %zu differs: %s, was %s", i, show(static_cast<BGet *>(got)->objects[i]).c_str(), show(e.o).c_str());
        if (d.op == HXHIM_GETOP) {
            auto *m = static_cast<BGetOp *>(got);
            CHECK(m->num_recs[i] == e.recs.size(), "entry %zu has %zu records, had %zu", i, (size_t) m->num_recs[i], e.recs.size());
            for (size_t j = 0; j < e.recs.size(); j++) {
                CHECK(eq(m->subjects[i][j], e.recs[j].s), "subject of record %zu of entry %zu differs", j, i);
                CHECK(eq(m->predicates[i][j], e.recs[j].p), "predicate of record %zu of entry %zu differs", j, i);
                if (e.status == DATASTORE_SUCCESS) CHECK(eq(m->objects[i][j], e.recs[j].o), "object of record %zu of entry %zu differs", j, i);
            }
        }
        if (d.op == HXHIM_HISTOGRAM && e.status == DATASTORE_SUCCESS) { auto *m = static_cast<BHistogram *>(got); CHECK(m->histograms[i] && dump(*m->histograms[i]) == dump(*e.h), "histogram of entry %zu differs", i); }
    }
}
// move random entries of several responses of one kind into a new one
template <typename R> static R *stolen(std::vector<MDesc> &ds, std::vector<R *> &from, MDesc &out) {
    size_t n = 0; for (auto &d : ds) n += d.e.size();
    R *m = construct<R>(n + H::rnd(3));
    out.e.clear();
    for (size_t f = 0; f < from.size(); f++)
        for (size_t i = 0; i < ds[f].e.size(); i++) if (H::chance(80)) { m->steal(from[f], i); out.e.push_back(ds[f].e[i]); }
    out.op = ds[0].op; m->src = out.src = 7; m->dst = out.dst = -3;
    return m;
}
template <typename R> static Message::Response::Response *steal_all(MDesc &d, Keep &k, hxhim_op_t op) {
    std::vector<MDesc> ds; std::vector<R *> from;
    const int n = H::range(1, 3);
    for (int i = 0; i < n; i++) { ds.emplace_back(); from.push_back(static_cast<R *>(mres(ds.back(), k, op))); }
    R *m = stolen(ds, from, d);
    for (auto f : from) destruct(f);
    return m;
}
static Message::Response::Response *msteal(MDesc &d, Keep &k) {
    using namespace Message::Response;
    const hxhim_op_t op = OPS[H::rnd(5)];
    switch (op) {
        case HXHIM_PUT: return steal_all<BPut>(d, k, op);
        case HXHIM_GET: return steal_all<BGet>(d, k, op);
        case HXHIM_GETOP: return steal_all<BGetOp>(d, k, op);
        case HXHIM_DELETE: return steal_all<BDelete>(d, k, op);
        default: return steal_all<BHistogram>(d, k, op);
    }
}
