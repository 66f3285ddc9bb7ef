// values, stores and reference model shared by the datastore harnesses
#pragma once
#include "common.hpp"
#include "datastore/InMemory.hpp"
#include "datastore/triplestore.hpp"
#include "utils/Blob.hpp"
#include "utils/memory.hpp"
#include <algorithm>
#include <cmath>
#include <map>

typedef ::Datastore::InMemory InMem;
struct Val {
    std::string b; hxhim_data_t t;
    bool operator<(const Val &o) const { return t != o.t ? t < o.t : b < o.b; }
    bool operator==(const Val &o) const { return t == o.t && b == o.b; }
};
typedef std::pair<Val, Val> Pair;
static std::string show(const Val &v) { return H::fmt("%s:%s%zu", H::hex(v.b.data(), std::min<size_t>(v.b.size(), 12)).c_str(), v.b.size() > 12 ? "..." : "", (size_t) v.t); }
template <typename T> static Val num(T x, hxhim_data_t t) { return Val{std::string((char *) &x, sizeof(x)), t}; }
static const hxhim_data_t BYTES[] = {HXHIM_DATA_BYTE, HXHIM_DATA_POINTER};
static Val numeric() {
    const int k = H::rnd(4);
    const int64_t small = (int64_t) H::rnd(41) - 20, big = (int64_t) H::rnd();
    const int64_t x = k == 0 ? big : k == 1 ? (int64_t) H::rnd(2000000) - 1000000 : small;
    switch (H::rnd(6)) {
        case 0: return num<int32_t>((int32_t) x, HXHIM_DATA_INT32);
        case 1: return num<int64_t>(x, HXHIM_DATA_INT64);
        case 2: return num<uint32_t>((uint32_t) x, HXHIM_DATA_UINT32);
        case 3: return num<uint64_t>((uint64_t) x, HXHIM_DATA_UINT64);
        case 4: return num<float>(small * 0.25f, HXHIM_DATA_FLOAT);      // exact at the encoding's precision
        default: return num<double>(small * 0.125, HXHIM_DATA_DOUBLE);
    }
}
// alphabet 'style': few letters so that values are prefixes of each other; extremes 00 and ff
static Val bytes(size_t max = 4) {
    Val v; v.t = BYTES[H::chance(15)];
    const size_t n = H::chance(3) ? H::range(200, 3000) : H::range(0, max);
    const int style = H::rnd(4);
    for (size_t i = 0; i < n; i++) v.b += style == 0 ? (char) 0xff : style == 1 ? (char) H::rnd(2) : style == 2 ? (char) H::range('a', 'b') : "\xff/0:9a"[H::rnd(6)];
    return v;
}
static Val value(size_t max = 4) { return H::chance(35) ? numeric() : bytes(max); }
// a blob the request may hold: a reference to harness memory that lives as long as keep does
typedef std::vector<std::string *> Keep;
static Blob ref(Keep &keep, const Val &v) { std::string *s = new std::string(v.b); s->reserve(1); keep.push_back(s); return ReferenceBlob(&(*s)[0], s->size(), v.t); }
static void drop(Keep &k) { for (auto s : k) delete s; k.clear(); }
// floating point numbers come back within the precision of their encoding
template <typename T> static bool near(const void *a, const void *b, double tol) { T x, y; memcpy(&x, a, sizeof(T)); memcpy(&y, b, sizeof(T)); return x == y || std::fabs((double) x - (double) y) <= tol * std::fabs((double) x); }
static bool same(const Blob &b, const Val &v) {
    if (b.data_type() == v.t && b.size() == v.b.size() && b.data() && v.t == HXHIM_DATA_FLOAT && v.b.size() == 4) return near<float>(b.data(), v.b.data(), 1e-6);
    if (b.data_type() == v.t && b.size() == v.b.size() && b.data() && v.t == HXHIM_DATA_DOUBLE && v.b.size() == 8) return near<double>(b.data(), v.b.data(), 1e-13);
    return b.data_type() == v.t && b.size() == v.b.size() && (!b.size() || (b.data() && !memcmp(b.data(), v.b.data(), v.b.size())));
}
static std::string show(const Blob &b) { return show(Val{std::string((char *) b.data(), b.data() ? b.size() : 0), b.data_type()}); }

// bytes of a value in a key, and the key of a pair
static ::Datastore::Transform::Callbacks *cbs() { static auto *c = ::Datastore::Transform::default_callbacks(); return c; }
static bool encoded(const Val &v, std::string &out) {
    auto it = cbs()->encode.find(v.t);
    if (it == cbs()->encode.end()) return false;
    if (!it->second.first) { out = v.b; return true; }
    if (v.b.empty()) return false;
    void *p = nullptr; size_t n = 0; std::string c(v.b);
    if (it->second.first(&c[0], c.size(), &p, &n, it->second.second) != DATASTORE_SUCCESS) return false;
    out.assign((char *) p, n); dealloc(p);
    return true;
}
static bool key_of(const Val &s, const Val &p, std::string &out) {
    std::string es, ep;
    if (!encoded(s, es) || !encoded(p, ep)) return false;
    Blob key;
    if (sp_to_key(ReferenceBlob((void *) es.data(), es.size(), s.t), ReferenceBlob((void *) ep.data(), ep.size(), p.t), &key) != HXHIM_SUCCESS) return false;
    out.assign((char *) key.data(), key.size());
    return true;
}
struct Rec { Val s, p, o; };
typedef std::map<std::string, Rec> Model;      // ordered by key

static void put(::Datastore::Datastore &ds, Model &m, const std::vector<Rec> &rs, bool check = true) {
    Keep keep; Message::Request::BPut req(rs.size());
    req.src = H::rnd(5); req.dst = H::rnd(5);
    for (auto &r : rs) req.add(ref(keep, r.s), ref(keep, r.p), ref(keep, r.o));
    std::vector<void *> os(rs.size()), op(rs.size());
    for (size_t i = 0; i < rs.size(); i++) { os[i] = req.orig.subjects[i]; op[i] = req.orig.predicates[i]; if (H::chance(30)) { req.orig.subjects[i] = os[i] = (void *) (H::rnd() | 1); req.orig.predicates[i] = op[i] = (void *) (H::rnd() | 1); } }
    auto *res = ds.operate(&req);
    CHECK(res, "PUT gives no response");
    CHECK(res->count == rs.size(), "PUT: %zu entries for %zu requests", (size_t) res->count, rs.size());
    for (size_t i = 0; i < rs.size(); i++) {
        std::string k, eo;
        const bool ok = key_of(rs[i].s, rs[i].p, k) && encoded(rs[i].o, eo);
        CHECK(res->statuses[i] == (ok ? DATASTORE_SUCCESS : DATASTORE_ERROR), "PUT entry %zu has status %d, should%s succeed", i, res->statuses[i], ok ? "" : " not");
        CHECK(res->orig.subjects[i].data() == os[i] && res->orig.subjects[i].size() == rs[i].s.b.size() && res->orig.subjects[i].data_type() == rs[i].s.t, "PUT entry %zu: wrong subject reference", i);
        CHECK(res->orig.predicates[i].data() == op[i] && res->orig.predicates[i].size() == rs[i].p.b.size() && res->orig.predicates[i].data_type() == rs[i].p.t, "PUT entry %zu: wrong predicate reference", i);
        if (ok) m[k] = rs[i];
    }
    destruct(res); drop(keep);
}
static bool delete_absent = false;      // persistent stores do not say whether there was something to delete
static void del(::Datastore::Datastore &ds, Model &m, const std::vector<Pair> &ps) {
    Keep keep; Message::Request::BDelete req(ps.size());
    for (auto &r : ps) req.add(ref(keep, r.first), ref(keep, r.second));
    std::vector<void *> os(ps.size()), op(ps.size());
    for (size_t i = 0; i < ps.size(); i++) { os[i] = req.orig.subjects[i]; op[i] = req.orig.predicates[i]; }
    auto *res = ds.operate(&req);
    CHECK(res && res->count == ps.size(), "DELETE: wrong number of entries");
    for (size_t i = 0; i < ps.size(); i++) {
        std::string k;
        const bool ok = key_of(ps[i].first, ps[i].second, k) && (delete_absent || m.count(k));
        CHECK(res->statuses[i] == (ok ? DATASTORE_SUCCESS : DATASTORE_ERROR), "DELETE entry %zu (%s, %s) has status %d, should%s succeed", i, show(ps[i].first).c_str(), show(ps[i].second).c_str(), res->statuses[i], ok ? "" : " not");
        CHECK(res->orig.subjects[i].data() == os[i] && res->orig.subjects[i].size() == ps[i].first.b.size() && res->orig.subjects[i].data_type() == ps[i].first.t, "DELETE entry %zu: wrong subject reference", i);
        CHECK(res->orig.predicates[i].data() == op[i] && res->orig.predicates[i].size() == ps[i].second.b.size() && res->orig.predicates[i].data_type() == ps[i].second.t, "DELETE entry %zu: wrong predicate reference", i);
        if (ok) m.erase(k);
    }
    destruct(res); drop(keep);
}
static void get(::Datastore::Datastore &ds, Model &m, const std::vector<Pair> &ps) {
    Keep keep; Message::Request::BGet req(ps.size());
    for (auto &r : ps) req.add(ref(keep, r.first), ref(keep, r.second), (hxhim_data_t) H::range(1, 8));
    std::vector<void *> os(ps.size()), op(ps.size());
    for (size_t i = 0; i < ps.size(); i++) { os[i] = req.orig.subjects[i]; op[i] = req.orig.predicates[i]; }
    auto *res = ds.operate(&req);
    CHECK(res && res->count == ps.size(), "GET: wrong number of entries");
    for (size_t i = 0; i < ps.size(); i++) {
        std::string k;
        const bool ok = key_of(ps[i].first, ps[i].second, k) && m.count(k);
        CHECK(res->statuses[i] == (ok ? DATASTORE_SUCCESS : DATASTORE_ERROR), "GET entry %zu (%s, %s) has status %d, should%s succeed", i, show(ps[i].first).c_str(), show(ps[i].second).c_str(), res->statuses[i], ok ? "" : " not");
        CHECK(res->orig.subjects[i].data() == os[i] && res->orig.subjects[i].size() == ps[i].first.b.size() && res->orig.subjects[i].data_type() == ps[i].first.t, "GET entry %zu: wrong subject reference", i);
        CHECK(res->orig.predicates[i].data() == op[i] && res->orig.predicates[i].size() == ps[i].second.b.size() && res->orig.predicates[i].data_type() == ps[i].second.t, "GET entry %zu: wrong predicate reference", i);
        if (ok) CHECK(same(res->objects[i], m[k].o), "GET entry %zu (%s, %s) returns %s, the last object put is %s", i, show(ps[i].first).c_str(), show(ps[i].second).c_str(), show(res->objects[i]).c_str(), show(m[k].o).c_str());
    }
    destruct(res); drop(keep);
}
