#include "ds.hpp"
#include "datastore/LevelDB.hpp"
#include "datastore/RocksDB.hpp"
#include <filesystem>
#include <memory>

static std::vector<Val> pool;
static Val pick() { return H::chance(80) ? pool[H::rnd(pool.size())] : value(3); }
static bool numeric_type(hxhim_data_t t) { return t >= HXHIM_DATA_INT32 && t <= HXHIM_DATA_DOUBLE; }
static bool starts(const std::string &k, const std::string &p) { return k.compare(0, p.size(), p) == 0; }
struct Q { hxhim_getop_t op; Val s, p; size_t n; };
static const char *OPS[] = {"EQ", "NEXT", "PREV", "FIRST", "LAST", "LOWEST", "HIGHEST", "INVALID"};

// the records a query returns; false if it is an error
static bool expect(const Model &m, const Q &q, std::vector<Rec> &out) {
    std::string es, ep;
    const bool pair = q.op != HXHIM_GETOP_FIRST && q.op != HXHIM_GETOP_LAST;
    if (pair && !encoded(q.s, es)) return false;
    if (pair && !encoded(q.p, ep)) ep.clear();
    const std::string prefix = es + ep;
    auto fwd = [&](Model::const_iterator it, bool keep) { for (size_t i = 0; i < q.n && it != m.end() && (!keep || starts(it->first, prefix)); i++, ++it) out.push_back(it->second); };
    auto back = [&](Model::const_iterator it, bool keep) { for (size_t i = 0; i < q.n && (!keep || starts(it->first, prefix)); i++) { out.push_back(it->second); if (it == m.begin()) break; --it; } };
    switch (q.op) {
        case HXHIM_GETOP_EQ: { auto it = m.lower_bound(prefix); if (it == m.end() || !starts(it->first, prefix)) return false; out.push_back(it->second); return true; }
        case HXHIM_GETOP_NEXT: { auto it = m.lower_bound(prefix); if (it == m.end()) return false; fwd(it, false); return true; }
        case HXHIM_GETOP_PREV: { auto it = m.lower_bound(prefix); if (it == m.end()) return false; back(it, false); return true; }
        case HXHIM_GETOP_FIRST: if (m.empty()) return false; fwd(m.begin(), false); return true;
        case HXHIM_GETOP_LAST: if (m.empty()) return false; back(std::prev(m.end()), false); return true;
        case HXHIM_GETOP_LOWEST: {
            std::string seek = prefix;
            if (ep.empty() && numeric_type(q.p.t)) seek += cbs()->numeric_extra.neg;
            auto it = m.lower_bound(seek);
            if (it == m.end() || !starts(it->first, prefix)) return false;
            fwd(it, true); return true; }
        case HXHIM_GETOP_HIGHEST: {
            auto it = m.end();
            const bool n = ep.empty() && numeric_type(q.p.t);
            for (auto j = m.begin(); j != m.end(); ++j)
                if (starts(j->first, prefix) && (!n || (j->first.size() > prefix.size() && (unsigned char) j->first[prefix.size()] <= (unsigned char) cbs()->numeric_extra.pos))) it = j;
            // numbers only at the end: what lies below may be anything with the prefix
            if (it == m.end()) return false;
            back(it, true); return true; }
        default: return false;
    }
}

template <typename D> struct Open : D { using D::D; using D::callbacks; };
struct Store {
    std::unique_ptr<::Datastore::Datastore> ds; ::Datastore::Transform::Callbacks *callbacks; const char *kind;
    template <typename D> void set(D *d, const char *k) { ds.reset(d); callbacks = d->callbacks; kind = k; }
};
static char scratch[] = "./c12-XXXXXX";
static Store make() {
    static int n = 0;
    Store s; const int k = H::rnd(100);
    if (k < 40) s.set(new Open<InMem>(0, 0, nullptr), "in-memory");
    else if (k < 72) s.set(new Open<::Datastore::LevelDB>(0, 0, nullptr, true), "LevelDB");
    else s.set(new Open<::Datastore::RocksDB>(0, 0, nullptr, true), "RocksDB");
    CHECK(s.ds->Open(std::string(scratch) + "/" + std::to_string(n++)), "a new %s store cannot be opened", s.kind);
    return s;
}

int main() {
    H::init();
    if (!mkdtemp(scratch)) return 2;
    while (H::time_left()) {
        H::begin("new store");
        Store store = make();
        ::Datastore::Datastore &ds = *store.ds;
        delete_absent = store.kind[0] != 'i';
        Model m;
        pool.clear();
        const int np = H::range(2, 7);
        const int ff = H::chance(10) ? 100 : H::chance(25) ? 35 : 0;
        for (int i = 0; i < np; i++) { pool.push_back(H::chance(ff) ? Val{std::string(H::rnd(4), '\xff'), HXHIM_DATA_BYTE} : value(3));
            if (H::chance(30)) { Val v = pool.back(); v.t = (v.t == HXHIM_DATA_BYTE || v.t == HXHIM_DATA_POINTER) ? BYTES[v.t == HXHIM_DATA_BYTE] : HXHIM_DATA_BYTE; pool.push_back(v); }
            if (H::chance(20)) { Val v = numeric(); pool.push_back(v); pool.push_back(numeric()); } }
        std::vector<Rec> rs;
        std::string hist = H::fmt("%s store", store.kind);
        const size_t n = H::chance(10) ? 0 : H::range(1, 14);
        for (size_t k = 0; k < n; k++) { rs.push_back(Rec{pick(), pick(), value(8)}); hist += " " + show(rs.back().s) + "," + show(rs.back().p); }
        H::begin(hist);
        put(ds, m, rs);
        if (H::chance(30) && rs.size()) { std::vector<Pair> d; for (auto &r : rs) if (H::chance(H::chance(20) ? 100 : 30)) d.push_back(Pair(r.s, r.p)); del(ds, m, d); hist += " (some deleted)"; }
        // values of a type that has no decoder cannot be returned
        hxhim_data_t lost = HXHIM_DATA_INVALID;
        if (H::chance(15)) { lost = (hxhim_data_t) H::range(1, 8); store.callbacks->decode.erase(lost); hist += H::fmt(" (no decoder for type %d)", (int) lost); }
        for (int round = 0; round < (delete_absent ? 15 : 6); round++) {
            std::vector<Q> qs(H::range(1, 5));
            std::string c = hist + "; queries";
            for (auto &q : qs) {
                q.op = (hxhim_getop_t) H::rnd(H::chance(5) ? 8 : 7); q.s = pick(); q.p = pick(); q.n = H::chance(5) ? 0 : H::chance(60) ? H::range(1, 3) : H::range(3, 20);
                if (H::chance(25)) q.p = Val{"", (hxhim_data_t) H::range(1, 8)};
                if (H::chance(10)) q.s = Val{"", HXHIM_DATA_BYTE};
                if (H::chance(2)) q.s.t = HXHIM_DATA_INVALID;
                if (numeric_type(q.s.t) && q.s.b.empty()) q.s.t = HXHIM_DATA_BYTE;
                c += H::fmt(" %s(%s,%s)x%zu", OPS[q.op], show(q.s).c_str(), show(q.p).c_str(), q.n);
            }
            H::begin(c);
            Keep keep; Message::Request::BGetOp req(qs.size());
            for (auto &q : qs) {
                const bool none = q.op == HXHIM_GETOP_FIRST || q.op == HXHIM_GETOP_LAST;
                // an empty number has no bytes to point at
                req.add(none && H::chance(50) ? ReferenceBlob(nullptr, 0, HXHIM_DATA_BYTE) : ref(keep, q.s),
                        none && H::chance(50) ? ReferenceBlob(nullptr, 0, HXHIM_DATA_BYTE) : numeric_type(q.p.t) && q.p.b.empty() ? ReferenceBlob(nullptr, 0, q.p.t) : ref(keep, q.p),
                        (hxhim_data_t) H::range(1, 8), q.n, q.op);
            }
            auto *res = ds.operate(&req);
            CHECK(res && res->count == qs.size(), "GETOP: wrong number of entries");
            for (size_t i = 0; i < qs.size(); i++) {
                std::vector<Rec> w;
                bool ok = expect(m, qs[i], w);
                for (auto &r : w) if (lost != HXHIM_DATA_INVALID && (r.s.t == lost || r.p.t == lost || r.o.t == lost)) ok = false;
                CHECK(res->statuses[i] == (ok ? DATASTORE_SUCCESS : DATASTORE_ERROR), "entry %zu (%s) has status %d, should%s succeed", i, OPS[qs[i].op], res->statuses[i], ok ? "" : " not");
                if (!ok) continue;
                CHECK(res->num_recs[i] == w.size(), "entry %zu (%s) returns %zu records, should be %zu", i, OPS[qs[i].op], (size_t) res->num_recs[i], w.size());
                for (size_t j = 0; j < w.size(); j++) {
                    CHECK(same(res->subjects[i][j], w[j].s), "entry %zu (%s) record %zu: subject %s, should be %s", i, OPS[qs[i].op], j, show(res->subjects[i][j]).c_str(), show(w[j].s).c_str());
                    CHECK(same(res->predicates[i][j], w[j].p), "entry %zu (%s) record %zu: predicate %s, should be %s", i, OPS[qs[i].op], j, show(res->predicates[i][j]).c_str(), show(w[j].p).c_str());
                    CHECK(same(res->objects[i][j], w[j].o), "entry %zu (%s) record %zu: object %s, should be %s", i, OPS[qs[i].op], j, show(res->objects[i][j]).c_str(), show(w[j].o).c_str());
                }
                if (w.size() > 1) H::nontrivial++;
            }
            destruct(res); drop(keep);
        }
        const bool files = store.kind[0] != 'i';
        store.ds->Close();
        store.ds.reset();
        if (files) for (auto &e : std::filesystem::directory_iterator(scratch)) std::filesystem::remove_all(e.path());
    }
    std::filesystem::remove_all(scratch);
    return H::finish("random in-memory, LevelDB and RocksDB stores (shared prefixes, 0xff, numbers, empty stores, deletions) and bulk queries of every kind against a sorted reference model, under ASAN");
}
