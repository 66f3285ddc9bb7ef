#include "common.hpp"
#include "datastore/InMemory.hpp"
#include "datastore/triplestore.hpp"
#include "utils/Blob.hpp"
#include "utils/memory.hpp"
#include <map>

typedef ::Datastore::InMemory InMem;
typedef ::Datastore::Datastore Base;
struct DS : public InMem {
    DS() : InMem(0, 0, nullptr) {}
    static Blob app(void *p, std::size_t n, hxhim_data_t t) { return Base::append_type(p, n, t); }
    static hxhim_data_t rem(void *p, std::size_t &n) { return Base::remove_type(p, n); }
};

struct V { std::string b; hxhim_data_t t; bool operator<(const V &o) const { return t != o.t ? t < o.t : b < o.b; } bool operator==(const V &o) const { return t == o.t && b == o.b; } };
static V value() {
    V v; v.t = (hxhim_data_t) H::rnd(HXHIM_DATA_MAX_KNOWN);
    size_t n = H::chance(20) ? 0 : H::chance(75) ? H::range(1, 12) : H::chance(80) ? H::range(13, 600) : H::range(1000, 70000);
    const int style = H::rnd(5);
    for (size_t i = 0; i < n; i++) v.b += style == 0 ? '\xff' : style == 1 ? '\0' : style == 2 ? (char) H::range('a', 'b') : (char) H::rnd();
    if (style == 4 && n > 3) { uint64_t k = H::rnd(n + 2); memcpy(&v.b[n - std::min<size_t>(n, 8)], &k, std::min<size_t>(n, 8)); }
    return v;
}
static std::string show(const V &v) { return H::fmt("type %d, %zu bytes %s", (int) v.t, v.b.size(), H::hex(v.b.data(), std::min<size_t>(v.b.size(), 40)).c_str()); }
static Blob *blob(const V &v, int how) {
    char *p = (char *) ::alloc(v.b.size());
    if (v.b.size()) memcpy(p, v.b.data(), v.b.size());
    (void) how;
    return new Blob(p, v.b.size(), v.t, true);
}
static bool same(const Blob &b, const V &v) { return b.size() == v.b.size() && b.data_type() == v.t && (!b.size() || !memcmp(b.data(), v.b.data(), b.size())); }

static std::map<std::string, std::pair<V, V> > seen;

static void one(const V &s, const V &p) {
    H::begin("subject " + show(s) + "; predicate " + show(p));
    Blob *sb = blob(s, 0), *pb = blob(p, 0);
    Blob key;
    int rc = sp_to_key(*sb, *pb, &key);
    CHECK(rc == HXHIM_SUCCESS, "sp_to_key returns %d", rc);
    CHECK(same(*sb, s) && same(*pb, p), "sp_to_key changed its arguments");
    CHECK(key.data() && key.will_clean(), "the key is not an owned buffer");
    std::string k((char *) key.data(), key.size());     // the whole key is readable
    delete sb; delete pb;                               // the key does not refer to its sources
    CHECK(k.substr(0, s.b.size() + p.b.size()) == s.b + p.b, "the key does not start with subject and predicate");
    for (int copy = 0; copy < 2; copy++) {
        // the key as the stores hold it: exactly sized
        char *raw = (char *) malloc(k.size()); memcpy(raw, k.data(), k.size());
        Blob x, y;
        if (H::chance(30)) { x = RealBlob(::alloc(5), 5, HXHIM_DATA_BYTE); y = RealBlob(::alloc(7), 7, HXHIM_DATA_BYTE); }
        Blob kb = ReferenceBlob(raw, k.size(), HXHIM_DATA_BYTE);
        rc = key_to_sp(kb, x, y, copy);
        CHECK(rc == HXHIM_SUCCESS, "key_to_sp returns %d", rc);
        CHECK(same(x, s), "subject comes back as %s (copy=%d)", show(V{std::string((char *) x.data(), x.size()), x.data_type()}).c_str(), copy);
        CHECK(same(y, p), "predicate comes back as %s (copy=%d)", show(V{std::string((char *) y.data(), y.size()), y.data_type()}).c_str(), copy);
        CHECK(!memcmp(raw, k.data(), k.size()), "key_to_sp changed the key");
        if (copy) { memset(raw, 0x5a, k.size()); free(raw); raw = nullptr;
            CHECK(same(x, s) && same(y, p), "copies change with the key");
            CHECK((x.will_clean() || !x.size()) && (y.will_clean() || !y.size()), "copies are not owned"); }
        else { CHECK(!x.will_clean() && !y.will_clean(), "references own memory"); }
        x.dealloc(); y.dealloc();
        free(raw);
    }
    auto f = seen.find(k);
    if (f != seen.end()) CHECK(f->second.first == s && f->second.second == p, "two different pairs have the key %s: %s; %s", H::hex(k.data(), k.size()).c_str(), show(f->second.first).c_str(), show(f->second.second).c_str());
    else { if (seen.size() > 20000) seen.clear(); if (k.size() < 40) seen[k] = std::make_pair(s, p); }
    if (s.b.size() && p.b.size()) H::nontrivial++;
}

// the same bytes cut at every place, with every type: all keys differ
static void cuts() {
    V v = value(); if (v.b.size() > 12) v.b.resize(12);
    for (size_t i = 0; i <= v.b.size(); i++) {
        V s{v.b.substr(0, i), (hxhim_data_t) H::rnd(HXHIM_DATA_MAX_KNOWN)}, p{v.b.substr(i), (hxhim_data_t) H::rnd(HXHIM_DATA_MAX_KNOWN)};
        one(s, p);
        V q = p; q.t = (hxhim_data_t) H::rnd(HXHIM_DATA_MAX_KNOWN); one(s, q);
        V r = s; r.t = (hxhim_data_t) H::rnd(HXHIM_DATA_MAX_KNOWN); one(r, p);
        std::swap(s.t, p.t); one(s, p);
    }
}

static void typed() {
    const V v = value();
    H::begin("stored value " + show(v));
    char *raw = (char *) malloc(v.b.size()); memcpy(raw, v.b.data(), v.b.size());
    Blob b = DS::app(raw, v.b.size(), v.t);
    CHECK(!memcmp(raw, v.b.data(), v.b.size()), "append_type changed its argument");
    free(raw);
    CHECK(b.will_clean(), "the typed value is not owned");
    std::string st((char *) b.data(), b.size());
    char *store = (char *) malloc(st.size()); memcpy(store, st.data(), st.size());
    size_t n = st.size();
    hxhim_data_t t = DS::rem(store, n);
    CHECK(t == v.t, "type %d comes back as %d", (int) v.t, (int) t);
    CHECK(n == v.b.size(), "length %zu comes back as %zu", v.b.size(), n);
    CHECK(!memcmp(store, v.b.data(), n), "bytes differ");
    CHECK(!memcmp(store, st.data(), st.size()), "remove_type changed the value");
    free(store);
}

int main() {
    H::init();
    while (H::time_left()) {
        for (int i = 0; i < 50; i++) { one(value(), value()); typed(); }
        cuts();
    }
    return H::finish("random and adversarial (0x00/0xff, shared bytes cut at every place, length-like tails) pairs and values: key round trip, copies and references, uniqueness of keys, type trailer round trip, under ASAN");
}
