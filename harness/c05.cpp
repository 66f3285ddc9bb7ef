#include "common.hpp"
#include "datastore/transform.hpp"
#include "utils/elen.hpp"
#include "utils/memory.hpp"
#include <algorithm>
#include <limits>
#include <set>

// unsigned char comparison, as datastores do it
static int cmp(const std::string &a, const std::string &b) {
    const size_t n = std::min(a.size(), b.size());
    const int c = n ? memcmp(a.data(), b.data(), n) : 0;
    return c ? c : (a.size() < b.size() ? -1 : a.size() > b.size());
}

template <typename T> std::string str(T v) { return std::to_string(v); }

template <typename T> T pick() {
    typedef typename std::make_unsigned<T>::type U;
    const int bits = sizeof(T) * 8;
    U v;
    switch (H::rnd(6)) {
        case 0: v = (U) H::rnd(); break;
        case 1: v = (U) (H::rnd() >> H::rnd(64)); break;
        case 2: { U p = 1; for (int k = H::rnd(20); k > 0; k--) p *= 10; v = p + (U) H::rnd(5) - 2; break; }
        case 3: v = (U) ((U) 1 << H::rnd(bits)) + (U) H::rnd(5) - 2; break;
        case 4: { U p = 0; const int d = H::range(1, 20); const int g = H::rnd(10); for (int k = 0; k < d; k++) p = p * 10 + g; v = p; break; }
        default: v = (U) H::rnd(1200); break;
    }
    if (std::is_signed<T>::value && H::chance(50)) v = (U) 0 - v;
    return (T) v;
}

static Datastore::Transform::Callbacks *cb;

template <typename T> std::string enc(T v, hxhim_data_t type, const char *name) {
    std::string e, e2;
    try { e = elen::encode::integers(v); }
    catch (const std::exception &x) { CHECK(false, "encoding %s %s throws %s", name, str(v).c_str(), x.what()); }
    T d = 0; bool ok = true; std::string why;
    try { d = elen::decode::integers<T>(e); } catch (const std::exception &x) { ok = false; why = x.what(); }
    CHECK(ok, "decoding \"%s\" of %s %s throws %s", e.c_str(), name, str(v).c_str(), why.c_str());
    CHECK(d == v, "%s %s encodes to \"%s\" which decodes to %s", name, str(v).c_str(), e.c_str(), str(d).c_str());
    // datastore callbacks
    void *p = nullptr; size_t n = 0; T copy = v;
    auto en = cb->encode.at(type);
    int rc = en.first(&copy, sizeof(copy), &p, &n, en.second);
    CHECK(rc == DATASTORE_SUCCESS && p, "encode callback failed on %s %s", name, str(v).c_str());
    e2.assign((char *) p, n);
    CHECK(e2 == e, "encode callback of %s %s gives \"%s\", expected \"%s\"", name, str(v).c_str(), e2.c_str(), e.c_str());
    void *q = nullptr; size_t m = 0; T d2 = 0; ok = true;
    auto de = cb->decode.at(type);
    try { rc = de.first(p, n, &q, &m, de.second); } catch (const std::exception &x) { ok = false; }
    CHECK(ok && rc == DATASTORE_SUCCESS && q, "decode callback failed on %s %s", name, str(v).c_str());
    CHECK(m == sizeof(T), "decode callback gives size %zu for %s", m, name);
    memcpy(&d2, q, sizeof(T));
    CHECK(d2 == v, "%s %s comes back from the callbacks as %s", name, str(v).c_str(), str(d2).c_str());
    ::dealloc(p); ::dealloc(q);
    return e;
}

template <typename T> void pair(T a, T b, hxhim_data_t type, const char *name) {
    H::begin(H::fmt("%s %s %s", name, str(a).c_str(), str(b).c_str()));
    const std::string x = enc(a, type, name), y = enc(b, type, name);
    const int c = cmp(x, y);
    CHECK((a < b) == (c < 0) && (a == b) == (c == 0), "%s %s and %s encode to \"%s\" and \"%s\", which sort %d", name, str(a).c_str(), str(b).c_str(), x.c_str(), y.c_str(), c);
    CHECK(lex_comp(x, y) == (a < b), "lex_comp disagrees on \"%s\" \"%s\"", x.c_str(), y.c_str());
    if (a != b) H::nontrivial++;
}

// every digit-count boundary and extreme against every other
template <typename T> void grid(hxhim_data_t type, const char *name) {
    typedef std::numeric_limits<T> L;
    std::set<T> s;
    for (int k = -2; k <= 2; k++) {
        s.insert((T) k);
        if (k >= 0) s.insert((T) (L::min() + k));
        if (k <= 0) s.insert((T) (L::max() + k));
    }
    typedef typename std::make_unsigned<T>::type U;
    U p = 1;
    for (int d = 0; d < 20; d++) {
        for (int k = -1; k <= 1; k++) {
            s.insert((T) (p + (U) k)); s.insert((T) ((U) 0 - (p + (U) k)));
            s.insert((T) (p * 5 + (U) k)); s.insert((T) ((U) 0 - (p * 9 + (U) k)));
        }
        p *= 10;
    }
    std::vector<T> v(s.begin(), s.end());
    for (size_t i = 0; i + 1 < v.size(); i++) { pair(v[i], v[i + 1], type, name); pair(v[i + 1], v[i], type, name); }
    for (size_t i = 0; i < v.size(); i += 3) for (size_t j = 0; j < v.size(); j += 5) pair(v[i], v[j], type, name);
}

template <typename T> void rand_pairs(hxhim_data_t type, const char *name) {
    T a = pick<T>();
    typedef typename std::make_unsigned<T>::type U;
    T b = H::chance(50) ? pick<T>() : (T) ((U) a + (U) H::rnd(21) - 10);
    pair(a, b, type, name);
}

int main() {
    H::init();
    cb = Datastore::Transform::default_callbacks();
    grid<int32_t>(HXHIM_DATA_INT32, "int32"); grid<uint32_t>(HXHIM_DATA_UINT32, "uint32");
    grid<int64_t>(HXHIM_DATA_INT64, "int64"); grid<uint64_t>(HXHIM_DATA_UINT64, "uint64");
    while (H::time_left()) {
        for (int i = 0; i < 50; i++) {
            rand_pairs<int32_t>(HXHIM_DATA_INT32, "int32"); rand_pairs<uint32_t>(HXHIM_DATA_UINT32, "uint32");
            rand_pairs<int64_t>(HXHIM_DATA_INT64, "int64"); rand_pairs<uint64_t>(HXHIM_DATA_UINT64, "uint64");
        }
    }
    return H::finish("pairs (a, b) of one type, encoded with elen and through the default transform callbacks; all digit-count boundaries and extremes, then random");
}
