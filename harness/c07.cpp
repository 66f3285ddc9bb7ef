#include "common.hpp"
#include "hxhim/hash.h"
#include "hxhim/private/hxhim.hpp"
#include <memory>

static const struct { const char *name; hxhim_hash_t f; bool data; } FS[] = {
    {"DatastoreZero", hxhim_hash_DatastoreZero, true}, {"RankModDatastores", hxhim_hash_RankModDatastores, false},
    {"SumModDatastores", hxhim_hash_SumModDatastores, true}, {"uthash_BER", hxhim_hash_uthash_BER, true},
    {"uthash_SAX", hxhim_hash_uthash_SAX, true}, {"uthash_FNV", hxhim_hash_uthash_FNV, true}, {"uthash_OAT", hxhim_hash_uthash_OAT, true},
    {"uthash_JEN", hxhim_hash_uthash_JEN, true}, {"uthash_SFH", hxhim_hash_uthash_SFH, true},
};
static const size_t NFS = sizeof(FS) / sizeof(*FS);
typedef std::vector<unsigned char> Bytes;

// the bytes in a heap block of their own, ending exactly at its end (an over-read is caught)
struct Placed {
    std::unique_ptr<unsigned char[]> b; unsigned char *p;
    Placed(const Bytes &v, size_t shift) : b(new unsigned char[v.size() + shift]), p(b.get() + shift) {
        for (size_t i = 0; i < shift; i++) b[i] = (unsigned char) H::rnd();
        if (v.size()) memcpy(p, v.data(), v.size());
    }
};

static Bytes bytes(size_t n, int style) {
    Bytes v(n);
    for (auto &c : v) c = style == 0 ? H::rnd() : style == 1 ? 0xff : style == 2 ? 0x80 | H::rnd(128) : style == 3 ? 0 : 'a' + H::rnd(26);
    return v;
}

static hxhim_t A, B;

static void set(hxhim_t &h, size_t count, int rank, int size) {
    h.p->range_server.datastores.total = count;
    h.p->bootstrap.rank = rank; h.p->bootstrap.size = size; h.p->bootstrap.comm = MPI_COMM_WORLD;
}

static void one(size_t k, const Bytes &s, const Bytes &p, size_t count, int rank) {
    H::begin(H::fmt("hash=%s datastores=%zu rank=%d subject[%zu]=%s predicate[%zu]=%s", FS[k].name, count, rank, s.size(), H::hex(s.data(), s.size()).c_str(), p.size(), H::hex(p.data(), p.size()).c_str()));
    H::nontrivial += s.size() && p.size();
    set(A, count, rank, rank + 1);
    Placed s0(s, 0), p0(p, 0);
    const int d = FS[k].f(&A, s0.p, s.size(), p0.p, p.size(), nullptr);
    CHECK(d >= 0 && (size_t) d < count, "destination %d", d);
    CHECK(!s.size() || !memcmp(s0.p, s.data(), s.size()), "subject was written");
    CHECK(!p.size() || !memcmp(p0.p, p.data(), p.size()), "predicate was written");
    CHECK(FS[k].f(&A, s0.p, s.size(), p0.p, p.size(), nullptr) == d, "second call differs from %d", d);
    A.p->hash.func = FS[k].f; A.p->hash.args = nullptr;
    CHECK(hxhim_hash(&A, s0.p, s.size(), p0.p, p.size()) == d, "hxhim_hash differs from %d", d);
    if (!FS[k].data) return;
    for (size_t sh = 0; sh < 8; sh++) {
        set(B, count, (int) H::rnd(1000), 1000);
        Placed s1(s, sh), p1(p, (sh * 3 + 1) % 8);
        const int e = FS[k].f(&B, s1.p, s.size(), p1.p, p.size(), nullptr);
        CHECK(e == d, "the same bytes at another address on another rank give %d, not %d", e, d);
    }
}

int main() {
    H::init();
    A.p = new hxhim_private_t; B.p = new hxhim_private_t;
    for (size_t k = 0; k < NFS; k++)
        for (size_t n = 0; n < 40; n++)
            for (int st = 0; st < 3; st++) {
                one(k, bytes(n, st), bytes(H::rnd(40), st), H::range(1, 100), H::rnd(50));
                one(k, bytes(H::rnd(40), st), bytes(n, st), H::range(1, 7), H::rnd(50));
            }
    for (size_t k = 0; k < NFS; k++) one(k, bytes(9000000, 1), bytes(3, 0), 7, 3);
    static const size_t counts[] = {1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 2147483647};
    while (H::time_left())
        one(H::rnd(NFS), bytes(H::rnd(H::chance(90) ? 50 : 5000), H::rnd(5)), bytes(H::rnd(H::chance(90) ? 50 : 5000), H::rnd(5)),
            H::chance(50) ? counts[H::rnd(10)] : H::range(1, 1000), H::chance(20) ? 2147483646 : H::rnd(10000));
    return H::finish("every hash function, key lengths 0..39 each and random up to 5000 bytes (one of 9 MB), 8 alignments each, random bytes incl. high bits; non-trivial: both parts non-empty");
}
