#include "hist.hpp"

// a histogram in a random state
static Hist *make(Edges &x, std::string &c) {
    x.calls = 0; x.e.clear(); x.over = false;
    x.fail_first = H::chance(10) ? 100 : 0;
    const size_t ne = H::range(1, H::chance(10) ? 60 : 6), first_n = H::chance(15) ? 0 : H::range(1, 12);
    for (size_t i = 0; i < ne; i++) x.e.push_back(number());
    std::sort(x.e.begin(), x.e.end());
    std::string name; const size_t nl = H::chance(20) ? 0 : H::chance(5) ? 1000 : H::range(1, 40);
    for (size_t i = 0; i < nl; i++) name += (char) H::rnd(256);
    const bool dflt = H::chance(8);
    Hist *h = dflt ? new Hist() : new Hist(::Histogram::Config{first_n, user_gen, &x}, name);
    const size_t adds = dflt ? 0 : H::range(0, 2 * first_n + 3);
    for (size_t i = 0; i < adds; i++) h->add(number());
    c += H::fmt("(%s first_n %zu, %zu values, %zu buckets, name of %zu bytes%s)", dflt ? "default" : "", first_n, adds, ne, nl, x.fail_first ? ", generator fails" : "");
    return h;
}
static void same(Hist &a, Hist &b, const char *what) {
    std::string na, nb; a.get_name(na); b.get_name(nb);
    CHECK(na == nb, "%s: name differs", what);
    CHECK(total_values(a) == total_values(b), "%s: value count differs", what);
    size_t fa = 1, fb = 2, ca = 1, cb = 2; double *pa = nullptr, *pb = nullptr;
    a.get_cache(&fa, &pa, &ca); b.get_cache(&fb, &pb, &cb);
    CHECK(fa == fb, "%s: threshold differs", what);
    const size_t total = total_values(a);
    if (total < fa) {
        CHECK(ca == cb && ca == total, "%s: number of cached values differs", what);
        for (size_t i = 0; i < ca; i++) CHECK(!memcmp(&pa[i], &pb[i], 8), "%s: cached value %zu differs", what, i);
    } else
        for (size_t i = 0; i < cb; i++) CHECK(!memcmp(&pa[i], &pb[i], 8), "%s: cached value %zu differs", what, i);      // what is offered can be read
    double *ba = nullptr, *bb = nullptr; size_t *ka = nullptr, *kb = nullptr, sa = 0, sb = 0;
    const int ra = a.get(&ba, &ka, &sa), rb = b.get(&bb, &kb, &sb);
    CHECK(ra == rb && sa == sb, "%s: buckets differ", what);
    if (ra == HISTOGRAM_SUCCESS && sa) {
        for (size_t i = 0; i < sa; i++) { CHECK(!memcmp(&ba[i], &bb[i], 8), "%s: edge %zu differs", what, i); CHECK(ka[i] == kb[i], "%s: count %zu differs", what, i); }
        CHECK(!memcmp(&ba[sa], &bb[sa], 8), "%s: upper bound differs", what);
        H::nontrivial++;
    }
}
int main() {
    H::init();
    while (H::time_left()) {
        std::string c = "pack ";
        Edges xs, xd;
        Hist *s = make(xs, c);
        c += " into "; Hist *d = make(xd, c);
        if (H::chance(10)) { d->clear(); c += " cleared"; }
        const int way = H::rnd(3);
        c += way == 0 ? " allocated" : way == 1 ? " in place" : " in place with more behind";
        H::begin(c);
        const size_t n = s->pack_size();
        if (way == 0) {
            void *buf = nullptr; size_t size = 0;
            CHECK(s->pack(&buf, &size) && buf && size == n, "packed size is %zu, not %zu", size, n);
            CHECK(d->unpack(buf, size), "unpack failed");
            dealloc(buf);
        } else {
            const size_t extra = way == 1 ? 0 : H::range(1, 50);
            char *buf = (char *) malloc(n + extra); memset(buf, 0x5a, n + extra);
            char *curr = buf; size_t avail = n + extra, used = 12345;
            const bool want_used = H::chance(70);
            CHECK(s->pack(curr, avail, want_used ? &used : nullptr), "pack failed");
            CHECK(curr == buf + n, "packing advances by %zd, the packed size is %zu", curr - buf, n);
            CHECK(avail == extra, "packing leaves %zu bytes of %zu, the packed size is %zu", avail, n + extra, n);
            CHECK(!want_used || used == n, "packing reports %zu bytes used, not %zu", used, n);
            for (size_t i = n; i < n + extra; i++) CHECK((unsigned char) buf[i] == 0x5a, "packing writes behind its packed size");
            if (n) { char *c2 = buf; size_t a2 = n - 1; CHECK(!s->pack(c2, a2, nullptr) && c2 == buf && a2 == n - 1, "packing into too little space changes the arguments or succeeds"); memset(buf, 0x5a, n + extra); curr = buf; avail = n + extra; CHECK(s->pack(curr, avail, nullptr), "second pack failed"); }
            curr = buf; avail = n + extra; used = 777;
            CHECK(d->unpack(curr, avail, want_used ? &used : nullptr), "unpack failed");
            CHECK(curr == buf + n && avail == extra, "unpacking consumes %zd bytes and leaves %zu of %zu, the packed size is %zu", curr - buf, avail, n + extra, n);
            CHECK(!want_used || used == n, "unpacking reports %zu bytes used, not %zu", used, n);
            free(buf);
        }
        same(*s, *d, "after unpack");
        // an unpacked histogram goes on like the original (same generator)
        if (H::chance(50)) {
            Hist *e = new Hist(::Histogram::Config{3, user_gen, &xs}, "x");
            void *buf = nullptr; size_t size = 0;
            CHECK(s->pack(&buf, &size) && e->unpack(buf, size), "third pack failed");
            dealloc(buf);
            if (total_values(*s) && !xs.fail_first) for (int i = 0; i < 15; i++) { const double v = number(); s->add(v); e->add(v); }
            same(*s, *e, "after adding to both");
            delete e;
        }
        delete s; delete d;
    }
    return H::finish("random histograms in every state (empty, collecting, at the threshold, with buckets, failed generator) packed and unpacked into histograms in other random states, contents and cursors compared, under ASAN");
}
