#include "msg.hpp"
template <typename M> static void run(M *m, const MDesc &d, bool exact) {
    const size_t n = m->size(), slack = 64;
    // bytes written are those that are the same whatever was there before
    char *a = (char *) malloc(n + slack), *b = (char *) malloc(n + slack);
    memset(a, 0, n + slack); memset(b, 0xff, n + slack);
    void *pa = a, *pb = b; size_t sa = 0, sb = 0;
    CHECK(Message::Packer::pack(m, &pa, &sa) == MESSAGE_SUCCESS && pa == a, "serializing into a given buffer failed");
    CHECK(Message::Packer::pack(m, &pb, &sb) == MESSAGE_SUCCESS && pb == b, "serializing twice failed");
    CHECK(sa == n && sb == n, "the reported buffer size is %zu, the message reports %zu", sa, n);
    size_t w = 0; while (w < n + slack && a[w] == b[w]) w++;
    for (size_t i = w; i < n + slack; i++) CHECK(a[i] == 0 && (unsigned char) b[i] == 0xff, "byte %zu is written, byte %zu is not (reported size %zu)", i, w, n);
    CHECK(w <= n, "%zu bytes written, reported size is %zu", w, n);
    if (exact) CHECK(w == n, "%zu bytes written, reported size is %zu", w, n);
    // exact size, under ASAN: writing and reading stay inside
    void *c = nullptr; size_t sc = 0;
    CHECK(Message::Packer::pack(m, &c, &sc) == MESSAGE_SUCCESS && c && sc == n, "serializing failed");
    char *e = (char *) malloc(n); memcpy(e, c, n); dealloc(c);
    M *got = nullptr;
    CHECK(Message::Unpacker::unpack(&got, e, n) == MESSAGE_SUCCESS, "deserializing failed");
    mcheck(d, got);
    destruct(got); free(a); free(b); free(e);
    if (d.e.size()) H::nontrivial++;
}
int main() {
    H::init();
    while (H::time_left()) {
        Keep k; MDesc d;
        if (H::chance(40)) {
            Message::Request::Request *r = mreq(d, k);
            H::begin(mshow(d, true)); run(r, d, true); destruct(r);
        } else {
            const bool st = H::chance(50);
            Message::Response::Response *r = st ? msteal(d, k) : mres(d, k);
            H::begin((st ? "moved together: " : "") + mshow(d, false)); run(r, d, d.op != HXHIM_GETOP); destruct(r);
        }
        drop(k);
    }
    return H::finish("random requests and responses of every kind, built by adding or by moving entries of several responses together: extent of the bytes written compared with the reported size, and exact-size buffers under ASAN");
}
