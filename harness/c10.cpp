#include "common.hpp"
#include "utils/Blob.hpp"
#include "utils/memory.hpp"
#include <memory>
extern "C" int __sanitizer_get_ownership(const volatile void *p);

// a heap buffer as the model sees it
struct Buf { char *p; std::vector<char> bytes; bool live; };
// what a value object should look like
struct Model { int buf = -1; const char *raw = nullptr; size_t len = 0; int type = HXHIM_DATA_INVALID; bool own = false; };

static std::vector<Buf> bufs;
static const int N = 4;

static bool live(const void *p) { return __sanitizer_get_ownership(p) != 0; }
static hxhim_data_t rtype() { return (hxhim_data_t) H::range(1, 9); }

static int new_buf(size_t n) {
    Buf b; b.p = (char *) ::alloc(n); b.live = n > 0;
    for (size_t i = 0; i < n; i++) { b.bytes.push_back((char) H::rnd()); b.p[i] = b.bytes[i]; }
    bufs.push_back(b); return (int) bufs.size() - 1;
}
static int adopt(Blob &b, const std::vector<char> &want) {
    Buf x; x.p = (char *) b.data(); x.bytes = want; x.live = !want.empty(); bufs.push_back(x); return (int) bufs.size() - 1;
}
static void release(Model &m) { if (m.own && m.buf >= 0) bufs[m.buf].live = false; m = Model(); }

static void check(Blob **b, Model *m, const char *op) {
    for (int i = 0; i < N; i++) {
        const char *p = m[i].buf >= 0 ? bufs[m[i].buf].p : m[i].raw;
        CHECK(b[i]->data() == p, "after %s: object %d points at %p, expected %p", op, i, b[i]->data(), p);
        CHECK(b[i]->size() == m[i].len, "after %s: object %d has length %zu, expected %zu", op, i, b[i]->size(), m[i].len);
        CHECK((int) b[i]->data_type() == m[i].type, "after %s: object %d has type %d, expected %d", op, i, (int) b[i]->data_type(), m[i].type);
        CHECK(b[i]->will_clean() == m[i].own, "after %s: object %d ownership is %d", op, i, (int) b[i]->will_clean());
    }
    for (size_t k = 0; k < bufs.size(); k++) {
        if (!bufs[k].p) continue;
        CHECK(live(bufs[k].p) == bufs[k].live, "after %s: buffer %zu is %s", op, k, bufs[k].live ? "released but still owned" : "leaked (not released)");
        if (bufs[k].live && bufs[k].bytes.size()) CHECK(!memcmp(bufs[k].p, bufs[k].bytes.data(), bufs[k].bytes.size()), "after %s: buffer %zu changed", op, k);
    }
}

static void run(int steps) {
    for (auto &b : bufs) if (b.live) ::dealloc(b.p);
    bufs.clear();
    const uint64_t s0 = H::state;
    H::begin(H::fmt("sequence of %d operations on %d value objects, generator state %llx", steps, N, (unsigned long long) s0));
    std::string log;
    Blob *b[N]; Model m[N];
    for (int i = 0; i < N; i++) b[i] = new Blob();
    for (int s = 0; s < steps; s++) {
        const int i = H::rnd(N), j = H::rnd(N);
        const int op = H::rnd(15);
        const size_t n = H::chance(15) ? 0 : H::range(1, 40);
        const char *name = "?";
        switch (op) {
            case 0: { // destroy, construct owner
                name = "construct(owner)"; delete b[i]; release(m[i]);
                int k = new_buf(n); hxhim_data_t t = rtype(); b[i] = new Blob(bufs[k].p, n, t, true);
                m[i].buf = k; m[i].len = n; m[i].type = t; m[i].own = true; break; }
            case 1: { name = "RealBlob(ptr)"; delete b[i]; release(m[i]);
                int k = new_buf(n); hxhim_data_t t = rtype(); b[i] = new Blob(RealBlob(bufs[k].p, n, t));
                m[i].buf = k; m[i].len = n; m[i].type = t; m[i].own = true; break; }
            case 2: { name = "RealBlob(copy)"; delete b[i]; release(m[i]);
                int k = new_buf(n ? n : 1); hxhim_data_t t = rtype(); b[i] = new Blob(RealBlob(n, bufs[k].p, t));
                std::vector<char> v(bufs[k].bytes.begin(), bufs[k].bytes.begin() + n); ::dealloc(bufs[k].p); bufs[k].live = false; bufs[k].p = nullptr;
                CHECK(!n || !memcmp(b[i]->data(), v.data(), n), "RealBlob(copy): bytes differ");
                m[i].buf = adopt(*b[i], v); m[i].len = n; m[i].type = t; m[i].own = true; break; }
            case 3: { name = "copy construct"; Blob *x = new Blob(*b[j]); Model y = m[j]; y.own = false; delete b[i];
                if (i == j) { release(m[i]); delete x; b[i] = new Blob(); break; }
                release(m[i]); b[i] = x; m[i] = y; break; }
            case 4: { name = "move construct"; Blob *x = new Blob(std::move(*b[j])); Model y = m[j]; m[j] = Model();
                delete b[i]; if (i != j) release(m[i]); b[i] = x; m[i] = y; break; }
            case 5: { name = i == j ? "self assign" : "copy assign"; *b[i] = *b[j]; if (i != j) { Model y = m[j]; y.own = false; release(m[i]); m[i] = y; } break; }
            case 6: { name = i == j ? "self move" : "move assign"; *b[i] = std::move(*b[j]); if (i != j) { Model y = m[j]; release(m[i]); m[i] = y; m[j] = Model(); } break; }
            case 7: { name = "dealloc"; b[i]->dealloc(); release(m[i]); break; }
            case 8: { name = "reference"; hxhim_data_t t = rtype(); Model y; y.raw = "static bytes"; y.len = 12; y.type = t; *b[i] = ReferenceBlob((void *) y.raw, 12, t); release(m[i]); m[i] = y; break; }
            case 9: case 10: { // unpack a copy / a view
                name = op == 9 ? "unpack" : "unpack(no copy)";
                static std::vector<std::unique_ptr<char[]> > keep; if (keep.size() > 2000) keep.clear();
                const bool ty = H::chance(50); std::vector<char> v(n); for (auto &c : v) c = (char) H::rnd();
                hxhim_data_t t = rtype(); Blob src(v.data(), n, t); const size_t sz = src.pack_size(ty); char *buf = new char[sz + 1]; char *cur = buf;
                if (n) { CHECK(src.pack(cur, ty) == buf + sz && cur == buf + sz, "pack wrote %zd of %zu bytes", cur - buf, sz); }
                else { Blob e(buf, 0, t); CHECK(e.pack(cur, ty) == buf + sz, "pack of an empty value"); }
                cur = buf; CHECK(b[i]->unpack(cur, ty, op == 9) == buf + sz && cur == buf + sz, "unpack read %zd of %zu bytes", cur - buf, sz);
                const int told = m[i].type; release(m[i]); m[i].len = n; m[i].type = ty ? t : told; m[i].own = op == 9;
                CHECK(!n || !memcmp(b[i]->data(), v.data(), n), "unpacked bytes differ");
                if (op == 9) { m[i].buf = adopt(*b[i], v); delete[] buf; } else { m[i].raw = buf + 8; keep.emplace_back(buf); }
                break; }
            case 11: { name = "unpack_ref"; const bool ty = H::chance(50); char *buf = new char[64]; char *cur = buf; hxhim_data_t t = rtype();
                Blob src((void *) "refd bytes", 10, t); const size_t sz = src.pack_ref_size(ty); CHECK(src.pack_ref(cur, ty) == buf + sz, "pack_ref");
                cur = buf; CHECK(b[i]->unpack_ref(cur, ty) == buf + sz, "unpack_ref"); delete[] buf;
                const int told = m[i].type; release(m[i]); m[i].raw = (const char *) src.data(); m[i].len = 10; m[i].type = ty ? t : told; break; }
            case 12: { name = "set_type"; hxhim_data_t t = rtype(); CHECK((int) b[i]->set_type(t) == m[i].type, "set_type result"); m[i].type = t; break; }
            case 13: { name = "set_clean(hand over)"; // ownership given up, then taken again by another object
                if (m[i].own && i != j) { CHECK(b[i]->set_clean(false), "set_clean result"); *b[j] = RealBlob(b[i]->data(), b[i]->size(), b[i]->data_type());
                    Model y = m[i]; release(m[j]); m[j] = y; m[i].own = false; } break; }
            case 14: { name = "array"; const size_t c = H::rnd(4); Blob *a = alloc_array<Blob>(c); size_t before = bufs.size();
                for (size_t k = 0; k < c; k++) { int q = new_buf(H::range(1, 8)); a[k] = RealBlob(bufs[q].p, bufs[q].bytes.size(), rtype()); }
                if (c && m[i].own) { bufs[before].live = false; Model y = m[i]; a[0] = std::move(*b[i]); m[i] = Model(); if (y.buf >= 0) bufs[y.buf].live = false; }
                dealloc_array(a, c); for (size_t k = before; k < bufs.size(); k++) bufs[k].live = false; break; }
        }
        log += H::fmt(" %s(%d,%d)", name, i, j);
        H::current = H::fmt("operations:%s", log.size() > 3000 ? log.c_str() + log.size() - 3000 : log.c_str());
        check(b, m, name);
        H::nontrivial += i == j || m[i].own;
    }
    for (int i = 0; i < N; i++) { delete b[i]; release(m[i]); b[i] = new Blob(); }
    check(b, m, "destroying everything");
    for (int i = 0; i < N; i++) delete b[i];
}

int main() {
    H::init();
    for (int k = 0; k < 500; k++) run(6);
    while (H::time_left()) run(H::range(5, 60));
    return H::finish("random sequences of up to 60 construct/copy/move/assign/self-assign/unpack/dealloc/array operations on 4 objects against an ownership model, liveness of each buffer asked of the address sanitizer after each operation");
}
