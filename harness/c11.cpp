#include "ds.hpp"

static std::vector<Val> pool;
static Val pick(size_t max) { return H::chance(85) ? pool[H::rnd(pool.size())] : value(max); }

int main() {
    H::init();
    while (H::time_left()) {
        H::begin("new store");
        InMem ds(0, H::rnd(3), nullptr);
        CHECK(ds.Open() && ds.Usable(), "the store does not open");
        Model m;
        pool.clear();
        const int np = H::range(2, 7);
        for (int i = 0; i < np; i++) {
            pool.push_back(value(3));
            if (H::chance(30)) { Val v = pool.back(); v.t = (v.t == HXHIM_DATA_BYTE || v.t == HXHIM_DATA_POINTER) ? BYTES[v.t == HXHIM_DATA_BYTE] : HXHIM_DATA_BYTE; pool.push_back(v); }   // same bytes, other type
            if (H::chance(20)) { Val v = pool.back(); v.t = HXHIM_DATA_BYTE; encoded(pool.back(), v.b); pool.push_back(v); }     // bytes that look like an encoded number
            if (H::chance(4)) { Val v = bytes(); v.t = H::chance(50) ? HXHIM_DATA_INVALID : HXHIM_DATA_MAX_KNOWN; pool.push_back(v); }
        }
        std::string hist = "pool";
        for (auto &v : pool) hist += " " + show(v);
        const int steps = H::range(1, 14);
        for (int i = 0; i < steps; i++) {
            const size_t n = H::chance(10) ? 0 : H::range(1, 6);
            std::vector<Rec> rs; std::vector<Pair> ps;
            const int op = H::rnd(10);
            hist += op < 5 ? "; put" : op < 7 ? "; delete" : "; get";
            for (size_t k = 0; k < n; k++) {
                Rec r{pick(3), pick(3), H::chance(60) ? value(30) : pick(4)};
                hist += " " + show(r.s) + "," + show(r.p) + (op < 5 ? "=" + show(r.o) : "");
                rs.push_back(r); ps.push_back(Pair(r.s, r.p));
            }
            H::begin(hist);
            if (op < 5) put(ds, m, rs); else if (op < 7) del(ds, m, ps); else get(ds, m, ps);
            if (m.size()) H::nontrivial++;
        }
        std::vector<Pair> all;
        for (auto &a : pool) for (auto &b : pool) all.push_back(Pair(a, b));
        hist += "; get every pair of the pool"; H::begin(hist);
        get(ds, m, all);
    }
    return H::finish("random histories of bulk PUT/DELETE/GET over small pools of values (numbers of every type, bytes with shared prefixes, same bytes under other types, empty values, unknown types) against a reference map, under ASAN");
}
