#include "ds.hpp"

static int one_bucket(const double *, const size_t, double **b, size_t *n, void *) { *n = 1; *b = alloc_array<double>(2); (*b)[0] = -1e300; return HISTOGRAM_SUCCESS; }
// every value a histogram got is in its (never filled) cache; another kind counts
struct Ref { ::Histogram::Histogram *h; bool counting; size_t first_n; std::vector<double> got; };
typedef std::map<std::string, Ref> Refs;

static void check(InMem &ds, Refs &refs) {
    for (auto &r : refs) {
        ::Histogram::Histogram *h = nullptr;
        CHECK(ds.GetHistogram(r.first, &h) == DATASTORE_SUCCESS && h == r.second.h, "the histogram %s is gone", H::hex(r.first.data(), r.first.size()).c_str());
        size_t fn = 0, n = 0; double *c = nullptr;
        h->get_cache(&fn, &c, &n);
        const size_t all = r.second.got.size();
        CHECK(n == std::min(all, r.second.first_n), "histogram '%s' has %zu cached values, should have %zu", H::hex(r.first.data(), r.first.size()).c_str(), n, std::min(all, r.second.first_n));
        for (size_t i = 0; i < n; i++) CHECK(!memcmp(&c[i], &r.second.got[i], 8), "value %zu is %.17g, put was %.17g", i, c[i], r.second.got[i]);
        if (r.second.counting && all >= r.second.first_n && all) {
            double *b; size_t *k, s;
            CHECK(h->get(&b, &k, &s) == HISTOGRAM_SUCCESS && s == 1 && k[0] == all, "histogram counted %zu values, should be %zu", (size_t) k[0], all);
        }
    }
}
int main() {
    H::init();
    std::vector<std::string> names = {"", "a", "ab", std::string("a\0b", 3), std::string("a\0c", 3), "\xff", std::string(300, 'x'), "HISTOGRAM", std::string("\0", 1)};
    while (H::time_left()) {
        H::begin("new store");
        InMem ds(0, 0, nullptr); CHECK(ds.Open(), "the store does not open");
        Model m; Refs refs;
        std::string hist = "histograms";
        const int nh = H::chance(10) ? 0 : H::range(1, 4);
        for (int i = 0; i < nh; i++) {
            const std::string n = names[H::rnd(names.size())];
            const bool counting = H::chance(50); const size_t fn = counting ? H::range(1, 4) : 1000000 / 1000;
            ::Histogram::Config cfg{fn, one_bucket, nullptr};
            ::Histogram::Histogram *h = nullptr;
            if (H::chance(50)) { h = construct<::Histogram::Histogram>(cfg, n); CHECK(ds.AddHistogram(n, h) == DATASTORE_SUCCESS, "AddHistogram failed"); }
            else { CHECK(ds.AddHistogram(n, cfg) == DATASTORE_SUCCESS && ds.GetHistogram(n, &h) == DATASTORE_SUCCESS, "AddHistogram failed"); }
            std::string rn; h->get_name(rn); CHECK(rn == n, "the histogram has another name");
            refs[n] = Ref{h, counting, fn, {}};
            hist += " " + H::hex(n.data(), std::min<size_t>(n.size(), 8)) + H::fmt("(%zu)", n.size());
        }
        const int steps = H::range(1, 10);
        for (int st = 0; st < steps; st++) {
            const int op = H::rnd(10);
            const size_t n = H::chance(5) ? 0 : H::chance(5) ? H::range(7, 40) : H::range(1, 6);
            std::vector<Rec> rs; std::vector<Pair> ps;
            for (size_t i = 0; i < n; i++) {
                Rec r{value(3), value(3), value(6)};
                if (H::chance(80)) { r.p.b = names[H::rnd(names.size())]; r.p.t = H::chance(80) ? HXHIM_DATA_BYTE : HXHIM_DATA_POINTER; if (H::chance(10)) r.p.b.push_back(0); }
                if (H::chance(5)) r.p.t = HXHIM_DATA_INVALID;
                if (H::chance(5)) r.s.t = HXHIM_DATA_MAX_KNOWN;
                if (H::chance(70)) r.o = H::chance(50) ? num<float>((float) ((double) H::rnd(1000) / 7 - 50), HXHIM_DATA_FLOAT) : num<double>((double) H::rnd(1000) / 7 - 50, HXHIM_DATA_DOUBLE);
                if (H::chance(5) && rs.size()) r.p = rs[0].p, r.s = rs[0].s;
                rs.push_back(r); ps.push_back(Pair(r.s, r.p));
            }
            hist += op < 6 ? "; put" : op < 7 ? "; get" : op < 8 ? "; delete" : "; query";
            if (op < 8) for (auto &r : rs) hist += " " + show(r.s) + "," + show(r.p) + (op < 6 ? "=" + show(r.o) : "");
            H::begin(hist);
            if (op < 6) {
                put(ds, m, rs);
                for (auto &r : rs) {
                    std::string k, eo;
                    if (!key_of(r.s, r.p, k) || !encoded(r.o, eo) || r.p.t != HXHIM_DATA_BYTE) continue;
                    auto it = refs.find(r.p.b); if (it == refs.end()) continue;
                    if (r.o.t == HXHIM_DATA_FLOAT) { float f; memcpy(&f, r.o.b.data(), 4); it->second.got.push_back(f); H::nontrivial++; }
                    if (r.o.t == HXHIM_DATA_DOUBLE) { double d; memcpy(&d, r.o.b.data(), 8); it->second.got.push_back(d); H::nontrivial++; }
                }
            } else if (op < 7) get(ds, m, ps);
            else if (op < 8) del(ds, m, ps);
            else {
                Keep keep; std::vector<std::string> q;
                Message::Request::BHistogram req(n);
                for (size_t i = 0; i < n; i++) {
                    std::string w = names[H::rnd(names.size())]; if (H::chance(15)) w += (char) H::rnd(2);
                    q.push_back(w); hist += " " + H::hex(w.data(), std::min<size_t>(w.size(), 8));
                    req.add(ref(keep, Val{w, H::chance(80) ? HXHIM_DATA_BYTE : HXHIM_DATA_POINTER}));
                }
                H::begin(hist);
                auto *res = ds.operate(&req);
                CHECK(res && res->count == n, "query: wrong number of entries");
                for (size_t i = 0; i < n; i++) {
                    auto it = refs.find(q[i]);
                    CHECK(res->statuses[i] == (it != refs.end() ? DATASTORE_SUCCESS : DATASTORE_ERROR), "query entry %zu has status %d", i, res->statuses[i]);
                    CHECK(res->histograms[i].get() == (it != refs.end() ? it->second.h : nullptr), "query entry %zu refers to another histogram", i);
                }
                destruct(res); drop(keep);
            }
            check(ds, refs);
        }
    }
    return H::finish("random histories of bulk PUT/GET/DELETE/HISTOGRAM requests on stores with random histograms (names with embedded zero bytes, empty, long, byte and pointer types; failing entries), every histogram's values checked after every operation, under ASAN");
}
