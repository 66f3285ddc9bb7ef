#include "hist.hpp"

struct G { const char *name; HistogramBucketGenerator_t f; void *extra; };
static const G gens[] = {{"10_BUCKETS", histogram_n_buckets, (void *) 10}, {"3 buckets", histogram_n_buckets, (void *) 3}, {"SQUARE_ROOT_CHOICE", histogram_square_root_choice, nullptr},
    {"STURGES_FORMULA", histogram_sturges_formula, nullptr}, {"RICE_RULE", histogram_rice_rule, nullptr}, {"SCOTTS_NORMAL_REFERENCE_RULE", histogram_scotts_normal_reference_rule, nullptr},
    {"UNIFORM_LOG2", histogram_uniform_logn, (void *) 2}, {"UNIFORM_LOG10", histogram_uniform_logn, (void *) 10}};

int main() {
    H::init();
    while (H::time_left()) {
        Edges x; x.calls = 0; x.over = false; x.fail_first = H::chance(12) ? H::range(1, 3) : 0;
        const bool user = H::chance(70);
        const size_t ne = H::chance(20) ? 1 : H::range(1, 12);
        for (size_t i = 0; i < ne; i++) x.e.push_back(number());
        std::sort(x.e.begin(), x.e.end(), [](double a, double b) { return a < b; });
        const G &g = gens[H::rnd(sizeof(gens) / sizeof(*gens))];
        const size_t first_n = user ? (H::chance(15) ? 0 : H::range(1, 20)) : H::range(1, 20);
        std::string name = H::chance(10) ? "" : std::string("hist") + (char) H::rnd(256);
        std::string c = H::fmt("generator %s first_n %zu edges", user ? "user" : g.name, first_n);
        if (user) for (double e : x.e) c += H::fmt(" %.17g", e);
        if (user && x.fail_first) c += H::fmt(" (fails %d times)", x.fail_first);
        c += "; values";
        Hist h(::Histogram::Config{first_n, user ? user_gen : g.f, user ? (void *) &x : g.extra}, name);
        std::string got; h.get_name(got);
        H::begin(c);
        CHECK(got == name, "wrong name");
        std::vector<double> all; std::vector<double> edges; std::vector<size_t> want; bool generated = false; double ub = 0; bool any = false;
        const size_t total = H::range(0, 3 * first_n + 5);
        for (size_t i = 0; i <= total; i++) {
            // what is visible
            size_t fn = 99999, cs = 99999, size = 99999; double *cache = nullptr, *b = nullptr; size_t *n = nullptr;
            CHECK(h.get_cache(&fn, &cache, &cs) == HISTOGRAM_SUCCESS && fn == first_n, "wrong threshold");
            CHECK(cs == std::min(all.size(), first_n), "%zu cached values after %zu of %zu", cs, all.size(), first_n);
            for (size_t k = 0; k < cs; k++) CHECK(!memcmp(&cache[k], &all[k], 8), "cached value %zu is %.17g, not %.17g", k, cache[k], all[k]);
            CHECK(total_values(h) == all.size(), "wrong number of values");
            const int rc = h.get(&b, &n, &size);
            if (all.size() < first_n) CHECK(rc == HISTOGRAM_ERROR && !b && !n, "counts exposed before the threshold");
            if (generated) {
                CHECK(rc == HISTOGRAM_SUCCESS && b && n && size == edges.size(), "no counts");
                for (size_t k = 0; k < size; k++) {
                    CHECK(b[k] == edges[k], "edge %zu changed", k);
                    CHECK(n[k] == want[k], "bucket %zu (left edge %.17g) has count %zu, should be %zu", k, b[k], n[k], want[k]);
                }
                if (any) CHECK(b[size] == ub, "upper bound is %.17g, the greatest counted value is %.17g", b[size], ub);
            }
            if (i == total) break;
            double v = number();
            if (user && H::chance(25)) { v = x.e[H::rnd(ne)]; if (H::chance(40)) v = std::nextafter(v, H::chance(50) ? 1e308 : -1e308); }
            if (!user) v = H::chance(60) ? (double) H::rnd(1000) / 8 - 60 : H::chance(60) ? (double) H::rnd(4) / 8 : 7;
            c += H::fmt(" %.17g", v); H::begin(c);
            all.push_back(v);
            const int arc = h.add(v);
            if (all.size() < first_n) CHECK(arc == HISTOGRAM_SUCCESS, "add failed");
            std::vector<double> now;
            if (!generated && all.size() >= first_n && arc == HISTOGRAM_SUCCESS) {
                generated = true;
                CHECK(h.get(&b, &n, &size) == HISTOGRAM_SUCCESS && b && n && size, "no buckets");
                if (user) { edges = x.e; CHECK(x.seen.size() == first_n && std::equal(x.seen.begin(), x.seen.end(), all.begin(), [](double a, double b) { return !memcmp(&a, &b, 8); }), "buckets generated from other values than the first %zu", first_n); }
                else edges.assign(b, b + size);
                CHECK(size == edges.size(), "wrong number of buckets");
                if (!user) {
                    CHECK(std::is_sorted(edges.begin(), edges.end()), "generated edges are not ascending");
                    CHECK(edges[0] == *std::min_element(all.begin(), all.begin() + first_n), "first edge is not the smallest value");
                }
                want.assign(edges.size(), 0);
                now.assign(all.begin(), all.begin() + first_n);
                H::nontrivial++;
                if (all.size() > first_n) now.push_back(v);
            } else if (generated) { CHECK(arc == HISTOGRAM_SUCCESS, "add failed"); now.push_back(v); }
            else if (all.size() >= first_n) CHECK(user && x.calls <= x.fail_first, "bucket generation failed");
            for (double w : now) {
                if (w < edges[0]) continue;
                size_t k = 0; while (k + 1 < edges.size() && edges[k + 1] <= w) k++;
                want[k]++;
                if (!any || w > ub) { ub = w; any = true; }
            }
        }
    }
    return H::finish("random thresholds, bucket generators (random ascending edges, failing generators, and the predefined ones) and values at, next to and between edges, checked after every add against an exact count, under ASAN");
}
