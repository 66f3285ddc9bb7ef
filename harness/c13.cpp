#include "queue.hpp"

int main() {
    H::init();
    while (H::time_left()) {
        const int total = H::range(1, 5);
        Session s(total, H::range(1, 7), H::chance(50) ? 0 : H::range(1, 400), H::chance(30) ? 20 : 0);
        Keep k;
        std::vector<Queued> want;
        std::string hist;
        const int n = H::range(1, 6);
        for (int i = 0; i < n; i++) {
            Op o = mkop(k, total, HXHIM_PUT);
            if (H::chance(10)) o.p = o.s;
            if (H::chance(5)) o.perm |= 0x40;                // an unknown flag asks for nothing
            if (!H::chance(10)) { o.sa = hold(k, o.s); o.pa = hold(k, o.p); }
            o.sa = hold(k, o.s); o.pa = hold(k, o.p); o.oa = hold(k, o.o);
            hist += show(o) + "; ";
            H::begin(H::fmt("%d datastores, limits %zu ops %zu bytes, %d%% rejected: ", total, (size_t) s.p.queues.max_per_request.ops, (size_t) s.p.queues.max_per_request.size, HREJ) + hist);
            bool ok; auto q = expand(o, ok);
            const size_t before = s.p.queues.puts.count;
            const bool viabulk = H::chance(25);
            const int rc = viabulk ? bulk(s, {o}) : issue(s, o);
            if (!viabulk) CHECK(rc == (ok ? HXHIM_SUCCESS : HXHIM_ERROR), "PUT returned %d, a triple was %s by the hash", rc, ok ? "not rejected" : "rejected");
            // which of the triples are queued, each at most once
            std::vector<Queued> now; size_t have = 0;
            each(s, HXHIM_PUT, [&](int, Message::Request::Request *r, size_t) { have += r->count; });
            CHECK(have == want.size() + q.size() || (!ok && have <= want.size() + q.size()), "%zu triples queued, expected %zu", have - want.size(), q.size());
            (void) before;
            // match every queued entry with one expected triple
            std::vector<Queued> rest = want; std::vector<Queued> mine = q; size_t taken = 0;
            each(s, HXHIM_PUT, [&](int d, Message::Request::Request *r, size_t) {
                for (size_t e = 0; e < r->count; e++) {
                    bool found = false;
                    for (size_t w = 0; w < rest.size() && !found; w++) if (rest[w].ds == d && matches(rest[w], r, e)) { rest.erase(rest.begin() + w); found = true; }
                    for (size_t w = 0; w < mine.size() && !found; w++) if (mine[w].ds == d && matches(mine[w], r, e)) { now.push_back(mine[w]); mine.erase(mine.begin() + w); found = true; taken++; }
                    CHECK(found, "queue of datastore %d holds %s, which no flag asked for", d, describe(r, e).c_str());
                }
            });
            CHECK(rest.empty(), "an earlier triple is gone: %s", show(rest[0]).c_str());
            CHECK(!ok || mine.empty(), "not queued: %s", show(mine[0]).c_str());
            want.insert(want.end(), now.begin(), now.end());
            if (q.size() > 1) H::nontrivial++;
        }
        drop(k);
    }
    return H::finish("sequences of PUTs (single, bulk, typed) with any flags, 1-5 datastores, random hash, sometimes rejecting");
}
