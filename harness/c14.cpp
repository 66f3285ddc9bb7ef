#include "queue.hpp"

int main() {
    H::init();
    while (H::time_left()) {
        const int total = H::range(1, 5);
        Session s(total, H::chance(20) ? 1 : H::range(1, 9), H::chance(40) ? 0 : H::chance(15) ? H::range(1, 60) : H::range(60, 900), H::chance(20) ? 15 : 0);
        const size_t ops = s.p.queues.max_per_request.ops, size = s.p.queues.max_per_request.size;
        Keep k;
        std::vector<Queued> want[5];
        std::string hist = H::fmt("%d datastores, limits %zu ops %zu bytes, %d%% rejected: ", total, ops, size, HREJ);
        const int n = H::range(1, H::chance(10) ? 60 : 14), only = H::chance(60) ? (int) OPS[H::rnd(5)] : -1;
        for (int i = 0; i < n; i++) {
            std::vector<Op> os;
            const int c = H::chance(70) ? 1 : H::range(1, 6);
            for (int j = 0; j < c; j++) { os.push_back(mkop(k, total, j ? (int) os[0].op : only)); if (j && H::chance(50)) os.back().t = os[0].t; }
            for (auto &o : os) {
                if (H::chance(70)) o.perm = HXHIM_PUT_SPO;
                hist += show(o) + "; ";
                bool ok; auto q = expand(o, ok);
                // what a rejected triple does to the later ones of the same PUT is not stated
                if (!ok && o.op == HXHIM_PUT) { o.perm = HXHIM_PUT_SPO; q = expand(o, ok); }
                const int w = o.op == HXHIM_PUT ? 0 : o.op == HXHIM_GET ? 1 : o.op == HXHIM_GETOP ? 2 : o.op == HXHIM_DELETE ? 3 : 4;
                want[w].insert(want[w].end(), q.begin(), q.end());
            }
            H::begin(hist);
            if (c == 1 && H::chance(60)) issue(s, os[0]); else bulk(s, os);
        }
        H::begin(hist);
        for (int w = 0; w < 5; w++) {
            const hxhim_op_t op = OPS[w];
            std::vector<std::vector<Queued>> by(total);
            for (auto &q : want[w]) by[q.ds].push_back(q);
            std::vector<size_t> pos(total, 0);
            size_t batches = 0;
            each(s, op, [&](int d, Message::Request::Request *r, size_t nth) {
                batches++;
                CHECK(r && r->op == op, "batch of another operation");
                CHECK(r->count >= 1, "empty batch for datastore %d", d);
                CHECK(r->count <= ops, "batch %zu for datastore %d holds %zu operations", nth, d, (size_t) r->count);
                CHECK(!size || r->count < 2 || r->size() <= size, "batch %zu for datastore %d holds %zu operations in %zu bytes", nth, d, (size_t) r->count, (size_t) r->size());
                // its bytes are what the packer writes
                void *buf = nullptr; size_t len = 0;
                CHECK(Message::Packer::pack(r, &buf, &len) == MESSAGE_SUCCESS && (!size || r->count < 2 || len <= size), "batch packs into %zu bytes", len);
                dealloc(buf);
                for (size_t e = 0; e < r->count; e++) {
                    CHECK(pos[d] < by[d].size(), "datastore %d: more operations queued than issued: %s", d, describe(r, e).c_str());
                    CHECK(matches(by[d][pos[d]], r, e), "datastore %d, operation %zu (batch %zu entry %zu) is %s, expected %s", d, pos[d], nth, e, describe(r, e).c_str(), show(by[d][pos[d]]).c_str());
                    pos[d]++;
                }
            });
            for (int d = 0; d < total; d++) CHECK(pos[d] == by[d].size(), "datastore %d: %zu of %zu operations queued; missing %s", d, pos[d], by[d].size(), show(by[d][pos[d]]).c_str());
            if (batches > 1) H::nontrivial++;
        }
        drop(k);
    }
    return H::finish("sequences of single, bulk and typed operations of all kinds, 1-5 datastores, limits from one operation or one byte up");
}
