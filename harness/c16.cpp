#include "queue.hpp"

// what a datastore was asked and what it answered, in order
struct Answer { Queued q; int status; std::vector<Rec> recs; std::shared_ptr<Hist> h; Val o; };
static std::vector<std::vector<Answer>> LOG;
static std::vector<size_t> BATCHES;
static Val val(const Blob &b) { return Val{std::string((char *) b.data(), b.data() ? b.size() : 0), b.data_type()}; }
static Keep *KEEP;
struct Store : public ::Datastore::Datastore {
    Store(int i) : ::Datastore::Datastore(0, i, nullptr), me(i) {}
    int me;
    bool OpenImpl(const std::string &) { return true; } void CloseImpl() {} bool UsableImpl() const { return true; }
    int WriteHistogramsImpl() { return DATASTORE_SUCCESS; } size_t ReadHistogramsImpl(const ::Datastore::HistNames_t &) { return 0; } int SyncImpl() { return DATASTORE_SUCCESS; }
    template <typename R> Queued base(R *r, size_t i) { Queued q{}; q.op = r->op; q.ds = me; q.s = val(r->subjects[i]); q.p = val(r->predicates[i]); q.sa = r->orig.subjects[i]; q.pa = r->orig.predicates[i]; return q; }
    int status() { return H::chance(70) ? DATASTORE_SUCCESS : DATASTORE_ERROR; }
    #define SR ReferenceBlob(r->orig.subjects[i], r->subjects[i].size(), r->subjects[i].data_type())
    #define PR ReferenceBlob(r->orig.predicates[i], r->predicates[i].size(), r->predicates[i].data_type())
    #define DONE out->src = r->dst; out->dst = r->src; return out
    Message::Response::BPut *BPutImpl(Message::Request::BPut *r) {
        auto *out = construct<Message::Response::BPut>(r->count); BATCHES[me]++;
        for (size_t i = 0; i < r->count; i++) { Answer a; a.q = base(r, i); a.q.o = val(r->objects[i]); a.status = status(); out->add(SR, PR, a.status); LOG[me].push_back(a); }
        DONE;
    }
    Message::Response::BGet *BGetImpl(Message::Request::BGet *r) {
        auto *out = construct<Message::Response::BGet>(r->count); BATCHES[me]++;
        for (size_t i = 0; i < r->count; i++) { Answer a; a.q = base(r, i); a.q.t = r->object_types[i]; a.status = status(); a.o = value(); out->add(SR, PR, a.status == DATASTORE_SUCCESS ? ref(*KEEP, a.o) : Blob(), a.status); LOG[me].push_back(a); }
        DONE;
    }
    Message::Response::BGetOp *BGetOpImpl(Message::Request::BGetOp *r) {
        auto *out = construct<Message::Response::BGetOp>(r->count); BATCHES[me]++;
        for (size_t i = 0; i < r->count; i++) {
            Answer a; a.q = base(r, i); a.q.t = r->object_types[i]; a.q.n = r->num_recs[i]; a.q.g = r->ops[i]; a.status = status();
            const size_t n = H::chance(20) ? 0 : H::range(1, 3);
            Blob *s = alloc_array<Blob>(n), *p = alloc_array<Blob>(n), *o = alloc_array<Blob>(n);
            for (size_t j = 0; j < n; j++) { Rec c{value(), value(), value()}; s[j] = ref(*KEEP, c.s); p[j] = ref(*KEEP, c.p); o[j] = ref(*KEEP, c.o); a.recs.push_back(c); }
            out->add(s, p, o, n, a.status); LOG[me].push_back(a);
        }
        DONE;
    }
    Message::Response::BDelete *BDeleteImpl(Message::Request::BDelete *r) {
        auto *out = construct<Message::Response::BDelete>(r->count); BATCHES[me]++;
        for (size_t i = 0; i < r->count; i++) { Answer a; a.q = base(r, i); a.status = status(); out->add(SR, PR, a.status); LOG[me].push_back(a); }
        DONE;
    }
    // histograms are answered by the base class; what was asked is noted by hand
    void note(Message::Request::BHistogram *r) {
        BATCHES[me]++;
        for (size_t i = 0; i < r->count; i++) { Answer a; a.q = Queued{}; a.q.op = HXHIM_HISTOGRAM; a.q.ds = me; a.q.s = val(r->names[i]); a.status = GetHistogram(a.q.s.b, &a.h); LOG[me].push_back(a); }
    }
    template <typename R> void note(R *) {}
};
static std::vector<Store *> STORES;
static std::vector<int> RANK; static int MYRANK;
// ranks the packets of one round go to, answered in any order
struct Remote : public Transport::EndpointGroup {
    template <typename Res, typename Req> Res *all(const Transport::ReqList<Req> &l) {
        std::vector<Res *> rs;
        CHECK(!l.empty(), "communicating without requests");
        for (auto &e : l) {
            Req *r = e.second;
            CHECK(r->dst >= 0 && (size_t) r->dst < RANK.size() && RANK[r->dst] == e.first && r->dst_rank == e.first, "a packet for datastore %d is sent to rank %d", r->dst, e.first);
            CHECK(e.first != MYRANK && r->src == MYRANK, "a packet of rank %d to rank %d", r->src, e.first);
            STORES[r->dst]->note(r);
            Res *x = STORES[r->dst]->operate(r);
            CHECK(x, "no response"); x->src = r->dst; x->dst = r->src;
            rs.push_back(x);
        }
        for (size_t i = rs.size(); i > 1; i--) std::swap(rs[i - 1], rs[H::rnd(i)]);
        for (size_t i = 0; i + 1 < rs.size(); i++) rs[i]->next = rs[i + 1];
        return rs[0];
    }
    #define C(X) Message::Response::X *communicate(const Transport::ReqList<Message::Request::X> &l) { return all<Message::Response::X>(l); }
    C(BPut) C(BGet) C(BGetOp) C(BDelete) C(BHistogram)
};
static size_t WHERE(hxhim_op_t o) { return o == HXHIM_PUT ? 0 : o == HXHIM_GET ? 1 : o == HXHIM_GETOP ? 2 : o == HXHIM_DELETE ? 3 : 4; }
static bool same(const Queued &a, const Queued &b) {
    if (a.op != b.op || a.ds != b.ds) return false;
    if (a.op == HXHIM_HISTOGRAM) return a.s.b == b.s.b;
    if (!(a.s == b.s)) return false;
    if (!(a.p == b.p)) return false;
    if (a.op == HXHIM_GETOP) return a.t == b.t && a.n == b.n && a.g == b.g;
    if (a.sa != b.sa || a.pa != b.pa) return false;
    return a.op == HXHIM_PUT ? a.o == b.o : a.op == HXHIM_GET ? a.t == b.t : true;
}
static bool is(const char *what, void *d, size_t l, hxhim_data_t t, const Val &v, void *a) { (void) what; return l == v.b.size() && t == v.t && (a ? d == a : (!l || !memcmp(d, v.b.data(), l))); }

int main() {
    H::init();
    while (H::time_left()) {
        const int servers = H::range(1, 4), per = H::range(1, 3), total = servers * per, me = (int) H::rnd(servers + 1) - (H::chance(30) ? 1 : 0);    // may be none of them
        Keep k; KEEP = &k;
        std::string hist;
        LOG.assign(total, {}); BATCHES.assign(total, 0);
        {
        const int myrank = H::rnd(6);
        Session s(total, H::range(1, 5), H::chance(60) ? 0 : H::range(60, 600), H::chance(20) ? 15 : 0, myrank, 16);
        MYRANK = myrank; RANK.assign(total, 0); STORES.clear();
        const bool local = me >= 0 && me < servers;
        int next = myrank + 1;
        std::vector<int> owned;
        for (int v = 0; v < servers; v++) { const int r = local && v == me ? myrank : next++; for (int d = 0; d < per; d++) RANK[v * per + d] = r; }
        s.p.queues.ds_to_rank = RANK;
        s.p.range_server.id = local ? me : -1; s.p.range_server.datastores.per_server = per;
        for (int d = 0; d < total; d++) {
            Store *st = new Store(d); STORES.push_back(st); st->Open("x");
            for (int h = H::rnd(3); h; h--) { std::string n(1, (char) H::range('a', 'd')); st->AddHistogram(n, ::Histogram::Config{100, one, (void *) (size_t) 1}); }
            if (RANK[d] == myrank) s.p.range_server.datastores.ds.push_back(st); else owned.push_back(d);
        }
        s.p.transport.transport = construct<Transport::Transport>(construct<Remote>());
        if (H::chance(40)) s.p.async_puts.max_queued = H::range(1, 8);    // PUTs are also processed without a flush
        hist = H::fmt("rank %d, %d servers with %d datastores, local server %d, limits %zu ops, %zu bytes: ", myrank, servers, per, s.p.range_server.id, s.p.queues.max_per_request.ops, s.p.queues.max_per_request.size);
        std::vector<std::vector<std::vector<Queued>>> want(5, std::vector<std::vector<Queued>>(total));
        std::vector<size_t> seen(total, 0);
        const int rounds = H::range(1, 3);
        for (int rd = 0; rd < rounds; rd++) {
            const int n = H::rnd(H::chance(10) ? 60 : 14), only = H::chance(40) ? (int) OPS[H::rnd(5)] : -1;
            for (int i = 0; i < n; i++) {
                std::vector<Op> os;
                const int c = H::chance(70) ? 1 : H::range(1, 6);
                for (int j = 0; j < c; j++) {
                    os.push_back(mkop(k, total, j ? (int) os[0].op : only));
                    Op &o = os.back();
                    if (o.op == HXHIM_HISTOGRAM && H::chance(80)) { o.s.b = std::string(1, (char) H::range('a', 'e')); o.sa = hold(k, o.s); }
                    bool ok; auto q = expand(o, ok);
                    if (!ok && o.op == HXHIM_PUT) { o.perm = HXHIM_PUT_SPO; q = expand(o, ok); }
                    hist += show(o) + "; ";
                    for (auto &x : q) want[WHERE(o.op)][x.ds].push_back(x);
                }
                // noting local histogram queries: the base class answers them
                H::begin(hist);
                if (c == 1 && H::chance(60)) issue(s, os[0]); else bulk(s, os);
            }
            // flush one kind, or everything
            const int f = H::chance(50) ? 5 : (int) H::rnd(5);
            hist += H::fmt("flush %d; ", f);
            H::begin(hist);
            
            const bool capi = H::chance(20);
            // local histogram queries are noted from the queue; that they arrive shows in their results
            std::vector<std::vector<Answer>> lh(total);
            if (f >= 4) for (int d = 0; d < total; d++) if (RANK[d] == myrank) for (auto &q : want[4][d]) { Answer a; a.q = q; a.status = STORES[d]->GetHistogram(q.s.b, &a.h); lh[d].push_back(a); }
            hxhim::Results *res; hxhim_results_t *cres = nullptr;
            if (capi) { switch (f) { case 0: cres = hxhimFlushPuts(&s.hx); break; case 1: cres = hxhimFlushGets(&s.hx); break; case 2: cres = hxhimFlushGetOps(&s.hx); break; case 3: cres = hxhimFlushDeletes(&s.hx); break; case 4: cres = hxhimFlushHistograms(&s.hx); break; default: cres = hxhimFlush(&s.hx); } res = cres->res; }
            else switch (f) { case 0: res = hxhim::FlushPuts(&s.hx); break; case 1: res = hxhim::FlushGets(&s.hx); break; case 2: res = hxhim::FlushGetOps(&s.hx); break; case 3: res = hxhim::FlushDeletes(&s.hx); break; case 4: res = hxhim::FlushHistograms(&s.hx); break; default: res = hxhim::Flush(&s.hx); }
            CHECK(res, "no results");
            // the queues that were flushed are empty, the others untouched is seen later
            for (int w = 0; w < 5; w++) if (f == 5 || f == w) { size_t left = 0; each(s, OPS[w], [&](int, Message::Request::Request *, size_t) { left++; }); CHECK(!left, "%zu batches of %s left in the queue", left, opname(OPS[w])); }
            // each datastore was asked exactly what was queued, in order
            std::vector<std::vector<std::vector<Answer>>> got(5, std::vector<std::vector<Answer>>(total));
            for (int d = 0; d < total; d++) for (size_t i = seen[d]; i < LOG[d].size(); i++) got[WHERE(LOG[d][i].q.op)][d].push_back(LOG[d][i]);
            if (f >= 4) for (int d = 0; d < total; d++) if (RANK[d] == myrank) got[4][d] = lh[d];
            std::vector<std::vector<Answer>> expect(total);
            for (int d = 0; d < total; d++) {
                for (int w = 0; w < 5; w++) if (f == 5 || f == w) {
                    auto &W = want[w][d]; auto &G = got[w][d];
                    CHECK(G.size() == W.size(), "datastore %d was asked %zu %ss, %zu were issued", d, G.size(), opname(OPS[w]), W.size());
                    for (size_t i = 0; i < W.size(); i++) CHECK(same(W[i], G[i].q), "%s %zu at datastore %d is %s, issued was %s", opname(OPS[w]), i, d, show(G[i].q).c_str(), show(W[i]).c_str());
                    W.clear();
                    expect[d].insert(expect[d].end(), G.begin(), G.end());
                } else if (w) CHECK(got[w][d].empty(), "datastore %d was asked for a %s that was not flushed", d, opname(OPS[w]));
            }
            // one result per operation or record, per datastore in order
            std::vector<size_t> at(total, 0), rec(total, 0);
            size_t results = 0;
            for (res->GoToHead(); res->ValidIterator(); res->GoToNext()) {
                int rs, st; hxhim_op_t op; void *dp; size_t l; hxhim_data_t t;
                res->RangeServer(&rs); res->Op(&op); res->Status(&st);
                CHECK(rs >= 0 && rs < total && at[rs] < expect[rs].size(), "more results of datastore %d than the %zu expected", rs, rs >= 0 && rs < total ? expect[rs].size() : 0);
                const Answer &a = expect[rs][at[rs]];
                CHECK(op == a.q.op && (st == HXHIM_SUCCESS) == (a.status == DATASTORE_SUCCESS), "result %zu of datastore %d is %s status %d, expected %s", at[rs], rs, opname(op), st, show(a.q).c_str());
                if (op == HXHIM_HISTOGRAM) { Hist *h = nullptr; res->Histogram(&h); CHECK(h == (a.status == DATASTORE_SUCCESS ? a.h.get() : nullptr), "another histogram"); }
                else if (op != HXHIM_GETOP) {
                    res->Subject(&dp, &l, &t); CHECK(is("subject", dp, l, t, a.q.s, a.q.sa), "subject of result %zu of datastore %d", at[rs], rs);
                    res->Predicate(&dp, &l, &t); CHECK(is("predicate", dp, l, t, a.q.p, a.q.pa), "predicate of result %zu of datastore %d", at[rs], rs);
                    if (op == HXHIM_GET && st == HXHIM_SUCCESS) { CHECK(res->Object(&dp, &l, &t) == HXHIM_SUCCESS && is("object", dp, l, t, a.o, nullptr), "object of result %zu of datastore %d", at[rs], rs); }
                } else if (!a.recs.empty()) {
                    const Rec &r = a.recs[rec[rs]];
                    res->Subject(&dp, &l, &t); CHECK(is("subject", dp, l, t, r.s, nullptr), "subject of record");
                    res->Predicate(&dp, &l, &t); CHECK(is("predicate", dp, l, t, r.p, nullptr), "predicate of record");
                    if (st == HXHIM_SUCCESS) CHECK(res->Object(&dp, &l, &t) == HXHIM_SUCCESS && is("object", dp, l, t, r.o, nullptr), "object of record");
                }
                if (op == HXHIM_GETOP && rec[rs] + 1 < a.recs.size()) rec[rs]++; else { rec[rs] = 0; at[rs]++; }
                results++;
            }
            for (int d = 0; d < total; d++) CHECK(at[d] == expect[d].size(), "%zu results of datastore %d, %zu operations were flushed", at[d], d, expect[d].size());
            // PUTs processed early and not flushed yet keep their place
            for (int d = 0; d < total; d++) { std::vector<Answer> keepers; for (size_t i = seen[d]; i < LOG[d].size(); i++) if (LOG[d][i].q.op == HXHIM_PUT && f != 0 && f != 5) keepers.push_back(LOG[d][i]); LOG[d].resize(seen[d]); LOG[d].insert(LOG[d].end(), keepers.begin(), keepers.end()); }
            if (results > 2) H::nontrivial++;
            if (capi) hxhim_results_destroy(cres); else hxhim::Results::Destroy(res);
        }
        for (int d : owned) delete STORES[d];
        }
        drop(k);
    }
    return H::finish("operations of all kinds queued and flushed together or by kind, 1-4 servers with 1-3 datastores each, local or several behind one remote rank");
}
