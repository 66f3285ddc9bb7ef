#include "queue.hpp"

// one expected result
struct Want { hxhim_op_t op; int status, rs; bool ids; Val s, p; void *sa, *pa; bool addr, obj; Val o; std::shared_ptr<Hist> h; };
static void wants(std::vector<Want> &w, const MDesc &d) {
    for (auto &e : d.e) {
        Want x; x.op = d.op; x.status = e.status == DATASTORE_SUCCESS ? HXHIM_SUCCESS : HXHIM_ERROR; x.rs = d.src; x.ids = false; x.addr = false; x.obj = false; x.sa = x.pa = nullptr;
        const bool ok = e.status == DATASTORE_SUCCESS;
        if (d.op == HXHIM_GETOP) {
            if (e.recs.empty()) { w.push_back(x); continue; }
            for (auto &r : e.recs) { x.ids = true; x.s = r.s; x.p = r.p; x.o = r.o; x.obj = ok; w.push_back(x); }
            continue;
        }
        if (d.op == HXHIM_HISTOGRAM) { if (ok) x.h = e.h; w.push_back(x); continue; }
        x.ids = x.addr = true; x.s = e.s; x.p = e.p; x.sa = e.sa; x.pa = e.pa; x.o = e.o; x.obj = ok && d.op == HXHIM_GET;
        w.push_back(x);
    }
}
static void same(const char *what, size_t i, void *d, size_t l, hxhim_data_t t, const Val &v, void *a, bool addr) {
    CHECK(l == v.b.size() && t == v.t, "%s of result %zu has %zu bytes type %d, expected %zu bytes type %d", what, i, l, (int) t, v.b.size(), (int) v.t);
    if (addr) CHECK(d == a, "%s of result %zu does not refer to the caller's value", what, i);
    else CHECK(!l || !memcmp(d, v.b.data(), l), "%s of result %zu has other bytes", what, i);
}
static void look(hxhim::Results &r, const Want &w, size_t i) {
    hxhim_op_t op; int st, rs; void *d; size_t l; hxhim_data_t t;
    CHECK(r.ValidIterator(), "iteration stops at result %zu", i);
    CHECK(r.Op(&op) == HXHIM_SUCCESS && op == w.op, "result %zu is a %s, expected %s", i, opname(op), opname(w.op));
    CHECK(r.Status(&st) == HXHIM_SUCCESS && st == w.status, "result %zu (%s) has status %d, expected %d", i, opname(op), st, w.status);
    CHECK(r.RangeServer(&rs) == HXHIM_SUCCESS && rs == w.rs, "result %zu is from %d, expected %d", i, rs, w.rs);
    if (w.op == HXHIM_HISTOGRAM) {
        CHECK(r.Subject(&d, &l, &t) == HXHIM_ERROR && r.Predicate(&d, &l, &t) == HXHIM_ERROR && r.Object(&d, &l, &t) == HXHIM_ERROR, "histogram result %zu has a value", i);
        Hist *h = nullptr;
        const int rc = r.Histogram(&h);
        CHECK((rc == HXHIM_SUCCESS) == (w.status == HXHIM_SUCCESS), "histogram of result %zu: %d, status %d", i, rc, w.status);
        if (rc == HXHIM_SUCCESS) {
            CHECK(h == w.h.get(), "result %zu has another histogram", i);
            std::string nm; w.h->get_name(nm);
            const char *n = nullptr; size_t nl = 0, sz = 0, *c = nullptr, *wc = nullptr, wz = 0; double *b = nullptr, *wb = nullptr;
            const int rr = r.Histogram(&n, &nl, &b, &c, &sz);
            const bool gen = w.h->get(&wb, &wc, &wz) == HISTOGRAM_SUCCESS;
            CHECK((rr == HXHIM_SUCCESS) == gen, "histogram data of result %zu: %d", i, rr);
            CHECK(rr != HXHIM_SUCCESS || (std::string(n, nl) == nm && b == wb && c == wc && sz == wz), "result %zu returns other histogram data", i);
        }
        return;
    }
    Hist *h = nullptr; const char *n;
    CHECK(r.Histogram(&h) == HXHIM_ERROR && r.Histogram(&n, nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR, "result %zu (%s) has a histogram", i, opname(op));
    CHECK(r.Subject(&d, &l, &t) == HXHIM_SUCCESS, "result %zu has no subject", i);
    if (w.ids) same("subject", i, d, l, t, w.s, w.sa, w.addr);
    CHECK(r.Predicate(&d, &l, &t) == HXHIM_SUCCESS, "result %zu has no predicate", i);
    if (w.ids) same("predicate", i, d, l, t, w.p, w.pa, w.addr);
    const int rc = r.Object(&d, &l, &t);
    if (w.obj) { CHECK(rc == HXHIM_SUCCESS, "result %zu has no object", i); same("object", i, d, l, t, w.o, nullptr, false); }
    else if (w.op == HXHIM_GETOP && !w.ids) { CHECK((rc == HXHIM_SUCCESS) == (w.status == HXHIM_SUCCESS), "object of empty result %zu: %d", i, rc); }
    else CHECK(rc == HXHIM_ERROR, "result %zu (%s, status %d) returns an object", i, opname(op), w.status);
}
static void all(hxhim::Results &r, const std::vector<Want> &w) {
    CHECK(r.Size() == w.size(), "%zu results, expected %zu", r.Size(), w.size());
    size_t i = 0;
    for (r.GoToHead(); r.ValidIterator(); r.GoToNext()) { CHECK(i < w.size(), "more than %zu results visited", w.size()); look(r, w[i], i); i++; }
    CHECK(i == w.size(), "%zu of %zu results visited", i, w.size());
    int x; CHECK(r.Status(&x) == HXHIM_ERROR && r.Op(nullptr) == HXHIM_ERROR, "an iterator past the end has a result");
    r.GoToNext(); CHECK(!r.ValidIterator(), "moving past the end gives a result");
}
static void c_api(Session &s, hxhim::Results *r, const std::vector<Want> &w) {
    hxhim_results_t *c = hxhim_results_init(&s.hx, r);
    size_t n = 99; CHECK(hxhim_results_size(c, &n) == HXHIM_SUCCESS && n == w.size(), "C interface: %zu results", n);
    size_t i = 0;
    for (int rc = hxhim_results_goto_head(c); rc == HXHIM_SUCCESS; rc = hxhim_results_goto_next(c)) {
        CHECK(hxhim_results_valid_iterator(c) == HXHIM_SUCCESS && i < w.size(), "C interface: iterator");
        hxhim_op_t op; int st, rs; void *d = nullptr; size_t l = 0; hxhim_data_t t;
        CHECK(hxhim_result_op(c, &op) == HXHIM_SUCCESS && op == w[i].op && hxhim_result_status(c, &st) == HXHIM_SUCCESS && st == w[i].status && hxhim_result_range_server(c, &rs) == HXHIM_SUCCESS && rs == w[i].rs, "C interface: result %zu", i);
        if (w[i].op != HXHIM_HISTOGRAM && w[i].ids) {
            CHECK(hxhim_result_subject(c, &d, &l, &t) == HXHIM_SUCCESS, "C subject"); same("C subject", i, d, l, t, w[i].s, w[i].sa, w[i].addr);
            CHECK(hxhim_result_predicate(c, &d, &l, &t) == HXHIM_SUCCESS, "C predicate"); same("C predicate", i, d, l, t, w[i].p, w[i].pa, w[i].addr);
            CHECK((hxhim_result_object(c, &d, &l, &t) == HXHIM_SUCCESS) == w[i].obj, "C object of result %zu", i);
            if (w[i].obj) same("C object", i, d, l, t, w[i].o, nullptr, false);
        }
        i++;
    }
    CHECK(i == w.size() && hxhim_results_valid_iterator(c) == HXHIM_ERROR, "C interface: %zu of %zu visited", i, w.size());
    hxhim_results_destroy(c);
}
int main() {
    H::init();
    while (H::time_left()) {
        Session s(1, 1, 0);
        Keep k; std::string hist;
        const int lists = H::range(1, 3);
        std::vector<hxhim::Results *> rs; std::vector<std::vector<Want>> ws(lists);
        for (int a = 0; a < lists; a++) {
            hxhim::Results *r = construct<hxhim::Results>();
            const int chains = H::range(0, 2);
            for (int c = 0; c < chains; c++) {
                Message::Response::Response *head = nullptr, *tail = nullptr;
                const hxhim_op_t op = OPS[H::rnd(5)];
                for (int m = H::range(0, 4); m; m--) {
                    MDesc d;
                    Message::Response::Response *x = mres(d, k, op);
                    hist += mshow(d, false) + "; ";
                    if (H::chance(30)) {                          // as received from another rank
                        void *buf = nullptr; size_t l = 0; Message::Response::Response *y = nullptr;
                        std::vector<std::shared_ptr<Hist>> hs;
                        CHECK(Message::Packer::pack(x, &buf, &l) == MESSAGE_SUCCESS && Message::Unpacker::unpack(&y, buf, l) == MESSAGE_SUCCESS, "transport");
                        dealloc(buf); destruct(x); x = y;
                        if (op == HXHIM_HISTOGRAM) for (size_t i = 0; i < x->count; i++) if (d.e[i].status == DATASTORE_SUCCESS) d.e[i].h = static_cast<Message::Response::BHistogram *>(x)->histograms[i];
                    }
                    wants(ws[a], d);
                    if (tail) tail->next = x; else head = x;
                    tail = x;
                }
                H::begin(hist);
                hxhim::Result::AddAll(&s.hx, r, head);
            }
            if (H::chance(20)) { r->Add(hxhim::Result::init(&s.hx, DATASTORE_SUCCESS)); Want w; w.op = HXHIM_SYNC; w.status = HXHIM_SUCCESS; w.rs = 0; hxhim_op_t op; r->GoToHead(); CHECK(r->Op(&op) == HXHIM_SUCCESS, "sync"); for (size_t i = 0; i < ws[a].size(); i++) r->GoToNext(); CHECK(r->Op(&op) == HXHIM_SUCCESS && op == HXHIM_SYNC, "SYNC result"); hxhim::Results::Destroy(r); r = construct<hxhim::Results>(); ws[a].clear(); }
            H::begin(hist);
            if (H::chance(60)) all(*r, ws[a]);
            rs.push_back(r);
        }
        for (int a = 1; a < lists; a++) {
            H::begin(hist + H::fmt(" list %d appended", a));
            rs[0]->Append(rs[a]); ws[0].insert(ws[0].end(), ws[a].begin(), ws[a].end());
            CHECK(rs[a]->Size() == 0, "%zu results left in the appended list", rs[a]->Size());
            if (H::chance(50)) { rs[a]->GoToHead(); CHECK(!rs[a]->ValidIterator(), "appended list has results"); }
            destruct(rs[a]);
        }
        rs[0]->Append(nullptr);
        all(*rs[0], ws[0]);
        if (ws[0].size() > 3) H::nontrivial++;
        if (H::chance(40)) c_api(s, rs[0], ws[0]); else hxhim::Results::Destroy(rs[0]);
        drop(k);
    }
    return H::finish("chains of random responses of all kinds turned into results, appended, iterated through the C++ and C interfaces");
}
