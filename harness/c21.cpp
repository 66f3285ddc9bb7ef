// histories on real LevelDB and RocksDB stores; every session is a process of its own that is killed, or closes
#include "ds.hpp"
#include "datastore/LevelDB.hpp"
#include "datastore/RocksDB.hpp"
#include "datastore/datastores.hpp"
#include "hxhim/private/hxhim.hpp"
#include <cerrno>
#include <csignal>
#include <filesystem>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>

// what reaches the disk: counted, then done
static int synced = 0;
extern "C" int fdatasync(int fd) { synced++; return syscall(SYS_fdatasync, fd); }
extern "C" int fsync(int fd) { synced++; return syscall(SYS_fsync, fd); }
// one write may fail, as if there was no space for a moment
static int flaky = 0;
extern "C" ssize_t write(int fd, const void *p, size_t n) { if (flaky && n >= 1000 && !--flaky) { errno = ENOSPC; return -1; } return syscall(SYS_write, fd, p, n); }
extern "C" int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) { return syscall(SYS_sync_file_range, fd, o, n, f); }

typedef std::unique_ptr<::Datastore::Datastore> Store;
static std::vector<Val> pool;
static Val pick(size_t max) { return H::chance(85) ? pool[H::rnd(pool.size())] : value(max); }
static Store make(bool rocks, bool create) {
    if (rocks) return Store(new ::Datastore::RocksDB(0, 0, nullptr, create));
    return Store(new ::Datastore::LevelDB(0, 0, nullptr, create));
}
struct Step { int op; std::vector<Rec> rs; };      // 0 put, 1 delete, 2 get, 3 sync
static std::vector<Pair> pairs(const Step &s) { std::vector<Pair> ps; for (auto &r : s.rs) ps.push_back(Pair(r.s, r.p)); return ps; }
static void model(Model &m, const Step &s) {
    std::string k, eo;
    for (auto &r : s.rs) {
        if (s.op == 0 && key_of(r.s, r.p, k) && encoded(r.o, eo)) m[k] = r;
        if (s.op == 1 && key_of(r.s, r.p, k)) m.erase(k);
    }
}
// runs f in a process of its own; it must end as f wants it to
template <typename F> static void process(F f) {
    fflush(stdout);
    const pid_t p = fork();
    if (!p) { f(); _exit(0); }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return;
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st));       // it has said why
    H::fail(H::fmt("the process using the store ends with signal %d", WTERMSIG(st)));
}

static void history(bool rocks, const char *dir) {
    std::string hist = H::fmt("%s:", rocks ? "RocksDB" : "LevelDB");
    Model m; pool.clear();
    const int np = H::range(2, 6);
    for (int i = 0; i < np; i++) {
        pool.push_back(value(3));
        if (H::chance(30)) { Val v = pool.back(); v.t = (v.t == HXHIM_DATA_BYTE || v.t == HXHIM_DATA_POINTER) ? BYTES[v.t == HXHIM_DATA_BYTE] : HXHIM_DATA_BYTE; pool.push_back(v); }
        if (H::chance(10)) { Val v = bytes(); v.t = H::chance(50) ? HXHIM_DATA_INVALID : HXHIM_DATA_MAX_KNOWN; pool.push_back(v); }
    }
    const int sessions = H::range(1, 3);
    for (int k = 0; k < sessions; k++) {
        std::vector<Step> steps;
        const int n = H::range(1, 6), end = H::rnd(3);   // killed, closed, left without closing
        hist += k ? "; open again" : " open";
        for (int i = 0; i < n; i++) {
            Step s; const int o = H::rnd(10);
            s.op = o < 5 ? 0 : o < 7 ? 1 : o < 9 ? 2 : 3;
            hist += s.op == 0 ? "; put" : s.op == 1 ? "; delete" : s.op == 2 ? "; get" : "; sync";
            const size_t c = s.op == 3 ? 0 : H::chance(10) ? 0 : H::chance(4) ? H::range(30, 300) : H::range(1, 6);
            const size_t osize = H::chance(5) ? 20000 : 30;
            for (size_t j = 0; j < c; j++) {
                Rec r{pick(3), pick(3), H::chance(60) ? value(osize) : pick(4)};
                hist += " " + show(r.s) + "," + show(r.p) + (s.op == 0 ? "=" + show(r.o) : "");
                s.rs.push_back(r);
            }
            steps.push_back(s);
        }
        hist += end == 0 ? "; kill" : end == 1 ? "; close" : "; exit";
        H::begin(hist);
        process([&]() {
            Store ds = make(rocks, !k);
            CHECK(ds->Open(dir) && ds->Usable(), "the store does not open");
            std::vector<Pair> all; for (auto &x : m) all.push_back(Pair(x.second.s, x.second.p));
            get(*ds, m, all);
            for (auto &s : steps) {
                if (s.op == 0) put(*ds, m, s.rs); else if (s.op == 1) del(*ds, m, pairs(s)); else if (s.op == 2) get(*ds, m, pairs(s));
                else {
                    synced = 0;
                    CHECK(ds->Sync(false) == DATASTORE_SUCCESS, "a sync fails");
                    CHECK(synced, "a sync does not reach the disk");
                }
            }
            all.clear(); for (auto &a : pool) for (auto &b : pool) all.push_back(Pair(a, b));
            get(*ds, m, all);
            if (end == 0) kill(getpid(), SIGKILL);
            if (end == 1) { ds->Close(false); CHECK(!ds->Usable(), "a closed store is usable"); CHECK(ds->Sync(false) == DATASTORE_ERROR, "a closed store can be synced"); }
            _exit(0);
        });
        for (auto &s : steps) model(m, s);
        if (m.size()) H::nontrivial++;
    }
    hist += "; open again; get every pair"; H::begin(hist);
    process([&]() {
        Store ds = make(rocks, false);
        CHECK(ds->Open(dir), "the store does not open again");
        std::vector<Pair> all; for (auto &a : pool) for (auto &b : pool) all.push_back(Pair(a, b));
        for (auto &x : m) all.push_back(Pair(x.second.s, x.second.p));
        get(*ds, m, all);
        _exit(0);
    });
}

// several stores of one session, opened by name
static void places(bool rocks, const char *dir) {
    const int n = H::range(1, 4), base = H::rnd(3) ? (int) H::rnd(40) : (int) H::rnd(2000), sessions = H::range(2, 3);
    const std::string basename = H::chance(50) ? "hxhim" : "x-1", postfix = H::chance(50) ? "" : ".db";
    const bool nested = H::chance(40);
    std::string hist = H::fmt("%d %s stores, ids from %d, prefix %s, basename %s, postfix %s", n, rocks ? "RocksDB" : "LevelDB", base, nested ? "a/b" : "a", basename.c_str(), postfix.c_str());
    std::vector<Model> m(n);
    for (int k = 0; k <= sessions; k++) {
        std::vector<std::vector<Rec>> puts(n);
        const int end = H::rnd(3);
        for (int i = 0; i < n; i++) for (int j = H::rnd(4); j > 0; j--) puts[i].push_back(Rec{value(2), value(1), value(20)});
        hist += H::fmt("; open, get everything, put, %s", end == 0 ? "kill" : end == 1 ? "close" : "exit"); H::begin(hist);
        process([&]() {
            hxhim_t hx; hx.p = new hxhim_private_t;
            auto &d = hx.p->range_server.datastores;
            hx.p->bootstrap.rank = k % 2; hx.p->bootstrap.size = 2;
            d.prefix = std::string(dir) + (nested ? "/a/b" : "/a"); d.basename = basename; d.postfix = postfix;
            if (rocks) d.config = new ::Datastore::RocksDB::Config(true); else d.config = new ::Datastore::LevelDB::Config(true);
            Histogram::Config hc{0, nullptr, nullptr};
            for (int i = 0; i < n; i++) {
                d.ds.push_back(::Datastore::Init(&hx, base + i, d.config, nullptr, hc, nullptr, true, false, false));
                CHECK(d.ds.back() && d.ds.back()->Usable(), "store %d does not open", base + i);
            }
            for (int i = 0; i < n; i++) {
                std::vector<Pair> all; for (auto &mm : m) for (auto &x : mm) all.push_back(Pair(x.second.s, x.second.p));
                get(*d.ds[i], m[i], all);
            }
            for (int i = 0; i < n; i++) put(*d.ds[i], m[i], puts[i]);
            if (end == 0) kill(getpid(), SIGKILL);
            if (end == 1) ::Datastore::destroy(&hx);
            _exit(0);
        });
        for (int i = 0; i < n; i++) { Step s; s.op = 0; s.rs = puts[i]; model(m[i], s); }
    }
}

// writes that fail: files may not grow beyond a limit; what is acknowledged must still be there
static void full(bool rocks, const char *dir) {
    const size_t limit = H::range(20, 60) * 1024, each = H::range(500, 4000), n = 2 * limit / each + 4, bulk = H::chance(30) ? H::range(20, 60) : H::range(1, 4);
    const std::string what = H::fmt("%s: %zu PUTs of %zu bytes, %zu at a time, files limited to %zu bytes, kill, open again", rocks ? "RocksDB" : "LevelDB", n, each, bulk, limit);
    H::begin(what);
    int *acks = (int *) mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto key = [](size_t i) { return num<uint64_t>(i, HXHIM_DATA_UINT64); };
    auto obj = [&](size_t i) { return Val{std::string(each, (char) ('a' + i % 26)), HXHIM_DATA_BYTE}; };
    process([&]() {
        Store ds = make(rocks, true);
        CHECK(ds->Open(dir), "the store does not open");
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit l = {limit, limit}; setrlimit(RLIMIT_FSIZE, &l);
        for (size_t i = 0; i < n; i += bulk) {
            Keep keep; Message::Request::BPut req(bulk);
            for (size_t j = i; j < i + bulk; j++) req.add(ref(keep, key(j)), ref(keep, key(j)), ref(keep, obj(j)));
            auto *res = ds->operate(&req);
            CHECK(res && res->count == bulk, "PUT: wrong number of entries");
            for (size_t j = 0; j < bulk; j++) acks[i + j] = res->statuses[j];
            destruct(res); drop(keep);
        }
        kill(getpid(), SIGKILL);
    });
    process([&]() {
        Store ds = make(rocks, false);
        CHECK(ds->Open(dir), "the store does not open again");
        size_t lost = 0;
        for (size_t i = 0; i < n; i++) {
            Model m; Rec r{key(i), key(i), obj(i)}; std::string k; key_of(r.s, r.p, k); m[k] = r;
            CHECK(acks[i] == DATASTORE_SUCCESS || acks[i] == DATASTORE_ERROR, "PUT %zu has status %d", i, acks[i]);
            if (acks[i] == DATASTORE_SUCCESS) get(*ds, m, {Pair(r.s, r.p)}); else lost++;
        }
        CHECK(lost, "no write failed");
        _exit(0);
    });
    munmap(acks, 1 << 16);
}

// one write that fails: what is acknowledged can be read
static void hiccup(bool rocks, const char *dir) {
    const size_t each = H::range(200, 4000), n = H::range(1, 100), when = H::range(1, 6), rounds = H::range(1, 4);
    H::begin(H::fmt("%s: %zu PUTs of %zu objects of %zu bytes, write %zu finds no space", rocks ? "RocksDB" : "LevelDB", rounds, n, each, when));
    process([&]() {
        Store ds = make(rocks, true);
        CHECK(ds->Open(dir), "the store does not open");
        flaky = when;
        auto val = [](size_t i) { return num<uint64_t>(i, HXHIM_DATA_UINT64); };
        for (size_t r = 0; r < rounds; r++) {
            Keep keep; Message::Request::BPut req(n);
            auto obj = [&](size_t i) { return Val{std::string(each, (char) ('a' + (i + r) % 26)), HXHIM_DATA_BYTE}; };
            for (size_t j = 0; j < n; j++) req.add(ref(keep, val(j)), ref(keep, val(r)), ref(keep, obj(j)));
            auto *res = ds->operate(&req);
            CHECK(res && res->count == n, "PUT: wrong number of entries");
            for (size_t j = 0; j < n; j++) {
                CHECK(res->statuses[j] == DATASTORE_SUCCESS || res->statuses[j] == DATASTORE_ERROR, "PUT %zu has status %d", j, res->statuses[j]);
                if (res->statuses[j] != DATASTORE_SUCCESS) continue;
                Model m; Rec c{val(j), val(r), obj(j)}; std::string k; key_of(c.s, c.p, k); m[k] = c;
                get(*ds, m, {Pair(c.s, c.p)});
            }
            destruct(res); drop(keep);
        }
        _exit(0);
    });
}

int main() {
    H::init();
    delete_absent = true;
    for (int i = 0; H::time_left(); i++) {
        char dir[] = "./store-XXXXXX";
        if (!mkdtemp(dir)) return 2;
        const std::string d = std::string(dir) + "/db";
        const bool rocks = H::chance(40);
        if (i % 8 == 3) full(rocks, d.c_str()); else if (i % 8 == 6) hiccup(false, d.c_str()); else if (i % 8 == 1 || i % 8 == 5) places(rocks, dir); else history(rocks, d.c_str());
        std::filesystem::remove_all(dir);
    }
    return H::finish("random histories of bulk PUT/DELETE/GET/sync on real LevelDB and RocksDB stores in scratch directories, each session a process that is killed, exits or closes, then opened again, against a reference map; PUTs under a file size limit");
}
