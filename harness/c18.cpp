#include "common.hpp"
#include "hxhim/config.hpp"
#include "hxhim/private/hxhim.hpp"
#include "transport/Options.hpp"
#include "utils/Configuration.hpp"
#include "utils/memory.hpp"
#include <map>
#include <set>
#include <fstream>
#include <mpi.h>

// sessions are configured without starting MPI
static int SIZE = 3;
extern "C" int MPI_Comm_size(MPI_Comm, int *s) { *s = SIZE; return MPI_SUCCESS; }
namespace hxhim { namespace config { int default_reader(hxhim_t *hx, MPI_Comm comm); } }
bool parse_kv_stream(Config::Config &config, std::istream &stream);

typedef std::map<std::string, std::string> Ref;
static const char *SPACE[] = {" ", "\t", "  ", " \t ", "\v", "\f"};
static std::string gap() { return SPACE[H::rnd(6)]; }
static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// the reference reading of a text
static void reference(const std::string &text, Ref &r) {
    size_t at = 0;
    while (at <= text.size()) {
        size_t e = text.find('\n', at); if (e == std::string::npos) e = text.size();
        std::string l = text.substr(at, e - at); at = e + 1;
        size_t i = 0; while (i < l.size() && space(l[i])) i++;
        size_t j = i; while (j < l.size() && !space(l[j])) j++;
        if (i == j || l[i] == '#') continue;
        size_t a = j, b = l.size(); while (a < b && space(l[a])) a++; while (b > a && space(l[b - 1])) b--;
        r[l.substr(i, j - i)] = l.substr(a, b - a);
    }
}
static std::vector<std::string> KEYS = {"A", "B", "AB", "a", "KEY", "KEY2", "K#"};
static std::string word() { std::string s; for (int n = H::range(1, 6); n; n--) s += "abcxyz019.-+/#=,\"\xc3\xa9"[H::rnd(19)]; return s; }
static std::string line(const std::vector<std::string> &keys) {
    std::string l; if (H::chance(20)) l += gap();
    if (H::chance(8)) return l;
    if (H::chance(10)) { l += "#"; if (H::chance(50)) l += gap(); }
    l += H::chance(90) ? keys[H::rnd(keys.size())] : word();
    if (H::chance(8)) return l;
    l += gap(); l += word();
    while (H::chance(30)) { l += gap(); l += word(); }
    if (H::chance(20)) l += gap();
    if (H::chance(10)) l += "\r";
    return l;
}
static std::string text(const std::vector<std::string> &keys) {
    std::string t; const int n = H::rnd(6);
    for (int i = 0; i < n; i++) { t += line(keys); if (i + 1 < n || H::chance(80)) t += "\n"; }
    return t;
}
static void same(const Config::Config &c, const Ref &r, const char *what) {
    for (auto &e : r) { auto it = c.find(e.first); CHECK(it != c.end(), "%s: '%s' is not set", what, e.first.c_str()); CHECK(it->second == e.second, "%s: '%s' is '%s', the last source that mentions it says '%s'", what, e.first.c_str(), it->second.c_str(), e.second.c_str()); }
    for (auto &e : c) CHECK(r.count(e.first), "%s: no source mentions '%s'", what, e.first.c_str());
}
struct Own : public Config::Reader { std::string t; bool process(Config::Config &c) const { Ref r; reference(t, r); for (auto &e : r) c[e.first] = e.second; return H::chance(50); } };
static void write(const std::string &f, const std::string &t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }

static void sequences() {
    Config::Sequence seq; std::vector<Config::Reader *> rs; Ref want;
    std::string hist;
    Config::Config c;
    const int reuse = H::chance(20);
    for (int pass = 0; pass <= reuse; pass++) {
        want.clear(); hist += "sources:"; if (H::chance(50)) c["stale"] = "x";
        const int n = H::rnd(6);
        std::vector<std::pair<Config::Reader *, Ref>> added;
        for (int i = 0; i < n; i++) {
            if (added.size() && H::chance(25)) {
                auto &a = added[H::rnd(added.size())]; for (auto &e : a.second) want[e.first] = e.second;
                hist += " the same again {"; for (auto &e : a.second) hist += e.first + "=" + e.second + ","; hist += "}";
                CHECK(seq.add(a.first) == (size_t) i + 1, "add returns another index"); continue;
            }
            Ref before; before.swap(want);
            const std::string t = text(KEYS), id = H::fmt("%d_%d", pass, i), f = "file" + id, ev = "VERIF_ENV" + id;
            Config::Reader *r = nullptr;
            switch (H::rnd(5)) {
                case 0: write(f, t); r = new Config::File(f); reference(t, want); hist += " file [" + t + "]"; break;
                case 1: unlink(f.c_str()); r = new Config::File(f); hist += " missing file"; break;
                case 2: if (H::chance(70)) { write(f, t); setenv(ev.c_str(), f.c_str(), 1); reference(t, want); hist += " file named by a variable [" + t + "]"; } else { unsetenv(ev.c_str()); hist += " unset file variable"; } r = new Config::EnvironmentFile(ev); break;
                case 3: { const std::string k = KEYS[H::rnd(KEYS.size())]; if (H::chance(70)) { std::string v = H::chance(20) ? "" : word() + gap() + word(); setenv(ev.c_str(), v.c_str(), 1); want[k] = v; hist += " variable " + k + "=" + v; } else { unsetenv(ev.c_str()); hist += " unset variable"; } r = new Config::EnvironmentVar(ev, k); break; }
                default: { auto *o = new Own; o->t = t; reference(t, want); hist += " reader [" + t + "]"; r = o; break; }
            }
            rs.push_back(r);
            added.push_back({r, want}); for (auto &e : want) before[e.first] = e.second; want.swap(before);
            CHECK(seq.add(r) == (size_t) i + 1, "add returns another index");
            if (H::chance(5)) { CHECK(seq.add(nullptr) == (size_t) i + 2, "add returns another index"); CHECK(seq.reset() == 0, "reset"); want.clear(); hist += " reset"; break; }
        }
        H::begin(hist);
        seq.process(c);
        same(c, want, "sequence");
        if (n > 1) H::nontrivial++;
        seq.reset();
    }
    for (auto r : rs) delete r;
}
static void lookups() {
    Config::Config c; const std::string k = KEYS[0];
    #define NOTFOUND(T, init) { T v = init; const T was = v; CHECK(Config::get_value(c, "other", v) == Config::NOT_FOUND && v == was, "lookup of an option that is not set"); }
    NOTFOUND(int, 7) NOTFOUND(size_t, 7) NOTFOUND(bool, true) NOTFOUND(double, 2.5) NOTFOUND(std::string, "w")
    const int64_t x = H::chance(30) ? (int64_t) H::rnd() : (int64_t) H::rnd(2000) - 1000;
    c[k] = H::fmt("%lld", (long long) x);
    H::begin("number " + c[k]);
    int64_t a = 1; CHECK(Config::get_value(c, k, a) == Config::FOUND && a == x, "%lld", (long long) a);
    int b = 1; const int rb = Config::get_value(c, k, b);
    if (x >= INT32_MIN && x <= INT32_MAX) CHECK(rb == Config::FOUND && b == (int) x, "int lookup: %d %d", rb, b); else CHECK(rb == Config::ERROR, "int lookup of a larger number: %d", rb);
    if (x >= 0) { size_t s = 1; CHECK(Config::get_value(c, k, s) == Config::FOUND && s == (size_t) x, "size lookup"); }
    double d = 1; CHECK(Config::get_value(c, k, d) == Config::FOUND && d == (double) x, "double lookup");
    NOTFOUND(size_t, 7)
    c[k] = H::chance(50) ? "" : std::string(1, "xyz/#.,"[H::rnd(7)]) + word();
    H::begin("not a number '" + c[k] + "'");
    CHECK(Config::get_value(c, k, a) == Config::ERROR && Config::get_value(c, k, b) == Config::ERROR, "a number is read from '%s'", c[k].c_str());
    std::string bt = H::chance(50) ? "true" : "false"; const bool want = bt == "true";
    for (auto &ch : bt) if (H::chance(50)) ch = (char) toupper(ch);
    c[k] = bt; H::begin("boolean " + bt);
    bool v = !want; CHECK(Config::get_value(c, k, v) == Config::FOUND && v == want, "boolean lookup of '%s'", bt.c_str());
    CHECK(c[k] == bt, "the configuration changed");
    c[k] = H::chance(50) ? "yes" : "2"; CHECK(Config::get_value(c, k, v) == Config::ERROR, "a boolean is read from '%s'", c[k].c_str());
    std::string t = H::chance(10) ? "" : word() + gap() + word(), g = "old"; c[k] = t; H::begin("string '" + t + "'");
    CHECK(Config::get_value(c, k, g) == Config::FOUND && g == t, "string lookup returns '%s'", g.c_str());
    std::unordered_map<std::string, int> m = {{"ONE", 1}, {"TWO", 2}, {"ONE TWO", 3}, {"", 4}};
    const char *names[] = {"ONE", "TWO", "ONE TWO", "", "THREE", "one", "ONE "};
    const int w = H::rnd(7); int got = 99; c[k] = names[w]; H::begin(std::string("map value '") + names[w] + "'");
    const int rc = Config::get_from_map(c, k, m, got);
    if (w < 4) CHECK(rc == Config::FOUND && got == w + 1, "map lookup: %d %d", rc, got); else CHECK(rc == Config::ERROR && got == 99, "map lookup: %d %d", rc, got);
    CHECK(Config::get_from_map(c, "other", m, got = 5) == Config::NOT_FOUND && got == 5, "map lookup of an option that is not set");
    H::nontrivial++;
}
// whole sessions: defaults, hxhim.conf, the file named by HXHIM_CONFIG, HXHIM_* variables
static std::string option(const std::string &k) {
    using namespace hxhim::config;
    if (k == DEBUG_LEVEL) { auto it = DEBUG_LEVELS.begin(); std::advance(it, H::rnd(DEBUG_LEVELS.size())); return it->first; }
    if (k == HISTOGRAM_BUCKET_GEN_NAME) { auto it = HISTOGRAM_BUCKET_GENERATORS.begin(); std::advance(it, H::rnd(HISTOGRAM_BUCKET_GENERATORS.size())); return it->first; }
    if (k == DATASTORE_TYPE) return H::chance(50) ? "IN_MEMORY" : "LEVELDB";
    if (k == TRANSPORT) return "NULL";
    if (k == HASH) return "SUM_MOD_DATASTORES";
    if (k == TRANSPORT_ENDPOINT_GROUP) { if (H::chance(30)) return "ALL"; std::string s; for (int n = H::range(1, 4); n; n--) s += H::fmt("%d%s", (int) H::rnd(9), n > 1 ? " " : ""); return s; }
    if (k == HISTOGRAM_READ_EXISTING || k == HISTOGRAM_WRITE_AT_EXIT || k == "LEVELDB_CREATE_IF_MISSING") return H::chance(50) ? "true" : "FALSE";
    if (k == DATASTORE_PREFIX || k == DATASTORE_BASENAME || k == DATASTORE_POSTFIX) return H::chance(30) ? word() + " " + word() : word();
    if (k == ELEN_NEG_SYMBOL) return std::string(1, "!$*-"[H::rnd(4)]);
    if (k == ELEN_POS_SYMBOL) return std::string(1, ":;~|"[H::rnd(4)]);
    if (k == ELEN_ENCODE_FLOAT_PRECISION) return H::fmt("%d", (int) H::range(1, 6));
    if (k == ELEN_ENCODE_DOUBLE_PRECISION) return H::fmt("%d", (int) H::range(12, 20));
    return H::fmt("%d", (int) H::range(1, 100000));
}
static void sessions() {
    using namespace hxhim::config;
    std::vector<std::string> keys; for (auto &e : DEFAULT_CONFIG) keys.push_back(e.first);
    keys.push_back(HISTOGRAM_TRACK_PREDICATES);
    Ref want; for (auto &e : DEFAULT_CONFIG) want[e.first] = e.second;
    std::string hist = "session:";
    auto some = [&](bool env) {
        Ref r; const int n = H::chance(20) ? 0 : H::range(1, H::chance(30) ? 20 : 4);
        for (int i = 0; i < n; i++) { const std::string k = keys[H::rnd(keys.size())]; if (env && k == HISTOGRAM_TRACK_PREDICATES) continue; r[k] = k == HISTOGRAM_TRACK_PREDICATES ? word() : option(k); }
        return r;
    };
    auto file = [&](const Ref &r) { std::string t; for (auto &e : r) { if (H::chance(20)) t += "# comment\n\n"; t += e.first + gap() + e.second + "\n"; } return t; };
    unlink(CONFIG_FILE.c_str()); unsetenv(CONFIG_ENV.c_str());
    if (H::chance(60)) { Ref r = some(false); write(CONFIG_FILE, file(r)); for (auto &e : r) { want[e.first] = e.second; hist += " conf " + e.first + "=" + e.second; } }
    if (H::chance(60)) { Ref r = some(false); write("second", file(r)); setenv(CONFIG_ENV.c_str(), "second", 1); for (auto &e : r) { want[e.first] = e.second; hist += " file " + e.first + "=" + e.second; } }
    Ref r; if (H::chance(60)) r = some(true);
    for (auto &e : r) { setenv((HXHIM_ENV_NAMESPACE + e.first).c_str(), e.second.c_str(), 1); want[e.first] = e.second; hist += " env " + e.first + "=" + e.second; }
    H::begin(hist);
    {
        hxhim_private_t p; hxhim_t hx; hx.p = &p; p.running = false; p.range_server.datastores.config = nullptr; SIZE = H::range(1, 5);
        CHECK(default_reader(&hx, (MPI_Comm) MPI_COMM_WORLD) == HXHIM_SUCCESS, "default_reader failed");
        auto N = [&](const std::string &k) { return strtoull(want[k].c_str(), nullptr, 10); };
        #define OPT(k, v) CHECK((v) == N(k), "%s is %zu, the last source that mentions it says %s", k.c_str(), (size_t) (v), want[k].c_str())
        OPT(CLIENT_RATIO, p.range_server.client_ratio); OPT(SERVER_RATIO, p.range_server.server_ratio); OPT(DATASTORES_PER_SERVER, p.range_server.datastores.per_server);
        OPT(START_ASYNC_PUTS_AT, p.async_puts.max_queued); OPT(MAXIMUM_OPS_PER_REQUEST, p.queues.max_per_request.ops); OPT(MAXIMUM_SIZE_PER_REQUEST, p.queues.max_per_request.size);
        OPT(HISTOGRAM_FIRST_N, p.histograms.config.first_n);
        OPT(ELEN_ENCODE_FLOAT_PRECISION, p.range_server.datastores.transform.numeric_extra.float_precision); OPT(ELEN_ENCODE_DOUBLE_PRECISION, p.range_server.datastores.transform.numeric_extra.double_precision);
        #define STR(k, v) CHECK((v) == want[k], "%s is '%s', the last source that mentions it says '%s'", k.c_str(), std::string(v).c_str(), want[k].c_str())
        STR(DATASTORE_PREFIX, p.range_server.datastores.prefix); STR(DATASTORE_BASENAME, p.range_server.datastores.basename); STR(DATASTORE_POSTFIX, p.range_server.datastores.postfix);
        STR(ELEN_NEG_SYMBOL, std::string(1, p.range_server.datastores.transform.numeric_extra.neg)); STR(ELEN_POS_SYMBOL, std::string(1, p.range_server.datastores.transform.numeric_extra.pos));
        CHECK(p.async_puts.enabled == (N(START_ASYNC_PUTS_AT) != 0), "asynchronous PUTs");
        CHECK(p.debug_level == DEBUG_LEVELS.at(want[DEBUG_LEVEL]), "debug level %d, expected %s", p.debug_level, want[DEBUG_LEVEL].c_str());
        CHECK(p.histograms.config.generator == HISTOGRAM_BUCKET_GENERATORS.at(want[HISTOGRAM_BUCKET_GEN_NAME]) && p.histograms.config.extra_args == HISTOGRAM_BUCKET_GENERATOR_EXTRA_ARGS.at(want[HISTOGRAM_BUCKET_GEN_NAME]), "bucket generator, expected %s", want[HISTOGRAM_BUCKET_GEN_NAME].c_str());
        CHECK(p.histograms.read == (want[HISTOGRAM_READ_EXISTING] == "true") && p.histograms.write == (want[HISTOGRAM_WRITE_AT_EXIT] == "true"), "reading or writing histograms");
        CHECK(p.range_server.datastores.config && (p.range_server.datastores.config->type == DATASTORES.at(want[DATASTORE_TYPE])), "datastore type, expected %s", want[DATASTORE_TYPE].c_str());
        std::set<int> g; if (want[TRANSPORT_ENDPOINT_GROUP] == "ALL") for (int i = 0; i < SIZE; i++) g.insert(i); else { std::istringstream s(want[TRANSPORT_ENDPOINT_GROUP]); int i; while (s >> i) g.insert(i); }
        CHECK(p.transport.endpointgroup == g, "endpoint group, expected %s", want[TRANSPORT_ENDPOINT_GROUP].c_str());
        CHECK(p.histograms.names.size() == want.count(HISTOGRAM_TRACK_PREDICATES) || want[HISTOGRAM_TRACK_PREDICATES].find(',') != std::string::npos, "tracked predicates");
        if (hist.size() > 60) H::nontrivial++;
        destruct(p.range_server.datastores.config); destruct(p.transport.config);
    }
    for (auto &e : r) unsetenv((HXHIM_ENV_NAMESPACE + e.first).c_str());
}
int main() {
    H::init();
    while (H::time_left()) {
        switch (H::rnd(4)) { case 0: lookups(); break; case 1: sessions(); break; default: sequences(); }
        // the parser alone
        const std::string t = text(KEYS); H::begin("text [" + t + "]");
        Config::Config c; Ref r; reference(t, r); std::istringstream s(t);
        CHECK(parse_kv_stream(c, s) == !r.empty(), "reading reports another result");
        same(c, r, "text");
    }
    return H::finish("random sequences of configuration sources (files, variables, files named by variables, user readers), typed lookups, and whole sessions configured from defaults, files and variables");
}
