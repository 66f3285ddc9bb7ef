#include "common.hpp"
#include "hxhim/Datastore.hpp"
#include "hxhim/RangeServer.hpp"
namespace HD = hxhim::Datastore; namespace RS = hxhim::RangeServer;
typedef long long ll;
// independent description: servers are the first s ranks of every block of c ranks
static bool server(ll rank, ll c, ll s) { return s >= c || (rank % c) < s; }

static void one(ll c, ll s, ll d, ll world) {
    H::begin(H::fmt("client=%lld server=%lld per_server=%lld world=%lld", c, s, d, world));
    ll rs = 0, id = 0;
    for (ll r = 0; r < world; r++) {
        const bool is = server(r, c, s);
        CHECK(RS::is_range_server((int) r, c, s) == (is ? 1 : 0), "is_range_server(%lld)", r);
        CHECK(RS::is_range_server((int) r, (int) world, c, s) == (is ? 1 : 0), "is_range_server(%lld, world)", r);
        if (!is) {
            CHECK(RS::get_id((int) r, c, s) == -1, "RS::get_id(%lld) of a non-server", r);
            for (ll o = 0; o < d; o++) {
                CHECK(HD::get_id((int) r, o, c, s, d) == -1, "HD::get_id(%lld,%lld) of a non-server", r, o);
                CHECK(HD::get_id((int) r, o, (int) world, c, s, d) == -1, "sized get_id(%lld,%lld) of a non-server", r, o);
            }
            continue;
        }
        CHECK(RS::get_id((int) r, c, s) == rs, "RS::get_id(%lld)", r);
        CHECK(RS::get_id((int) r, (int) world, c, s) == rs, "RS::get_id(%lld, world)", r);
        CHECK(RS::get_rank((int) rs, c, s) == r, "RS::get_rank(%lld)", rs);
        CHECK(RS::get_rank((int) rs, (int) world, c, s) == r, "RS::get_rank(%lld, world)", rs);
        rs++;
        for (ll o = 0; o < d; o++, id++) {
            H::nontrivial++;
            CHECK(HD::get_id((int) r, o, c, s, d) == id, "HD::get_id(%lld,%lld)", r, o);
            CHECK(HD::get_id((int) r, o, (int) world, c, s, d) == id, "sized HD::get_id(%lld,%lld)", r, o);
            CHECK(HD::get_rank((int) id, c, s, d) == r, "HD::get_rank(%lld)", id);
            CHECK(HD::get_rank((int) id, (int) world, c, s, d) == r, "sized HD::get_rank(%lld)", id);
        }
        CHECK(HD::get_id((int) r, d, c, s, d) == -1, "offset == per_server");
    }
    CHECK(HD::get_rank((int) id, (int) world, c, s, d) == -1, "id beyond the world");
    CHECK(RS::get_rank((int) rs, (int) world, c, s) == -1, "server id beyond the world");
    CHECK(RS::get_id((int) world, (int) world, c, s) == -1, "rank beyond the world");
    CHECK(RS::is_range_server((int) world, (int) world, c, s) == -1, "is_range_server beyond the world");
    CHECK(HD::get_id((int) world, 0, (int) world, c, s, d) == -1, "rank beyond the world");
    for (int z = 0; z < 8; z++) {
        const ll cc = (z & 1) ? c : 0, ss = (z & 2) ? s : 0, dd = (z & 4) ? d : 0;
        if (z == 7) break;
        if (!(cc && ss)) {
            CHECK(RS::get_id(0, cc, ss) == -1 && RS::get_rank(0, cc, ss) == -1 && RS::is_range_server(0, cc, ss) == -1, "zero ratio");
        }
        CHECK(HD::get_id(0, 0, cc, ss, dd) == -1 && HD::get_rank(0, cc, ss, dd) == -1, "zero argument");
    }
    CHECK(HD::get_rank(-1, c, s, d) == -1 && HD::get_id(-1, 0, c, s, d) == -1, "negative");
    CHECK(RS::get_rank(-1, c, s) == -1 && RS::get_id(-1, c, s) == -1 && RS::is_range_server(-1, c, s) == -1, "negative");
}

int main() {
    H::init();
    for (ll c = 1; c <= 7; c++) for (ll s = 1; s <= 8; s++) for (ll d = 1; d <= 4; d++) for (ll w : {1, 2, 3, 7, 16, 29}) one(c, s, d, w);
    while (H::time_left()) {
        const ll c = H::range(1, H::chance(50) ? 20 : 100000), s = H::range(1, H::chance(50) ? 20 : 100000), d = H::range(1, H::chance(80) ? 6 : 5000);
        // a random triple with large values, both directions
        ll rank = H::rnd(2147483647);
        if (!server(rank, c, s)) rank -= rank % c;
        const ll rs = s >= c ? rank : (rank / c) * s + rank % c;
        const ll off = H::rnd(d), id = rs * d + off;
        if (id > 2147483647ll || rank > 2147483647ll) continue;
        H::begin(H::fmt("client=%lld server=%lld per_server=%lld rank=%lld offset=%lld", c, s, d, rank, off));
        H::nontrivial++;
        CHECK(HD::get_id((int) rank, off, c, s, d) == id, "get_id, expected %lld", id);
        CHECK(HD::get_rank((int) id, c, s, d) == rank, "get_rank(%lld)", id);
        CHECK(RS::get_id((int) rank, c, s) == rs, "RS::get_id");
        CHECK(RS::get_rank((int) rs, c, s) == rank, "RS::get_rank");
        CHECK(HD::get_rank((int) id, (int) rank, c, s, d) == -1, "rank is outside a world of its own size");
        CHECK(RS::get_rank((int) rs, (int) rank, c, s) == -1, "rank is outside a world of its own size");
    }
    return H::finish("all ratios up to 7:8, up to 4 datastores per server, worlds of up to 29 ranks; then random large triples; non-trivial: one (server rank, offset) mapped both ways");
}
