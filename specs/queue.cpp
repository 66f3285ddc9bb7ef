// where the contracts find the session's members, by name
#include <cstddef>
#include "hxhim/private/hxhim.hpp"
#define HP(N, M) extern "C" std::size_t off_hp_##N() { return offsetof(hxhim_private, M); }
HP(running, running) HP(ops, queues.max_per_request.ops) HP(size, queues.max_per_request.size) HP(puts, queues.puts.queue) HP(puts_count, queues.puts.count) HP(puts_mutex, queues.puts.mutex)
HP(gets, queues.gets) HP(getops, queues.getops) HP(deletes, queues.deletes) HP(histograms, queues.histograms) HP(async, async_puts.enabled) HP(max_queued, async_puts.max_queued)
HP(hash_func, hash.func) HP(hash_args, hash.args) HP(ds_to_rank, queues.ds_to_rank) HP(rank, bootstrap.rank) HP(results, async_puts.results) HP(total, range_server.datastores.total) HP(ds, range_server.datastores.ds)
HP(transport, transport.transport) HP(stats, stats)
extern "C" std::size_t size_hp() { return sizeof(hxhim_private); }
extern "C" std::size_t size_list() { return sizeof(hxhim::QueueTarget<Message::Request::BGet>); }
extern "C" std::size_t off_hx_p() { return offsetof(hxhim_t, p); }
extern "C" std::size_t size_hx() { return sizeof(hxhim_t); }
extern "C" int hx_success() { return HXHIM_SUCCESS; }
extern "C" int hx_error() { return HXHIM_ERROR; }
extern "C" unsigned long flag_SPO() { return HXHIM_PUT_SPO; }
extern "C" unsigned long flag_SOP() { return HXHIM_PUT_SOP; }
extern "C" unsigned long flag_PSO() { return HXHIM_PUT_PSO; }
extern "C" unsigned long flag_POS() { return HXHIM_PUT_POS; }
extern "C" unsigned long flag_OSP() { return HXHIM_PUT_OSP; }
extern "C" unsigned long flag_OPS() { return HXHIM_PUT_OPS; }
extern "C" int type_byte() { return (int) hxhim_data_t::HXHIM_DATA_BYTE; }
extern "C" int type_float() { return (int) hxhim_data_t::HXHIM_DATA_FLOAT; }
extern "C" int type_double() { return (int) hxhim_data_t::HXHIM_DATA_DOUBLE; }
extern "C" unsigned long perm_at(unsigned long i) { return HXHIM_PUT_PERMUTATIONS[i]; }
extern "C" unsigned long perm_count() { return HXHIM_PUT_PERMUTATIONS_COUNT; }
HP(servers, range_server.total_range_servers)
