// where the contracts find what a flush works on, by name
#include <cstddef>
#include "hxhim/private/hxhim.hpp"
#include "hxhim/private/Results.hpp"
#include "message/Messages.hpp"
#define FOFF(T) extern "C" std::size_t off_##T##_dst_rank() { return offsetof(Message::Request::T, dst_rank); } extern "C" std::size_t off_##T##_transport() { return offsetof(Message::Request::T, timestamps.transport); }
FOFF(BPut) FOFF(BGet) FOFF(BGetOp) FOFF(BDelete) FOFF(BHistogram)
extern "C" std::size_t off_hp_comm_rank() { return offsetof(hxhim_private, bootstrap.rank); }
extern "C" std::size_t off_hp_per_server() { return offsetof(hxhim_private, range_server.datastores.per_server); }
extern "C" std::size_t size_res_list() { return sizeof(hxhim::Results); }
extern "C" std::size_t off_hp_flushed() { return offsetof(hxhim_private, queues.puts.flushed); }
extern "C" std::size_t off_hp_done_check() { return offsetof(hxhim_private, async_puts.done_check); }
extern "C" std::size_t off_hp_comm_size() { return offsetof(hxhim_private, bootstrap.size); }
extern "C" std::size_t off_hp_client_ratio() { return offsetof(hxhim_private, range_server.client_ratio); }
extern "C" std::size_t off_hp_server_ratio() { return offsetof(hxhim_private, range_server.server_ratio); }
