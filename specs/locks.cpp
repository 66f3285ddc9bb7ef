// where the contracts find what the two threads share, by name
#include <cstddef>
#include "hxhim/private/hxhim.hpp"
#define HPL(N, M) extern "C" std::size_t off_hp_##N() { return offsetof(hxhim_private, M); }
HPL(async_mutex, async_puts.mutex)
HPL(start_processing, queues.puts.start_processing)
HPL(done, async_puts.done)
extern "C" std::size_t size_puts() { return sizeof(hxhim::Queues<Message::Request::BPut>); }
HPL(thread, async_puts.thread)
