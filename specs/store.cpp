// a datastore whose own operations are only known by contract, and where the contracts find the members
#include <cstddef>
#include <new>
#include "datastore/datastore.hpp"
#include "datastore/InMemory.hpp"
struct AnyStore : public Datastore::Datastore {
    AnyStore(::Datastore::Transform::Callbacks *cb) : Datastore(0, 0, cb) {}
    bool OpenImpl(const std::string &) override;
    void CloseImpl() override;
    bool UsableImpl() const override;
    Message::Response::BPut    *BPutImpl   (Message::Request::BPut    *req) override;
    Message::Response::BGet    *BGetImpl   (Message::Request::BGet    *req) override;
    Message::Response::BGetOp  *BGetOpImpl (Message::Request::BGetOp  *req) override;
    Message::Response::BDelete *BDeleteImpl(Message::Request::BDelete *req) override;
    int WriteHistogramsImpl() override;
    std::size_t ReadHistogramsImpl(const ::Datastore::HistNames_t &names) override;
    int SyncImpl() override;
};
bool AnyStore::OpenImpl(const std::string &) { return true; }
extern "C" void any_store(void *p, ::Datastore::Transform::Callbacks *cb) { new (p) AnyStore(cb); }
extern "C" std::size_t size_store() { return sizeof(AnyStore); }
#define OFF(N, M) extern "C" std::size_t off_ds_##N() { return offsetof(AnyStore, M); }
OFF(hists, hists) OFF(callbacks, callbacks) OFF(puts, stats.puts) OFF(gets, stats.gets) OFF(getops, stats.getops) OFF(deletes, stats.deletes) OFF(mutex, mutex)
extern "C" std::size_t size_memstore() { return sizeof(Datastore::InMemory); }
extern "C" std::size_t off_ds_db() { return offsetof(Datastore::InMemory, db); }
extern "C" std::size_t off_ds_good() { return offsetof(Datastore::InMemory, good); }
extern "C" int ds_error() { return DATASTORE_ERROR; }
extern "C" int ds_unset() { return DATASTORE_UNSET; }
typedef std::pair<const std::string, std::string> Entry;
extern "C" std::size_t off_entry_second() { return offsetof(Entry, second); }
typedef std::pair<const std::string, std::shared_ptr<Histogram::Histogram> > HEntry;
extern "C" std::size_t off_hentry_second() { return offsetof(HEntry, second); }
typedef Datastore::Transform::Callbacks CB;
extern "C" std::size_t off_cb_encode() { return offsetof(CB, encode); }
extern "C" std::size_t off_cb_decode() { return offsetof(CB, decode); }
extern "C" std::size_t size_cb() { return sizeof(CB); }
typedef std::remove_reference<decltype(std::declval<CB>().encode)>::type EncMap;
typedef std::remove_reference<decltype(std::declval<CB>().decode)>::type DecMap;
extern "C" std::size_t off_enc_second() { return offsetof(EncMap::value_type, second); }
extern "C" std::size_t off_dec_second() { return offsetof(DecMap::value_type, second); }
extern "C" std::size_t off_encp_second() { typedef EncMap::mapped_type P; return offsetof(P, second); }
extern "C" std::size_t off_decp_second() { typedef DecMap::mapped_type P; return offsetof(P, second); }
extern "C" std::size_t off_cb_neg() { return offsetof(CB, numeric_extra.neg); }
extern "C" std::size_t off_cb_pos() { return offsetof(CB, numeric_extra.pos); }
#define TY(N) extern "C" int type_##N() { return (int) hxhim_data_t::HXHIM_DATA_##N; }
TY(INT32) TY(INT64) TY(UINT32) TY(UINT64) TY(FLOAT) TY(DOUBLE) TY(BYTE)
#define GO(N) extern "C" int getop_##N() { return (int) hxhim_getop_t::HXHIM_GETOP_##N; }
GO(EQ) GO(NEXT) GO(PREV) GO(FIRST) GO(LAST) GO(LOWEST) GO(HIGHEST) GO(INVALID)
extern "C" int type_MAX() { return (int) hxhim_data_t::HXHIM_DATA_MAX_KNOWN; }
extern "C" int key_success() { return HXHIM_SUCCESS; }
