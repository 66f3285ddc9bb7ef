// where the contracts on the persistent datastores find members and virtual functions
#include <cstddef>
#include <leveldb/db.h>
#include <leveldb/write_batch.h>
#include <rocksdb/db.h>
#include <rocksdb/write_batch.h>
#include "datastore/LevelDB.hpp"
#include "datastore/RocksDB.hpp"
template <typename F> static std::size_t slot(F f) { union { F f; std::size_t at; } x; x.f = f; return x.at - 1; }
#define STORE(P, C, NS) \
extern "C" std::size_t P##_size() { return sizeof(::Datastore::C); } \
extern "C" std::size_t P##_callbacks() { return offsetof(::Datastore::C, callbacks); } \
extern "C" std::size_t P##_db() { return offsetof(::Datastore::C, db); } \
extern "C" std::size_t P##_options() { return offsetof(::Datastore::C, options); } \
extern "C" std::size_t P##_name() { return offsetof(::Datastore::C, name); } \
extern "C" std::size_t P##_create() { return offsetof(::Datastore::C, options) + offsetof(NS::Options, create_if_missing); } \
extern "C" std::size_t P##_createopt() { return offsetof(NS::Options, create_if_missing); } \
extern "C" std::size_t P##_options_size() { return sizeof(NS::Options); } \
extern "C" std::size_t P##_sync() { return offsetof(NS::WriteOptions, sync); } \
extern "C" std::size_t P##_snapshot() { return offsetof(NS::ReadOptions, snapshot); } \
extern "C" std::size_t P##_vwrite() { return slot<NS::Status (NS::DB::*)(const NS::WriteOptions &, NS::WriteBatch *)>(&NS::DB::Write); } \
extern "C" std::size_t P##_vget() { return slot<NS::Status (NS::DB::*)(const NS::ReadOptions &, const NS::Slice &, std::string *)>(&NS::DB::Get); }
STORE(leveldb, LevelDB, leveldb)
STORE(rocksdb, RocksDB, rocksdb)
extern "C" std::size_t rocksdb_nolog() { return offsetof(rocksdb::WriteOptions, disableWAL); }
extern "C" std::size_t leveldb_excl() { return offsetof(::Datastore::LevelDB, options) + offsetof(leveldb::Options, error_if_exists); }
extern "C" std::size_t rocksdb_excl() { return offsetof(::Datastore::RocksDB, options) + offsetof(rocksdb::Options, error_if_exists); }
extern "C" std::size_t leveldb_optsize() { return sizeof(leveldb::Options); }
extern "C" std::size_t rocksdb_optsize() { return sizeof(rocksdb::Options); }
#define ITER(P, NS) \
extern "C" std::size_t P##_vnewiter() { return slot<NS::Iterator *(NS::DB::*)(const NS::ReadOptions &)>(&NS::DB::NewIterator); } \
extern "C" std::size_t P##_vvalid() { return slot<bool (NS::Iterator::*)() const>(&NS::Iterator::Valid); } \
extern "C" std::size_t P##_vfirst() { return slot<void (NS::Iterator::*)()>(&NS::Iterator::SeekToFirst); } \
extern "C" std::size_t P##_vlast() { return slot<void (NS::Iterator::*)()>(&NS::Iterator::SeekToLast); } \
extern "C" std::size_t P##_vseek() { return slot<void (NS::Iterator::*)(const NS::Slice &)>(&NS::Iterator::Seek); } \
extern "C" std::size_t P##_vnext() { return slot<void (NS::Iterator::*)()>(&NS::Iterator::Next); } \
extern "C" std::size_t P##_vprev() { return slot<void (NS::Iterator::*)()>(&NS::Iterator::Prev); } \
extern "C" std::size_t P##_vkey() { return slot<NS::Slice (NS::Iterator::*)() const>(&NS::Iterator::key); } \
extern "C" std::size_t P##_vvalue() { return slot<NS::Slice (NS::Iterator::*)() const>(&NS::Iterator::value); }
ITER(leveldb, leveldb)
ITER(rocksdb, rocksdb)
