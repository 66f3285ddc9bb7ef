// where the contracts find things, by name
#include "datastore/constants.hpp"
#include "datastore/transform.hpp"
extern "C" void *spec_encode(Datastore::Transform::Callbacks *c) { return &c->encode; }
extern "C" void *spec_decode(Datastore::Transform::Callbacks *c) { return &c->decode; }
extern "C" int spec_success() { return DATASTORE_SUCCESS; }
extern "C" int spec_type_int32()  { return HXHIM_DATA_INT32; }
extern "C" int spec_type_int64()  { return HXHIM_DATA_INT64; }
extern "C" int spec_type_uint32() { return HXHIM_DATA_UINT32; }
extern "C" int spec_type_uint64() { return HXHIM_DATA_UINT64; }
