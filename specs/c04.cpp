#define protected public
#include "datastore/datastore.hpp"
#undef protected
extern "C" int spec_success() { return HXHIM_SUCCESS; }
extern "C" int spec_max_type() { return HXHIM_DATA_MAX_KNOWN; }
