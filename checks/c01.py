"""C01: bulk requests survive the wire unchanged (src/message/Packer.cpp, Unpacker.cpp)."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.msgs import *

SOURCES = ["src/message/%s.cpp" % n for n in ("Packer", "Unpacker", "Message", "Request", "Response", "SubjectPredicate", "BPut", "BGet", "BGetOp", "BDelete", "BHistogram")] + \
          ["src/utils/Blob.cpp", "src/utils/memory.cpp", "src/utils/Histogram.cpp", "specs/msgs.cpp"]
REQS = [ReqPut, ReqGet, ReqGetOp, ReqDelete, ReqHist]
UNITS = [Unit("pack %s" % c.name, u_pack(c), budget=200) for c in REQS] + [Unit("unpack %s" % c.name, u_unpack(c), budget=200) for c in REQS] + [Unit("alloc_array<%s>" % t, u_alloc_array(t)) for t in ("Blob", "void*", "hxhim_data_t", "hxhim_getop_t", "unsigned long")]
HARNESSES = [Harness("c01.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]
