"""C02: bulk responses survive the wire unchanged (src/message/Packer.cpp, Unpacker.cpp)."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.msgs import *
from checks import c01

SOURCES = c01.SOURCES
RESS = [ResPut, ResGet, ResGetOp, ResDelete, ResHist]
UNITS = [Unit("pack %s" % c.name, u_pack(c), budget=200) for c in RESS] + [Unit("unpack %s" % c.name, u_unpack(c), budget=200) for c in RESS] + \
        [Unit("alloc_array<%s>" % t, u_alloc_array(t)) for t in ("Blob", "int")]
HARNESSES = [Harness("c02.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]
