"""C13: a PUT queues exactly the requested permutations (src/hxhim/ops/impl.cpp PutImpl and the calls that use it)."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.queues import *
from checks import queues

SOURCES = queues.SOURCES
UNITS = [Unit("PutImpl", u_put, budget=400)] + [Unit(call_name(*x), u_call(*x)) for x in CALLS if x[0] == "Put"] + [Unit("alloc_array<unsigned long>(count, value)", u_filled)]
HARNESSES = [Harness("c13.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]
