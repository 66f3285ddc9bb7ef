"""C16: every flushed operation is answered exactly once."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks.flush import *
from checks import flush

SOURCES = flush.SOURCES
UNITS = [Unit("process<%s>" % X, u_process(X)) for X in KINDS] + [Unit("remaining<%s>" % X, u_remaining(X)) for X in KINDS]
UNITS += [Unit("range_server<%s>" % X, u_serve(X)) for X in KINDS] + [Unit("range_server by operation", u_dispatch)]
HARNESSES = [Harness("c16.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]
UNITS += [Unit(n, u_flush_puts if n == "FlushPuts" else u_flush_one(n, X)) for n, X in PARTS.items()] + [Unit("Flush", u_flush_all), Unit("hxhimFlush*", u_flush_c), Unit("serial_puts", u_serial)]
UNITS += [Unit("async_put_thread", u_background), Unit("init::queues", u_queues)]
