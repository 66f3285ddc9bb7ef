"""C19: background PUTs lose and duplicate nothing."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks import locks

SOURCES = locks.SOURCES
UNITS = [Unit(n, f) for n, f in locks.UNITS]
RACES = Harness("c19.cpp", full_sources(), FULL_LIBS + ["-Wl,--wrap=pthread_mutex_lock"], opt="-O1", san=["-fsanitize=thread"], budget=8, ld="g++")
HARNESSES = [RACES]
