"""helpers shared by the harnesses (run in both modes: symbolic and concrete)"""
import os
try:
    from symx.driver import Job
except ImportError:            # concrete replay: no z3 in the interpreter of the build
    class Job:
        def __init__(self, *a, **k):
            pass

ANY = [(0, 0xD7FF), (0xE000, 0x10FFFF)]
ASCII = [(0, 127)]
PRINT = [(32, 126)]


def opt_int(cx, name, lo, hi):
    """an int in lo..hi or None"""
    if cx.bool(name + '_none'):
        return None
    return cx.int(name, lo, hi)
