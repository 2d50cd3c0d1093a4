"""Counts the octets taken from the system's source of randomness.  To be
imported before anything that could keep a reference to os.urandom."""
import os
import random
import sys

taken = 0
_real = os.urandom


def urandom(n, *args):
    global taken
    taken += n
    return _real(n, *args)


for _m in list(sys.modules.values()) + [random]:
    for _n, _v in list(getattr(_m, "__dict__", {}).items()):
        if _v is _real and _m is not sys.modules[__name__]:
            setattr(_m, _n, urandom)
if hasattr(os, "getrandom"):
    _getrandom = os.getrandom

    def getrandom(n, *args):
        global taken
        r = _getrandom(n, *args)
        taken += len(r)
        return r
    os.getrandom = getrandom
