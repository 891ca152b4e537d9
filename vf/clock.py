"""Control of the interposed wall clock (vclock.c, preloaded by bin/check) and the host time zone."""
import ctypes
import os
import time
from contextlib import contextmanager

_lib = ctypes.CDLL(None)


class ClockUnavailable(Exception):
    pass


try:
    _lib.vclock_set.argtypes = [ctypes.c_longlong, ctypes.c_long]
    _lib.vclock_reads.restype = ctypes.c_ulonglong
    AVAILABLE = True
except AttributeError:
    AVAILABLE = False


def require():
    if not AVAILABLE:
        raise ClockUnavailable("virtual clock library is not preloaded")
    set_time(86400, 5)
    ok = int(time.time()) == 86400
    off()
    if not ok:
        raise ClockUnavailable("virtual clock is not effective")


def set_time(sec, nsec=0):
    _lib.vclock_set(int(sec), int(nsec))


def off():
    _lib.vclock_off()


def reads():
    return _lib.vclock_reads()


def set_zone(name):
    os.environ["TZ"] = name
    time.tzset()


@contextmanager
def at(sec, nsec=0, zone=None):
    set_time(sec, nsec)
    if zone is not None:
        set_zone(zone)
    try:
        yield
    finally:
        off()
        if zone is not None:
            set_zone("UTC")


# POSIX TZ strings work without a zoneinfo database and include DST rules and odd offsets.
ZONES = [
    "UTC", "XXX-14", "XXX+12", "XXX-5:45", "XXX+3:30", "XXX-0:01", "XXX+0:01",
    "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "<-03>3", "<+0530>-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0",
]
