"""A persistent class whose instances are counted.  Import only after boot.boot()."""
import gc
import weakref
from durus.persistent import Persistent

ARMED = False
REG = {}          # id -> weak reference to every live instance


class T(Persistent):
    def __new__(klass, *args, **kw):
        self = Persistent.__new__(klass)
        key = id(self)
        REG[key] = weakref.ref(self)
        return self

    # the documented _p_serial attribute, with a garbage collection at each look at it
    @property
    def _p_serial(self):
        if ARMED:
            gc.collect()
        return Persistent._p_serial.__get__(self)

    @_p_serial.setter
    def _p_serial(self, value):
        Persistent._p_serial.__set__(self, value)
