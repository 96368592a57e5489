"""Persistent classes used by the harnesses (importable under a stable name, so that
they can be pickled).  Import only after boot.boot()."""
from durus.btree import BNode
from durus.persistent import Persistent, PersistentObject


class BNode3(BNode):
    minimum_degree = 3


class P(Persistent):
    """plain attributes in __dict__"""


class Q(Persistent):
    """another class with the same behaviour"""


class S(PersistentObject):
    """state in slots"""
    __slots__ = ['a', 'b', 'c']


class SD(PersistentObject):
    """slots in a base, __dict__ in the subclass"""
    __slots__ = ['a', '__dict__']


class SQ(S):
    """more slots in a subclass; one name repeated in the base"""
    __slots__ = ['d']


class SPriv(PersistentObject):
    """private slots"""
    __slots__ = ('a', '__b')


class _SPriv2(SPriv):
    """one more of the same name, __slots__ is a string"""
    __slots__ = '__b'


class Plain(object):
    """not persistent"""


class PlainSlots(object):
    __slots__ = ['p', 'q']


class PB(P):
    """a subclass of P"""
