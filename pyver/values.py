import z3
from .theory import *


class Unsupported(Exception):
    """a construct outside the verifier's Python subset"""

    def __init__(self, msg, node=None):
        super().__init__(msg + (" (line %d)" % node.lineno if node is not None and hasattr(node, "lineno") else ""))


class BindError(Exception):
    """a contract refers to a local variable that the current source does not have"""


class V:
    __slots__ = ("ty", "e")

    def __init__(self, ty, e):
        self.ty, self.e = ty, e

    def __repr__(self):
        return "V(%s:%s)" % (self.ty, self.e)


class PNone:
    def __repr__(self):
        return "None"


NONE = PNone()


class PTup:
    """Python-level tuple of known length (optionally a namedtuple)"""

    def __init__(self, items, names=None, cls=None):
        self.items, self.names, self.cls = list(items), names, cls

    def __repr__(self):
        return "PTup%r" % (self.items,)


class PStr:
    """string literal or structured string (concatenation of parts)"""

    def __init__(self, parts):
        self.parts = parts  # list of str | Value

    @property
    def const(self):
        return self.parts[0] if len(self.parts) == 1 and isinstance(self.parts[0], str) else ("" if not self.parts else None)

    def __repr__(self):
        return "PStr%r" % (self.parts,)


# contents of heap cells that have no symbolic type yet
class PL:
    """list literal with known items"""

    def __init__(self, items, kind="List"):
        self.items, self.kind = list(items), kind

    def __repr__(self):
        return "PL%r" % (self.items,)


class PEmpty:
    """empty set()/dict() of a type not known yet"""

    def __init__(self, kind):
        self.kind = kind


class PDict:
    """dict with known constant string keys"""

    def __init__(self, items):
        self.items = dict(items)


class PMap:
    """dict known entry by entry: [(key value, value)], later entries first; keys of any (mixed) kinds, compared by equality"""

    def __init__(self, entries=(), unknown=False):
        self.entries, self.unknown = list(entries), unknown


class POnce:
    """one-shot iterator: the items it still has to give (a list value)"""

    def __init__(self, e, lty):
        self.e, self.lty = e, lty

    def __repr__(self):
        return "POnce(%s)" % self.e


class Cell:
    __slots__ = ("c", "epoch", "escaped")

    def __init__(self, c, epoch=0, escaped=False):
        self.c, self.epoch, self.escaped = c, epoch, escaped


class Ref:
    """reference to a mutable container: a heap cell, or an element inside one"""

    def __init__(self, cid, path=(), epoch=None):
        self.cid, self.path, self.epoch = cid, tuple(path), epoch

    def __repr__(self):
        return "Ref(%s%s)" % (self.cid, "".join("[%s]" % p for p in self.path))


class ObjRef:
    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return "Obj(%s)" % self.oid


class Obj:
    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, dict(fields or {})

    def copy(self):
        return Obj(self.cls, self.fields)


class FuncV:
    def __init__(self, info, fid=None, bound=None, defcls=None, defaults=None):
        self.info, self.fid, self.bound, self.defcls, self.defaults = info, fid, bound, defcls, defaults or {}


class ClassV:
    def __init__(self, info):
        self.info = info


class SuperV:
    def __init__(self, obj, after, is_new=False):
        self.obj, self.after, self.is_new = obj, after, is_new


class ModV:
    def __init__(self, name, ext):
        self.name, self.ext = name, ext


class ExtV:
    """name of an external library function/class"""

    def __init__(self, name):
        self.name = name


class BoundM:
    """method of a builtin container / spec value"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SpecF:
    """a callable given by the contracts: fn(engine, st, args, kwargs, node) yields (st, value)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class GenV:
    """un-started generator object: call of a generator function, or a generator expression"""

    def __init__(self, func=None, args=None, genexp=None, scope=None):
        self.func, self.args, self.genexp, self.scope = func, args, genexp, scope
        self.outer = None


class It:
    """an iterable whose items are known as a set (each once, any order), as a list, or literally"""

    def __init__(self, kind, ety=None, e=None, items=None, lty=None, unique=True, deps=(), guard=None, once=False):
        self.kind, self.ety, self.e, self.items, self.lty = kind, ety, e, items, lty
        self.unique, self.deps, self.once = unique, tuple(deps), once


class RangeV:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class OptV:
    """value that is None exactly when `isnone`"""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val
