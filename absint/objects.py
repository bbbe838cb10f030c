"""Abstract heap objects."""

from . import bdd
from .values import UNBOUND


class ClassObj:
    def __init__(self, name, bases, ns, module="builtins", native=None, qual=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns
        self.module = module
        self.native = native  # real python type for builtin exceptions/object
        self.qual = qual or name
        self.mro = self._c3()
        self.ann = {}  # own annotations: name -> ast
        self.sites = {}
        self.dc = None  # dataclass info
        self.file = None

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassObj)]
        seqs.append([b for b in self.bases if isinstance(b, ClassObj)])
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("MRO conflict")
            out.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return UNBOUND, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.module}.{self.qual}>"


class Instance:
    _n = 0

    def __init__(self, cls, birth):
        self.cls = cls
        self.attrs = {}
        self.sites = {}
        self.birth = birth
        Instance._n += 1
        self.uid = Instance._n
        self.slots = None

    def __repr__(self):
        return f"<{self.cls.name} object>"


class FuncObj:
    def __init__(self, node, scope, interp, module, qual, defaults, kwdefaults, owner=None):
        self.node = node
        self.scope = scope
        self.module = module
        self.qual = qual
        self.name = getattr(node, "name", "<lambda>")
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def vkey(self):
        from .values import key

        return ("bm", id(self.func), key(self.self_))

    def __repr__(self):
        return f"<bound {self.func!r}>"


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PropertyObj:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class CachedProp:
    def __init__(self, f, name=None):
        self.f = f
        self.name = name


class SuperObj:
    def __init__(self, owner, self_):
        self.owner = owner
        self.self_ = self_


class ModuleObj:
    def __init__(self, name, file):
        self.name = name
        self.file = file
        self.ns = {}
        self.all = None

    def __repr__(self):
        return f"<module {self.name}>"


class NativeFn:
    """Model of a library/builtin function: impl(interp, args, kwargs)."""

    def __init__(self, name, impl):
        self.name = name
        self.impl = impl

    def __repr__(self):
        return f"<native {self.name}>"


class NativeMod:
    def __init__(self, name, attrs, fallback=None):
        self.name = name
        self.attrs = attrs
        self.fallback = fallback


class NativeObj:
    """Concrete library object (argparse, configparser, ...)."""

    def __init__(self, obj, hooks=None):
        self.obj = obj
        self.hooks = hooks or {}

    def vkey(self):
        return ("nobj", id(self.obj))


class TypeStub:
    """typing-only object; subscriptable, callable to identity."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<typing {self.name}>"


class Entry:
    __slots__ = ("g", "k", "v", "site")

    def __init__(self, g, k, v, site=None):
        self.g, self.k, self.v, self.site = g, k, v, site


class ListObj:
    kind = "list"

    def __init__(self, vals=(), birth=1):
        # entries: [guard, value]
        self.e = [[1, v] for v in vals]
        self.birth = birth

    def plain(self):
        return all(x[0] == 1 for x in self.e)

    def __repr__(self):
        return f"<list {len(self.e)}>"


class SetObj:
    def __init__(self, birth=1, frozen=False):
        self.e = []  # [guard, value]
        self.index = {}
        self.birth = birth
        self.frozen = frozen


class DictObj:
    def __init__(self, birth=1):
        self.e = []  # Entry
        self.index = {}  # concrete key -> Entry
        self.birth = birth
        self.default_factory = None
        self.ordered = True

    def __repr__(self):
        return f"<dict {len(self.e)}>"


class DictView:
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


class ByteArr:
    def __init__(self, val, birth):
        self.val = val
        self.birth = birth


class IterObj:
    """Iterator. seq: list of (guard, value) produced so far; src: python
    generator producing more; pos: int or G of ints."""

    def __init__(self, seq=None, src=None, birth=1):
        self.seq = seq if seq is not None else []
        self.src = src
        self.pos = 0
        self.birth = birth

    def fill(self, n):
        """ensure seq has > n entries; False if exhausted"""
        while len(self.seq) <= n:
            if self.src is None:
                return False
            try:
                self.seq.append(next(self.src))
            except StopIteration:
                self.src = None
                return False
        return True


class FileObj:
    def __init__(self, path, mode, content=None, birth=1):
        self.path = path
        self.mode = mode
        self.content = content  # ABytes/bytes/str for reading
        self.pos = 0
        self.writes = []  # (guard, text, site)
        self.closed = False
        self.birth = birth
        self.open_guard = birth

    def __repr__(self):
        return f"<file {self.path} {self.mode}>"


class SliceObj:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class FieldSpec:
    def __init__(self, default=UNBOUND, factory=None, init=True, kw_only=False, compare=True, repr_=True):
        self.default = default
        self.factory = factory
        self.init = init
        self.kw_only = kw_only
        self.compare = compare
        self.name = None
        self.classvar = False


class PartialObj:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class CacheFn:
    def __init__(self, f):
        self.f = f
        self.memo = {}


class CtxGen:
    """contextlib.contextmanager wrapped function."""

    def __init__(self, f):
        self.f = f


class CtxInst:
    def __init__(self, gen):
        self.gen = gen


class GenericCtx:
    """Library context manager model: kind in closing/suppress/null/exitstack."""

    def __init__(self, kind, data=None):
        self.kind = kind
        self.data = data


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value


class IntMember(int):
    """member of an integer enumeration"""

    def __new__(cls, ecls, name, value, plain):
        m = int.__new__(cls, value)
        m.ecls, m.mname, m.plain = ecls, name, plain
        return m


class StrMember(str):
    """member of a string enumeration"""

    def __new__(cls, ecls, name, value, plain):
        m = str.__new__(cls, value)
        m.ecls, m.mname, m.plain = ecls, name, plain
        return m


class Effect:
    __slots__ = ("kind", "g", "data", "stack")

    def __init__(self, kind, g, data, stack):
        self.kind, self.g, self.data, self.stack = kind, g, data, stack

    def __repr__(self):
        return f"Effect({self.kind},{self.g},{self.data})"
