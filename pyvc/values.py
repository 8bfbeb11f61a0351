"""Value universe of the pyvc symbolic executor."""
from __future__ import annotations
import itertools
import z3

_ids = itertools.count()


class Untranslatable(Exception):
    """The construct is outside the verified subset: the obligation it belongs to is undischarged."""


class PathEnd(Exception):
    """This path is finished (infeasible, or cut at a loop head after its invariant was re-proved)."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, cls, args=(), payload=None):
        super().__init__(cls, args)
        self.cls = cls          # ClassVal or builtin exception class (python type)
        self.args_ = args

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassVal) else self.cls.__name__


class Val:
    __slots__ = ()


class SI(Val):
    """symbolic mathematical integer (a Python int of unknown value)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'SI({self.e})'


class SB(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'SB({self.e})'


class SF(Val):
    """a float of which nothing is known except an optional exact real expression"""
    __slots__ = ('e',)

    def __init__(self, e=None):
        self.e = e


class Opaque(Val):
    """a value about which nothing is known (only passed around)"""
    __slots__ = ('tag', 'id')

    def __init__(self, tag):
        self.tag = tag
        self.id = next(_ids)

    def __repr__(self):
        return f'Opaque({self.tag}#{self.id})'


class Obj(Val):
    """instance of a class of the code under verification"""
    __slots__ = ('cls', 'attrs', 'id', 'ghost')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.id = next(_ids)
        self.ghost = {}

    def __repr__(self):
        return f'<{self.cls.name}#{self.id} {self.attrs}>'


class Lst(Val):
    """mutable list: a known prefix and, optionally, an opaque rest"""
    __slots__ = ('items', 'tail', 'id')

    def __init__(self, items=(), tail=None):
        self.items = list(items)
        self.tail = tail
        self.id = next(_ids)

    def __repr__(self):
        return f'Lst#{self.id}({self.items}{", *" + str(self.tail) if self.tail is not None else ""})'


class Dct(Val):
    """mutable dict with concretely known keys"""
    __slots__ = ('d', 'id', 'default')

    def __init__(self, d=None, default=None):
        self.d = dict(d or {})
        self.id = next(_ids)
        self.default = default

    def __repr__(self):
        return f'Dct#{self.id}({self.d})'


class SetV(Val):
    __slots__ = ('s', 'id')

    def __init__(self, s=()):
        self.s = list(s)
        self.id = next(_ids)


class GenV(Val):
    """lazily evaluated generator expression"""
    __slots__ = ('it', 'src')

    def __init__(self, it, src=None):
        self.it = it
        self.src = src


class FuncVal(Val):
    __slots__ = ('node', 'module', 'qual', 'closure', 'owner', 'defaults')

    def __init__(self, node, module, qual, closure=None, owner=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.closure = closure
        self.owner = owner

    def __repr__(self):
        return f'<func {self.qual}>'


class BoundMethod(Val):
    __slots__ = ('self_', 'func')

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func


class ClassVal(Val):
    __slots__ = ('name', 'node', 'module', 'bases', 'members', 'qual')

    def __init__(self, name, node, module, bases, members):
        self.name = name
        self.node = node
        self.module = module
        self.bases = bases
        self.members = members
        self.qual = f'{module.path}:{name}' if module else name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.members:
                return c, c.members[name]
        return None, None

    def is_sub(self, other):
        if self is other:
            return True
        for b in self.mro():
            if b is other:
                return True
            if isinstance(b, type) and isinstance(other, type) and issubclass(b, other):
                return True
        return False

    def __repr__(self):
        return f'<class {self.name}>'


class ModVal(Val):
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class Extern(Val):
    """a name imported from outside the verified sources"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<extern {self.name}>'


class Builtin(Val):
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<builtin {self.name}>'


def zint(v):
    """z3 Int of a python int / SI / bool"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SI):
        return v.e
    if isinstance(v, SB):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Untranslatable(f'not an integer: {v!r}')


def is_int(v):
    return isinstance(v, (int, SI, SB))
