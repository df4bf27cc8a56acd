"""Declarative model of the kiutils data classes.

A ``Spec`` says which fields a class has, which values each field may take (the input domain of the
properties) and, through ``build``, which token tree with which layout represents it in a file.  From
that single description come: random models, real kiutils objects, field-by-field comparison of real
objects with models, canonical text and scrambled text.  The code under test is only ever *compared*
with this description, never used to produce the expectation.
"""
import importlib
import json
import os
from .sx import A, Q, Node, T, render, tree

SPECS = {}


class Obj:
    """Model value of one object"""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __getattr__(self, k):
        try:
            return self.f[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s(%s)' % (self.cls, ', '.join('%s=%r' % i for i in self.f.items()))

    def copy(self):
        return Obj(self.cls, {k: mcopy(v) for k, v in self.f.items()})


def mcopy(v):
    if isinstance(v, Obj):
        return v.copy()
    if isinstance(v, list):
        return [mcopy(x) for x in v]
    if isinstance(v, dict):
        return {k: mcopy(x) for k, x in v.items()}
    return v


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


# -- field types ---------------------------------------------------------------------------------

class Type:
    opt = False

    def real(self, v, how):
        return v

    def model(self, r):
        return r

    def diff(self, r, v, path):
        raise NotImplementedError


class Num(Type):
    def __init__(self, canon=False):
        self.canon = canon

    def gen(self, c):
        return c.num()

    def diff(self, r, v, path):
        if not isnum(r):
            return '%s: number %r expected, found %r' % (path, v, r)
        if r != v:
            return '%s: %r expected, found %r' % (path, v, r)


class Dec(Num):
    """Number written with a fixed number of decimals"""
    def __init__(self, places):
        self.places = places

    def gen(self, c):
        return c.dec(self.places)


class Int(Num):
    def __init__(self, lo=-1000, hi=1000):
        self.lo, self.hi = lo, hi

    def gen(self, c):
        return c.integer(self.lo, self.hi)


class Text(Type):
    def __init__(self, empty=True, layer=False):
        self.empty, self.layer = empty, layer

    def gen(self, c):
        if self.layer:
            return c.layer()
        return c.text(self.empty)

    def diff(self, r, v, path):
        if not isinstance(r, str) or r != v:
            return '%s: text %r expected, found %r' % (path, v, r)


class Atom(Text):
    """Bare identifier. Identifiers made of digits only may be handed out as numbers."""
    def gen(self, c):
        return c.atom()

    def __init__(self):
        pass

    def diff(self, r, v, path):
        if isinstance(r, (bool, type(None), list)) or str(r) != str(v):
            return '%s: identifier %r expected, found %r' % (path, v, r)


class Lax(Atom):
    """Value compared by spelling (version numbers and the like)"""
    def __init__(self, g):
        self.g = g

    def gen(self, c):
        return self.g(c)


class Enum(Text):
    def __init__(self, *vals):
        self.vals = vals

    def gen(self, c):
        return c.pick(self.vals)

    def diff(self, r, v, path):
        if type(r) is not type(v) or r != v:
            return '%s: %r expected, found %r' % (path, v, r)


class Word(Text):
    """Bare keyword: mostly one of the documented ones, sometimes another word"""
    def __init__(self, *vals):
        self.vals = vals

    def gen(self, c):
        return c.pick(self.vals) if not self.vals or c.rng.random() < 0.85 else c.word()


class Bool(Type):
    def gen(self, c):
        return c.boolean()

    def diff(self, r, v, path):
        if r is not v:
            return '%s: %r expected, found %r' % (path, v, r)


class Const(Type):
    """Not represented in the file; always at this value"""
    def __init__(self, v):
        self.v = v

    def gen(self, c):
        return mcopy(self.v)

    def diff(self, r, v, path):
        if r != v:
            return '%s: %r expected, found %r' % (path, v, r)


class Opt(Type):
    opt = True

    def __init__(self, t, p=None):
        self.t, self.p = t, p

    def gen(self, c):
        if not c.maybe(self.p):
            return None
        return self.t.gen(c)

    def real(self, v, how):
        return None if v is None else self.t.real(v, how)

    def model(self, r):
        return None if r is None else self.t.model(r)

    def diff(self, r, v, path):
        if v is None:
            return None if r is None else '%s: nothing expected, found %r' % (path, r)
        if r is None:
            return '%s: %s expected, found nothing' % (path, brief(v))
        return self.t.diff(r, v, path)


def brief(v):
    s = repr(v)
    return s if len(s) < 120 else s[:120] + '...'


# fields of a class that cannot be chosen independently (filled in by util)
TIED = {}


def family(c, t, x, most):
    """Elements of a list, each of which differs from x in one field only"""
    over = t.over if isinstance(t, O) else t.over.get(x.cls, {}) if isinstance(t, U) else None
    keys = [k for k in x.f if k not in TIED.get(x.cls, ())] if over is not None else []
    out = []
    c.depth += 1
    for k in c.rng.sample(keys, min(most, len(keys))):
        y = mcopy(x)
        for _ in range(3):
            y.f[k] = (over.get(k) or SPECS[y.cls].fields[k]).gen(c)
            if repr(y.f[k]) != repr(x.f[k]):
                break
        out.append(y)
    c.depth -= 1
    return out


def sibling(c, t, x):
    """An equal list element, or one that differs in one field only"""
    y = mcopy(x)
    if not isinstance(y, Obj) or c.rng.random() < 0.35:
        return y
    return (family(c, t, x, 1) or [y])[0]


def outline(r, pts):
    """Points of special position: on one line, along the axes, back and forth, closed"""
    k = r.randrange(5)
    x, y, d, e = r.randrange(-50, 50), r.randrange(-50, 50), r.choice([1, 2.54, 0.5, -1]), r.choice([0, 1, 0.5, -2])
    for i, p in enumerate(pts):
        if k == 0:
            p.f['X'] = x
            continue
        if k == 1:
            p.f['Y'] = y
            continue
        if k == 2:
            p.f['X'], p.f['Y'] = x + d * i, y + e * i
        elif k == 3:
            p.f['X'], p.f['Y'] = x + d * (i % 4 in (1, 2)), y + d * (i % 4 in (2, 3))
        else:
            p.f['X'], p.f['Y'] = pts[i % 2].f['X'], pts[i % 2].f['Y']
        for q in 'XY':
            if k < 4:
                v = round(p.f[q], 6)
                p.f[q] = int(v) if v == int(v) else v


class List(Type):
    def __init__(self, t, lo=0, hi=None):
        self.t, self.lo, self.hi = t, lo, hi

    def gen(self, c):
        n = c.count(self.lo, self.hi)
        if not n:
            return []
        c.depth += 1
        out = [self.t.gen(c) for _ in range(n)]
        c.depth -= 1
        if n > 1 and c.rng.random() < c.twin:
            i = c.rng.randrange(n)
            out[c.rng.choice([(i + 1) % n, n - 1, 0])] = sibling(c, self.t, out[i])
            if c.rng.random() < 0.6 and all(isinstance(x, Obj) and x.cls == 'Position' for x in out):
                outline(c.rng, out)
        return out

    def real(self, v, how):
        return [self.t.real(x, how) for x in v]

    def model(self, r):
        return [self.t.model(x) for x in r]

    def diff(self, r, v, path):
        if not isinstance(r, list):
            return '%s: list of %d expected, found %r' % (path, len(v), r)
        for i, (a, b) in enumerate(zip(r, v)):
            d = self.t.diff(a, b, '%s[%d]' % (path, i))
            if d:
                return d
        if len(r) != len(v):
            return '%s: %d element(s) expected, found %d' % (path, len(v), len(r))


class Dict(Type):
    def __init__(self, k, v, hi=None, lo=0):
        self.k, self.v, self.hi, self.lo = k, v, hi, lo

    def gen(self, c):
        out = {}
        for _ in range(c.count(self.lo, self.hi)):
            out[self.k.gen(c)] = self.v.gen(c)
        return out

    def real(self, v, how):
        return {k: self.v.real(x, how) for k, x in v.items()}

    def model(self, r):
        return {k: self.v.model(x) for k, x in r.items()}

    def diff(self, r, v, path):
        if not isinstance(r, dict):
            return '%s: mapping expected, found %r' % (path, r)
        for i, ((rk, rv), (vk, vv)) in enumerate(zip(r.items(), v.items())):
            d = self.k.diff(rk, vk, '%s key %d' % (path, i)) or self.v.diff(rv, vv, '%s[%r]' % (path, vk))
            if d:
                return d
        if len(r) != len(v):
            return '%s: %d entr(ies) expected, found %d' % (path, len(v), len(r))


class O(Type):
    """Object of one class; keyword arguments restrict fields"""
    def __init__(self, name, **over):
        self.name, self.over = name, over

    def gen(self, c):
        return gen(c, self.name, self.over)

    def real(self, v, how):
        return to_real(v, how)

    def model(self, r):
        return extract(r, self.name)

    def diff(self, r, v, path):
        return diff(r, v, path)


class U(Type):
    """Object of one of several classes"""
    def __init__(self, *names, **over):
        self.names, self.over = names, over

    def gen(self, c):
        n = c.pick(self.names)
        return gen(c, n, self.over.get(n, {}))

    def real(self, v, how):
        return to_real(v, how)

    def model(self, r):
        for n in self.names:
            if type(r) is SPECS[n].pyclass:
                return extract(r, n)
        raise TypeError('unexpected %r' % type(r))

    def diff(self, r, v, path):
        return diff(r, v, path)


class Spec:
    def __init__(self, name, module, pyname, fields, build, tune, loads):
        self.name, self.module, self.pyname = name, module, pyname
        self.fields, self.build, self.tune, self.loads = fields, build, tune, loads
        self._cls = None

    @property
    def pyclass(self):
        if self._cls is None:
            self._cls = getattr(importlib.import_module('kiutils.' + self.module), self.pyname)
        return self._cls


def spec(name, module, fields, build=None, tune=None, pyname=None, loads=True):
    SPECS[name] = Spec(name, module, pyname or name, fields, build, tune, loads)


DEFAULTS = {}


def plain(c, t, d):
    """The documented default d as a value of type t, or any value where d is not one"""
    if isinstance(t, Opt):
        return None if d is None else plain(c, t.t, d)
    if isinstance(t, (O, U)) and isinstance(d, dict):
        return gen(c, d['class'], (t.over if isinstance(t, O) else t.over.get(d['class'])) or {}, d)
    if isinstance(t, Bool) and isinstance(d, bool):
        return d
    if isinstance(t, Num) and isnum(d) and not (isinstance(t, Int) and not t.lo <= d <= t.hi):
        return int(d) if d == int(d) else d
    if isinstance(t, Enum) and d in t.vals or type(t).__name__ in ('Text', 'Paper') and isinstance(d, str) and (d or t.empty) or isinstance(t, Word) and isinstance(d, str) and d:
        return d
    if isinstance(t, List) and d == [] and not t.lo:
        return []
    if isinstance(t, Dict) and d == {} and not t.lo:
        return {}
    return t.gen(c)


def gen(c, name, over=None, default=None):
    s = SPECS[name]
    f = {}
    odd = None
    if default is None and c.plain and c.rng.random() < c.plain:
        if not DEFAULTS:
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'defaults.json')) as h:
                DEFAULTS.update(json.load(h)['objects'])
        default = DEFAULTS.get(name)
        odd = c.pick(list(s.fields)) if c.rng.random() < 0.6 else None       # all but one
    for k, t in s.fields.items():
        if over and k in over:
            t = over[k]
        f[k] = t.gen(c) if not default or k not in default or k == odd else plain(c, t, default[k])
    o = Obj(name, f)
    if s.tune:
        s.tune(c, o)
    return o


def build(o, **kw):
    return SPECS[o.cls].build(o, **kw)


def to_real(o, how=None):
    """Real kiutils object. ``how``: None = constructor, 'attr' = default object plus assignments"""
    s = SPECS[o.cls]
    vals = {k: t.real(o.f[k], how) for k, t in s.fields.items()}
    init = {k: v for k, v in vals.items() if not k.startswith('_') and not isinstance(getattr(s.pyclass, k, None), property)}
    props = {k: v for k, v in vals.items() if k not in init}
    if how == 'attr':
        r = s.pyclass()
        for k, v in init.items():
            setattr(r, k, v)
    else:
        r = s.pyclass(**init)
    for k, v in props.items():
        setattr(r, k, v)
    return r


def extract(r, name):
    s = SPECS[name]
    if type(r) is not s.pyclass:
        raise TypeError('%s expected, found %r' % (name, type(r)))
    return Obj(name, {k: t.model(getattr(r, k)) for k, t in s.fields.items()})


def diff(r, o, path=''):
    s = SPECS[o.cls]
    if not isinstance(r, s.pyclass):
        return '%s: %s expected, found %s' % (path or '.', s.pyname, brief(r))
    for k, t in s.fields.items():
        d = t.diff(getattr(r, k, '<no such field>'), o.f[k], '%s.%s' % (path, k))
        if d:
            return d
    return None


# -- building blocks -----------------------------------------------------------------------------

def opt(head, v, q=False, **kw):
    return None if v is None else T(head, Q(v) if q else v, **kw)


def xy(head, p, **kw):
    return T(head, p.X, p.Y, **kw)


def xya(head, p):
    return T(head, p.X, p.Y, p.angle)


def flag(head, v):
    return T(head) if v else None


XY = O('Position', angle=Const(None), unlocked=Const(False))
XYA = O('Position', unlocked=Const(False))
XYU = O('Position')
NUM, TEXT, ATOM, BOOL, LAYER = Num(), Text(), Atom(), Bool(), Text(layer=True)
ONUM, OTEXT, OATOM = Opt(NUM), Opt(TEXT), Opt(ATOM)
