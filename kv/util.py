"""Shared pieces of the checks: profiles, loading and saving, object snapshots, mirrored edits."""
import copy
import os

from . import gen as G
from . import model as M
from . import spec as S
from . import sx
from .engine import Violation, Skip, call
from .monitor import SRC

SPECS = M.SPECS
DOCS = S.DOCS
ITEMS = [n for n, s in SPECS.items() if s.build and s.loads and n not in DOCS]
ALL = ITEMS + list(DOCS)
NOARG = ('DesignRules', 'Rule')            # to_sexpr with a calling convention of their own
EXT = {'Board': '.kicad_pcb', 'Footprint': '.kicad_mod', 'Schematic': '.kicad_sch', 'SymbolLib': '.kicad_sym', 'LibTable': '',
       'DesignRules': '.kicad_dru', 'WorkSheet': '.kicad_wks'}
DICT = {}


def dictionary():
    if not DICT:
        DICT['strs'], DICT['nums'] = G.harvest(os.path.join(SRC, 'kiutils'))
    return DICT


def ctx(run, **kw):
    """Random profile of one case"""
    r = run.rng
    d = dictionary()
    a = dict(wild=r.choice([0.05, 0.3, 0.3, 0.6, 0.95]), canon=r.random() < 0.5, size=r.choice([1, 2, 3, 4, 4, 6]),
             big=r.choice([0, 0, 0.01, 0.03, 0.1]), none=r.choice([0.0, 0.1, 0.4, 0.4, 0.7, 1.0]), flag=r.choice([0, 0.2, 0.5, 0.5, 0.8, 1]),
             blank=r.choice([0, 0.05, 0.05, 0.15, 0.6]), echo=r.choice([0, 0.02, 0.05, 0.3]), twin=r.choice([0, 0.1, 0.3]), more=r.choice([0, 0, 0.03, 0.1]), sharp=r.choice([0, 0, 0.15, 0.85]), linked=r.random() < 0.3, plain=r.choice([0, 0, 0.05, 0.25]))
    a.update(kw)
    return G.Ctx(r, d['strs'], d['nums'], **a)


def pick(run, docs=0.3, names=None):
    """Class under test: mostly items (cheap), the larger ones more often, and whole documents"""
    r = run.rng
    if names is None:
        if r.random() < docs:
            return r.choice(DOCS)
        names = ITEMS
    if 'w' not in run.memo:
        run.memo['w'] = {n: 2 + len(SPECS[n].fields) ** 0.8 for n in ALL}
    w = run.memo['w']
    return r.choices(names, [w[n] for n in names])[0]


def small(run, name, **kw):
    """Model of a class, of a size that fits the class"""
    if name in ('Board', 'Schematic'):
        kw.setdefault('size', run.rng.choice([1, 2, 2, 3]))
        kw.setdefault('big', run.rng.choice([0, 0, 0.01]))
    elif name in ('Footprint', 'SymbolLib'):
        kw.setdefault('size', run.rng.choice([1, 2, 3, 3]))
        kw.setdefault('big', run.rng.choice([0, 0, 0.02]))
    c = ctx(run, **kw)
    o = M.gen(c, name)
    if run.rng.random() < 0.05:
        kin(c, o)
    return o


def kinlists(name):
    """Lists of objects of a class that may hold anything"""
    return [(k, t) for k, t in SPECS[name].fields.items() if isinstance(t, M.List) and isinstance(t.t, (M.O, M.U)) and not (t.lo and t.lo == t.hi)
            and not isinstance(t, S.Units) and k not in TIED.get(name, ())]


def kin(c, o, which=None, kind=None):
    """Fill one list of an object with elements that differ from each other in one field only"""
    ways = [w for w in kinlists(o.cls) if which in (None, w[0])]
    if not ways:
        return None
    k, t = c.rng.choice(ways)
    c.depth = 0
    x = t.t.gen(c)
    for _ in range(200 if kind else 0):
        if x.cls == kind:
            break
        x = t.t.gen(c)
    v = M.family(c, t.t, x, 4 if x.cls in ('Footprint', 'Symbol', 'SchematicSymbol', 'HierarchicalSheet', 'Zone') else 24)
    c.rng.shuffle(v)
    o.f[k][:] = [M.mcopy(x)] + v
    return k


def parse(text):
    from kiutils.utils import sexpr
    return sexpr.parse_sexp(text)


def text_of(o):
    """Canonical text: file content for documents, one expression otherwise ('' if nothing is written)"""
    if o.cls in DOCS:
        return S.doc_text(o)
    n = M.build(o)
    return sx.render(n) if n else ''


def tree_of(o):
    if o.cls in DOCS:
        return S.doc_tree(o)
    n = M.build(o)
    return sx.tree(n) if n else None


def scrambled(o, rng, **kw):
    if o.cls in DOCS:
        return S.doc_scramble(o, rng, **kw)
    n = M.build(o)
    return sx.scramble(n, rng, **kw) if n else ''


def wrap(name, text):
    """Text handed to the parser: a rules file is a sequence of expressions"""
    return '(' + text + ')' if name == 'DesignRules' else text


def load(name, text):
    return SPECS[name].pyclass.from_sexpr(parse(wrap(name, text)))


def write(run, name, text, encoding='utf-8', newline='\n'):
    p = run.path(EXT[name])
    with open(p, 'w', encoding=encoding, newline=newline) as f:
        f.write(text)
    return p


def load_file(run, name, text):
    return SPECS[name].pyclass.from_file(write(run, name, text), encoding='utf-8')


def save(real, name, indent=0, newline=False):
    """Serialised text in the form ``text_of`` has"""
    if name in DOCS:
        return real.to_sexpr()
    if name == 'Rule':
        s = real.to_sexpr(indent=indent)
        return s[:-1] if s.endswith('\n') and not newline else s
    return real.to_sexpr(indent=indent, newline=newline)


def child_names(memo={}):
    """Names of the children each kind of expression can have: head -> names"""
    if not memo:
        import random
        rng = random.Random(7)
        for n in ALL:
            for i in range(6):
                c = G.Ctx(rng, wild=0, canon=True, size=2, big=0, none=0.0 if i < 4 else 0.5, flag=1 if i < 3 else 0)
                node = M.build(M.gen(c, n)) if n != 'DesignRules' else None
                todo = [node] if node else []
                while todo:
                    x = todo.pop()
                    for q in x.parts:
                        if q is not sx.BL and isinstance(q[1], sx.Node):
                            memo.setdefault(str(x.head), set()).add(str(q[1].head))
                            todo.append(q[1])
        for k, v in ALSO.items():
            memo.setdefault(k, set()).update(v.split())
        for k in memo:
            memo[k] = sorted(memo[k])
    return memo


ALSO = {'kicad_pcb': 'gr_text gr_text_box gr_line gr_rect gr_circle gr_arc gr_poly gr_curve image dimension target segment arc via zone group net footprint '
                     'module property setup layers title_block paper general version generator',
        'footprint': 'fp_text fp_text_box fp_line fp_rect fp_circle fp_arc fp_poly fp_curve image dimension pad zone group model property attr',
        'symbol': 'symbol property pin arc circle curve polyline rectangle text text_box extends pin_numbers pin_names in_bom on_board power',
        'kicad_wks': 'rect line polygon bitmap tbtext setup version generator',
        'kicad_sch': 'junction no_connect bus_entry bus_alias wire bus polyline arc circle rectangle image text text_box label global_label '
                     'hierarchical_label netclass_flag symbol sheet sheet_instances symbol_instances lib_symbols title_block paper uuid version generator',
        'fp_line': 'width'}
ALSO.update({h: 'width stroke' for h in 'fp_line fp_rect fp_circle fp_arc fp_poly fp_curve gr_line gr_rect gr_circle gr_arc gr_poly gr_curve'.split()})
for h in ('fp_arc', 'gr_arc'):
    ALSO[h] += ' angle'            # the form of KiCad 5
ALSO['module'] = ALSO['footprint']


def read_saved(name, text):
    return sx.read_all(text) if name == 'DesignRules' else sx.read(text)


def expect_tree(o, text, what='saved text'):
    want = tree_of(o)
    if want is None:
        if text.strip():
            raise Violation('%s of an empty %s is not empty' % (what, o.cls), text=text)
        return
    try:
        got = read_saved(o.cls, text)
    except sx.Bad as e:
        raise Violation('%s of %s is not well-formed: %s' % (what, o.cls, e), text=text, model=o)
    if not sx.same_tree(want, got):
        raise Violation('%s of %s: %s' % (what, o.cls, sx.first_diff(want, got)), text=text, model=o)


def expect_text(o, text, what='saved text'):
    want = text_of(o)
    if text != want:
        k = next((i for i, (a, b) in enumerate(zip(text, want)) if a != b), min(len(text), len(want)))
        raise Violation('%s of %s differs from the canonical text at %d: expected ...%r, found ...%r' % (
            what, o.cls, k, want[max(0, k - 50):k + 50], text[max(0, k - 50):k + 50]), model=o, text=text)


def expect_model(o, real, what):
    d = M.diff(real, o)
    if d:
        raise Violation('%s: %s%s' % (what, o.cls, d), model=o)


# -- snapshots -------------------------------------------------------------------------------------

def state(x):
    """Attributes of an object without private notes that take no part in comparisons"""
    d = vars(x)
    if any(k[0] == '_' for k in d):
        f = getattr(type(x), '__dataclass_fields__', {})
        return {k: v for k, v in d.items() if k[0] != '_' or k in f and f[k].compare}
    return d


def snap(x, seen=None):
    """Complete, comparable picture of a value: types, order, every attribute"""
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((snap(k), snap(v)) for k, v in x.items())
    if isinstance(x, type):
        return ('class', x.__qualname__)
    if hasattr(x, '__dict__'):
        return (type(x).__qualname__,) + tuple((k, snap(v)) for k, v in sorted(state(x).items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(repr, x)))
    return (type(x).__name__, repr(x))


def snapdiff(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] == b[0]:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                k = x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else i
                return snapdiff(x, y, '%s/%s' % (path, k))
    return '%s: %s -> %s' % (path, sx.short(a, 160), sx.short(b, 160))


def mutables(x, out=None, path=''):
    """id -> path of every list, dict and object reachable from x"""
    if out is None:
        out = {}
    if isinstance(x, (str, int, float, bool, bytes, type(None), type)):
        return out
    if id(x) in out:
        return out
    if isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out[id(x)] = path
        for i, v in enumerate(x):
            mutables(v, out, '%s[%d]' % (path, i))
    elif isinstance(x, dict):
        out[id(x)] = path
        for k, v in x.items():
            mutables(v, out, '%s[%r]' % (path, k))
    elif hasattr(x, '__dict__') and not callable(x):
        out[id(x)] = path
        for k, v in state(x).items():
            mutables(v, out, '%s.%s' % (path, k))
    return out


def shared(x):
    """Two paths that lead to one and the same list, dict or object below x, or None"""
    seen, todo = {}, [(x, '')]
    while todo:
        y, path = todo.pop()
        if isinstance(y, (str, int, float, bool, bytes, type(None), type)) or callable(y):
            continue
        if not isinstance(y, tuple):
            if id(y) in seen:
                return seen[id(y)] or '.', path
            seen[id(y)] = path
        if isinstance(y, (list, tuple)):
            todo += [(v, '%s[%d]' % (path, i)) for i, v in enumerate(y)]
        elif isinstance(y, dict):
            todo += [(v, '%s[%r]' % (path, k)) for k, v in y.items()]
        elif hasattr(y, '__dict__'):
            todo += [(v, '%s.%s' % (path, k)) for k, v in state(y).items()]
    return None


def deface(x, rng, seen=None):
    """Change everything changeable below x (keeps the shape walkable)"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, list):
        for v in list(x):
            deface(v, rng, seen)
        x.append('defaced')
        if len(x) > 1:
            x[0] = 'defaced'
    elif isinstance(x, dict):
        for v in list(x.values()):
            deface(v, rng, seen)
        for k in list(x):
            x[k] = 'defaced'
        x['defaced'] = 1
    elif hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x):
        for k, v in list(state(x).items()):
            if isinstance(v, (list, dict)) or (hasattr(v, '__dict__') and not isinstance(v, type)):
                deface(v, rng, seen)
            else:
                setattr(x, k, 'defaced')


# -- mirrored edits ----------------------------------------------------------------------------------

# fields that hang together with others; they are only replaced together with the whole object
TIED = {'Symbol': {'libraryNickname', 'entryName', 'unitId', 'styleId', 'pinNames', 'pinNamesHide', 'pinNamesOffset'},
        'HierarchicalSheet': {'properties'}, 'GrTextBox': {'angle', 'start', 'end', 'pts'},
        'FpTextBox': {'angle', 'start', 'end', 'pts'}, 'GrText': {'layer', 'knockout'}, 'PageSettings': {'paperSize', 'width', 'height'},
        'DrillDefinition': {'oval', 'width'}, 'TbText': {'justify'}}
for _n in ('FpLine', 'FpRect', 'FpCircle', 'FpArc', 'FpPoly', 'FpCurve'):
    TIED[_n] = {'width', 'stroke'}
M.TIED.update(TIED)


# ... or together with each other
GROUPS = dict(TIED, Symbol={'pinNames', 'pinNamesHide', 'pinNamesOffset'})
for _n in ('HierarchicalSheet', 'TbText'):
    del GROUPS[_n]


class Editor:
    """Applies one random edit to a model and to the real object at the same time"""
    def __init__(self, c):
        self.c, self.r = c, c.rng
        self.done = ''

    def edit_doc(self, o, real):
        self.done = ''
        for _ in range(30):
            if self.inside(o, real, {}, ''):
                return self.done
        return ''

    def fresh(self, t):
        m = t.gen(self.c)
        return m, t.real(m, self.r.choice([None, 'attr']))

    def inside(self, o, real, over, path):
        s = SPECS[o.cls]
        tied = TIED.get(o.cls, ())
        ks = [k for k in s.fields if k not in tied and not isinstance(over.get(k, s.fields[k]), M.Const)]
        if not ks:
            return False
        if o.cls in GROUPS and self.r.random() < 0.15 and not any(k in over for k in GROUPS[o.cls]):
            new = M.gen(self.c, o.cls, over)
            for k in sorted(GROUPS[o.cls], key=list(s.fields).index):
                o.f[k] = new.f[k]
                setattr(real, k, s.fields[k].real(new.f[k], None))
            self.done = 'change %s of %s' % (' and '.join(sorted(GROUPS[o.cls])), path or o.cls)
            return True
        k = self.r.choice(ks)
        t = over.get(k, s.fields[k])
        m, v = o.f[k], getattr(real, k)
        res = self.value(t, m, v, '%s.%s' % (path, k))
        if not res:
            return False
        m2, v2 = res
        o.f[k] = m2
        if v2 is not v:
            setattr(real, k, v2)
        return True

    def value(self, t, m, v, path):
        r = self.r
        if isinstance(t, M.Opt):
            if m is None:
                m2, v2 = self.fresh(t.t)
                self.done = 'set ' + path
                return m2, v2
            if r.random() < 0.3:
                self.done = 'clear ' + path
                return None, None
            return self.value(t.t, m, v, path)
        if isinstance(t, (M.O, M.U)):
            over = t.over if isinstance(t, M.O) else t.over.get(m.cls, {})
            if r.random() < 0.8:
                return (m, v) if self.inside(m, v, over, path) else None
            if path.endswith('.units[]'):
                return None
            self.done = 'replace ' + path
            return self.fresh(t)
        if isinstance(t, M.List):
            return self.items(t, m, v, path)
        if isinstance(t, M.Dict):
            op = r.randrange(3) if m else 0
            if op == 0:
                k, (m2, v2) = t.k.gen(self.c), self.fresh(t.v)
                m[k], v[k] = m2, v2
                self.done = 'add key to ' + path
            elif op == 1:
                k = r.choice(list(m))
                if len(m) <= t.lo:
                    return None
                del m[k], v[k]
                self.done = 'delete key of ' + path
            else:
                k = r.choice(list(m))
                m[k], v[k] = self.fresh(t.v)
                self.done = 'change key of ' + path
            return m, v
        if isinstance(t, M.Const):
            return None
        if isinstance(t, M.Bool):
            self.done = 'flip ' + path
            return (not m, not m)
        m2, v2 = self.fresh(t)
        self.done = 'change ' + path
        return m2, v2

    def items(self, t, m, v, path):
        r = self.r
        if isinstance(t, S.Units) or (t.lo and t.lo == t.hi):
            op = 'edit'
        else:
            op = r.choice(['append', 'insert', 'delete', 'replace', 'edit', 'edit', 'edit', 'swap', 'copy', 'clear', 'assign'])
        if op in ('append', 'insert'):
            m2, v2 = self.fresh(t.t)
            i = len(m) if op == 'append' else r.randrange(len(m) + 1)
            m.insert(i, m2)
            v.insert(i, v2) if op == 'insert' else v.append(v2)
        elif op == 'delete':
            if len(m) <= t.lo:
                return None
            i = r.randrange(len(m))
            del m[i], v[i]
        elif op == 'clear':
            if t.lo or not m:
                return None
            m.clear()
            v.clear()
        elif op == 'assign':
            m, v = self.fresh(t)
        elif not m:
            return None
        elif op == 'replace':
            i = r.randrange(len(m))
            m[i], v[i] = self.fresh(t.t)
        elif op == 'swap':
            i, j = r.randrange(len(m)), r.randrange(len(m))
            m[i], m[j] = m[j], m[i]
            v[i], v[j] = v[j], v[i]
        elif op == 'copy':
            i, j = r.randrange(len(m)), r.randrange(len(m) + 1)
            m.insert(j, M.mcopy(m[i]))
            v.insert(j, copy.deepcopy(v[i]))
        else:
            i = r.randrange(len(m))
            res = self.value(t.t, m[i], v[i], path + '[]')
            if not res:
                return None
            m[i] = res[0]
            if res[1] is not v[i]:
                v[i] = res[1]
            return m, v
        self.done = '%s %s' % (op, path)
        return m, v
