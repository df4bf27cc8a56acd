"""The checks. Each entry of CHECKS decides one property of properties.jsonl."""
import ast
import builtins
import copy
import decimal
import gc
import glob
import hashlib
import io
import json
import locale
import logging
import math
import os
import pathlib
import pickle
import random
import re
import signal
import socket
import sys
import threading
import time
import types
import unicodedata
import warnings

from . import gen as G
from . import model as M
from . import monitor
from . import spec as S
from . import sx
from .engine import Skip, Violation, call
from .sx import A, Q, Str, T
from .util import (ALL, DOCS, EXT, ITEMS, SPECS, TIED, Editor, child_names, ctx, deface, dictionary, expect_model, expect_text, expect_tree, kin,
                   kinlists, load, load_file, mutables, parse, pick, read_saved, save, scrambled, shared, small, snap, snapdiff, state, text_of, tree_of, wrap, write)

CHECKS = {}


def check(prop, rule, **kw):
    def deco(fn):
        CHECKS[prop] = dict(case=fn, rule=rule, **kw)
        return fn
    return deco


def cls(name):
    return SPECS[name].pyclass


def must_raise(what, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except Exception as e:
        return e
    raise Violation('%s did not raise, it returned %s' % (what, sx.short(r)))


TESTDATA = {}


def plain_files():
    """Shipped files without a text that ends in a backslash (known finding)"""
    return [f for f in sorted(testdata()) if '\\\\"' not in TESTDATA[f][1]]


def testdata():
    """Real KiCad files that ship with the repository: path -> class"""
    if not TESTDATA:
        heads = {'kicad_pcb': 'Board', 'footprint': 'Footprint', 'module': 'Footprint', 'kicad_sch': 'Schematic',
                 'kicad_symbol_lib': 'SymbolLib', 'sym_lib_table': 'LibTable', 'fp_lib_table': 'LibTable', 'version': 'DesignRules',
                 'kicad_wks': 'WorkSheet'}
        for f in sorted(glob.glob('/repo/tests/testdata/**/*', recursive=True)):
            if not os.path.isfile(f) or os.path.getsize(f) > 400000:
                continue
            try:
                t = open(f, encoding='utf-8').read()
            except UnicodeDecodeError:
                continue
            h = t.lstrip()[1:40].split('(')[0].split()
            if h and h[0] in heads:
                TESTDATA[f] = (heads[h[0]], t)
    return TESTDATA


# ============================================================================ C01 parser fidelity

ATOMS = ['a', 'F.Cu', '*.Cu', 'F&B.Cu', '0x00010fc_ffffffff', '5e123456', '12ab', '1.2.3', '2022-01-01', '-', '--', '-a', '~', '${X}',
         'a-b', 'a.b', 'a:b', '/', '/a/b', '%R', '#1', "'", "it's", '^', 'a^b', 'None', 'nan', 'inf', '1mm', '0.5mm', '1/2', '3V3', '+3V3',
         '5e3f', '9e99x', '1_000', 'x' * 300, '\u00b5F', '\u03a9', '12-34', '4e-x', '\\', 'a\\b', 'a\\', ',', ';', '|', '[', ']', '{', '}',
         '<', '>', '=', '!', '?', '@', '&', '*', '`', '1.5V', '-x1', 'e-5', '.', '..', '6fa3-4e-5b', '1e5', '2E5', '3e+', '5e+x',
         '\uff11\uff12', '\u0663', '1\u0663', '-\uff15.\uff10', '\u9ad8\u3000\u62b5', 'a\xa0b', '1\xa0000', '\u2003', 'a\x1db', '\x85']


def spelled(r):
    """(text, value) of a number"""
    k = r.randrange(9)
    if k == 0:
        v = r.randrange(-10, 10)
        return str(v), v
    if k == 1:
        v = r.randrange(-10 ** 12, 10 ** 12)
        return str(v), v
    if k == 2:
        v = r.choice([2 ** 53 + 1, -(2 ** 63), 12345678901234567890, 10 ** 30 + 7])
        return str(v), v
    if k == 3:
        v = r.randrange(-10 ** 6, 10 ** 6)
        return '%d.%s' % (v, '0' * r.randrange(1, 7)), v
    if k == 4:
        v = round(r.uniform(-1000, 1000), r.randrange(1, 7))
        return '%.6f' % v, float('%.6f' % v)
    if k == 5:
        v = r.uniform(-1000, 1000)
        return repr(v), v
    if k == 6:
        m, e = r.randrange(1, 100), r.randrange(5, 12)
        s = '%s%d%se%s%02d' % (r.choice(['', '-']), m, r.choice(['', '.5', '.25']), r.choice('--+'), e)
        return s, float(s)
    if k == 7:
        v = r.randrange(0, 10 ** 6) / 10 ** r.randrange(1, 7)
        return '+%.6f' % v, float('%.6f' % v)
    return r.choice([('0', 0), ('-0', 0), ('0.0', 0), ('-0.0', 0), ('0.000000', 0), ('1.0', 1), ('0.1', 0.1)])


def same_values(a, b):
    """Parsed value b is what text says (a)"""
    if isinstance(a, list):
        return type(b) is list and len(a) == len(b) and all(same_values(x, y) for x, y in zip(a, b))
    if isinstance(a, str):
        return type(b) is str and a == b
    return M.isnum(b) and a == b


def value_diff(a, b, path='/'):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same_values(x, y):
                return value_diff(x, y, '%s%d/' % (path, i))
        return '%s %d items expected, %d found' % (path, len(a), len(b))
    return '%s expected %s, found %s' % (path, sx.short(a), sx.short(b))


def wild_tree(c, depth, width):
    """(text pieces, value) of a random expression; pieces are (kind, text)"""
    r = c.rng
    out, val = [], []
    for _ in range(r.randrange(0, width + 1)):
        k = r.random()
        if k < 0.3 and depth > 0:
            t, v = wild_tree(c, depth - 1, width)
            out.append(('n', t))
            val.append(v)
        elif k < 0.55:
            s = c.text()
            out.append(('q', Q(s).text()))
            val.append(s)
        elif k < 0.8:
            t, v = spelled(r)
            out.append(('a', t))
            val.append(v)
        else:
            s = r.choice(ATOMS) if r.random() < 0.6 else c.atom()
            if s.isdigit():
                s = 'u' + s
            out.append(('a', s))
            val.append(s)
    s = ['(']
    prev = None
    for kind, t in out:
        glue = prev is None or prev == 'n' or kind == 'n'
        if prev == 'a' and kind == 'q':
            glue = False
        if not glue or r.random() < 0.7:
            s.append(r.choice(sx.WSPACE))
        s.append(t)
        prev = kind
    if r.random() < 0.3:
        s.append(r.choice(sx.WSPACE))
    s.append(')')
    return ''.join(s), val


def lengths(r, cap):
    """Lengths around powers of two, powers of ten and the constants of the code under test"""
    n = r.choice([1000, 1024, 2000, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 100000])
    nums = [x for x in dictionary()['nums'] if 300 < x <= cap]
    if nums and r.random() < 0.4:
        n = int(r.choice(nums))
    return max(1, min(cap, n + r.choice([-1, 0, 1, r.randrange(0, 200)])))


def extreme(run):
    """Very deep, very long or very spread out texts"""
    r = run.rng
    k = r.choice(['depth', 'depth', 'string', 'escapes', 'word', 'white space', 'number', 'items', 'lists'])
    n = lengths(r, 100000)
    if k == 'depth':
        parts = [r.choice(['', 'a ', '"q" ', '1.5 ']) for _ in range(n)]
        text = ''.join('(' + x for x in parts) + 'x' + ')' * n
        got = call('parse_sexp', parse, text)
        for i, x in enumerate(parts):
            want = [] if not x else ['a'] if x == 'a ' else ['q'] if x == '"q" ' else [1.5]
            if type(got) is not list or got[:-1] != want or len(got) != len(want) + 1:
                raise Violation('parse_sexp of %d nested lists: level %d has %s instead of %s' % (n, i, sx.short(got[:-1], 80), want))
            got = got[-1]
        if got != 'x':
            raise Violation('parse_sexp of %d nested lists: the innermost is %s' % (n, sx.short(got, 80)))
    else:
        if k == 'string':
            a = ''.join(r.choices('ab cd()\n,.\u00e4', k=n))
            text, want = '(a %s b)' % Q(a).text(), ['a', a, 'b']
        elif k == 'escapes':
            a = ''.join(r.choices('a"b "', k=min(n, 20000)))
            text, want = '(a %s b)' % Q(a).text(), ['a', a, 'b']
        elif k == 'word':
            a = 'w' + ''.join(r.choices('abcdef0123456789-_.', k=n))
            text, want = '(a %s b)' % a, ['a', a, 'b']
        elif k == 'white space':
            w = ''.join(r.choices(' \n\t', k=n))
            text, want = w + '(' + w + 'a' + w + '(' + w + ')' + w + '"b"' + w + ')' + w[:300], ['a', [], 'b']      # trailing blanks cost quadratic time
        elif k == 'number':
            a = r.choice('123456789') + ''.join(r.choices('0123456789', k=min(n, 4000)))
            text, want = '(a %s -%s)' % (a, a), ['a', int(a), -int(a)]
        elif k == 'items':
            want = [r.choice(['a', 'hello', 'x y', 1, -2.5, 'GND']) for _ in range(n)]
            text = '(' + ' '.join('"%s"' % x if isinstance(x, str) and (' ' in x or r.random() < 0.3) else str(x) for x in want) + ')'
        else:
            want = [['xy', i, -i] for i in range(n)]
            text = '(' + r.choice([' ', '', '\n']).join('(xy %d %d)' % (i, -i) for i in range(n)) + ')'
        got = call('parse_sexp', parse, text)
        if not same_values(want, got):
            raise Violation('parse_sexp of an extreme text (%s, %d): %s' % (k, n, value_diff(want, got)))
    run.saw('extreme ' + k, '%s %d %s' % (k, n, text[:2000]))


@check('C01', 'one parse_sexp call whose result was compared, element by element, with what the reference reader (and, for generated '
       'trees, the generator) says the text contains; non-trivial: distinct texts with at least one list',
       must_see=['tree', 'document', 'deep', 'long', 'extreme depth', 'extreme string'],
       assumptions=['numbers are compared by value', 'spellings +5, 5. and .5 are not used (no documented meaning)'])
def c01(run):
    r = run.rng
    k = r.random()
    want = None
    if k < 0.55:
        kind = 'tree'
        text, want = wild_tree(ctx(run, file_safe=False), r.randrange(0, 7), r.choice([2, 4, 8, 12]))
    elif k < 0.75:
        kind = 'document'
        name = pick(run, 0.5)
        o = small(run, name)
        text = wrap(name, scrambled(o, r, reorder=True, quote_atoms=True, unquote=True))
        if not text:
            raise Skip()
    elif k < 0.8:
        kind = 'file'
        f = r.choice(plain_files() or [None])
        if f is None:
            raise Skip()
        text = wrap(testdata()[f][0], testdata()[f][1])
    elif k < 0.9:
        kind = 'deep'
        n = r.choice([20, 50, 100, 200, 300, 400])
        text, want = 'x', 'x'
        for i in range(n):
            pre = r.choice(['', 'a ', '"q" ', '1.5 '])
            text = '(%s%s%s)' % (pre, text, r.choice(['', ' ', '\n']))
            want = ([] if not pre else ['a'] if pre == 'a ' else ['q'] if pre == '"q" ' else [1.5]) + [want]
    else:
        kind = 'long'
        c = ctx(run, file_safe=False)
        n = r.choice([100, 255, 256, 257, 1000, 1001, 2500])
        parts, vals = [], []
        for _ in range(n):
            t, v = wild_tree(c, 1, 3)
            parts.append(t)
            vals.append(v)
        text, want = '(' + r.choice(['', ' ', '\n']).join(parts) + ')', vals
    if r.random() < 0.012:
        return extreme(run)
    if r.random() < 0.2:
        text = r.choice(['\n', ' ', '\t']) + text
    if r.random() < 0.4:
        text += r.choice(['\n', ' ', '\r\n', '\n\n'])
    ref = sx.values(sx.read(text))
    if want is not None and ref != want:
        raise RuntimeError('reference reader and generator disagree: %s' % value_diff(want, ref))
    got = call('parse_sexp', parse, text)
    run.saw(kind, text, '(' not in text)
    if not same_values(ref, got):
        raise Violation('parse_sexp: %s' % value_diff(ref, got), text=text)


# ============================================================================ C02 damaged input is rejected

def outside(text):
    """Positions of the brackets that are not inside a quoted string, and the extents of the strings"""
    br, strs, i, n = [], [], 0, len(text)
    while i < n:
        if text[i] in '()':
            br.append(i)
        elif text[i] == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == '\\' and text[j + 1] == '"' else 1
            strs.append((i, j))
            i = j
        i += 1
    return br, strs


@check('C02', 'one load of a truncated or unbalanced text (parse_sexp, from_sexpr or from_file), which had to raise, followed by a load of '
       'the undamaged text, which had to give the undamaged content; non-trivial: distinct damaged texts the reference reader rejects',
       flags=[[], ['-O'], [], ['-O'], [], ['-OO'], [], ['-O']], must_see=['cut', 'cut-in-string', 'bracket-removed', 'bracket-added', 'bracket-moved', 'trailing'],
       assumptions=['a text cut inside a quoted string that contains an escaped quote is left out (known finding)'])
def c02(run):
    r = run.rng
    k = r.random()
    name = None
    if k < 0.25:
        text, _ = wild_tree(ctx(run), r.randrange(1, 5), r.choice([2, 4, 8]))
        if text == '()':
            text = '(a)'
    elif k < 0.33 and plain_files():
        f = r.choice(plain_files())
        name, text = testdata()[f]
        if len(text) > 60000:
            raise Skip()
    else:
        name = pick(run, 0.7)
        o = small(run, name)
        text = text_of(o) if r.random() < 0.6 else scrambled(o, r)
        if not text:
            raise Skip()
    text = text.rstrip()
    br, strs = outside(text)
    op = r.choice(['cut', 'cut', 'cut', 'cut-last', 'cut-in-string', 'bracket-removed', 'bracket-added', 'empty', 'quote-cut',
                   'bracket-moved', 'bracket-moved', 'trailing'])
    if op == 'cut':
        p = r.randrange(1, len(text))
        bad = text[:p]
    elif op == 'cut-last':
        bad = text[:br[-r.randrange(1, min(len(br), 6) + 1)]]
    elif op in ('cut-in-string', 'quote-cut'):
        if not strs:
            raise Skip()
        a, b = r.choice(strs)
        p = r.randrange(a + 1, b + 1) if op == 'cut-in-string' else b
        bad = text[:p]
        op = 'cut-in-string'
    elif op == 'bracket-removed':
        p = r.choice(br)
        bad = text[:p] + ' ' + text[p + 1:]
    elif op == 'bracket-added':
        p = r.choice(br)
        bad = text[:p] + r.choice(['(', ')']) + text[p:] if r.random() < 0.5 else text + ')' * r.randrange(1, 3)
    elif op == 'bracket-moved':
        p = r.choice(br)
        q = r.choice(br + [0, len(text)])
        bad = text[:p] + ' ' + text[p + 1:]
        bad = bad[:q] + text[p] + bad[q:]
        if r.random() < 0.2:
            bad = bad.replace(')', '@', 1).replace('(', ')', 1).replace('@', '(', 1)
    elif op == 'trailing':
        bad = text + r.choice(['', ' ', '\n']) + r.choice(['(x)', ' x', '(layers)', '()', '""', '1', text, '(a (b c))', ') (', ')(', '\0', '\0' * 512, '\0(x)',
                                                           '\x1a', '\x1a x', '# x', '; x', '(', '"', 'EOF', '//', '\ufeff', r.choice(dictionary()['strs'] or ['x'])])
        if r.random() < 0.2:
            bad += r.choice(['', '\n', ' y', '(z)', text])
    else:
        bad = r.choice(['', ' ', '\n', '\t\n '])
    for a, b in strs:
        if op.startswith('cut') and a < len(bad) <= b and '\\"' in bad[a:]:
            raise Skip()
    # rejected by the reference reader?
    if name == 'DesignRules' and sx.HASH.search(bad):
        raise Skip()
    whole = wrap(name, bad) if name == 'DesignRules' else bad
    try:
        (sx.read_all if name == 'DesignRules' else sx.read)(bad)
        if bad.strip():
            raise Skip()
    except sx.Bad:
        pass
    via = 'parse'
    if name in DOCS and (r.random() < 0.7 or name == 'DesignRules' and not bad.strip()):
        via = 'file'
        p = write(run, name, bad)
        before = open(p, 'rb').read()
        must_raise('%s.from_file of a damaged file (%s)' % (name, op), cls(name).from_file, p, encoding='utf-8')
        if open(p, 'rb').read() != before:
            raise Violation('%s.from_file of a damaged file changed the file' % name)
    else:
        try:
            must_raise('parse_sexp of a damaged text (%s)' % op, parse, whole)
        except Violation as v:
            v.witness['text'] = whole
            raise
    run.saw(op, bad, not bad.strip())
    run.kinds['via ' + via] += 1
    # a good load afterwards is not affected
    good = wrap(name, text) if name else text
    got = call('parse_sexp after a rejected text', parse, good)
    ref = sx.values(sx.read(good))
    if not same_values(ref, got):
        raise Violation('after a rejected text, parse_sexp: %s' % value_diff(ref, got), text=good)


CHECKS['C02']['probes'] = {'escaped-quote-cut': r'''
import sys
from kiutils.utils.sexpr import parse_sexp
try:
    r = parse_sexp('(a "b\\" )')
except Exception:
    sys.exit(0)
sys.exit(3)
'''}


# ============================================================================ C03 load fidelity

@check('C03', 'one object tree produced by from_sexpr / from_file from a generated text and compared field by field (values, types, order, '
       'absence) with the model the text was written from, or, after one named token was taken out of the text, with the object loaded '
       'before: only what that token stood for may have changed, to its default; non-trivial: distinct texts with at least one token besides '
       'the head', must_see=['item', 'document', 'file', 'token missing'])
def c03(run):
    r = run.rng
    if r.random() < 0.2:
        return missing(run)
    name = pick(run)
    for _ in range(1 if name in DOCS else 4):
        o = small(run, name)
        kw = dict(reorder=r.random() < 0.6, quote_atoms=r.random() < 0.3, unquote=r.random() < 0.3)
        text = text_of(o) if r.random() < 0.25 else scrambled(o, r, **kw)
        if not text:
            continue
        if name in DOCS and r.random() < 0.5:
            if name == 'DesignRules' and r.random() < 0.5:
                text = sx.comment(text.replace('\r\n', '\n'), r)
                run.saw('comments', text)
            real = call('%s.from_file' % name, load_file, run, name, text.replace('\r\n', '\n'))
            run.saw('file', text)
        else:
            real = call('%s.from_sexpr' % name, load, name, text)
            run.saw('document' if name in DOCS else 'item', text, len(text) < len(name) + 4)
        run.kinds[name] += 1
        d = M.diff(real, o)
        if d:
            raise Violation('loading %s: %s' % (name, d), text=text, model=o)


CHECKS['C03']['probes'] = {'polygon-arcs': r'''
import sys
from kiutils.utils.sexpr import parse_sexp
from kiutils.items.zones import ZonePolygon
z = ZonePolygon.from_sexpr(parse_sexp('(polygon (pts (xy 1 2) (arc (start 1 2) (mid 3 4) (end 5 6)) (xy 5 6)))'))
sys.exit(3 if any(isinstance(getattr(c, 'X', 0), list) for c in z.coordinates) else 0)
''', 'gr-stroke': r'''
import sys
from kiutils.utils.sexpr import parse_sexp
from kiutils.items.gritems import GrLine
g = GrLine.from_sexpr(parse_sexp('(gr_line (start 1 2) (end 3 4) (stroke (width 0.3) (type dash)) (layer "F.Cu"))'))
sys.exit(3 if g.width == 0.12 and 'stroke' not in g.to_sexpr() else 0)
'''}


# tokens without which an item may refuse to load
REQUIRED = {('stroke', 'width'), ('bus_alias', 'members'), ('scale', 'xyz'), ('rotate', 'xyz'), ('offset', 'xyz'), ('pin', 'uuid'),
            ('model', 'scale'), ('model', 'rotate'), ('model', 'offset'), ('drill', 'offset'), ('fill', 'color')}


def missing(run):
    """Take one named token out: whatever it stood for is at its default, and nothing else changes"""
    r = run.rng
    name = pick(run, 0.15)
    if name == 'DesignRules':
        raise Skip()
    for _ in range(6):
        o = small(run, name, size=2, big=0)
        node = M.build(o)
        nodes = []

        def walk(n):
            for j, p in enumerate(n.parts):
                if p is not sx.BL and isinstance(p[1], sx.Node):
                    nodes.append((n, j))
                    walk(p[1])
        if not node:
            continue
        walk(node)
        if not nodes:
            continue
        a = call('%s.from_sexpr' % name, load, name, sx.render(node))
        n, j = r.choice(nodes)
        pair = str(n.head), str(n.parts[j][1].head)
        del n.parts[j]
        text = sx.render(node)
        try:
            b = load(name, text)
        except Exception as e:
            if pair in REQUIRED:
                run.kinds['refused'] += 1
                continue
            raise Violation('%s does not load without (%s ...) in (%s ...): %s: %s' % (name, pair[1], pair[0], type(e).__name__, e), text=text)
        run.saw('token missing', text)
        seen = []
        gone(a, b, name, seen)
        bad = [x for x in seen if x[0] == 'other']
        where = {x[1] for x in seen}
        if bad or len(where) > 1:
            raise Violation('taking (%s ...) out of (%s ...) changes %s' % (pair[1], pair[0], (bad or seen)[:4]), text=text)


def gone(a, b, path, out):
    """Differences between an object and the one loaded without a token: (kind, object they are in, what)"""
    if snap(a) == snap(b):
        return
    if type(a) is type(b) and hasattr(a, '__dict__'):
        dflt = state(type(a)())
        for k, x in state(a).items():
            y = state(b).get(k)
            if snap(x) == snap(y):
                continue
            if snap(y) == snap(dflt.get(k)) or k == 'tedit' and y is None:
                out.append(('default', path, k))
            else:
                gone(x, y, '%s.%s' % (path, k), out)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            gone(x, y, '%s[%d]' % (path, i), out)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b) + 1 and any(snap(a[:i] + a[i + 1:]) == snap(b) for i in range(len(a))):
        out.append(('removed', path, ''))
    elif isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) + 1 and any(
            snap({k: v for k, v in a.items() if k != kk}) == snap(b) for kk in a):
        out.append(('removed', path, ''))
    else:
        out.append(('other', path, '%s -> %s' % (sx.short(a, 60), sx.short(b, 60))))


# ============================================================================ C04 save and reload

def made(run, o):
    """A real object with the content of the model, obtained in one of several ways"""
    r = run.rng
    k = r.randrange(5)
    if k == 0:
        return M.to_real(o), 'constructed'
    if k == 4:
        x = M.to_real(o)
        if r.random() < 0.5:
            return call('copy.copy', copy.copy, x), 'copied'
        return pickle.loads(pickle.dumps(x)), 'copied'
    if k == 1:
        return M.to_real(o, 'attr'), 'assigned'
    text = text_of(o)
    if text and SPECS[o.cls].loads and k == 2:
        return call('loading %s' % o.cls, load, o.cls, text), 'loaded'
    return copy.deepcopy(M.to_real(o, r.choice([None, 'attr']))), 'copied'


@check('C04', 'one object written with to_sexpr / to_file, whose text was read by the reference reader and compared with the token tree '
       'the format specification demands, and loaded again by kiutils and compared field by field; non-trivial: distinct saved texts',
       must_see=['constructed', 'assigned', 'loaded', 'copied', 'through a file'])
def c04(run):
    r = run.rng
    name = pick(run)
    for _ in range(1 if name in DOCS else 3):
        o = small(run, name, exotic_num=r.random() < 0.5)
        real, how = made(run, o)
        if how != 'loaded':
            expect_model(o, real, 'object %s' % how)
        if name in DOCS and r.random() < 0.5:
            p = run.path(EXT[name])
            call('%s.to_file' % name, real.to_file, p, encoding='utf-8')
            with open(p, encoding='utf-8', newline='') as f:
                text = f.read()
            expect_tree(o, text, 'file')
            again = call('%s.from_file of a saved file' % name, cls(name).from_file, p, encoding='utf-8')
            run.kinds['through a file'] += 1
        else:
            text = call('%s.to_sexpr' % name, save, real, name)
            expect_tree(o, text)
            if not text:
                continue
            again = call('loading the saved text of %s' % name, load, name, text)
        run.saw(how, text)
        run.kinds[name] += 1
        d = M.diff(again, o)
        if d:
            raise Violation('saved and loaded again: %s%s' % (name, d), text=text, model=o)


# ============================================================================ C05 byte stability

@check('C05', 'one load-save(-load-save) chain whose bytes were compared: canonical files come back identical, other spellings are '
       'normalised to the canonical text once and are stable afterwards; non-trivial: distinct input texts',
       must_see=['canonical', 'other layout', 'shipped file', 'through files'])
def c05(run):
    r = run.rng
    k = r.random()
    if k < 0.06 and testdata():
        f = r.choice(sorted(testdata()))
        name, text = testdata()[f]
        one = call('save of %s' % f, lambda: call('load of %s' % f, load, name, text).to_sexpr())
        two = call('second save', lambda: load(name, one).to_sexpr())
        run.saw('shipped file', text)
        if one != two:
            i = next((i for i, (a, b) in enumerate(zip(one, two)) if a != b), min(len(one), len(two)))
            raise Violation('%s: saved, loaded and saved again gives other bytes at %d: %r / %r' % (f, i, one[i - 40:i + 40], two[i - 40:i + 40]))
        return
    name = pick(run, 0.4)
    o = small(run, name, canon=True)
    want = text_of(o)
    if not want:
        raise Skip()
    canonical = r.random() < 0.6
    text = want if canonical else scrambled(o, r, reorder=r.random() < 0.7, quote_atoms=r.random() < 0.3)
    run.saw('canonical' if canonical else 'other layout', text)
    run.kinds[name] += 1
    if name in DOCS and r.random() < 0.5:
        run.kinds['through files'] += 1
        p = write(run, name, text.replace('\r\n', '\n'))
        for step in range(3):
            real = call('%s.from_file' % name, cls(name).from_file, p, encoding='utf-8')
            if step == 1 and r.random() < 0.5:
                p = run.path(EXT[name])
                call('%s.to_file' % name, real.to_file, p, 'utf-8')
            else:
                call('%s.to_file' % name, real.to_file, encoding='utf-8')
            with open(p, 'rb') as f:
                got = f.read()
            if os.linesep.encode() != b'\n':
                got = got.replace(os.linesep.encode(), b'\n')
            expect_text(o, got.decode('utf-8'), 'file after %d load/save' % (step + 1))
    else:
        for step in range(2):
            real = call('%s.from_sexpr' % name, load, name, text)
            text = call('%s.to_sexpr' % name, save, real, name)
            expect_text(o, text, 'text after %d load/save' % (step + 1))


CHECKS['C05']['probes'] = {'leading-zeros': r'''
import sys
from kiutils.footprint import Footprint
from kiutils.utils.sexpr import parse_sexp
t = '(footprint "x" (layer "F.Cu")\n  (tedit 00000000)\n)'
sys.exit(0 if '(tedit 00000000)' in Footprint.from_sexpr(parse_sexp(t)).to_sexpr() else 3)
'''}


# ============================================================================ C06 well-formed output

UNSET = {'GrLine': ('width', 'layer', 'angle', 'tstamp'), 'GrRect': ('width', 'fill', 'tstamp', 'layer'),
         'GrCircle': ('width', 'fill', 'tstamp', 'layer'), 'GrArc': ('width', 'tstamp', 'layer'),
         'GrPoly': ('width', 'fill', 'tstamp', 'layer'), 'GrCurve': ('width', 'tstamp', 'layer')}


@check('C06', 'one to_sexpr result (some indent, newline on or off) read by the reference reader and compared with the token tree of the '
       'object; non-trivial: distinct (object, indent, newline)',
       must_see=['default object', 'generated', 'newline', 'no newline', 'no arguments'])
def c06(run):
    r = run.rng
    if r.random() < 0.1:
        name = r.choice([n for n in ALL if n not in INCOMPLETE])
        real = call('%s()' % name, cls(name))
        default(run, name, real)
        return
    name = pick(run)
    o = small(run, name)
    if name in UNSET and r.random() < 0.5:
        for k in UNSET[name]:
            if r.random() < 0.5:
                o.f[k] = None
    real, how = made(run, o) if name not in UNSET else (M.to_real(o), 'constructed')
    want = tree_of(o)
    for _ in range(3):
        indent, newline = r.choice([0, 0, 1, 2, 3, 4, 7, 8, 20]), r.random() < 0.5
        if name == 'Rule':
            text = call('Rule.to_sexpr', real.to_sexpr, indent=indent)
            newline = True
        else:
            text = call('%s.to_sexpr' % name, real.to_sexpr, indent=indent, newline=newline)
        run.saw('generated', '%d %d %s' % (indent, newline, text))
        run.kinds[name] += 1
        run.kinds['newline' if newline else 'no newline'] += 1
        expect_tree(o, text, 'to_sexpr(indent=%d, newline=%s)' % (indent, newline))
        if want is None:
            continue
        ends(name, text, newline)
    # without arguments: the documented indentation and line end
    kw = docdata()['calls'][name]
    a, b = call('%s.to_sexpr' % name, real.to_sexpr), call('%s.to_sexpr' % name, real.to_sexpr, **kw)
    if a != b:
        raise Violation('%s.to_sexpr() differs from to_sexpr(%s)' % (name, ', '.join('%s=%r' % i for i in kw.items())), found=a, expected=b)
    run.saw('no arguments', a)


def ends(name, text, newline):
    if name == 'DesignRules':
        return
    if newline and not (text.endswith(')\n') and not text.endswith('\n\n')):
        raise Violation('%s.to_sexpr with newline does not end in exactly one newline after its bracket' % name, text=text[-80:])
    if not newline and not text.endswith(')'):
        raise Violation('%s.to_sexpr without newline does not end in its closing bracket' % name, text=text[-80:])


def default(run, name, real):
    r = run.rng
    texts = []
    for indent, newline in ((0, False), (0, True), (r.randrange(1, 9), False), (r.randrange(1, 9), True)):
        if name == 'Rule':
            t = call('Rule().to_sexpr', real.to_sexpr, indent=indent)
        else:
            t = call('%s().to_sexpr' % name, real.to_sexpr, indent=indent, newline=newline)
        run.saw('default object', '%s %d %d' % (name, indent, newline))
        if not t.strip():
            texts.append(None)
            continue
        try:
            texts.append(read_saved(name, t))
        except sx.Bad as e:
            raise Violation('default %s is written as malformed text: %s' % (name, e), text=t)
        if name != 'Rule':
            ends(name, t, newline)
    for t in texts[1:]:
        if t != texts[0]:
            raise Violation('default %s: tokens depend on indent or newline: %s' % (name, sx.first_diff(texts[0], t)))

    if name in NOTHING and texts[0] is not None:
        raise Violation('default %s is written although it has no points' % name)
    if name not in NOTHING:
        expect_tree(M.extract(real, name), save(real, name), 'default')
        if texts[0] is not None and name not in UNNAMED and name not in DOCS:
            again = call('loading a default %s' % name, load, name, save(real, name))
            if plain(again) != plain(real):
                raise Violation('default %s, saved and loaded: %s' % (name, data_diff(plain(real), plain(again))))

    def bare(t):
        return any(bare(x) if isinstance(x, list) else (not isinstance(x, Str) and x in ('None', 'True', 'False', '[]')) for x in t)
    if texts[0] is not None and bare(texts[0]):
        raise Violation('default %s is written with a Python constant in it' % name, text=str(texts[0]))


NOTHING = {'GrPoly', 'GrCurve', 'FpPoly', 'FpCurve', 'ZonePolygon', 'FilledPolygon', 'FillSegments'}      # written only with points
UNNAMED = {'Symbol', 'SchematicSymbol', 'HierarchicalSheet'}      # need a name first; precision of the fill colour
INCOMPLETE = {'Dimension', 'Zone', 'FpTextBox', 'GrTextBox'}      # refuse writing until points, layers or corners are set


# ============================================================================ C07 edits

@check('C07', 'one step of an editing history on a loaded or constructed document: after every edit (field, list, mapping, nested object, '
       'moved or copied item) the document must serialise to exactly the canonical text of the equally edited model; '
       'non-trivial: distinct texts after an edit that changed the text', must_see=['edit', 'reload', 'file'], quick_s=48)
def c07(run):
    r = run.rng
    name = r.choice(['Board', 'Board', 'Schematic', 'Schematic', 'Footprint', 'Footprint', 'SymbolLib', 'SymbolLib', 'LibTable',
                     'DesignRules', 'WorkSheet']) if r.random() < 0.75 else pick(run, 0)
    o = small(run, name, canon=True)
    real, how = made(run, o)
    text = call('save', save, real, name)
    expect_text(o, text, 'text before the first edit')
    c = ctx(run, canon=True, size=2, big=0, none=0.3)
    ed = Editor(c)
    hist = []
    for _ in range(r.choice([3, 6, 12])):
        try:
            what = ed.edit_doc(o, real)
        except (AttributeError, KeyError, IndexError, TypeError) as e:
            raise Violation('the object cannot be edited like its model (%s)' % e, history=hist)
        if not what:
            continue
        hist.append(what)
        if r.random() < 0.3:
            continue
        old = text
        text = call('to_sexpr after %s' % what, save, real, name)
        try:
            expect_text(o, text, 'text after %s' % ' / '.join(hist[-4:]))
        except Violation as v:
            v.witness['history'] = hist
            raise
        run.saw('edit', text, text == old)
        run.kinds[name] += 1
        k = r.random()
        if k < 0.1 and text:
            real = call('reload', load, name, text)
            run.kinds['reload'] += 1
            expect_model(o, real, 'reload after %s' % ' / '.join(hist[-4:]))
        elif k < 0.2 and name in DOCS:
            p = run.path(EXT[name])
            call('to_file', real.to_file, p, encoding='utf-8')
            run.kinds['file'] += 1
            with open(p, encoding='utf-8', newline='') as f:
                expect_text(o, f.read(), 'file after %s' % ' / '.join(hist[-4:]))
            if r.random() < 0.5:
                real = call('from_file', cls(name).from_file, p, encoding='utf-8')
        elif k < 0.25:
            real = copy.deepcopy(real)
    text = call('final to_sexpr', save, real, name)
    expect_text(o, text, 'text after %s' % ' / '.join(hist[-4:]))


# ============================================================================ C08 text is opaque

def every_field(kind):
    """All (class, field) and, for classes that are not written on their own, (class, field, field of the part) whose values or
    elements are plain texts or plain numbers"""
    out = []

    def base(t):
        while isinstance(t, (M.Opt, M.List)):
            t = t.t
        return t.v if isinstance(t, M.Dict) else t
    for name in sorted(ALL):
        for k, t in SPECS[name].fields.items():
            b = base(t)
            if k in TIED.get(name, ()) or name == 'DrillDefinition':
                continue
            if type(b) is kind:
                out.append((name, k, None, b))
            elif isinstance(b, M.O) and b.name not in ALL:
                for kk, tt in SPECS[b.name].fields.items():
                    bb = base(b.over.get(kk, tt))
                    if type(bb) is kind:
                        out.append((name, k, kk, bb))
    return out


def put(t, v, old):
    """A value of type t that carries v"""
    if isinstance(t, M.Opt):
        return put(t.t, v, old)
    if isinstance(t, M.List):
        if t.lo and t.lo == t.hi:
            return None
        return [put(t.t, v, None)] * max(1, t.lo) if v != '' else [put(t.t, x, None) for x in ['a', v, 'b']]
    if isinstance(t, M.Dict):
        return {**(old or {}), next(iter(old)) if old else (1 if isinstance(t.k, M.Num) else 'key'): v}
    return v


def sweep(run, kind, values, n, what):
    """One field of one class (all of them in turn) with each value of a catalogue, everything else being ordinary"""
    r = run.rng
    fields = run.memo.setdefault(what, None) or every_field(kind)
    run.memo[what] = fields
    name, k, part, b = fields[n % len(fields)]
    t = SPECS[name].fields[k]
    o = small(run, name, wild=0.0, none=0 if part else r.choice([0, 0, 0.5]), canon=True, size=1, big=0, blank=0, more=0)
    if part:
        # the last one if there are several
        inner = o.f[k]
        while isinstance(inner, list) and inner:
            inner = inner[-1]
        if not isinstance(inner, M.Obj):
            raise Skip()
    for v in values:
        if getattr(b, 'empty', True) is False and not v:
            continue
        if part:
            inner.f[part] = v
        else:
            x = put(t, v, o.f[k])
            if x is None:
                raise Skip()
            o.f[k] = x
        real = M.to_real(o, r.choice([None, 'attr']))
        text = call('%s.to_sexpr' % name, save, real, name)
        expect_tree(o, text)
        if not text:
            continue
        d = M.diff(call('loading %s with %s %s' % (name, k, sx.short(repr(v), 60)), load, name, text), o)
        run.saw(what, '%s.%s %r' % (name, part or k, v))
        if d:
            raise Violation('%s.%s = %s saved and loaded: %s' % (name, part or k, sx.short(repr(v), 100), d), text=text)
    run.kinds['field ' + what] += 1


@check('C08', 'one object carrying hostile text in every text field, saved, read by the reference reader (the text has to be one quoted '
       'token and nothing else may change) and loaded again (the text has to come back unchanged); non-trivial: distinct saved texts',
       must_see=['hostile', 'one field', 'through a file', 'field texts'],
       assumptions=['text ending in a backslash is left out (known finding)'])
def c08(run):
    r = run.rng
    if run.idx % 151 == 4:
        c = ctx(run, wild=1.0)
        d = dictionary()['strs']
        values = G.WORDS + G.NASTY + r.sample(d, min(len(d), 120)) + [c.newtext(True) for _ in range(60)]
        return sweep(run, M.Text, [v for v in values if c.ok_text(v)], run.idx // 151, 'texts')
    name = pick(run, 0.25)
    tame = r.random() < 0.4
    o = small(run, name, wild=0.0 if tame else 1.0, none=r.choice([0, 0, 0.3]), canon=True)
    kind = 'hostile'
    if tame:
        # one field, one text
        c = ctx(run, wild=1.0)
        kind = 'one field'
        places = []

        def walk(m, over):
            tied = TIED.get(m.cls, ()) if m.cls not in ('GrText',) else ()
            for k, t in SPECS[m.cls].fields.items():
                t = over.get(k, t)
                v = m.f[k]
                tt = t.t if isinstance(t, (M.Opt, M.List)) else t
                if isinstance(t, M.List) or (isinstance(t, M.Opt) and isinstance(tt, M.List)):
                    tt = tt.t if isinstance(tt, M.List) else tt
                if k in tied and m.cls != 'Symbol':
                    continue
                if type(tt) is M.Text:
                    if isinstance(v, str):
                        places.append((m.f, k, tt))
                    elif isinstance(v, list):
                        places.extend((v, i, tt) for i in range(len(v)))
                elif isinstance(t, M.Dict) and type(t.v) is M.Text:
                    places.extend((v, kk, t.v) for kk in v)
                elif isinstance(v, M.Obj):
                    walk(v, getattr(tt, 'over', {}) if isinstance(tt, M.O) else {})
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, M.Obj):
                            walk(x, getattr(tt, 'over', {}) if isinstance(tt, M.O) else {})
        walk(o, {})
        if not places:
            raise Skip()
        for where, k, tt in r.sample(places, min(len(places), r.randrange(1, 4))):
            s = c.text(tt.empty)
            if r.random() < 0.3:
                s = where[k] + s
            elif r.random() < 0.03:
                s = ''.join(r.choices(r.choice(['abc ', 'a"b ', '( )\n', '\u00e4\u65e5"', 'x']), k=lengths(r, 70000)))
                run.kinds['long text'] += 1
            where[k] = s
    real, how = made(run, o)
    text = call('%s.to_sexpr' % name, save, real, name)
    if not text:
        raise Skip()
    expect_tree(o, text)
    again = call('loading the saved text of %s' % name, load, name, text)
    run.saw(kind, text)
    run.kinds[name] += 1
    d = M.diff(again, o)
    if d:
        raise Violation('text changed by saving and loading: %s%s' % (name, d), text=text, model=o)
    if name in DOCS and r.random() < 0.5:
        run.kinds['through a file'] += 1
        p = run.path(EXT[name])
        enc = r.choice(['utf-8', 'utf-8', 'utf-16'])
        call('to_file', again.to_file, p, encoding=enc)
        d = M.diff(call('from_file', cls(name).from_file, p, encoding=enc), o)
        if d:
            raise Violation('text changed by a file round trip (%s): %s%s' % (enc, name, d), text=text, model=o)


CHECKS['C08']['probes'] = {'trailing-backslash': r'''
import sys
from kiutils.items.common import Property
from kiutils.utils.sexpr import parse_sexp
p = Property(key='a\\', value=' b')
try:
    q = Property.from_sexpr(parse_sexp(p.to_sexpr()))
    sys.exit(0 if (q.key, q.value) == (p.key, p.value) else 3)
except SystemExit:
    raise
except Exception:
    sys.exit(3)
''', 'carriage-return': r'''
import os, sys, tempfile
from kiutils.libraries import LibTable, Library
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'sym-lib-table')
    LibTable(libs=[Library(description='a\rb')]).to_file(p)
    sys.exit(0 if LibTable.from_file(p).libs[0].description == 'a\rb' else 3)
'''}


# ============================================================================ C09 purity and determinism

class Ear(io.TextIOBase):
    """A standard stream that notices what is printed"""
    def __init__(self):
        self.heard = []

    def write(self, s):
        if s:
            self.heard.append(s)
        return len(s)

    def writable(self):
        return True


def listen(run):
    sys.stdout, sys.stderr = Ear(), Ear()


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def ambient(what=None, before=None):
    """Process-wide settings that loading and saving have no business to change"""
    now = {'working directory': os.getcwd(), 'environment': dict(os.environ), 'locale': locale.setlocale(locale.LC_ALL),
           'recursion limit': sys.getrecursionlimit(), 'random numbers': hash(random.getstate()), 'module search path': list(sys.path),
           'decimal context': repr(decimal.getcontext()), 'switch interval': sys.getswitchinterval(), 'garbage collection': gc.isenabled(),
           'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)), 'socket or trace': (sys.gettrace(), sys.getprofile()),
           'builtins': {k: id(v) for k, v in vars(builtins).items() if k != '_'}, 'integer digits': sys.get_int_max_str_digits(),
           'warning filters': list(warnings.filters), 'file mode mask': mask(), 'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
           'signal handlers': [id(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP)],
           'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable), 'garbage thresholds': gc.get_threshold(),
           'default socket timeout': socket.getdefaulttimeout(), 'integer formats': (str(1.5), repr(0.1), format(1e16)), 'user': (os.getuid(), os.geteuid(), os.getgid())}
    if before is not None:
        for s in (sys.stdout, sys.stderr):
            if isinstance(s, Ear) and s.heard:
                said, s.heard = ''.join(s.heard), []
                raise Violation('%s printed: %s' % (what, sx.short(said, 120)))
        for k in now:
            if now[k] != before[k]:
                raise Violation('%s changed the %s of the process' % (what, k), before=before[k], after=now[k])
    return now


@check('C09', 'one object or expression observed before and after to_sexpr / from_sexpr / to_file (complete snapshot of every attribute and '
       'element), repeated calls compared, and one digest per shared case compared between workers that differ in hash seed, working '
       'directory, time zone and locale; non-trivial: distinct texts', must_see=['save', 'load', 'shared', 'elsewhere', 'file'], setup=listen,
       envs=[{'PYTHONHASHSEED': '0'}, {'PYTHONHASHSEED': '1', 'TZ': 'Asia/Kathmandu'}, {'PYTHONHASHSEED': '2', 'LC_ALL': 'C', 'KV_CHDIR': '1'},
             {'PYTHONHASHSEED': '12345', 'TZ': 'UTC+11', 'HOME': '/nonexistent'}, {'PYTHONHASHSEED': '77'}, {'PYTHONHASHSEED': '4242', 'LANG': 'de_DE.UTF-8'},
             {'PYTHONHASHSEED': '999', 'KV_CHDIR': '1'}, {'PYTHONHASHSEED': '31337', 'COLUMNS': '20'}])
def c09(run):
    import random
    r = run.rng
    locales(run)
    if run.idx % 151 == 5:
        return endurance(run)
    shared = (run.idx // 8) % 4 == 0
    if not shared and run.idx % 7 == 3:
        return elsewhere(run)
    if shared:
        j = run.idx // 8
        run.rng = r = random.Random('C09 shared %s %d' % (os.environ.get('VERIF_SEED', '1'), j))
        if os.environ.get('KV_CHDIR'):
            os.chdir(run.scratch)
    name = pick(run)
    o = small(run, name)
    text = text_of(o)
    real, how = made(run, o)
    before = snap(real)
    world = ambient()
    outs = []
    for i in range(3):
        if name in ('Rule',):
            outs.append(call('to_sexpr', real.to_sexpr))
        else:
            outs.append(call('to_sexpr', real.to_sexpr))
            if i == 0:
                call('to_sexpr', real.to_sexpr, indent=r.choice([0, 2, 4, 8]), newline=r.random() < 0.5)
        d = snapdiff(before, snap(real))
        if d:
            raise Violation('%s.to_sexpr changed the object: %s' % (name, d), text=text)
    if len(set(outs)) != 1:
        raise Violation('%s.to_sexpr gave different texts for the same object' % name, one=outs[0], two=outs[1])
    run.saw('save', outs[0])
    if r.random() < 0.1:
        import locale
        if locales(run):
            loc, back = r.choice(locales(run)), locale.setlocale(locale.LC_ALL)
            locale.setlocale(locale.LC_ALL, loc)
            try:
                t = call('to_sexpr in locale %s' % loc, real.to_sexpr)
                b = call('%s.from_sexpr in locale %s' % (name, loc), load, name, text) if text else None
            finally:
                locale.setlocale(locale.LC_ALL, back)
            if t != outs[0]:
                raise Violation('%s.to_sexpr gives another text in locale %s' % (name, loc), one=outs[0], two=t)
            if text and snap(b) != snap(load(name, text)):
                raise Violation('%s.from_sexpr gives another object in locale %s' % (name, loc), text=text)
            run.kinds['locale'] += 1
    if name in DOCS and r.random() < 0.5:
        p = run.path(EXT[name])
        before = snap(real)
        plain = outs[0].isascii() and (not text or text.isascii())
        kw = r.choice([{}, {'encoding': 'latin-1'}, {'encoding': None}] if plain else [{'encoding': 'utf-8'}])
        call('to_file', real.to_file, p, **kw)
        d = snapdiff(before, snap(real))
        if d:
            raise Violation('%s.to_file changed the object: %s' % (name, d), text=text)
        ambient('saving %s to a file' % name, world)
        a = call('from_file', cls(name).from_file, p, **kw)
        b = call('from_file', cls(name).from_file, p, **kw)
        if snap(a) != snap(b):
            raise Violation('%s: loading the same file twice gives different objects: %s' % (name, snapdiff(snap(a), snap(b))), text=text)
        ambient('loading %s from a file' % name, world)
        run.saw('file', outs[0])
    ambient('saving %s' % name, world)
    dig = outs[0]
    if text:
        st = text if r.random() < 0.5 else scrambled(o, r, reorder=True)
        src = wrap(name, st)
        exp = call('parse_sexp', parse, src)
        b = snap(exp)
        a1 = call('%s.from_sexpr' % name, cls(name).from_sexpr, exp)
        if b != snap(exp):
            raise Violation('%s.from_sexpr changed the expression it was given: %s' % (name, snapdiff(b, snap(exp))), text=st)
        a2 = call('%s.from_sexpr' % name, cls(name).from_sexpr, exp)
        a3 = call('%s.from_sexpr' % name, load, name, st)
        s1, s2, s3 = snap(a1), snap(a2), snap(a3)
        if s1 != s2 or s1 != s3:
            raise Violation('%s: loading the same text twice gives different objects: %s' % (name, snapdiff(s1, s2) or snapdiff(s1, s3)), text=st)
        t1, t2 = call('to_sexpr', save, a1, name), call('to_sexpr', save, a2, name)
        if t1 != t2:
            raise Violation('%s: equal objects are written differently' % name, one=t1, two=t2)
        run.saw('load', st)
        ambient('loading %s' % name, world)
        dig += repr(s1) + t1
    if shared:
        run.kinds['shared'] += 1
        run.log[str(run.idx // 8)] = hashlib.sha256(dig.encode('utf-8', 'surrogatepass')).hexdigest()[:24]


class Elsewhere:
    """For a while, the clock, the random numbers, the platform and the names of host, user and process are other ones"""

    def __init__(self, r):
        import datetime
        import getpass
        import platform
        import time as t
        import uuid
        at = r.choice([0, 86399, 951782400, 1709164800, 1735689599, 2147483648, 4102444800, 7258118400, r.randrange(2 ** 32)])
        day = datetime.datetime.fromtimestamp(at, datetime.timezone.utc).replace(tzinfo=None)
        self.asked = []

        def say(v):
            def f(*a, **k):
                self.asked.append(v)
                return v
            return f

        class Date(datetime.date):
            @classmethod
            def today(cls):
                self.asked.append('today')
                return day.date()

        class Datetime(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                self.asked.append('now')
                return day if tz is None else day.replace(tzinfo=tz)

            @classmethod
            def utcnow(cls):
                return cls.now()

            @classmethod
            def today(cls):
                return cls.now()
        loc, gm, stamp, low = t.localtime, t.gmtime, t.strftime, r.choice([0.0, 0.999999])
        n = r.choice([0, 1, 77, 2 ** 22])
        fakes = [(t, 'time', say(float(at))), (t, 'time_ns', say(at * 10 ** 9)), (t, 'localtime', lambda s=None: loc(at if s is None else s)),
                 (t, 'gmtime', lambda s=None: gm(at if s is None else s)), (t, 'perf_counter', say(float(at))), (t, 'process_time', say(float(at))),
                 (t, 'strftime', lambda f, x=None: stamp(f, loc(at) if x is None else x)),
                 (t, 'monotonic_ns', say(at)), (datetime, 'datetime', Datetime), (datetime, 'date', Date),
                 (random, 'random', say(low)), (random, 'randint', lambda a, b: a if low < 0.5 else b), (random, 'choice', lambda x: x[0 if low < 0.5 else -1]),
                 (random, 'randrange', lambda a, b=None, c=1: a if b is not None and low < 0.5 else 0 if b is None else b - 1),
                 (os, 'getpid', say(n)), (os, 'getlogin', say('kv')), (getpass, 'getuser', say('kv')), (socket, 'gethostname', say('kv-host')),
                 (os, 'cpu_count', say(r.choice([1, 2, 128]))), (platform, 'system', say(r.choice(['Windows', 'Darwin']))),
                 (platform, 'node', say('kv-host')), (platform, 'machine', say('arm64')), (platform, 'python_version', say('3.99.1')),
                 (os, 'name', 'nt'), (sys, 'platform', r.choice(['win32', 'darwin', 'cygwin'])), (os, 'linesep', '\r\n'),
                 (sys, 'maxsize', 2 ** 31 - 1), (sys, 'byteorder', 'big'), (uuid, 'uuid4', lambda: uuid.UUID(int=n, version=4)),
                 (uuid, 'uuid1', lambda *a: uuid.UUID(int=n))]
        fakes = [x for x in fakes if hasattr(x[0], x[1])]
        olds = {id(getattr(m, k)): v for m, k, v in fakes if callable(v)}
        for mod in [m for q, m in list(sys.modules.items()) if q.split('.')[0] == 'kiutils' and m]:
            for k, v in list(vars(mod).items()):
                if id(v) in olds:
                    fakes.append((mod, k, olds[id(v)]))
        self.fakes = fakes

    def __enter__(self):
        self.back = []
        for m, k, v in self.fakes:
            self.back.append((m, k, getattr(m, k)))
            setattr(m, k, v)
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.back):
            setattr(m, k, v)


def elsewhere(run):
    """The same object saved and the same text loaded at another time, on another platform"""
    r = run.rng
    name = pick(run)
    o = small(run, name)
    text = text_of(o)
    real, how = made(run, o)
    one = call('to_sexpr', real.to_sexpr)
    exp = parse(wrap(name, text)) if text else None
    a = cls(name).from_sexpr(exp) if text else None
    p = None
    if name in DOCS and text:
        p = write(run, name, text)
        st = r.choice([0, 1, 10 ** 9, 4 * 10 ** 9])
        os.utime(p, (st, st))
    out, err = [], None
    with Elsewhere(r) as e:
        try:
            out.append(real.to_sexpr())
            if text:
                out.append(cls(name).from_sexpr(parse(wrap(name, text))))
        except Exception as x:
            err = x
    where = 'at another time, on another platform or host'
    if err is not None:
        raise Violation('%s: saving or loading fails %s: %s: %s' % (name, where, type(err).__name__, err), text=text)
    if out[0] != one:
        raise Violation('%s.to_sexpr gives another text %s' % (name, where), one=one, two=out[0])
    if text and snap(out[1]) != snap(a):
        raise Violation('%s.from_sexpr gives another object %s: %s' % (name, where, snapdiff(snap(a), snap(out[1]))), text=text)
    if p:
        b = call('%s.from_file' % name, cls(name).from_file, p, encoding='utf-8')
        b.filePath = None
        if snap(b) != snap(a):
            raise Violation('%s.from_file gives another object for a file of another date: %s' % (name, snapdiff(snap(a), snap(b))), text=text)
    run.kinds['clock or platform asked'] += len(e.asked)
    run.saw('elsewhere', one)


def endurance(run):
    """The same object saved and the same text loaded over and over"""
    r = run.rng
    name = ALL[(run.idx // 151) % len(ALL)]
    limits = [int(x) for x in dictionary()['nums'] if 50 < x <= 100000]
    n = max([r.choice([1030, 5000, 12000])] + [x + 20 for x in limits])
    saves, loads, text = [], [], ''
    for flag in (0, 0.4, 0, 1, 0):
        o = small(run, name, size=1, big=0, none=r.choice([0, 0.5, 1]), flag=flag)
        real, how = made(run, o)
        saves.append((real.to_sexpr, call('to_sexpr', real.to_sexpr)))
        text = text_of(o)
        if text:
            exp = parse(wrap(name, text))
            loads.append((exp, cls(name).from_sexpr(exp)))
    load_ = cls(name).from_sexpr
    end = time.monotonic() + (0.7 if run.tier == 'quick' else 3)
    k = j = 0
    while k < n and time.monotonic() < end:
        for _ in range(32):
            for f, first in saves:
                k += 1
                t = call('to_sexpr', f)
                if t != first:
                    raise Violation('%s.to_sexpr, call %d for the same few objects, gives another text' % (name, k), one=first, two=t)
    end = time.monotonic() + (0.7 if run.tier == 'quick' else 3)
    while loads and j < n and time.monotonic() < end:
        for _ in range(16):
            for exp, one in loads:
                j += 1
                x = call('%s.from_sexpr' % name, load_, exp)
                if x != one:
                    raise Violation('%s.from_sexpr, call %d for the same few expressions, gives another object' % (name, j), text=text)
    run.saw('endurance', '%s %d %d %s' % (name, k, j, text))
    run.kinds['repeated calls'] += k + j


def c09_offline(res, tmp):
    seen, out = {}, []
    for r in res:
        for j, d in r['log'].items():
            if j in seen and seen[j][0] != d:
                out.append({'case': int(j) * 8 + r['worker'], 'message': 'shared case %s: workers %d and %d (same input, other hash seed, time '
                            'zone, directory or locale) got different results' % (j, seen[j][1], r['worker']), 'witness': {}})
            else:
                seen.setdefault(j, (d, r['worker']))
    return out[:3]


def c09_settings(k):
    """Environment variables the code could look at: those of KiCad and whatever its constants resemble"""
    from .engine import SETTINGS
    names = list(SETTINGS) + [x for x in dictionary()['strs'] if re.fullmatch(r'[A-Z][A-Z0-9_]{2,40}', x)]
    names = [n for n in names if not n.startswith(('PYTHON', 'KV_', 'VERIF_', 'LC_', 'LANG', 'TZ', 'PATH', 'TMP', 'HOME'))]
    return {n: ('', '1', 'yes', '4', '/x/y', '0', 'A', 'true')[(k + i) % 8] for i, n in enumerate(names)} if k % 2 else {}


CHECKS['C09']['offline'] = c09_offline
CHECKS['C09']['settings'] = c09_settings


# ============================================================================ C10 isolation

def pristine(run):
    """Default objects of every class as they look in a process that has done nothing yet"""
    run.memo['default'] = {n: snap(cls(n)()) for n in SPECS}
    watch_lines(run)


@check('C10', 'one observation that two objects are independent (no shared list, mapping or object; changing everything reachable from one '
       'leaves the other, the expression it came from and later default objects as they were), or one load/save done by a thread while '
       'others load and save; non-trivial: distinct (class, scenario, text)', setup=pristine,
       must_see=['defaults', 'loads', 'files', 'threads', 'failed load', 'created', 'interleaved'])
def c10(run):
    r = run.rng
    k = r.random()
    if k < 0.15:
        name = r.choice(list(SPECS))
        a, b = call('%s()' % name, cls(name)), call('%s()' % name, cls(name))
        if r.random() < 0.5 and name in ALL:
            name2 = name
            o = small(run, name)
            a = M.to_real(o, r.choice([None, 'attr']))
        alone(name, 'a new object', b)
        alone(name, 'an object made from separate parts', a)
        apart(name, 'two objects', a, b)
        sb = snap(b)
        deface(a, r)
        if snap(b) != sb:
            raise Violation('%s: changing one object changes another: %s' % (name, snapdiff(sb, snap(b))))
        c = snap(call('%s()' % name, cls(name)))
        if c != run.memo['default'][name]:
            raise Violation('%s: changing one object changes later default objects: %s' % (name, snapdiff(run.memo['default'][name], c)))
        run.saw('defaults', '%s %d' % (name, run.idx))
    elif k < 0.4:
        name = pick(run)
        o = small(run, name)
        text = text_of(o)
        if not text:
            raise Skip()
        exp = call('parse', parse, wrap(name, text))
        a = call('load', cls(name).from_sexpr, exp)
        b = call('load', cls(name).from_sexpr, exp)
        c = call('load', load, name, text)
        alone(name, 'a loaded object', a)
        apart(name, 'two loads of one expression', a, b)
        apart(name, 'two loads of one text', a, c)
        apart(name, 'a loaded object and its expression', a, exp)
        se = snap(exp)
        deface(a, r)
        if snap(exp) != se:
            raise Violation('%s: changing the loaded object changes the expression it came from' % name, text=text)
        for x, what in ((b, 'another load of the same expression'), (c, 'another load of the same text'),
                        (call('load', cls(name).from_sexpr, exp), 'a later load of the same expression'),
                        (call('load', load, name, text), 'a later load of the same text')):
            d = M.diff(x, o)
            if d:
                raise Violation('%s: changing a loaded object shows up in %s: %s' % (name, what, d), text=text)
        deface(exp, r)
        d = M.diff(b, o)
        if d:
            raise Violation('%s: changing the expression changes the object loaded from it: %s' % (name, d), text=text)
        t = call('save', save, c, name)
        expect_tree(o, t, 'text saved after another object was changed')
        if name in DOCS:
            files_apart(run, name, o, text)
        fresh_defaults(run)
        run.saw('loads', text)
    elif k < 0.5:
        name = pick(run, 0.4)
        o = small(run, name)
        text = text_of(o)
        if not text:
            raise Skip()
        exp = call('parse', parse, wrap(name, text))
        # break the expression somewhere, so that loading fails half-way (or not)
        lists = []

        def walk(x):
            for i, y in enumerate(x):
                lists.append((x, i))
                if isinstance(y, list):
                    walk(y)
        walk(exp)
        for _ in range(3):
            e2 = copy.deepcopy(exp)
            lists.clear()
            walk(e2)
            x, i = r.choice(lists)
            x[i:i + r.choice([1, 1, 5])] = r.choice([[], [None], [[]], [['x']], [5], ['?']])
            try:
                cls(name).from_sexpr(e2)
                run.kinds['damaged load accepted'] += 1
            except Exception:
                run.kinds['failed load'] += 1
        d = M.diff(call('load', cls(name).from_sexpr, exp), o)
        if d:
            raise Violation('%s: a failed load changes later loads: %s' % (name, d), text=text)
        fresh_defaults(run)
        run.saw('after failed load', text)
    elif k < 0.56:
        name, a, b = create(run), None, None
        a, b = CREATE[name](), CREATE[name]()
        alone(name, 'a new document', a)
        apart(name, 'two new documents', a, b)
        sb = snap(b)
        deface(a, r)
        if snap(b) != sb or snap(CREATE[name]()) != sb:
            raise Violation('%s.create_new: changing one new document changes others: %s' % (name, snapdiff(sb, snap(CREATE[name]()))))
        run.saw('created', '%s %d' % (name, run.idx))
    elif k < 0.62:
        threads(run)
    else:
        interleaved(run)


def files_apart(run, name, o, text):
    """Loads of one file, of files with the same content and of a file that was replaced are independent"""
    r = run.rng
    p, q = write(run, name, text), write(run, name, text)
    C = cls(name)
    a = call('from_file', C.from_file, p, encoding='utf-8')
    b = call('from_file', C.from_file, p, encoding='utf-8')
    c = call('from_file', C.from_file, q, encoding='utf-8')
    alone(name, 'a loaded document', a)
    apart(name, 'two loads of one file', a, b)
    apart(name, 'loads of two files with the same content', a, c)
    deface(a, r)
    for x, what in ((b, 'another load of the same file'), (c, 'a load of a file with the same content'),
                    (call('from_file', C.from_file, p, encoding='utf-8'), 'a later load of the same file'),
                    (call('from_file', C.from_file, q, encoding='utf-8'), 'a later load of a file with the same content')):
        d = M.diff(x, o)
        if d:
            raise Violation('%s: changing a loaded document shows up in %s: %s' % (name, what, d), text=text)
    # the same path with other content
    o2 = small(run, name, size=2, big=0)
    st = os.stat(p)
    with open(p, 'w', encoding='utf-8', newline='\n') as f:
        f.write(text_of(o2))
    os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    d = M.diff(call('from_file', C.from_file, p, encoding='utf-8'), o2)
    if d:
        raise Violation('%s: a file that was replaced is loaded with old content: %s' % (name, d), text=text_of(o2))
    # what was loaded before is not affected by later loads and saves
    d = M.diff(b, o)
    if d:
        raise Violation('%s: a later load changes a document loaded before: %s' % (name, d), text=text)
    run.saw('files', text)


def fresh_defaults(run):
    for n in run.rng.sample(list(SPECS), 6):
        c = snap(call('%s()' % n, cls(n)))
        if c != run.memo['default'][n]:
            raise Violation('default %s is no longer what it was: %s' % (n, snapdiff(run.memo['default'][n], c)))


def alone(name, what, x):
    """No part of an object sits in two places of it"""
    d = shared(x)
    if d:
        raise Violation('%s: %s holds one and the same mutable value in two places (%s and %s)' % (name, what, d[0], d[1]))


def apart(name, what, a, b):
    x, y = mutables(a), mutables(b)
    for i in x:
        if i in y:
            raise Violation('%s: %s share the same mutable value (%s and %s)' % (name, what, x[i] or '.', y[i] or '.'))


CREATE = {}


def create(run):
    if not CREATE:
        CREATE.update({
            'Board': lambda: cls('Board').create_new(), 'Schematic': lambda: cls('Schematic').create_new(),
            'WorkSheet': lambda: cls('WorkSheet').create_new(), 'DesignRules': lambda: cls('DesignRules').create_new(),
            'LibTable': lambda: cls('LibTable').create_new(), 'Footprint': lambda: cls('Footprint').create_new('L:E', 'V'),
            'Symbol': lambda: cls('Symbol').create_new('L:E', 'R', 'V')})
    return run.rng.choice(sorted(CREATE))


def threads(run):
    r = run.rng
    n = r.choice([2, 3, 4])
    jobs, bad = [], []
    same = pick(run, 0.6)
    for i in range(n):
        name = same if r.random() < 0.6 else pick(run, 0.5)
        o = small(run, name, size=2, big=0, canon=True)
        t = text_of(o)
        if t:
            jobs.append((name, o, t, scrambled(o, r, reorder=True)))
    if len(jobs) < 2:
        raise Skip()
    start = threading.Barrier(len(jobs))

    def work(name, o, text, st):
        try:
            start.wait(20)
            for k in range(3):
                real = load(name, text if k else st)
                d = M.diff(real, o)
                if d:
                    raise Violation('loaded while other threads load: %s%s' % (name, d), text=text)
                expect_text(o, save(real, name), 'text saved while other threads save')
        except Violation as e:
            bad.append(e)
        except Exception as e:
            bad.append(Violation('%s in a thread raised %s: %s' % (name, type(e).__name__, e), text=text))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for j in jobs:
        run.saw('threads', j[2])
    if bad:
        raise bad[0]


class Baton:
    """Two threads that take turns at chosen points: turn i of the plan lasts plan[i] executed lines of kiutils"""
    current = None

    def __init__(self, works, plan):
        self.plan, self.turn, self.used, self.free = plan, 0, 0, False
        self.go = [threading.Event(), threading.Event()]
        self.done = [False, False]
        self.me = {}
        self.switches = self.events = 0
        self.threads = [threading.Thread(target=self.body, args=(i, w)) for i, w in enumerate(works)]

    def body(self, me, work):
        self.me[threading.get_ident()] = me
        self.go[me].wait()
        try:
            work()
        finally:
            self.done[me] = True
            self.go[1 - me].set()

    def step(self):
        self.events += 1
        self.used += 1
        if self.free or self.turn >= len(self.plan) or self.used <= self.plan[self.turn]:
            return
        me = self.me.get(threading.get_ident())
        if me is None or self.done[1 - me]:
            return
        self.turn += 1
        self.used = 0
        self.switches += 1
        self.go[me].clear()
        self.go[1 - me].set()
        if not self.go[me].wait(0.7):
            self.free = True        # the other waits for something this thread holds

    def run(self):
        Baton.current = self
        try:
            for t in self.threads:
                t.start()
            self.go[0].set()
            for t in self.threads:
                t.join()
        finally:
            Baton.current = None


def watch_lines(run):
    """Calls Baton.step at every line of kiutils (left on for the whole run: instrumentation must not change while a thread is inside)"""
    src = os.path.realpath(monitor.SRC) + os.sep
    codes, todo = set(), [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    while todo:
        c = todo.pop()
        if c not in codes and os.path.realpath(c.co_filename).startswith(src):
            codes.add(c)
            todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
    mon = sys.monitoring

    def on_line(code, line):
        b = Baton.current
        if b is not None:
            b.step()
    mon.use_tool_id(3, 'kv turns')
    mon.register_callback(3, mon.events.LINE, on_line)
    for c in codes:
        mon.set_local_events(3, c, mon.events.LINE)


def interleaved(run):
    """Two threads with documents of their own, switched at chosen lines of kiutils"""
    r = run.rng
    first = pick(run, 0.08)
    second = first if r.random() < 0.8 else pick(run, 0.3)
    jobs = []
    for name in (first, second):
        kw = r.choice([{}, {'none': 0.1, 'flag': 0.9}, {'none': 0.9}])
        o = small(run, name, size=r.choice([1, 3, 4]) if name not in DOCS else r.choice([1, 2]), big=0, canon=True, **kw)
        t = text_of(o)
        if not t or len(t) > 30000:
            raise Skip()
        jobs.append((name, o, t, M.to_real(o)))
    how = r.choice(['expr', 'expr', 'expr', 'save', 'save', 'load', 'both'] + ['file'] * (first in DOCS and second in DOCS))
    exps = [parse(wrap(n, t)) for n, _, t, _ in jobs]
    paths = [run.path(EXT[first]), run.path(EXT[second])] if how == 'file' else [None, None]
    bad = []

    def work(i):
        name, o, text, ready = jobs[i]
        try:
            if how == 'save':
                expect_text(o, save(ready, name), 'text saved while another thread saves')
                return
            if how == 'file':
                ready.to_file(paths[i], encoding='utf-8')
                real = cls(name).from_file(paths[i], encoding='utf-8')
            elif how == 'expr':
                real = cls(name).from_sexpr(exps[i])
            else:
                real = load(name, text)
            d = M.diff(real, o)
            if d:
                raise Violation('loaded while another thread loads: %s%s' % (name, d), text=text, other=jobs[1 - i][2])
            if how in ('both', 'file'):
                expect_text(o, save(real, name), 'text saved while another thread saves')
        except Violation as e:
            bad.append(e)
        except Exception as e:
            bad.append(Violation('%s in a thread raised %s: %s' % (name, type(e).__name__, e), text=text, other=jobs[1 - i][2]))
    probe = Baton([lambda: work(0), lambda: work(1)], [])
    probe.run()
    n = max(2, probe.events // 2)
    for _ in range(r.choice([4, 12, 30]) if n < 3000 else 3):
        if bad:
            break
        k = r.random()
        if k < 0.5:
            plan = [r.randrange(n)]
        elif k < 0.8:
            plan = [r.randrange(n), r.randrange(n)]
        else:
            plan = [r.randrange(1, r.choice([3, 10, 50])) for _ in range(r.choice([3, 10, 100]))]
        b = Baton([lambda: work(0), lambda: work(1)], plan)
        b.run()
        run.kinds['switches between threads'] += b.switches
        if b.switches:
            run.saw('interleaved', '%s %s %s' % (how, plan, jobs[0][2]))
    if bad:
        raise bad[0]


# ============================================================================ C11 file interface

AUDIT = {'on': False, 'opened': []}


def hook(event, args):
    if AUDIT['on'] and event == 'open':
        path, mode, flags = args
        AUDIT['opened'].append((path, mode, flags))


def audit_setup(run):
    sys.addaudithook(hook)


def listing(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = b'link to ' + os.fsencode(os.readlink(p))
                continue
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def directories(d):
    return sorted(os.path.relpath(os.path.join(dp, x), d) for dp, dn, fn in os.walk(d) for x in dn)


# names of directories that mean something else where paths are expanded or tidied up
PLACES = ['~', '~', '~kv', '$HOME', '${HOME}', '%TEMP%', '~/~', 'a b', 'lib.pretty', 'x.kicad_pcb', 'file:', '-', '...', 'far', '\u00e4', '${KIPRJMOD}', 'trail ', 'C:\\x',
          'a/b/c', '*', '[a]', 'x.zip', '#x', 'http:/h']


def watched(fn, *a, **k):
    """Run fn; report files opened for writing"""
    AUDIT['opened'] = []
    AUDIT['on'] = True
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                return fn(*a, **k), None, w
            except Exception as e:
                return None, e, w
    finally:
        AUDIT['on'] = False


def written():
    out = []
    for path, mode, flags in AUDIT['opened']:
        wr = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
        if wr and isinstance(path, (str, bytes, os.PathLike)):
            out.append(os.path.realpath(os.fsdecode(path)))
    return out


def fds(prefix):
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if t.startswith(prefix):
            out.append(t)
    return out


BROKEN = {'utf-8': [b'\xff', b'\xe4', b'\xc3', b'\xed\xa0\x80', b'\x80'], 'utf-8-sig': [b'\xff', b'\xe4'], 'ascii': [b'\xe4', b'\x80', b'\xff'],
          'utf-16': [b'\n'], 'utf-16-le': [b'\n'], 'utf-32': [b'\n', b'\n\0']}
CODECS = ['utf-8', 'utf-8', 'utf-16', 'utf-16-le', 'utf-32', 'latin-1', 'cp1252', 'ascii', 'utf-8-sig', 'cp437', 'shift_jis']


@check('C11', 'one from_file / to_file call in a directory of its own, judged by the bytes of every file in that directory before and after, '
       'the files opened for writing (audit events), open descriptors, the filePath attribute and the returned object; non-trivial: '
       'distinct (class, operation, content)', setup=audit_setup,
       must_see=['load', 'save to path', 'save in place', 'missing file', 'no path', 'encoding', 'history', 'not a file'])
def c11(run):
    r = run.rng
    if r.random() < 0.06:
        return platform(run)
    name = r.choice(DOCS)
    c = cls(name)
    enc = r.choice(CODECS + [None])
    d = os.path.join(run.scratch, 'dir%d' % run.idx)
    os.makedirs(d)
    cwd = os.getcwd()
    try:
        sub = r.choice(PLACES) if r.random() < 0.4 else ''
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        f1, f2, f3 = [os.path.join(d, sub, n) for n in file_names(r, name)]
        other = os.path.join(d, 'other.bin')
        with open(other, 'wb') as f:
            f.write(b'keep me\xff')
        linked = {}
        if r.random() < 0.2:
            os.makedirs(os.path.join(d, 'store'))
            f3r = os.path.join(d, 'store', r.choice(['real', 'real' + EXT[name]]))
            with open(f3r, 'wb') as f:
                f.write(b'old')
            os.symlink(f3r if r.random() < 0.5 else os.path.relpath(f3r, os.path.dirname(f3)), f3)
            linked = {os.path.relpath(f3, d): os.path.relpath(f3r, d)}
        small_ = dict(size=r.choice([1, 2]), big=0, canon=True)
        o = encodable(run, name, enc, small_)
        text = text_of(o)
        with open(f1, 'w', encoding=enc or 'utf-8', newline='\n') as f:
            f.write(text)
        raw = open(f1, 'rb').read()
        if enc is None:
            enc_args = {}
        else:
            enc_args = {'encoding': enc}
        rel = r.random() < (0.5 if sub else 0.2)
        if rel:
            os.chdir(d)
        as_path = r.random() < 0.25
        detour = r.choice(['.', 'far/..', 'kv-far/../..', './/', 'far/in/../..']) if r.random() < 0.2 else ''
        if 'far' in detour:                          # the parent of kv-far is far, wherever the link itself is
            os.makedirs(os.path.join(d, 'far', 'in'))
            os.symlink(os.path.join('far', 'in'), os.path.join(d, 'kv-far'))

        def P(p):
            p = os.path.relpath(p, d)
            if detour:
                p = detour + '/' + p
            p = p if rel else os.path.join(d, p)
            return pathlib.Path(p) if as_path else p
        base = listing(d)
        dirs, real_d = directories(d), os.path.realpath(d)
        world = ambient()

        def state(expect, what):
            now = listing(d)
            if now != expect:
                diff = [k for k in set(now) | set(expect) if now.get(k) != expect.get(k)]
                raise Violation('%s: %s; files not as they should be: %s' % (name, what, sorted(diff)), encoding=enc,
                                found=repr(now.get(diff[0]))[:600], expected=repr(expect.get(diff[0]))[:600])
            ambient('%s: %s' % (name, what), world)
            left = fds(d)
            if left:
                raise Violation('%s: %s leaves a file open: %s' % (name, what, left))
            away = [p for p in written() if p != real_d and not p.startswith(real_d + os.sep) and os.path.exists(p) and p != '/dev/null']
            if away:
                raise Violation('%s: %s wrote elsewhere: %s' % (name, what, away))

        # load
        real, err, w = watched(c.from_file, P(f1), **enc_args)
        if err:
            raise Violation('%s.from_file raised %s: %s' % (name, type(err).__name__, err), encoding=enc)
        state(base, 'from_file')
        run.saw('load', '%s %s' % (enc, text))
        if enc and enc != 'utf-8':
            run.kinds['encoding'] += 1
        if [x for x in w if issubclass(x.category, ResourceWarning)]:
            raise Violation('%s.from_file leaves the file open (ResourceWarning)' % name)
        expect_model(o, real, 'from_file(encoding=%s)' % enc)
        if real.filePath is None or os.fspath(real.filePath) != os.fspath(P(f1)):
            raise Violation('%s.from_file(%r): filePath is %r' % (name, P(f1), real.filePath))
        # a history of saves
        c2 = ctx(run, canon=True, size=1, big=0, wild=0.1, ascii_only=True)
        ed = Editor(c2)
        expect = dict(base)
        for step in range(r.randrange(1, 5)):
            if r.random() < 0.5:
                ed.edit_doc(o, real)
            text = text_of(o)
            e2 = r.choice([enc, 'utf-8', 'utf-16', 'utf-8-sig']) if r.random() < 0.5 else enc
            if e2 not in (None, 'utf-8', 'utf-16', 'utf-8-sig', 'utf-32', 'utf-16-le') and not can(text, e2):
                e2 = 'utf-8'
            ea = {} if e2 is None else {'encoding': e2}
            bytes_ = text.encode(e2 or 'utf-8') if e2 != 'utf-16' else None
            if r.random() < 0.2:                     # somebody else removes or overwrites a file
                p = r.choice([f1, f2, f3])
                if os.path.lexists(p) and os.path.relpath(p, d) not in linked:
                    if r.random() < 0.5:
                        os.unlink(p)
                        del expect[os.path.relpath(p, d)]
                    else:
                        with open(p, 'wb') as f:
                            f.write(b'(changed)')
                        expect[os.path.relpath(p, d)] = b'(changed)'
            k = r.random()
            if k < 0.4:
                cur = os.fspath(real.filePath)
                cur = os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(cur)), os.path.basename(cur)), os.path.realpath(d))
                _, err, w = watched(real.to_file, **ea)
                what, target = 'save in place', cur
            elif k < 0.9:
                p = r.choice([f1, f2, f3])
                fp = real.filePath
                if r.random() < 0.5:
                    _, err, w = watched(real.to_file, P(p), **ea)
                else:
                    _, err, w = watched(real.to_file, filepath=P(p), **ea)
                what, target = 'save to path', os.path.relpath(p, d)
                if not err and real.filePath != fp:
                    raise Violation('%s.to_file(path) changed filePath from %r to %r' % (name, fp, real.filePath))
            else:
                p = r.choice([f2, f3])
                real.filePath = P(p)
                _, err, w = watched(real.to_file, **ea)
                what, target = 'save in place', os.path.relpath(p, d)
            if err:
                raise Violation('%s: %s raised %s: %s' % (name, what, type(err).__name__, err), encoding=e2)
            if [x for x in w if issubclass(x.category, ResourceWarning)]:
                raise Violation('%s: %s leaves the file open (ResourceWarning)' % (name, what))
            expect[linked.get(target, target)] = bytes_ if bytes_ is not None else text.encode('utf-16')
            state(expect, '%s(encoding=%s)' % (what, e2))
            run.saw(what, '%s %s' % (e2, text))
            run.kinds['history'] += 1
            if call('to_sexpr', real.to_sexpr) != text:
                raise Violation('%s: file content and to_sexpr() differ after %s' % (name, what))
        # failures create nothing
        miss = os.path.join(d, r.choice(['kv-none', 'kv-no/such', 'kv-nope.kicad_pcb']))
        if enc in BROKEN and r.random() < 0.5:
            q = [i for i in range(len(raw)) if raw[i:i + 1] == b'"' and raw[i:i + 2] != b'""' and raw[i - 1:i] != b'\\']
            if q and enc in ('utf-8', 'utf-8-sig', 'ascii'):
                i = r.choice(q) + 1
                hurt = raw[:i] + r.choice(BROKEN[enc]) + raw[i:]
            else:
                hurt = raw + r.choice(BROKEN[enc])
            try:
                hurt.decode(enc)
            except UnicodeDecodeError:
                bad = os.path.join(d, 'undecodable')
                with open(bad, 'wb') as f:
                    f.write(hurt)
                expect[os.path.relpath(bad, d)] = hurt
                res, err, w = watched(c.from_file, pathlib.Path(bad) if as_path else bad, encoding=enc)
                if err is None:
                    raise Violation('%s.from_file: a file that is not valid %s was loaded' % (name, enc))
                run.saw('undecodable', name + enc + str(hurt))
                state(expect, 'from_file of a file that is not valid %s' % enc)
        dead, loop, dirlink = [os.path.join(d, n) for n in ('kv-dead', 'kv-loop', 'kv-dirlink')]
        os.symlink(os.path.join(d, 'kv-nowhere'), dead)
        os.symlink(loop, loop)
        os.symlink(d, dirlink)
        expect.update({k: v for k, v in listing(d).items() if k.startswith('kv-')})
        for target in (dead, loop, dirlink, r.choice(['', '.', '/', '/dev/null', os.path.join(other, 'x'), os.path.join(d, '..'), '.' if as_path else f1 + '/'])):
            res, err, w = watched(c.from_file, pathlib.Path(target) if as_path else target, **enc_args)
            if err is None:
                raise Violation('%s.from_file(%r) did not raise' % (name, target))
            run.saw('not a file', name + os.path.basename(target))
            state(expect, 'from_file of something that is not a file')
        for target in (dead, loop, dirlink):
            os.unlink(target)
            expect.pop(os.path.basename(target), None)
        if r.random() < 0.3:
            pipe(run, c, name, d, raw, as_path, enc_args)
            state(expect, 'from_file of a pipe')
        for target, what in ((miss, 'missing file'), (d, 'missing file')):
            res, err, w = watched(c.from_file, pathlib.Path(target) if as_path else target, **enc_args)
            if err is None:
                raise Violation('%s.from_file(%r) did not raise' % (name, target))
            run.saw(what, name + what)
            state(expect, 'from_file of a ' + what)
        # neither does saving where no file can be
        fp = real.filePath
        target = r.choice([os.path.join(d, 'kv-no', 'x' + EXT[name]), os.path.join(d, 'kv-no', 'such', 'x'), d, os.path.join(other, 'x')])
        if r.random() < 0.3:
            real.filePath = fp = target
            _, err, w = watched(real.to_file, **enc_args)
        else:
            _, err, w = watched(real.to_file, P(target), **enc_args)
        if err is None:
            raise Violation('%s.to_file(%r) did not raise' % (name, target))
        run.saw('no such directory', '%s %s' % (name, target[len(d):]))
        state(expect, 'to_file where no file can be')
        if real.filePath != fp or directories(d) != dirs:
            raise Violation('%s.to_file where no file can be: a directory was created or filePath changed to %r' % (name, real.filePath))
        real.filePath = None
        _, err, w = watched(real.to_file, **({} if r.random() < 0.5 else enc_args))
        if err is None:
            raise Violation('%s.to_file() without any path did not raise' % name)
        run.saw('no path', name)
        state(expect, 'to_file without path')
        fresh = M.to_real(o)
        _, err, w = watched(fresh.to_file)
        if err is None:
            raise Violation('%s.to_file() of an object never loaded did not raise' % name)
        state(expect, 'to_file of a new object without path')
        # saving under a given path does not make a new object remember it
        for x, kw in ((fresh, {}), (real, {}), (fresh, {'encoding': 'utf-8'})):
            p = r.choice([f1, f2, f3])
            _, err, w = watched(x.to_file, P(p), **kw)
            if err:
                raise Violation('%s.to_file(path) raised %s: %s' % (name, type(err).__name__, err))
            p = os.path.relpath(p, d)
            expect[linked.get(p, p)] = text.encode('utf-8')
            state(expect, 'save to path of an object without a path')
            if x.filePath is not None:
                raise Violation('%s.to_file(path) of an object without a path sets filePath to %r' % (name, x.filePath))
        run.saw('save to path', 'new ' + text)
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def pipe(run, c, name, d, raw, as_path, enc_args):
    """A named pipe is not a file, whatever comes through it"""
    import threading
    p = os.path.join(d, 'kv-pipe')
    try:
        os.mkfifo(p)
    except OSError:
        return

    def feed():
        try:
            with open(p, 'wb') as f:
                f.write(raw)
        except OSError:
            pass
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    try:
        res, err, w = watched(c.from_file, pathlib.Path(p) if as_path else p, **enc_args)
    finally:
        end = os.open(p, os.O_RDONLY | os.O_NONBLOCK)      # lets the writer go if nobody has read
        t.join(0.05)
        while t.is_alive():
            try:
                os.read(end, 65536)
            except OSError:
                pass
            t.join(0.05)
        os.close(end)
        os.unlink(p)
    if err is None:
        raise Violation('%s.from_file of a named pipe did not raise' % name)
    run.saw('not a file', name + ' pipe')


def locales(run):
    """Locales with other encodings and another decimal point, made for this run"""
    if 'locales' not in run.memo:
        import subprocess
        where = os.path.join(run.scratch, 'locales')
        os.makedirs(where, exist_ok=True)
        os.environ['LOCPATH'] = where
        for n, src, chars in (('kva.ISO-8859-1', 'POSIX', 'ISO-8859-1'), ('kvb.CP1252', 'POSIX', 'CP1252'), ('kvc.KOI8-R', 'POSIX', 'KOI8-R'), ('kvd.UTF-8', 'de_DE', 'UTF-8'),
                              ('kve.ISO-8859-15', 'fr_FR', 'ISO-8859-15')):
            try:
                subprocess.run(['localedef', '--no-archive', '-c', '-i', src, '-f', chars, os.path.join(where, n)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=60)
            except (OSError, subprocess.SubprocessError):
                pass
        run.memo['locales'] = []
        import locale
        for n in sorted(os.listdir(where)):
            now = locale.setlocale(locale.LC_CTYPE)
            try:
                locale.setlocale(locale.LC_CTYPE, n)
                run.memo['locales'].append(n)
            except locale.Error:
                pass
            finally:
                locale.setlocale(locale.LC_CTYPE, now)
    return run.memo['locales']


def latin(o, out=None):
    """The text fields below a model"""
    out = [] if out is None else out
    for k, t in SPECS[o.cls].fields.items():
        v = o.f[k]
        if type(t) is M.Text and k not in TIED.get(o.cls, ()) and k != 'key' and isinstance(v, str):
            out.append((o, k))
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, M.Obj):
                latin(x, out)
    return out


def _rewritten(p, data):
    with open(p, 'wb') as f:
        f.write(data)
    return p


def platform(run):
    """Without an encoding, that of the platform is used for both directions"""
    import locale
    r = run.rng
    name = r.choice(DOCS)
    c = cls(name)
    o = small(run, name, size=2, big=0, canon=True, ascii_only=r.random() < 0.5)
    if r.random() < 0.7:
        for x in latin(o):
            if r.random() < 0.5:
                x[0].f[x[1]] = r.choice(['\xe4', 'Gr\xfc\xdfe', '\xb5F', '1 \xb0C', 'R\xe9sistance', '\u0436'])
    text = text_of(o)
    if '\r' in text or not can(text, 'utf-8'):
        raise Skip()
    d = os.path.join(run.scratch, 'plat%d' % run.idx)
    os.makedirs(d)
    made_ = [x for x in locales(run) if not x.endswith('UTF-8')]
    before = locale.setlocale(locale.LC_CTYPE)
    p = os.path.join(d, 'a' + EXT[name])
    try:
        locale.setlocale(locale.LC_CTYPE, r.choice(made_ + ['C']))
        enc = locale.getpreferredencoding(False)
        if enc.lower().replace('-', '') == 'utf8':
            raise Skip()
        raw = text.encode('utf-8')
        fine = can(text, enc)
        own = text.encode(enc) if fine else raw
        if not fine:
            try:
                raw.decode(enc)
                raise Skip()             # bytes mean something else there
            except UnicodeDecodeError:
                pass
        with open(p, 'wb') as f:
            f.write(own)
        try:
            c.from_file(p)
            err = None
        except Exception as e:
            err = e
        if fine != (err is None):
            raise Violation('%s.from_file without an encoding, where the platform uses %s: %s' % (name, enc, err or 'text that is not valid in it was loaded'), text=text)
        with open(p, 'wb') as f:
            f.write(raw)
        if err is None:
            expect_model(o, c.from_file(_rewritten(p, own)), 'from_file() where the platform uses %s' % enc)
            _rewritten(p, raw)
        real = c.from_file(p, encoding='utf-8')
        expect_model(o, real, 'from_file(encoding=utf-8) where the platform uses %s' % enc)
        with open(p, 'wb') as f:
            f.write(b'old')
        try:
            real.to_file(*r.choice([(), (p,)]))
            err = None
        except Exception as e:
            err = e
        got = open(p, 'rb').read()
        if fine != (err is None):
            raise Violation('%s.to_file without an encoding, where the platform uses %s: %s' % (name, enc, err or 'text that is not valid in it was written'), text=text)
        if got != (own if fine else b'old'):
            raise Violation('%s.to_file without an encoding, where the platform uses %s, left other bytes' % (name, enc), found=repr(got)[:500])
        real.to_file(p, encoding='utf-8')
        if open(p, 'rb').read() != raw:
            raise Violation('%s.to_file(encoding=utf-8) where the platform uses %s left other bytes' % (name, enc), found=repr(open(p, 'rb').read())[:500])
        run.saw('platform encoding', text)
        run.kinds['not representable' if not fine else 'representable'] += 1
    finally:
        locale.setlocale(locale.LC_CTYPE, before)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def file_names(r, name):
    """Three different file names: plain, with the extensions and type names of the formats, hidden, backup, odd"""
    if 'names' not in NAMES:
        NAMES['names'] = [x for x in dictionary()['strs'] if re.fullmatch(r'[A-Za-z0-9_.~ -]{1,60}', x) and x.strip('. ') and x == x.strip()]
    out = []
    while len(out) < 3:
        n = r.choice(['a', 'b', 'c d', '\u00e4', 'x.y.z', 'data', 'copy', 'a-bak', '.hidden', 'A', 'file (1)', '~a', 'sym-lib-table', 'fp-lib-table', "it's", '$x'])
        if r.random() < 0.35:
            n = r.choice(NAMES['names'] if r.random() < 0.6 else ['sym_lib_table', 'fp_lib_table', 'kicad_pcb', 'kicad_mod', 'kicad_sch', 'kicad_sym', 'kicad_wks'])
            if r.random() < 0.5:
                n = r.choice(['bak', 'x', 'my']) + r.choice(['.', '_', '-']) + n
        n += r.choice([EXT[name], EXT[name], '', '', '.txt', EXT[name].upper(), EXT[name] + '.bak', EXT[name] + '~', r.choice(list(EXT.values())), '.tmp', '.gz'])
        if n.lower() not in [x.lower() for x in out] and n not in ('other.bin', '.', '..') and len(n) < 90:
            out.append(n)
    return out


NAMES = {}


def can(text, enc):
    try:
        return text.encode(enc).decode(enc) == text
    except UnicodeError:
        return False


def encodable(run, name, enc, kw):
    for i in range(12):
        o = small(run, name, ascii_only=(enc == 'ascii' or i > 6), **kw)
        if '\r' in repr(o):
            continue
        if can(text_of(o), enc or 'utf-8'):
            return o
    raise Skip()


# ============================================================================ C12 failed save

ERRORS = [Exception, AttributeError, TypeError, ValueError, KeyError, IndexError, RuntimeError, OSError, UnicodeError, AssertionError,
          RecursionError, NotImplementedError, LookupError, ArithmeticError]


class Poison:
    """A value that cannot be written"""
    def __init__(self, error=Exception):
        self.error = error

    def __str__(self):
        raise self.error('poisoned value')
    __format__ = lambda self, spec: str(self)
    __repr__ = __str__


@check('C12', 'one to_file call made to fail at a chosen point (every nested to_sexpr call of the document in turn, on entry or on exit; a '
       'value that cannot be written; text the encoding cannot represent; an unknown encoding) and the directory compared byte by byte '
       'with its state before; non-trivial: distinct (content, fault point)', level='fault_enumeration',
       must_see=['nested failure', 'poisoned value', 'part of the wrong kind', 'unencodable', 'unknown encoding', 'no file before'])
def c12(run):
    r = run.rng
    name = r.choice(DOCS)
    d = os.path.join(run.scratch, 'd%d' % run.idx)
    os.makedirs(d)
    try:
        o = small(run, name, size=r.choice([1, 2]), big=0, canon=True)
        old = r.choice([b'', b'precious old content\n', b'(kicad_pcb (version 1))\n', b'x' * 100000])
        real, how = made(run, o)
        text = text_of(o)
        f = os.path.join(d, 'doc' + EXT[name])
        sib = os.path.join(d, 'sibling')
        open(sib, 'wb').write(b'sibling')
        exists = r.random() < 0.8
        if exists:
            open(f, 'wb').write(old)
        if r.random() < 0.5:
            real.filePath = f
        base = listing(d)
        before = snap(real)

        def attempt(kind, tag, **kw):
            try:
                if real.filePath is not None and r.random() < 0.6:
                    real.to_file(**kw)
                else:
                    real.to_file(f, **kw)
            except Exception as e:
                err = e
            else:
                err = None
            now = listing(d)
            if err is None:
                return False
            run.saw(kind, '%s %s %s' % (name, tag, text))
            if not exists:
                run.kinds['no file before'] += 1
            if now != base:
                x = [k for k in set(now) | set(base) if now.get(k) != base.get(k)]
                raise Violation('%s.to_file failed (%s: %s) and left %s changed' % (name, kind, tag, sorted(x)),
                                found=repr(now.get(x[0]))[:300], expected=repr(base.get(x[0]))[:300], error=repr(err))
            if fds(d):
                raise Violation('%s.to_file failed (%s) and left a file open' % (name, kind))
            return True

        # every nested to_sexpr call
        count = [0]

        def counter(key, c, a, k, depth):
            if key.endswith('.to_sexpr'):
                count[0] += 1
        run.mon.before.append(counter)
        try:
            call('to_sexpr', real.to_sexpr)
        finally:
            run.mon.before.remove(counter)
        total = count[0]
        points = list(range(total)) if total <= 40 else sorted(set([0, 1, total - 1] + r.sample(range(total), 37)))
        for p in points:
            seen = [0]
            late = r.random() < 0.4
            error = r.choice(ERRORS)

            def bomb(key, c, a, k, depth, *rest):
                if key.endswith('.to_sexpr'):
                    seen[0] += 1
                    if seen[0] == p + 1:
                        raise error('injected at call %d' % p)
            lst = run.mon.after if late else run.mon.before
            lst.append(bomb)
            try:
                ok = attempt('nested failure', 'call %d of %d (%s, %s)' % (p, total, 'exit' if late else 'entry', error.__name__), encoding='utf-8')
            finally:
                lst.remove(bomb)
            if not ok:
                raise Violation('%s.to_file reports success although serialising a part of it raised' % name)
        d2 = snapdiff(before, snap(real))
        if d2:
            raise Violation('%s: a failed to_file changed the object: %s' % (name, d2))
        # unknown encoding, text the encoding cannot represent
        if not attempt('unknown encoding', 'x', encoding=r.choice(['no-such-codec', 'utf-99'])):
            raise Violation('%s.to_file accepted an unknown encoding' % name)
        enc = r.choice(['ascii', 'latin-1', 'cp1252'])
        if not can(text, enc):
            if not attempt('unencodable', enc, encoding=enc):
                if listing(d).get(os.path.basename(f), b'') == base.get(os.path.basename(f), b''):
                    raise Violation('%s.to_file with %s did nothing and reported success' % (name, enc))
                raise Violation('%s.to_file wrote text that %s cannot represent' % (name, enc))
        # a value that cannot be written
        places = []

        def walk(x, depth=0):
            if isinstance(x, list):
                for i, v in enumerate(x):
                    if isinstance(v, (str, int, float)) and not isinstance(v, bool):
                        places.append((x, i))
                    else:
                        walk(v)
            elif isinstance(x, dict):
                for k, v in x.items():
                    if isinstance(v, (str, int, float)):
                        places.append((x, k))
                    else:
                        walk(v)
            elif hasattr(x, '__dict__'):
                for k, v in state(x).items():
                    if k == 'filePath':
                        continue
                    if isinstance(v, (str, int, float)) and not isinstance(v, bool):
                        places.append((x, k))
                    else:
                        walk(v)
        walk(real)
        r.shuffle(places)
        for x, k in places[:6]:
            keep = x[k] if isinstance(x, (list, dict)) else getattr(x, k)
            put = (lambda v: x.__setitem__(k, v)) if isinstance(x, (list, dict)) else (lambda v: setattr(x, k, v))
            put(Poison(r.choice(ERRORS)))
            try:
                if not attempt('poisoned value', str(k), encoding='utf-8'):
                    # the value is not written at all in this state: the save went through
                    run.kinds['poison not written'] += 1
                    for g, v in base.items():
                        open(os.path.join(d, g), 'wb').write(v)
                    for g in set(listing(d)) - set(base):
                        os.unlink(os.path.join(d, g))
            finally:
                put(keep)
        # parts of the wrong kind: a save that fails leaves everything alone
        objs = []

        def parts(x):
            for k, v in (enumerate(x) if isinstance(x, list) else x.items() if isinstance(x, dict) else state(x).items()):
                if isinstance(v, (list, dict)) or hasattr(v, '__dict__'):
                    objs.append((x, k))
                    parts(v)
        parts(real)
        r.shuffle(objs)
        for x, k in objs[:6]:
            keep = x[k] if isinstance(x, (list, dict)) else getattr(x, k)
            put = (lambda v: x.__setitem__(k, v)) if isinstance(x, (list, dict)) else (lambda v: setattr(x, k, v))
            put(r.choice([None, 'text', 5, object(), [], [None], {}, ['x', object()], cls('Net')(), Poison(r.choice(ERRORS))]))
            try:
                if not attempt('part of the wrong kind', str(k), encoding='utf-8'):
                    for g, v in base.items():
                        open(os.path.join(d, g), 'wb').write(v)
                    for g in set(listing(d)) - set(base):
                        os.unlink(os.path.join(d, g))
            finally:
                put(keep)
        # and it still works afterwards
        call('to_file after failures', real.to_file, f, encoding='utf-8')
        got = open(f, 'rb').read()
        if got != text.encode('utf-8'):
            raise Violation('%s: a save after failed saves does not write the document' % name)
        run.saw('recovered', name + text)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


# ============================================================================ C13 library identifiers

def ref_set(kind, s):
    """(nickname, entry, unit, style) a library identifier stands for"""
    i = s.find(':', 1)
    if i > 0 and i + 1 < len(s):
        return s[:i], s[i + 1:], None, None
    if kind == 'Symbol':
        import re
        m = re.fullmatch(r'(.+)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)', s, re.S)
        if m:
            return None, m.group(1), int(m.group(2)), int(m.group(3))
    return None, s, None, None


def ref_get(nick, entry, unit, style):
    if nick:
        return '%s:%s' % (nick, entry)
    if unit is not None and style is not None:
        return '%s_%d_%d' % (entry, unit, style)
    return entry


def plain_name(c, colon=False):
    for _ in range(20):
        s = c.text(False)
        if ':' in s:
            continue
        return s
    return 'Name'


@check('C13', 'one step of a history of libId / libraryNickname / entryName accesses on a Footprint, Symbol (with units) or SchematicSymbol, '
       'compared with a reference model of library identifiers, including the saved and reloaded identifier; non-trivial: distinct '
       '(class, identifier)', must_see=['Footprint', 'Symbol', 'SchematicSymbol', 'unit id', 'units follow', 'nickname'],
       assumptions=['nicknames contain no colon'])
def c13(run):
    r = run.rng
    kind = r.choice(['Footprint', 'Symbol', 'Symbol', 'SchematicSymbol'])
    c = ctx(run, wild=r.choice([0.1, 0.5, 0.9]))
    how = r.randrange(3)
    if how == 0:
        real = cls(kind)()
    else:
        o = small(run, kind, size=2, big=0)
        real = M.to_real(o)
    units = []
    if kind == 'Symbol':
        if r.random() < 0.7:
            real.units = []
            for _ in range(r.randrange(0, 4)):
                u = cls('Symbol')()
                ue, uu, us = plain_name(c), r.randrange(0, 30), r.randrange(0, 4)
                u.libId = '%s_%d_%d' % (ue, uu, us)
                units.append((uu, us))
                real.units.append(u)
        else:
            units = [(u.unitId, u.styleId) for u in real.units]
    m = None
    for step in range(r.randrange(2, 8)):
        k = r.random()
        if k < 0.6 or m is None:
            f = r.random()
            if kind == 'Symbol' and f < 0.35:
                s = '%s_%d_%d' % (plain_name(c), r.choice([0, 1, 2, 9, 10, 11, 99, 100, 255, 1000]), r.choice([0, 1, 2, 3, 10, 12]))
                run.kinds['unit id'] += 1
            elif kind == 'Symbol' and f < 0.45:
                s = '%s_%s_%s' % (plain_name(c), r.choice(['01', '1', '00', 'a', '']), r.choice(['01', '02', 'x', '1a']))
            elif f < 0.75:
                s = '%s:%s' % (plain_name(c), plain_name(c))
                if r.random() < 0.2:
                    s += ':' + plain_name(c)
                    run.kinds['several colons'] += 1
                if kind == 'Symbol' and r.random() < 0.3:
                    s += '_%d_%d' % (r.randrange(3), r.randrange(3))
                run.kinds['nickname'] += 1
            else:
                s = plain_name(c)
            real.libId = s
            m = list(ref_set(kind, s))
            run.saw(kind, s)
            if real.libId != s:
                raise Violation('%s.libId set to %r reads back as %r' % (kind, s, real.libId))
            if kind == 'Symbol':
                for u, (a, b) in zip(real.units, units):
                    run.kinds['units follow'] += 1
                    want = ref_get(None, m[1], a, b)
                    if u.libId != want or u.entryName != m[1]:
                        raise Violation('unit of symbol %r is named %r instead of %r' % (s, u.libId, want))
        elif k < 0.75:
            m[0] = r.choice([None, plain_name(c)])
            real.libraryNickname = m[0]
        elif k < 0.9 and kind != 'Symbol':
            m[1] = plain_name(c)
            real.entryName = m[1]
        else:
            if m[0] is None and (':' in m[1] or kind == 'Symbol' and m[2] is None and S.unit_like(m[1])):
                continue
            real.libId = real.libId
            run.kinds['own id'] += 1
            if kind == 'Symbol' and m[0] is not None:
                m[2] = m[3] = None
        got = [real.libraryNickname, real.entryName] + ([real.unitId, real.styleId] if kind == 'Symbol' else [None, None])
        if got != m:
            raise Violation('%s: nickname, entry, unit, style are %r instead of %r' % (kind, got, m))
        if kind == 'Symbol' and any(type(x) is not int for x in got[2:] if x is not None):
            raise Violation('Symbol unit and style are not integers: %r' % (got,))
        want = ref_get(*m)
        if real.libId != want:
            raise Violation('%s.libId is %r instead of %r' % (kind, real.libId, want))
        if step and r.random() < 0.5:
            continue
        # in the file
        text = call('to_sexpr', real.to_sexpr)
        try:
            t = sx.read(text)
        except sx.Bad as e:
            raise Violation('%s %r is written as malformed text: %s' % (kind, want, e), text=text)
        inn = t[1] if kind != 'SchematicSymbol' else [x for x in t[1:] if x[0] == 'lib_id'][0][1]
        if not isinstance(inn, Str) or inn != want:
            raise Violation('%s with libId %r is written as %r' % (kind, want, inn))
        if kind == 'Symbol':
            names = [x[1] for x in t[2:] if isinstance(x, list) and x[0] == 'symbol']
            if names != [u.libId for u in real.units]:
                raise Violation('units of %r are written as %r' % (want, names))
        again = call('reload', lambda: cls(kind).from_sexpr(parse(text)))
        if again.libId != want:
            raise Violation('%s saved with libId %r comes back with %r' % (kind, want, again.libId))


# ============================================================================ C14 new documents

LAYERTABLE = [(0, 'F.Cu', 'signal', None), (31, 'B.Cu', 'signal', None), (32, 'B.Adhes', 'user', 'B.Adhesive'),
              (33, 'F.Adhes', 'user', 'F.Adhesive'), (34, 'B.Paste', 'user', None), (35, 'F.Paste', 'user', None),
              (36, 'B.SilkS', 'user', 'B.Silkscreen'), (37, 'F.SilkS', 'user', 'F.Silkscreen'), (38, 'B.Mask', 'user', None),
              (39, 'F.Mask', 'user', None), (40, 'Dwgs.User', 'user', 'User.Drawings'), (41, 'Cmts.User', 'user', 'User.Comments'),
              (42, 'Eco1.User', 'user', 'User.Eco1'), (43, 'Eco2.User', 'user', 'User.Eco2'), (44, 'Edge.Cuts', 'user', None),
              (45, 'Margin', 'user', None), (46, 'B.CrtYd', 'user', 'B.Courtyard'), (47, 'F.CrtYd', 'user', 'F.Courtyard'),
              (48, 'B.Fab', 'user', None), (49, 'F.Fab', 'user', None)] + [(49 + i, 'User.%d' % i, 'user', None) for i in range(1, 10)]


@check('C14', 'one document or library item made by create_new, compared with its arguments and the documented skeleton, saved, read by the '
       'reference reader, loaded again and used (items added, saved again); non-trivial: distinct saved texts or argument tuples',
       must_see=['Board', 'Schematic', 'Footprint', 'Symbol', 'LibTable', 'DesignRules', 'WorkSheet', 'rejected', 'default object', 'skeleton', 'arguments'])
def c14(run):
    r = run.rng
    if r.random() < 0.15:
        return documented(run)
    name = r.choice(['Board', 'Schematic', 'Footprint', 'Footprint', 'Footprint', 'Symbol', 'Symbol', 'Symbol', 'LibTable', 'DesignRules', 'WorkSheet'])
    c = ctx(run, wild=r.choice([0.2, 0.6, 1.0]))
    args = ()
    if name == 'Footprint':
        lid = plain_name(c) if r.random() < 0.4 else '%s:%s' % (plain_name(c), plain_name(c))
        val, ref, typ = c.text(), c.text(), r.choice(['smd', 'through_hole', 'other'])
        args = (lid, val, typ, ref)
        form = r.randrange(4)
        if form == 0:
            x, typ, ref = call('create_new', cls(name).create_new, lid, val), 'other', 'REF**'
        elif form == 1:
            x, ref = call('create_new', cls(name).create_new, lid, val, typ), 'REF**'
        elif form == 2:
            x = call('create_new', cls(name).create_new, lid, val, typ, ref)
        else:
            x = call('create_new', cls(name).create_new, library_id=lid, value=val, type=typ, reference=ref)
        bad = r.choice(['', 'SMD', 'tht', 'virtual', 'through', 'smd ', None, 5, c.word()])
        if bad not in ('smd', 'through_hole', 'other'):
            must_raise('Footprint.create_new with type %r' % (bad,), cls(name).create_new, lid, val, bad)
            run.kinds['rejected'] += 1
        got = (x.libId, [(g.type, g.text, g.layer) for g in x.graphicItems], x.attributes.type, len(x.pads), x.position, x.layer)
        want = (lid, [('reference', ref, 'F.SilkS'), ('value', val, 'F.Fab'), ('user', '${REFERENCE}', 'F.Fab')],
                None if typ == 'other' else typ, 0, None, 'F.Cu')
        if got != want:
            raise Violation('Footprint.create_new%r made %r instead of %r' % (args, got, want))
        if (x.attributes.boardOnly, x.attributes.excludeFromBom, x.attributes.excludeFromPosFiles) != (False, False, False):
            raise Violation('Footprint.create_new sets attributes nobody asked for')
    elif name == 'Symbol':
        for _ in range(20):
            lid = plain_name(c) if r.random() < 0.5 else '%s:%s' % (plain_name(c), plain_name(c))
            if ':' in lid or not S.unit_like(lid):
                break
        else:
            raise Skip()
        a = [lid] + [c.text() for _ in range(4)]
        form = r.randrange(3)
        if form == 0:
            x = call('create_new', cls(name).create_new, *a[:3])
            a[3:] = ['', '']
        elif form == 1:
            x = call('create_new', cls(name).create_new, *a)
        else:
            x = call('create_new', cls(name).create_new, id=a[0], reference=a[1], value=a[2], footprint=a[3], datasheet=a[4])
        args = tuple(a)
        got = (x.libId, x.inBom, x.onBoard, [(p.key, p.value, p.id) for p in x.properties], x.unitId, x.units, x.pins)
        want = (lid, True, True, [('Reference', a[1], 0), ('Value', a[2], 1), ('Footprint', a[3], 2), ('Datasheet', a[4], 3)], None, [], [])
        if got != want:
            raise Violation('Symbol.create_new%r made %r instead of %r' % (args, got, want))
        if [bool(p.effects and p.effects.hide) for p in x.properties] != [False, False, True, True]:
            raise Violation('Symbol.create_new: visibility of the properties is wrong')
    elif name == 'LibTable':
        t = r.choice(['sym_lib_table', 'fp_lib_table', None])
        x = call('create_new', cls(name).create_new) if t is None else call('create_new', cls(name).create_new, t) if r.random() < 0.5 \
            else call('create_new', cls(name).create_new, type=t)
        if (x.type, x.libs) != (t or 'sym_lib_table', []):
            raise Violation('LibTable.create_new(%r) made %r' % (t, x))
        args = (t,)
    else:
        x = call('create_new', cls(name).create_new)
        from kiutils.misc import config
        if name == 'DesignRules':
            if (str(x.version), x.rules) != ('1', []):
                raise Violation('DesignRules.create_new made %r' % x)
        else:
            if str(x.version) != str(config.KIUTILS_CREATE_NEW_VERSION_STR) or x.generator != config.KIUTILS_CREATE_NEW_GENERATOR_STR:
                raise Violation('%s.create_new: version %r, generator %r' % (name, x.version, x.generator))
        if name == 'Board':
            lay = [(l.ordinal, l.name, l.type, l.userName) for l in x.layers]
            if lay != LAYERTABLE:
                raise Violation('Board.create_new: layers are %r' % (lay,))
            if [(n.number, n.name) for n in x.nets] != [(0, '')]:
                raise Violation('Board.create_new: nets are %r' % x.nets)
            if x.footprints or x.traceItems or x.graphicItems or x.zones or x.groups or x.dimensions or x.targets or x.properties:
                raise Violation('Board.create_new: the board is not empty')
        if name == 'Schematic':
            if [(s.instancePath, s.page) for s in x.sheetInstances] != [('/', '1')] or x.schematicSymbols or x.libSymbols or x.sheets:
                raise Violation('Schematic.create_new made %r' % x)
    run.saw(name, repr(args) + str(run.idx // 40))
    if getattr(x, 'filePath', None) is not None:
        raise Violation('%s.create_new: filePath is set' % name)
    # it can be saved, read and loaded, and nothing gets lost
    o = M.extract(x, name)
    text = call('to_sexpr', save, x, name)
    expect_tree(o, text, 'new document')
    again = call('loading a new document', load, name, text)
    d = M.diff(again, o)
    if d:
        raise Violation('%s.create_new saved and loaded: %s' % (name, d), text=text)
    expect_tree(o, call('second save', save, again, name), 'second save of a new document')
    # and used
    if r.random() < 0.5:
        ed = Editor(ctx(run, canon=True, size=1, big=0))
        for _ in range(4):
            ed.edit_doc(o, x)
        expect_text(o, call('to_sexpr', save, x, name), 'new document after edits')
    if name in DOCS and r.random() < 0.4:
        p = run.path(EXT[name])
        if r.random() < 0.5:
            must_raise('%s.create_new().to_file() without a path' % name, CREATE_()[name]().to_file)
        call('to_file', x.to_file, p, encoding='utf-8')
        d = M.diff(call('from_file', cls(name).from_file, p, encoding='utf-8'), o)
        if d:
            raise Violation('%s.create_new through a file: %s' % (name, d))


FREE = {'version', 'generator', 'tedit', 'filePath'}      # from the configuration, from the clock, not in the file


def plain(x):
    """An object as plain data; numbers by value"""
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if M.isnum(x):
        return float(x)
    if isinstance(x, (str, bool, type(None))):
        return x
    for n, s in SPECS.items():
        if type(x) is s.pyclass:
            return {'class': n, **{k: plain(getattr(x, k)) for k in s.fields if k not in FREE}}
    return repr(x)


def data_diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in {**a, **b}:
            if a.get(k) != b.get(k):
                return data_diff(a.get(k), b.get(k), '%s.%s' % (path, k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return data_diff(x, y, '%s[%d]' % (path, i))
    return '%s is %s instead of %s' % (path, sx.short(b, 120), sx.short(a, 120))


def docdata(memo={}):
    if not memo:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'defaults.json')) as f:
            memo.update(json.load(f))
    return memo


def documented(run):
    """Default objects and new documents, complete, against the documented defaults"""
    r = run.rng
    memo = docdata()
    k = r.random()
    if k < 0.3:
        # arguments in the documented order, or by name
        n = r.choice(sorted(memo['order']))
        names = memo['order'][n]
        vals = [[i] for i in range(len(names))]
        m = r.randrange(len(names) + 1)
        x = call('%s with %d arguments' % (n, m), cls(n), *vals[:m], **{k: v for k, v in zip(names[m:], vals[m:]) if r.random() < 0.5})
        for k, v in zip(names[:m], vals):
            if getattr(x, k) is not v:
                raise Violation('%s: argument number %d does not become %s' % (n, v[0] + 1, k))
        for k, v in zip(names[m:], vals[m:]):
            if getattr(x, k) is not v and plain(getattr(x, k)) != memo['objects'][n].get(k) and k not in FREE and k in memo['objects'][n]:
                raise Violation('%s: argument %s gives %r' % (n, k, getattr(x, k)))
        run.saw('arguments', '%s %d' % (n, run.idx))
        return
    if k < 0.8:
        n = r.choice(sorted(memo['objects']))
        got, want = plain(call('%s()' % n, cls(n))), memo['objects'][n]
        run.saw('default object', '%s %d' % (n, run.idx // 200))
    else:
        n = create(run)
        got, want = plain(call('%s.create_new' % n, CREATE[n])), memo['new'][n]
        run.saw('skeleton', '%s %d' % (n, run.idx // 200))
    if got != want:
        raise Violation('default %s: %s' % (n, data_diff(want, got)))


class _R:
    import random as _random
    rng = _random.Random(0)


def CREATE_():
    create(_R)
    return CREATE


# ============================================================================ C15 wrong input is rejected

HEADLESS = {'LayerToken', 'Position', 'WksPosition', 'DesignRules'}
HEADS = {'Footprint': {'footprint', 'module'}, 'LibTable': {'fp_lib_table', 'sym_lib_table'}, 'Connection': {'wire', 'bus'}}


def heads(run):
    m = {}
    import random
    run.rng, keep = random.Random(5), run.rng
    for n in ALL:
        m[n] = set(HEADS.get(n, ()))
        for _ in range(30):
            nd = M.build(small(run, n, none=0.3, flag=0.7))
            if nd and nd.head != '':
                m[n].add(str(nd.head))
    run.rng = keep
    run.memo['heads'] = m
    run.memo['allheads'] = sorted(set(h for v in m.values() for h in v) | {'xy', 'at', 'start', 'end', 'offset', 'layers', 'version'})


@check('C15', 'one from_sexpr call with something that is not a list, with the expression of another token, or with a complete expression of '
       'this class under another head, or one from_file call on a file of another kind: all had to raise; non-trivial: distinct '
       '(class, wrong input)', setup=heads, must_see=['not a list', 'other head', 'other token', 'other file'])
def c15(run):
    r = run.rng
    k = r.random()
    own = run.memo['heads']
    if k < 0.2:
        name = r.choice(ALL + ['LayerToken', 'Position', 'WksPosition'])
        x = r.choice([None, 'x', '', 5, 1.5, True, (), ('a', 1), {}, {'a': 1}, b'x', object(), set(), iter([]), range(3),
                      name.lower(), sorted(own.get(name, ['at']))[:1][0] if own.get(name) else 'at'])
        if name in SPECS and name in own and r.random() < 0.4:
            o = small(run, name)
            t = text_of(o)
            if t:
                x = r.choice([t, tuple(parse(wrap(name, t))), repr(t)])
        must_raise('%s.from_sexpr(%s)' % (name, sx.short(x, 80)), cls(name).from_sexpr, x)
        run.saw('not a list', '%s %s' % (name, sx.short(x)))
    elif k < 0.7:
        name = r.choice([n for n in ALL if n not in HEADLESS])
        o = small(run, name)
        t = text_of(o)
        if not t:
            raise Skip()
        exp = parse(t)
        for _ in range(4):
            h = r.choice(sorted(own[name]))
            wrong = r.choice([r.choice(run.memo['allheads']), h + 's', h[:-1], h.upper(), h.capitalize(), '', ' ' + h, h + ' ', h + '_', 'x' + h, 0, 1,
                              None, [h], r.choice(dictionary()['strs'] or ['x'])])
            if isinstance(wrong, str) and wrong in own[name]:
                continue
            e = copy.deepcopy(exp)
            e[0] = wrong
            must_raise('%s.from_sexpr of a complete expression with head %r' % (name, wrong), cls(name).from_sexpr, e)
            run.saw('other head', '%s %r' % (name, wrong))
    elif k < 0.85:
        name, other = r.choice([n for n in ALL if n not in HEADLESS]), r.choice(ALL)
        o = small(run, other)
        t = text_of(o)
        if not t or other == 'DesignRules':
            raise Skip()
        e = parse(t)
        if r.random() < 0.1:
            # design rules are a list of expressions that starts with the version
            name = 'DesignRules'
            rules = parse('(' + text_of(small(run, 'DesignRules')) + ')')
            e = r.choice([e, [e] + rules, [e], ['version', 20200610], ['version', 1] + rules[1:], rules[1:] or ['rule'], [['versions', 1]] + rules[1:],
                          [['rule', 'x'], ['version', 1]], [['Version', 1]] + rules[1:], ['version'] + rules])
            if isinstance(e[0], list) and e[0][:1] == ['version']:
                raise Skip()
        elif e[0] in own[name]:
            raise Skip()
        must_raise('%s.from_sexpr of a %s expression' % (name, other), cls(name).from_sexpr, e)
        run.saw('other token', '%s %s %s' % (name, other, t))
    else:
        name, other = r.choice(DOCS), r.choice(DOCS)
        if name == other:
            raise Skip()
        o = small(run, other, size=1, big=0)
        p = run.path(r.choice([EXT[name], EXT[other]]))
        with open(p, 'w', encoding='utf-8', newline='\n') as f:
            f.write(text_of(o))
        must_raise('%s.from_file of a %s file' % (name, other), cls(name).from_file, p, encoding='utf-8')
        run.saw('other file', '%s %s %s' % (name, other, text_of(o)))


# ============================================================================ C16 legacy footprints

@check('C16', 'one footprint given in the old form (module head, names without quotes, names that are numbers), alone or on a board, compared '
       'with the model, with the canonical text of the new form after saving, and after further round trips; non-trivial: distinct texts',
       must_see=['alone', 'on a board', 'numeric name', 'unquoted', 'numeric text', 'virtual', 'arc by angle'])
def c16(run):
    r = run.rng
    if r.random() < 0.15:
        return old_arcs(run)
    board = r.random() < 0.35
    o = small(run, 'Board' if board else 'Footprint', canon=True)
    fps = o.footprints if board else [o]
    if not fps:
        raise Skip()
    numbers = r.random() < 0.4             # texts that consist of digits are written without quotes, too
    for fp in fps:
        k = r.random()
        if k < 0.3:
            fp.f['libraryNickname'] = None
            fp.f['entryName'] = r.choice(['1', '1206', '805', '603', '10118192', str(r.randrange(1, 10 ** 6))])
        elif k < 0.6:
            fp.f['entryName'] = r.choice(['R_0603', 'SOIC-8', 'LED-5MM', 'Pin_Header'])
            fp.f['libraryNickname'] = r.choice([None, 'Lib', 'Resistor_SMD'])
        if numbers:
            for p in fp.pads:
                p.f['number'] = r.choice(['1', '2', '3', '14', '0', 'A1', '', str(r.randrange(400))])
            for x in fp.graphicItems:
                if x.cls == 'FpText' and r.random() < 0.5:
                    x.f['text'] = r.choice(['100', '4.7', '0', '74', '2020', '-5', '0.1'])
        if fp.attributes is not None and r.random() < 0.4:
            fp.attributes.f.update(excludeFromPosFiles=True, excludeFromBom=True, boardOnly=False, allowMissingCourtyard=False)
    node = M.build(o)
    old = []

    bare = [0]

    def change(n, legacy):
        if n.head == 'footprint':
            legacy = False
            if r.random() < 0.85:
                n.head = 'module'
                old.append(n)
                legacy = True
            lay, it = n.parts[0]
            v = str(it.v)
            if v.isdigit() and str(int(v)) == v and r.random() < 0.7:
                n.parts[0] = (lay, A(v))
                run.kinds['numeric name'] += 1
            elif sx.WORDY.fullmatch(v) and r.random() < 0.7:
                n.parts[0] = (lay, A(v))
                run.kinds['unquoted'] += 1
        elif legacy and n.head == 'attr':
            words = [p[1].v for p in n.parts]
            if words[-2:] == ['exclude_from_pos_files', 'exclude_from_bom'] and r.random() < 0.6:
                n.parts[-2:] = [(None, A('virtual'))]
                run.kinds['virtual'] += 1
        elif legacy and numbers and n.head not in ('layer', 'layers'):
            for i, p in enumerate(n.parts):
                if p is not sx.BL and isinstance(p[1], Q):
                    v = str(p[1].v)
                    if sx.number(v) is not None and str(sx.number(v)) == v and r.random() < 0.7:
                        n.parts[i] = (p[0], A(v))
                        bare[0] += 1
        for p in n.parts:
            if p is not sx.BL and isinstance(p[1], sx.Node):
                change(p[1], legacy)
    change(node, False)
    if not old:
        raise Skip()
    name = 'Board' if board else 'Footprint'
    text = sx.render(node) + '\n' if r.random() < 0.4 else sx.scramble(node, r, unquote=r.random() < 0.6, reorder=r.random() < 0.4)
    if r.random() < 0.5:
        real = call('%s.from_file of a legacy file' % name, load_file, run, name, text.replace('\r\n', '\n'))
    else:
        real = call('%s.from_sexpr of a legacy text' % name, load, name, text)
    run.saw('on a board' if board else 'alone', text)
    # names may come as numbers; everything else has to be the same
    m = o.copy()
    rf = real.footprints if board else [real]
    if len(rf) != len(fps):
        raise Violation('%d of %d footprints survive loading a legacy board' % (len(rf), len(fps)), text=text)
    for a, b in zip(rf, fps):
        if str(a.entryName) != b.entryName or a.libId != S.libid(b):
            raise Violation('legacy footprint %r is called %r' % (S.libid(b), a.libId), text=text)
        if not isinstance(a.entryName, str):
            a.entryName = str(a.entryName)
    d = M.diff(real, m)
    if bare[0]:
        run.kinds['numeric text'] += 1
        d = M.diff(call('numbers as text', texts, real, m), m)
    if d:
        raise Violation('legacy %s: %s' % (name, d), text=text)
    if r.random() < 0.5:
        real = call('load', load, name, text)
    got = call('saving a legacy document', real.to_sexpr)
    expect_text(o, got, 'saved legacy document')
    again = call('loading it again', load, name, got)
    d = M.diff(again, m)
    if d:
        raise Violation('legacy %s after one round trip: %s' % (name, d), text=got)
    if call('saving it again', again.to_sexpr) != got:
        raise Violation('legacy %s: the second save differs from the first' % name, text=got)


def texts(real, o):
    """Copy of a loaded object in which texts that were read as numbers are texts again"""
    e = copy.deepcopy(real)

    def fix(t, v):
        while isinstance(t, M.Opt):
            t = t.t
        if isinstance(t, M.Text) and M.isnum(v):
            return str(v)
        if isinstance(t, M.List) and isinstance(v, list):
            return [fix(t.t, x) for x in v]
        if isinstance(t, M.Dict) and isinstance(v, dict):
            return {fix(t.k, k): fix(t.v, x) for k, x in v.items()}
        if isinstance(t, (M.O, M.U)):
            walk(v)
        return v

    def walk(x):
        for n, s in SPECS.items():
            if type(x) is s.pyclass:
                for k, t in s.fields.items():
                    if hasattr(x, k):
                        setattr(x, k, fix(t, getattr(x, k)))
                return
    walk(e)
    return e


def old_arcs(run):
    """Arcs given by centre, start point and angle are the same curves when given by three points"""
    import cmath
    r = run.rng
    grid = r.choice([1, 0.5, 0.01, 0.001, 0.000001])

    def num(lim=40):
        v = round(r.randrange(-lim * 10, lim * 10 + 1) / 10 / grid) * grid + (r.choice([0, 1, -3]) * grid)
        v = round(v, 6)
        return int(v) if float(v).is_integer() else v
    arcs = []
    where = r.choice(['item', 'module', 'module', 'board', 'pad', 'gr item'])
    head = 'gr_arc' if where in ('board', 'pad', 'gr item') else 'fp_arc'
    for _ in range(1 if where.endswith('item') else r.randrange(1, 4)):
        c, a = (num(), num()), r.choice([90, -90, 180, 45, -45, 270, 360, 0, 30, 1, 126.87, -53.13, 12.345, r.randrange(-3600, 3601) / 10])
        a = int(a) if float(a).is_integer() else a
        p = (num(), num())
        parts = ['(start %r %r)' % c, '(end %r %r)' % p, '(angle %r)' % a]
        f = dict(layer=None, width=0.12, tstamp=None, locked=r.random() < 0.2)
        if head == 'fp_arc':
            f['layer'] = 'F.Cu'
        if r.random() < 0.8 and where != 'pad':
            f['layer'] = r.choice(['F.SilkS', 'Edge.Cuts', 'Dwgs.User'])
            parts.append('(layer %s)' % f['layer'])
        if r.random() < 0.8:
            f['width'] = r.choice([0.1, 0.15, 1, 0])
            parts.append('(width %r)' % f['width'])
        if r.random() < 0.3:
            f['tstamp'] = '5B3F2A%X' % r.randrange(16, 256)
            parts.append('(tstamp %s)' % f['tstamp'])
        if r.random() < 0.5:
            r.shuffle(parts)
        arcs.append((c, p, a, f, '(%s%s %s)' % (head, ' locked' if f['locked'] else '', ' '.join(parts))))
    body = r.choice([' ', '\n  ']).join(x[4] for x in arcs)
    if where.endswith('item'):
        name, text, get = ('FpArc' if head == 'fp_arc' else 'GrArc'), body, lambda o: [o]
    elif where == 'module':
        name, text = 'Footprint', '(module A (layer F.Cu) (tedit 5B3F2A10)\n  %s)' % body
        get = lambda o: o.graphicItems
    elif where == 'pad':
        name, text = 'Pad', '(pad "1" smd custom (at 0 0) (size 1 1) (layers F.Cu) (options (clearance outline) (anchor rect)) (primitives %s))' % body
        get = lambda o: o.customPadPrimitives
    else:
        name, text = 'Board', '(kicad_pcb (version 20171130) (host pcbnew 5.1.5) (general (thickness 1.6)) (layers (0 F.Cu signal) (31 B.Cu signal)) (setup (pad_to_mask_clearance 0)) (net 0 "")\n  %s)' % body
        get = lambda o: o.graphicItems
    real = call('%s.from_sexpr of arcs given by an angle' % name, load, name, text)
    run.saw('arc by angle', text)

    def near(x, y):
        return abs(x - y) <= 2e-6
    for k in range(3):
        got = get(real)
        if len(got) != len(arcs):
            raise Violation('%d of %d arcs given by an angle survive' % (len(got), len(arcs)), text=text)
        for g, (c, p, a, f, t) in zip(got, arcs):
            c, p = complex(*c), complex(*p)
            want = [('start', p)] + [(n, c + (p - c) * cmath.exp(1j * cmath.pi * a * q / 180)) for n, q in (('mid', 0.5), ('end', 1))]
            for n, w in want:
                v = getattr(g, n)
                if not near(v.X, w.real) or not near(v.Y, w.imag):
                    raise Violation('%s: %s of the arc is (%r, %r), its angle says (%.6f, %.6f)' % (name, n, v.X, v.Y, w.real, w.imag), text=t)
            for n, v in f.items():
                if getattr(g, n) != v:
                    raise Violation('%s: %s of an arc given by an angle is %r, not %r' % (name, n, getattr(g, n), v), text=t)
        s = call('save', save, real, name)
        again = call('loading a saved arc', load, name, s)
        if plain(again) != plain(real):
            raise Violation('%s with old arcs, saved and loaded: %s' % (name, data_diff(plain(real), plain(again))), text=s)
        if k and s != before:
            raise Violation('%s with old arcs: saving it again gives another text' % name, text=s, expected=before)
        before, real = s, again


# ============================================================================ C17 numbers

def spellings(r):
    def f(v, t):
        if '.' not in t and 'e' not in t:
            k = r.random()
            if k < 0.6 or abs(v) >= 10 ** 15:
                return t
            return '%s.%s' % (t, '0' * r.randrange(1, 7))
        if 'e' in t:
            return t
        k = r.random()
        if k < 0.4:
            return t
        if k < 0.8:
            return t + '0' * r.randrange(1, 5)
        return '+' + t if v > 0 else t
    return f


@check('C17', 'one object full of numbers (integers of any size, negative, fractional, tiny values, floats as computed by a program), loaded '
       'from differently spelled text and saved: every numeric field has to be a number of exactly that value, in memory and in the saved '
       'text; non-trivial: distinct texts', must_see=['spelling', 'computed', 'saved', 'field numbers'],
       assumptions=['fields the format writes with a fixed '
                    'number of decimals carry values with at most that many decimals'])
def c17(run):
    r = run.rng
    if run.idx % 67 == 4:
        nums = dictionary()['nums']
        values = [0, 1, -1, 2, 3, 5, 7, 9, 10, 11, 45, 90, 91, 99, 100, 101, 179, 180, 181, 270, 359, 360, 361, 450, 720, 999, 1000, 1001, 65535, 65536, 2 ** 31 - 1, 2 ** 31,
                  2 ** 32, 2 ** 53 + 1, 2 ** 63, 10 ** 30 + 7, 0.0, -0.0, 0.5, 1.0, 0.1, 0.01, 0.001, 0.0001, 0.00001, 0.000001, 1e-7, 1.5e-9, 1e-300, 5e-324, 0.1 + 0.2, 1 / 3, 2 / 3,
                  0.25, 0.125, 0.0625, 1.27, 2.54, 25.4, 99.99, 99.999999, 0.9999999, 1.0000001, 1e15, 1e16, 1.5e300, 123456.789012, 0.30000000000000004, 1e22, 359.99999, 0.05, 0.005]
        values += nums + [n + x for n in nums for x in (-1, 1)] + [r.uniform(-10, 10) ** 3 for _ in range(10)] + [r.randrange(-10 ** 9, 10 ** 9) / 10 ** 6 for _ in range(10)]
        return sweep(run, M.Num, values + [-v for v in values], run.idx // 67, 'numbers')
    name = pick(run, 0.25)
    for _ in range(1 if name in DOCS else 3):
        o = small(run, name, wild=0.1, canon=False, exotic_num=True, none=r.choice([0, 0.1, 0.4]))
        if r.random() < 0.5:
            numberise(ctx(run, canon=False), o)
        if r.random() < 0.5:
            text = scrambled(o, r, spell=spellings(r), reorder=r.random() < 0.3)
            if not text:
                continue
            real = call('loading %s' % name, load, name, text)
            run.saw('spelling', text)
            d = M.diff(real, o)
            if d:
                raise Violation('number misread: %s%s' % (name, d), text=text, model=o)
        else:
            real = M.to_real(o, r.choice([None, 'attr']))
            run.kinds['computed'] += 1
        out = call('saving %s' % name, save, real, name)
        expect_tree(o, out)
        if not out:
            continue
        again = call('loading the saved %s' % name, load, name, out)
        run.saw('saved', out)
        d = M.diff(again, o)
        if d:
            raise Violation('number changed by saving and loading: %s%s' % (name, d), text=out, model=o)


def numberise(c, o, over={}):
    """Replace the plain numeric fields by harder numbers"""
    r = c.rng
    for k, t in SPECS[o.cls].fields.items():
        t = over.get(k, t)
        v = o.f[k]
        if k in TIED.get(o.cls, ()):
            continue
        tt = t.t if isinstance(t, (M.Opt, M.List)) else t
        ov = tt.over if isinstance(tt, M.O) else {}
        if type(tt) is M.Num and M.isnum(v):
            if o.cls == 'DrillDefinition':
                continue
            p = r.random()
            if p < 0.3:
                v = r.uniform(-10, 10) ** r.choice([1, 3, 5])
            elif p < 0.5:
                v = r.choice([1, -1]) * 10.0 ** -r.randrange(1, 12) * r.randrange(1, 1000)
            elif p < 0.6:
                v = r.randrange(-10 ** 25, 10 ** 25)
            elif p < 0.75:
                v = float(r.randrange(-10 ** 6, 10 ** 6))
            elif p < 0.9:
                v = r.randrange(-10 ** 9, 10 ** 9) / 10 ** r.randrange(0, 9)
            elif p < 0.95:
                v = r.random() * 10.0 ** r.randrange(-10, 15)
            else:
                v = r.uniform(-10, 10) * 10.0 ** r.choice([15, 16, 17, 25, 100, 300])
            o.f[k] = v
        elif isinstance(v, M.Obj):
            numberise(c, v, ov)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, M.Obj):
                    numberise(c, x, ov)


# ============================================================================ C18 order and conservation

def count(tree, out):
    if isinstance(tree, list):
        h = tree[0] if tree and isinstance(tree[0], str) and not isinstance(tree[0], Str) else '?'
        out[h] = out.get(h, 0) + 1
        for x in tree:
            count(x, out)
    else:
        out['"' if isinstance(tree, Str) else 'atom'] = out.get('"' if isinstance(tree, Str) else 'atom', 0) + 1
    return out


@check('C18', 'one collection-heavy object (long lists, repeated equal items, interleaved kinds) loaded and saved, where every list has to '
       'keep its length, order and repetitions in memory and every token of the input has to appear exactly as often in the output; '
       'non-trivial: distinct texts with a list of at least 3 items', must_see=['long', 'repeated', 'interleaved', 'wide', 'bulk', 'similar elements'], quick_s=55)
def c18(run):
    r = run.rng
    if run.idx % 5 == 4:
        return wide(run)
    if run.idx % 5 == 2:
        return akin(run)
    if run.idx % 41 == 7:
        return bulk(run)
    name = pick(run, 0.5, None)
    if name not in DOCS and not any(isinstance(t, (M.List, M.Dict)) for t in SPECS[name].fields.values()):
        name = r.choice(['Zone', 'GrPoly', 'FpPoly', 'Pad', 'Footprint', 'Symbol', 'Via', 'SchematicSymbol', 'HierarchicalSheet', 'Group',
                         'Stackup', 'StackupLayer', 'BusAlias', 'Connection', 'TitleBlock', 'Dimension', 'Rule', 'Constraint', 'Image'])
    o = small(run, name, size=1, big=0, none=0.4, wild=0.1, canon=True)
    c = ctx(run, size=1, big=0, wild=r.choice([0, 0.2]), canon=True, none=r.choice([0.5, 0.9, 1.0]), flag=r.choice([0, 0.5]))
    lists = []

    def walk(m, over):
        for k, t in SPECS[m.cls].fields.items():
            t = over.get(k, t)
            v = m.f[k]
            if isinstance(t, S.Units) or k in TIED.get(m.cls, ()):
                pass
            elif isinstance(t, M.List) and not (t.lo and t.lo == t.hi):
                lists.append((v, t, m.cls + '.' + k))
            elif isinstance(t, M.Dict):
                lists.append((v, t, m.cls + '.' + k))
            tt = t.t if isinstance(t, (M.Opt, M.List)) else t
            ov = tt.over if isinstance(tt, M.O) else {}
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, M.Obj):
                    walk(x, ov)
    walk(o, {})
    if not lists:
        raise Skip()
    nums = [int(x) for x in dictionary()['nums'] if 2 <= x <= 400]
    top = [x for x in lists if x[2].startswith(name + '.')] or lists
    for v, t, where in r.sample(top, min(len(top), r.randrange(1, 4))) + ([r.choice(lists)] if r.random() < 0.5 else []):
        n = r.choice([3, 5, 8, 9, 10, 11, 15, 16, 17, 31, 33, 40, 64, 65, 99, 100, 101, 128, 129, 150, 256, 257])
        if nums and r.random() < 0.3:
            n = r.choice(nums) + r.choice([-1, 0, 1])
        if run.tier == 'thorough' and r.random() < 0.05:
            n = r.choice([500, 512, 1000, 1024, 1025, 3000])
        heavy = any(x in where for x in ('footprints', 'libSymbols', 'symbols', 'schematicSymbols', 'sheets', 'zones'))
        if heavy:
            n = min(n, 12 if r.random() < 0.8 else 40)
        if isinstance(t, M.Dict):
            for i in range(min(n, 60)):
                key = t.k.gen(c) if isinstance(t.k, M.Int) else 'K%d' % r.randrange(10 ** 6) if r.random() < 0.8 else t.k.gen(c)
                v[key] = t.v.gen(c)
            run.kinds['long'] += len(v) >= 8
            continue
        c.depth = 0
        new = [t.t.gen(c) for _ in range(n)]
        if r.random() < 0.5:
            for _ in range(max(1, n // 3)):
                new[r.randrange(n)] = M.mcopy(new[r.randrange(n)])
            run.kinds['repeated'] += 1
        if r.random() < 0.2:
            new = [M.mcopy(new[0]) for _ in range(n)]
        v[:] = new
        run.kinds['long'] += n >= 8
        if isinstance(t.t, M.U) and len(set(x.cls for x in new)) > 1:
            run.kinds['interleaved'] += 1
    text = text_of(o) if r.random() < 0.6 else scrambled(o, r, reorder=r.random() < 0.5)
    if not text:
        raise Skip()
    real = call('loading %s' % name, load, name, text) if r.random() < 0.8 else M.to_real(o)
    d = M.diff(real, o)
    if d:
        raise Violation('collection changed by loading: %s%s' % (name, d), text=text)
    out = call('saving %s' % name, save, real, name)
    run.saw('collections', text)
    a, b = count(read_saved(name, text), {}), count(read_saved(name, out), {})
    if a != b:
        raise Violation('%s: tokens lost or invented: %s' % (name, {k: (a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b) if a.get(k) != b.get(k)}))
    expect_tree(o, out)
    d = M.diff(call('loading the saved %s' % name, load, name, out), o)
    if d:
        raise Violation('collection changed by saving and loading: %s%s' % (name, d), text=text)


def akin(run):
    """One list of one class after the other, filled with elements that have all but one value in common"""
    r = run.rng
    if 'akin' not in run.memo:
        run.memo['akin'] = [(n, k, x) for n in ALL for k, t in kinlists(n) for x in (t.t.names if isinstance(t.t, M.U) else [t.t.name])]
    name, k, kind = run.memo['akin'][(run.idx // 5) % len(run.memo['akin'])]
    o = small(run, name, size=1, big=0, none=0.8, wild=0.1, canon=True)
    c = ctx(run, size=1, big=0, wild=0.1, canon=True, none=r.choice([0, 0.2, 0.6]), echo=0, twin=0, blank=0, falsy=r.choice([0, 0.2]))
    kin(c, o, k, kind)
    n = len(o.f[k])
    text = text_of(o) if r.random() < 0.7 else scrambled(o, r, reorder=True)
    if not text:
        raise Skip()
    real = call('loading %s' % name, load, name, text) if r.random() < 0.7 else M.to_real(o)
    d = M.diff(real, o)
    if d:
        raise Violation('%s with %d similar %s changed by loading: %s' % (name, n, k, d), text=text)
    out = call('saving %s' % name, save, real, name)
    expect_tree(o, out)
    again = call('loading %s' % name, load, name, out)
    d = M.diff(again, o)
    if d:
        raise Violation('%s with %d similar %s changed by saving and loading: %s' % (name, n, k, d), text=out)
    run.saw('similar elements', text)
    run.kinds['similar %s.%s' % (name, k)] += 1


def wide(run):
    """One list of one class after the other, longer than any limit the code under test mentions"""
    r = run.rng
    if 'wide' not in run.memo:
        run.memo['wide'] = [(n, k) for n in ALL for k, t in SPECS[n].fields.items() if isinstance(t, M.List) and not (t.lo and t.lo == t.hi)
                            and not isinstance(t, S.Units) and k not in TIED.get(n, ())]
    pairs = run.memo['wide']
    name, k = pairs[(run.idx // 5) % len(pairs)]
    t = SPECS[name].fields[k]
    o = small(run, name, size=1, big=0, none=0.8, wild=0.1, canon=True)
    c = ctx(run, size=1, big=0, wild=0.1, canon=True, none=1.0, flag=0)
    limits = [int(x) for x in dictionary()['nums'] if 257 < x <= 5000]
    n = r.choice([300, 520, 1030, 1030, 1100] + ([2100, 4100] if run.tier == 'thorough' else []))
    if limits and r.random() < 0.6:
        n = r.choice(limits) + r.choice([-1, 0, 1, 1, 2, 50])
    kinds = [t.t.gen(c) for _ in range(r.choice([2, 7, 30]))]
    v = o.f[k]
    v[:] = [M.mcopy(r.choice(kinds)) for _ in range(n)]
    text = text_of(o)
    if not text:
        raise Skip()
    real = call('loading %s' % name, load, name, text) if r.random() < 0.8 else M.to_real(o)
    d = M.diff(real, o)
    if d:
        raise Violation('%s with %d %s changed by loading: %s' % (name, n, k, d))
    out = call('saving %s' % name, save, real, name)
    run.saw('wide', text)
    run.kinds['%s.%s' % (name, k)] += 1
    if out != text:
        a, b = count(read_saved(name, text), {}), count(read_saved(name, out), {})
        if a != b:
            raise Violation('%s with %d %s: tokens lost or invented by saving' % (name, n, k), counts={x: (a.get(x, 0), b.get(x, 0)) for x in set(a) | set(b) if a.get(x) != b.get(x)})
        expect_tree(o, out)


def grown(a, b, m):
    """The tree that extends a by m times what b has more than a (b has one list longer than a, at one place)"""
    if len(a) != len(b):
        d = len(b) - len(a)
        for i in range(len(a) + 1):
            if b[:i] == a[:i] and b[i + d:] == a[i:]:
                return a[:i] + b[i:i + d] * m + a[i:]
        raise Skip()
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if not isinstance(x, list) or not isinstance(y, list) or a[i + 1:] != b[i + 1:]:
                raise Skip()
            return a[:i] + [grown(x, y, m)] + a[i + 1:]
    raise Skip()


def bulk(run):
    """Lists of tens of thousands of elements and files of megabytes: made by repeating a few elements"""
    r = run.rng
    if 'bulk' not in run.memo:
        run.memo['bulk'] = [(n, k) for n in ALL for k, t in SPECS[n].fields.items() if isinstance(t, M.List) and not (t.lo and t.lo == t.hi)
                            and not isinstance(t, S.Units) and k not in TIED.get(n, ())]
    pairs = run.memo['bulk']
    name, k = pairs[(run.idx // 41) % len(pairs)]
    t = SPECS[name].fields[k]
    o = small(run, name, size=1, big=0, none=0.9, wild=0, canon=True)
    c = ctx(run, size=1, big=0, wild=0, canon=True, none=1.0, flag=0)
    kinds = [t.t.gen(c) for _ in range(3)]
    texts = []
    for n in (1, 2, 3):
        o.f[k][:] = [M.mcopy(x) for x in kinds * n]
        texts.append(text_of(o))
    if not texts[0]:
        raise Skip()
    a, b = parse(wrap(name, texts[0])), parse(wrap(name, texts[1]))
    size = lambda x: len(''.join(x.split()))             # line breaks may depend on the position
    step = size(texts[1]) - size(texts[0])
    if step != size(texts[2]) - size(texts[1]):
        raise Skip()
    t0 = time.monotonic()
    for _ in range(5):
        one = call('loading %s' % name, cls(name).from_sexpr, b)
        call('saving %s' % name, save, one, name)
    each = (time.monotonic() - t0) / 30
    budget = 1.0 if run.tier == 'quick' else 6.0
    limits = [int(x) for x in dictionary()['nums'] if 400 < x <= 1000000]
    n = r.choice([70000, 70000, 33000, 10100] + ([300000] if run.tier == 'thorough' else []))
    if limits and r.random() < 0.5:
        n = max(limits) + 3
    n = max(300, min(n, int(budget / max(each, 1e-7))))
    m = n // 3
    big = grown(a, b, m - 1)
    real = call('loading %s with %d %s' % (name, 3 * m, k), cls(name).from_sexpr, big)
    small_ = cls(name).from_sexpr(a)
    run.saw('bulk', '%s.%s %d %s' % (name, k, m, texts[0]))
    run.kinds['bulk elements'] += 3 * m

    def same(real, what):
        x, y = getattr(real, k), getattr(small_, k)
        if len(x) != 3 * m or len(y) != 3:
            raise Violation('%s with %d %s: %d of them after %s' % (name, 3 * m, k, len(x), what), text=texts[0])
        for i in range(3):
            if any(v != y[i] for v in x[i::3]):
                raise Violation('%s with %d %s: elements differ after %s' % (name, 3 * m, k, what), text=texts[0])
    same(real, 'loading')
    out = call('saving %s with %d %s' % (name, 3 * m, k), save, real, name)
    want = size(texts[0]) + step * (m - 1)
    if size(out) != want:
        raise Violation('%s with %d %s is written with %d characters instead of %d' % (name, 3 * m, k, size(out), want), text=texts[0])
    if name in DOCS:
        p = run.path(EXT[name])
        call('to_file', real.to_file, p, encoding='utf-8')
        with open(p, encoding='utf-8', newline='') as f:
            data = f.read()
        os.unlink(p)
        if data != out:
            raise Violation('%s with %d %s: the file differs from to_sexpr()' % (name, 3 * m, k), text=texts[0])
        # a file of more than a megabyte, through the parser
        few = max(1, min(m, 1200000 // max(len(texts[1]) - len(texts[0]), 1) + 1))
        few = min(few, max(1, int(6.0 / max(each * 3, 1e-7))))
        again = call('saving', save, cls(name).from_sexpr(grown(a, b, few - 1)), name)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(again)
        back = call('%s.from_file of %d characters' % (name, len(again)), cls(name).from_file, p, encoding='utf-8')
        os.unlink(p)
        if len(getattr(back, k)) != 3 * few:
            raise Violation('%s.from_file of %d characters: %d of %d %s' % (name, len(again), len(getattr(back, k)), 3 * few, k), text=texts[0])
        run.kinds['file of a megabyte' if len(again) > 1048576 else 'large file'] += 1


CHECKS['C18']['probes'] = {'same-pin-number': r'''
import sys
from kiutils.items.schitems import SchematicSymbol
from kiutils.utils.sexpr import parse_sexp
t = '(symbol (lib_id "a") (at 0 0 0) (in_bom yes) (on_board yes) (uuid u) (pin "1" (uuid a)) (pin "1" (uuid b)))'
s = SchematicSymbol.from_sexpr(parse_sexp(t)).to_sexpr()
sys.exit(0 if s.count('(pin "1"') == 2 else 3)
'''}


# ============================================================================ C19 unknown tokens

def known_words(memo={}):
    """Every word the format description or the code under test mentions: none of them is a foreign name"""
    if not memo:
        words = set(dictionary()['strs'])
        for f in ('spec.py', 'model.py'):
            with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f), encoding='utf-8') as h:
                for n in ast.walk(ast.parse(h.read())):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        words.update(re.findall(r'[A-Za-z0-9_.-]+', n.value))
        memo['w'] = words
    return memo['w']


def other_versions():
    # tokens of KiCad 4, 8 and 9 and of other tools, none of them known to the library
    return ('generator_version embedded_fonts embedded_files exclude_from_sim file_format sim_model teardrops tenting covering plugging filling capping '
            'placement zone_defaults legacy_teardrops component_class component_classes rule_area netclass_name table table_cell column_count row_heights '
            'generated user_layer_names library libraries library_name lib_name_alias tab_title body_style '
            'fabrication_properties do_not_autoplace private_pins jumper_pad_groups duplicate_pad_numbers_are_jumpers is_private '
            'no_connects links drawings area trace_width zone_clearance mod_edit_layer host page_setup keep_upright_text solder_paste_ratio_x '
            'pad_to_paste_clearance_values origin_offset symbol_editor net_names netlist sheet_name stamp checksum comment_block remark').split()


def near_name(r, node):
    """A name that resembles one of the names used here (longer, shorter, other case, joined)"""
    names = child_names().get(str(node.head), []) + [str(node.head)]
    names = [x for x in names if re.fullmatch(r'[a-z][a-z0-9_]+', x)]
    if not names:
        return None
    n, m = r.choice(names), r.choice(names)
    out = r.choice([n + '_x', n + 's', n + '2', n + '_', '_' + n, 'x_' + n, n[:-1], n[1:], n.upper(), n.capitalize(), n.replace('_', '-') + '-x',
                    n.replace('_', ''), n + '_' + m, m + n, n + '_' + r.choice(['width', 'gap', 'mode', 'id', 'list', 'name', 'no', 'at']),
                    r.choice(['no', 'is', 'min', 'default', 'teardrop', 'fp', 'gr', 'pad', 'zone']) + '_' + n, n.split('_')[0] + '_kv',
                    'kv_' + n.split('_')[-1]])
    return out if len(out) > 1 and out not in known_words() else None


def foreign(run, c, rate):
    r = run.rng

    def f(node):
        if r.random() >= rate:
            return None
        h = 'zz_' + r.choice(['new', 'future_token', 'x', 'a1', 'generator_version', 'layer2', 'at2'])
        x = r.random()
        if x < 0.2:
            h = r.choice(['generator_version', 'embedded_fonts', 'zz-x', 'kv_unknown', 'hatch_orientation_x', 'layer_x', 'exclude_from_sim'])
        elif x < 0.65:
            h = near_name(r, node) or h
        elif x < 0.75:
            h = r.choice(other_versions())
        elif x < 0.9 and node.head != '':
            # known, but not here
            n = r.choice(sorted(child_names()))
            n = r.choice([n] + child_names()[n])
            if re.fullmatch('[a-z][a-z0-9_]+', n) and n not in child_names().get(str(node.head), ()):
                h = n
        k = r.randrange(9)
        if k > 6:
            names = child_names().get(str(node.head), []) + [str(node.head)]
            kids = ' '.join('(%s %s)' % (r.choice(names), r.choice(['7', '0.25', '"B.Cu"', 'yes', '99 98', 'hide', '(xyz 3 3 3)', '(pts (xy 1 2))', '"k" "v" (at 1 2)', '']))
                            for _ in range(r.randrange(1, 4)))
            if r.random() < 0.3:
                kids = '(%s %s)' % (r.choice([h, 'zz_inner', 'data']), kids)
            return '(%s%s %s)' % (h, r.choice(['', ' 1', ' "x"']), kids)
        if k == 0:
            return '(%s)' % h
        if k == 1:
            return '(%s yes)' % h
        if k == 2:
            return '(%s %s)' % (h, Q(c.text()).text())
        if k == 3:
            return '(%s 1 2.5 -3)' % h
        if k == 4:
            return '(%s (%s "x") (at 1 2) (layer "B.Cu") (uuid abc))' % (h, h)
        if k == 5:
            return '(%s %s %s)' % (h, r.choice(['hide', 'locked', 'no', 'false', 'unlocked', '0', '"a" "b"']), r.choice(['', '7', '(xy 1 2)', '()']))
        return '(%s\n  (effects (font (size 9 9)) hide)\n  (property "A" "B")\n)' % h
    return f


@check('C19', 'one text with foreign named tokens inserted between the known ones (at any depth), loaded and compared field by field with the '
       'model without them, and saved and compared with the canonical text without them; non-trivial: distinct texts that contain a foreign token',
       must_see=['item', 'document', 'file'], assumptions=['foreign tokens are bracketed and appear where the format has named children'])
def c19(run):
    r = run.rng
    name = pick(run, 0.4)
    for _ in range(1 if name in DOCS else 3):
        o = small(run, name, canon=True)
        c = ctx(run, wild=0.6)
        inj = foreign(run, c, r.choice([0.05, 0.2, 0.5, 1.0]))
        cnt = [0]

        def inject(node):
            x = inj(node)
            cnt[0] += x is not None
            return x
        text = scrambled(o, r, inject=inject, reorder=r.random() < 0.3)
        if not text or not cnt[0]:
            continue
        if name in DOCS and r.random() < 0.4:
            real = call('%s.from_file with foreign tokens' % name, load_file, run, name, text.replace('\r\n', '\n'))
            run.saw('file', text)
        else:
            try:
                real = call('%s.from_sexpr with foreign tokens' % name, load, name, text)
            except Violation as v:
                v.witness['text'] = text
                raise
            run.saw('document' if name in DOCS else 'item', text)
        run.kinds[name] += 1
        d = M.diff(real, o)
        if d:
            raise Violation('foreign tokens change what is loaded: %s%s' % (name, d), text=text, model=o)
        expect_text(o, call('saving', save, real, name), 'text saved after loading foreign tokens')


# ============================================================================ C20 value semantics

@check('C20', 'one comparison or copy of two objects: equal content compares equal, one changed field makes them unequal, deep copies and '
       'pickles are equal, independent and serialise alike; non-trivial: distinct texts', must_see=['equal', 'different', 'nudged', 'copy', 'pickle'])
def c20(run):
    r = run.rng
    name = pick(run)
    o = small(run, name, canon=True, digits=False)
    text = text_of(o)
    a, b = made(run, o)[0], made(run, o)[0]
    if name in DOCS:
        a.filePath = b.filePath = r.choice([None, 'a', '/x/y' + EXT[name], 'rel/' + EXT[name], pathlib.PurePosixPath('/p/q')])
    run.saw('equal', text)
    run.kinds[name] += 1
    if not (a == b) or a != b:
        raise Violation('%s: two objects with the same content are not equal' % name, text=text)
    e = call('deepcopy', copy.deepcopy, a)
    run.saw('copy', text)
    same_copy(name, 'deep copy', o, a, e, r)
    if r.random() < 0.5:
        e = call('pickle', lambda: pickle.loads(pickle.dumps(a, r.randrange(pickle.HIGHEST_PROTOCOL + 1))))
        run.saw('pickle', text)
        same_copy(name, 'pickle', o, a, e, r)
    # an edit makes the difference visible
    o2 = o.copy()
    ed = Editor(ctx(run, canon=True, size=2, big=0, digits=False))
    e = copy.deepcopy(a)
    ed.edit_doc(o2, e)
    changed = M.diff(e, o) is not None
    if changed and (a == e or not (a != e)):
        raise Violation('%s: objects compare equal although %s' % (name, ed.done), model=o, changed=o2)
    if not changed and a != e:
        raise Violation('%s: objects compare unequal although nothing changed (%s)' % (name, ed.done), model=o)
    if changed:
        run.saw('different', text_of(o2) + text)
    d = M.diff(a, o)
    if d:
        raise Violation('%s: editing a copy changed the original: %s' % (name, d))
    # so does the smallest difference anywhere
    for _ in range(4):
        e = copy.deepcopy(b)
        what = nudge(e, r)
        if what is None:
            break
        if a == e or e == a or not (a != e) or not (e != a):
            raise Violation('%s: objects compare equal although %s' % (name, what), model=o)
        run.saw('nudged', what + text)
    for x in (None, 0, '', [], r.choice(['x', 1.5, {}, object()]), text, cls(r.choice([n for n in SPECS if n != name]))()):
        if type(x) is not type(a) and (a == x or not (a != x)):
            raise Violation('%s: an object equals %s' % (name, sx.short(x)))
    repr(a)


def nudge(e, r):
    """Makes the smallest change to one value somewhere below e; says what was changed"""
    places = []

    def walk(x, path):
        for k, v in (enumerate(x) if isinstance(x, list) else x.items() if isinstance(x, dict) else state(x).items()):
            if k == 'filePath':
                continue
            p = '%s[%r]' % (path, k) if isinstance(x, (list, dict)) else '%s.%s' % (path, k)
            if isinstance(v, (list, dict)) or hasattr(v, '__dict__'):
                if isinstance(v, list) and v:
                    places.append((x, k, v, p))
                walk(v, p)
            else:
                places.append((x, k, v, p))
    walk(e, '')
    for _ in range(10):
        if not places:
            return None
        x, k, v, p = r.choice(places)
        if isinstance(v, bool):
            new = not v
        elif v is None:
            new = r.choice(['', 'x', 1, True])
        elif isinstance(v, (int, float)):
            new = r.choice([v + 1, -v, v + 1e-9, v - 1e-7, v + 1e-4, math.nextafter(v, math.inf) if abs(v) < 1e300 else v + 1, v * (1 + 1e-12), str(v), None])
        elif isinstance(v, str):
            new = r.choice([v + ' ', ' ' + v, v + '\n', v[:-1], v.swapcase(), v + '\u200b', v[::-1], v.strip(), v + v, '', None,
                            unicodedata.normalize('NFD', v), v.replace('/', '\\'), v + '0', v + '_1_1'])
        elif isinstance(v, list):
            new = r.choice([v[:-1], v + v[-1:], v[1:] + v[:1], v[::-1], []])
        else:
            continue
        if new == v:
            continue
        if isinstance(x, (list, dict)):
            x[k] = new
        else:
            setattr(x, k, new)
        return '%s was changed from %s to %s' % (p, sx.short(v, 80), sx.short(new, 80))
    return None


def same_copy(name, what, o, a, e, r):
    if a != e:
        raise Violation('%s: a %s is not equal to the original' % (name, what))
    d = M.diff(e, o)
    if d:
        raise Violation('%s: a %s has other content: %s' % (name, what, d))
    if getattr(a, 'filePath', None) != getattr(e, 'filePath', None):
        raise Violation('%s: a %s has the file path %r instead of %r' % (name, what, e.filePath, a.filePath))
    apart(name, 'an object and its ' + what, a, e)
    alone(name, 'a ' + what, e)
    expect_text(o, call('save', save, e, name), 'text of a ' + what)
