"""Independent S-expression layer of the verification machinery.

Nothing in here imports kiutils.  It has three parts:

* ``read``     a reference reader for the KiCad dialect (used as oracle for what a text says),
* ``Node``     token trees with layout, built by the format specification in ``spec.py``,
* ``render``   the writer for those trees (canonical layout or deliberately scrambled layout).
"""
import re

NUM = re.compile(r'[+-]?\d+\.\d+|-?\d+|[+-]?\d+(?:\.\d+)?e[+-]\d+', re.ASCII)
SPACE = ' \t\n\r\x0b\x0c'        # other white space of Unicode is part of words


class Bad(Exception):
    """The text is not one well-formed expression"""


def number(tok):
    """Value of an unquoted token if it is spelled as a number, otherwise None"""
    if not NUM.fullmatch(tok):
        return None
    try:
        return int(tok)
    except ValueError:
        v = float(tok)
        return int(v) if v.is_integer() else v


class Str(str):
    """A quoted string (as opposed to a bare atom) in a reference tree"""
    __slots__ = ()


def read_all(text):
    """Read every top-level expression. Lists -> list, quoted -> Str, bare atoms -> str"""
    stack, cur, i, n = [], [], 0, len(text)
    while i < n:
        c = text[i]
        if c == '(':
            stack.append(cur)
            cur = []
            i += 1
        elif c == ')':
            if not stack:
                raise Bad('closing bracket without opening bracket at %d' % i)
            done, cur = cur, stack.pop()
            cur.append(done)
            i += 1
        elif c in SPACE:
            i += 1
        elif c == '"':
            j, buf = i + 1, []
            while True:
                if j >= n:
                    raise Bad('unterminated string starting at %d' % i)
                d = text[j]
                if d == '\\' and j + 1 < n and text[j + 1] == '"':
                    buf.append('"')
                    j += 2
                elif d == '"':
                    break
                else:
                    buf.append(d)
                    j += 1
            i = j + 1
            if i < n and text[i] not in SPACE and text[i] not in '()':
                raise Bad('garbage after string ending at %d' % j)
            cur.append(Str(''.join(buf)))
        else:
            j = i
            while j < n and text[j] not in SPACE and text[j] not in '()':
                j += 1
            cur.append(text[i:j])
            i = j
    if stack:
        raise Bad('%d bracket(s) never closed' % len(stack))
    return cur


def read(text):
    out = read_all(text)
    if len(out) != 1 or not isinstance(out[0], list):
        raise Bad('%d top-level items instead of one expression' % len(out))
    return out[0]


def values(tree):
    """What a reader that hands out Python values must deliver for this tree"""
    if isinstance(tree, list):
        return [values(x) for x in tree]
    if isinstance(tree, Str):
        return str(tree)
    v = number(tree)
    return tree if v is None else v


def same_tree(a, b):
    """Equality of reference trees: bare numbers are equal when their values are"""
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
            all(same_tree(x, y) for x, y in zip(a, b))
    if isinstance(a, Str) != isinstance(b, Str):
        return False
    if a == b:
        return True
    if isinstance(a, Str):
        return False
    va, vb = number(a), number(b)
    return va is not None and vb is not None and va == vb


def first_diff(a, b, path='/'):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same_tree(x, y):
                head = a[0] if a and not isinstance(a[0], list) else '?'
                return first_diff(x, y, '%s%s[%d]/' % (path, head, i))
        return '%s%s: %d items expected, %d found' % (path, a[0] if a and not isinstance(a[0], list) else '?', len(a), len(b))
    return '%s expected %r, found %r' % (path, short(a), short(b))


def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ----------------------------------------------------------------------------------------------
# Token trees with layout

class A:
    """Bare atom"""
    __slots__ = ('v', 'fmt', 'flag')

    def __init__(self, v, fmt=None):
        self.v, self.fmt = v, fmt

    def text(self):
        if self.fmt is not None:
            return self.fmt % self.v
        return str(self.v)


class Q:
    """Quoted string"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def text(self):
        return '"' + str(self.v).replace('"', '\\"') + '"'


class NL:
    """Item on a line of its own, ``k`` columns further right than its parent"""
    __slots__ = ('item', 'k')

    def __init__(self, item, k=2):
        self.item, self.k = item, k


class WS:
    """Item preceded by the given white space"""
    __slots__ = ('item', 'ws')

    def __init__(self, ws, item):
        self.item, self.ws = item, ws


class SP:
    """Item preceded by as many blanks as the column ``k`` further right than its parent (same line)"""
    __slots__ = ('item', 'k')

    def __init__(self, item, k=2):
        self.item, self.k = item, k


class _BL:
    pass


BL = _BL()   # one blank line before the next item that starts a line


class Node:
    """``fixed``: the children keep their order ('order'), and nothing may come in between (True: foreign
    tokens only after the last one); ``closed``: no foreign tokens at all"""
    __slots__ = ('head', 'parts', 'close', 'fixed', 'closed', 'group')

    def __init__(self, head, parts, close, fixed, closed, group):
        self.head, self.parts, self.close = head, parts, close
        self.fixed, self.closed, self.group = fixed, closed, group or str(head)


def T(head, *parts, close=None, fixed=False, closed=False, group=None):
    out = []

    def add(p):
        if p is None or p is False:
            return
        if isinstance(p, (list, tuple)):
            for x in p:
                add(x)
        elif p is BL:
            out.append(BL)
        elif isinstance(p, (NL, WS, SP)):
            if p.item is not None:
                out.append((p, p.item if isinstance(p.item, (A, Q, Node)) else A(p.item)))
        elif isinstance(p, (A, Q, Node)):
            out.append((None, p))
        else:
            out.append((None, A(p)))
    for p in parts:
        add(p)
    return Node(head, out, close, fixed, closed, group)


def render(node, indent=0):
    """Canonical layout. No leading indentation, no trailing newline."""
    s = ['(', str(node.head)]
    blanks = 0
    for part in node.parts:
        if part is BL:
            blanks += 1
            continue
        lay, item = part
        ind = indent
        if lay is None:
            s.append(' ')
        elif isinstance(lay, NL):
            ind = indent + lay.k
            s.append('\n' * (1 + blanks) + ' ' * ind)
            blanks = 0
        elif isinstance(lay, SP):
            ind = indent + lay.k
            s.append(' ' * ind)
        else:
            s.append(lay.ws)
        s.append(render(item, ind) if isinstance(item, Node) else item.text())
    if node.close is not None:
        if isinstance(node.close, int):
            s.append('\n' * (1 + blanks) + ' ' * (indent + node.close))
        elif isinstance(node.close, tuple):
            s.append(' ' * (indent + node.close[0]))
        else:
            s.append(node.close)
    s.append(')')
    return ''.join(s)


def tree(node):
    """Reference tree of a Node (what ``read`` yields for any rendering of it)"""
    out = [str(node.head)]
    for part in node.parts:
        if part is BL:
            continue
        item = part[1]
        if isinstance(item, Node):
            out.append(tree(item))
        elif isinstance(item, Q):
            out.append(Str(item.v))
        else:
            out.append(item.text())
    return out


WORDY = re.compile(r'[A-Za-z_$~\x85\xa0-\U0010ffff][^()\s"]*', re.ASCII)   # text that needs no quotes and cannot be taken for a number
WSPACE = [' ', ' ', ' ', '\n', '\t', '  ', '\n  ', ' \n', '\r\n', '\n\n', '\t\t ', '\x0b', '\x0c']


HASH = re.compile(r'^[ \t]*#', re.M)          # may start a comment line of a design rules file


def comment(text, rng):
    """The design rules with comment lines between their lines (never inside a quoted string)"""
    lines, inside, p = [0], False, 0
    while p < len(text):
        if text[p] == '\\' and inside:
            p += 1
        elif text[p] == '"':
            inside = not inside
        elif text[p] == '\n' and not inside:
            lines.append(p + 1)
        p += 1
    if '\\\\' in text:
        lines = [0]
    out, last = [], 0
    for p in sorted(rng.sample(lines, rng.randrange(1, min(len(lines), 6) + 1))):
        out.append(text[last:p])
        for _ in range(rng.choice([1, 1, 1, 3])):
            out.append(rng.choice(['', '', ' ', '\t', '    ']) + '#' + rng.choice(
                ['', ' a comment', ' 5', ' 0.2 mm', '(rule "off" (constraint clearance (min "1mm")) (condition "A.NetName == \'x\'"))', ' (rule', ' )', ' ((', ' "', ' 5" of',
                 ' it\\\'s', ' (version 9)', '# heading ##', ' (constraint length (max "3mm"))', ' \\', ' \\"', ' \xe4\u20ac', '!/usr/bin/x']) + '\n')
        last = p
    tail = text[last:]
    if rng.random() < 0.3:
        tail += ('' if tail.endswith('\n') else '\n') + '# end' + rng.choice(['', '\n', ' )', ' ("'])
    return ''.join(out) + tail


FLAGS = {'hide', 'bold', 'italic', 'suppress_zeroes', 'locked', 'keep_text_aligned', 'placed', 'portrait', 'mirror'}


def wander(items, rng, head):
    """Bare flags at another place among the named children"""
    lead = {'module': 1, 'footprint': 1, 'fp_text': 3, 'pad': 3}.get(str(head), 0)       # names without quotes
    flags = [x for i, x in enumerate(items) if isinstance(x, A) and i >= lead and x.v in FLAGS and not (head == 'fp_text' and x.v == 'locked')]
    if not flags or head in ('constraint', 'model', 'fp_text_box', 'gr_text_box'):       # places KiCad itself fixes
        return items
    rest = [x for x in items if not any(x is f for f in flags)]
    first = min(i for i, x in enumerate(rest) if isinstance(x, Node))
    if any(not isinstance(x, Node) for x in rest[first:]):
        return items
    for f in flags:
        rest.insert(rng.randrange(first + (head == 'fp_text'), len(rest) + 1), f)        # (fp_text user "locked" hide ...) is ambiguous
    return rest


def scramble(node, rng, reorder=False, inject=None, quote_atoms=False, ws=WSPACE, spell=None, unquote=False):
    """Same content, different text: arbitrary white space, optionally another order of the named
    children, optionally foreign tokens in between."""
    items = [p[1] for p in node.parts if p is not BL]
    if reorder and not node.fixed:
        slots = [i for i, it in enumerate(items) if isinstance(it, Node)]
        if len(slots) > 1:
            kids = [items[i] for i in slots]
            rng.shuffle(kids)
            # items of one collection keep their relative order
            queues = {}
            for i in slots:
                queues.setdefault(items[i].group, []).append(items[i])
            new = [queues[k.group].pop(0) for k in kids]
            for i, k in zip(slots, new):
                items[i] = k
        if slots and rng.random() < 0.4:
            items = wander(items, rng, node.head)
    toks = []
    for it in items:
        if isinstance(it, Node):
            if inject is not None and not node.closed and node.fixed is not True:
                f = inject(node)
                if f:
                    toks.append(('n', f))
            toks.append(('n', scramble(it, rng, reorder, inject, quote_atoms, ws, spell, unquote)))
        elif isinstance(it, Q):
            if unquote and rng.random() < 0.5 and WORDY.fullmatch(str(it.v)):
                toks.append(('a', str(it.v)))
            else:
                toks.append(('q', it.text()))
        else:
            t = it.text()
            if spell is not None and isinstance(it.v, (int, float)) and not isinstance(it.v, bool):
                t = spell(it.v, t)
            if quote_atoms and isinstance(it.v, str) and number(t) is None and rng.random() < 0.3:
                toks.append(('q', '"%s"' % t))
            else:
                toks.append(('a', t))
    if inject is not None and not node.closed and any(isinstance(x, Node) for x in items):
        f = inject(node)
        if f:
            toks.append(('n', f))
    s = ['(']
    if rng.random() < 0.1:
        s.append(rng.choice(ws))
    s.append(str(node.head))
    prev = 'a'
    for kind, t in toks:
        need = not (kind == 'n')
        if prev == 'n':
            need = False
        if need or rng.random() < 0.85:
            s.append(rng.choice(ws))
        s.append(t)
        prev = kind
    if rng.random() < 0.2:
        s.append(rng.choice(ws))
    s.append(')')
    return ''.join(s)
