"""Value generators. Everything is driven by one seeded random.Random per case."""
import ast
import os
import re
import string

WORDS = ['R1', 'GND', '+3V3', 'net-(U1-Pad3)', 'Value', 'Reference', '${REFERENCE}', '%REF', 'F.Cu',
         'Device', 'LED_SMD', 'a', 'X', '0402', '74HC00', 'sheet1.kicad_sch', 'https://example.org/?q=1&r=2',
         '~', '-', '_', '%', '#', '/', '/path/to/x', '${KIPRJMOD}/lib.kicad_sym', 'Filter_EMI_LLL_16',
         'A4', 'User', '${KICAD6_3DMODEL_DIR}/Resistor_SMD.3dshapes/R_0402.wrl', '${KICAD6_SYMBOL_DIR}/Device.kicad_sym', '$HOME/lib', '~/lib',
         '${HOME}', '%USERPROFILE%\\lib', '../up/x.kicad_sym', './x']
NASTY = ['', ' ', '  ', '"', '""', '"quoted"', 'say "hi" there', 'a"b"c', '\\"', 'a\\"b', '(', ')', '()',
         ')(', '(at 1 2)', '") (injected "x', '"))', '((', 'a) (b', '\\n', 'line1\\nline2', 'line1\nline2', '\n',
         '\ttab', 'trail ', ' lead', 'C:\\dir\\file', '\\\\x', '\u00b5F', '\u03a9', '100\u03a9 \u00b110%',
         '\u00e4\u00f6\u00fc\u00df', '\u65e5\u672c\u8a9e', '\U0001f600', '\u2028', '\x85', '\xa0', '\x0b', '\x0c', '\x1d',
         '0', '1', '-1', '1.0', '0.5', '1e5', '1e-5', '00012', '+5', '0x1F', 'None', 'none', 'null', 'nan',
         'true', 'false', 'True', 'False', 'yes', 'no', 'locked', 'hide', 'unlocked', 'private', 'placed', 'portrait', 'bold',
         'italic', 'mirror', 'knockout', 'addsublayer', 'User', 'property', 'symbol', 'pin', 'at', 'layer',
         "it's", '`', '$x', '{x}', '{}', '%s', '%d', '%(a)s', '<b>', '&amp;', ';', '; comment', '#x', '|', '^', 'a^b', '*.Cu',
         'F&B.Cu', 'a:b', ':', 'a:b:c', '_1_2', 'X_0_1', 'X_1_1', '~{RESET}', 'a,b', 'a=b', '[x]', "''", '\\t', '\\u0041', '\x00',
         '\u200b', '\ufeff', 'e\u0301', '\u0130', '\u01c5', '...', '//', '/* */', '""" x """', 'x' * 49, 'x' * 50, 'x' * 51,
         'x' * 80, 'x' * 128, 'x' * 256, ('word ' * 40).strip(), 'x' * 1025]

# texts and numbers with many properties at once: two or more fields of one object are of a special kind together
SHARP = [' \u03a9 "a" (B):c/2\n', 'x:y/Z 9.', '-1.50', '007', 'ABC_1_2', '\n lead', 'Tail ', '"', '(x)', 'a:b', '/', '\u00e9', '${A}', '#PWR_1', '~', 'locked', 'User',
         'MIXED Case "word" \u65e5 (with) brackets: 32 and more/characters\n\ttwo lines ', 'z' * 120, 'A\\n"B\\"', '0', 'none', '*.Cu', '?', '_', '%d{}']
SHARPNUM = [0, -1.5, 0.25, 90, 180, 270, -90, 5000, 1234.56789, -123456.5, 0.001, 1, -1, 360, 100000, 0.000123]

LAYERS = ['F.Cu', 'B.Cu', 'In1.Cu', 'F.SilkS', 'B.SilkS', 'F.Mask', 'F.Fab', 'Edge.Cuts', 'Dwgs.User', 'User.1',
          'Margin', 'F.CrtYd']


def harvest(root):
    """Constants of the code under test, used as a fuzzing dictionary: every string becomes a text
    value, every number a value, a list length and a string length (n-1, n, n+1)."""
    strs, nums = set(), set()
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            try:
                t = ast.parse(open(os.path.join(dp, f), encoding='utf-8').read())
            except (SyntaxError, UnicodeDecodeError, OSError):
                continue
            docs = set()
            for node in ast.walk(t):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(t):
                if isinstance(node, ast.JoinedStr):
                    for v in node.values:
                        docs.add(id(v))
            for node in ast.walk(t):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, str) and len(v) <= 60:
                        strs.add(v)
                    elif isinstance(v, bool):
                        pass
                    elif isinstance(v, (int, float)) and abs(v) < 1e9:
                        nums.add(v)
    return sorted(strs), sorted(nums)


class Ctx:
    """Profile of one generated case."""

    def __init__(self, rng, strs=(), nums=(), wild=0.35, canon=False, size=4, big=0.02, file_safe=True,
                 ascii_only=False, exotic_num=True, falsy=0.2, none=0.4, flag=0.5, digits=True, blank=0.0, echo=0.0, twin=0.0, more=0.0, sharp=0.0, linked=False, plain=0.0):
        self.rng, self.strs, self.nums = rng, list(strs), list(nums)
        self.atoms = [x for x in self.strs if re.fullmatch(r'[A-Za-z_=~/*?!&%$#@:;.,|<>^{}\[\]+-][A-Za-z_=~/*?!&%$#@:;.,|<>^{}\[\]+-]*', x)]
        self.wild, self.canon, self.size, self.big = wild, canon, size, big
        self.file_safe, self.ascii_only, self.exotic_num = file_safe, ascii_only, exotic_num
        self.falsy, self.none, self.flag, self.digits = falsy, none, flag, digits
        # blank: empty texts; echo: values equal to an earlier one of the case; twin: equal list elements; more: lists of some elements
        self.blank, self.echo, self.twin, self.more = blank, echo, twin, more
        self.linked = linked    # references inside a document lead somewhere: see spec.linked
        self.plain = plain      # objects with the default values, or all but one: see model.plain
        self.sharp = sharp      # special values: see SHARP
        self.texts, self.numbers, self.ids = [], [], []
        self.budget = 400
        self.depth = 0

    # -- scalars
    def text(self, empty=True):
        r = self.rng
        if empty and r.random() < self.blank:
            return ''
        if self.texts and r.random() < self.echo:
            s = r.choice(self.texts[-5:])
            if self.ok_text(s) and (empty or s):
                return s
        s = self.newtext(empty)
        self.texts.append(s)
        return s

    def newtext(self, empty):
        r = self.rng
        for _ in range(20):
            x = r.random()
            if r.random() < self.sharp:
                s = r.choice(SHARP)
            elif x > self.wild:
                s = r.choice(WORDS) if r.random() < 0.5 else self.word()
            elif x < self.wild * 0.55 or not self.strs:
                s = r.choice(NASTY)
            elif x < self.wild * 0.8:
                s = r.choice(self.strs)
                if r.random() < 0.3:
                    s = r.choice(['', ' ', '"']) + s + r.choice(['', ' ', 'x', '_1_1'])
            else:
                s = self.rtext()
            if self.ok_text(s) and (empty or s):
                return s
        return 'x'

    def ok_text(self, s):
        if s.endswith('\\'):          # known finding, probed separately
            return False
        if self.ascii_only and not s.isascii():
            return False
        if self.file_safe and ('\r' in s or any(0xd800 <= ord(c) < 0xe000 for c in s)):
            return False
        return True

    def rtext(self):
        r = self.rng
        if self.nums and r.random() < 0.4:
            n = r.choice(self.nums)
            n = int(n) if n <= 2000 or n <= 70000 and r.random() < 0.1 else 2000
            n = max(0, n) + r.choice([-1, 0, 0, 1])
        else:
            n = r.choice([1, 2, 3, 5, 8, 13, 30, 48, 49, 50, 51, 52, 99, 100, 101])
        n = max(0, n)
        alpha = r.choice([string.ascii_letters + string.digits, string.printable.replace('\r', ''), '() "\\\nab',
                          'ab \u00e4\u03a9\u65e5\u2028\x0b"', 'a\t\n,;:\'"#=&%+', '0123456789', 'ab\U0001f600\U00010348\u200d\ufe0f '])
        return ''.join(r.choice(alpha) for _ in range(n))

    def layer(self):
        x = self.rng.random()
        if x < self.blank / 2:
            return ''
        if x < 0.75 * (1 - self.sharp):
            return self.rng.choice(LAYERS)
        return self.text()

    def word(self):
        r = self.rng
        return r.choice(string.ascii_letters) + ''.join(r.choice(string.ascii_letters + string.digits + '_-.')
                                                        for _ in range(r.randrange(1, 12)))

    def atom(self):
        """Bare identifier: uuid, hex time stamp, ..."""
        if self.ids and self.rng.random() < self.echo:
            return self.rng.choice(self.ids[-6:])
        s = self.newatom()
        self.ids.append(s)
        return s

    def newatom(self):
        r = self.rng
        k = r.randrange(5)
        if k == 4:
            # base64 and words of the code, alone or at the end of something
            x = r.random()
            a = ''.join(r.choice('ABCDEFabcdefxyzXYZ0123456789+/') for _ in range(r.choice([3, 7, 75])))
            d = r.choice(self.atoms) if self.atoms else '=='
            return d if x < 0.3 else 'i' + a + d if x < 0.6 else d + 'x' + a if x < 0.7 else 'V' + a + r.choice(['', '=', '==', '====']) if x < 0.95 else r.choice(['=', '==', '===='])
        if k == 0:
            return '-'.join('%0*x' % (n, r.getrandbits(4 * n)) for n in (8, 4, 4, 4, 12))
        if k == 1:
            return '%s%06X' % (r.choice('ABCDEF'), r.getrandbits(24))
        if k == 2:
            return r.choice('abcdef') + '%x' % r.getrandbits(28)
        if self.digits and r.random() < 0.3:
            return str(r.randrange(10 ** 7, 10 ** 8))
        return self.word()

    def num(self):
        if self.numbers and self.rng.random() < self.echo:
            return self.rng.choice(self.numbers[-4:])
        v = self.newnum()
        self.numbers.append(v)
        return v

    def newnum(self):
        r = self.rng
        k = r.random()
        if r.random() < self.sharp:
            return r.choice(SHARPNUM)
        if k < 0.12:
            return 0
        if k < 0.2:
            return r.choice([1, -1, 2, 10, 45, 90, 180, 270, 360, 100])
        if k < 0.3 and self.nums:
            v = r.choice(self.nums)
            v = v + r.choice([-1, 0, 0, 0, 1])
            v = self.canonnum(v) if self.canon else v
            return v
        if k < 0.4:
            return r.randrange(-100000, 100000)
        if k < 0.75 or self.canon or not self.exotic_num:
            return self.canonnum(r.randrange(-10 ** r.randrange(1, 10), 10 ** r.randrange(1, 10)) / 10 ** r.randrange(1, 7))
        return r.choice([0.0, 1.0, -2.0, -0.0, 0.1 + 0.2, 1 / 3, 1e-5, 1.5e-7, -2.5e-6, 1e-4, 123456789.987654,
                         12345678901234567890, 2 ** 53 + 1, -(2 ** 63), 1e15, 1e16, -2.5e17, 1.5e300, 999999999999999.9, r.random(), -r.random(),
                         r.uniform(-1e6, 1e6), r.random() * 1e-6])

    @staticmethod
    def canonnum(v):
        """A value KiCad could have written: at most 6 decimals, integers without a point"""
        v = round(float(v), 6)
        if v == 0 or (abs(v) < 1e-4):
            return 0
        if v.is_integer():
            return int(v)
        return v

    def dec(self, places):
        r = self.rng
        v = r.choice([0, 1, r.randrange(0, 100), r.randrange(0, 10 ** (places + 2)) / 10 ** places])
        v = round(v, places)
        return int(v) if float(v).is_integer() else v

    def integer(self, lo=-1000, hi=1000):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return 0 if lo <= 0 else lo
        if self.sharp and r.random() < self.sharp:
            return r.choice([v for v in (lo, hi, 0, 1, 2, -1, lo + 1, hi - 1) if lo <= v <= hi])
        if k < 0.4 and self.nums:
            v = int(r.choice(self.nums)) + r.choice([-1, 0, 1])
            if lo <= v <= hi:
                return v
        return r.randrange(lo, hi + 1)

    def maybe(self, p=None):
        return self.rng.random() >= (self.none if p is None else p)

    def boolean(self):
        return self.rng.random() < self.flag

    def count(self, lo=0, hi=None):
        r = self.rng
        hi = max(1, self.size - self.depth) if hi is None else hi
        if r.random() < self.big and self.budget > 0:
            n = r.choice([8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101])
            if self.nums and r.random() < 0.5:
                n = max(lo, min(300, int(r.choice(self.nums)))) + r.choice([-1, 0, 1])
            n = max(lo, n)
            self.budget -= n
            return n
        if lo != hi and self.budget > 0 and r.random() < self.more:
            n = max(lo, r.randrange(3, 9))
            self.budget -= 4 * n
            return n
        return max(lo, r.randrange(0, hi + 1))

    def pick(self, seq):
        return self.rng.choice(seq)
