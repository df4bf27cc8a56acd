"""Instrumentation of the code under test.

``Monitor.install`` wraps, from outside and without editing the repository, every public boundary of
kiutils: from_sexpr / to_sexpr / from_file / to_file / create_new of every class and parse_sexp.  Each
call becomes a call and a return (or raise) event; nested calls are told apart from the ones the
workload made.  Checkers subscribe to events (``hooks``) or read the counters.  Line events come from
``sys.monitoring`` and say which lines of the repository the workload really reached.
"""
import collections
import functools
import importlib
import inspect
import os
import sys
import threading

SRC = os.environ.get('KV_SRC', '/repo/src')
MODULES = ['board', 'dru', 'footprint', 'libraries', 'schematic', 'symbol', 'wks', 'items.brditems', 'items.common',
           'items.dimensions', 'items.fpitems', 'items.gritems', 'items.schitems', 'items.syitems', 'items.zones']
METHODS = ('from_sexpr', 'to_sexpr', 'from_file', 'to_file', 'create_new')


class Monitor:
    def __init__(self):
        self.outer = collections.Counter()     # calls made by the workload
        self.inner = collections.Counter()     # calls kiutils made itself
        self.raised = collections.Counter()
        self.local = threading.local()
        self.before = []                       # hook(kind, cls, args, kwargs, depth)
        self.after = []                        # hook(kind, cls, args, kwargs, depth, result, error)
        self.lines = set()
        self.total_lines = 0
        self.classes = []

    def install(self):
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        if sys.path[0] != SRC:
            sys.path.remove(SRC)
            sys.path.insert(0, SRC)
        mods = [importlib.import_module('kiutils.' + m) for m in MODULES]
        import kiutils.utils.sexpr as sexpr
        mods.append(sexpr)
        for m in mods:
            if not os.path.realpath(m.__file__).startswith(os.path.realpath(SRC) + os.sep):
                raise RuntimeError('%s was imported from %s' % (m.__name__, m.__file__))
        self._lines(mods)
        seen = set()
        for m in mods[:-1]:
            for name, c in sorted(vars(m).items()):
                if not inspect.isclass(c) or c.__module__ != m.__name__ or c in seen:
                    continue
                seen.add(c)
                self.classes.append(c)
                for meth in METHODS:
                    if meth in vars(c):
                        self._wrap(c, meth)
        fn = sexpr.parse_sexp
        sexpr.parse_sexp = self._around(fn, 'parse_sexp', None)
        return self

    def _wrap(self, c, meth):
        raw = vars(c)[meth]
        key = '%s.%s' % (c.__name__, meth)
        if isinstance(raw, classmethod):
            setattr(c, meth, classmethod(self._around(raw.__func__, key, c)))
        elif isinstance(raw, staticmethod):
            setattr(c, meth, staticmethod(self._around(raw.__func__, key, c)))
        elif inspect.isfunction(raw):
            setattr(c, meth, self._around(raw, key, c))

    def _around(self, fn, key, cls):
        loc, outer, inner, raised = self.local, self.outer, self.inner, self.raised
        before, after = self.before, self.after

        @functools.wraps(fn)
        def wrapped(*a, **k):
            d = getattr(loc, 'd', 0)
            loc.d = d + 1
            (inner if d else outer)[key] += 1
            if before:
                for h in before:
                    h(key, cls, a, k, d)
            try:
                r = fn(*a, **k)
            except BaseException as e:
                raised[key] += 1
                for h in after:
                    h(key, cls, a, k, d, None, e)
                raise
            finally:
                loc.d = d
            if after:
                for h in after:
                    h(key, cls, a, k, d, r, None)
            return r
        return wrapped

    def _lines(self, mods):
        files = {}
        for m in list(sys.modules.values()):
            f = getattr(m, '__file__', None)
            if f and getattr(m, '__name__', '').startswith('kiutils'):
                files[f] = set()

        def collect(code, out):
            if code.co_flags & 1:            # function bodies only
                out.update(l for _, _, l in code.co_lines() if l)
            for x in code.co_consts:
                if inspect.iscode(x):
                    collect(x, out)
        for f in files:
            try:
                collect(compile(open(f, encoding='utf-8').read(), f, 'exec'), files[f])
            except (OSError, SyntaxError):
                pass
        self.total_lines = sum(len(v) for v in files.values())
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        names = {f: os.path.relpath(f, SRC) for f in files}
        lines = self.lines

        def on_line(code, line):
            n = names.get(code.co_filename)
            if n and code.co_flags & 1:
                lines.add((n, line))
            return mon.DISABLE
        try:
            mon.use_tool_id(4, 'kv')
            mon.register_callback(4, mon.events.LINE, on_line)
            mon.set_events(4, mon.events.LINE)
        except ValueError:
            pass

    def report(self):
        return {'calls': dict(self.outer), 'nested': dict(self.inner), 'raised': dict(self.raised),
                'lines': sorted('%s:%d' % x for x in self.lines), 'total_lines': self.total_lines}
