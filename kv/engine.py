"""Runs the cases of one check in parallel worker processes and turns what the monitors saw into a
verdict, an evidence file and, for a violation, a replay file."""
import collections
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
HANG = 150          # seconds; a case takes milliseconds


# variables a KiCad user has; texts that name them must stay as they are
SETTINGS = {k: '/opt/kv/' + k.lower() for k in (
    'KIPRJMOD', 'KISYS3DMOD', 'KICAD_SYMBOL_DIR', 'KICAD6_3DMODEL_DIR', 'KICAD6_SYMBOL_DIR', 'KICAD6_FOOTPRINT_DIR', 'KICAD7_3DMODEL_DIR',
    'KICAD7_SYMBOL_DIR', 'KICAD7_FOOTPRINT_DIR', 'KICAD_USER_DIR', 'KICAD_CONFIG_HOME', 'REFERENCE', 'USERPROFILE')}


class Violation(Exception):
    def __init__(self, msg, **witness):
        Exception.__init__(self, msg)
        self.msg, self.witness = msg, witness


class Hang(BaseException):
    pass


class Skip(Exception):
    """Case outside the domain"""


class Run:
    """What a case function gets: random source, monitor, scratch directory, counters"""
    def __init__(self, mon, scratch, tier):
        self.mon, self.scratch, self.tier = mon, scratch, tier
        self.rng = None
        self.idx = 0
        self.stats = collections.Counter()
        self.digests = set()
        self.samples = []
        self.kinds = collections.Counter()
        self._n = 0
        self.memo = {}
        self.log = {}            # recorded for offline checkers

    def path(self, ext='.txt'):
        self._n += 1
        return os.path.join(self.scratch, 'f%d%s' % (self._n % 40, ext))

    def saw(self, kind, text, trivial=False):
        """Count one judged execution"""
        self.stats['judged'] += 1
        self.kinds[kind] += 1
        if not trivial:
            self.digests.add(hashlib.blake2b(('%s\0%s' % (kind, text)).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest())
        if len(self.samples) < 3 and not trivial and len(text) < 3000 and self.rng.random() < 0.2:
            self.samples.append({'case': self.idx, 'kind': kind, 'input': text[:600]})


def call(what, fn, *a, **k):
    """Call the code under test where the property demands a result"""
    try:
        return fn(*a, **k)
    except (Violation, Hang, Skip):
        raise
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]), trace=traceback.format_exc()[-1500:])


def budget(tier, check):
    if 'KV_SECONDS' in os.environ:
        return float(os.environ['KV_SECONDS'])
    return check.get('thorough_s', 420) if tier == 'thorough' else check.get('quick_s', 42)


def worker(prop, k, n, seed, tier, out, scratch):
    from . import monitor, checks
    check = checks.CHECKS[prop]
    mon = monitor.Monitor().install()
    os.makedirs(scratch, exist_ok=True)
    run = Run(mon, scratch, tier)
    end = time.monotonic() + budget(tier, check)
    maxcases = check.get('max_cases', 10 ** 9)
    res = {'violations': [], 'errors': []}
    check.get('setup', lambda r: None)(run)
    i = k

    def onalarm(s, f):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    done = 0
    while i < maxcases and (time.monotonic() < end or done < 3):
        v = one(check, prop, run, seed, i)
        if v:
            res[v[0]].append(v[1])
            if len(res['violations']) >= 2 or len(res['errors']) >= 2:
                break
        done += 1
        i += n
    res.update(cases=done, stats=dict(run.stats), kinds=dict(run.kinds), samples=run.samples, digests=sorted(run.digests),
               mon=mon.report(), log=run.log, worker=k)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def one(check, prop, run, seed, i):
    run.rng = random.Random('%s:%s:%d' % (prop, seed, i))
    run.idx = i
    try:
        signal.alarm(HANG)
        try:
            check['case'](run)
        finally:
            signal.alarm(0)
    except Skip:
        run.stats['skipped'] += 1
    except Violation as e:
        return 'violations', {'case': i, 'message': e.msg, 'witness': {a: str(b)[:4000] for a, b in e.witness.items()}}
    except Hang:
        return 'violations', {'case': i, 'message': 'a call did not come back within %d s' % HANG, 'witness': {}}
    except Exception as e:
        return 'violations', {'case': i, 'message': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                              'witness': {'trace': traceback.format_exc()[-2500:]}}
    return None


def selftest():
    """The oracle agrees with itself: every rendering of every specified object reads back as its token tree"""
    from . import sx, util, model
    n = 0
    for i in range(6):
        for name in util.ALL:
            run = Run(None, '/nonexistent', 'quick')
            run.rng = random.Random('%s %d' % (name, i))
            o = util.small(run, name)
            want = util.tree_of(o)
            if want is None:
                continue
            for text in (util.text_of(o), util.scrambled(o, run.rng)):
                if not sx.same_tree(want, util.read_saved(name, text)):
                    print('reference reader and specification disagree about', name)
                    return 1
                n += 1
    print('self-test: %d texts of %d classes read back as specified' % (n, len(util.ALL)))
    return 0


def main(argv):
    sys.path.insert(0, ROOT)
    if argv[0] == '--selftest':
        return selftest()
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    from . import checks
    if prop not in checks.CHECKS:
        print('unknown property', prop)
        return 2
    check = checks.CHECKS[prop]
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1], tier)
    if '--worker' in argv:
        j = argv.index('--worker')
        worker(prop, int(argv[j + 1]), int(argv[j + 2]), seed, tier, argv[j + 3], argv[j + 4])
        return 0
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = os.path.join(ROOT, 'evidence', prop + '.json')
    if os.path.exists(ev):
        os.unlink(ev)
    tmp = tempfile.mkdtemp(prefix='kv-%s-' % prop)
    try:
        return judge(prop, check, tier, seed, tmp, t0, ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(prop, check, tier, seed, tmp, t0, ev):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_TIER=tier, VERIF_SEED=str(seed),
               PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8', PYTHONUTF8='')
    env.update(SETTINGS, HOME='/home/kv', USER='kv')
    env.pop('PYTHONUTF8')
    env.pop('PYTHONOPTIMIZE', None)
    procs = []
    for k in range(WORKERS):
        flags = check['flags'][k % len(check['flags'])] if 'flags' in check else []
        e = dict(env, **(check['envs'][k % len(check['envs'])] if 'envs' in check else {}))
        e.update(check['settings'](k) if 'settings' in check else {})
        cmd = [sys.executable] + flags + [os.path.join(ROOT, 'check.py'), prop, '--worker', str(k), str(WORKERS),
                                          os.path.join(tmp, 'r%d.json' % k), os.path.join(tmp, 'w%d' % k)]
        procs.append(subprocess.Popen(cmd, env=e, cwd=tmp, stdout=open(os.path.join(tmp, 'o%d' % k), 'wb'), stderr=subprocess.STDOUT))
    limit = time.time() + budget(tier, check) + HANG + 120
    res, dead = [], []
    for k, p in enumerate(procs):
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            res.append(json.load(open(os.path.join(tmp, 'r%d.json' % k))))
        except (OSError, ValueError):
            dead.append(open(os.path.join(tmp, 'o%d' % k), errors='replace').read()[-3000:])
    viol = [v for r in res for v in r['violations']]
    errs = [v for r in res for v in r['errors']]
    stats, kinds, digests, calls, nested, raised, lines = (collections.Counter(), collections.Counter(), set(), collections.Counter(),
                                                          collections.Counter(), collections.Counter(), set())
    samples, total = [], 0
    for r in res:
        stats.update(r['stats'])
        kinds.update(r['kinds'])
        digests.update(r['digests'])
        calls.update(r['mon']['calls'])
        nested.update(r['mon']['nested'])
        raised.update(r['mon']['raised'])
        lines.update(r['mon']['lines'])
        total = max(total, r['mon']['total_lines'])
        samples += r['samples']
    cases = sum(r['cases'] for r in res)
    # offline checkers over everything the workers recorded
    if 'offline' in check and not viol and not dead:
        viol += check['offline'](res, tmp)
    findings = []
    if not dead and 'probes' in check:
        findings = probes(prop, check, env)
    wall = time.time() - t0
    doc = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': check.get('level', 'exploration'),
        'coverage': {
            'evaluations': stats['judged'],
            'distinct_nontrivial': len(digests),
            'rule': check['rule'],
            'samples': samples[:4],
            'cases': cases,
            'judged_by_kind': dict(sorted(kinds.items())),
            'monitored_calls_made_by_the_workload': sum(calls.values()),
            'monitored_calls_nested': sum(nested.values()),
            'monitored_calls_raising': sum(raised.values()),
            'entry_points_reached': len(set(calls) | set(nested)),
            'counters': {k: v for k, v in sorted(stats.items()) if k != 'judged'},
            'repository_lines_reached': len(lines), 'repository_lines_in_functions': total,
        },
        'assumptions': check.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(viol),
    }
    with open(ev, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    for line in findings:
        print(line)
    if viol:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        viol.sort(key=lambda v: v['case'])
        path = os.path.join(ROOT, 'replay', '%s-%d.json' % (prop, seed))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'violations': viol[:6]}, f, indent=1)
        for v in viol[:3]:
            print('case %s: %s' % (v['case'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if dead or errs or not stats['judged'] or not res:
        print('INCONCLUSIVE property=%s: %d worker(s) without result, %d error(s), %d judged' % (prop, len(dead), len(errs), stats['judged']))
        for d in dead[:1]:
            print(d)
        return 2
    need = check.get('must_see', [])
    missing = [n for n in need if not kinds.get(n)]
    if missing:
        print('INCONCLUSIVE property=%s: nothing observed for %s' % (prop, ', '.join(missing)))
        return 2
    print('held property=%s: %d executions judged, %d distinct, %d cases, %d/%d lines, %.1f s' % (
        prop, stats['judged'], len(digests), cases, len(lines), total, wall))
    return 0


def known(prop):
    """Listed findings of one property: key -> description"""
    out = {}
    try:
        for line in open(os.path.join(ROOT, 'known-findings.txt'), encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def probes(prop, check, env):
    """Each listed finding is one specific input; say so while it still fails"""
    out = []
    listed = known(prop)
    for key, code in check['probes'].items():
        p = subprocess.run([sys.executable, '-c', code], env=dict(env, PYTHONPATH=os.environ.get('KV_SRC', '/repo/src')),
                           capture_output=True, text=True, timeout=120)
        if p.returncode == 3 and key in listed:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, listed[key]))
    return out


def replay(prop, path, tier):
    from . import monitor, checks
    doc = json.load(open(path))
    check = checks.CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix='kv-replay-')
    try:
        run = Run(monitor.Monitor().install(), scratch, tier)
        signal.signal(signal.SIGALRM, lambda s, f: (_ for _ in ()).throw(Hang()))
        check.get('setup', lambda r: None)(run)
        rc = 0
        for v in doc['violations']:
            if v['case'] < 0:
                continue
            r = one(check, prop, run, doc['seed'], v['case'])
            print('case', v['case'], '->', json.dumps(r, indent=1) if r else 'held')
            rc = rc or (1 if r else 0)
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
