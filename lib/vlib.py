"""Common machinery of the checks: TLC runs, traces, verdicts, evidence."""
import glob
import hashlib
import json
import math
import os
import random
import re
import shutil
import resource
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PYTHON = '/opt/venv/bin/python'
TLAJARS = ('/opt/veriftools/tla/tla2tools.jar',
           '/opt/veriftools/tla/CommunityModules-deps.jar')


# ---------------------------------------------------------------- numbers

def num(x):
    """A number as a value of module Rat: an int or a string 'n/d'."""
    if x is None:
        return 'none'
    if isinstance(x, Fraction):
        return str(x.numerator) if x.denominator == 1 else \
            '%d/%d' % (x.numerator, x.denominator)
    if isinstance(x, bool):
        raise TypeError('bool')
    if hasattr(x, 'item'):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return x if -2**31 < x < 2**31 else str(x)
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        n, d = x.as_integer_ratio()
        return str(n) if d == 1 else '%d/%d' % (n, d)
    raise TypeError('not a number: %r' % (x,))


def frac(x):
    """Inverse of num for finite numbers."""
    return Fraction(x)


def bump(x, rel=1e-3):
    """A recorded number, visibly changed (canaries)."""
    if x in ('nan', 'inf', '-inf', 'none'):
        return 1
    f = Fraction(x)
    return num(f + abs(f) * Fraction(rel) + Fraction(rel))


def arr(a):
    """Nested numeric sequence (list, tuple, array) of Rat numbers."""
    if hasattr(a, 'tolist'):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [arr(x) for x in a]
    return num(a)


def codes(s):
    return [ord(c) for c in s]


# ---------------------------------------------------------------- TLC

_classes = None


def classes():
    """Compile java/Rat.java into build/ (or a temporary folder)."""
    global _classes
    if _classes:
        return _classes
    src = os.path.join(VERIF, 'java', 'Rat.java')
    with open(src, 'rb') as f:
        tag = hashlib.sha1(f.read()).hexdigest()[:12]
    out = os.path.join(VERIF, 'build', 'java-' + tag)
    if not os.path.exists(os.path.join(out, 'Rat.class')):
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, 'build'))
        subprocess.run(['javac', '-nowarn', '-cp', TLAJARS[0], '-d', tmp, src],
                       check=True, stdout=subprocess.DEVNULL)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    _classes = out
    return out


class TlcError(Exception):
    pass


class TlcEvalError(TlcError):
    """TLC started on the states and could not evaluate an expression."""


class TlcRun:
    pass


def tlc(module, cfg, env=None, timeout=600, workers=8, extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg.  Returns the parsed
    result; raises TlcError when TLC did not complete normally (a violated
    invariant of the design, an evaluation error, a time-out)."""
    meta = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx6g', '-Xss64m', '-XX:+UseParallelGC',
           '-Djava.io.tmpdir=' + meta,
           '-cp', ':'.join((classes(),) + TLAJARS), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-deadlock',
           '-noGenerateSpecTE', '-config', cfg + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError('%s: TLC ran over %s s' % (cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode('utf-8', 'replace')
    r = TlcRun()
    r.out, r.rc, r.module, r.cfg = out, p.returncode, module, cfg
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    r.generated, r.distinct, r.left = map(int, m.groups()) if m else (0, 0, -1)
    m = re.search(r'The depth of the complete state graph search is (\d+)', out)
    r.depth = int(m.group(1)) if m else 0
    m = re.search(r'Finished computing initial states: (\d+) (?:distinct )?states? generated', out)
    r.initial = int(m.group(1)) if m else 0
    r.emitted = []
    r.fails = []
    for line in out.splitlines():
        if line.startswith('"SCN '):
            r.emitted.append(json.loads(json.loads(line)[4:]))
        elif line.startswith('"FAIL '):
            r.fails.append(json.loads(json.loads(line)[5:]))
    if p.returncode != 0 or 'No error has been found' not in out or r.left != 0:
        text = '\n'.join(l for l in out.splitlines()
                         if not l.startswith(('Loading ', 'Parsing ', 'Semantic ', 'Linting ', '"SCN ')))
        kind = TlcEvalError if r.initial and p.returncode in (75, 76, 77, 255) else TlcError
        e = kind('%s/%s: TLC exit %d\n%s' % (module, cfg, p.returncode, text[-6000:]))
        e.full, e.run = out, r
        raise e
    return r


# ---------------------------------------------------------------- driving

LARGEST = 8 << 20       # bytes of a trace


class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def drive_main(check, fin, fout):
    """Run in a subprocess: execute scenarios on the real code."""
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import types
    sys.path.insert(0, os.path.join(REPO, 'src'))
    if not os.path.exists(os.path.join(REPO, 'src', 'emva1288', '_version.py')):
        stub = types.ModuleType('emva1288._version')
        stub.version = '0'
        sys.modules['emva1288._version'] = stub
    import numpy as np
    np.seterr(all='ignore')
    with open(fin) as f:
        scns = [json.loads(l) for l in f]
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_DATA, (5 << 30, 5 << 30))
    scratch = tempfile.mkdtemp(prefix='drv-')
    old = os.getcwd()
    sys.stdout = open(os.devnull, 'w')
    try:
        if hasattr(check, 'drive_setup'):
            check.drive_setup()
        with open(fout, 'w') as g:
            hung = 0
            for k, s in enumerate(scns):
                if hung >= 2:           # that is enough
                    g.write(json.dumps({'id': s['id'], 'skipped': True}) + '\n')
                    continue
                d = os.path.join(scratch, 's%d' % k)
                os.mkdir(d)
                os.chdir(d)
                signal.alarm(getattr(check, 'SCENARIO_TIMEOUT', 60))
                try:
                    t = check.drive(s, d)
                except Timeout:
                    t = {'broke': 'hang'}
                    hung += 1
                except Exception as e:      # the code under test misbehaved
                    import traceback
                    t = {'broke': 'unexpected-' + type(e).__name__,
                         'text': traceback.format_exc()[-3000:]}
                finally:
                    signal.alarm(0)
                t['id'] = s['id']
                text = json.dumps(t)
                if len(text) > LARGEST:         # values of an absurd size or number
                    text = json.dumps({'id': s['id'], 'broke': 'oversized'})
                g.write(text + '\n')
                g.flush()
                os.chdir(old)
                shutil.rmtree(d, ignore_errors=True)
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def call(f, *a, **k):
    """Outcome of a call of the code under test: ('ok', value) or
    (exception class name, None); exceptions are events, not crashes."""
    try:
        return 'ok', f(*a, **k)
    except Timeout:
        raise
    except Exception as e:       # noqa
        return exc_name(e), None


def exc_name(e):
    for c in (SyntaxError, UnicodeError):
        if isinstance(e, c):
            return c.__name__
    if isinstance(e, OSError):
        return 'OSError'
    if isinstance(e, ValueError):
        return 'ValueError'
    return type(e).__name__


def run_drivers(prop, scns, timeout=700, nproc=8):
    work = tempfile.mkdtemp(prefix='drv-')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               TMPDIR=work)
    if os.path.isdir('/opt/mplconfig'):
        env.setdefault('MPLCONFIGDIR', '/opt/mplconfig')
    procs = []
    try:
        def start(part, i, again=None):
            fin = os.path.join(work, 'in%s' % i)
            fout = os.path.join(work, 'out%s' % i)
            with open(fin, 'w') as f:
                for s in part:
                    f.write(json.dumps(s) + '\n')
            err = open(os.path.join(work, 'err%s' % i), 'w')
            q = subprocess.Popen(
                [PYTHON, os.path.join(VERIF, 'lib', 'run.py'), '--drive', prop, fin, fout],
                env=env, stdout=subprocess.DEVNULL, stderr=err)
            return q, fout, i, part, again
        n = max(1, min(nproc, len(scns)))
        for i in range(n):
            procs.append(start(scns[i::n], i))
        deadline = time.time() + timeout
        res = {}
        crash = None
        while procs:
            p, fout, i, part, again = procs.pop(0)
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = None
                p.kill()
                p.wait()
            got = []
            if os.path.exists(fout):
                with open(fout) as f:
                    for l in f:
                        if l.endswith('\n'):
                            got.append(json.loads(l))
            for t in got:
                res[t['id']] = t
            if rc == 0 and len(got) == len(part):
                continue
            rest = part[len(got):]
            if rc is not None and rc < 0 and rest:      # killed: by this scenario, if it happens again
                if again == rest[0]['id']:
                    res[again] = {'id': again, 'broke': 'process-killed-%d' % -rc}
                    rest = rest[1:]
                    for s in rest[:-8]:                 # (a few more of them will do)
                        res[s['id']] = {'id': s['id'], 'skipped': True}
                    rest = rest[-8:]
                if rest:
                    procs.append(start(rest, '%s-' % i, rest[0]['id']))
                continue
            with open(os.path.join(work, 'err%s' % i)) as f:
                crash = 'driver %s: exit %s after %d of %d scenarios\n%s' % (
                    i, rc, len(got), len(part), f.read()[-4000:])
        if crash:
            raise RuntimeError(crash)
        return [res[s['id']] for s in scns]
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- findings

def findings(prop):
    """known: lines of known-findings.txt for this property: clause -> text"""
    out = {}
    fn = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(fn):
        with open(fn) as f:
            for l in f:
                m = re.match(r'known: property=(\w+) clause=(\S+) (.*)', l.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def rng_for(prop, seed):
    return random.Random('%s-%s' % (prop, seed))


def short(x, n=1500):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- the check

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rng = rng_for(prop, seed)
        self.runs = []
        self.emitted = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def mc(self, module, cfg=None, **kw):
        """Model-check a design specification; its emitted scenarios are
        returned and the run is counted."""
        r = tlc(module, cfg or module, timeout=kw.pop('timeout', self.n(300, 3000)), **kw)
        self.runs.append(r)
        # (the order of TLC's workers is not always the same)
        return sorted(r.emitted, key=lambda e: json.dumps(e, sort_keys=True))


def _validate(ctx, mod, part, fn):
    """The failures of some traces.  A trace with a recorded value outside
    the types of the specification is one; TLC ends at the first of them, so
    that the others are examined without it, as long as no trace of the
    implementation has failed."""
    bad = []
    for _ in range(12):
        with open(fn, 'w') as f:
            for t in part:
                f.write(json.dumps(t) + '\n')
        try:
            r = tlc(mod, mod, env={'TRACES': fn}, timeout=ctx.n(600, 3600))
        except TlcEvalError as e:
            ts = re.findall(r'^/\\ t = (\d+)$', e.full, re.M)
            if not ts:
                raise
            t = part[int(ts[-1]) - 1]
            bad += [{'id': t['id'], 'l': 0, 'bad': ['outside-the-specification']}] + e.run.fails
            if any(not b['id'].startswith('CANARY-') for b in bad):
                return bad
            part = [x for x in part if x['id'] != t['id']]
            continue
        expect = sum(len(t['ev']) + 1 for t in part)
        if r.distinct != expect:
            raise TlcError('%s: %d of %d trace states consumed\n%s'
                           % (mod, r.distinct, expect, r.out[-3000:]))
        ctx.runs.append(r)
        return bad + r.fails
    raise TlcError('%s: too many traces that cannot be evaluated' % mod)


def validate(ctx, check, traces, name='traces'):
    """Check recorded traces against the trace specification.  Returns the
    list of failures [trace id, event number, [clauses]]."""
    mod = check.TRACE
    work = tempfile.mkdtemp(prefix='trc-')
    fails = []
    try:
        step = getattr(check, 'CHUNK', 4000)
        for i in range(0, len(traces), step):
            part = traces[i:i + step]
            fn = os.path.join(work, 'traces.ndjson')
            fails += _validate(ctx, mod, part, fn)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return fails


def corrupt(trace, path, value):
    """A copy of a trace with one recorded field changed (canaries)."""
    t = json.loads(json.dumps(trace))
    x = t
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = value
    t['id'] = 'CANARY-' + str(trace['id'])
    return t


def run_check(check, prop, tier, seed):
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    scns = check.scenarios(ctx)
    for k, s in enumerate(scns):
        s['id'] = '%s-%d' % (s.get('src', 'r'), k)
    by_id = {s['id']: s for s in scns}
    traces = run_drivers(prop, scns, timeout=ctx.n(800, 6 * 3600))
    violations = []
    for t in traces:
        if t.get('broke'):
            violations.append((t['id'], 0, [t['broke']], by_id[t['id']], t))
    traces = [t for t in traces if not t.get('broke') and not t.get('skipped')]
    unmade = None
    try:
        canaries = check.canaries(traces) if hasattr(check, 'canaries') else []
    except Exception as e:    # a trace is not as expected: TLC says whether it may be so
        canaries, unmade = [], e
    for k, c in enumerate(canaries):
        c['id'] = 'CANARY-%d' % k
    fails = validate(ctx, check, traces + canaries)
    tr = {t['id']: t for t in traces}
    known = findings(prop)
    seen_known = {}
    caught = set()
    for f in fails:
        fid, l, clauses = f['id'], f['l'], f['bad']
        if fid.startswith('CANARY-'):
            caught.add(fid)
            continue
        new = [c for c in clauses if c not in known]
        for c in clauses:
            if c in known:
                seen_known.setdefault(c, fid)
        if new:
            violations.append((fid, l, new, by_id[fid], tr[fid]))
    if unmade is not None and not violations:
        raise unmade
    dead = [c['id'] for c in canaries if c['id'] not in caught]
    # (a field may happen to be irrelevant in the event that was corrupted)
    if len(dead) * 2 > len(canaries) and not violations:
        raise RuntimeError('corrupted traces were accepted: %s' % dead[:5])
    for c, fid in seen_known.items():
        print('KNOWN-FINDING: property=%s %s: %s (e.g. %s)' % (prop, c, known[c], fid))
    out = os.path.join(VERIF, 'out')
    for fn in glob.glob(os.path.join(out, '%s-%s-*.json' % (prop, tier))):
        os.remove(fn)
    rc = 0
    if violations:
        rc = 1
        os.makedirs(out, exist_ok=True)
        shown = {}
        for v in violations:
            key = ','.join(sorted(v[2]))
            shown.setdefault(key, []).append(v)
        for k, (key, vs) in enumerate(sorted(shown.items())[:10]):
            fn = os.path.join(out, '%s-%s-%d.json' % (prop, tier, k))
            v = vs[0]
            with open(fn, 'w') as f:
                json.dump({'property': prop, 'trace_spec': check.TRACE, 'event': v[1],
                           'clauses': v[2], 'cases': len(vs), 'scenario': v[3],
                           'trace': v[4]}, f, indent=1)
            print('  %s: clause %s, %d case(s), first %s event %d: %s'
                  % (prop, key, len(vs), v[0], v[1], short(v[3], 400)))
            print('VIOLATION property=%s replay=%s' % (prop, fn))
    samples = [short({'scenario': by_id[t['id']], 'trace': t}, 2500)
               for t in (traces[:1] + traces[len(traces) // 2:][:1] + traces[-1:])]
    distinct = len({json.dumps({k: v for k, v in t.items() if k != 'id'}, sort_keys=True)
                    for t in traces})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': sum(r.distinct for r in ctx.runs),
              'transitions': sum(r.generated - r.initial for r in ctx.runs),
              'traces_validated_against_impl': len(traces),
              'distinct_traces': distinct,
              'largest_trace': max([len(json.dumps(t)) for t in traces] or [0]),
              'events_validated': sum(len(t['ev']) for t in traces),
              'scenarios_from_tlc': sum(1 for s in scns if s.get('src') == 'tlc'),
              'corrupted_traces_rejected': len(caught), 'corrupted_traces': len(canaries),
              'tlc_runs': [{'module': r.module, 'config': r.cfg, 'distinct': r.distinct,
                            'generated': r.generated, 'depth': r.depth} for r in ctx.runs],
              'rule': getattr(check, 'RULE', ''),
              'samples': samples,
              'known_findings_seen': sorted(seen_known)},
          'assumptions': getattr(check, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d traces (%d events) checked, %d states, %d violation(s), %.1f s'
          % (prop, tier, len(traces), ev['coverage']['events_validated'],
             ev['coverage']['states'], len(violations), time.time() - t0))
    return rc
