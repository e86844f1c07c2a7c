"""Runner shared by all checks.

A check module (checks/cNN.py) defines

    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of strings
    TESTS        list of Prop(name, strategy, function, quick, thorough)

A strategy draws a case: a plain JSON value.  The function gets (case, ctx); it raises Violation through
ctx.check / ctx.close / ..., calls ctx.nontrivial() if the case counts as non-trivial, and ctx.label(text) to
classify it.  Cases are drawn by Hypothesis in several worker processes ("shards"), each with a seed derived from
VERIF_SEED, so a run is a function of the code and of VERIF_SEED (the set of cases does not depend on the number of
CPUs).  A failing case is shrunk by Hypothesis, written to replays/, and can be run again without Hypothesis.
"""
import os, sys, json, time, hashlib, importlib, traceback, subprocess, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARDS = 8
SHRINK_S = 45
SOFT_S = {'quick': 330, 'thorough': 2400}
LEVEL = 'exploration'


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class _Stop(BaseException):
    """ends a Hypothesis run from inside (time is up)"""


class Prop:
    def __init__(self, name, strategy, fn, quick, thorough=None, finding=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {'quick': quick, 'thorough': thorough or 12*quick}


class Ctx:
    """handed to a test function"""

    def __init__(self):
        self.labels = {}
        self.is_nontrivial = False

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, text):
        self.labels[text] = self.labels.get(text, 0) + 1

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, a, b, tol, what, scale=None):
        """max |a-b| <= tol*scale; scale defaults to the largest |b| (or |a|)"""
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
        if a.size == 0:
            return
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            if np.array_equal(a, b, equal_nan=True):
                return
            raise Violation("%s: not finite" % what)
        if scale is None:
            scale = max(np.abs(b).max(), np.abs(a).max())
        d = np.abs(a - b)
        if d.max() > tol*scale:
            k = np.unravel_index(np.argmax(d), d.shape) if d.shape else ()
            raise Violation("%s: got %s, expected %s (at %s; difference %.3g, allowed %.3g)"
                            % (what, a[k], b[k], tuple(int(i) for i in k), d.max(), tol*scale))

    def raises(self, kinds, fn, what):
        """fn() raises one of kinds (exactly the documented kinds)"""
        try:
            fn()
        except kinds:
            return
        except Exception as e:
            raise Violation("%s: raised %s(%s) instead of %s" % (what, type(e).__name__, e, kinds))
        raise Violation("%s: was accepted, should raise %s" % (what, kinds))


def _jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x


def _load(prop):
    return importlib.import_module('checks.' + prop.lower())


def _describe(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
    return 'unexpected %s: %s (%s)' % (type(e).__name__, e, ' > '.join(where))


def _execute(test, case):
    """runs one case; returns (ctx, message or None)"""
    ctx = Ctx()
    try:
        test.fn(case, ctx)
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        return ctx, _describe(e)
    return ctx, None


# ------------------------------------------------------------------ worker

def _make_body(test, stat, state, t_end, cur):
    def body(case):
        now = time.time()
        if state['first_fail'] is None and now > t_end:
            raise _Stop()
        if state['first_fail'] is not None and now > state['first_fail'] + SHRINK_S:
            raise _Stop()
        case = _jsonable(case)
        text = json.dumps(case, sort_keys=True)
        with open(cur, 'w') as f:
            f.write(json.dumps({'test': test.name, 'case': case}))
        ctx, msg = _execute(test, case)
        if msg is None:
            if state['first_fail'] is None:
                h = hashlib.sha1((test.name + text).encode()).hexdigest()[:16]
                stat['evaluations'] += 1
                stat['hashes'].append(h)
                for k, v in ctx.labels.items():
                    stat['labels'][k] = stat['labels'].get(k, 0) + v
                if ctx.is_nontrivial:
                    stat['nontrivial'].append(h)
                    if len(stat['samples']) < 2 and len(text) < 4000:
                        stat['samples'].append(case)
            return
        if state['first_fail'] is None:
            state['first_fail'] = time.time()
            stat['evaluations'] += 1
        if state['best'] is None or len(text) <= len(state['best'][0]):
            state['best'] = (text, msg)
        raise Violation(msg)

    return body


def _worker(prop, tier, seed, shard, out):
    import numpy as np
    np.seterr(all='ignore')
    result = {'tests': {}, 'violation': None, 'error': None}
    cur = out + '.current'
    try:
        from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
        mod = _load(prop)
        t_end = time.time() + SOFT_S[tier]
        for test in mod.TESTS:
            n = test.n[tier]
            mine = n//NSHARDS + (1 if shard < n % NSHARDS else 0)
            stat = dict(evaluations=0, hashes=[], nontrivial=[], labels={}, samples=[], wanted=mine, wall=0.0)
            result['tests'][test.name] = stat
            if mine == 0 or time.time() > t_end:
                continue
            state = {'best': None, 'first_fail': None}
            t0 = time.time()

            body = _make_body(test, stat, state, t_end, cur)

            s = int(hashlib.sha1(('%d/%d/%s' % (seed, shard, test.name)).encode()).hexdigest()[:12], 16)
            run = settings(max_examples=mine, deadline=None, database=None, derandomize=False,
                           report_multiple_bugs=False, print_blob=False,
                           phases=(Phase.generate, Phase.shrink),
                           suppress_health_check=[HealthCheck.too_slow, HealthCheck.large_base_example,
                                                  HealthCheck.data_too_large])(
                hseed(s)(given(test.strategy)(body)))
            try:
                run()
            except _Stop:
                pass
            except Violation:
                pass
            except BaseException as e:
                if state['best'] is None or isinstance(e, (HarnessError, MemoryError)):
                    raise
            stat['wall'] = time.time() - t0
            if state['best'] is not None:
                result['violation'] = {'test': test.name, 'case': json.loads(state['best'][0]),
                                       'message': state['best'][1]}
                break
    except BaseException as e:
        result['error'] = ''.join(traceback.format_exception(e))[-3000:]
    if os.path.exists(cur):
        os.unlink(cur)
    with open(out + '.tmp', 'w') as f:
        json.dump(result, f)
    os.rename(out + '.tmp', out)


# ------------------------------------------------------------------ parent

def _known(prop):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('kind') == 'known':
                    out.append(d)
    return out


def _replay(prop, path):
    import numpy as np
    np.seterr(all='ignore')
    d = json.load(open(path))
    mod = _load(prop)
    test = {t.name: t for t in mod.TESTS}[d['test']]
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    err = os.dup(2)
    os.dup2(null, 2)
    try:
        ctx, msg = _execute(test, d['case'])
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.dup2(err, 2)
    if msg is None:
        print('replay passes: %s %s' % (prop, d['test']))
        return 0
    print('replay fails: %s' % msg)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main(argv):
    if argv and argv[0] == '--worker':
        prop, tier, seed, shard, out = argv[1:6]
        _worker(prop, tier, int(seed), int(shard), out)
        return 0
    prop = argv[0].upper()
    if len(argv) > 2 and argv[1] == '--replay':
        return _replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in SOFT_S:
        print('unknown tier %s' % tier)
        return 3
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scratch = os.environ['VERIF_SCRATCH']
    t0 = time.time()
    outs, procs = [], []
    for shard in range(NSHARDS):
        out = os.path.join(scratch, 'shard%d.json' % shard)
        outs.append(out)
        log = open(out + '.log', 'w')
        procs.append(subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'check.py'), '--worker',
                                       prop, tier, str(seed), str(shard), out],
                                      stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL))
    hard = t0 + SOFT_S[tier] + 240
    found_at = None
    killed = set()
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        now = time.time()
        if found_at is None:
            for o in outs:
                if os.path.exists(o) and json.load(open(o)).get('violation'):
                    found_at = now
        if now > hard or (found_at and now > found_at + 5):
            # out of time, or one shard has its (shrunk) violation: the others need not finish
            for i, p in enumerate(procs):
                if p.poll() is None:
                    killed.add(i)
                    p.kill()
                    p.wait()

    mod_info = {}
    violations, errors, tests = [], [], {}
    for i, (o, p) in enumerate(zip(outs, procs)):
        if not os.path.exists(o):
            if i in killed:
                if not found_at:
                    errors.append('shard %d did not finish in time' % i)
                continue
            if p.returncode is not None and p.returncode < 0 and p.returncode != -signal.SIGKILL \
                    and os.path.exists(o + '.current'):
                d = json.load(open(o + '.current'))
                d['message'] = 'the process died with signal %d' % -p.returncode
                violations.append(d)
            else:
                errors.append('shard %d ended with %s: %s' % (i, p.returncode, open(o + '.log', errors='replace').read()[-1500:]))
            continue
        r = json.load(open(o))
        if r['error']:
            errors.append(r['error'])
        if r['violation']:
            violations.append(r['violation'])
        for name, s in r['tests'].items():
            t = tests.setdefault(name, dict(evaluations=0, hashes=set(), nontrivial=set(), labels={}, samples=[], wanted=0, wall=0.0))
            t['evaluations'] += s['evaluations']
            t['hashes'] |= set(s['hashes'])
            t['nontrivial'] |= set(s['nontrivial'])
            t['wanted'] += s['wanted']
            t['wall'] += s['wall']
            for k, v in s['labels'].items():
                t['labels'][k] = t['labels'].get(k, 0) + v
            t['samples'] += s['samples']

    sys.path.insert(0, HERE)
    mod = _load(prop)
    samples = []
    for name, t in tests.items():
        for c in sorted(t['samples'], key=lambda c: -len(json.dumps(c)))[:2]:
            samples.append({'test': name, 'case': c})
    coverage = dict(
        evaluations=sum(t['evaluations'] for t in tests.values()),
        distinct_nontrivial=sum(len(t['nontrivial']) for t in tests.values()),
        rule=' '.join(mod.RULE.split()),
        samples=samples,
        distinct=sum(len(t['hashes']) for t in tests.values()),
        per_test={n: dict(evaluations=t['evaluations'], distinct=len(t['hashes']), distinct_nontrivial=len(t['nontrivial']),
                          requested=t['wanted'], labels=dict(sorted(t['labels'].items())), cpu_s=round(t['wall'], 1))
                  for n, t in tests.items()},
        shards=NSHARDS)
    evidence = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=coverage,
                    assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for k in _known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v['case'])))
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-seed%d.json' % (prop, v['test'], seed))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, test=v['test'], seed=seed, message=v['message'], case=v['case']), f, indent=1)
        print('%s / %s: %s' % (prop, v['test'], v['message']))
        print('case: %s' % json.dumps(v['case'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('ERROR in the check of %s:\n%s' % (prop, '\n'.join(errors)))
        return 3
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (prop, tier, coverage['evaluations'],
                                                              coverage['distinct_nontrivial'], evidence['wall_s']))
    return 0
