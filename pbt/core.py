"""Runner for the property-based checks.

A *facet* is one executable statement of (part of) a property: a Hypothesis
strategy that yields a JSON-able ``spec`` (a dict of plain values) and a body
``body(ctx, spec)`` which builds the objects under test from the spec, runs the
real code and compares it with an oracle.  ``spec`` is the only source of
variation, so a (shrunk) failing spec *is* the replay file.

Outcomes of a body
* returns                        -> the case held
* raises Violation               -> the property is broken
* raises any other exception with a frame of the code under test in its
  traceback                      -> the property is broken (the code crashed on
                                    an input it must accept)
* raises any other exception     -> the property is broken as well: no body
                                    raises on the unchanged tree, so what the
                                    code handed back could not be judged
* does not finish in CASE_SECONDS, or its process dies (twice)
                                 -> the property is broken (the code hangs,
                                    takes all memory or crashes the
                                    interpreter)
"""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SHRINK_SECONDS = 15.0
CASE_SECONDS = 240      # of processor time: cases take a few seconds at most
CASE_WALL = 540         # (the machine may be busy)
CASE_BYTES = 12 << 30   # address space of a process that runs cases


class Violation(Exception):
    pass


class Hang(BaseException):
    """A case takes too long (no subclass of Exception, which the code under
    test might catch)."""


class Discard(Exception):
    """The generated case is outside the domain (counted, kept rare)."""


class Facet(object):
    def __init__(self, prop, name, strategy, body, quick, thorough, doc, rule):
        self.prop, self.name = prop, name
        self.strategy, self.body = strategy, body
        self.quick, self.thorough = quick, thorough
        self.doc, self.rule = doc, rule


FACETS = {}     # prop -> [Facet]
KNOWN = {}      # prop -> {key: (fn, what)}
RULES = {}      # prop -> text


def facet(prop, name, strategy, quick=200, thorough=None, rule=''):
    def deco(body):
        FACETS.setdefault(prop, []).append(
            Facet(prop, name, strategy, body, quick,
                  thorough if thorough is not None else quick * 10,
                  (body.__doc__ or '').strip(), rule))
        return body
    return deco


def known(prop, key, what):
    """Register the deterministic reproduction of a recorded finding.  The
    function returns True while the defect is present."""
    def deco(fn):
        KNOWN.setdefault(prop, {})[key] = (fn, what)
        return fn
    return deco


class Ctx(object):
    """Handed to bodies: classification of the case + assertion helpers."""

    def __init__(self):
        self.labels = []
        self.trivial = False

    def label(self, text):
        self.labels.append(str(text))

    def nontrivial(self, flag):
        if not flag:
            self.trivial = True

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def check(cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    @staticmethod
    def equal(a, b, msg):
        if not a == b:
            raise Violation('%s: %r != %r' % (msg, a, b))

    @staticmethod
    def close(a, b, msg, rtol=1e-7, atol=1e-8, scale=None):
        import numpy as np
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation('%s: shapes differ %r vs %r'
                            % (msg, a.shape, b.shape))
        if a.size == 0:
            return
        if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
            if np.array_equal(np.isnan(a), np.isnan(b)) and \
                    np.array_equal(np.isinf(a), np.isinf(b)):
                m = np.isfinite(a) & np.isfinite(b)
                if not m.any():
                    return
                a, b = a[m], b[m]
            else:
                raise Violation('%s: non-finite values differ' % msg)
        s = np.max(np.abs(b)) if scale is None else scale
        err = np.max(np.abs(a - b))
        if not err <= atol + rtol * s:
            raise Violation('%s: max |difference| %.6g exceeds %.3g '
                            '(magnitude %.3g)' % (msg, err, atol + rtol * s, s))

    @staticmethod
    def raises(exc, fn, msg):
        try:
            fn()
        except exc:
            return
        raise Violation('%s: no %s was raised' % (msg, exc))


def _in_code_under_test(tb):
    root = os.path.join(os.path.abspath(REPO), 'menpofit') + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(root):
            return True
    return False


def _hang(*args):
    raise Hang()


def run_body(f, spec):
    """Returns (kind, message, ctx) with kind in ok/discard/violation/hang."""
    ctx = Ctx()
    import numpy as np
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _hang)
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    signal.alarm(CASE_WALL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                f.body(ctx, spec)
        return 'ok', '', ctx
    except Discard:
        return 'discard', '', ctx
    except Violation as e:
        return 'violation', str(e), ctx
    except Exception as e:
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if _in_code_under_test(e.__traceback__):
            return ('violation', 'the code under test raised %s: %s\n%s'
                    % (type(e).__name__, e, text), ctx)
        # no body raises on the unchanged tree: what the code under test handed
        # back could not even be judged
        return ('violation', 'judging the result raised %s: %s\n%s'
                % (type(e).__name__, e, text), ctx)
    except Hang as e:
        return ('hang', 'not finished after %d s\n%s' % (
            CASE_SECONDS, ''.join(traceback.format_exception(
                type(e), e, e.__traceback__))), ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def canon(spec):
    return json.dumps(spec, sort_keys=True, default=str)


def run_shard(args):
    prop, name, n, seed, deadline, note = args
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    f = [x for x in FACETS[prop] if x.name == name][0]
    st = {'evals': 0, 'discard': 0, 'nontrivial': {}, 'labels': {},
          'samples': [], 'fail': None, 'fail_t': None, 'error': None,
          'truncated': 0, 'first_msg': None}

    def wrapper(spec):
        now = time.time()
        if now > deadline:
            st['truncated'] += 1
            return
        if st['fail'] is not None and now - st['fail_t'] > SHRINK_SECONDS:
            return
        with open(note, 'w') as fp:
            json.dump(spec, fp, default=str)
        kind, msg, ctx = run_body(f, spec)
        st['evals'] += 1
        if kind == 'discard':
            st['discard'] += 1
            hypothesis.reject()
        if kind in ('violation', 'hang'):
            if st['fail'] is None:
                st['fail_t'] = time.time()
                st['first_msg'] = msg
            if kind == 'hang':
                # no time to look for a smaller case
                st['fail_t'] = -1e9
            st['fail'] = (spec, msg)
            raise Violation(msg)
        for l in ctx.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        if not ctx.trivial:
            h = hashlib.md5(canon(spec).encode()).hexdigest()[:16]
            st['nontrivial'][h] = 1
            if len(st['samples']) < 2:
                st['samples'].append(spec)

    resource.setrlimit(resource.RLIMIT_AS, (CASE_BYTES, CASE_BYTES))
    with open(note + '.pid', 'w') as fp:
        fp.write(str(os.getpid()))
    test = settings(
        max_examples=n, deadline=None, database=None, print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink))(
            hypothesis.seed(seed)(hypothesis.given(f.strategy)(wrapper)))
    try:
        test()
    except BaseException as e:  # Flaky/Violation/SystemExit end up here
        if st['fail'] is None and st['error'] is None:
            st['error'] = ''.join(
                traceback.format_exception(type(e), e, e.__traceback__))
    st['nontrivial'] = list(st['nontrivial'])
    st['facet'] = name
    return st


def gone(path):
    """Whether the process that wrote its number ended."""
    try:
        os.kill(int(open(path).read()), 0)
    except ProcessLookupError:
        return True
    except (OSError, ValueError):
        pass
    return False


def lost(args):
    """The outcome of a shard whose process died."""
    spec = json.load(open(args[5])) if os.path.exists(args[5]) else {}
    msg = 'the process that ran this case died'
    return {'evals': 1, 'discard': 0, 'nontrivial': [], 'labels': {},
            'samples': [], 'fail': (spec, msg), 'fail_t': time.time(),
            'error': None, 'truncated': 0, 'first_msg': msg,
            'facet': args[1]}


def _init_worker():
    # silence the code under test (progress bars write to stdout)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull


def load(prop):
    sys.path.insert(0, VERIF)
    __import__('pbt.checks.%s' % prop.lower())


def known_listed():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                kv = dict(t.split('=', 1) for t in line.split()[1:3])
                out[(kv['property'], kv['finding'])] = line
    return out


def write_replay(prop, name, spec, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(path, 'w') as fp:
        json.dump({'property': prop, 'facet': name, 'spec': spec,
                   'message': msg,
                   'replay': 'cd /verif && ./run %s --replay %s' % (prop, path)},
                  fp, indent=1, default=str)
    return path


def replay(prop, path):
    load(prop)
    d = json.load(open(path))
    f = [x for x in FACETS[prop] if x.name == d['facet']][0]
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    kind, msg, _ = run_body(f, d['spec'])
    sys.stdout = so
    print('%s/%s: %s' % (prop, f.name, kind))
    if msg:
        print(msg)
    if kind in ('violation', 'hang'):
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def main(argv):
    prop = argv[0]
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    only = None
    for a in argv[1:]:
        if a.startswith('--facet='):
            only = a.split('=', 1)[1].split(',')
    mult = 1.0
    for a in argv[1:]:
        if a.startswith('--mult='):
            mult = float(a.split('=', 1)[1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load(prop)
    import hypothesis  # noqa  (imported before forking)
    import numpy as np  # noqa
    facets = [f for f in FACETS[prop] if only is None or f.name in only]
    n_proc = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    budget = 700.0 if tier == 'quick' else 6 * 3600.0
    deadline = t0 + budget
    notes = tempfile.mkdtemp(prefix='pbt-')
    tasks = []
    for f in facets:
        n = int(max(1, mult * (f.quick if tier == 'quick' else f.thorough)))
        shards = min(n_proc, max(1, n // 8))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            sd = (zlib.crc32(('%s/%s/%d' % (prop, f.name, s)).encode())
                  ^ (seed * 2654435761)) & 0x7fffffff
            tasks.append((prop, f.name, k, sd, deadline,
                          os.path.join(notes, '%s.%d' % (f.name, s))))
    results = {f.name: [] for f in facets}
    errors = []
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(min(n_proc, len(tasks)), initializer=_init_worker,
                     maxtasksperchild=1)
    failed = None
    dead, again = {}, set()
    try:
        pending = [(t, pool.apply_async(run_shard, (t,))) for t in tasks]
        while pending:
            rest = []
            for t, r in pending:
                if r.ready():
                    st = r.get()
                    results[t[1]].append(st)
                    continue
                if gone(t[5] + '.pid'):
                    # results of processes that ended well arrive soon
                    if time.time() - dead.setdefault(t[5], time.time()) > 5:
                        os.unlink(t[5] + '.pid')
                        del dead[t[5]]
                        if t[5] in again:
                            results[t[1]].append(lost(t))
                            continue
                        # once may have been bad luck
                        again.add(t[5])
                        r = pool.apply_async(run_shard, (t,))
                rest.append((t, r))
            pending = rest
            if time.time() - t0 > budget + 90:
                errors.append('time budget exhausted with %d shards '
                              'unfinished' % len(pending))
                break
            if pending:
                # stop early once something failed and shrinking is over
                if failed is None and any(
                        st['fail'] for rs in results.values() for st in rs):
                    failed = time.time()
                if failed is not None and time.time() - failed > 20:
                    break
                time.sleep(0.02)
    finally:
        pool.terminate()
        pool.join()
        shutil.rmtree(notes, ignore_errors=True)

    # --- recorded findings -------------------------------------------------
    listed = known_listed()
    violations = []
    so = sys.stdout
    n_known = 0
    for key, (fn, what) in sorted(KNOWN.get(prop, {}).items()):
        if only is not None:
            continue
        sys.stdout = open(os.devnull, 'w')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                present = bool(fn())
        except Exception as e:
            if _in_code_under_test(e.__traceback__):
                present = True
            else:
                errors.append('finding %s: %s' % (key, traceback.format_exc()))
                present = False
        finally:
            sys.stdout = so
        if present:
            if (prop, key) in listed:
                n_known += 1
                print('KNOWN-FINDING: property=%s %s' % (prop, what))
            else:
                p = write_replay(prop, 'finding-' + key, {}, what)
                violations.append((what, p))

    # --- facets ------------------------------------------------------------
    evals = 0
    distinct = 0
    samples = []
    summary = {}
    for f in facets:
        rs = results[f.name]
        nt = set()
        labels = {}
        trunc = 0
        disc = 0
        fe = 0
        best = None
        for st in rs:
            fe += st['evals']
            disc += st['discard']
            trunc += st['truncated']
            nt.update(st['nontrivial'])
            for k, v in st['labels'].items():
                labels[k] = labels.get(k, 0) + v
            if st['error']:
                errors.append('%s: %s' % (f.name, st['error']))
            if st['fail'] is not None:
                c = (len(canon(st['fail'][0])), canon(st['fail'][0]))
                if best is None or c < best[0]:
                    best = (c, st['fail'])
        evals += fe
        distinct += len(nt)
        if rs and rs[0]['samples']:
            samples.append({'facet': f.name, 'case': rs[0]['samples'][0]})
        summary[f.name] = {'cases': fe, 'distinct_nontrivial': len(nt),
                           'discarded': disc, 'truncated': trunc,
                           'classes': dict(sorted(labels.items())),
                           'statement': f.doc, 'nontrivial_when': f.rule}
        if best is not None:
            spec, msg = best[1]
            p = write_replay(prop, f.name, spec, msg)
            violations.append(('%s: %s' % (f.name, msg), p))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': distinct,
            'rule': RULES.get(prop, '') +
            ' Each facet draws a JSON spec with Hypothesis, builds the inputs '
            'from it and runs the real code against the stated oracle; a case '
            'counts as non-trivial unless the facet marks it trivial (see '
            'facets.*.nontrivial_when); distinct = distinct specs.',
            'samples': samples[:8],
            'facets': summary,
            'known_findings_reproduced': n_known,
        },
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'assumptions': [
            'menpo, numpy and scipy behave as installed',
            'bulk numeric content is expanded from drawn integer seeds',
        ],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as fp:
            json.dump(ev, fp, indent=1, default=str)
    if only is not None or '-v' in argv:
        for k, v in summary.items():
            print(k, {a: b for a, b in v.items()
                      if a not in ('statement', 'nontrivial_when')})
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d facets, %.1fs'
          % (prop, tier, seed, evals, distinct, len(facets), wall))
    for e in errors:
        print('HARNESS-ERROR: %s' % e[:3000])
    for what, p in violations:
        print(what[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if violations:
        return 1
    if errors:
        return 2
    if evals == 0 or (distinct == 0):
        print('HARNESS-ERROR: nothing non-trivial was explored')
        return 2
    return 0
