"""Task runner: explores each task symbolically in parallel workers, replays
path witnesses and counterexamples natively, writes evidence."""
import json
import multiprocessing
import os
import pickle
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = '/opt/venv/bin/python'

from vlib.native import canon       # noqa


class Native(object):
    def __init__(self):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen([NATIVE, os.path.join(HERE, 'vlib', 'native.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env, cwd='/tmp')
        self.ready = False

    def ask(self, reqs, apart=False):
        """apart: each in a process in which nothing was run before"""
        if apart:
            reqs = {'apart': reqs}
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('native worker did not start')
            self.ready = True
        self.p.stdin.write(json.dumps(reqs) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('native worker died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:       # noqa
            self.p.kill()


class Task(object):
    """op: name in ops.OPS; args: literal values or symbolic templates
    (Oct/Int/...); key: stable identity of the obligation"""
    __slots__ = ('op', 'args', 'key', 'limits', 'replay')

    def __init__(self, op, args, key, **limits):
        self.op = op
        self.args = args
        self.key = key
        self.limits = limits
        self.replay = limits.pop('replay', True)


def elem(eng, x):
    """symbolic octet or number: name, '<bits>+<offset>:name' or, of the same
    variable as '<bits>+0:name', '<bits>*<factor>:name'"""
    if type(x) is int:
        return x
    m = re.match(r'(\d+)([+*])(\d+):', x)
    if not m:
        return eng.octet(x)
    if m.group(2) == '*':
        return eng.bits('%s+0:%s' % (m.group(1), x[m.end():]), int(m.group(1))) * int(m.group(3))
    v = eng.bits(x, int(m.group(1)))
    off = int(m.group(3))
    return v + off if off else v


class Sum(object):
    """number written like a symbolic octet"""
    def __init__(self, v):
        self.v = v

    def sym(self, eng):
        return elem(eng, self.v)


class Oct(object):
    """octets, some of them symbolic (given by name)"""
    def __init__(self, v):
        self.v = v

    def sym(self, eng):
        from symx.engine import SymBytes
        if all(type(x) is int for x in self.v):
            return bytes(self.v)
        return SymBytes([elem(eng, x) for x in self.v])


class Text(Oct):
    def sym(self, eng):
        from symx.engine import SymStr
        if all(type(x) is int for x in self.v):
            return ''.join(map(chr, self.v))
        return SymStr([elem(eng, x) for x in self.v])


class Int(object):
    def __init__(self, name, lo=None, hi=None, by=1):
        self.name, self.lo, self.hi, self.by = name, lo, hi, by

    def sym(self, eng):
        v = eng.integer(self.name, self.lo, self.hi)
        return v if self.by == 1 else v * self.by


class Bits(object):
    """signed machine-free integer of n bits"""
    def __init__(self, name, n, signed=True):
        self.name, self.n, self.signed = name, n, signed

    def sym(self, eng):
        return eng.sint(self.name, self.n) if self.signed else eng.bits(self.name, self.n)


class Flag(object):
    def __init__(self, name):
        self.name = name

    def sym(self, eng):
        return eng.boolean(self.name)


class Len(object):
    def __init__(self, name, kind, lo=0, hi=None):
        self.name, self.kind, self.lo, self.hi = name, kind, lo, hi

    def sym(self, eng):
        from symx.engine import SymLen
        return SymLen(eng.integer(self.name, self.lo, self.hi), self.kind)


TEMPLATES = (Oct, Sum, Int, Bits, Flag, Len)


def materialize(x, eng):
    if isinstance(x, TEMPLATES):
        return x.sym(eng)
    if type(x) is list:
        return [materialize(i, eng) for i in x]
    if type(x) is tuple:
        return tuple(materialize(i, eng) for i in x)
    if type(x) is dict:
        return {k: materialize(v, eng) for k, v in x.items()}
    return x


WORLD = None
NAT = None


class Result(object):
    def __init__(self, key):
        self.key = key
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.proved = 0
        self.replayed = 0
        self.functions = set()
        self.classes = {}
        self.cex = []           # confirmed counterexamples
        self.errors = []
        self.sample = None
        self.wall = 0.0


def run_task(task, apart=False):
    """apart: every path, and every replay, in a process in which nothing was run before"""
    from symx import engine, instr
    from vlib import ops
    global NAT
    res = Result(task.key)
    eng = engine.Engine(**{k: v for k, v in task.limits.items() if k in ('max_paths', 'max_decisions', 'timeout_ms')})
    f = ops.OPS[task.op]
    traces = []
    cands = []
    t0 = time.time()
    tmax = task.limits.get('seconds', 120)
    state = {}

    def harness():
        if time.time() - t0 > tmax:
            raise engine.Inconclusive('time limit %ss' % tmax)
        instr.forget_symkeys()
        args = {k: materialize(v, eng) for k, v in task.args.items()}
        state['args'] = args
        try:
            return f(WORLD, **args)
        finally:
            instr.forget_symkeys()

    def on_path(r):
        holds, digest = r
        cls = digest[0] if type(digest) is tuple and digest and type(digest[0]) is str else \
            digest[0][0] if type(digest) is tuple and digest and type(digest[0]) is tuple and digest[0] else str(type(digest).__name__)
        cls = cls if type(cls) is str else 'other'
        res.classes[cls] = res.classes.get(cls, 0) + 1
        args = state['args']
        if holds is not True:
            m = eng.prove(holds)
            if m is not None:
                cands.append({k: canon(engine.ev(m, v)) for k, v in args.items()})
        else:
            eng.stats.proved += 1
        if task.replay:
            m = eng.model()
            traces.append(({k: canon(engine.ev(m, v)) for k, v in args.items()}, canon(engine.ev(m, digest))))

    def apart_one(prefix):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                err = None
                eng.stats = engine.Stats()
                eng.functions = set()
                res.classes = {}
                del cands[:], traces[:]
                try:
                    eng.explore(harness, on_path, prefix)
                except engine.Inconclusive as e:
                    err = 'inconclusive: %s' % e
                except Exception:       # noqa
                    err = 'harness failure: ' + traceback.format_exc()
                data = pickle.dumps((err, eng.steps(), eng.stats, eng.functions, res.classes, cands, traces))
                with os.fdopen(wr, 'wb') as o:
                    o.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(r, 'rb') as i:
            data = i.read()
        if os.waitpid(pid, 0)[1]:
            raise engine.Inconclusive('path process died')
        err, steps, st, funcs, classes, c, t = pickle.loads(data)
        eng.stats.add(st)
        eng.functions |= funcs
        for k, v in classes.items():
            res.classes[k] = res.classes.get(k, 0) + v
        cands.extend(c)
        traces.extend(t)
        if err:
            raise engine.Inconclusive(err)
        return eng.next_prefix(steps)

    try:
        if apart:
            prefix = []
            while prefix is not None:
                prefix = apart_one(prefix)
                if eng.stats.paths > eng.max_paths:
                    raise engine.Inconclusive('more than %d paths' % eng.max_paths)
                if time.time() - t0 > tmax:
                    raise engine.Inconclusive('time limit %ss' % tmax)
        else:
            eng.explore(harness, on_path)
        if not eng.stats.paths:
            res.errors.append('vacuous: no feasible path')
    except engine.Inconclusive as e:
        res.errors.append('inconclusive: %s' % e)
    except Exception:       # noqa
        res.errors.append('harness failure: ' + traceback.format_exc())
    st = eng.stats
    res.paths, res.queries, res.solver_s, res.branches, res.proved = st.paths, st.queries, st.solver_s, st.branches, st.proved
    res.functions = eng.functions
    try:
        if cands or traces:
            if NAT is None:
                NAT = Native()
            if cands:
                for a, r in zip(cands, NAT.ask([(task.op, a) for a in cands], apart)):
                    if 'error' in r:
                        res.errors.append('native replay failed: %s' % r['error'])
                    elif r['ok']:
                        res.errors.append('counterexample does not reproduce natively: %s' % json.dumps(a)[:400])
                    else:
                        res.cex.append({'op': task.op, 'args': a, 'observed': r['digest'], 'key': task.key})
            if traces:
                out = NAT.ask([(task.op, a) for a, _ in traces], apart)
                for (a, want), r in zip(traces, out):
                    res.replayed += 1
                    if 'error' in r:
                        res.errors.append('native replay failed: %s' % r['error'])
                    elif r['digest'] != want and not res.cex:
                        res.errors.append('encoding and implementation disagree on %s: %s / %s' % (
                            json.dumps(a)[:300], json.dumps(want)[:300], json.dumps(r['digest'])[:300]))
                res.wall = time.time() - t0
                res.sample = {'task': task.key, 'input': traces[-1][0], 'outcome': traces[-1][1]}
    except Exception:       # noqa
        res.errors.append('replay failure: ' + traceback.format_exc())
    return res


def _worker(tasks, q, idx, nxt, stop, apart=False):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while not stop.value:
        with nxt.get_lock():
            i = nxt.value
            n = 1 if i < 64 else CHUNK       # big tasks come first
            nxt.value += n
        if i >= len(tasks):
            break
        for t in tasks[i:i + n]:
            if stop.value:
                break
            q.put(run_task(t, apart))
    q.put(None)
    if NAT is not None:
        NAT.close()


CHUNK = 4


def run_all(world, tasks, jobs=None, stop_after=3, known=()):
    """-> list of Results.  Code that keeps something between calls (a cache, or
    worse) can lead paths run in one process astray: what gave no answer is run
    again with a process for every path."""
    out = _run_all(world, tasks, jobs, stop_after, known)
    odd = {r.key for r in out if r.errors}
    if not odd or any(r.cex and r.key not in known for r in out):
        return out
    again = [t for t in tasks if t.key in odd]
    return [r for r in out if r.key not in odd] + _run_all(world, again, jobs, stop_after, known, True)


def _run_all(world, tasks, jobs=None, stop_after=3, known=(), apart=False):
    global WORLD
    WORLD = world
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 2)
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    nxt = ctx.Value('i', 0)
    stop = ctx.Value('b', 0)
    procs = [ctx.Process(target=_worker, args=(tasks, q, i, nxt, stop, apart)) for i in range(jobs)]
    for p in procs:
        p.daemon = False
        p.start()
    out = []
    live = jobs
    bad = 0
    while live:
        try:
            r = q.get(timeout=5)
        except Exception:       # noqa
            if all(not p.is_alive() for p in procs):
                break
            continue
        if r is None:
            live -= 1
            continue
        out.append(r)
        if r.cex and r.key not in known:
            bad += 1
            if bad >= stop_after:
                stop.value = 1
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.terminate()
    died = [p.exitcode for p in procs if p.exitcode != 0]
    if died:
        r = Result('worker')
        r.errors.append('worker ended with %s' % died)
        out.append(r)
    return out


class Report(object):
    """collects results of one property check and produces verdict + evidence"""
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.results = []
        self.extra = {}
        self.assumptions = []
        self.violations = []     # dicts like cex
        self.errors = []
        self.known = load_known(prop)

    def finish(self, bounds, must_see=()):
        res = self.results
        tot = lambda k: sum(getattr(r, k) for r in res)
        classes = {}
        funcs = set()
        for r in res:
            funcs |= r.functions
            for k, v in r.classes.items():
                classes[k] = classes.get(k, 0) + v
            for c in r.cex:
                self.violations.append(c)
            for e in r.errors:
                self.errors.append('%s: %s' % (r.key, e))
        for k in must_see:
            if not classes.get(k) and not self.violations:
                self.errors.append('vacuity: no path with outcome %r' % k)
        seen_known = {}
        for k in classes:
            if k.startswith('known:'):
                if k[6:] in self.known:
                    seen_known[k[6:]] = self.known[k[6:]]
                else:
                    self.errors.append('finding %s is not listed' % k[6:])
        fresh = []
        for v in self.violations:
            if v['key'] in self.known:
                seen_known[v['key']] = self.known[v['key']]
            else:
                fresh.append(v)
        if os.environ.get('VERIF_TOP'):
            for r in sorted(res, key=lambda r: -r.wall)[:int(os.environ['VERIF_TOP'])]:
                print('TOP', r.paths, round(r.solver_s, 1), round(r.wall, 1), r.key)
        samples = [r.sample for r in res if r.sample][:3]
        cov = {'states': tot('paths'), 'transitions': tot('branches'),
               'traces_validated_against_impl': tot('replayed'), 'samples': samples,
               'obligations': len(res), 'paths_proved': tot('proved'), 'queries': tot('queries'),
               'solver_seconds': round(tot('solver_s'), 2), 'outcomes': classes,
               'functions_encoded': sorted(funcs)[:400], 'functions_encoded_count': len(funcs), 'bounds': bounds}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, what in sorted(seen_known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if fresh:
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(fresh[:10]):
                p = os.path.join(rd, '%s-%d.json' % (self.prop, i))
                with open(p, 'w') as f:
                    json.dump(dict(v, property=self.prop), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                print('  %s' % v['key'])
                print('  input: %s' % json.dumps(v.get('args'))[:600])
                print('  observed: %s' % json.dumps(v.get('observed'))[:900])
            code = 1
        elif self.errors:
            for e in self.errors[:8]:
                print('ERROR %s' % (e if len(e) < 700 else e[:200] + ' ... ' + e[-500:]))
            print('%s: %d errors, no verdict' % (self.prop, len(self.errors)))
            code = 2
        else:
            code = 0
        print('%s %s: %d obligations, %d paths, %d queries, %.1fs solver, %d replayed, %.1fs -> exit %d' % (
            self.prop, self.tier, len(res), tot('paths'), tot('queries'), tot('solver_s'), tot('replayed'),
            time.time() - self.t0, code))
        sys.stdout.flush()
        return code


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e['key']: e['what'] for e in json.load(f).get('findings', []) if e['property'] == prop}
