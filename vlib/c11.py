"""C11 import order and import set never change behaviour.

Every module's top-level code is executed with the open type tables of the
other modules replaced by tables of unknown content (a symbolic truth value per
key), which gives the module's effect on every table as a function of what was
there before.  z3 then looks for an order of imports, closed under
dependencies, after which a table lacks an entry or has another type."""
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

try:
    import z3
except ImportError:         # native side
    z3 = None

from vlib import ops
from vlib.ops import op
from vlib.run import Report, Result, Native, HERE


# -- effects ------------------------------------------------------------------

class Gone(object):
    pass


class SharedMap(dict):
    """open type table of unknown content"""
    def __init__(self, tid, tr, real):
        dict.__init__(self)
        self.tid, self.tr, self.real = tid, tr, real
        self.now = {}           # key -> value or Gone
        self.cleared = False

    def _has(self, k):
        kk = keyof(k)
        if kk in self.now:
            return self.now[kk][1] is not Gone
        if self.cleared:
            return False
        if self.tid in self.tr.snaps:       # taken as it is in a full import
            return k in self.real
        return self.tr.ask(('has', self.tid, kk))

    def _get(self, k):
        kk = keyof(k)
        if kk in self.now:
            return self.now[kk][1]
        if k in self.real:
            return self.real[k]
        from pyasn1.type import univ
        return univ.Any()

    def _set(self, k, v):
        self.now[keyof(k)] = (k, v)
        self.tr.write(self.tid, keyof(k), v)

    def __contains__(self, k):
        return self._has(k)

    has_key = __contains__

    def __getitem__(self, k):
        if not self._has(k):
            raise KeyError(k)
        return self._get(k)

    def get(self, k, default=None):
        return self._get(k) if self._has(k) else default

    def setdefault(self, k, default=None):
        if self._has(k):
            return self._get(k)
        self._set(k, default)
        return default

    def __setitem__(self, k, v):
        self._set(k, v)

    def update(self, *a, **kw):
        for x in a:
            for k, v in (x.items() if hasattr(x, 'items') else x):
                self._set(k, v)
        for k, v in kw.items():
            self._set(k, v)

    def __ior__(self, x):
        self.update(x)
        return self

    def __delitem__(self, k):
        if not self._has(k):
            raise KeyError(k)
        self._set(k, Gone)

    def pop(self, k, *d):
        if not self._has(k):
            if d:
                return d[0]
            raise KeyError(k)
        v = self._get(k)
        self._set(k, Gone)
        return v

    def clear(self):
        self.now = {}
        self.cleared = True
        self.tr.write(self.tid, None, Gone)

    # the whole content at once
    def _snap(self):
        self.tr.snapshot(self.tid)
        out = {} if self.cleared else dict.copy(self.real)
        for k, v in self.now.values():
            if v is Gone:
                out.pop(k, None)
            else:
                out[k] = v
        return out

    def __iter__(self):
        return iter(self._snap())

    def keys(self):
        return self._snap().keys()

    def items(self):
        return self._snap().items()

    def values(self):
        return self._snap().values()

    def copy(self):
        return self._snap()

    def __len__(self):
        return len(self._snap())

    def __bool__(self):
        return bool(self._snap())

    def __or__(self, o):
        x = self._snap()
        x.update(o)
        return x

    def popitem(self):
        x = self._snap()
        k = next(iter(x))
        return k, self.pop(k)

    def __eq__(self, o):
        return self is o

    __hash__ = None


def keyof(k):
    t = type(k).__name__
    if t == 'ObjectIdentifier' or isinstance(k, tuple):
        return tuple(k)
    if isinstance(k, (int, str)):
        return k
    try:
        return int(k)
    except Exception:       # noqa
        return repr(k)


class Trace(object):
    """events of one execution of a module's top-level code"""
    def __init__(self, eng):
        self.eng = eng
        self.atoms = []
        self.known = {}
        self.events = []
        self.snaps = set()

    def ask(self, atom):
        if atom not in self.known:
            v = bool(self.eng.boolean(repr(atom)))
            self.known[atom] = v
            self.atoms.append((atom, v))
        return self.known[atom]

    def write(self, tid, key, v):
        self.events.append(('write', tid, key, v))

    def snapshot(self, tid):
        self.snaps.add(tid)

    def imported(self, m):
        self.events.append(('import', m))


class Package(object):
    """the package as a module sees it: only what it imported itself is sure
    to be an attribute"""
    def __init__(self, tr, real):
        self.__dict__['_tr'] = tr
        self.__dict__['_real'] = real
        self.__dict__['_sure'] = set()

    def __getattr__(self, n):
        real = self._real
        v = getattr(real, n)
        full = real.__name__ + '.' + n
        if full in sys.modules and sys.modules[full] is v and n not in self._sure:
            if not self._tr.ask(('loaded', n)):
                raise AttributeError('module %r has no attribute %r' % (real.__name__, n))
        return v


class Sys(object):
    def __init__(self, tr):
        self.__dict__['_tr'] = tr

    def __getattr__(self, n):
        v = getattr(sys, n)
        return Loaded(self._tr) if n == 'modules' else v


class Loaded(dict):
    def __init__(self, tr):
        dict.__init__(self)
        self.tr = tr

    def __contains__(self, k):
        if k.startswith('pyasn1_modules.'):
            return self.tr.ask(('loaded', k[15:]))
        return k in sys.modules

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return sys.modules[k]

    def get(self, k, d=None):
        return sys.modules[k] if k in self else d


def tables(w):
    """id of real table -> (tid, [published names], object)"""
    out = {}
    for m in sorted(w.real):
        for n, v in sorted(vars(w.real[m]).items()):
            if type(v) is dict and n[:1] != '_':
                e = out.setdefault(id(v), ('%s.%s' % (m, n), [], v))
                e[1].append((m, n))
    return out


def execute(w, mod, tabs, eng):
    """run the module's top-level code once; -> (trace, outcome)"""
    from symx import instr
    tr = Trace(eng)
    shared = {}
    saved = []
    for i, (tid, names, d) in tabs.items():
        shared[i] = SharedMap(tid, tr, d)
        for m, n in names:
            if m != mod:
                saved.append((w.real[m], n, d))
                setattr(w.real[m], n, shared[i])
    import builtins
    pkgs = {}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == 'sys':
            return Sys(tr)
        r = builtins.__import__(name, globals, locals, fromlist, level)
        if name == 'pyasn1_modules' or name.startswith('pyasn1_modules.') or level:
            rel = (globals['__package__'] if level else name).split('.')
            if level and name:
                rel += name.split('.')
            p = pkgs.setdefault('p', Package(tr, sys.modules['pyasn1_modules']))
            if len(rel) > 1:
                tr.imported(rel[1])
                p._sure.add(rel[1])
                return r if fromlist else p
            for f in fromlist or ():
                if f in w.real:
                    tr.imported(f)
                    p._sure.add(f)
            return p
        return r
    b = dict(vars(builtins))
    b['__import__'] = imp
    real = w.real[mod]
    ns = {'__name__': 'pyasn1_modules.' + mod, '__package__': 'pyasn1_modules', '__file__': real.__file__, '__builtins__': b}
    with open(real.__file__, encoding='utf-8') as f:
        src = f.read()
    key = (mod, hash(src))
    code = _code.get(key)
    if code is None:
        code = _code[key] = instr.instrument(src, real.__file__, 'pyasn1_modules.' + mod)
    failed = None
    rebound = []
    try:
        try:
            exec(code, ns)
        except Exception as e:      # noqa
            failed = '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        for m, n, d in saved:
            if vars(m).get(n) is not shared[id(d)]:
                rebound.append('%s.%s' % (m.__name__, n))
            setattr(m, n, d)
    if failed is None:
        rebound += strays(w, mod, ns, tabs)
    # what the module has in its own tables
    fresh = {}
    for i, (tid, names, d) in tabs.items():
        for m, n in names:
            if m != mod:
                continue
            x = ns.get(n)
            if isinstance(x, SharedMap):
                if x.tid != tid:
                    rebound.append('%s.%s' % (m, n))
            elif isinstance(x, dict):
                fresh[n] = x
                for k, v in x.items():
                    tr.write(tid, keyof(k), v)
            elif failed is None:
                rebound.append('%s.%s' % (m, n))
    return tr, failed, rebound, ns


_code = {}


def strays(w, mod, ns, tabs):
    """open fields that look neither in a shared table nor in a published one
    of the module's own"""
    from vlib import pos
    out = []
    own = {}
    for tid, names, d in tabs.values():
        for m, n in names:
            own[(m, n)] = tid
    for n, t in w.ref.mods[mod].types.items():
        if t.kind == 'REF' or n not in ns:
            continue
        for path, tt, nn, c in pos.walk(w.ref, t, lambda t, p: t.kind == 'REF'):
            if c is None or not c.by:
                continue
            try:
                o = ns[n]
                o = pos.at(o() if isinstance(o, type) else o, path.rsplit('/', 1)[0])
                nt = [x for x in o.componentType.namedTypes if x.name == c.name][0]
            except Exception:       # noqa
                continue
            if nt.openType is None:
                continue
            d = nt.openType._OpenType__typeMap
            if isinstance(d, SharedMap):
                if d.tid == own.get(c.by[1]):
                    continue
            elif c.by[1][0] == mod and d is ns.get(c.by[1][1]):
                continue
            out.append('%s.%s%s' % (mod, n, path))
    return out


def classify(w, tid_names, key, v, stats):
    """index of the reference type the value is, or ('wrong', n)"""
    from symx import engine
    if v is Gone:
        return None
    mp = None
    for m, n in tid_names:
        mp = w.ref.mods[m].maps.get(n) if m in w.ref.mods else None
        if mp:
            break
    ts = w.ref.writers.get(tuple(mp), {}).get(key) if mp else None
    if not ts:
        return 'extra'
    if not hasattr(v, 'tagSet'):
        return ('wrong', 1)
    for i, (m, t) in enumerate(ts):
        if ops.named_alike(w, v, t):
            return i
    wit = 1
    for i, (m, t) in enumerate(ts):
        r = w.builder.obj(t)
        eng = engine.Engine()
        bad = []

        def on_path(c):
            if c is not True:
                x = eng.prove(c)
                if x is not None:
                    bad.append(engine.ev(x, eng.integer('n')))
        eng.explore(lambda: ops.alike(w, v, r, eng.integer('n', 0, 70000)), on_path)
        stats.add(eng.stats)
        if not bad:
            return i
        wit = bad[0]
    return ('wrong', wit)


class Names(object):
    def __init__(self, ns):
        self.__dict__ = ns


def effects(mod):
    """(paths, functions, stats, errors) of one module; a path is (atoms,
    imports with position, writes, failed, rebound, snapshots)"""
    from symx import engine
    w = WORLD
    eng = engine.Engine(max_paths=4096)
    out, errs = [], []
    tabs = TABS
    names = {tid: nn for tid, nn, d in tabs.values()}
    memo = {}
    w._classes = None
    stats = engine.Stats()
    raw = []

    def on_path(r):
        raw.append(r)
    try:
        eng.explore(lambda: execute(w, mod, tabs, eng), on_path)
    except engine.Inconclusive as e:
        errs.append('%s: inconclusive: %s' % (mod, e))
    except Exception:       # noqa
        errs.append('%s: %s' % (mod, traceback.format_exc()))
    for tr, failed, rebound, ns in raw:
        ops.twins(w, {mod: Names(ns)})
        writes, imports = [], []
        for e in tr.events:
            if e[0] == 'import':
                imports.append((e[1], len(writes)))
                continue
            _, tid, key, v = e
            if key is None:
                writes.append((tid, None, None))
                continue
            k = (tid, key, id(v))
            if k not in memo:
                memo[k] = (classify(w, names[tid], key, v, stats), v)
            writes.append((tid, key, memo[k][0]))
        out.append((tr.atoms, imports, writes, failed, rebound, sorted(tr.snaps)))
    stats.add(eng.stats)
    return mod, out, sorted(eng.functions), (stats.queries, stats.solver_s, stats.paths, stats.branches), errs


# -- replay -------------------------------------------------------------------

def child(repo, order, want):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    p = subprocess.run([sys.executable, os.path.join(HERE, 'vlib', 'order.py'),
                        json.dumps({'repo': repo, 'order': list(order), 'want': want})],
                       capture_output=True, text=True, env=env, cwd='/tmp', timeout=120)
    if p.returncode or not p.stdout.strip():
        raise RuntimeError(p.stderr[-500:])
    return json.loads(p.stdout.strip().split('\n')[-1])


@op
def imports_work(w, order):
    from vlib.world import REPO
    r = child(REPO, order, None)
    return r['failed'] is None, (r['failed'] or 'ok', r.get('tables'))


@op
def after_imports(w, orders, table, key, n):
    """after each order the table gives the key a type that one of the loaded
    modules' RFCs gives it, whenever there is one; and the orders agree"""
    from vlib.world import REPO
    got = []
    for order in orders:
        r = child(REPO, order, {'table': list(table), 'key': list(key) if isinstance(key, tuple) else key, 'n': list(n) + [0, 1]})
        if r['failed']:
            return False, ('failed', r['failed'])
        mp = w.ref.mods[table[0]].maps.get(table[1], tuple(table))
        k = tuple(key) if isinstance(key, (list, tuple)) else key
        loaded = [m for m, t in w.ref.writers.get(tuple(mp), {}).get(k, []) if m in r['loaded']]
        e = r['entry']
        if loaded and (not e or not any(m in loaded for m, i in e)):
            return False, ('unregistered' if e is None else 'another type', tuple(order))
        got.append(None if e is None else tuple(m for m, i in e))
    return all(g == got[0] for g in got), ('agree', tuple(got))


@op
def whole_order(w, orders):
    """all tables after each order: every entry a loaded module's RFC defines
    is there, through every name and open field"""
    from vlib.world import REPO
    for order in orders:
        r = child(REPO, order, None)
        if r['failed']:
            return False, ('failed', r['failed'])
        for m in r['loaded']:
            for n, mp in w.ref.mods[m].maps.items():
                want = {'.'.join(map(str, k)) if type(k) is tuple else str(k)
                        for k, ts in w.ref.writers.get(mp, {}).items() if any(x in r['loaded'] for x, _ in ts)}
                for name, keys in sorted(r['tables'].items()):
                    if name == '%s.%s' % (m, n) or name[-1] == ')' and name.split(' (')[1][:-1] == '%s.%s' % mp:
                        lost = sorted(want - set(keys))
                        if lost:
                            return False, ('lost', name, tuple(lost[:5]), tuple(order[:3]))
    return True, ('ok',)


# -- the solver's part ----------------------------------------------------------

class Group(object):
    """one table entry and everything that bears on it"""
    def __init__(self, tid, key, mods):
        self.tid, self.key, self.mods = tid, key, mods


def closure(eff):
    deps = {m: {i for p in ps for i, at in p[1]} for m, ps in eff.items()}
    full = {}

    def go(m, seen):
        for d in deps.get(m, ()):
            if d not in seen:
                seen.add(d)
                go(d, seen)
        return seen
    for m in eff:
        full[m] = go(m, set()) - {m}
    return full


def late(eff):
    """(m, d): m imports d after it has already written to a table"""
    return {(m, i) for m, ps in eff.items() for p in ps for i, at in p[1] if at}


def touches(eff):
    out = {}
    for m, ps in eff.items():
        for atoms, imports, writes, failed, rebound, snaps in ps:
            for tid, key, c in writes:
                out.setdefault((tid, key), set()).add(m)
    return out


class Query(object):
    def __init__(self, keys, mods, eff, deps, lates, classes):
        self.keys, self.mods, self.eff, self.deps, self.lates = keys, mods, eff, deps, lates
        self.classes = classes

    def label(self, c):
        return self.classes.setdefault(c, len(self.classes) + 1)

    def unroll(self, name):
        """-> (constraints, picks, states[step][key], failed[step])"""
        k = len(self.mods)
        x = [z3.Int('%s.x%d' % (name, i)) for i in range(k)]
        cs = []
        for i in range(k):
            cs += [x[i] >= 0, x[i] <= k]
            cs += [z3.Or(x[i] == k, x[i] != x[j]) for j in range(i)]
            if i:
                cs.append(z3.Implies(x[i - 1] == k, x[i] == k))
            for mi, m in enumerate(self.mods):
                for d in self.deps[m]:
                    if d in self.mods and (m, d) not in self.lates and m not in self.deps[d]:
                        cs.append(z3.Implies(x[i] == mi, z3.Or([x[j] == self.mods.index(d) for j in range(i)] or [False])))
        s = {q: z3.IntVal(0) for q in self.keys}
        states, failed = [], []
        for i in range(k):
            nxt, bad = dict(s), z3.BoolVal(False)
            for mi, m in enumerate(self.mods):
                new, f = self.effect(m, s, x[:i])
                for q in self.keys:
                    nxt[q] = z3.If(x[i] == mi, new[q], nxt[q])
                bad = z3.Or(bad, z3.And(x[i] == mi, f))
            s = {q: z3.simplify(v) for q, v in nxt.items()}
            states.append(s)
            failed.append(bad)
        return cs, x, states, failed

    def effect(self, m, s, before):
        new, bad = dict(s), z3.BoolVal(False)
        for atoms, imports, writes, failed, rebound, snaps in self.eff[m]:
            cond = []
            for a, v in atoms:
                if a[0] == 'has':
                    c = s[(a[1], a[2])] != 0 if (a[1], a[2]) in s else z3.BoolVal(False)
                else:
                    c = z3.Or([b == self.mods.index(a[1]) for b in before] or [False]) if a[1] in self.mods else z3.BoolVal(False)
                cond.append(c if v else z3.Not(c))
            cond = z3.And(cond) if cond else z3.BoolVal(True)
            out = dict(s)
            for tid, key, c in writes:
                for q in self.keys:
                    if q[0] == tid and (key is None or q[1] == key):
                        out[q] = z3.IntVal(0 if c is None else self.label((q, c)))
            for q in self.keys:
                new[q] = z3.If(cond, out[q], new[q])
            if failed:
                bad = z3.Or(bad, cond)
        return new, bad


def related(eff, key, touch):
    """keys and modules a question about the key involves"""
    keys, mods, todo = {key}, set(), [key]
    while todo:
        q = todo.pop()
        ms = set(touch.get(q, ())) | set(touch.get((q[0], None), ()))
        for m in ms - mods:
            mods.add(m)
            for p in eff[m]:
                for a, v in p[0]:
                    if a[0] == 'has':
                        n = (a[1], a[2])
                        if n not in keys:
                            keys.add(n)
                            todo.append(n)
                    elif a[1] in eff:
                        mods.add(a[1])
    return keys, sorted(mods)


WORLD = TABS = None


def check(tier, seed):
    global WORLD, TABS
    from vlib import world
    rep = Report('C11', tier, seed)
    w = WORLD = world.World(True)
    TABS = tables(w)
    names = {tid: nn for tid, nn, d in TABS.values()}
    head = Result('execution of every module')
    rep.results.append(head)
    for m, e in w.failed.items():
        head.errors.append('%s cannot be imported: %s' % (m, e))
    ctx = multiprocessing.get_context('fork')
    eff = {}
    with ctx.Pool(min(8, os.cpu_count() or 2)) as pool:
        for mod, ps, funcs, st, errs in pool.imap_unordered(effects, sorted(w.real), 2):
            eff[mod] = ps
            head.functions.update(funcs)
            head.queries += st[0]
            head.solver_s += st[1]
            head.paths += st[2]
            head.branches += st[3]
            head.errors += errs
    deps, lates, touch = closure(eff), late(eff), touches(eff)
    nat = None
    ask = []                # (obligation key, op, args)

    # questions
    qs = {}
    for m in sorted(w.ref.mods):
        for n, mp in w.ref.mods[m].maps.items():
            d = ops.real_table(w, (m, n))
            tid = TABS[id(d)][0] if id(d) in TABS else None
            keys = set(w.ref.writers.get(mp, {}))
            if tid is None:
                if m in w.real:
                    ask.append(('%s.%s' % (m, n), 'whole_order', {'orders': [[m]]}))
                continue
            for k in keys | {q[1] for q in touch if q[0] == tid and q[1] is not None}:
                qs.setdefault((tid, k), set()).add((m, n, mp))
    stats = {'orders': 0}
    for (tid, key), pubs in sorted(qs.items(), key=repr):
        keys, mods = related(eff, (tid, key), touch)
        want = {}
        for m, n, mp in pubs:
            for x, t in w.ref.writers.get(mp, {}).get(key, []):
                want.setdefault(x, set()).add(n)
        mods = sorted(set(mods) | (set(want) & set(eff)))
        # a table exists once its module does
        owners = {m for m, n, mp in pubs}
        r = Result('%s %s' % (tid, '.'.join(map(str, key)) if type(key) is tuple else key))
        rep.results.append(r)
        if len(mods) > 7:
            r.errors.append('inconclusive: %d modules bear on one entry' % len(mods))
            continue
        if not mods:
            continue
        classes = {}
        q = Query(keys, mods, eff, deps, lates, classes)
        cs, x, states, failed = q.unroll('a')
        ts = w.ref.writers.get(next(iter(pubs))[2], {}).get(key, [])
        t0 = time.perf_counter()

        def solve(*fs):
            s = z3.Solver()
            s.set('timeout', 60000)
            s.add(*cs)
            s.add(*fs)
            r.queries += 1
            a = s.check()
            if a == z3.unknown:
                r.errors.append('inconclusive: %s' % s.reason_unknown())
            return s.model() if a == z3.sat else None

        def order(mm, xs, upto):
            o = [mm.eval(v, model_completion=True).as_long() for v in xs[:upto + 1]]
            return [mods[i] for i in o if i < len(mods)]

        def wit():
            return [c[1][1] for c in classes if c[0] == (tid, key) and type(c[1]) is tuple] + sorted(_apart.get((mp_of(pubs), key), ()))[:6]
        k = len(mods)
        table = sorted((m, n) for m, n, mp in pubs)[0]
        r.classes['entry of %d modules' % min(k, 3)] = 1
        for i in range(k):
            mm = solve(failed[i])
            if mm is not None:
                ask.append((r.key, 'imports_work', {'order': order(mm, x, i)}))
            loaded = {m: z3.Or([x[j] == mods.index(m) for j in range(i + 1)]) for m in want if m in mods}
            if loaded:
                v = states[i][(tid, key)]
                # right: absent-free and one of the types of what is loaded
                right = z3.Or([z3.And(v == lab, loaded[ts[c][0]] if ts[c][0] in loaded else False)
                               for (kk, c), lab in classes.items() if kk == (tid, key) and type(c) is int] or [z3.BoolVal(False)])
                if len(ts) > 1:
                    right = z3.Or([z3.And(v == lab, z3.Or([loaded[ts[j][0]] for j in equal(w, mp_of(pubs), key, c) if ts[j][0] in loaded] or [z3.BoolVal(False)]))
                                   for (kk, c), lab in classes.items() if kk == (tid, key) and type(c) is int] or [z3.BoolVal(False)])
                mm = solve(z3.Or(list(loaded.values())), z3.Not(right))
                if mm is not None:
                    ask.append((r.key, 'after_imports', {'orders': [order(mm, x, i)], 'table': table, 'key': key, 'n': wit()}))
                    break
        # two orders of the same modules
        if k > 1:
            ds, y, st2, f2 = q.unroll('b')
            inset = lambda xs, mi: z3.Or([v == mi for v in xs])
            perm = [inset(x, mi) == inset(y, mi) for mi in range(k)]
            va, vb = states[-1][(tid, key)], st2[-1][(tid, key)]
            eqv = z3.Or([va == vb] + [z3.And(va == l1, vb == l2) for (k1, c1), l1 in classes.items() for (k2, c2), l2 in classes.items()
                                      if k1 == k2 == (tid, key) and type(c1) is int and type(c2) is int and
                                      c2 in equal(w, mp_of(pubs), key, c1)])
            # overriding: a set and a larger one
            more = [z3.Implies(inset(x, mi), inset(y, mi)) for mi in range(k)] + [va != 0]
            fine = [lab for (kk, c), lab in classes.items() if kk == (tid, key) and type(c) is int]
            both = z3.And(z3.Or([va == f for f in fine] or [False]), z3.Or([vb == f for f in fine] or [False]))
            for cond, name in ((z3.Not(both), r.key), (both, '%s given different types by %s' % (r.key, ' and '.join(m for m, t in ts)))):
                for rel in (perm, more):
                    mm = solve(*(ds + rel + [z3.Not(eqv), cond]))
                    if mm is not None:
                        ask.append((name, 'after_imports', {'orders': [order(mm, x, k), order(mm, y, k)], 'table': table, 'key': key,
                                                            'n': wit()}))
                        break
        r.solver_s = time.perf_counter() - t0
        r.paths += k
        r.proved += 1
        stats['orders'] += k
    # snapshots and rebinding
    everything = sorted(w.real)
    for m, ps in sorted(eff.items()):
        for atoms, imports, writes, failed, rebound, snaps in ps:
            if rebound or snaps:
                rest = [x for x in everything if x != m]
                ask.append(('%s takes or replaces whole tables: %s' % (m, (rebound + snaps)[:3]), 'whole_order',
                            {'orders': [[m] + rest, rest + [m]], 'maybe': True}))
            if failed and not atoms:
                ask.append(('%s fails' % m, 'imports_work', {'order': [m]}))
    # each module on its own, against the prediction
    jobs = [('alone %s' % m, 'imports_work', {'order': [m]}) for m in everything]
    res = {}
    with ctx.Pool(8) as pool:
        for key, a, out in pool.imap_unordered(_native, jobs + ask, 1):
            res.setdefault(key, []).append((a, out))
    for m in everything:
        a, out = res['alone %s' % m][0]
        r = Result('import %s alone' % m)
        rep.results.append(r)
        if 'error' in out:
            r.errors.append(out['error'])
            continue
        if not out['ok']:
            r.cex.append({'op': a[0], 'args': a[1], 'observed': out['digest'], 'key': r.key})
            continue
        r.replayed += 1
        got = out['digest'][1]
        got = {k: sorted(v) for k, v in got['d'] if k[-1] != ')'}
        want = predict(w, m, eff, deps, names)
        if got != want and not any('maybe' in j[2] for j in ask):
            diff = [(k, sorted(set(got.get(k, ())) ^ set(want.get(k, ())))[:4]) for k in sorted(set(got) | set(want))
                    if got.get(k) != want.get(k)]
            r.errors.append('encoding and implementation disagree on import of %s: %s' % (m, diff[:4]))
        r.classes['alone'] = 1
    byname = {r.key: r for r in rep.results}
    for key, opname, args in ask:
        r = byname.get(key)
        if r is None:
            r = byname[key] = Result(key)
            rep.results.append(r)
        for a, out in res[key]:
            if a[0] != opname or a[1] is not args and a[1] != args:
                continue
            r.replayed += 1
            if 'error' in out:
                r.errors.append(out['error'])
            elif not out['ok']:
                r.cex.append({'op': opname, 'args': {k: v for k, v in args.items() if k != 'maybe'}, 'observed': out['digest'], 'key': key})
            elif 'maybe' not in args:
                r.errors.append('counterexample does not reproduce natively: %s %s' % (opname, json.dumps(args, default=str)[:300]))
            break
    rep.extra.update({'modules': len(eff), 'tables': len(names), 'entries': len(qs),
                      'entries_of_several_modules': sum(1 for r in rep.results if any(k.startswith('entry of') and k != 'entry of 1 modules' for k in r.classes)),
                      'order_steps_unrolled': stats['orders']})
    rep.assumptions = ['reference tables in /verif/ref/*.asn', 'a module is executed once per process (CPython import system)',
                       'circular imports do not occur']
    return rep.finish({'sets and orders': 'every subset and order of the modules that write or read an entry, closed under their imports',
                       'initial content of tables': 'arbitrary', 'types': 'limits for every size 0..70000',
                       'outside': 'code that keeps a copy of a whole table is judged by two complete import orders'},
                      must_see=('alone', 'entry of 1 modules', 'entry of 2 modules'))


def mp_of(pubs):
    return next(iter(pubs))[2]


_equal = {}
_apart = {}


def equal(w, mp, key, c):
    """indices of reference types equivalent to number c"""
    k = (mp, key, c)
    if k not in _equal:
        ts = w.ref.writers[mp][key]
        _equal[k] = []
        for j in range(len(ts)):
            bad = [] if j == c else classify_ref(w, ts[c][1], ts[j][1])
            if bad:
                _apart.setdefault((mp, key), set()).update(bad)
            else:
                _equal[k].append(j)
    return _equal[k]


def classify_ref(w, a, b):
    from symx import engine
    x, y = w.builder.obj(a), w.builder.obj(b)
    eng = engine.Engine()
    bad = []

    def on_path(c):
        if c is not True:
            m = eng.prove(c)
            if m is not None:
                bad.append(engine.ev(m, eng.integer('n', 0, 70000)))
    eng.explore(lambda: ops.alike(w, x, y, eng.integer('n', 0, 70000)), on_path)
    return sorted(set(bad))


NAT = None


def _native(job):
    global NAT
    key, opname, args = job
    from vlib.native import canon
    try:
        if NAT is None:
            NAT = Native()
        out = NAT.ask([(opname, {k: canon(v) for k, v in args.items() if k != 'maybe'})])[0]
    except Exception:       # noqa
        out = {'error': traceback.format_exc()[-600:]}
    return key, (opname, args), out


def predict(w, mod, eff, deps, names):
    """tables after importing the module alone, by the effects"""
    done, state = [], {}

    def go(m):
        if m in done or m not in eff:
            return
        done.append(m)
        for ps in eff[m]:
            for i, at in ps[1]:
                go(i)
        for atoms, imports, writes, failed, rebound, snaps in eff[m]:
            if all((((a[1], a[2]) in state) if a[0] == 'has' else a[1] in done) == v for a, v in atoms):
                for tid, key, c in writes:
                    if key is None:
                        for q in [q for q in state if q[0] == tid]:
                            del state[q]
                    elif c is None:
                        state.pop((tid, key), None)
                    else:
                        state[(tid, key)] = c
                break
    go(mod)
    out = {}
    for m in done:
        if m not in w.ref.mods:
            continue
        for n in w.ref.mods[m].maps:
            d = ops.real_table(w, (m, n))
            tid = TABS[id(d)][0] if id(d) in TABS else None
            if tid is not None:
                out['%s.%s' % (m, n)] = sorted('.'.join(map(str, k)) if type(k) is tuple else str(k) for t, k in state if t == tid)
    return out
