"""C18 operations leave no trace in shared definitions.

Each obligation is a history: what a type does is observed, then a first
operation runs on symbolic input (accepted or not), then what this type, its
neighbours, and the tables and constants of its module do is observed again.
What has to come out is fixed by the first observation and, for the
neighbours, by a process in which nothing else has happened."""
import json
import os

from vlib import c13, c14, der, samples      # noqa
from vlib.native import canon, uncanon
from vlib.ops import (OPS, op, kind, tree, same, same_outcome, conj, decode, encode, produce, real_table, Lib)
from vlib.run import Task, Oct, Report, run_all

FRESH = {}          # what -> observation in a fresh process


def use(w, ref):
    a = w.real_attr(tuple(ref))
    return a() if isinstance(a, type) else a


def observe(w, ref, octets, script):
    """what decoding, encoding and building give"""
    a, v = decode(use(w, ref), octets)
    b, v2 = decode(use(w, ref), octets, decodeOpenTypes=True)
    p = produce(use(w, ref), script)
    return [a, encode(v) if v is not None else None, b, encode(v2) if v2 is not None else None, p]


def agree(x, y):
    """condition: two observations of the same thing are equal"""
    out = []
    for a, b in zip(x, y):
        if a is None or b is None:
            if a is not b:
                return False
            continue
        if a[0] != b[0]:
            return False
        if a[0] == 'ok' and type(a[1]) is tuple:
            r = same_outcome(a, b)
            if r is False:
                return False
            out += r
        elif a[0] == 'ok':
            if len(a[1]) != len(b[1]):
                return False
            out.append(a[1] == b[1])
        elif a != b:
            return False
    return conj(out)


def public(w, mod):
    """tables and constants of a module"""
    L = Lib()
    m = w.ref.mods[mod]
    out = []
    for name in sorted(m.maps):
        d = real_table(w, (mod, name))
        if d is None:
            continue
        for k in d:
            v = d[k]
            out.append((name, str(k), kind(v), [(int(t.tagClass), int(t.tagId)) for t in getattr(v, 'tagSet', ()) or ()]
                        if getattr(v, 'tagSet', None) is not None else None, bool(getattr(v, 'isValue', False))))
    for name in sorted(list(m.oids) + list(m.ints)):
        v = getattr(w.real[mod], name, None)
        if isinstance(v, L.base.Asn1Item) or isinstance(v, L.base.Asn1Type):
            out.append((name, tree(v)))
        else:
            out.append((name, v if type(v) in (int, str, bytes, tuple) else repr(type(v))))
    for name in sorted(m.types):
        v = getattr(w.real[mod], name, None)
        if v is None:
            continue
        o = v
        if isinstance(v, type) and not issubclass(v, L.base.Asn1Item):
            continue
        out.append((name, kind(o()) if isinstance(o, type) else kind(o), [(int(t.tagClass), int(t.tagId)) for t in o.tagSet] if hasattr(o.tagSet, '__iter__') else None,
                    bool(isinstance(o, type) or not o.isValue)))
    return out


def look(w, what):
    if what[0] == 'module':
        return canon(public(w, what[1]))
    return canon(observe(w, *what[1:]))


def elsewhere(f):
    """result of f in a child process"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(f()).encode()
            with os.fdopen(wr, 'wb') as o:
                o.write(data)
            code = 0
        except BaseException:       # noqa
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError('child failed')
    return json.loads(data)


def fresh(w, what):
    k = json.dumps(canon(what))
    if k not in FRESH:
        if w.symbolic:
            raise KeyError(k)
        FRESH[k] = elsewhere(lambda: look(w, what))
    return FRESH[k]


# -- first operations -------------------------------------------------------------

NEW = {'INTEGER': 1, 'ENUMERATED': 1, 'BOOLEAN': True, 'OCTET STRING': b'zz', 'BIT STRING': (1, 0, 1), 'OBJECT IDENTIFIER': (1, 2, 9, 9), 'ANY': b'\x04\x01\x5a',
       'NULL': '', 'UTCTime': '990101000000Z', 'GeneralizedTime': '19990101000000Z'}


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception:       # noqa
        return None


def scribble(v, depth=0):
    """change all that can be changed in a value"""
    k = kind(v)
    if k in ('SEQUENCE', 'SET'):
        for name in list(v.componentType):
            if depth < 3:
                c = attempt(v.__getitem__, name)
                if c is not None and kind(c) in NEW:
                    attempt(v.__setitem__, name, NEW[kind(c)])
                elif c is not None and kind(c) in ('SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF'):
                    scribble(c, depth + 1)
                elif c is not None:
                    attempt(v.__setitem__, name, 'zz')
    elif k == 'CHOICE':
        for name in list(v.componentType):
            if depth < 3:
                c = attempt(v.__getitem__, name)
                if c is not None and kind(c) in NEW:
                    attempt(v.__setitem__, name, NEW[kind(c)])
                elif c is not None:
                    scribble(c, depth + 1)
    elif k in ('SEQUENCE OF', 'SET OF'):
        if len(v) and depth < 3:
            c = attempt(v.__getitem__, 0)
            if c is not None and kind(c) in NEW:
                attempt(lambda: v.append(NEW[kind(c)]))
                attempt(v.__setitem__, 0, NEW[kind(c)])
            elif c is not None:
                scribble(c, depth + 1)
                attempt(lambda: v.append(c))
        attempt(lambda: v.extend([1, b'x', 'y']))


def derive(w, t):
    L = Lib()
    attempt(lambda: t.clone())
    attempt(lambda: t.clone(cloneValueFlag=True))
    for k in ('implicitTag', 'explicitTag'):
        attempt(t.subtype, **{k: L.tag.Tag(L.tag.tagClassContext, L.tag.tagFormatSimple, 29)})
    from pyasn1.type import constraint
    attempt(t.subtype, subtypeSpec=constraint.ValueSizeConstraint(1, 2))
    attempt(t.subtype, sizeSpec=constraint.ValueSizeConstraint(1, 2))
    attempt(t.subtype, cloneValueFlag=True)
    attempt(lambda: t.prettyPrintType())
    attempt(lambda: t.isInconsistent)
    attempt(lambda: list(t.items()))
    attempt(lambda: t.minTagSet)
    attempt(lambda: t.tagMap)
    attempt(lambda: t.effectiveTagSet)


def apply(w, ref, step):
    how, x = step
    if how in ('decode', 'decode open'):
        _, v = decode(use(w, ref), x, **({'decodeOpenTypes': True} if how == 'decode open' else {}))
        if v is not None:
            encode(v)
            scribble(v)
            encode(v)
            attempt(lambda: v.clear())
    elif how == 'build':
        produce(use(w, ref), x)
    elif how == 'empty':
        t = use(w, ref)
        encode(t)
        if isinstance(w.real_attr(tuple(ref)), type):
            scribble(t)
            encode(t)
            attempt(lambda: t.reset())
        derive(w, use(w, ref))


@op
def no_trace(w, ref, first, octets, script, others):
    """first: the operations; others: what else is looked at afterwards"""
    if not w.symbolic:
        Pristine.of(w)
        # what the symbolic run saw in fresh processes is good enough until something differs
        given = before_hand()
        ks = [json.dumps(canon(o)) for o in others]
        if all(k in given for k in ks):
            ok, digest = _no_trace(w, ref, first, octets, script, others, [given[k] for k in ks])
            if ok:
                return ok, digest
        return Pristine.of(w).ask('trace', (ref, first, octets, script, others))
    return _no_trace(w, ref, first, octets, script, others, [fresh(w, o) for o in others])


class Pristine(object):
    """a process in which nothing ever happens: it forks one for each request"""
    one = None

    @classmethod
    def of(cls, w):
        if cls.one is None:
            cls.one = cls(w)
        return cls.one

    def __init__(self, w):
        import multiprocessing
        self.c, d = multiprocessing.Pipe()
        if os.fork() == 0:
            try:
                self.c.close()
                self.serve(w, d)
            finally:
                os._exit(0)
        d.close()

    def ask(self, what, args):
        self.c.send((what, args))
        r = self.c.recv()
        if r is None:
            raise RuntimeError('child failed')
        return r[0], uncanon(r[1])

    def serve(self, w, d):
        while True:
            try:
                what, args = d.recv()
            except EOFError:
                return
            try:
                if what == 'trace':
                    refs = [fresh(w, o) for o in args[4]]
                    d.send(elsewhere(lambda: _native(w, *(args + (refs,)))))
                else:
                    d.send(elsewhere(lambda: _turns(w, *args)))
            except Exception:       # noqa
                d.send(None)


def before_hand():
    if not GIVEN:
        f = os.environ.get('VERIF_FRESH')
        GIVEN['loaded'] = True
        if f and os.path.exists(f):
            with open(f) as i:
                GIVEN.update(json.load(i))
    return GIVEN


GIVEN = {}


def _native(*a):
    ok, digest = _no_trace(*a)
    return bool(ok), canon(digest)


def _no_trace(w, ref, first, octets, script, others, refs):
    before = observe(w, ref, octets, script)
    for step in first:
        apply(w, ref, step)
    after = observe(w, ref, octets, script)
    c = agree(before, after)
    if c is False or not c:
        return False, 'itself'
    for o, r in zip(others, refs):
        if look(w, o) != r:
            return False, ' '.join(str(x) for x in (o[1] if type(o[1]) in (tuple, list) else o[1:2]))
    return True, (before[0][0],)


@op
def in_turn(w, steps, last):
    """operations one after the other: the last gives what it gives alone"""
    if not w.symbolic:
        return Pristine.of(w).ask('turn', (steps, last))
    for name, args in steps:
        attempt(OPS[name], w, **args)
    return OPS[last[0]](w, **last[1])


def _turns(w, steps, last):
    for name, args in steps:
        attempt(OPS[name], w, **args)
    ok, digest = OPS[last[0]](w, **last[1])
    return bool(ok), canon(digest)


# -- tasks ---------------------------------------------------------------------------

def fill_fresh(w, whats):
    """FRESH for all of them, each looked at in a process of its own"""
    ks = list(whats)
    pipes = []
    for i in range(JOBS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = json.dumps([[k, elsewhere(lambda: look(w, whats[k]))] for k in ks[i::JOBS]]).encode()
                with os.fdopen(wr, 'wb') as o:
                    o.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        pipes.append((r, pid))
    for r, pid in pipes:
        with os.fdopen(r, 'rb') as i:
            data = i.read()
        if os.waitpid(pid, 0)[1]:
            raise RuntimeError('child failed')
        for k, v in json.loads(data):
            FRESH[k] = v


JOBS = min(8, os.cpu_count() or 2)


def tasks(w, tier, only=None):
    quick = tier == 'quick'
    out = []
    full = {}       # ref -> concrete sample
    sym = {}
    order = []
    for ref, mk, s in samples.all_samples(w, 'all', 1, light=True, only=only):
        sym.setdefault(ref, []).append(s)
        if ref not in full:
            full[ref] = mk.make(der.full, None, 0, 'full')
            order.append(ref)
    ofmod = {}
    for r in order:
        ofmod.setdefault(r[0], []).append(r)
    users = {}
    for r in order:
        for x in uses(w, r):
            users.setdefault(x, []).append(r)
    whats = {}
    for ref in order:
        mates = ofmod[ref[0]]
        i = mates.index(ref)
        near = mates[i + 1:] + mates[:i]
        u = [x for x in users.get(w.ref.final(ref), []) if x != ref]
        pick = near[:3] + near[-1:] + u[:3] if quick else near + u
        others = [('module', m) for m in dict.fromkeys((ref[0], w.ref.final(ref)[0])) if m in w.real]
        mods = len(others)
        for x in dict.fromkeys(pick):
            others.append(('type', x, bytes(der.octets(full[x].nodes)), concrete(full[x].script)))
        for o in others:
            whats[json.dumps(canon(o))] = o
        s = sym[ref][0]
        octets = der.octets(s.nodes)
        firsts = [[['empty', None]]]
        small = sym[ref][-1]
        o2 = rename(der.octets(small.nodes), 'x')
        firsts.append([['decode', Oct(o2)], ['decode open', Oct(o2)]])
        if o2:
            firsts.append([['decode open', Oct(['8+0:ident'] + plain(o2)[1:])], ['decode', Oct(o2[:-1])]])
        whole = rename(octets, 'x')
        # one identifier somewhere inside
        at = inside(s.nodes)
        if at is not None and at < len(whole) and not quick or at:
            firsts.append([['decode open', Oct(plain(whole)[:at] + ['8+0:ident'] + plain(whole)[at + 1:])]])
        firsts.append([['build', retag(s.script, 'x')], ['decode', Oct(whole)], ['empty', None]])
        if not quick:
            for s2 in sym[ref][1:]:
                firsts.append([['decode open', Oct(rename(der.octets(s2.nodes), 'x'))], ['build', retag(s2.script, 'x')]])
        for n, f in enumerate(firsts):
            out.append(Task('no_trace', {'ref': ref, 'first': f, 'octets': Oct(octets), 'script': s.script, 'others': others if n in (len(firsts) - 1, 2) or not quick else others[:mods]},
                            '%s.%s after %s' % (ref[0], ref[1], ', '.join(x[0] for x in f))))
    fill_fresh(w, whats)
    return out + streams(tier)


def inside(nodes):
    """offset of the identifier of an inner element"""
    n = nodes[0] if nodes else None
    if n is None or not getattr(n, 'kids', None):
        return None
    pos = len(n.ident()) + len(der.length(sum(len(k.render()) for k in n.kids)))
    last = pos
    for k in n.kids:
        last = pos
        pos += len(k.render())
    return last


def rename(o, tag):
    return [x if type(x) is int else x.replace(':', ':%s ' % tag, 1) for x in o]


def plain(o):
    return [x if type(x) is int else 0x41 for x in o]


def retag(x, tag):
    from vlib.run import Sum, Oct, Text
    if isinstance(x, Text):
        return Text(rename(x.v, tag))
    if isinstance(x, Oct):
        return Oct(rename(x.v, tag))
    if isinstance(x, Sum):
        return Sum(rename([x.v], tag)[0])
    if type(x) is list:
        return [retag(i, tag) for i in x]
    if type(x) is tuple:
        return tuple(retag(i, tag) for i in x)
    return x


def concrete(x):
    if type(x) is list:
        return [concrete(i) for i in x]
    return x


def uses(w, ref):
    """definitions named in the definition of ref"""
    out = set()

    def walk(t, depth=0):
        if t is None:
            return
        if t.kind == 'REF':
            try:
                out.add(w.ref.final(t.ref))
            except Exception:       # noqa
                pass
        for c in getattr(t, 'comps', None) or ():
            walk(c.type, depth + 1)
        walk(getattr(t, 'elem', None), depth + 1)
    walk(w.ref.lookup(ref))
    return out


def streams(tier):
    """PEM and base64 reading, one call after another"""
    from vlib.run import Text
    out = []
    ms = [('B', 'E'), ('C', 'F')]
    texts = {'block': 'B\nQUJD\nE\n', 'other block': 'C\nREVG\nF\n', 'unterminated': 'B\nQUJD\n', 'broken base64': 'B\nQ\nE\n', 'no block': 'QUJD\n',
             'empty block': 'B\nE\n', 'empty': '', 'long block': 'B\nQUJD\nREVG\nR0hJ\nE\n'}

    def read(text, tag, sym=None, ms=ms):
        t = ['7+0:%s%d' % (tag, i) if sym is not None and i in sym else ord(c) for i, c in enumerate(text)]
        return ['pem_blocks', {'text': Text(t), 'markers': ms, 'calls': 1}]
    names = sorted(texts)
    # other markers before: sharing a start, an end, swapped, in another order
    for m2 in ([('B', 'F')], [('C', 'E')], [('E', 'B')], [('C', 'F'), ('B', 'E')], [('Q', 'Q'), ('C', 'Z')]):
        for a in names:
            for b in names:
                out.append(Task('in_turn', {'steps': [read(texts[a], 'a', ms=m2)], 'last': read(texts[b], 'b', (0,))}, 'PEM %s with markers %s then %s' % (a, m2, b)))
                out.append(Task('in_turn', {'steps': [read(texts[a], 'a')], 'last': read(texts[b], 'b', (2,), ms=m2)}, 'PEM %s then %s with markers %s' % (a, b, m2)))
    for a in names:
        for b in names:
            # any character of the first text, then of the second, may be anything
            for s1, s2 in (((2,), None), (None, (2,))) if tier == 'quick' else (((0,), None), ((2,), None), ((3,), None), (None, (0,)), (None, (2,)), (None, (3,))):
                out.append(Task('in_turn', {'steps': [read(texts[a], 'a', s1)], 'last': read(texts[b], 'b', s2)}, 'PEM %s then %s %s' % (a, b, s1 or s2)))
            for c in names if tier != 'quick' else ('unterminated', 'broken base64'):
                out.append(Task('in_turn', {'steps': [read(texts[c], 'c'), read(texts[a], 'a', (2,))], 'last': read(texts[b], 'b', (3,))}, 'PEM %s, %s then %s' % (c, a, b)))
    for via in ('text', 'file'):
        for n in (0, 2, 5):
            o = ['8+0:o%d' % i for i in range(n)]
            p = ['8+0:p%d' % i for i in range(n)]
            for via2 in ('text', 'file'):
                out.append(Task('in_turn', {'steps': [['base64_text', {'octets': Oct(p), 'blanks': '', 'where': [], 'via': via2}]],
                                            'last': ['base64_text', {'octets': Oct(o), 'blanks': '', 'where': [], 'via': via}]},
                                'base64 %s then %s, %d octets both' % (via2, via, n)))
            last = ['base64_text', {'octets': Oct(o), 'blanks': '', 'where': [], 'via': via}]
            for via2 in ('text', 'file'):
                first = ['base64_text', {'octets': Oct(['8+0:p0', '8+0:p1', 1, 2]), 'blanks': Text(['7+0:b']), 'where': [1], 'via': via2}]
                out.append(Task('in_turn', {'steps': [first], 'last': last}, 'base64 %s then %s of %d' % (via2, via, n)))
            for a in names:
                out.append(Task('in_turn', {'steps': [read(texts[a], 'a', (2,))], 'last': last}, 'PEM %s then base64 %s of %d' % (a, via, n)))
        for b in names:
            first = ['base64_text', {'octets': Oct(['8+0:p0', '8+0:p1']), 'blanks': Text(['7+0:b']), 'where': [1], 'via': via}]
            out.append(Task('in_turn', {'steps': [first], 'last': read(texts[b], 'b', (2,))}, 'base64 %s then PEM %s' % (via, b)))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C18', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    import tempfile
    tmp = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump(FRESH, tmp)
    tmp.close()
    os.environ['VERIF_FRESH'] = tmp.name
    try:
        rep.results = run_all(w, ts, known=rep.known)
    finally:
        os.unlink(tmp.name)
    rep.extra['types'] = len({tuple(t.args['ref']) for t in ts if 'ref' in t.args})
    rep.assumptions = ['pyasn1 0.5.1 as installed', 'what a fresh process gives is observed in a child process forked before any operation ran']
    return rep.finish({'histories': 'one to three operations before the observed one; decoding (open types on and off) of samples with up to 3 symbolic leaves, '
                                    'a symbolic identifier, cut short; building, encoding, changing every component of what was decoded, clone, subtype; reading PEM and base64',
                       'observed after': 'the type itself, tables and constants of its module, up to 7 neighbouring or using types (thorough: the whole module)',
                       'outside': 'longer histories; threads; other modules than those of the using types'},
                      must_see=('ok', 'rejected'))
