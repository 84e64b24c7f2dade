"""C19 untrusted input is either decoded or cleanly rejected."""
from vlib import c12, der, pos, samples
from vlib.c01 import Layout, plan_of
from vlib.samples import Leaf
from vlib.ops import op, decode, kind, conj, Lib
from vlib.run import Task, Oct, Int, Report, run_all


def clean(w, ref, octets, how):
    a, v = decode(w.real_obj(ref), octets, **({'decodeOpenTypes': True} if how else {}))
    if a[0] == 'crashed' and a[1] == 'OverflowError':
        # a length beyond what the machine can address: the codec's own limit
        return beyond(octets), a
    if a[0] == 'crashed' and a[1] == 'ValueError':
        # a BIT STRING of fewer bits than it says are unused: the codec's
        return any(bool(octets[i] == 1) and 1 <= octets[i + 1] <= 7 for i in range(len(octets) - 1)), a
    return a[0] != 'crashed', (a[0],) if a[0] == 'ok' else a


def beyond(octets):
    """some length in the octets is beyond 2^63"""
    from vlib.ops import concrete
    for p in range(len(octets)):
        if octets[p] >= 0x88:
            k = concrete(octets[p]) & 127
            body = octets[p + 1:p + 1 + k]
            if len(body) == k and any(body[i] for i in range(k - 8)) or len(body) == k and body[k - 8] >= 128:
                return True
    return False


@op
def clean_decode(w, ref, octets, how):
    return clean(w, ref, octets, how)


@op
def clean_cut(w, ref, inputs, which, how):
    """inputs that end too early"""
    from vlib.ops import concrete
    return clean(w, ref, inputs[concrete(which)], how)


def tags(o):
    return [(t.tagClass, t.tagId) for t in o.tagSet]


def eq(a, b):
    out = []
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        out += [x[0] == y[0], x[1] == y[1]]
    return conj(out)


def names(o):
    ct = getattr(o, 'componentType', None)
    if ct is None:
        return None
    if hasattr(ct, 'namedTypes'):
        return [n.name for n in ct.namedTypes]
    return [type(ct).__name__]


@op
def copies(w, ref, cls, num):
    """instances, copies and sub-types with any tag exist and are like the original"""
    from pyasn1.type import constraint
    L = Lib()
    o = w.real_obj(ref)
    attr = w.real_attr(tuple(ref))
    made = []
    try:
        if isinstance(attr, type):
            made.append(attr())
        made.append(o.clone())
        made.append(o.subtype())
        made.append(o.subtype(subtypeSpec=constraint.ConstraintsIntersection()))
        for m in list(made):
            made.append(m.clone())
        c = [eq(tags(m), tags(o)) for m in made]
        like = [kind(m) == kind(o) and names(m) == names(o) for m in made]
        for k, fmt in (('implicitTag', 0), ('explicitTag', 32)):
            m = o.subtype(**{k: L.tag.Tag(cls, fmt, num)})
            like.append(kind(m) == kind(o) and names(m) == names(o))
            base = tags(o)
            want = base + [(cls, num)] if k == 'explicitTag' else base[:-1] + [(cls, num)] if base else None
            if want is not None:
                c.append(eq(tags(m), want))
            m2 = m.clone()
            c.append(eq(tags(m2), tags(m)))
    except Exception as e:      # noqa
        return False, ('crashed', type(e).__name__)
    return conj(c) if all(like) else False, ('copied', len(made))


def spots(o, deep, first=2):
    """offsets of identifier and length octets, and of first content octets"""
    out = []

    def walk(at, end, d):
        while at < end:
            p = at + 1
            if o[at] & 31 == 31:
                while o[p] & 128:
                    p += 1
                p += 1
            n = o[p]
            q = p + 1
            if n > 128:
                q += n & 127
                n = int.from_bytes(bytes(o[p + 1:q]), 'big')
            out.extend((i, d) for i in range(at, q))
            if o[at] & 32:
                walk(q, q + n, d + 1)
            else:
                out.extend((i, d) for i in range(q, q + min(n, first)))
            at = q + n
    walk(0, len(o), 0)
    return [p for p, d in out if d <= deep]


def plain(o):
    return [x if type(x) is int else 0x41 for x in o]


def tasks(w, tier, only=None):
    quick = tier == 'quick'
    out = []
    seen = set()
    lay = Layout(w)
    for ref, mk, s in samples.all_samples(w, 'all', 3, light=True, only=only):
        key = '%s.%s' % ref
        sym = der.octets(s.nodes)
        o = [x if type(x) is int else 0x41 for x in sym]
        opens = any(c is not None and c.by for path, t, n, c in pos.walk(w.ref, w.ref.lookup(ref), mk.boundary))
        if ref not in seen:
            seen.add(ref)
            out.append(Task('copies', {'ref': ref, 'cls': Int('cls', 1, 3, 64), 'num': Int('num', 0)}, key + ' copies'))
            for n in range(0, 2 if quick else 4):
                out.append(Task('clean_decode', {'ref': ref, 'octets': Oct(['8+0:o%d' % i for i in range(n)]), 'how': True}, '%s any %d octets' % (key, n)))
            if o:
                ident = o[:spots(o, 0)[0] + 1] if o[0] & 31 != 31 else o[:2]
                for n in range(1, 3 if quick else 4):
                    for how in (False, True):
                        out.append(Task('clean_decode', {'ref': ref, 'octets': Oct(ident + ['8+0:o%d' % i for i in range(n)]), 'how': how}, '%s identifier and any %d octets' % (key, n)))
        out.append(Task('clean_decode', {'ref': ref, 'octets': Oct(sym), 'how': True}, '%s %s' % (key, s.label)))
        if s.label == 'full' and o:
            sp = spots(o, 9, 1 if quick else 2)
            ends = range(len(o)) if not quick else sp
            out.append(Task('clean_cut', {'ref': ref, 'inputs': [bytes(o[:n]) for n in ends], 'which': Int('n', 0, len(ends) - 1), 'how': True}, key + ' cut short'))
            if quick:
                sp = sp if opens else sp[-4:]
            for p in sp:
                out.append(Task('clean_decode', {'ref': ref, 'octets': Oct(o[:p] + ['8+0:at%d' % p] + o[p + 1:]), 'how': True}, '%s octet %d of %d' % (key, p, len(o))))
    return out + resolved(w, tier, only)


def resolved(w, tier, only=None):
    """values of open types: registered keys with any identifier, any content"""
    out = []
    for t in c12.tasks(w, 'quick', only):
        if ' = full' in t.key:
            o = t.args['octets'].v
            p = t.args['payload'].v
            o = [x if type(x) is int else 0x41 for x in o]
            p = [x if type(x) is int else 0x41 for x in p]
            if len(p) < 2:
                continue
            at = next((i for i in range(len(o) - len(p), -1, -1) if o[i:i + len(p)] == p), None)
            if at is None:
                continue
            for i in dict.fromkeys((0, 1, 2, len(p) - 1) if tier == 'quick' else range(len(p))):
                if i < len(p):
                    q = at + i
                    out.append(Task('clean_decode', {'ref': t.args['ref'], 'octets': Oct(o[:q] + ['8+0:at%d' % i] + o[q + 1:]), 'how': True},
                                    '%s octet %d of the value' % (t.key, i)))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C19', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['types'] = len({tuple(t.args['ref']) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed', 'lengths beyond what the machine can address make the codec raise OverflowError']
    return rep.finish({'octets': 'any 0..3 octets; ' 'full sample of each type with one octet (identifiers, lengths, first content octets of the upper two levels; thorough: all levels) '
                                 'replaced by anything, or cut short anywhere; every shape of sample'},
                      must_see=('ok', 'rejected', 'copied'))
