"""C12 decoding with open types loses nothing."""
from vlib import asn, der, pos, samples
from vlib.c01 import Layout, plan_of
from vlib.samples import Leaf
from vlib.run import Task, Oct, Sum, Report, run_all


def on_path(path, ref, t):
    """plan exceptions that make the place exist"""
    over = {}
    p = ''
    for name in path.split('/')[1:]:
        n = ref.norm(t)
        q = p + '/' + name
        if n.kind == 'CHOICE':
            over[p] = {'alt': [c.name for c in n.comps].index(name)}
        if n.kind.endswith(' OF'):
            over[p] = {'count': max(1, der.min_count(n))}
            t = n.elem
        else:
            c = [c for c in n.comps if c.name == name][0]
            if c.mode:
                over.setdefault(q, {})['opt'] = True
            t = c.type
        p = q
    return over


def fields(w, only=None):
    """(ref, path, Comp, governor path, map, T of the container's type)"""
    for ref, path, t, n, c in pos.positions(w, only):
        if path is None or c is None or not c.by:
            continue
        parent = path.rsplit('/', 1)[0]
        if pos.norm_at(w.ref, ref, parent)[0].kind not in ('SEQUENCE', 'SET'):
            continue
        yield ref, path, n, c, parent + '/' + c.by[0], w.ref.mods[c.by[1][0]].maps.get(c.by[1][1], c.by[1])


def payloads(w, t, tier):
    """samples of a registered type"""
    mk = samples.Maker(w, lambda t, p: t.kind == 'REF' and p != '', t)
    seen = set()
    for label, plan, edge in samples.plans(mk, True) if tier == 'thorough' else (('full', der.full, None), ('minimal', der.minimal, None)):
        s = mk.make(plan, True, 2, label, edge)
        o = tuple(der.octets(s.nodes))
        if o and o not in seen:
            seen.add(o)
            name, sub = der.finding(s.nodes)
            yield label, list(o), [name, der.octets(s.nodes, sub)] if name else None


def concrete(o):
    return [x if type(x) is int else 64 for x in o]


def rename(o, tag):
    return [x if type(x) is int else x.replace(':', ':' + tag, 1) for x in o]


def tasks(w, tier, only=None):
    out = []
    lay = Layout(w)
    used = {}
    pay = {}
    for ref, path, n, c, gpath, mp in fields(w, only):
        t = w.ref.lookup(ref)
        key0 = '%s.%s%s' % (ref + (path,))
        gn, gc = pos.norm_at(w.ref, ref, gpath)
        mk = samples.Maker(w, lay.boundary_for(ref, t, w.real_obj(ref)), t)
        over = on_path(path, w.ref, t)
        over.update({k: v for k, v in on_path(gpath, w.ref, t).items() if k not in over})
        many = n.kind.endswith(' OF')
        if many:
            over.setdefault(path, {})['count'] = max(1, der.min_count(n))
        leafpath = path + '/0' if many else path
        ln = w.ref.norm(n.elem) if many else n
        entries = w.ref.writers.get(mp, {})
        first = used.setdefault(mp, key0) == key0
        keys = sorted(entries, key=repr)
        if not (first or tier == 'thorough'):
            keep = {}
            for k in keys:
                keep.setdefault((len(k) if type(k) is tuple else 0), k)
            keys = sorted(set(keep.values()) | set(keys[::max(1, len(keys) // 3)]), key=repr)
        # neighbours of a registered value, and one nobody has
        near = set(sorted(set(der_len(k) for k in keys)))
        jobs = []
        for k in keys:
            if (mp, k) not in pay:
                pay[(mp, k)] = list(payloads(w, entries[k][0][1], tier))
            for label, o, alt in pay[(mp, k)]:
                jobs.append((k, False, label, o, alt))
            if der_len(k) in near:
                near.discard(der_len(k))
                jobs.append((k, True, 'near', [2, 1, '7+0:p'] if first else [5, 0], None))
                if pay[(mp, k)]:
                    label, o, alt = pay[(mp, k)][0]
                    jobs.append((k, True, 'near with', concrete(o), alt and [alt[0], concrete(alt[1])]))
        if gn.kind == 'OBJECT IDENTIFIER':
            jobs.append(((1, 3, 9999, 1), True, 'unregistered', [4, 2, '8+0:p', '8+0:q'], None))
        else:
            jobs.append((99, True, 'unregistered', [4, 2, '8+0:p', '8+0:q'], None))
        for k, fuzzy, label, o, alt in jobs:
            o = rename(o, 'pay ')
            if type(k) is tuple:
                body = der.oid_body(k)
                if fuzzy:
                    body = body[:-1] + ['7+0:governor']
                gl = Leaf(k, body)
            else:
                gl = Leaf(k, ['7+0:governor'] if fuzzy else der.int_body(k))
            mk.over = {gpath: gl, leafpath: Leaf(b'', o)}
            try:
                s = mk.make(plan_of(der.minimal, over), None, 0)
            except ValueError as e:
                raise ValueError('%s: %s' % (key0, e))
            octets = der.octets(s.nodes)
            # the other encoding a known finding makes of it
            name, sub = der.finding(s.nodes)
            other = octets if name is None else der.octets(s.nodes, sub)
            if alt:
                mk.over[leafpath] = Leaf(b'', rename(alt[1], 'pay '))
                s2 = mk.make(plan_of(der.minimal, over), None, 0)
                other = der.octets(s2.nodes, der.finding(s2.nodes)[1])
                name = alt[0]
            alt = [name, Oct(other)] if name else None
            out.append(Task('open_decode', {'ref': ref, 'octets': Oct(octets), 'path': leafpath, 'governor': gpath, 'mp': mp,
                                            'payload': Oct(o), 'opaque': ln.kind, 'alt': alt},
                            '%s %s %s %s' % (key0, '.'.join(map(str, k)) if type(k) is tuple else k, '~' if fuzzy else '=', label)))
    return out


def der_len(k):
    return len(der.oid_body(k)) if type(k) is tuple else 0


def check(tier, seed):
    from vlib import world
    rep = Report('C12', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['fields'] = len({(t.args['ref'], t.args['path']) for t in ts})
    rep.extra['entries'] = len({(t.args['mp'], t.key.split()[1]) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed; where the reference type cannot be decoded or encoded again either, the two are compared',
                       'reference grammar /verif/ref/*.asn']
    return rep.finish({'governing value': 'every registered value (first field of each table; at least one of each encoded length elsewhere), '
                                          'and all 128 values of its last octet',
                       'payload': 'full and minimal sample of the registered type, up to 2 symbolic leaves',
                       'outside': 'payloads of other shapes (the registered types themselves are covered by C01-C03)'},
                      must_see=('resolved', 'opaque', 'misfit'))
