"""C06 size and presence limits are enforced exactly as published."""
from vlib import asn, der, pos, samples
from vlib.c01 import Layout
from vlib.run import Task, Oct, Text, Int, Flag, Report, run_all

MAX = 70000


def sub_boundary(b, path):
    return lambda t, p: b(t, path + p)


def tasks(w, tier, only=None):
    out = []
    lay = Layout(w)
    for ref, path, t, n, c in pos.positions(w, only):
        if path is None:
            out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
            continue
        key = '%s.%s%s' % (ref + (path,))
        k = n.kind
        if k in ('OCTET STRING', 'BIT STRING', 'SEQUENCE OF', 'SET OF') or (k in asn.STRINGS and k not in ('GeneralizedTime', 'UTCTime')):
            if not der.values(n.cons) and not any(x[0] == 'FROM' for x in der.flat(n.cons)):
                out.append(Task('size_limit', {'ref': ref, 'path': path, 'n': Int('n', 0, MAX)}, key + ' size'))
            elif der.flat(n.cons):
                out.append(Task('letters', {'ref': ref, 'path': path, 'text': ''}, key + ' empty'))
        if k in ('SEQUENCE OF', 'SET OF') and n.elem is not None:
            tt = w.ref.lookup(ref)
            mk = samples.Maker(w, sub_boundary(lay.boundary_for(ref, tt, w.real_obj(ref)), path + '/0'), n.elem)
            s = mk.make(der.border, None, 0)
            top = 3
            for x in der.flat(n.cons):
                if x[0] == 'SIZE':
                    top = max([top] + [b + 1 for b in x[1:] if b is not None and b < 40])
            out.append(Task('elements', {'ref': ref, 'path': path, 'n': Int('n', 0, top), 'script': s.script}, key + ' elements'))
        if k in asn.STRINGS and k not in ('GeneralizedTime', 'UTCTime'):
            m = der.some_size(n.cons, 1)
            for size in {m, der.some_size(n.cons, 2)}:
                if 0 < size <= 64:
                    chars = ['8+0:c.%d' % i if i < 2 else 0x31 for i in range(size)]
                    out.append(Task('letters', {'ref': ref, 'path': path, 'text': Text(chars)}, '%s letters %d' % (key, size)))
        if k in ('SEQUENCE', 'SET') and n.comps is not None:
            o = None
            try:
                o = pos.at(w.real_obj(ref), path)
            except (pos.Missing, AttributeError):
                pass
            if n.cons or (o is not None and getattr(o, 'subtypeSpec', None)):
                b = sub_boundary(lay.boundary_for(ref, w.ref.lookup(ref), w.real_obj(ref)), path)
                mk = samples.Maker(w, b, t)
                scripts, flags = [], []
                # one component at a time, as the plan may not give all together
                for cc in n.comps:
                    m2 = samples.Maker(w, sub_boundary(b, '/' + cc.name), cc.type)
                    scripts.append([cc.name, m2.make(der.border, None, 0).script])
                    flags.append(Flag('has ' + cc.name) if cc.mode else None)
                out.append(Task('together', {'ref': ref, 'path': path, 'flags': flags, 'scripts': scripts, 'cons': n.cons}, key + ' together'))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C06', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['positions'] = len({(t.args['ref'], t.args.get('path')) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed: it applies the limits of collections and structures when they are encoded or asked for '
                       'consistency, not when they are decoded', 'reference grammar /verif/ref/*.asn']
    return rep.finish({'sizes': 'every size 0..%d at once (symbolic)' % MAX,
                       'elements': 'collections really built: 0..3 elements, or up to one above the published bound if it is below 40',
                       'combinations': 'every subset of the optional components of each type with such a limit on either side',
                       'letters': 'texts with up to 2 symbolic characters (0..255)',
                       'outside': 'larger sizes'}, must_see=('accepted', 'refused'))
