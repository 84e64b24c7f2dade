"""C05 integer ranges are enforced exactly as published."""
from vlib import der, pos, samples
from vlib.c01 import Layout, plan_of
from vlib.run import Task, Oct, Int, Report, run_all


def width(cons):
    """content octets needed to reach beyond every bound"""
    best = 1
    for c in cons:
        vals = []
        if c[0] == 'RANGE':
            vals = [x for x in c[1:] if x is not None]
        elif c[0] == 'VALUES':
            vals = [x[1] for x in c[1] if x[0] == 'int']
        elif c[0] in ('UNION', 'ALL'):
            best = max(best, width(c[1]))
        for v in vals:
            best = max(best, len(der.int_body(v + 1)), len(der.int_body(v - 1)))
    return best


def toward(path):
    """plan that makes sure path is present, and otherwise as little as possible"""
    over = {}

    def plan(p, what, x):
        if what == 'opt':
            return path == p or path.startswith(p + '/')
        if what == 'count':
            n = der.min_count(x)
            if path.startswith(p + '/'):
                return max(1, n)
            return n
        for i, c in enumerate(x):
            q = p + '/' + c.name
            if path == q or path.startswith(q + '/'):
                return i
        return 0
    return plan


def wire(w, lay, ref, path, n, out, tier):
    from vlib import ops
    t = w.ref.lookup(ref)
    mk = samples.Maker(w, lay.boundary_for(ref, t, w.real_obj(ref)), t)
    s = mk.make(toward(path), None, 0, path)
    if path not in s.leaves:
        return
    plain = bytes(der.octets(s.nodes))
    a, _ = ops.decode(w.ref_obj(ref), plain)
    if a[0] != 'ok':
        return
    leaf = s.leaves[path]
    k = width(n.cons)
    for size in sorted({1, min(k, 9), min(k, 9) + 1}):
        if size > 2 and not n.cons:
            continue
        leaf.body[:] = ['8+0:c.%d' % i for i in range(size)]
        content = Oct(list(leaf.body))
        octets = Oct(der.octets(s.nodes))
        out.append(Task('int_range_wire', {'ref': ref, 'path': path, 'octets': octets, 'content': content},
                        '%s.%s%s %d octets' % (ref[0], ref[1], path, size)))


def tasks(w, tier, only=None):
    out = []
    lay = Layout(w)
    for ref, path, t, n, c in pos.positions(w, only):
        if path is None:
            out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
            continue
        if n.kind not in ('INTEGER', 'ENUMERATED'):
            continue
        out.append(Task('int_range', {'ref': ref, 'path': path, 'v': Int('v')}, '%s.%s%s' % (ref + (path,))))
        wire(w, lay, ref, path, n, out, tier)
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C05', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['positions'] = len({(t.args['ref'], t.args.get('path')) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed', 'reference grammar /verif/ref/*.asn']
    return rep.finish({'construction': 'every integer v, unbounded',
                       'decoding': 'every content of 1 octet and, where a range is published, of as many octets as its bounds need and one more '
                                   '(at most 10)',
                       'outside': 'longer contents'}, must_see=('accepted', 'refused'))
