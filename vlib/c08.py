"""C08 DEFAULT components behave as published."""
from vlib import der, pos, samples
from vlib.c01 import Layout
from vlib.c05 import toward
from vlib.run import Task, Oct, Sum, Report, run_all


def but(plan, path):
    """plan without the component at path"""
    def f(p, what, x):
        if what == 'opt' and p == path:
            return False
        return plan(p, what, x)
    return f


def around(n, c):
    """(value template, content octets) of leaf values around the default"""
    k = n.kind
    d = c.default[1] if c.mode == 'DEFAULT' else None
    if k == 'BOOLEAN':
        return Sum('1+0:v'), None
    if k in ('INTEGER', 'ENUMERATED'):
        d = d or 0
        b = der.int_body(d)
        if len(b) == 1 and d >= 0:
            return Sum('7+0:v'), ['7+0:v']
        base = d & ~0xff
        return Sum('8+%d:v' % base), der.int_body(base)[:-1] + ['8+0:v']
    if k == 'OBJECT IDENTIFIER':
        d = d or (1, 2, 3)
        return d[:-1] + (Sum('7+0:v'),), der.oid_body(d[:-1] + (0,))[:-1] + ['7+0:v']
    return None, None


def leaf_octets(body, out, at):
    """offsets of leaf content octets in a DER encoding"""
    i = 0
    while i < len(body):
        tag, size = body[i], body[i + 1]
        if tag & 32:
            leaf_octets(body[i + 2:i + 2 + size], out, at + i + 2)
        else:
            out += range(at + i + 2, at + i + 2 + size)
        i += 2 + size
    return out


def tasks(w, tier, only=None):
    from vlib import ops
    out = []
    lay = Layout(w)
    for ref, path, t, n, c in pos.positions(w, only):
        if path is None:
            out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
            continue
        if c is None:
            continue
        parent, _ = pos.norm_at(w.ref, ref, path.rsplit('/', 1)[0])
        if parent.kind == 'CHOICE':
            continue
        key = '%s.%s%s' % (ref + (path,))
        tt = w.ref.lookup(ref)
        b = lay.boundary_for(ref, tt, w.real_obj(ref))
        plan = toward(path)
        s0 = None
        if c.mode:
            mk = samples.Maker(w, b, tt)
            s0 = mk.make(but(plan, path), True, 2, path)
            o0 = der.octets(s0.nodes)
            plain = samples.Maker(w, b, tt).make(but(plan, path), None, 0, path)
            a, v = ops.decode(w.ref_obj(ref), bytes(der.octets(plain.nodes)))
            gone = all(x.path != path and not x.path.startswith(path + '/') for x in walk(s0.nodes))
            if a[0] == 'ok' and gone and ops.holder(v, path):
                out.append(Task('default_read', {'ref': ref, 'path': path, 'octets': Oct(o0)}, key + ' absent'))
            s0 = plain
        v, body = around(n, c)
        if v is not None:
            for bit in ((0, 1) if body is None else (None,)):
                mk = samples.Maker(w, b, tt)
                if bit is not None:
                    mk.over[path] = samples.Leaf(bit, [255 if bit else 0])
                else:
                    mk.over[path] = samples.Leaf(v, body)
                s1 = mk.make(plan, None, 0, path)
                if path not in s1.leaves or der.finding(s1.nodes)[0]:
                    continue
                absent = Oct(der.octets((s0 or s1).nodes))
                out.append(Task('default_sent', {'ref': ref, 'path': path, 'script': s1.script, 'v': bit if bit is not None else v,
                                                 'present': Oct(der.octets(s1.nodes)), 'absent': absent},
                                key + ' sent' + ('' if bit is None else ' %d' % bit)))
        elif c.mode == 'DEFAULT' and c.default[0] == 'hex':
            mk = samples.Maker(w, b, tt)
            s1 = mk.make(plan, None, 0, path)
            for d, i in [(d, i) for d in [c.default[1]] + ([c.quirk[1]] if c.quirk and c.quirk[1] else []) for i in leaf_octets(list(d), [], 0)]:
                whole = list(d)
                whole[i] = '8+0:x'
                for x in walk(s1.nodes):
                    for j, kid in enumerate(x.kids or ()):
                        if kid.path == path:
                            keep = x.kids
                            x.kids = keep[:j] + [Patch(whole)] + keep[j + 1:]
                            present = der.octets(s1.nodes)
                            x.kids = keep
                            break
                    else:
                        continue
                    break
                out.append(Task('default_whole', {'ref': ref, 'path': path, 'whole': Oct(whole), 'default': c.default[1], 'script': s1.script,
                                                  'present': Oct(present), 'absent': Oct(der.octets(s0.nodes))}, '%s octet %d of %s' % (key, i, d.hex())))
    return out


class Patch(object):
    kids = None

    def __init__(self, octets):
        self.octets = octets

    def render(self, subst=None):
        return list(self.octets)

    def walk(self):
        return iter(())


def walk(nodes):
    for n in nodes:
        for x in n.walk():
            yield x


def check(tier, seed):
    from vlib import world
    rep = Report('C08', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['components'] = len({(t.args['ref'], t.args.get('path')) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed', 'reference grammar /verif/ref/*.asn']
    return rep.finish({'read back': 'every optional component absent, up to 2 symbolic leaves elsewhere',
                       'sent': 'integers 0..127 or the 256 values that differ from the default in the last octet, both booleans, OIDs that differ '
                               'from the default in the last arc (0..127), constructed defaults with one content octet changed to any value',
                       'outside': 'values farther from the default (C02 has some)'}, must_see=('default', 'nothing', 'omitted', 'sent'))
