"""C07 named numbers and named bits map as published."""
from vlib import pos
from vlib.run import Task, Int, Report, run_all


def tasks(w, tier, only=None):
    out = []
    for ref, path, t, n, c in pos.positions(w, only):
        if path is None:
            out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
            continue
        if n.kind not in ('INTEGER', 'ENUMERATED', 'BIT STRING'):
            continue
        key = '%s.%s%s' % (ref + (path,))
        f = 'bit_named' if n.kind == 'BIT STRING' else 'shown_as'
        out.append(Task(f, {'ref': ref, 'path': path, 'v': Int('v')}, key + ' numbers'))
        if n.names:
            out.append(Task('stands_for', {'ref': ref, 'path': path, 'which': Int('which', 0, len(n.names) - 1)}, key + ' names'))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C07', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['positions'] = len({(t.args['ref'], t.args.get('path')) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed', 'reference grammar /verif/ref/*.asn']
    return rep.finish({'numbers': 'every integer, unbounded', 'names': 'every published name',
                       'outside': 'names of values that are not numbers (the name lists some modules attach to strings)'},
                      must_see=('named', 'number'))
