"""C04 no two alternatives or optional components compete for a tag."""
from vlib import pos
from vlib.run import Task, Int, Report, run_all


def tasks(w, tier, only=None):
    out = []
    for ref, path, t, n, c in pos.positions(w, only):
        if path is None:
            out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
            continue
        if n.kind not in ('SEQUENCE', 'SET', 'CHOICE') or not n.comps:
            continue
        key = '%s.%s%s' % (ref + (path,))
        top = len(n.comps) - 1
        try:
            top = max(top, len(pos.at(w.real_obj(ref), path).componentType.namedTypes) - 1)
        except Exception:       # noqa
            pass
        out.append(Task('one_owner', {'ref': ref, 'path': path, 'start': Int('start', 0, top if n.kind == 'SEQUENCE' else 0),
                                      'cls': Int('cls', 0, 3, 64), 'num': Int('num', 0)}, key))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C04', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['positions'] = len({(t.args['ref'], t.args.get('path')) for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed: a component is told by its outermost identifier', 'reference grammar /verif/ref/*.asn']
    return rep.finish({'identifiers': 'all 4 classes, every tag number (unbounded)', 'places': 'every place in every component list',
                       'outside': 'identifiers inside open (ANY) components'}, must_see=('one owner', 'nobody'))
