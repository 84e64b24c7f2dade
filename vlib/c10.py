"""C10 open types resolve to the type registered for the governing value."""
from vlib import pos
from vlib.run import Task, Int, Report, run_all


def keys(w, mp, d):
    """templates of governing values: every length in use on either side"""
    sizes = {len(k) if type(k) is tuple else 0 for k in w.ref.writers.get(mp, {})}
    for k in d or ():
        try:
            sizes.add(len(k) if type(k).__name__ == 'ObjectIdentifier' else 0)
        except Exception:       # noqa
            pass
    for s in sorted(sizes or {4}):
        yield s, tuple(Int('a%d' % i, 0) for i in range(s)) if s else Int('key')


def tasks(w, tier, only=None):
    from vlib import ops
    out = []
    done = {}
    n = Int('n', 0, 70000)
    for mod in sorted(w.ref.mods):
        if mod not in w.real:
            continue
        for name, mp in sorted(w.ref.mods[mod].maps.items(), key=lambda x: (x[1] != (mod, x[0]), x)):
            d = ops.real_table(w, (mod, name))
            if d is not None and done.get(id(d)) == mp:
                continue
            done[id(d)] = mp
            for s, key in keys(w, mp, d):
                out.append(Task('table_resolves', {'mod': mod, 'name': name, 'mp': mp, 'key': key, 'n': n},
                                '%s.%s keys of %d arcs' % (mod, name, s), seconds=600))
    # as the importer of a single module sees them
    for mp, ks in sorted(w.ref.writers.items()):
        by = {}
        for k, ts in ks.items():
            for m, t in ts:
                by.setdefault((m, len(k) if type(k) is tuple else 0), []).append(k)
        for m, size in sorted(by):
            if m in w.real:
                key = tuple(Int('a%d' % i, 0) for i in range(size)) if size else Int('key')
                out.append(Task('alone_resolves', {'mod': m, 'mp': mp, 'key': key, 'n': n},
                                '%s alone: %s.%s keys of %d arcs' % (m, mp[0], mp[1], size)))
    for ref, path, t, nn, c in pos.positions(w, only):
        if path is None or c is None:
            continue
        parent, _ = pos.norm_at(w.ref, ref, path.rsplit('/', 1)[0])
        if parent.kind not in ('SEQUENCE', 'SET'):
            continue
        key = '%s.%s%s' % (ref + (path,))
        if not c.by:
            if nn.kind in ('ANY', 'OCTET STRING') or nn.kind.endswith(' OF'):
                out.append(Task('not_open', {'ref': ref, 'path': path}, key + ' closed'))
            continue
        mp = w.ref.mods[c.by[1][0]].maps.get(c.by[1][1], c.by[1])
        d = None
        try:
            p = pos.at(w.real_obj(ref), path.rsplit('/', 1)[0])
            nt = [x for x in p.componentType.namedTypes if x.name == c.name][0]
            d = getattr(nt.openType, '_OpenType__typeMap', None)
        except (pos.Missing, AttributeError, IndexError):
            pass
        if d is not None and done.get(id(d)) == mp:
            out.append(Task('field_resolves', {'ref': ref, 'path': path, 'mp': mp, 'key': None, 'n': n}, key + ' table'))
        else:
            for s, k in keys(w, mp, d):
                out.append(Task('field_resolves', {'ref': ref, 'path': path, 'mp': mp, 'key': k, 'n': n}, '%s keys of %d arcs' % (key, s)))
    out.sort(key=lambda t: t.op != 'table_resolves')
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C10', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['tables'] = len({(t.args['mod'], t.args['name']) for t in ts if 'name' in t.args})
    rep.extra['fields'] = len({(t.args['ref'], t.args['path']) for t in ts if 'ref' in t.args})
    rep.assumptions = ['reference tables in /verif/ref/*.asn', 'every module of the package imported; and every module by itself',
                       'a type published under the name the reference gives is the right one (its content is checked under C01-C08)']
    return rep.finish({'keys': 'every OID of each length in use, arcs unbounded; every integer for tables keyed by integers',
                       'types without a published name': 'structure exactly, limits for every size 0..70000'}, must_see=('type', 'nothing', 'same table', 'of others'))
