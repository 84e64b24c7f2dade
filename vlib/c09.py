"""C09 published object identifiers and bounds have their assigned values."""
from vlib import ops
from vlib.run import Task, Int, Report, run_all


def tasks(w, tier, only=None):
    out = []
    for mod in sorted(w.ref.mods):
        if mod not in w.real or (only and mod not in only):
            continue
        m = w.ref.mods[mod]
        got, want, gi, wi = ops.labels(w, mod)
        sizes = sorted({len(v) for v in list(want.values()) + [x for x in got.values() if x]})
        for k in sizes:
            out.append(Task('oid_lookup', {'mod': mod, 'arcs': tuple(Int('a%d' % i, 0, None) for i in range(k))}, '%s OIDs of %d arcs' % (mod, k)))
        if wi:
            out.append(Task('int_lookup', {'mod': mod, 'v': Int('v')}, '%s numbers' % mod))
        ps = sorted(m.presets)
        if ps:
            out.append(Task('preset', {'mod': mod, 'names': ps, 'which': Int('which', 0, len(ps) - 1)}, '%s presets' % mod))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C09', tier, seed)
    w = world.World(True)
    for m, e in w.failed.items():
        rep.violations.append({'op': 'import', 'args': {'module': m}, 'observed': e, 'key': 'import ' + m})
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['constants'] = sum(len(m.oids) + len(m.ints) for m in w.ref.mods.values())
    rep.extra['preset_values'] = sum(len(m.presets) for m in w.ref.mods.values())
    rep.assumptions = ['assigned values in /verif/ref/*.asn, cross-checked against the OID table of the installed OpenSSL (tools/audit.py)']
    return rep.finish({'OIDs': 'every arc tuple of each length in use, arcs unbounded', 'numbers': 'every integer, unbounded',
                       'outside': 'constants the reference does not list'}, must_see=('named', 'nobody'))
