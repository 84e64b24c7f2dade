"""C03 decoding then re-encoding is lossless."""
from vlib import der, samples
from vlib.run import Task, Oct, Report, run_all


def tasks(w, tier, only=None):
    out = []
    missing = []
    for ref, mk, s in samples.all_samples(w, True if tier == 'quick' else 'all', 6 if tier == 'quick' else 40, only=only, missing=missing):
        name, sub = der.finding(s.nodes)
        alt = [name, Oct(der.octets(s.nodes, sub))] if name else None
        out.append(Task('lossless', {'ref': ref, 'octets': Oct(der.octets(s.nodes)), 'alt': alt},
                        '%s.%s %s' % (ref + (s.label,))))
    for ref in missing:
        out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C03', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['types'] = len({t.args['ref'] for t in ts})
    rep.assumptions = ['pyasn1 0.5.1 as installed; a sample the reference type itself cannot encode is compared relationally',
                       'reference grammar /verif/ref/*.asn']
    return rep.finish({'leaf contents': 'up to 6 symbolic leaves per sample: octets 0..255, characters 0..127 (and U+00E9), integers 64..127, OID arcs 64..127; '
                                        'other leaves one concrete permitted value',
                       'samples per type': 'all components, required only, each optional alone / left out, each alternative, 0/1/2 elements, collections across the boundary empty',
                       'outside': 'longer contents, REAL, values of types nested below another exported type (checked under it)'},
                      must_see=('same',))
