"""C15 successive editions of the same structure interoperate."""
from vlib import asn, der, samples
from vlib.c01 import Layout
from vlib.ops import op, decode, conj, Lib, CONTAINERS
from vlib.run import Task, Oct, Int, Report, run_all

FAMILIES = (('rfc2459', 'rfc3280', 'rfc5280'), ('rfc3852', 'rfc5652'), ('rfc2560', 'rfc6960'), ('rfc2437', 'rfc3447', 'rfc8017'),
            ('rfc2314', 'rfc2986'), ('rfc2511', 'rfc4211'), ('rfc3281', 'rfc5755'), ('rfc2634', 'rfc5035'), ('rfc5208', 'rfc5958'))
# structures an edition renamed
RENAMED = ((('rfc2459', 'CRLDistPointsSyntax'), ('rfc3280', 'CRLDistributionPoints')), (('rfc2459', 'CRLDistPointsSyntax'), ('rfc5280', 'CRLDistributionPoints')),
           (('rfc5208', 'PrivateKeyInfo'), ('rfc5958', 'OneAsymmetricKey')))


def contents(t, out):
    """leaf contents, in the order of the structure"""
    if t[0] in CONTAINERS:
        for _, x in t[1] or ():
            contents(x, out)
    else:
        out.append(t[1])
    return out


def equal(a, b):
    a, b = contents(a[1], []), contents(b[1], [])
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if type(x) is tuple or type(y) is tuple:
            if type(x) is not type(y) or len(x) != len(y):
                return False
            out += [p == q for p, q in zip(x, y)]
        elif x is None or y is None:
            out.append(x is y)
        else:
            out.append(x == y)
    return out


def yes(c):
    c = conj(c)
    return c if type(c) is bool else bool(c)


@op
def interoperate(w, one, two, octets):
    """what the published editions both accept alike, the package's editions
    both accept alike"""
    ra, _ = decode(w.ref_obj(one), octets)
    rb, _ = decode(w.ref_obj(two), octets)
    if ra[0] != 'ok' or rb[0] != 'ok' or len(ra[2]) != len(rb[2]) or not yes(equal(ra, rb)):
        return True, ('not shared',)
    a, _ = decode(w.real_obj(one), octets)
    b, _ = decode(w.real_obj(two), octets)
    if a[0] != 'ok' or b[0] != 'ok' or len(a[2]) != len(b[2]):
        return False, (a, b)
    return conj(equal(a, b)), ('shared', a, b)


def constants(w, one, two):
    """OID constants both editions publish -> (name, value, value, meant alike)"""
    L = Lib()
    out = []
    for n in sorted(set(w.ref.mods[one].oids) & set(w.ref.mods[two].oids)):
        v = []
        for m in (one, two):
            x = getattr(w.real[m], n, None)
            v.append(tuple(x) if isinstance(x, L.univ.ObjectIdentifier) and x.isValue else None)
        out.append((n, v[0], v[1], w.ref.mods[one].oids[n] == w.ref.mods[two].oids[n]))
    return out


@op
def same_names(w, one, two, arcs):
    """an OID goes by the same names in both editions"""
    cs = [c for c in constants(w, one, two) if c[3]]
    a = [n for n, x, y, _ in cs if x is not None and len(x) == len(arcs) and x == tuple(arcs)]
    b = [n for n, x, y, _ in cs if y is not None and len(y) == len(arcs) and y == tuple(arcs)]
    return a == b, ('named' if a else 'nobody', a, b)


def pairs(w):
    for f in FAMILIES:
        for i in range(len(f)):
            for j in range(i + 1, len(f)):
                for n in w.ref.mods[f[i]].types:
                    if n in w.ref.mods[f[j]].types:
                        yield (f[i], n), (f[j], n)
    for p in RENAMED:
        yield p


def tasks(w, tier):
    out = []
    lay = Layout(w)
    made = {}

    def inputs(ref):
        if ref not in made:
            res = []
            t = w.ref.lookup(ref)
            mk = samples.Maker(w, lay.boundary_for(ref, t, w.real_obj(ref)), t)
            seen = set()

            def add(label, o):
                if tuple(o) not in seen:
                    seen.add(tuple(o))
                    res.append((label, o))
            for label, plan, edge in samples.plans(mk):
                s = mk.make(plan, True if tier == 'quick' else 'all', 6 if tier == 'quick' else 40, label, edge)
                add(label, der.octets(s.nodes))
                if label in ('full', 'minimal') or label.startswith('only') or tier == 'thorough':
                    s = mk.make(plan, None, 0, label, edge)
                    for x in [x for n in s.nodes for x in n.walk() if x.local and (label in ('full', 'minimal') or label.endswith(x.path) or tier == 'thorough')]:
                        add('%s @%s' % (label, x.path), der.octets(s.nodes, {id(x): ['t'] if x.num < 31 else [x.ident()[0], 't']}))
            made[ref] = res
        return made[ref]
    for one, two in pairs(w):
        try:
            if w.real_attr(one) is w.real_attr(two) and w.ref.final(one) == w.ref.final(two):
                continue
            both = inputs(one) + inputs(two)
        except (KeyError, AttributeError):
            for ref in (one, two):
                out.append(Task('exists', {'ref': ref}, '%s.%s exists' % ref))
            continue
        seen = set()
        for label, o in both:
            if tuple(o) not in seen:
                seen.add(tuple(o))
                out.append(Task('interoperate', {'one': one, 'two': two, 'octets': Oct(o)}, '%s.%s %s.%s %s' % (one + two + (label,))))
    for f in FAMILIES:
        for i in range(len(f)):
            for j in range(i + 1, len(f)):
                cs = constants(w, f[i], f[j])
                for k in sorted({len(x) for c in cs for x in c[1:3] if x} | {len(w.ref.mods[f[i]].oids[c[0]]) for c in cs}):
                    out.append(Task('same_names', {'one': f[i], 'two': f[j], 'arcs': tuple(Int('a%d' % q, 0, None) for q in range(k))},
                                    '%s %s OIDs of %d arcs' % (f[i], f[j], k)))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C15', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['pairs'] = len({(t.args['one'], t.args['two']) for t in ts if t.op == 'interoperate'})
    rep.assumptions = ['an encoding is shared when the two published editions (reference grammar) accept it with the same leaf contents',
                       'pyasn1 0.5.1 as installed']
    return rep.finish({'structures': 'every type two editions of a family export under one name, and the renamed ones',
                       'encodings': 'samples of either edition with up to 6 symbolic leaves; one symbolic identifier octet at each header',
                       'outside': 'samples of other shapes; editions not listed in the property'},
                      must_see=('shared', 'named'))
