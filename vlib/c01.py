"""C01 decoders accept exactly the published grammar.

For every exported type: DER samples generated from the reference grammar
(every component present, each optional one absent, only required ones, each
required one dropped, each alternative, several element counts, duplicated and
foreign trailing components); one identifier octet at a time is symbolic.  The
real type and the reference type decode the same octets and must agree."""
from vlib import asn, der
from vlib.run import Task, Oct, Int, Report, run_all


class Layout(object):
    """which parts of a sample belong to the type under test and which are
    another exported type's, itself under test"""
    def __init__(self, w):
        self.w = w
        self.canon = w.canonical()

    def boundary_for(self, ref, t, robj):
        objs = {'': robj}
        w = self.w

        def find(path):
            """real schema object at path, None if the structure differs"""
            if path in objs:
                return objs[path]
            parent, name = path.rsplit('/', 1)
            p = find(parent)
            o = None
            if p is not None:
                ct = getattr(p, 'componentType', None)
                try:
                    if name.isdigit() and not hasattr(ct, 'namedTypes'):
                        o = ct
                    else:
                        for nt in ct.namedTypes:
                            if nt.name == name:
                                o = nt.asn1Object
                except AttributeError:
                    o = None
            objs[path] = o
            return o

        def boundary(t, path):
            if t.kind != 'REF':
                return False
            n = w.ref.norm(t)
            if n.kind not in asn.CONSTRUCTED and n.kind != 'CHOICE':
                return False
            o = find(path)
            if o is None:
                return False
            key = (id(getattr(o, 'componentType', None)), getattr(o, 'typeId', None))
            return key in self.canon.get(w.ref.final(t.ref), ())
        return boundary


def plan_of(default, over):
    """default plan with exceptions {path: value}"""
    def plan(path, what, x):
        if path in over:
            v = over[path]
            if what in v:
                return v[what]
        return default(path, what, x)
    return plan


def choices(w, s, t, plan):
    """optional components, choices and element counts met under plan"""
    opts, alts, counts = [], [], []

    def rec(path, what, x):
        r = plan(path, what, x)
        if what == 'opt':
            opts.append(path)
        elif what == 'alt':
            alts.append((path, len(x)))
        else:
            counts.append((path, x))
        return r
    s.tlv(t, rec)
    return opts, alts, counts


def samples(w, lay, ref, t, robj, tier):
    """(label, nodes, sites) for a type: nodes is the TLV tree, sites the
    nodes whose identifier becomes symbolic (None: all local ones)"""
    s = der.Sampler(w.ref, lay.boundary_for(ref, t, robj))
    out = []
    nodes = s.tlv(t, der.full)
    out.append(('full', nodes, None))
    opts, alts, counts = choices(w, s, t, der.full)
    opts = [o for o in opts]
    if opts:
        nodes = s.tlv(t, der.minimal)
        out.append(('minimal', nodes, None))
    for p in opts:
        base = plan_of(der.full, {p: {'opt': False}})
        nodes = s.tlv(t, base)
        # identifier of whatever follows the gap
        out.append(('without ' + p, nodes, following(nodes, p, w, t)))
        nodes = s.tlv(t, plan_of(der.minimal, {p: {'opt': True}}))
        out.append(('only ' + p, nodes, [x for n in nodes for x in n.walk() if x.path == p][:1]))
    for p, k in alts:
        for i in range(1, k):
            nodes = s.tlv(t, plan_of(der.full, {p: {'alt': i}}))
            sites = [x for n in nodes for x in n.walk() if x.local and (x.path == p or x.path.startswith(p + '/'))]
            out.append(('alternative %s=%d' % (p, i), nodes, sites if tier == 'thorough' or k <= 6 else sites[-1:] if i not in (1, k - 1) else sites))
    for p, n in counts:
        for c in (0, 2):
            nodes = s.tlv(t, plan_of(der.full, {p: {'count': c}}))
            out.append(('%d elements at %s' % (c, p), nodes, []))
    return out


def following(nodes, p, w, t):
    parent, name = p.rsplit('/', 1)
    # nodes that sit directly in the same container
    for n in nodes:
        for x in n.walk():
            if x.kids and x.path == parent and not any(k.path == parent for k in x.kids):
                return [k for k in x.kids if k.local][:1] if False else next_after(x.kids, p, w, t)
    return []


def next_after(kids, p, w, t):
    comps = comps_at(w, t, p.rsplit('/', 1)[0])
    if not comps:
        return []
    names = [c.name for c in comps]
    name = p.rsplit('/', 1)[1]
    if name not in names:
        return []
    after = set(names[names.index(name) + 1:])
    for k in kids:
        if k.local and k.path.rsplit('/', 1)[-1] in after:
            return [k]
    return []


def comps_at(w, t, path):
    for name in path.split('/')[1:]:
        n = w.ref.norm(t)
        if n.kind.endswith(' OF'):
            t = n.elem
            continue
        for c in n.comps or ():
            if c.name == name:
                t = c.type
                break
        else:
            return None
    return w.ref.norm(t).comps


def mutants(nodes):
    """well-formed inputs the grammar may not allow: for each local
    constructed node each child dropped, each duplicated, a foreign one
    appended or put first"""
    for n in nodes:
        for x in n.walk():
            if not x.local or not x.kids:
                continue
            kids = x.kids
            for i in range(len(kids)):
                yield x, kids[:i] + kids[i + 1:], 'drop %d' % i
                yield x, kids[:i] + [kids[i], kids[i]] + kids[i + 1:], 'dup %d' % i
            for i in range(len(kids) - 1):
                yield x, kids[:i] + [kids[i + 1], kids[i]] + kids[i + 2:], 'swap %d' % i


def tasks(w, tier, only=None):
    out = []
    lay = Layout(w)
    for ref in w.distinct():
        if only and ref not in only:
            continue
        name = '%s.%s' % ref
        try:
            robj = w.real_obj(ref)
        except Exception:       # noqa
            out.append(Task('exists', {'ref': ref}, name + ' exists'))
            continue
        t = w.ref.lookup(ref)
        seen = set()
        for label, nodes, sites in samples(w, lay, ref, t, robj, tier):
            plain = der.octets(nodes)
            k = bytes(plain)
            if k not in seen:
                seen.add(k)
                if not sites and sites is not None:
                    out.append(Task('decode_same', {'ref': ref, 'octets': Oct(plain)}, '%s %s' % (name, label)))
            if sites is None:
                sites = [x for n in nodes for x in n.walk() if x.local]
            for x in sites:
                v = der.octets(nodes, {id(x): ['t']}) if x.num < 31 else der.octets(nodes, {id(x): [x.ident()[0], 't']})
                key = tuple(v)
                if key in seen:
                    continue
                seen.add(key)
                out.append(Task('decode_same', {'ref': ref, 'octets': Oct(v)}, '%s %s @%s' % (name, label, x.path)))
            if label in ('full', 'minimal'):
                muts = []
                for x, kids, what in mutants(nodes):
                    old = x.kids
                    x.kids = kids
                    v = der.octets(nodes)
                    x.kids = old
                    if bytes(v) not in seen:
                        seen.add(bytes(v))
                        muts.append(v)
                # a foreign component of symbolic identifier at the end of each constructed node
                for x in [y for n in nodes for y in n.walk() if y.local and y.kids is not None]:
                    old = x.kids
                    f = der.Node(0, 5, False, None, [], '+', True, None, 0)
                    x.kids = old + [f]
                    v = der.octets(nodes, {id(f): ['t']})
                    x.kids = old
                    if tuple(v) not in seen:
                        seen.add(tuple(v))
                        out.append(Task('decode_same', {'ref': ref, 'octets': Oct(v)}, '%s %s + foreign component at %s' % (name, label, x.path)))
                for i in range(0, len(muts), 12):
                    part = [bytes(v) for v in muts[i:i + 12]]
                    out.append(Task('decode_same_any', {'ref': ref, 'inputs': part, 'which': Int('which', 0, len(part) - 1)},
                                    '%s %s edits %d' % (name, label, i)))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C01', tier, seed)
    w = world.World(True)
    ts = tasks(w, tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.extra['types'] = len({t.args['ref'] for t in ts})
    rep.assumptions = ASSUME
    return rep.finish(BOUNDS, must_see=('ok', 'rejected'))


BOUNDS = {'identifier octet': 'one symbolic octet (256 values) per input, at each header position local to the type',
          'samples per type': 'all components, required only, each optional absent / alone, each alternative, 0/1/2 elements, '
                              'each child dropped / duplicated / swapped, one foreign trailing component with symbolic identifier',
          'outside': 'several corrupted identifiers at once; lengths and content (C19, C03); types nested below another exported '
                     'type are checked under that type'}
ASSUME = ['pyasn1 0.5.1 as installed is the codec for both sides; its quirks cancel out',
          "the decoder's tag caches are stubbed to miss on every lookup (they only save time)",
          'reference grammar /verif/ref/*.asn: written from the RFCs, see DESIGN.md']
