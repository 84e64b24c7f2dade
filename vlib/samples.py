"""Sample values of every exported type, from the reference grammar: which
components are present, which alternative is chosen, how many elements; leaf
contents are concrete or symbolic.  A sample has two faces: DER octets (own
writer) and a value script for building it through the public API."""
from vlib import asn, der
from vlib.c01 import Layout, plan_of, choices       # noqa


WIDE = ('TeletexString', 'T61String', 'VideotexString', 'GraphicString', 'GeneralString', 'BMPString', 'UTF8String')


class Leaf(object):
    """content of one leaf: value is what the API takes, body the DER content
    octets (ints or 'b<bits>+<offset>:name' for symbolic octets)"""
    def __init__(self, value, body):
        self.value, self.body = value, body


def leaf(n, path, avoid, symbolic):
    from vlib.run import Oct, Text, Sum
    k = n.kind
    vals = der.values(n.cons)
    if symbolic and not vals:
        if k == 'OCTET STRING' or k == 'ANY':
            body = der.leaf_body(n, avoid) if k != 'ANY' else None
            if body:
                out = ['8+0:%s.%d' % (path, i) if i < 4 else b for i, b in enumerate(body)]
                return Leaf(Oct(out), out)
        if k in asn.STRINGS and k not in ('GeneralizedTime', 'UTCTime') and not any(c[0] == 'FROM' for c in der.flat(n.cons)):
            body = der.leaf_body(n, avoid)
            w = der.CHAR_WIDTH.get(k, 1)
            if body and k not in ('UniversalString',):
                cnt = len(body) // w
                chars = ['7+0:%s.%d' % (path, i) if i < 3 else body[i * w + w - 1] for i in range(cnt)]
                if k == 'NumericString':
                    chars = ['3+48:%s.%d' % (path, i) if i < 3 else 0x31 for i in range(cnt)]
                if cnt > 1 and k in WIDE:
                    chars[-1] = 0xe9    # beyond ASCII as well
                out = []
                for c in chars:
                    out += [0] * (w - 1) + [c]
                if k == 'UTF8String' and cnt > 1:
                    out[-1:] = [0xc3, 0xa9]
                return Leaf(Text(chars), out)
        if k in ('INTEGER', 'ENUMERATED'):
            # 0..127 or a smaller power-of-two block inside the permitted range
            for bits, lo in ((7, 0), (6, 64), (5, 0), (4, 0), (3, 1), (2, 1), (1, 1), (1, 0)):
                hi = lo + (1 << bits) - 1
                if bits < 6 and symbolic != 'all':
                    continue
                if permitted(n.cons, lo, hi) and not (avoid is not None and lo <= avoid <= hi):
                    s = '%d+%d:%s' % (bits, lo, path)
                    return Leaf(Sum(s), [s])
        if k == 'OBJECT IDENTIFIER':
            s = '6+64:%s' % path
            return Leaf((1, 2, Sum(s)), [42, s])
        if k == 'BOOLEAN' and avoid is None:
            return Leaf(Sum('1+0:' + path), ['1*255:' + path])
    if k == 'ANY':
        return Leaf(b'\x05\x00', [5, 0])
    body = der.leaf_body(n, avoid)
    return Leaf(apivalue(n, body), body)


def permitted(cons, lo, hi):
    return all(der.int_ok(cons, v) for v in range(lo, hi + 1))


def apivalue(n, body):
    k = n.kind
    b = bytes(body)
    if k in ('INTEGER', 'ENUMERATED'):
        return int.from_bytes(b, 'big', signed=True)
    if k == 'BOOLEAN':
        return 1 if b != b'\0' else 0
    if k == 'NULL':
        return ''
    if k == 'OBJECT IDENTIFIER':
        return tuple(oid_of(b))
    if k == 'BIT STRING':
        nb = 8 * (len(b) - 1) - b[0]
        v = int.from_bytes(b[1:], 'big') >> b[0]
        return tuple((v >> (nb - 1 - i)) & 1 for i in range(nb))
    if k in ('OCTET STRING', 'ANY'):
        return b
    if k == 'REAL':
        return 1
    w = der.CHAR_WIDTH.get(k, 1)
    if k == 'UTF8String':
        return b.decode('utf8')
    return ''.join(chr(int.from_bytes(b[i:i + w], 'big')) for i in range(0, len(b), w))


def oid_of(b):
    vals = []
    v = 0
    for x in b:
        v = v << 7 | x & 127
        if x < 128:
            vals.append(v)
            v = 0
    first = min(vals[0] // 40, 2)
    return [first, vals[0] - 40 * first] + vals[1:]


class Sample(object):
    __slots__ = ('label', 'nodes', 'script', 'leaves')


class Maker(object):
    """samples of one type"""
    def __init__(self, w, boundary, t):
        self.w, self.t = w, t
        self.boundary = boundary
        self.ref = w.ref
        self.over = {}          # path -> Leaf to use there

    def make(self, plan, symbolic=None, budget=6, label='', edge=None):
        """symbolic: None, True (cheap leaves), 'all'; at most budget symbolic leaves"""
        s = der.Sampler(self.ref, self.boundary)
        self.edge = s.edge = edge or der.border
        self.left = budget
        out = Sample()
        out.label = label
        out.leaves = {}
        self.bodies = s.bodies
        out.script = self.script(self.t, plan, '', True, None, symbolic, out)
        out.nodes = s.tlv(self.t, plan)
        return out

    def script(self, t, plan, path, local, avoid, symbolic, out, depth=0):
        n = self.ref.norm(t)
        k = n.kind
        if depth > 60:
            raise ValueError('too deep')
        if k == 'CHOICE':
            c = n.comps[plan(path, 'alt', n.comps)]
            p = path + '/' + c.name
            return ['C', c.name, self.sub(c.type, plan, p, local, None, symbolic, out, depth)]
        if k in ('SEQUENCE', 'SET'):
            kids = []
            for c in der.present(n, plan, path):
                p = path + '/' + c.name
                av = c.default[1] if c.mode == 'DEFAULT' and c.default[0] in ('int', 'bool') else None
                kids.append([c.name, self.sub(c.type, plan, p, local, av, symbolic, out, depth)])
            return ['S', kids]
        if k in ('SEQUENCE OF', 'SET OF'):
            kids = []
            for i in range(plan(path, 'count', n)):
                p = '%s/%d' % (path, i)
                if n.elem is None:
                    kids.append(['V', b'\x05\x00'])
                else:
                    kids.append(self.sub(n.elem, plan, p, local, None, None if k == 'SET OF' and i else symbolic, out, depth))
            return ['L', kids]
        sym = symbolic if self.left > 0 and local else None
        lf = self.over.get(path) or leaf(n, path, avoid, sym)
        if any(type(x) is str for x in lf.body):
            self.left -= 1
        self.bodies[path] = lf.body
        out.leaves[path] = lf
        return ['V', lf.value]

    def sub(self, t, plan, p, local, av, symbolic, out, depth):
        loc = local and not self.boundary(t, p)
        if loc:
            return self.script(t, plan, p, local, av, symbolic, out, depth + 1)
        return self.script(t, self.edge, p, False, None, None, out, depth + 1)


def plans(mk, light=False):
    """(label, plan, plan of what lies across the boundary) for a type"""
    s = der.Sampler(mk.ref, mk.boundary)
    yield 'full', der.full, None
    w = mk.w
    opts, alts, counts = choices(w, s, mk.t, der.full)
    met = list(s.met)
    if opts:
        yield 'minimal', der.minimal, None
    for p in opts:
        yield 'only ' + p, plan_of(der.minimal, {p: {'opt': True}}), None
        if not light:
            yield 'without ' + p, plan_of(der.full, {p: {'opt': False}}), None
    for p, k in alts:
        for i in range(1, k):
            yield 'alternative %s=%d' % (p, i), plan_of(der.full, {p: {'alt': i}}), None
    for p, n in counts:
        for c in (0, 2):
            if der.size_ok(n.cons, c):
                yield '%d elements at %s' % (c, p), plan_of(der.full, {p: {'count': c}}), None
    # collections across the boundary: empty ones are where their own size
    # limit and the optionality of the component meet
    for p, n in met:
        if n.kind in ('SEQUENCE OF', 'SET OF') and der.size_ok(n.cons, 0):
            yield '0 elements across at ' + p, der.full, plan_of(der.border, {p: {'count': 0}})


def all_samples(w, symbolic=True, budget=6, light=False, only=None, missing=None):
    """(ref, Maker, Sample) over every exported type"""
    lay = Layout(w)
    for ref in w.distinct():
        if only and ref not in only:
            continue
        try:
            robj = w.real_obj(ref)
        except Exception:       # noqa
            if missing is not None:
                missing.append(ref)
            continue
        t = w.ref.lookup(ref)
        mk = Maker(w, lay.boundary_for(ref, t, robj), t)
        seen = set()
        for label, plan, edge in plans(mk, light):
            s = mk.make(plan, symbolic, budget, label, edge)
            o = tuple(der.octets(s.nodes))
            if o in seen:
                continue
            seen.add(o)
            yield ref, mk, s
