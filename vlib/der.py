"""DER from the reference grammar: writes TLV trees for values described by
choices of presence/alternative/leaf content.  Independent of pyasn1."""
from vlib import asn


class Node(object):
    __slots__ = ('cls', 'num', 'cons', 'kids', 'body', 'path', 'local', 'norm', 'level')

    def __init__(self, cls, num, cons, kids, body, path, local, norm, level):
        self.cls, self.num, self.cons = cls, num, cons
        self.kids, self.body = kids, body
        self.path, self.local, self.norm, self.level = path, local, norm, level

    def ident(self):
        first = self.cls | (32 if self.cons else 0)
        if self.num < 31:
            return [first | self.num]
        out = []
        n = self.num
        while True:
            out.insert(0, (n & 127) | (128 if out else 0))
            n >>= 7
            if not n:
                break
        return [first | 31] + out

    def render(self, subst=None):
        """list of octets; subst maps id(node) -> list replacing the identifier octets"""
        if self.kids is not None:
            body = []
            for k in self.kids:
                body += k.render(subst)
        else:
            body = list(self.body)
        idn = self.ident()
        if subst and id(self) in subst:
            idn = subst[id(self)]
        return list(idn) + length(len(body)) + body

    def walk(self):
        yield self
        for k in self.kids or ():
            for x in k.walk():
                yield x


class Raw(object):
    """octets placed verbatim"""
    local = False
    kids = None
    path = ''

    def __init__(self, octets):
        self.octets = list(octets)
        self.cls, self.num = self.octets[0] & 0xc0, self.octets[0] & 31

    def render(self, subst=None):
        return list(self.octets)

    def walk(self):
        return iter(())


def length(n):
    if n < 128:
        return [n]
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return [128 | len(b)] + list(b)


def int_body(v):
    n = max(1, (v.bit_length() + 8) // 8)
    if v < 0:
        n = max(1, ((v + 1).bit_length() + 8) // 8)
    return list(v.to_bytes(n, 'big', signed=True))


def oid_body(arcs):
    out = []
    vals = [arcs[0] * 40 + arcs[1]] + list(arcs[2:])
    for v in vals:
        b = [v & 127]
        v >>= 7
        while v:
            b.insert(0, (v & 127) | 128)
            v >>= 7
        out += b
    return out


def bits_body(value, n):
    """n-bit string given as an int, most significant bit first"""
    pad = (-n) % 8
    return [pad] + list((value << pad).to_bytes((n + pad) // 8, 'big'))


CHAR_WIDTH = {'BMPString': 2, 'UniversalString': 4}


def text_body(kind, s):
    w = CHAR_WIDTH.get(kind, 1)
    if kind == 'UTF8String':
        return list(s.encode('utf-8'))
    out = []
    for c in s:
        out += list(ord(c).to_bytes(w, 'big'))
    return out


# -- permitted values ------------------------------------------------------

def flat(cons):
    for c in cons:
        if c[0] == 'ALL':
            for x in flat(c[1]):
                yield x
        else:
            yield c


def size_ok(cons, n):
    for c in flat(cons):
        if c[0] == 'SIZE':
            if (c[1] is not None and n < c[1]) or (c[2] is not None and n > c[2]):
                return False
        elif c[0] == 'UNION':
            if any(x[0] == 'SIZE' for x in c[1]) and not any(size_ok([x], n) for x in c[1]):
                return False
    return True


def combo_ok(cons, names):
    """may exactly these components be present together?"""
    for c in cons:
        if c[0] == 'SIZE':
            if (c[1] is not None and len(names) < c[1]) or (c[2] is not None and len(names) > c[2]):
                return False
        elif c[0] == 'WITH':
            if not all((n in names) == (p == 'PRESENT') for n, p in c[1]):
                return False
        elif c[0] == 'UNION':
            if not any(combo_ok([x], names) for x in c[1]):
                return False
        elif c[0] == 'ALL':
            if not combo_ok(c[1], names):
                return False
    return True


def present(n, plan, path):
    """components of n present under plan, changed as little as needed for a
    combination the constraints permit"""
    on = [c.name for c in n.comps or () if not c.mode or plan(path + '/' + c.name, 'opt', c)]
    if n.cons and not combo_ok(n.cons, on):
        import itertools
        opt = [c.name for c in n.comps if c.mode]
        for k in range(1, len(opt) + 1):
            for flip in itertools.combinations(opt, k):
                s = set(on) ^ set(flip)
                if combo_ok(n.cons, s):
                    return [c for c in n.comps if c.name in s]
        raise ValueError('no permitted combination at ' + path)
    return [c for c in n.comps or () if c.name in on]


def some_size(cons, want):
    """a permitted size close to want"""
    for d in range(0, 5000):
        if size_ok(cons, want + d):
            return want + d
        if want - d >= 0 and size_ok(cons, want - d):
            return want - d
    raise ValueError('no permitted size in %r' % (cons,))


def values(cons):
    """explicit value list or None"""
    for c in flat(cons):
        if c[0] == 'VALUES':
            return c[1]
        if c[0] == 'UNION':
            out = []
            for x in c[1]:
                v = values([x])
                if v:
                    out += v
            if out:
                return out
    return None


def int_ok(cons, v):
    for c in flat(cons):
        if c[0] == 'RANGE':
            if (c[1] is not None and v < c[1]) or (c[2] is not None and v > c[2]):
                return False
        elif c[0] == 'VALUES':
            if not any(x[0] == 'int' and x[1] == v for x in c[1]):
                return False
        elif c[0] == 'UNION':
            if not any(int_ok([x], v) for x in c[1]):
                return False
    return True


def some_int(n, avoid=None):
    cand = [v for _, v in n.names] + [5, 0, 1, 2, 3, -1]
    for c in flat(n.cons):
        if c[0] == 'RANGE':
            cand += [x for x in c[1:] if x is not None]
            cand += [x + 1 for x in c[1:2] if x is not None]
        if c[0] == 'VALUES':
            cand += [x[1] for x in c[1]]
    for v in cand:
        if v != avoid and int_ok(n.cons, v):
            return v
    return avoid


def leaf_body(n, avoid=None, variant=0):
    """content octets of a permitted value of leaf type n (Norm)"""
    k = n.kind
    vals = values(n.cons)
    if k in ('INTEGER', 'ENUMERATED'):
        return int_body(some_int(n, avoid))
    if k == 'BOOLEAN':
        return [0x00] if avoid is True else [0xff]
    if k == 'NULL':
        return []
    if k == 'OBJECT IDENTIFIER':
        return oid_body(vals[0][1] if vals else (1, 2, 3))
    if k == 'BIT STRING':
        size = some_size(n.cons, 4)
        return bits_body((0b1011 << max(0, size - 4)) & ((1 << size) - 1) if size else 0, size)
    if k == 'OCTET STRING':
        if vals:
            return list(vals[0][1] if vals[0][0] == 'hex' else vals[0][1].encode())
        return [0x61 + (i % 20) for i in range(some_size(n.cons, 2))]
    if k == 'REAL':
        return list(b'\x80\x00\x01')
    if k == 'GeneralizedTime':
        return list(b'20200101000000Z')
    if k == 'UTCTime':
        return list(b'200101000000Z')
    if k in asn.STRINGS:
        if vals:
            return text_body(k, vals[0][1])
        ch = '1' if k == 'NumericString' else 'a'
        for c in flat(n.cons):
            if c[0] == 'FROM':
                ch = c[1][0]
        return text_body(k, ch * some_size(n.cons, 2))
    raise ValueError(k)


class Sampler(object):
    """TLV trees for reference types.

    plan: callable(path, what, options) deciding presence ('opt': bool),
    alternatives ('alt': index) and number of elements ('count')."""

    def __init__(self, ref, boundary=None):
        self.ref = ref
        self.boundary = boundary or (lambda t, path: False)
        self.bodies = {}        # path -> content octets of that leaf
        self.order = True
        self.edge = border      # plan of the values across the boundary
        self.met = []           # (path, kind) of those values

    def tlv(self, t, plan, path='', local=True, avoid=None, level=0):
        """list of Nodes for a value of T t"""
        n = self.ref.norm(t)
        k = n.kind
        level += 1
        if level > 60:
            raise ValueError('too deep at ' + path)
        if k == 'CHOICE':
            alts = n.comps or []
            i = plan(path, 'alt', alts)
            c = alts[i]
            p = path + '/' + c.name
            loc = local and not self.boundary(c.type, p)
            inner = self.tlv(c.type, plan, p, local, level=level) if loc else self.border(c.type, p, local, level)
        elif k == 'ANY':
            inner = [Raw(self.bodies.get(path, [5, 0]))]
        else:
            inner = None
        if inner is not None:
            for cls, num in reversed(n.tags):
                inner = [Node(cls, num, True, inner, None, path, local, n, level)]
            return inner
        if k in ('SEQUENCE', 'SET'):
            kids = []
            for c in present(n, plan, path):
                p = path + '/' + c.name
                loc = local and not self.boundary(c.type, p)
                av = c.default[1] if c.mode == 'DEFAULT' and c.default[0] in ('int', 'bool') else None
                sub = self.tlv(c.type, plan, p, local, av, level) if loc else self.border(c.type, p, local, level)
                kids.append((c, sub))
            if k == 'SET' and self.order:
                kids.sort(key=lambda cs: (cs[1][0].cls, cs[1][0].num))
            kids = [x for _, s in kids for x in s]
            body = None
        elif k in ('SEQUENCE OF', 'SET OF'):
            cnt = plan(path, 'count', n)
            kids = []
            for i in range(cnt):
                p = '%s/%d' % (path, i)
                if n.elem is None:
                    kids.append(Raw([5, 0]))
                    continue
                loc = local and not self.boundary(n.elem, p)
                if loc:
                    kids += self.tlv(n.elem, plan, p, local, level=level)
                else:
                    kids += self.border(n.elem, p, local, level)
            if k == 'SET OF' and self.order:
                kids.sort(key=lambda x: bytes(y if type(y) is int else 0 for y in x.render()))
            body = None
        else:
            kids = None
            body = self.bodies.get(path)
            if body is None:
                body = leaf_body(n, avoid)
        node = None
        for i, (cls, num) in reversed(list(enumerate(n.tags))):
            inn = i == len(n.tags) - 1
            if inn:
                node = Node(cls, num, k in asn.CONSTRUCTED, kids, body, path, local, n, level)
            else:
                node = Node(cls, num, True, [node], None, path, local, n, level)
        return [node]

    def border(self, t, path, local, level):
        """value of a type across the boundary: its own header is still
        local, what lies below is not"""
        nodes = self.tlv(t, self.edge, path, False, level=level)
        n = self.ref.norm(t)
        if local:
            self.met.append((path, n))
        node = nodes[0]
        if isinstance(node, Node):
            node.local = local
            depth = len(n.tags) - 1
            while depth > 0 and isinstance(node, Node) and node.kids:
                node = node.kids[0]
                if isinstance(node, Node):
                    node.local = local
                depth -= 1
        return nodes


def minimal(path, what, x):
    if what == 'opt':
        return False
    if what == 'alt':
        return 0
    return min_count(x)
MINIMAL = minimal


def border(path, what, x):
    """like minimal, but collections are not empty"""
    if what == 'count':
        return full(path, what, x)
    if what == 'opt' and x.first:
        return True
    return minimal(path, what, x)


def min_count(n):
    for d in range(0, 5000):
        if size_ok(n.cons, d):
            return d
    raise ValueError('no permitted size')


def full(path, what, x):
    if what == 'opt':
        return True
    if what == 'alt':
        return 0
    return max(1, min_count(x)) if size_ok(x.cons, max(1, min_count(x))) else min_count(x)


def finding(nodes):
    """(name, substitution) of the known finding that affects the tree"""
    sub = {}
    name = None
    for n in nodes:
        for x in n.walk():
            q = x.norm.quirk if x.norm is not None else None
            if q and x.kids is not None and len(x.kids) == 1 and isinstance(x.kids[0], Raw):
                name = q
                sub[id(x)] = [x.ident()[0] & ~32] + x.ident()[1:]
    return name, sub


def octets(nodes, subst=None):
    out = []
    for n in nodes:
        out += n.render(subst)
    return out
