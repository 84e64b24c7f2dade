"""Reference pyasn1 schema objects made from the reference grammar: the
baseline side of every relational check.  Works with plain and with
instrumented pyasn1 alike."""
from vlib import asn


class Builder(object):
    def __init__(self, ref):
        from pyasn1.type import univ, char, useful, constraint, namedtype, namedval, tag, opentype
        self.ref = ref
        self.u = univ
        self.c = constraint
        self.nt = namedtype
        self.nv = namedval
        self.tag = tag
        self.ot = opentype
        self.base = {'BOOLEAN': univ.Boolean, 'INTEGER': univ.Integer, 'BIT STRING': univ.BitString, 'OCTET STRING': univ.OctetString,
                     'NULL': univ.Null, 'OBJECT IDENTIFIER': univ.ObjectIdentifier, 'REAL': univ.Real, 'ENUMERATED': univ.Enumerated,
                     'ANY': univ.Any, 'SEQUENCE': univ.Sequence, 'SET': univ.Set, 'CHOICE': univ.Choice,
                     'SEQUENCE OF': univ.SequenceOf, 'SET OF': univ.SetOf, 'GeneralizedTime': useful.GeneralizedTime,
                     'UTCTime': useful.UTCTime, 'ObjectDescriptor': useful.ObjectDescriptor}
        for n in asn.STRINGS:
            if n not in self.base:
                self.base[n] = getattr(char, n)
        self.classes = {}
        self.busy = set()
        self.tables = {}
        self.filled = False

    # -- tables ------------------------------------------------------------
    def table(self, mp):
        m = self.ref.mods[mp[0]].maps.get(mp[1], mp)
        return self.tables.setdefault(m, {})

    def fill(self, modules=None):
        """complete the open type tables"""
        order = list(self.ref.mods.values())
        for m in order:
            if modules is not None and m.name not in modules:
                continue
            for mp, key, t in m.entries:
                k = self.u.ObjectIdentifier(key[1]) if key[0] == 'oid' else self.u.Integer(key[1])
                self.table(mp)[k] = self.obj(t)

    # -- types -------------------------------------------------------------
    def cls(self, ref):
        c = self.classes.get(ref)
        if c is not None:
            return c
        if ref in self.busy:
            raise ValueError('recursive type %s.%s' % ref)
        self.busy.add(ref)
        t = self.ref.lookup(ref)
        b, o = self.raw(t)
        attrs = {}
        inst = self.derive(o, t)
        if inst.tagSet is not b.tagSet:
            attrs['tagSet'] = inst.tagSet
        for a in ('componentType', 'namedValues', 'subtypeSpec'):
            if hasattr(inst, a) and getattr(inst, a) is not getattr(b, a, None):
                attrs[a] = getattr(inst, a)
        attrs['refName'] = ref
        c = type(b)(str(ref[1]), (b,), attrs)
        self.busy.discard(ref)
        self.classes[ref] = c
        return c

    def raw(self, t):
        if t.kind == 'REF':
            C = self.cls(t.ref)
            return C, C()
        C = self.base[t.kind]
        if t.kind in ('SEQUENCE', 'SET', 'CHOICE'):
            return C, C(componentType=self.named(t.comps)) if t.comps is not None else C()
        if t.kind in ('SEQUENCE OF', 'SET OF'):
            return C, C(componentType=self.obj(t.elem)) if t.elem is not None else C()
        return C, C()

    def derive(self, o, t):
        if t.names:
            kw = {'namedValues': self.nv.NamedValues(*t.names)}
            o = o.clone(**kw)
        for c in t.cons:
            o = o.subtype(subtypeSpec=self.con(c, o))
        for expl, cls, num in reversed(t.tags):
            if expl or not o.tagSet.superTags:
                o = o.subtype(explicitTag=self.tag.Tag(cls, self.tag.tagFormatConstructed, num))
            else:
                fmt = self.tag.tagFormatConstructed if self.ref.norm(t).kind in asn.CONSTRUCTED else self.tag.tagFormatSimple
                o = o.subtype(implicitTag=self.tag.Tag(cls, fmt, num))
        return o

    def obj(self, t):
        return self.derive(self.raw(t)[1], t)

    def named(self, comps):
        rows = []
        for c in comps:
            o = self.obj(c.type)
            kw = {}
            if c.by:
                kw['openType'] = self.ot.OpenType(c.by[0], self.table(c.by[1]))
            if c.mode == 'DEFAULT':
                rows.append(self.nt.DefaultedNamedType(c.name, self.withvalue(o, c.default), **kw))
            elif c.mode == 'OPTIONAL':
                rows.append(self.nt.OptionalNamedType(c.name, o, **kw))
            else:
                rows.append(self.nt.NamedType(c.name, o, **kw))
        return self.nt.NamedTypes(*rows)

    def withvalue(self, o, v):
        k, x = v
        if k == 'hex':
            from pyasn1.codec.der import decoder
            return decoder.decode(x, asn1Spec=o)[0]
        if k == 'bool':
            x = 1 if x else 0
        return o.clone(x)

    def con(self, c, o):
        k = c[0]
        inf = float('inf')
        if k in ('SIZE', 'RANGE'):
            lo = -inf if c[1] is None else c[1]
            hi = inf if c[2] is None else c[2]
            return (self.c.ValueSizeConstraint if k == 'SIZE' else self.c.ValueRangeConstraint)(lo, hi)
        if k == 'VALUES':
            vals = []
            for kind, x in c[1]:
                vals.append(self.u.ObjectIdentifier(x) if kind == 'oid' else x)
            return self.c.SingleValueConstraint(*vals)
        if k == 'FROM':
            return self.c.PermittedAlphabetConstraint(*c[1])
        if k == 'UNION':
            return self.c.ConstraintsUnion(*[self.con(x, o) for x in c[1]])
        if k == 'ALL':
            return self.c.ConstraintsIntersection(*[self.con(x, o) for x in c[1]])
        if k == 'WITH':
            return self.c.WithComponentsConstraint(*[(n, self.c.ComponentPresentConstraint() if p == 'PRESENT' else
                                                      self.c.ComponentAbsentConstraint()) for n, p in c[1]])
        raise ValueError(k)
