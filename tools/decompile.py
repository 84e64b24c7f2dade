"""Bootstrap only: prints the declarative content of the installed package in
the dialect of ref/*.asn, as a first draft for the audit.  No check runs it."""
import importlib, pkgutil, sys, types, os, collections
import importlib._bootstrap_external as be

OUT = sys.argv[1]
import pyasn1_modules
from pyasn1.type import base, univ, char, useful, constraint, namedtype, namedval, tag, opentype
from pyasn1.codec.der import encoder

BUILTIN = {
    univ.Boolean: 'BOOLEAN', univ.Integer: 'INTEGER', univ.BitString: 'BIT STRING', univ.OctetString: 'OCTET STRING',
    univ.Null: 'NULL', univ.ObjectIdentifier: 'OBJECT IDENTIFIER', univ.Real: 'REAL', univ.Enumerated: 'ENUMERATED',
    univ.Any: 'ANY', univ.Sequence: 'SEQUENCE', univ.Set: 'SET', univ.Choice: 'CHOICE', univ.SequenceOf: 'SEQUENCE OF',
    univ.SetOf: 'SET OF', useful.GeneralizedTime: 'GeneralizedTime', useful.UTCTime: 'UTCTime',
    useful.ObjectDescriptor: 'ObjectDescriptor',
}
for n in ('NumericString', 'PrintableString', 'TeletexString', 'T61String', 'VideotexString', 'IA5String', 'GraphicString',
          'VisibleString', 'ISO646String', 'GeneralString', 'UniversalString', 'BMPString', 'UTF8String'):
    BUILTIN[getattr(char, n)] = n

# --- record which module writes which map entry
snap = {}
writes = collections.defaultdict(list)   # module -> [(mapid, key, value)]
mods = []

def all_maps():
    for m in list(sys.modules):
        if m.startswith('pyasn1_modules.'):
            M = sys.modules[m]
            for n, v in vars(M).items():
                if type(v) is dict and not n.startswith('_'):
                    yield m.split('.')[1], n, v

orig = be.SourceFileLoader.exec_module
def exec_module(self, module):
    orig(self, module)
    if module.__name__.startswith('pyasn1_modules.'):
        mn = module.__name__.split('.')[1]
        mods.append(mn)
        seen = set()
        for m, n, d in all_maps():
            if id(d) in seen: continue
            seen.add(id(d))
            s = snap.setdefault(id(d), {})
            for k, v in d.items():
                if k not in s or s[k] is not v:
                    writes[mn].append((d, k, v))
                    s[k] = v
be.SourceFileLoader.exec_module = exec_module
for m in sorted(x.name for x in pkgutil.iter_modules(pyasn1_modules.__path__)):
    importlib.import_module('pyasn1_modules.' + m)

MODS = {m: sys.modules['pyasn1_modules.' + m] for m in mods}
mapname = {}
for mn in mods:        # exec order: definers first
    for n, v in vars(MODS[mn]).items():
        if type(v) is dict and not n.startswith('__'):
            mapname.setdefault(id(v), (mn, n))

def refof(C):
    mn = C.__module__.split('.')[-1]
    if C.__module__.startswith('pyasn1_modules.') and not C.__name__.startswith('_'):
        if getattr(MODS[mn], C.__name__, None) is C:
            return (mn, C.__name__)
        for n, v in vars(MODS[mn]).items():
            if v is C: return (mn, n)
    return None

def oid(t): return '.'.join(map(str, tuple(t)))

def q(s): return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')

def num(v):
    if v == float('inf'): return 'MAX'
    if v == float('-inf'): return 'MIN'
    return str(int(v))

def val(v):
    if isinstance(v, univ.ObjectIdentifier): return oid(v)
    if isinstance(v, str): return q(v)
    if isinstance(v, bytes): return "'%s'H" % v.hex()
    if isinstance(v, (int, float)) or isinstance(v, univ.Integer): return num(v)
    if isinstance(v, univ.OctetString): return "'%s'H" % bytes(v).hex()
    raise Exception('val %r' % (v,))

def con(c):
    k = type(c)
    if k is constraint.ValueSizeConstraint: return 'SIZE %s..%s' % (num(c.start), num(c.stop))
    if k is constraint.ValueRangeConstraint: return '%s..%s' % (num(c.start), num(c.stop))
    if k is constraint.SingleValueConstraint: return ' | '.join(val(x) for x in c._values)
    if k is constraint.PermittedAlphabetConstraint: return 'FROM ' + q(''.join(x if isinstance(x, str) else x.decode() for x in c._values))
    if k is constraint.ConstraintsUnion: return 'UNION ' + ' '.join('(%s)' % con(x) for x in c._values)
    if k is constraint.ConstraintsIntersection: return 'ALL ' + ' '.join('(%s)' % con(x) for x in c._values)
    if k is constraint.WithComponentsConstraint:
        return 'WITH ' + ', '.join('%s %s' % (n, {constraint.ComponentPresentConstraint: 'PRESENT', constraint.ComponentAbsentConstraint: 'ABSENT'}[type(x)]) for n, x in c._values)
    raise Exception('con %r' % c)

def flat(c):
    out = []
    if type(c) is not constraint.ConstraintsIntersection: return [c]
    for x in getattr(c, '_values', ()):
        if type(x) is constraint.ConstraintsIntersection: out += flat(x)
        else: out.append(x)
    return out

CLS = {0: 'UNIVERSAL ', 64: 'APPLICATION ', 128: '', 192: 'PRIVATE '}
WARN = []

def tags(o, bt, where):
    os_, bs = o.tagSet.superTags, bt.superTags
    same = lambda a, b: (a.tagClass, a.tagId) == (b.tagClass, b.tagId)
    pre = ''
    if len(os_) >= len(bs) and all(same(a, b) for a, b in zip(os_, bs)):
        for t in reversed(os_[len(bs):]): pre += '[%s%d] EXPLICIT ' % (CLS[t.tagClass], t.tagId)
    elif len(os_) >= len(bs) and all(same(a, b) for a, b in zip(os_[:len(bs) - 1], bs[:-1])):
        for t in reversed(os_[len(bs):]): pre += '[%s%d] EXPLICIT ' % (CLS[t.tagClass], t.tagId)
        t = os_[len(bs) - 1]
        pre += '[%s%d] IMPLICIT ' % (CLS[t.tagClass], t.tagId)
    else:
        raise Exception('tags %s %r %r' % (where, o.tagSet, bt))
    # formats as expected?
    for i, t in enumerate(os_):
        if isinstance(o, univ.Choice) and i == 0 and not type(o).__mro__: pass
        if i == 0 and not isinstance(o, (univ.Any, univ.Choice)):
            want = 32 if isinstance(o, base.ConstructedAsn1Type) else 0
        else: want = 32
        if t.tagFormat != want: WARN.append('%s format of tag %d is %d' % (where, i, t.tagFormat))
    return pre

def texpr(o, cur, where, ind, asbase=None):
    """o schema instance -> text. asbase: print o as derived from that class"""
    C = asbase or type(o)
    r = None if C in BUILTIN else refof(C)
    while C not in BUILTIN and r is None:
        C = C.__bases__[0]
        r = refof(C)
    if C in BUILTIN:
        b = BUILTIN[C]
        bi = C()
    else:
        b = r[1] if r[0] == cur else '%s.%s' % r
        try: bi = C()
        except TypeError: bi = C()
    s = tags(o, bi.tagSet, where)
    body = b
    ct = getattr(o, 'componentType', None)
    if isinstance(o, (univ.Sequence, univ.Set, univ.Choice)) and not isinstance(o, (univ.SequenceOf, univ.SetOf)):
        if C in BUILTIN or ct is not bi.componentType:
            if C not in BUILTIN:
                WARN.append('%s overrides components of %s' % (where, b)); body += ' WITH'
            body += ' ' + comps(ct, cur, where, ind)
    elif isinstance(o, (univ.SequenceOf, univ.SetOf)):
        if C in BUILTIN or ct is not bi.componentType:
            if C not in BUILTIN:
                WARN.append('%s overrides element of %s' % (where, b)); body += ' WITH OF'
            body += ' ' + (texpr(ct, cur, where + '.*', ind) if ct is not None else '?')
    s += body
    nv = getattr(o, 'namedValues', None)
    if nv is not None and not isinstance(o, (univ.Integer, univ.BitString)): nv = None
    if nv is not None and not hasattr(bi, 'namedValues'): WARN.append('%s has named values on %s' % (where, b))
    if nv is not None and nv is not getattr(bi, 'namedValues', None) and len(nv) and dict(nv.items()) != dict(getattr(bi, 'namedValues', namedval.NamedValues()).items()):
        items = [(n, v) for n, v in nv.items()]
        one = ', '.join('%s(%d)' % (n if n.replace('_','').replace('-','').isalnum() else q(n), int(v)) for n, v in items)
        if len(one) > 90:
            one = '\n' + ',\n'.join('%s    %s(%d)' % (ind, n if n.replace('_','').replace('-','').isalnum() else q(n), int(v)) for n, v in items) + '\n' + ind
        s += ' {%s}' % one
    oc, bc = flat(o.subtypeSpec), flat(bi.subtypeSpec)
    if oc != bc:
        if oc[:len(bc)] == bc:
            new = oc[len(bc):]
        else:
            s += ' ONLY'; new = oc
            WARN.append('%s replaces constraints %r by %r' % (where, bc, oc))
        cs = ''.join(' (%s)' % con(c) for c in new)
        if C in (univ.SequenceOf, univ.SetOf): s = s.replace(' OF', cs + ' OF', 1)
        else: s += cs
    if isinstance(o, base.SimpleAsn1Type) and o.isValue:
        pass
    return s

def dflt(o):
    if isinstance(o, univ.Boolean): return 'TRUE' if int(o) else 'FALSE'
    if isinstance(o, univ.Integer): return str(int(o))
    if isinstance(o, univ.ObjectIdentifier): return oid(o)
    return "'%s'H" % encoder.encode(o).hex()

def cname(n):
    if n and n.replace('-', '').replace('_', '').isalnum() and n not in ('OPTIONAL', 'DEFAULT'): return n
    return q(n)

def comps(nt, cur, where, ind):
    if nt is None: return '{ ? }'
    i2 = ind + '    '
    rows = []
    w = max([len(cname(c.name)) for c in nt.namedTypes] + [0])
    for c in nt.namedTypes:
        t = texpr(c.asn1Object, cur, where + '.' + c.name, i2)
        if c.isDefaulted: t += ' DEFAULT ' + dflt(c.asn1Object)
        elif c.isOptional: t += ' OPTIONAL'
        if c.isOptional and c.asn1Object.isValue if isinstance(c.asn1Object, base.SimpleAsn1Type) else False: WARN.append('%s.%s optional with value' % (where, c.name))
        if c.openType:
            d = c.openType._OpenType__typeMap
            mn = mapname.get(id(d))
            t += ' BY %s %s' % (c.openType.name, '?' if mn is None else mn[1] if mn[0] == cur else '%s.%s' % mn)
            if mn is None: WARN.append('%s.%s map unnamed' % (where, c.name))
        rows.append('%s%s %s' % (i2, cname(c.name).ljust(w), t))
    if not rows: return '{ }'
    return '{\n' + ',\n'.join(rows) + '\n' + ind + '}'

def preset(o, path=''):
    out = []
    if isinstance(o, base.SimpleAsn1Type):
        if o.isValue: out.append((path, type(o), o))
    elif isinstance(o, (univ.SequenceOf, univ.SetOf)):
        if o.isValue:
            out.append((path, type(o), o)) if len(o) == 0 else None
            for i in range(len(o)): out += preset(o[i], '%s.%d' % (path, i))
    elif isinstance(o, univ.Choice):
        if o._currentIdx is not None: out += preset(o.getComponent(), path + '.' + o.getName())
    else:
        for i, c in enumerate(o.componentType.namedTypes):
            if i < len(o._componentValues if o._componentValues is not univ.noValue else ()):
                v = o._componentValues[i]
                if v is not univ.noValue and v is not None:
                    if c.isDefaulted and v == c.asn1Object: continue
                    out += preset(v, path + '.' + c.name)
    return out

os.makedirs(OUT, exist_ok=True)
for mn in sorted(mods):
    M = MODS[mn]
    L = ['MODULE ' + mn, '']
    consts, classes, insts, maps, aliases = [], [], [], [], []
    for n, v in vars(M).items():
        if n.startswith('_') or isinstance(v, types.ModuleType): continue
        if isinstance(v, type) and issubclass(v, base.Asn1Item):
            if not v.__module__.startswith('pyasn1_modules'):
                continue
            if v.__module__ == M.__name__ and v.__name__ == n and refof(v) == (mn, n): classes.append((n, v))
            else: aliases.append('%s ::= %s' % (n, '%s.%s' % refof(v) if refof(v)[0] != mn else refof(v)[1]))
        elif isinstance(v, base.Asn1Item):
            if isinstance(v, univ.ObjectIdentifier) and v.isValue: consts.append('%s OID ::= %s' % (n, oid(v)))
            elif type(v) is univ.Integer and v.isValue: consts.append('%s INTEGER ::= %d' % (n, int(v)))
            else: insts.append((n, v))
        elif isinstance(v, dict): maps.append((n, v))
        elif isinstance(v, (int, float)):
            if not (v == float('inf')): consts.append('%s INTEGER ::= %s' % (n, num(v)))
        elif isinstance(v, types.FunctionType): pass
        else: WARN.append('%s.%s is a %s' % (mn, n, type(v)))
    L += consts + ['']
    for n, C in classes:
        try: o = C()
        except Exception as e:
            WARN.append('%s.%s cannot be built: %r' % (mn, n, e)); continue
        b = C.__bases__[0]
        if len(C.__bases__) != 1: WARN.append('%s.%s bases' % (mn, n))
        extra = [k for k in vars(C) if k not in ('__module__', '__doc__', 'componentType', 'tagSet', 'subtypeSpec', 'sizeSpec', 'namedValues', '__firstlineno__','__static_attributes__')]
        if extra: WARN.append('%s.%s has %s' % (mn, n, extra))
        L.append('%s ::= %s' % (n, texpr(o, mn, mn + '.' + n, '', asbase=b)))
        L.append('')
        if isinstance(o, base.SimpleAsn1Type) and o.isValue and not isinstance(o, univ.Null): WARN.append('%s.%s class has value' % (mn, n))
    L += aliases + ['']
    for n, v in insts:
        if isinstance(v, base.SimpleAsn1Type) and not v.isValue:
            L.append('%s ::= %s' % (n, texpr(v, mn, mn + '.' + n, ''))); continue
        ps = preset(v)
        L.append('%s PRESET %s ::= {' % (n, texpr(v, mn, mn + '.' + n, '')))
        for p, c, x in ps:
            try: d = dflt(x)
            except Exception as e: d = '?'; WARN.append('%s.%s%s %r' % (mn, n, p, e))
            L.append('    %s = %s' % (p[1:] or '@', d))
        L.append('}')
    for n, v in maps:
        if mapname[id(v)] == (mn, n): L.append('MAP %s' % n)
        else: L.append('MAP %s ::= %s.%s' % ((n,) + mapname[id(v)]))
    L.append('')
    by = collections.OrderedDict()
    for d, k, v in writes[mn]:
        by.setdefault(mapname.get(id(d)), []).append((k, v))
    for m, es in by.items():
        L.append('ENTRIES %s {' % (m[1] if m[0] == mn else '%s.%s' % m))
        for k, v in es:
            ks = oid(k) if isinstance(k, univ.ObjectIdentifier) else str(int(k))
            if not isinstance(k, (univ.ObjectIdentifier, univ.Integer)): WARN.append('%s key %r of %s' % (mn, type(k), m))
            nm = ''
            for n2, v2 in vars(M).items():
                if isinstance(v2, univ.ObjectIdentifier) and v2.isValue and v2 == k: nm = n2; break
            L.append('    %s : %s    -- %s' % (ks, texpr(v, mn, '%s %s[%s]' % (mn, m, ks), '    '), nm))
            if isinstance(v, base.SimpleAsn1Type) and v.isValue: WARN.append('%s map %s[%s] is a value' % (mn, m, ks))
        L.append('}')
    open(os.path.join(OUT, mn + '.asn'), 'w').write('\n'.join(L).rstrip() + '\n')
for w in WARN: print('WARN', w)
