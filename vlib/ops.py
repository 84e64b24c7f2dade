"""Assertions over the code under test.  Each op runs on symbolic values (in
the instrumented world) and on concrete ones (natively, for replay): it
returns (holds, digest)."""
import signal

ERR = None


class Lib(object):
    """pyasn1 names, looked up in whichever world is loaded"""
    _l = None

    def __new__(cls):
        if cls._l is None:
            o = object.__new__(cls)
            from pyasn1.codec.der import decoder, encoder
            from pyasn1.type import univ, char, useful, base, tag
            from pyasn1 import error
            o.dec, o.enc, o.univ, o.char, o.useful, o.base, o.tag, o.error = \
                decoder, encoder, univ, char, useful, base, tag, error
            o.kinds = [(useful.GeneralizedTime, 'GeneralizedTime'), (useful.UTCTime, 'UTCTime'),
                       (useful.ObjectDescriptor, 'ObjectDescriptor')]
            for n in ('NumericString', 'PrintableString', 'TeletexString', 'VideotexString', 'IA5String', 'GraphicString',
                      'VisibleString', 'GeneralString', 'UniversalString', 'BMPString', 'UTF8String'):
                o.kinds.append((getattr(char, n), n))
            o.kinds += [(univ.Any, 'ANY'), (univ.Boolean, 'BOOLEAN'), (univ.Enumerated, 'ENUMERATED'), (univ.Integer, 'INTEGER'),
                        (univ.BitString, 'BIT STRING'), (univ.Null, 'NULL'), (univ.OctetString, 'OCTET STRING'),
                        (univ.ObjectIdentifier, 'OBJECT IDENTIFIER'), (univ.Real, 'REAL'), (univ.SetOf, 'SET OF'),
                        (univ.SequenceOf, 'SEQUENCE OF'), (univ.Choice, 'CHOICE'), (univ.Set, 'SET'),
                        (univ.Sequence, 'SEQUENCE')]
            cls._l = o
        return cls._l


_kind = {}


def kind(o):
    t = type(o)
    k = _kind.get(t)
    if k is None:
        for c, n in Lib().kinds:
            if issubclass(t, c):
                k = n
                break
        else:
            k = t.__name__
        _kind[t] = k
    return k


def tree(v, depth=0):
    """what a user can read out of a decoded value"""
    k = kind(v)
    if k in ('SEQUENCE', 'SET'):
        out = []
        nt = v.componentType
        vals = v._componentValues
        L = Lib()
        if vals is L.univ.noValue:
            return (k, None)
        if len(nt):
            for i, c in enumerate(nt.namedTypes):
                x = vals[i] if i < len(vals) else L.univ.noValue
                if x is L.univ.noValue or x is None or not x.isValue:
                    continue
                out.append((c.name, tree(x, depth + 1)))
        else:
            for i, x in enumerate(vals):
                out.append((str(i), tree(x, depth + 1)))
        return (k, out)
    if k == 'CHOICE':
        i = v._currentIdx
        if i is None:
            return (k, None)
        return (k, [(v.componentType.getNameByPosition(i), tree(v._componentValues[i], depth + 1))])
    if k in ('SEQUENCE OF', 'SET OF'):
        vals = v._componentValues
        if vals is Lib().univ.noValue:
            return (k, None)
        return (k, [('', tree(vals[i], depth + 1)) for i in sorted(vals)])
    x = v._value
    if x is Lib().univ.noValue:
        return (k, None)
    if k == 'BIT STRING':
        return (k, (x, len(x) if x.bitLength is None else x.bitLength))
    if k == 'OBJECT IDENTIFIER':
        return (k, tuple(x))
    return (k, x)


CONTAINERS = ('SEQUENCE', 'SET', 'CHOICE', 'SEQUENCE OF', 'SET OF')


def same(a, b):
    """condition under which two trees are equal: False, or list of terms"""
    if a[0] != b[0]:
        return False
    if a[0] in CONTAINERS:
        x, y = a[1], b[1]
        if x is None or y is None:
            return [] if x is y else False
        if len(x) != len(y):
            return False
        out = []
        for (n, p), (m, q) in zip(x, y):
            if n != m:
                return False
            r = same(p, q)
            if r is False:
                return False
            out += r
        return out
    if a[1] is None or b[1] is None:
        return [] if a[1] is b[1] else False
    if type(a[1]) is tuple:
        if len(a[1]) != len(b[1]):
            return False
        return [p == q for p, q in zip(a[1], b[1])]
    return [a[1] == b[1]]


def conj(r):
    if r is False:
        return False
    out = []
    for x in r:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    from symx.engine import sym_and
    return sym_and(out)


def neg(x):
    if x is True or x is False:
        return not x
    from symx.engine import sym_not
    return sym_not(x)


def any_of(xs):
    return neg(conj([neg(x) for x in xs]))


def decode(obj, octets, **kw):
    L = Lib()
    try:
        v, rest = L.dec.decode(octets, asn1Spec=obj, **kw)
    except L.error.PyAsn1Error:
        return ('rejected',), None
    except Exception as e:          # noqa
        return ('crashed', type(e).__name__), None
    return ('ok', tree(v), rest), v


def same_outcome(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'ok':
        r = same(a[1], b[1])
        if r is False:
            return False
        return r + [a[2] == b[2]]
    if a[0] == 'crashed':
        return [a[1] == b[1]]
    return []


def concrete(x):
    """fork over the values of a symbolic integer"""
    if isinstance(x, int) and type(x) is not int and type(x) is not bool:
        from symx import engine
        return engine.ENG.concretize(x)
    return x


OPS = {}


class Hang(BaseException):
    """the code under test does not come to an end"""


CPU = 60        # seconds of CPU time after which one operation counts as hanging


def op(f):
    """register an operation; one that does not end has failed"""
    def limited(*a, **k):
        def late(*a):
            raise Hang()
        old = signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU, 5)
        try:
            return f(*a, **k)
        except Hang:
            return False, ('hangs',)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    limited.__name__ = f.__name__
    OPS[f.__name__] = limited
    return f


# -- C01 ---------------------------------------------------------------------

@op
def decode_same(w, ref, octets):
    """the real type and the published grammar treat the octets alike"""
    a, _ = decode(w.real_obj(ref), octets)
    b, _ = decode(w.ref_obj(ref), octets)
    return conj(same_outcome(a, b)), (a, b)


@op
def decode_same_any(w, ref, inputs, which):
    return decode_same(w, ref, inputs[concrete(which)])


@op
def exists(w, ref):
    """the type is exported and can be built"""
    try:
        w.real_obj(ref)
    except Exception as e:      # noqa
        return False, ('missing', type(e).__name__)
    return True, 'ok'


# -- C02 / C03 ----------------------------------------------------------------

def put(o, script):
    """build a value through the public API, by component name"""
    k = script[0]
    if k == 'S':
        o.clear()
        for name, sub in script[1]:
            if sub[0] == 'V':
                o[name] = sub[1]
            else:
                put(o[name], sub)
    elif k == 'C':
        if script[2][0] == 'V':
            o[script[1]] = script[2][1]
        else:
            put(o[script[1]], script[2])
    elif k == 'L':
        o.clear()
        for i, sub in enumerate(script[1]):
            if sub[0] == 'V':
                o[i] = sub[1]
            else:
                put(o.getComponentByPosition(i), sub)
    return o


def build(obj, script):
    if script[0] == 'V':
        return obj.clone(script[1])
    return put(obj.clone(), script)


def untuple(x):
    if type(x) is list:
        return tuple(untuple(i) for i in x)
    return x


def encode(v):
    L = Lib()
    try:
        return ('ok', L.enc.encode(v))
    except L.error.PyAsn1Error:
        return ('rejected',)
    except Exception as e:      # noqa
        return ('crashed', type(e).__name__)


def produce(obj, script):
    L = Lib()
    try:
        v = build(obj, script)
    except L.error.PyAsn1Error:
        return ('refused',)
    except Exception as e:      # noqa
        return ('crashed', type(e).__name__)
    return encode(v)


@op
def encode_as(w, ref, script, octets, alt=None):
    """a value built by component names encodes to the prescribed octets"""
    a = produce(w.real_obj(ref), script)
    if a[0] == 'ok' and len(a[1]) == len(octets):
        c = a[1] == octets
        if c is True or (c is not False and bool(c)):
            return True, ('ok', 'prescribed')
        if alt and a[1] == alt[1]:
            return True, ('known:' + alt[0],)
    # the reference type may be unable to produce them too (codec limits)
    b = produce(w.ref_obj(ref), script)
    if a[0] != b[0]:
        return False, (a, b)
    if a[0] == 'ok':
        return conj([a[1] == b[1]]), (a, b)
    return True, (a, b)


@op
def lossless(w, ref, octets, alt=None):
    """decode, re-encode, decode again"""
    a = _lossless(w.real_obj(ref), octets, alt)
    if a[0] == 'same' or a[0][:6] == 'known:':
        return True, a
    b = _lossless(w.ref_obj(ref), octets)
    if a[0] != b[0]:
        return False, (a, b)
    if a[0] == 'other octets':
        return conj([a[1] == b[1]]), (a, b)
    return True, (a, b)


def _lossless(obj, octets, alt=None):
    a, v = decode(obj, octets)
    if a[0] != 'ok':
        return a
    if len(a[2]):
        return ('left over',)
    e = encode(v)
    if e[0] != 'ok':
        return ('not encodable', e)
    if alt and e[1] == alt[1]:
        return ('known:' + alt[0],)
    if len(e[1]) != len(octets) or not (e[1] == octets):
        return ('other octets', e[1])
    b, v2 = decode(obj, e[1])
    if b[0] != 'ok':
        return ('not decodable again',)
    s = conj(same(a[1], b[1]))
    if s is False or not s:
        return ('other value',)
    return ('same',)


# -- C05 ----------------------------------------------------------------------

def int_cond(cons, v):
    """condition under which the published constraints permit the number v"""
    out = []
    for c in cons:
        if c[0] == 'RANGE':
            if c[1] is not None:
                out.append(v >= c[1])
            if c[2] is not None:
                out.append(v <= c[2])
        elif c[0] == 'VALUES':
            out.append(any_of([v == x for k, x in c[1] if k == 'int']))
        elif c[0] == 'UNION':
            out.append(any_of([int_cond([x], v) for x in c[1]]))
        elif c[0] == 'ALL':
            out.append(int_cond(c[1], v))
    return conj(out)


def size_cond(cons, n):
    out = []
    for c in cons:
        if c[0] == 'SIZE':
            if c[1] is not None:
                out.append(n >= c[1])
            if c[2] is not None:
                out.append(n <= c[2])
        elif c[0] == 'UNION':
            out.append(any_of([size_cond([x], n) for x in c[1]]))
        elif c[0] == 'ALL':
            out.append(size_cond(c[1], n))
    return conj(out)


def iff(accepted, cond):
    return cond if accepted else neg(cond)


def real_at(w, ref, path):
    from vlib import pos
    try:
        return pos.at(w.real_obj(ref), path)
    except (pos.Missing, AttributeError):
        return None


def attempt(f, *a):
    L = Lib()
    try:
        return 'accepted', f(*a)
    except L.error.PyAsn1Error:
        return 'refused', None
    except Exception as e:      # noqa
        return 'crashed ' + type(e).__name__, None


@op
def int_range(w, ref, path, v):
    """the number v is taken exactly if the published range has it"""
    from vlib import pos
    n, _ = pos.norm_at(w.ref, ref, path)
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    how, x = attempt(o.clone, v)
    if how[:7] == 'crashed':
        return False, (how,)
    ok = iff(how == 'accepted', int_cond(n.cons, v))
    if x is not None:
        ok = conj([ok, x._value == v])
    return ok, (how,)


@op
def int_range_wire(w, ref, path, octets, content):
    """the same for a number that arrives encoded; content is the part of
    octets holding the number"""
    from vlib import pos
    n, _ = pos.norm_at(w.ref, ref, path)
    L = Lib()
    how, x = attempt(lambda: L.dec.decode(octets, asn1Spec=w.real_obj(ref)))
    if how[:7] == 'crashed':
        return False, (how,)
    v = from_octets(content)
    return iff(how == 'accepted', int_cond(n.cons, v)), (how,)


def from_octets(content):
    if type(content) is bytes:
        return int.from_bytes(content, 'big', signed=True)
    from symx.engine import int_from_octets
    return int_from_octets(content.v, 'big', True)


# -- C06 ----------------------------------------------------------------------

def of_size(kind, n):
    """a value of size n: symbolic, or a real one"""
    if type(n) is tuple or type(n) is list:     # ('len', n) from a replay
        n = n[1]
    sym = type(n) is not int
    if kind == 'BIT STRING':
        if sym:
            x = Lib().univ.SizedInteger(0)
            x.bitLength = n
            return x
        return (0,) * n
    if sym:
        from symx.engine import SymLen
        return SymLen(n, {'OCTET STRING': 'octets', 'SEQUENCE OF': 'map', 'SET OF': 'map'}.get(kind, 'text'))
    if kind == 'OCTET STRING':
        return b'a' * n
    if kind in ('SEQUENCE OF', 'SET OF'):
        return dict.fromkeys(range(n))
    return ('1' if kind == 'NumericString' else 'a') * n


@op
def size_limit(w, ref, path, n):
    """a string of n units, or a collection of n elements, is taken exactly
    if the published SIZE has n"""
    from vlib import pos
    nn, _ = pos.norm_at(w.ref, ref, path)
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    x = of_size(nn.kind, n)
    if nn.kind in ('SEQUENCE OF', 'SET OF'):
        how, _ = attempt(o.subtypeSpec, x)
    else:
        how, _ = attempt(o.clone, x)
    if how[:7] == 'crashed':
        return False, (how,)
    return iff(how == 'accepted', size_cond(nn.cons, n)), (how,)


@op
def elements(w, ref, path, n, script):
    """a collection of n elements encodes exactly if the published SIZE has n"""
    from vlib import pos
    nn, _ = pos.norm_at(w.ref, ref, path)
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    n = concrete(n)
    how = produce(o, ['L', [script] * n])
    r = how[0]
    b = produce(pos.at(w.ref_obj(ref), path), ['L', [script] * n])
    if r != 'ok' and r == b[0]:
        # codec limits weigh on both
        return True, (r,)
    return (r == 'ok') == size_cond(nn.cons, n), (r,)


@op
def together(w, ref, path, flags, scripts, cons):
    """exactly the permitted combinations of components are consistent"""
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    on = [s for f, s in zip(flags, scripts) if f is None or bool(f)]
    how, v = attempt(build, o, ['S', on])
    if how != 'accepted':
        return False, (how,)
    how, bad = attempt(lambda: v.isInconsistent)
    if how != 'accepted':
        return False, (how,)
    enc = encode(v)[0]
    from vlib import der
    ok = der.combo_ok(cons, [s[0] for s in on])
    return (not bad) == ok and (enc == 'ok') == ok, (bool(bad), enc)


@op
def letters(w, ref, path, text):
    """text of permitted size: taken exactly as the published type takes it"""
    from vlib import pos
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    a, x = attempt(o.clone, text)
    b, y = attempt(pos.at(w.ref_obj(ref), path).clone, text)
    if a == b == 'accepted':
        return conj([x._value == y._value]), (a,)
    return a == b, (a, b)


# -- C07 ----------------------------------------------------------------------

def has_names(o):
    return getattr(o, 'namedValues', None) or {}


@op
def shown_as(w, ref, path, v):
    """the number v is shown under the name the published list gives it"""
    from vlib import pos
    n, _ = pos.norm_at(w.ref, ref, path)
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    how, x = attempt(o.clone, v)
    if how == 'refused':
        return True, (how,)         # outside the range, see C05
    if how != 'accepted':
        return False, (how,)
    how, text = attempt(x.prettyPrint)
    if how != 'accepted':
        return False, (how,)
    names = dict((m, nm) for nm, m in n.names)
    for m, nm in names.items():
        if v == m:
            return str(text) == nm, ('named', nm)
    shown = [nm for nm in list(has_names(o)) if type(text) is str and text == str(nm)]
    return not shown, ('number',)


@op
def bit_named(w, ref, path, v):
    """bit number v has the published name or none"""
    from vlib import pos
    n, _ = pos.norm_at(w.ref, ref, path)
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    how, text = attempt(lambda: o.namedValues.getName(v))
    if how != 'accepted':
        return False, (how,)
    for nm, m in n.names:
        if v == m:
            return text == nm, ('named', nm)
    return text is None, ('number',)


@op
def stands_for(w, ref, path, which):
    """a published name gives the published number"""
    from vlib import pos
    n, _ = pos.norm_at(w.ref, ref, path)
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    nm, m = n.names[concrete(which)]
    how, x = attempt(o.clone, nm)
    if how != 'accepted':
        # the list may hold numbers the range excludes
        return how == 'refused' and not int_cond(n.cons, m), (how,)
    if n.kind == 'BIT STRING':
        return tuple(x) == (0,) * m + (1,), ('named', nm)
    return int(x) == m, ('named', nm)


# -- C08 ----------------------------------------------------------------------

def find(v, path):
    for name in path.split('/')[1:]:
        k = kind(v)
        if k.endswith(' OF'):
            v = v[int(name)]
        elif k == 'CHOICE' and v.getName() != name:
            return None
        else:
            v = v[name]
    return v


def read(v, path):
    """what a program reads at a path of a decoded value; None if absent"""
    v = find(v, path)
    if v is None:
        return None
    try:
        if not v.isValue:
            return None
        if kind(v) in CONTAINERS:
            return tree(v)
    except Lib().error.PyAsn1Error:
        return None
    return tree(v)


def holder(v, path):
    """is the structure a path leads through there?"""
    up = path.rsplit('/', 1)[0]
    return up == '' or read(v, up) is not None


@op
def default_read(w, ref, path, octets):
    """an absent component reads back as its published default, or not at all"""
    from vlib import pos
    a, v = decode(w.real_obj(ref), octets)
    if a[0] != 'ok':
        return False, a
    n, c = pos.norm_at(w.ref, ref, path)
    how, got = attempt(read, v, path)
    if how != 'accepted':
        return False, (how,)
    if c.mode == 'DEFAULT' and c.default[0] == 'hex':
        if got is None:
            return False, ('default', None)
        e = encode(find(v, path))
        if c.quirk and c.quirk[1] and e == ('ok', c.quirk[1]):
            return True, ('known:' + c.quirk[0],)
        return e == ('ok', c.default[1]), ('default', e)
    if c.mode == 'DEFAULT':
        want = tree(w.builder.withvalue(w.builder.obj(c.type), c.default))
        return got is not None and conj(same(got, want)), ('default', got)
    if n.kind in CONTAINERS:
        want = read(decode(w.ref_obj(ref), octets)[1], path)
        if want is not None:
            return got is not None and conj(same(got, want)), ('empty', got)
    return got is None, ('nothing', got)


@op
def default_sent(w, ref, path, script, v, present, absent):
    """a component is left out of the encoding exactly if it has the default
    value; v is the value in the script"""
    from vlib import pos
    n, c = pos.norm_at(w.ref, ref, path)
    if n.kind in ('INTEGER', 'ENUMERATED') and not int_cond(n.cons, v):
        return True, ('outside',)
    a = produce(w.real_obj(ref), script)
    omit = False
    if c.mode == 'DEFAULT':
        k, d = c.default
        if k == 'bool':
            omit = v == (1 if d else 0)
        elif k == 'oid':
            omit = conj([len(v) == len(d)] + [p == q for p, q in zip(v, d)])
        else:
            omit = v == d
    want = absent if omit else present
    if a[0] == 'ok' and len(a[1]) == len(want) and a[1] == want:
        return True, ('omitted' if want is absent else 'sent',)
    b = produce(w.ref_obj(ref), script)
    if a[0] != b[0]:
        return False, (a[0], b[0])
    return conj([a[1] == b[1]]) if a[0] == 'ok' else True, (a[0],)


@op
def default_whole(w, ref, path, whole, default, script, present, absent):
    """like default_sent, for a component that is not a leaf: whole is an
    encoding of it, script the rest"""
    from vlib import pos
    n, c = pos.norm_at(w.ref, ref, path)
    d, _ = decode(w.builder.obj(c.type), whole)
    if d[0] != 'ok':
        return True, ('no value',)
    s = script_of(d[1])
    if s is None:
        return True, ('no value',)
    a = produce(w.real_obj(ref), graft(script, path, s))
    omit = whole == default
    want = absent if omit else present
    if a[0] == 'ok' and len(a[1]) == len(want) and a[1] == want:
        return True, ('omitted' if want is absent else 'sent',)
    if c.quirk:
        alt = c.quirk[1]
        known = 'known:' + c.quirk[0]
        if alt is None and omit and a[0] == 'ok' and len(a[1]) == len(present) and a[1] == present:
            return True, (known,)
        if alt and omit and a[0] == 'rejected':
            return True, (known,)
        if alt and len(alt) == len(whole) and alt == whole and a[0] == 'ok' and a[1] == absent:
            return True, (known,)
    b = produce(w.ref_obj(ref), graft(script, path, s))
    if a[0] != b[0]:
        return False, (a[0], b[0])
    return conj([a[1] == b[1]]) if a[0] == 'ok' else True, (a[0],)


def script_of(t):
    if t[1] is None:
        return None
    if t[0] in ('SEQUENCE', 'SET'):
        return ['S', [[n, script_of(x)] for n, x in t[1]]]
    if t[0] == 'CHOICE':
        return ['C', t[1][0][0], script_of(t[1][0][1])]
    if t[0] in CONTAINERS:
        return ['L', [script_of(x) for _, x in t[1]]]
    if t[0] == 'BIT STRING':
        x, size = t[1][0], concrete(t[1][1])
        return ['V', tuple((x >> (size - 1 - i)) & 1 for i in range(size))]
    return ['V', t[1]]


def graft(script, path, sub):
    """script with sub at path"""
    if not path:
        return sub
    name, rest = path[1:].split('/', 1) if '/' in path[1:] else (path[1:], '')
    rest = '/' + rest if '/' in path[1:] else ''
    k = script[0]
    if k == 'S':
        return ['S', [[n, graft(x, rest, sub) if n == name else x] for n, x in script[1]]]
    if k == 'C':
        return ['C', script[1], graft(script[2], rest, sub)]
    return ['L', [graft(x, rest, sub) if i == int(name) else x for i, x in enumerate(script[1])]]


# -- C09 ----------------------------------------------------------------------

def leaves(o, path=''):
    """(path, object) of every leaf value set in a preset"""
    L = Lib()
    k = kind(o)
    if k in ('SEQUENCE OF', 'SET OF'):
        if o._componentValues is L.univ.noValue:
            return []
        return [x for i in sorted(o._componentValues) for x in leaves(o._componentValues[i], '%s.%d' % (path, i))]
    if k == 'CHOICE':
        i = o._currentIdx
        return [] if i is None else leaves(o._componentValues[i], '%s.%s' % (path, o.componentType.getNameByPosition(i)))
    if k in ('SEQUENCE', 'SET'):
        if o._componentValues is L.univ.noValue:
            return []
        out = []
        for i, x in enumerate(o._componentValues):
            if x is L.univ.noValue or x is None:
                continue
            c = o.componentType.namedTypes[i]
            if c.isDefaulted:
                try:
                    if x == c.asn1Object:
                        continue
                except L.error.PyAsn1Error:
                    pass
            out += leaves(x, path + '.' + c.name)
        return out
    return [(path[1:] or '@', o)] if o.isValue else []


def labels(w, mod):
    """label -> value of every OID or number the module publishes, by the
    names the reference has"""
    m = w.ref.mods[mod]
    real = w.real[mod]
    L = Lib()
    oids, ints = {}, {}
    for n in m.oids:
        v = getattr(real, n, None)
        oids[n] = tuple(v) if isinstance(v, L.univ.ObjectIdentifier) and v.isValue else None
    for n in m.ints:
        v = getattr(real, n, None)
        if isinstance(v, L.univ.Integer):
            v = int(v) if v.isValue else None
        ints[n] = v if isinstance(v, (int, float)) else None
    want_o, want_i = dict(m.oids), dict(m.ints)
    for n, (t, vals) in m.presets.items():
        try:
            got = dict(leaves(getattr(real, n)))
        except Exception:       # noqa
            got = {}
        for path, (k, x) in vals:
            lab = '%s %s' % (n, path)
            o = got.get(path)
            if k == 'oid':
                want_o[lab] = x
                oids[lab] = tuple(o) if o is not None and kind(o) == 'OBJECT IDENTIFIER' else None
            elif k == 'int':
                want_i[lab] = x
                ints[lab] = int(o) if o is not None and kind(o) in ('INTEGER', 'ENUMERATED') else None
    return oids, want_o, ints, want_i


@op
def oid_lookup(w, mod, arcs):
    """the names that denote an OID"""
    got, want, _, _ = labels(w, mod)
    a = tuple(sorted(n for n, v in got.items() if v is not None and len(v) == len(arcs) and v == tuple(arcs)))
    b = tuple(sorted(n for n, v in want.items() if len(v) == len(arcs) and v == tuple(arcs)))
    return a == b, ('named' if b else 'nobody', a, b)


@op
def int_lookup(w, mod, v):
    _, _, got, want = labels(w, mod)
    a = tuple(sorted(n for n, x in got.items() if x is not None and v == x))
    b = tuple(sorted(n for n, x in want.items() if v == x))
    return a == b, ('named' if b else 'nobody', a, b)


@op
def preset(w, mod, names, which):
    """a published preset value has exactly the published parts"""
    n = names[concrete(which)]
    t, vals = w.ref.mods[mod].presets[n]
    o = getattr(w.real[mod], n, None)
    if o is None:
        return False, ('missing', n)
    got = {}
    for p, x in leaves(o):
        k = kind(x)
        got[p] = tuple(x) if k == 'OBJECT IDENTIFIER' else int(x) if k in ('INTEGER', 'ENUMERATED', 'BOOLEAN') else encode(x)[-1]
    want = {}
    for p, (k, x) in vals:
        want[p] = int(x) if k in ('int', 'bool') else x
    for p in want:
        if type(want[p]) is str and p in got:       # text: by its content octets
            got[p] = got[p][2:].decode('latin-1') if len(want[p]) < 100 else want[p]
    bad = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))
    return not bad, ('preset', n, tuple(bad))


# -- C10 ----------------------------------------------------------------------

def real_table(w, mp):
    try:
        return getattr(w.real[mp[0]], mp[1])
    except (KeyError, AttributeError):
        return None


def gov(key):
    L = Lib()
    return L.univ.Integer(key) if not isinstance(key, (tuple, list)) else L.univ.ObjectIdentifier(tuple(key))


def named_alike(w, o, t):
    """is o an instance of a class published under a name that means T t?"""
    if t.kind != 'REF' or t.tags or t.names or t.cons:
        return False
    b = getattr(w, '_classes', None)
    if b is None:
        b = w._classes = {}
        for r in w.exported():
            try:
                a = w.real_attr(r)
            except Exception:       # noqa
                continue
            if isinstance(a, type):
                b.setdefault(a, set()).add(w.ref.final(r))
    if w.ref.final(t.ref) not in b.get(type(o), ()):
        return False
    try:
        c = type(o)()
    except Exception:       # noqa
        return False
    # an instance may differ from its class
    return o.tagSet == c.tagSet and getattr(o, 'componentType', None) is getattr(c, 'componentType', None) and \
        o.subtypeSpec == c.subtypeSpec


def alike(w, o, r, n, depth=0):
    """condition under which a real schema object and a reference one are the
    same type: structure and tags here, limits at symbolic size/value n"""
    if kind(o) != kind(r) or o.tagSet != r.tagSet or depth > 30:
        return False
    k = kind(o)
    if k in ('SEQUENCE', 'SET', 'CHOICE'):
        a, b = o.componentType.namedTypes, r.componentType.namedTypes
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            if x.name != y.name or x.isOptional != y.isOptional or x.isDefaulted != y.isDefaulted:
                return False
            out.append(alike(w, x.asn1Object, y.asn1Object, n, depth + 1))
        return conj(out)
    if k in ('SEQUENCE OF', 'SET OF'):
        if (o.componentType is None) != (r.componentType is None):
            return False
        out = [attempt(o.subtypeSpec, of_size(k, n))[0] == attempt(r.subtypeSpec, of_size(k, n))[0]]
        if o.componentType is not None:
            out.append(alike(w, o.componentType, r.componentType, n, depth + 1))
        return conj(out)
    if k in ('INTEGER', 'ENUMERATED'):
        return attempt(o.clone, n)[0] == attempt(r.clone, n)[0] and dict(o.namedValues) == dict(r.namedValues)
    if k in ('BOOLEAN', 'NULL', 'OBJECT IDENTIFIER', 'REAL', 'GeneralizedTime', 'UTCTime', 'ANY'):
        return o.subtypeSpec == r.subtypeSpec
    return attempt(o.clone, of_size(k, n))[0] == attempt(r.clone, of_size(k, n))[0]


def meant(w, mp, key):
    """reference types registered for the key"""
    for k, ts in w.ref.writers.get(tuple(mp), {}).items():
        if type(k) is tuple:
            if isinstance(key, (tuple, list)) and len(k) == len(key) and tuple(key) == k:
                return k, ts
        elif not isinstance(key, (tuple, list)) and key == k:
            return k, ts
    return None, None


def resolves(w, lookup, mp, key, n):
    try:
        o = w.getitem(lookup, gov(key))
    except KeyError:
        o = None
    k, ts = meant(w, mp, key)
    if k is None:
        return o is None, ('nothing', o is None)
    if o is None:
        return False, ('unregistered', k)
    what = '%s' % (k,)
    if Lib().base.Asn1Item not in type(o).__mro__:
        return False, ('not a type', what)
    for m, t in ts:
        if named_alike(w, o, t):
            return True, ('type', what)
    m, t = ts[0]
    return alike(w, o, w.builder.obj(t), n), ('type', what)


@op
def table_resolves(w, mod, name, mp, key, n):
    """the published table gives the key the published type, or nothing"""
    d = real_table(w, (mod, name))
    if d is None:
        return False, ('missing',)
    return resolves(w, d, mp, key, n)


@op
def alone_resolves(w, mod, mp, key, n):
    """after import of one module the table gives the keys that module's RFC
    defines the type that RFC gives them"""
    ks = {k: [t for m, t in ts if m == mod] for k, ts in w.ref.writers.get(tuple(mp), {}).items()}
    for k, ts in sorted(ks.items(), key=repr):
        if ts and (type(k) is tuple) == isinstance(key, (tuple, list)) and \
                (len(key) == len(k) and tuple(key) == k if type(k) is tuple else key == k):
            break
    else:
        return True, ('of others',)
    loaded, failed = w.alone(mod)
    if failed:
        return False, ('failed', failed)
    twins(w, loaded)
    what = '%s' % (k,)
    out = []
    for m in sorted(loaded):
        if m not in w.ref.mods:
            continue
        for name, x in sorted(w.ref.mods[m].maps.items()):
            if x != tuple(mp):
                continue
            o = getattr(loaded[m], name, {}).get(gov(k))
            if o is None:
                return False, ('unregistered', what)
            if Lib().base.Asn1Item not in type(o).__mro__:
                return False, ('not a type', what)
            own = [t for y, t in w.ref.writers[tuple(mp)][k] if y in loaded]
            out.append(any(named_alike(w, o, t) for t in own) or any_of([alike(w, o, w.builder.obj(t), n) for t in own]))
    if not out:
        return False, ('no table', what)
    return conj(out), ('type', what)


def twins(w, loaded):
    """classes of a repeated import mean what those of the first do"""
    class T(object):
        kind = 'REF'
        tags = names = cons = ()
        ref = next(w.exported())
    if getattr(w, '_classes', None) is None:
        named_alike(w, T, T)
    for m in loaded:
        if m in w.real:
            for n, v in vars(loaded[m]).items():
                if isinstance(v, type):
                    a = getattr(w.real[m], n, None)
                    if isinstance(a, type) and a in w._classes:
                        w._classes[v] = w._classes[a]


@op
def field_resolves(w, ref, path, mp, key, n):
    """the open field looks its type up by the published component in the
    published table"""
    from vlib import pos
    nn, c = pos.norm_at(w.ref, ref, path)
    try:
        parent = pos.at(w.real_obj(ref), path.rsplit('/', 1)[0])
        nt = [x for x in parent.componentType.namedTypes if x.name == path.rsplit('/', 1)[1]][0]
    except (pos.Missing, AttributeError, IndexError):
        return False, ('missing',)
    if not nt.openType:
        return False, ('not open',)
    if nt.openType.name != c.by[0]:
        return False, ('governed by ' + nt.openType.name,)
    if key is None:
        return True, ('same table',)
    return resolves(w, nt.openType, mp, key, n)


@op
def not_open(w, ref, path):
    """a component that is not an open type in the RFC's grammar is not one"""
    from vlib import pos
    try:
        parent = pos.at(w.real_obj(ref), path.rsplit('/', 1)[0])
        nt = [x for x in parent.componentType.namedTypes if x.name == path.rsplit('/', 1)[1]][0]
    except (pos.Missing, AttributeError, IndexError):
        return False, ('missing',)
    return not nt.openType, ('closed',)


# -- C04 ----------------------------------------------------------------------

def outer(o, depth=0):
    """outermost (class, number) pairs a value of the type can start with;
    None stands for any"""
    if len(o.tagSet):
        t = o.tagSet.superTags[-1]
        return [(t.tagClass, t.tagId)]
    k = kind(o)
    if k == 'CHOICE' and depth < 40:
        return [x for nt in o.componentType.namedTypes for x in outer(nt.asn1Object, depth + 1)]
    return [None]


def may_start(o, cls, num):
    return any_of([True if t is None else conj([t[0] == cls, t[1] == num]) for t in outer(o)])


def candidates(o, start, cls, num):
    """names of the components an identifier met at position start may belong to"""
    out = []
    for i, nt in enumerate(o.componentType.namedTypes):
        if kind(o) == 'SEQUENCE':
            if i < start:
                continue
        c = may_start(nt.asn1Object, cls, num)
        if c is True or (c is not False and bool(c)):
            out.append(nt.name)
        if kind(o) == 'SEQUENCE' and not (nt.isOptional or nt.isDefaulted):
            break
    return out


@op
def one_owner(w, ref, path, start, cls, num):
    """no identifier has two owners, unless it has them in the RFC's own ASN.1"""
    from vlib import pos
    o = real_at(w, ref, path)
    if o is None:
        return False, ('missing',)
    start = concrete(start)
    got = candidates(o, start, cls, num)
    if len(got) < 2:
        return True, ('one owner' if got else 'nobody',)
    want = candidates(pos.at(w.ref_obj(ref), path), start, cls, num)
    return got == want, ('ambiguous', tuple(got), tuple(want))


# -- C12 ----------------------------------------------------------------------

def part(t, path):
    """subtree of a tree at a path, or None"""
    for name in path.split('/')[1:]:
        if t[1] is None or t[0] not in CONTAINERS:
            return None
        if t[0].endswith(' OF'):
            if int(name) >= len(t[1]):
                return None
            t = t[1][int(name)][1]
            continue
        for n, x in t[1]:
            if n == name:
                t = x
                break
        else:
            return None
    return t


@op
def open_decode(w, ref, octets, path, governor, mp, payload, opaque, alt=None):
    """decoding with open types: the field holds what a separate decoding of
    its octets under the registered type gives, or the octets; nothing is lost"""
    mp = tuple(mp)
    a, v = decode(w.real_obj(ref), octets, decodeOpenTypes=True)
    plain, u = decode(w.real_obj(ref), octets)
    b = None
    if a[0] == 'ok':
        g = part(a[1], governor)
    elif plain[0] == 'ok':
        g = part(plain[1], governor)
    else:
        b, _ = decode(w.ref_obj(ref), octets, decodeOpenTypes=True)
        return conj(same_outcome(a, b)), (a,)
    if g is None:
        return False, ('no governor', a)
    k, ts = meant(w, mp, g[1])
    what = 'opaque'
    sep = None
    if k is not None:
        for m, t in ts:
            sep, _ = decode(w.builder.obj(t), payload, decodeOpenTypes=True)
            if sep[0] == 'ok' and not len(sep[2]) and a[0] == 'ok':
                if conj(same(part(a[1], path), sep[1])) is not False:
                    break
        what = 'resolved' if sep[0] == 'ok' and not len(sep[2]) else 'misfit'
    if a[0] != 'ok':
        if what == 'misfit':
            return a[0] == 'rejected', ('misfit',)
        # the codec itself may be unable
        b, _ = decode(w.ref_obj(ref), octets, decodeOpenTypes=True)
        return conj(same_outcome(a, b)), ('codec limit', a)
    if what == 'misfit':
        # octets left over after a value are dropped by the codec
        b, _ = decode(w.ref_obj(ref), octets, decodeOpenTypes=True)
        return conj(same_outcome(a, b)), ('misfit',)
    got = part(a[1], path)
    if got is None:
        return False, ('no value', a)
    if what == 'opaque':
        good = [got[0] == opaque and not a[2], got[1] == payload]
    else:
        s = same(got, sep[1])
        good = s if s is False else s + [not len(a[2])]
    ok = conj(good)
    if ok is False:
        return False, (what, a)
    if type(ok) is not bool and not bool(ok):
        return False, (what, a)
    e = encode(v)
    if e[0] == 'ok' and len(e[1]) == len(octets):
        same_octets = e[1] == octets
        if same_octets is True or (same_octets is not False and bool(same_octets)):
            return True, (what,)
        if alt and e[1] == alt[1]:
            return True, ('known:' + alt[0],)
    b, y = decode(w.ref_obj(ref), octets, decodeOpenTypes=True)
    if b[0] != 'ok':
        return False, (what, e, b)
    f = encode(y)
    if e[0] != f[0]:
        return False, (what, e, f)
    return (conj([e[1] == f[1]]) if e[0] == 'ok' else True), (what + ', codec limit',)
