"""Reference grammar: parser for ref/*.asn and the ASN.1 semantics the checks
need (resolution, constraints).  Nothing in here knows pyasn1 or /repo."""
import glob
import os
import re

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref')

# name -> (universal tag, constructed)
STRINGS = {'UTF8String': 12, 'NumericString': 18, 'PrintableString': 19, 'TeletexString': 20, 'T61String': 20,
           'VideotexString': 21, 'IA5String': 22, 'GraphicString': 25, 'VisibleString': 26, 'ISO646String': 26,
           'GeneralString': 27, 'UniversalString': 28, 'BMPString': 30, 'GeneralizedTime': 24, 'UTCTime': 23,
           'ObjectDescriptor': 7}
BUILTINS = {'BOOLEAN': 1, 'INTEGER': 2, 'BIT STRING': 3, 'OCTET STRING': 4, 'NULL': 5, 'OBJECT IDENTIFIER': 6, 'REAL': 9,
            'ENUMERATED': 10, 'SEQUENCE': 16, 'SEQUENCE OF': 16, 'SET': 17, 'SET OF': 17, 'CHOICE': None, 'ANY': None}
BUILTINS.update(STRINGS)
CONSTRUCTED = ('SEQUENCE', 'SEQUENCE OF', 'SET', 'SET OF')
CLASSES = {'UNIVERSAL': 0, 'APPLICATION': 64, 'PRIVATE': 192}
INF = None


class T(object):
    """type expression"""
    __slots__ = ('kind', 'ref', 'tags', 'comps', 'elem', 'names', 'cons', 'mod', 'where', '_n', 'quirk')

    def __init__(self, kind, mod):
        self.kind = kind        # builtin name or 'REF'
        self.ref = None
        self.tags = []          # outermost first: (explicit?, class, number)
        self.comps = None
        self.elem = None
        self.names = []
        self.cons = []
        self.mod = mod
        self.where = None
        self._n = None
        self.quirk = None       # known finding: outermost tag emitted in primitive form


class Comp(object):
    __slots__ = ('name', 'type', 'mode', 'default', 'by', 'first', 'quirk')

    def __init__(self, name, type):
        self.name = name
        self.type = type
        self.mode = ''
        self.default = None
        self.quirk = None       # known finding about the default: (name, other default or None)
        self.first = False      # first component of a type without required ones
        self.by = None          # (governor component, (module, map))


class Module(object):
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.oids = {}
        self.ints = {}
        self.presets = {}       # name -> (T, [(path, value)])
        self.maps = {}          # name -> (module, name) of the table it denotes
        self.entries = []       # ((module, map), key tuple/int, T)


TOK = re.compile(r'''\s+|--[^\n]*|(?P<str>"(?:\\.|[^"\\])*")|(?P<hex>'[0-9a-f]*'H)|(?P<oid>\d+(?:\.\d+)+(?!\.\.))'''
                 r'''|(?P<num>-?\d+)|(?P<name>[A-Za-z](?:[\w]|-(?!-)|\.(?=[A-Za-z]))*)|(?P<sym>::=|\.\.|[][{}(),|:=?@])''')


class Parser(object):
    def __init__(self, text, fn):
        self.toks = []
        pos = 0
        line = 1
        while pos < len(text):
            m = TOK.match(text, pos)
            if not m:
                raise SyntaxError('%s:%d: %r' % (fn, line, text[pos:pos + 30]))
            k = m.lastgroup
            if k:
                self.toks.append((k, m.group(), line))
            line += m.group().count('\n')
            pos = m.end()
        self.toks.append(('end', '', line))
        self.i = 0
        self.fn = fn

    def err(self, what):
        raise SyntaxError('%s:%d: expected %s, found %r' % (self.fn, self.toks[self.i][2], what, self.toks[self.i][1]))

    def peek(self, k=0):
        return self.toks[self.i + k][1]

    def kind(self, k=0):
        return self.toks[self.i + k][0]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t[1]

    def want(self, s):
        if self.peek() != s:
            self.err(repr(s))
        return self.next()

    def opt(self, s):
        if self.peek() == s and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def string(self):
        s = self.next()
        return re.sub(r'\\(.)', r'\1', s[1:-1])

    def module(self):
        self.want('MODULE')
        m = Module(self.next())
        self.mod = m.name
        while self.kind() != 'end':
            w = self.next()
            if w == 'MAP':
                n = self.next()
                m.maps[n] = self.qual(self.next()) if self.opt('::=') else (m.name, n)
            elif w == 'ENTRIES':
                mp = self.qual(self.next())
                self.want('{')
                while not self.opt('}'):
                    key = self.value()
                    self.want(':')
                    m.entries.append((mp, key, self.type()))
            elif self.peek() == 'OID':
                self.next()
                self.want('::=')
                v = self.next()
                m.oids[w] = tuple(int(x) for x in v.split('.'))
            elif self.peek() == 'INTEGER' and self.peek(1) == '::=':
                self.next()
                self.want('::=')
                m.ints[w] = int(self.next())
            elif self.opt('PRESET'):
                t = self.type()
                self.want('::=')
                self.want('{')
                vals = []
                while not self.opt('}'):
                    path = ''
                    while self.peek() != '=':
                        path += self.next()
                    self.next()
                    vals.append((path, self.value()))
                m.presets[w] = (t, vals)
            else:
                self.want('::=')
                m.types[w] = self.type()
        return m

    def qual(self, n):
        if '.' in n:
            a, b = n.split('.', 1)
            return (a, b)
        return (self.mod, n)

    def type(self):
        tags = []
        while self.opt('['):
            cls = 128
            if self.peek() in CLASSES:
                cls = CLASSES[self.next()]
            num = int(self.next())
            self.want(']')
            mode = self.next()
            if mode not in ('EXPLICIT', 'IMPLICIT'):
                self.err('EXPLICIT or IMPLICIT')
            tags.append((mode == 'EXPLICIT', cls, num))
        n = self.next()
        pre = []
        if n in ('SEQUENCE', 'SET'):
            while self.opt('('):
                pre.append(self.con())
                self.want(')')
            if pre and self.peek() != 'OF':
                self.err('OF')
        if n in ('SEQUENCE', 'SET') and self.peek() == 'OF':
            self.next()
            t = T(n + ' OF', self.mod)
            t.cons = pre
            t.elem = None if self.opt('?') else self.type()
        elif n in ('SEQUENCE', 'SET', 'CHOICE'):
            t = T(n, self.mod)
            t.comps = self.comps()
        elif n in ('BIT', 'OCTET', 'OBJECT'):
            t = T(n + ' ' + self.next(), self.mod)
        elif n in BUILTINS:
            t = T(n, self.mod)
        else:
            t = T('REF', self.mod)
            t.ref = self.qual(n)
        t.tags = tags
        if self.peek() == '{' and t.kind in ('INTEGER', 'ENUMERATED', 'BIT STRING', 'REF'):
            self.next()
            while not self.opt('}'):
                nm = self.string() if self.kind() == 'str' else self.next()
                self.want('(')
                t.names.append((nm, int(self.next())))
                self.want(')')
                self.opt(',')
        if self.peek() == 'FINDING':
            self.next()
            t.quirk = self.next()
        while self.peek() == '(' and self.kind() == 'sym':
            self.next()
            t.cons.append(self.con())
            self.want(')')
        return t

    def bound(self):
        s = self.next()
        return INF if s in ('MAX', 'MIN') else int(s)

    def con(self):
        if self.opt('SIZE'):
            lo = self.bound()
            self.want('..')
            return ('SIZE', lo, self.bound())
        if self.opt('FROM'):
            return ('FROM', self.string())
        if self.peek() in ('UNION', 'ALL'):
            k = self.next()
            out = []
            while self.opt('('):
                out.append(self.con())
                self.want(')')
            return (k, out)
        if self.opt('WITH'):
            out = []
            while True:
                n = self.next()
                out.append((n, self.next()))
                if not self.opt(','):
                    return ('WITH', out)
        if self.peek(1) == '..':
            lo = self.bound()
            self.next()
            return ('RANGE', lo, self.bound())
        vals = [self.value()]
        while self.opt('|'):
            vals.append(self.value())
        return ('VALUES', vals)

    def value(self):
        k = self.kind()
        if k == 'str':
            return ('text', self.string())
        s = self.next()
        if k == 'hex':
            return ('hex', bytes.fromhex(s[1:-2]))
        if k == 'oid':
            return ('oid', tuple(int(x) for x in s.split('.')))
        if k == 'num':
            return ('int', int(s))
        if s in ('TRUE', 'FALSE'):
            return ('bool', s == 'TRUE')
        self.i -= 1
        self.err('a value')

    def comps(self):
        self.want('{')
        out = []
        if self.opt('?'):
            self.want('}')
            return None
        while not self.opt('}'):
            n = self.string() if self.kind() == 'str' else self.next()
            c = Comp(n, self.type())
            while True:
                if self.opt('OPTIONAL'):
                    c.mode = 'OPTIONAL'
                elif self.opt('DEFAULT'):
                    c.mode = 'DEFAULT'
                    c.default = self.value()
                    if self.opt('FINDING'):
                        c.quirk = (self.next(), self.value()[1] if self.kind() == 'hex' else None)
                elif self.opt('BY'):
                    g = self.string() if self.kind() == 'str' else self.next()
                    c.by = (g, self.qual(self.next()))
                else:
                    break
            out.append(c)
            if self.peek() != '}':
                self.want(',')
        if out and all(c.mode for c in out):
            out[0].first = True
        return out


class Norm(object):
    """resolved type: kind builtin, tags [(class, number)] outermost first
    (complete list, universal tag included unless CHOICE/ANY), constructed
    flag per tag, accumulated constraints and names"""
    __slots__ = ('kind', 'tags', 'comps', 'elem', 'names', 'cons', 'origin', 'quirk')


class Ref(object):
    def __init__(self, refdir=REF):
        self.mods = {}
        for fn in sorted(glob.glob(os.path.join(refdir, '*.asn'))):
            with open(fn) as f:
                m = Parser(f.read(), os.path.basename(fn)).module()
            self.mods[m.name] = m
        self.tables = {}        # (module, map) -> {key: (contributing module, T)}
        self.writers = {}       # (module, map) -> {key: [(contributing module, T)]}
        for m in self.mods.values():
            for mp, key, t in m.entries:
                self.writers.setdefault(mp, {}).setdefault(key[1], []).append((m.name, t))
        self.cache = {}

    def lookup(self, ref):
        return self.mods[ref[0]].types[ref[1]]

    def final(self, ref):
        """(module, name) of the definition an alias chain of plain references ends at"""
        seen = set()
        while True:
            t = self.lookup(ref)
            if t.kind == 'REF' and not t.tags and not t.names and not t.cons and ref not in seen:
                seen.add(ref)
                ref = t.ref
            else:
                return ref

    def norm(self, t):
        if t._n is not None:
            return t._n
        n = Norm()
        if t.kind == 'REF':
            b = self.norm(self.lookup(t.ref))
            n.kind, n.comps, n.elem, n.origin = b.kind, b.comps, b.elem, b.origin
            n.names = t.names or b.names
            n.cons = b.cons + t.cons
            tags = list(b.tags)
        else:
            n.kind, n.comps, n.elem, n.names, n.cons = t.kind, t.comps, t.elem, t.names, t.cons
            n.origin = t
            u = BUILTINS[t.kind]
            tags = [] if u is None else [(0, u)]
        for expl, cls, num in reversed(t.tags):
            if expl or not tags:
                tags = [(cls, num)] + tags
            else:
                tags = [(cls, num)] + tags[1:]
        n.tags = tags
        n.quirk = t.quirk
        t._n = n
        return n


def constructed_at(n, i):
    """is the i-th (outermost first) tag of Norm n a constructed one?"""
    if i < len(n.tags) - 1:
        return True
    return n.kind in CONSTRUCTED or n.kind in ('CHOICE', 'ANY')
