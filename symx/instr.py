"""Loads the code under test from its current source with an AST rewrite that
routes calls, membership tests, subscripts and %-formatting through symx, so
that builtins implemented in C accept symbolic values."""
import ast
import base64
import binascii
import builtins
import functools
import importlib.abc
import importlib.util
import io
import itertools
import operator
import os
import re
import string
import sys
import types

import z3

from . import engine as E
from .engine import (SymInt, SymBool, SymBytes, SymStr, SymLen, SymStream, Inconclusive,
                     MAGIC_HASH, SYMTYPES, has_sym, sym_and, sym_not, int_from_octets)

BuiltinFn = type(len)
MethodWrapper = type(''.__add__)


class SymKey(object):
    """dict key holding a symbolic key"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


_SYMKEYED = {}       # id(dict) -> dict, dicts known to contain SymKey


def _hash_is_sym(k):
    t = type(k)
    if t is str or t is int or t is bytes:
        return False
    if t is tuple:
        for i in k:
            if _hash_is_sym(i):
                return True
        return False
    h = hash(k)
    return h == MAGIC_HASH


def sx_hash(x):
    if _hash_is_sym(x):
        return MAGIC_HASH
    return hash(x)


def _scan(d, key):
    """entry of mapping/set d whose key equals key (forks)"""
    for k in list(d):
        kk = k.k if type(k) is SymKey else k
        if type(kk) is str and type(key) is SymStr and len(kk) != len(key):
            continue
        r = (kk == key)
        if r is NotImplemented:
            continue
        if r:
            return True, k
    return False, None


def _lookup(d, key):
    if _hash_is_sym(key) or id(d) in _SYMKEYED:
        return _scan(d, key)
    if key in d:
        return True, key
    return False, None


DICTLIKE = (dict, set, frozenset, type({}.keys()), type({}.items()), types.MappingProxyType)


def sx_in(a, c):
    tc = type(c)
    if tc in SYMTYPES:
        return c.__contains__(a)
    if isinstance(c, DICTLIKE) and tc is not SymLen:
        try:
            if _hash_is_sym(a) or id(c) in _SYMKEYED:
                if isinstance(c, type({}.items())):
                    return any(bool(a == x) for x in c)
                return _scan(c, a)[0]
        except TypeError:
            raise
        return a in c
    if tc is str and type(a) is SymStr:
        return SymStr([ord(x) for x in c]).__contains__(a)
    if tc in (bytes, bytearray) and type(a) in (SymInt, SymBytes):
        return SymBytes(c).__contains__(a)
    return a in c


def sx_getitem(o, k):
    if isinstance(o, dict) and type(o) not in SYMTYPES:
        cls_get = type(o).__getitem__
        if cls_get is dict.__getitem__ and (id(o) in _SYMKEYED or _hash_is_sym(k)):
            ok, kk = _scan(o, k)
            if ok:
                return dict.__getitem__(o, kk)
            raise KeyError('<symbolic key>')
    return o[k]


def sx_setitem(o, k, v):
    if isinstance(o, dict) and type(o) not in SYMTYPES and type(o).__setitem__ is dict.__setitem__:
        if id(o) in _SYMKEYED or _hash_is_sym(k):
            ok, kk = _scan(o, k)
            if ok:
                dict.__setitem__(o, kk, v)
            else:
                dict.__setitem__(o, SymKey(k), v)
                _SYMKEYED[id(o)] = o
            return
    o[k] = v


def forget_symkeys():
    _SYMKEYED.clear()


def sx_modm(a, b):
    """%-formatting inside pyasn1: texts with %r are diagnostics only"""
    if type(a) is str and E.ENG is not None and '%r' in a:
        return '<diagnostic>'
    return sx_mod(a, b)


def formatted(a, b):
    """text with plain %s and %d only"""
    parts = re.split('(%[sd%])', a)
    if any('%' in p for p in parts[::2]):
        return None
    args = list(b) if type(b) is tuple else [b]
    if sum(1 for p in parts[1::2] if p != '%%') != len(args):
        return None
    out = ''
    for i, p in enumerate(parts):
        if i % 2 == 0:
            x = p
        elif p == '%%':
            x = '%'
        elif p == '%s':
            x = args.pop(0)
            v = getattr(x, '_value', x)
            x = str(E.ENG.concretize(v)) if type(v) is SymInt else m_str(x)
        else:
            x = m_int(args.pop(0))
            x = str(E.ENG.concretize(x) if type(x) is SymInt else x)
        if type(x) is SymLen:
            return None
        out = out + x
    return out


def text_of(x, conv=-1, spec=''):
    """format(x, spec) where x may hold symbolic parts"""
    if conv == 114 or conv == 97:
        return repr(x) if type(x) not in SYMTYPES else repr(E.ENG.concretize(x) if type(x) is SymInt else x.concrete())
    v = getattr(x, '_value', x)
    if type(v) is SymInt:
        x = E.ENG.concretize(v)
    elif spec and type(v) in (SymStr, SymBytes):
        x = v.concrete()
    if conv == 115 or not spec:
        return m_str(x)
    return format(x, spec)


def sx_fstring(*parts):
    out = ''
    for p in parts:
        out = out + (p if type(p) is str else text_of(*p))
    return out


def sx_format(s, *a, **k):
    if type(s) is not str or E.ENG is None:
        return sx_call(s.format, *a, **k)
    out = ''
    n = 0
    f = string.Formatter()
    for lit, field, spec, conv in f.parse(s):
        out = out + lit
        if field is None:
            continue
        if field == '' or not (field[0].isdigit() or field[0].isalpha() or field[0] == '_'):
            field = str(n) + field
            n += 1
        x, _ = f.get_field(field, a, k)
        out = out + text_of(x, ord(conv) if conv else -1, sx_format(spec, *a, **k) if '{' in spec else spec)
    return out


def sx_mod(a, b):
    if type(a) is str and E.ENG is not None:
        r = formatted(a, b)
        if r is not None:
            return r
    if type(a) is str and (has_sym(b) or (type(b) is tuple and any(has_sym(x) for x in b))):
        if '%d' in a or '%x' in a:
            return '<formatted symbolic value>'
    return a % b


# ---------------------------------------------------------------------------
# models of builtins

def m_len(x):
    if type(x) is SymLen:
        return x.n
    r = type(x).__len__ if hasattr(type(x), '__len__') else None
    if r is not None and isinstance(r, types.FunctionType):
        n = r(x)             # a Python-level __len__ may return a symbolic int
        if type(n) in (int, E.SymInt) and n < 0:
            raise ValueError('__len__() should return >= 0')
        return n
    return len(x)


def m_int(x=0, base=None):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return SymInt.lift(x)
    if t in (SymStr, SymBytes):
        c = x.concrete()
        return int(c) if base is None else int(c, base)
    # objects with a Python-level __int__/__index__ that may yield a SymInt
    for nm in ('__int__', '__index__', '__trunc__'):
        f = getattr(type(x), nm, None)
        if isinstance(f, types.FunctionType):
            r = f(x)
            if type(r) is SymInt:
                return r
            break
    return int(x) if base is None else int(x, base)


def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


def m_str(x='', *a, **k):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymBytes:
        if a or k:
            return x.decode(*a, **k)
        return '<symbolic octets>'
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType) and not a and not k:
        r = f(x)
        if type(r) is SymStr:
            return r
        if type(r) is SymLen:
            return r
    if t is SymLen:
        return x
    return str(x, *a, **k)


def m_bytes(x=b'', *a, **k):
    t = type(x)
    if t is SymBytes:
        return x
    if t is E.SymByteArray:
        return x.octets()
    if t is SymLen:
        return x
    if t is SymStr:
        return x.encode(*a, **k)
    if t is SymInt:
        return bytes(E.ENG.concretize(x))
    if t in (list, tuple) and has_sym(x):
        out = []
        for i in x:
            if i < 0 or i > 255:
                raise ValueError('bytes must be in range(0, 256)')
            out.append(i if type(i) is int or i.w == 9 else E._octet(z3.Extract(7, 0, i.at(max(i.w, 9)))))
        return SymBytes(out)
    f = getattr(type(x), '__bytes__', None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if type(r) in (SymBytes, SymLen):
            return r
        return bytes(r)
    if not isinstance(x, (bytes, bytearray, str, int, list, tuple)) and hasattr(x, '__iter__'):
        l = list(x)
        return m_bytes(l, *a, **k) if has_sym(l) else bytes(l, *a, **k)
    return bytes(x, *a, **k)


def m_ord(x):
    if type(x) in (SymBytes, SymStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.v[0]
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        if x < 0 or x > 255:
            return chr(E.ENG.concretize(x))
        return SymStr([x])
    return chr(x)


def m_BytesIO(x=b''):
    if type(x) in (SymBytes, E.SymByteArray) or not x:
        return SymStream(x)     # an empty one may be written symbolic octets to
    return io.BytesIO(x)


def m_StringIO(x='', newline='\n'):
    if type(x) is SymStr or not x:
        return E.SymText(x)
    return io.StringIO(x, newline)


def m_bytearray(x=b'', *a):
    if type(x) is str or type(x) is SymStr:
        x = m_bytes(x, *a)
    elif type(x) is int:
        x = bytes(x)
    elif type(x) not in (bytes, bytearray, memoryview, SymBytes, E.SymByteArray):
        x = m_bytes(list(x))
    return E.SymByteArray(x)


def m_memoryview(x):
    if type(x) in (SymBytes, E.SymByteArray):
        return SymBytes(list(x))
    return memoryview(x)


def sx_dict(pairs):
    d = {}
    for k, v in pairs:
        sx_setitem(d, k, v)
    return d


def sx_set(items):
    items = list(items)
    if any(_safe_sym(i) for i in items):
        return E.SymSet(items)
    return set(items)


def m_list(x=()):
    return list(x)


def m_float(x=0.0):
    if type(x) in SYMTYPES:
        return float(E.ENG.concretize(x)) if type(x) is SymInt else float(x.concrete())
    return float(x)


def m_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        d = dict(**k)
        for kk, v in a[0]:
            sx_setitem(d, kk, v)
        return d
    return dict(*a, **k)


def m_setctor(cls):
    def f(x=()):
        items = list(x)
        if any(_safe_sym(i) for i in items):
            return E.SymSet(items)
        return cls(items)
    return f


def _safe_sym(i):
    try:
        return _hash_is_sym(i)
    except TypeError:
        return False


B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


B64POS = {c: i for i, c in enumerate(B64)}


def b64val(c):
    """6-bit value of an alphabet character as a term"""
    e = c.at(9)
    bv = lambda n: z3.BitVecVal(n, 9)
    r = z3.If(z3.And(e >= bv(65), e <= bv(90)), e - bv(65),
              z3.If(z3.And(e >= bv(97), e <= bv(122)), e - bv(71),
                    z3.If(z3.And(e >= bv(48), e <= bv(57)), e + bv(4),
                          z3.If(e == bv(43), bv(62), bv(63)))))
    return SymInt(r, 9, 0, 63)


def b64class(c):
    """'a' alphabet, '=' padding, 'x' other"""
    if type(c) is int:
        return 'a' if c in B64POS else '=' if c == 61 else 'x'
    b = E._b
    isa = z3.Or(b(c == 43), b(c == 47), z3.And(b(c >= 48), b(c <= 57)),
                z3.And(b(c >= 65), b(c <= 90)), z3.And(b(c >= 97), b(c <= 122)))
    if SymBool(isa):
        return 'a'
    if c == 61:
        return '='
    return 'x'


def m_a2b_base64(s, strict_mode=False):
    """CPython binascii.a2b_base64: skips characters outside the
    alphabet, stops at a complete padded quad, errors on a partial quad."""
    if type(s) is SymStr:
        s = s.encode('ascii') if True else s
    elif isinstance(s, str):
        s = s.encode('ascii')
    v = SymBytes._elems(s)
    if v is None:
        raise TypeError('a bytes-like object is required')
    out = []
    quad_pos = 0
    leftchar = 0
    pads = 0
    padding_started = False
    for n, c in enumerate(v):
        k = b64class(c)
        if k == '=':
            if strict_mode and n == 0:
                raise binascii.Error('Leading padding not allowed')
            padding_started = True
            if quad_pos >= 2:
                pads += 1
                if quad_pos + pads >= 4:
                    if strict_mode and n + 1 < len(v):
                        raise binascii.Error('Excess data after padding')
                    return _mkbytes(out)
            continue
        if k == 'x':
            if strict_mode:
                raise binascii.Error('Only base64 data is allowed')
            continue
        if strict_mode and padding_started:
            raise binascii.Error('Discontinuous padding not allowed')
        pads = 0
        x = B64POS[c] if type(c) is int else b64val(c)
        if quad_pos == 0:
            quad_pos = 1
            leftchar = x
        elif quad_pos == 1:
            quad_pos = 2
            out.append((leftchar << 2) | (x >> 4))
            leftchar = x & 0x0f
        elif quad_pos == 2:
            quad_pos = 3
            out.append((leftchar << 4) | (x >> 2))
            leftchar = x & 0x03
        else:
            quad_pos = 0
            out.append((leftchar << 6) | x)
            leftchar = 0
    if quad_pos != 0:
        raise binascii.Error('Incorrect padding')
    return _mkbytes(out)


def _mkbytes(out):
    if all(type(x) is int for x in out):
        return bytes(out)
    return SymBytes([x if type(x) is int else E._octet(z3.Extract(7, 0, x.at(max(x.w, 9)))) for x in out])


def m_b64decode(s, altchars=None, validate=False):
    if not has_sym(s):
        return base64.b64decode(s, altchars, validate)
    if altchars is not None:
        if has_sym(altchars) or len(altchars) != 2:
            raise Inconclusive('b64decode altchars')
        return m_urlsafe_b64decode(s, altchars.encode('ascii') if isinstance(altchars, str) else altchars, validate)
    return m_a2b_base64(s, strict_mode=bool(validate))


def m_urlsafe_b64decode(s, altchars=b'-_', validate=False):
    if not has_sym(s):
        return base64.b64decode(s, altchars, validate)
    v = SymBytes._elems(s.encode('ascii') if type(s) is SymStr else s)
    return m_a2b_base64(SymBytes([43 if c == altchars[0] else 47 if c == altchars[1] else c for c in v]), strict_mode=bool(validate))


def m_standard_b64decode(s):
    return m_b64decode(s)


def m_decodebytes(s):
    if type(s) is SymStr or isinstance(s, str):
        raise TypeError('expected bytes-like object, not str')
    return m_a2b_base64(s)


def m_hash(x):
    return sx_hash(x)


def m_sorted(it, **k):
    return sorted(it, **k)


def m_from_bytes(b, byteorder='big', *, signed=False):
    if type(b) is SymBytes:
        return int_from_octets(b.v, byteorder, signed)
    if has_sym(list(b) if isinstance(b, (list, tuple)) else b):
        return int_from_octets(list(b), byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


def m_max(*a, **k):
    return max(*a, **k)


def m_repr(x):
    return repr(x)


def m_print(*a, **k):
    return None if any(has_sym(x) for x in a) else print(*a, **k)


NATURAL = {isinstance, issubclass, iter, next, enumerate, zip, map, filter, reversed, any, all, sum, min, max,
           sorted, tuple, list, getattr, setattr, hasattr, callable, id, type, repr, abs, divmod, range, slice,
           super, property, object, staticmethod, classmethod, hex, oct, bin, round, pow, format}

TABLE = {len: m_len, int: m_int, str: m_str, bytes: m_bytes, ord: m_ord, chr: m_chr, io.BytesIO: m_BytesIO,
         float: m_float, bool: m_bool, dict: m_dict, set: m_setctor(set), frozenset: m_setctor(frozenset),
         hash: m_hash, base64.b64decode: m_b64decode, base64.standard_b64decode: m_standard_b64decode,
         base64.urlsafe_b64decode: m_urlsafe_b64decode, base64.decodebytes: m_decodebytes,
         binascii.a2b_base64: m_a2b_base64, memoryview: m_memoryview}
TABLE.update({bytearray: m_bytearray, io.StringIO: m_StringIO})
# these must run even when no argument is visibly symbolic (the symbolic part is inside an object)
DEEP = {len, int, str, bytes, hash, dict, set, frozenset, bool, io.BytesIO, ord}


def _wrap(o):
    if isinstance(o, str):
        return SymStr([ord(c) for c in o])
    return SymBytes(o)


HIGHER = {map, filter, sorted, min, max, iter, functools.reduce, functools.partial, itertools.takewhile, itertools.dropwhile,
          itertools.filterfalse, itertools.starmap, itertools.accumulate, itertools.groupby}
OPERATOR = {getattr(operator, n) for n in dir(operator) if n[:1] != '_' and type(getattr(operator, n)) is BuiltinFn}


def lift(x):
    """a library function handed to another one that will call it"""
    t = type(x)
    if t is BuiltinFn or t is types.MethodDescriptorType or t is functools.partial or \
            t in (type, types.FunctionType) and x in TABLE:
        def lifted(*a, **k):
            return sx_call(x, *a, **k)
        lifted.plain = x
        return lifted
    return x


def sx_call(f, *a, **k):
    tf = type(f)
    if tf is functools.partial:
        return sx_call(f.func, *(f.args + a), **dict(f.keywords, **k))
    if tf in (type, BuiltinFn) and f in HIGHER:
        if f is not functools.partial:
            a = tuple([lift(x) for x in a])
            if 'key' in k:
                k['key'] = lift(k['key'])
        return f(*a, **k)
    if tf is types.MethodDescriptorType and a:
        # str.strip(x)
        if type(a[0]) in SYMTYPES:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if issubclass(f.__objclass__, (str, bytes, dict, set, frozenset, list)) and isinstance(a[0], f.__objclass__):
            if type(a[0]) is f.__objclass__:
                return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
    if a and type(a[0]) is E.SymByteArray and f is not len:
        a = (a[0].octets(),) + a[1:]
    if tf is types.FunctionType:
        if f in TABLE:
            return TABLE[f](*a, **k)
        return f(*a, **k)
    if tf is types.MethodType:
        return f(*a, **k)
    if tf is type:
        m = TABLE.get(f)
        if m is not None:
            return m(*a, **k)
        if len(a) == 1 and type(a[0]) is SymInt and f.__name__ == 'SizedInteger':
            return a[0].sized()
        return f(*a, **k)
    if tf is BuiltinFn:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            m = TABLE.get(f)
            if m is not None:
                return m(*a, **k)
            if f is operator.contains:
                return sx_in(a[1], a[0])
            if f is operator.getitem:
                return sx_getitem(*a)
            if f in NATURAL or f in OPERATOR:
                return f(*a, **k)
            if any(type(x) in SYMTYPES for x in a):
                mod = getattr(f, '__module__', None)
                raise Inconclusive('builtin %s.%s on a symbolic value' % (mod, f.__name__))
            return f(*a, **k)
        # bound method of a builtin object
        name = f.__name__
        if isinstance(s, type):
            if s is int and name == 'from_bytes':
                return m_from_bytes(*a, **k)
            if s is dict and name == 'fromkeys':
                d = {}
                for kk in a[0]:
                    sx_setitem(d, kk, a[1] if len(a) > 1 else None)
                return d
            return f(*a, **k)
        if isinstance(s, dict):
            if name == 'get':
                ok, kk = _lookup(s, a[0])
                return dict.__getitem__(s, kk) if ok else (a[1] if len(a) > 1 else k.get('default'))
            if name == 'setdefault':
                ok, kk = _lookup(s, a[0])
                if ok:
                    return dict.__getitem__(s, kk)
                v = a[1] if len(a) > 1 else None
                sx_setitem(s, a[0], v)
                return v
            if name == 'pop' and a:
                ok, kk = _lookup(s, a[0])
                if ok:
                    return dict.pop(s, kk)
                if len(a) > 1:
                    return a[1]
                raise KeyError('<key>')
            if name in ('__contains__',):
                return _lookup(s, a[0])[0]
            return f(*a, **k)
        if isinstance(s, (set, frozenset)):
            if name in ('add', 'discard', 'remove') and _safe_sym(a[0]):
                raise Inconclusive('symbolic value put into a set')
            return f(*a, **k)
        if isinstance(s, (str, bytes)):
            if name == 'join':
                parts = [x.octets() if type(x) is E.SymByteArray else x for x in a[0]]
                if any(type(x) in SYMTYPES for x in parts):
                    return _wrap(s).join(parts)
                return f(parts)
            if any(type(x) in SYMTYPES for x in a):
                if name == 'format':
                    return f(*a, **k)
                return getattr(_wrap(s), name)(*a, **k)
            return f(*a, **k)
        return f(*a, **k)
    if tf is MethodWrapper or isinstance(f, type):
        return f(*a, **k)
    return f(*a, **k)


KEEP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, whole=False):
        self.depth = 1 if whole else 0
        self.modname = modname
        self.path = []

    def _fn(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.generic_visit(node.args)
        self.depth += 1
        self.path.append(node.name)
        node.body = [x for b in node.body for x in _aslist(self.visit(b))]
        q = '%s.%s' % (self.modname, '.'.join(self.path))
        enter = ast.parse('sx__enter(%r)' % q).body[0]
        pos = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], 'value', None), ast.Constant):
            pos = 1
        ast.copy_location(enter, node)
        for x in ast.walk(enter):
            ast.copy_location(x, node)
        node.body.insert(pos, enter)
        self.path.pop()
        self.depth -= 1
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        self.path.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth or (isinstance(node.func, ast.Name) and node.func.id in KEEP):
            return node
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'format' and not self.modname.startswith('pyasn1.'):
            return ast.copy_location(ast.Call(_name('sx__format', node), [node.func.value] + node.args, node.keywords), node)
        return ast.copy_location(ast.Call(_name('sx__call', node), [node.func] + node.args, node.keywords), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        pair = ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node)
        gen = ast.copy_location(ast.GeneratorExp(pair, node.generators), node)
        return ast.copy_location(ast.Call(_name('sx__dict', node), [gen], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or all(k is None or isinstance(k, ast.Constant) for k in node.keys) or None in node.keys:
            return node
        pairs = [ast.copy_location(ast.Tuple([k, v], ast.Load()), node) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(_name('sx__dict', node), [ast.copy_location(ast.List(pairs, ast.Load()), node)], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        gen = ast.copy_location(ast.GeneratorExp(node.elt, node.generators), node)
        return ast.copy_location(ast.Call(_name('sx__set', node), [gen], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.depth or all(isinstance(x, ast.Constant) for x in node.elts):
            return node
        return ast.copy_location(ast.Call(_name('sx__set', node), [ast.copy_location(ast.List(node.elts, ast.Load()), node)], []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.ops) != 1:
            return node
        op = node.ops[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            c = ast.copy_location(ast.Call(_name('sx__in', node), [node.left, node.comparators[0]], []), node)
            if isinstance(op, ast.NotIn):
                c = ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
            return c
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(ast.Call(_name('sx__getitem', node), [node.value, _index(node.slice)], []), node)

    def visit_Assign(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            obj, key, val = self.visit(t.value), self.visit(t.slice), self.visit(node.value)
            call = ast.Call(_name('sx__setitem', node), [obj, _index(key), val], [])
            return ast.copy_location(ast.Expr(ast.copy_location(call, node)), node)
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(_name('sx__modm' if self.modname.startswith('pyasn1.') else 'sx__mod', node), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.depth or self.modname.startswith('pyasn1.'):
            return node
        parts = []
        for x in node.values:
            if isinstance(x, ast.FormattedValue):
                spec = x.format_spec or ast.Constant('')
                x = ast.Tuple([x.value, ast.Constant(x.conversion), spec], ast.Load())
            parts.append(x)
        return ast.copy_location(ast.Call(_name('sx__fstring', node), parts, []), node)


def _aslist(x):
    return x if isinstance(x, list) else [] if x is None else [x]


def _name(n, at):
    return ast.copy_location(ast.Name(n, ast.Load()), at)


def _index(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.copy_location(ast.Call(ast.Name('sx__slice', ast.Load()),
                                          [s.lower or none, s.upper or none, s.step or none], []), s)
    if isinstance(s, ast.Tuple):
        return ast.copy_location(ast.Tuple([_index(x) for x in s.elts], ast.Load()), s)
    return s


def sx_enter(q):
    if E.REC is not None:
        E.REC.add(q)


def install_builtins():
    builtins.sx__call = sx_call
    builtins.sx__in = sx_in
    builtins.sx__getitem = sx_getitem
    builtins.sx__setitem = sx_setitem
    builtins.sx__dict = sx_dict
    builtins.sx__set = sx_set
    builtins.sx__mod = sx_mod
    builtins.sx__modm = sx_modm
    builtins.sx__slice = slice
    builtins.sx__format = sx_format
    builtins.sx__fstring = sx_fstring
    builtins.sx__enter = sx_enter


def instrument(source, filename, modname, whole=False):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname, whole).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.InspectLoader):
    seen = {}

    def __init__(self, path, pkg):
        self.path = path
        self.pkg = pkg

    def is_package(self, fullname):
        return self.pkg

    def get_source(self, fullname):
        with open(self.path, encoding='utf-8') as f:
            return f.read()

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = self.get_source(module.__name__)
        key = (self.path, module.__name__, src)
        code = Loader.seen.get(key)
        if code is None:
            code = Loader.seen[key] = instrument(src, self.path, module.__name__)
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # top-level package -> directory of that package

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(root, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_loader(fullname, Loader(p, True), is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_loader(fullname, Loader(base + '.py', False))
        return None


def find_pyasn1():
    import glob
    c = sorted(glob.glob('/opt/venv/lib/python3*/site-packages/pyasn1'))
    if not c:
        raise Inconclusive('pyasn1 not found')
    return c[-1]


def install(repo='/repo'):
    install_builtins()
    sys.meta_path.insert(0, Finder({'pyasn1': find_pyasn1(),
                                    'pyasn1_modules': os.path.join(repo, 'pyasn1_modules')}))
    sys.dont_write_bytecode = True
