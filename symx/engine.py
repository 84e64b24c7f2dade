"""symx -- a small dynamic symbolic execution engine for Python on z3.

The code under test runs with proxy values (SymInt, SymBool, SymBytes, SymStr)
whose operations build z3 terms.  Every branch on a symbolic condition asks the
solver which sides are feasible and all feasible sides are explored (depth
first, by re-execution, with one incremental solver whose assertion stack
follows the path).  Integers are exact: machine-free two's complement vectors
that are widened by every operation, or unbounded z3 Int.

Nothing is sampled: an exploration either covers every path or raises
Inconclusive.
"""
import sys
import time
import z3

CTX = z3.main_ctx()


class Abort(BaseException):
    """Base of the engine's own control flow: never caught by code under test
    that catches Exception."""


class Infeasible(Abort):
    """assume() left no value."""


class Inconclusive(Abort):
    """limit reached, unknown from the solver or unsupported operation."""


class PathEnd(Abort):
    """harness ends this path deliberately."""


MAGIC_HASH = 0x5EED5EED5EED


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.proved = 0

    def add(self, o):
        for k in ('queries', 'solver_s', 'paths', 'branches', 'proved'):
            setattr(self, k, getattr(self, k) + getattr(o, k))


ENG = None       # the engine in force (one per process)
REC = None       # set that collects entered functions (first path of an exploration)


class Engine(object):
    def __init__(self, max_paths=20000, max_decisions=20000, timeout_ms=20000):
        self.stats = Stats()
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.timeout_ms = timeout_ms
        self.solver = None
        self.vars = {}
        self.functions = set()

    # -- solver plumbing -------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self._last_model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            self._last_model = self.solver.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown: %s' % self.solver.reason_unknown())
        return r == z3.sat

    def explore(self, harness, on_path=None, prefix=None):
        """Run harness() once per feasible path. harness returns a value that
        is handed to on_path(value) while the path condition is asserted.
        With a prefix (what steps() gave) only the one path it leads to is run."""
        global ENG, REC
        prev = ENG
        ENG = self
        REC = self.functions
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.decisions = []      # [expr, value, pending_alternative, pushed(, candidate)]
        for d in prefix or ():
            self.decisions.append([None] + list(d))
        self.vars = {}
        paths = 0
        try:
            while True:
                self.pos = 0
                self.fresh = 0
                self.pcmodel = None
                try:
                    res = harness()
                    ok = True
                except Infeasible:
                    ok = False
                except PathEnd:
                    ok = False
                if ok:
                    paths += 1
                    self.stats.paths += 1
                    if paths > self.max_paths:
                        raise Inconclusive('more than %d paths' % self.max_paths)
                    if on_path is not None:
                        on_path(res)
                REC = None
                if prefix is not None:
                    break
                # backtrack
                while self.decisions and not self.decisions[-1][2]:
                    d = self.decisions.pop()
                    if d[3]:
                        self.solver.pop()
                if not self.decisions:
                    break
                d = self.decisions[-1]
                self.solver.pop()
                d[1] = not d[1]
                d[2] = False
                self.solver.push()
                self.solver.add(d[0] if d[1] else z3.Not(d[0]))
        finally:
            ENG = prev
            REC = None
        return paths

    def steps(self):
        """decisions of the path just run"""
        return [d[1:] for d in self.decisions]

    @staticmethod
    def next_prefix(steps):
        """prefix of the next path, None after the last"""
        while steps and not steps[-1][1]:
            steps.pop()
        if not steps:
            return None
        d = steps[-1]
        steps[-1] = [not d[0], False, True] + list(d[3:])
        return steps

    def again(self, e):
        """decision taken before: the code must have come to the same point"""
        d = self.decisions[self.pos]
        if d[0] is None:
            d[0] = e
            if d[3]:
                self.solver.push()
                self.solver.add(e if d[1] else z3.Not(e))
        elif not d[0].eq(e):
            raise Inconclusive('a path took another course when run again')
        self.pos += 1
        return d[1]

    def branch(self, e):
        if self.pos < len(self.decisions):
            return self.again(e)
        if z3.is_true(e):
            t, f = True, False
        elif z3.is_false(e):
            t, f = False, True
        else:
            self.stats.branches += 1
            # a model of the path condition settles one side without a query
            m = self.pcmodel
            v = m.eval(e, model_completion=True) if m is not None else None
            if v is not None and z3.is_true(v):
                t = True
                f = self._check(z3.Not(e))
            elif v is not None and z3.is_false(v):
                f = True
                t = self._check(e)
                if t:
                    self.pcmodel = self._last_model
            else:
                t = self._check(e)
                if t:
                    self.pcmodel = self._last_model
                    f = self._check(z3.Not(e))
                else:
                    f = True
        if len(self.decisions) >= self.max_decisions:
            raise Inconclusive('more than %d decisions on a path' % self.max_decisions)
        both = t and f
        if both:
            self.solver.push()
            self.solver.add(e)
        self.decisions.append([e, t, both, both])
        self.pos += 1
        return t

    def assume(self, c):
        if isinstance(c, SymBool):
            e = c.e
        elif c is True or c is False:
            if not c:
                raise Infeasible()
            return
        else:
            e = c
        if self.pos < len(self.decisions):
            if not self.again(e):
                raise Infeasible()
            return
        m = self.pcmodel
        if m is not None and z3.is_true(m.eval(e, model_completion=True)):
            ok = True
        else:
            ok = self._check(e)
            self.pcmodel = self._last_model
        self.solver.push()
        self.solver.add(e)
        self.decisions.append([e, ok, False, True])
        self.pos += 1
        if not ok:
            raise Infeasible()

    def prove(self, e):
        """Is e valid under the current path condition?  Returns None if so,
        otherwise a z3 model of a counterexample."""
        if type(e) is SymBool:
            e = e.e
        elif isinstance(e, bool):
            e = z3.BoolVal(e)
        if self._check(z3.Not(e)):
            return self._last_model
        self.stats.proved += 1
        return None

    def model(self):
        if self.pcmodel is not None:
            return self.pcmodel
        if not self._check():
            raise Inconclusive('path condition unsatisfiable')
        return self._last_model

    # -- symbolic inputs ---------------------------------------------------
    def octet(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.BitVec(name, 8)
        return SymInt(z3.ZeroExt(1, v), 9, 0, 255)

    def bits(self, name, n):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.BitVec(name, n)
        return SymInt(z3.ZeroExt(1, v), n + 1, 0, (1 << n) - 1)

    def sint(self, name, n):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.BitVec(name, n)
        return SymInt(v, n, -(1 << (n - 1)), (1 << (n - 1)) - 1)

    def integer(self, name, lo=None, hi=None):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Int(name)
        x = SymInt(v, None, lo, hi)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return x

    def boolean(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Bool(name)
        return SymBool(v)

    def octets(self, name, n):
        return SymBytes([self.octet('%s_%d' % (name, i)) for i in range(n)])

    def concretize(self, x):
        """Fork over every feasible value of SymInt x."""
        n = 0
        while True:
            n += 1
            if n > 300:
                raise Inconclusive('concretisation of more than 300 values')
            if self.pos < len(self.decisions):
                # replay: the candidate value was stored in the decision
                d = self.decisions[self.pos]
                if len(d) < 5:
                    raise Inconclusive('a path took another course when run again')
                cand = d[4]
                e = (x == cand)
                if self.again(z3.BoolVal(e) if type(e) is bool else e.e):
                    return cand
                continue
            if not self._check():
                raise Inconclusive('path condition unsatisfiable')
            self.pcmodel = model = self._last_model
            cand = ev(model, x)
            e = (x == cand)
            if e is True:
                self.decisions.append([z3.BoolVal(True), True, False, False, cand])
                self.pos += 1
                return cand
            e = e.e
            f = self._check(z3.Not(e))
            if f:
                self.solver.push()
                self.solver.add(e)
            self.decisions.append([e, True, f, f, cand])
            self.pos += 1
            return cand


def ev(model, x):
    """Concrete value of x (proxy or plain, containers included) in model."""
    if isinstance_raw(x, SymInt):
        v = model.eval(x.e, model_completion=True)
        if x.w is None:
            return v.as_long()
        return v.as_signed_long()
    t = type(x)
    if t is SymBool:
        return z3.is_true(model.eval(x.e, model_completion=True))
    if t is SymBytes:
        return bytes(ev(model, i) for i in x.v)
    if t is SymStr:
        return ''.join(chr(ev(model, i)) for i in x.v)
    if t is SymLen:
        return ('len', ev(model, x.n))
    if t is tuple:
        return tuple(ev(model, i) for i in x)
    if t is list:
        return [ev(model, i) for i in x]
    if t is dict:
        return {k: ev(model, v) for k, v in x.items()}
    return x


def isinstance_raw(x, t):
    return type(x) is t


# ---------------------------------------------------------------------------

def _mk(e, w, lo, hi):
    if lo == hi:
        return lo
    return SymInt(e, w, lo, hi)


def _bits_for(lo, hi):
    """two's complement width that holds lo..hi"""
    n = 1
    if hi > 0:
        n = hi.bit_length() + 1
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


class SymBool(object):
    __slots__ = ('e',)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.e == o.e)
        if o is True or (type(o) is int and o == 1):
            return self
        if o is False or (type(o) is int and o == 0):
            return SymBool(z3.Not(self.e))
        return bool(self) == o

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        if o is True:
            return self
        if o is False:
            return False
        return SymBool(z3.And(self.e, o.e)) if type(o) is SymBool else int(bool(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if o is False:
            return self
        if o is True:
            return True
        return SymBool(z3.Or(self.e, o.e)) if type(o) is SymBool else int(bool(self)) | o
    __ror__ = __or__

    def __hash__(self):
        return MAGIC_HASH

    def __index__(self):
        return 1 if ENG.branch(self.e) else 0
    __int__ = __index__

    def __add__(self, o):
        return self.__index__() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.__index__() * o
    __rmul__ = __mul__

    def __repr__(self):
        return '<symbolic bool>'


def sym_not(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.e))
    return not x


def sym_and(xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


class SymInt(object):
    """w is None: unbounded z3 Int.  Otherwise e is a w-bit signed vector that
    represents the value exactly, lo <= value <= hi."""
    __slots__ = ('e', 'w', 'lo', 'hi', 'bitLength')
    __class__ = property(lambda self: int if self.bitLength is False else sys.modules['pyasn1.type.univ'].SizedInteger)

    def __init__(self, e, w, lo, hi):
        self.bitLength = False      # None or a number: stands for a SizedInteger
        self.e = e
        self.w = w
        self.lo = lo
        self.hi = hi

    # representation helpers
    def at(self, w):
        if w == self.w:
            return self.e
        if w > self.w:
            return z3.SignExt(w - self.w, self.e)
        return z3.Extract(w - 1, 0, self.e)

    def as_int(self):
        if self.w is None:
            return self.e
        return z3.BV2Int(self.e, True)

    @staticmethod
    def lift(o):
        t = type(o)
        if t is SymInt:
            return o
        if t is int:
            return o
        if t is bool:
            return int(o)
        if t is SymBool:
            return SymInt(z3.If(o.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 2, 0, 1)
        if issubclass(t, int):
            return int(o)
        return None

    def _pair(self, o, w):
        a = self.at(w)
        b = o.at(w) if type(o) is SymInt else z3.BitVecVal(o, w)
        return a, b

    # comparisons ----------------------------------------------------------
    def _cmp(self, o, op):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if type(o) is int:
            olo = ohi = o
        else:
            olo, ohi = o.lo, o.hi
        lo, hi = self.lo, self.hi
        if op == '==':
            if (lo is not None and ohi is not None and ohi < lo) or (hi is not None and olo is not None and olo > hi):
                return False
        elif op == '<':
            if hi is not None and olo is not None and hi < olo:
                return True
            if lo is not None and ohi is not None and lo >= ohi:
                return False
        elif op == '<=':
            if hi is not None and olo is not None and hi <= olo:
                return True
            if lo is not None and ohi is not None and lo > ohi:
                return False
        if self.w is None or (type(o) is SymInt and o.w is None):
            a = self.as_int()
            b = o.as_int() if type(o) is SymInt else z3.IntVal(o)
        else:
            w = max(self.w, o.w if type(o) is SymInt else _bits_for(min(o, 0), max(o, 0)))
            a, b = self._pair(o, w)
        if op == '==':
            return SymBool(a == b)
        if op == '<':
            return SymBool(a < b)
        return SymBool(a <= b)

    def __eq__(self, o):
        if type(o) is float:
            if o == float('inf') or o == float('-inf') or o != int(o):
                return False
            o = int(o)
        r = self._cmp(o, '==')
        if r is NotImplemented:
            if type(o) in (str, bytes, tuple, list, dict, type(None), SymBytes, SymStr):
                return False
            return NotImplemented
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    @staticmethod
    def _float(o):
        if type(o) is float and o not in (float('inf'), float('-inf')) and o == int(o):
            return int(o)
        return o

    def __lt__(self, o):
        if type(o) is float:
            if o == float('inf'):
                return True
            if o == float('-inf'):
                return False
            o = self._float(o)
        return self._cmp(o, '<')

    def __le__(self, o):
        if type(o) is float:
            if o == float('inf'):
                return True
            if o == float('-inf'):
                return False
            o = self._float(o)
        return self._cmp(o, '<=')

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else sym_not(r)

    # arithmetic -----------------------------------------------------------
    def _arith(self, o, op, rev=False):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if self.w is None or (type(o) is SymInt and o.w is None):
            a = self.as_int()
            b = o.as_int() if type(o) is SymInt else z3.IntVal(o)
            if rev:
                a, b = b, a
            e = a + b if op == '+' else a - b if op == '-' else a * b
            return SymInt(e, None, None, None)
        olo, ohi = (o, o) if type(o) is int else (o.lo, o.hi)
        alo, ahi, blo, bhi = self.lo, self.hi, olo, ohi
        if rev:
            alo, ahi, blo, bhi = blo, bhi, alo, ahi
        if op == '+':
            lo, hi = alo + blo, ahi + bhi
        elif op == '-':
            lo, hi = alo - bhi, ahi - blo
        else:
            c = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
            lo, hi = min(c), max(c)
        w = max(_bits_for(min(lo, 0), max(hi, 0)), self.w, o.w if type(o) is SymInt else _bits_for(min(o, 0), max(o, 0)))
        a, b = self._pair(o, w)
        if rev:
            a, b = b, a
        e = a + b if op == '+' else a - b if op == '-' else a * b
        return _mk(e, w, lo, hi)

    def __add__(self, o):
        return self._arith(o, '+')

    def __radd__(self, o):
        return self._arith(o, '+')

    def __sub__(self, o):
        return self._arith(o, '-')

    def __rsub__(self, o):
        return self._arith(o, '-', True)

    def __mul__(self, o):
        if type(o) in (bytes, str, list, tuple):
            return o * ENG.concretize(self)
        return self._arith(o, '*')
    __rmul__ = __mul__

    def __neg__(self):
        return self._arith(0, '-', True)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self < 0:
            return -self
        return self

    def __invert__(self):
        return self._arith(-1, '-', True)

    def _bit(self, o, op):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if self.w is None or (type(o) is SymInt and o.w is None):
            raise Inconclusive('bit operation on an unbounded integer')
        olo, ohi, ow = (o, o, _bits_for(min(o, 0), max(o, 0))) if type(o) is int else (o.lo, o.hi, o.w)
        w = max(self.w, ow)
        a, b = self._pair(o, w)
        if op == '&':
            e = a & b
            if self.lo >= 0 and olo >= 0:
                lo, hi = 0, min(self.hi, ohi)
            elif olo >= 0:
                lo, hi = 0, ohi
            elif self.lo >= 0:
                lo, hi = 0, self.hi
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            e = a | b if op == '|' else a ^ b
            if self.lo >= 0 and olo >= 0:
                lo, hi = 0, (1 << max(self.hi.bit_length(), ohi.bit_length())) - 1
                if op == '|':
                    lo = max(self.lo, olo)
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return _mk(e, w, lo, hi)

    def __and__(self, o):
        return self._bit(o, '&')
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, '|')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, '^')
    __rxor__ = __xor__

    def __lshift__(self, o):
        if type(o) is SymInt:
            o = ENG.concretize(o)
        if self.w is None:
            return self * (1 << o)
        w = self.w + o
        return _mk(self.at(w) << o, w, self.lo << o, self.hi << o)

    def __rlshift__(self, o):
        return o << ENG.concretize(self)

    def __rshift__(self, o):
        if type(o) is SymInt:
            o = ENG.concretize(o)
        if self.w is None:
            raise Inconclusive('shift of an unbounded integer')
        lo, hi = self.lo >> o, self.hi >> o
        if o >= self.w:
            e = z3.If(self.e < 0, z3.BitVecVal(-1, self.w), z3.BitVecVal(0, self.w))
        else:
            e = self.e >> o
        r = _mk(e, self.w, lo, hi)
        if type(r) is SymInt:
            w = _bits_for(min(lo, 0), max(hi, 0))
            if w < r.w:
                r = SymInt(z3.Extract(w - 1, 0, r.e), w, lo, hi)
        return r

    def __rrshift__(self, o):
        return o >> ENG.concretize(self)

    def __divmod__(self, o):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            o = ENG.concretize(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if self.w is None:
            if o < 0:
                raise Inconclusive('division by a negative number')
            return (SymInt(self.e / o, None, None, None), SymInt(self.e % o, None, None, None))
        if o > 0 and o & (o - 1) == 0:
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        if o < 0 or self.lo < 0:
            raise Inconclusive('general signed division')
        w = max(self.w, _bits_for(0, o))
        a, b = self._pair(o, w)
        return (_mk(z3.UDiv(a, b), w, self.lo // o, self.hi // o),
                _mk(z3.URem(a, b), w, 0, min(self.hi, o - 1)))

    def __floordiv__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __rfloordiv__(self, o):
        return o // ENG.concretize(self)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % ENG.concretize(self)
        return o % ENG.concretize(self)

    def __rdivmod__(self, o):
        return divmod(o, ENG.concretize(self))

    def __pow__(self, o, m=None):
        return pow(ENG.concretize(self), o if type(o) is not SymInt else ENG.concretize(o), m)

    def __rpow__(self, o):
        return o ** ENG.concretize(self)

    def __truediv__(self, o):
        return ENG.concretize(self) / o

    def __bool__(self):
        r = self.__ne__(0)
        return r if type(r) is bool else bool(r)

    def __index__(self):
        return ENG.concretize(self)

    def __int__(self):
        return ENG.concretize(self)

    def __float__(self):
        return float(ENG.concretize(self))

    def __hash__(self):
        return MAGIC_HASH

    def bit_length(self):
        if self.w is None:
            raise Inconclusive('bit_length of an unbounded integer')
        x = abs(self)
        if type(x) is int:
            return x.bit_length()
        a, b = max(x.lo, 0).bit_length(), x.hi.bit_length()
        if a == b:
            return a
        w = b.bit_length() + 1
        xw = max(x.w, b + 1)
        xe = x.at(xw)
        e = z3.BitVecVal(a, w)
        for n in range(a, b):
            e = z3.If(z3.UGE(xe, z3.BitVecVal(1 << n, xw)), z3.BitVecVal(n + 1, w), e)
        return SymInt(e, w, a, b)

    def sized(self):
        r = SymInt(self.e, self.w, self.lo, self.hi)
        r.bitLength = None
        return r

    def setBitLength(self, n):
        self.bitLength = n
        return self

    @property
    def leadingZeroBits(self):
        if not self.bitLength:
            return self.bitLength
        return max(self.bitLength - self.bit_length(), 0)

    def __len__(self):
        if self.bitLength is False:
            raise TypeError("object of type 'int' has no len()")
        if self.bitLength is None:
            self.bitLength = int(self.bit_length())
        return self.bitLength

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        length = int(length)
        if signed:
            lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if length else (0, 0)
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
        if not signed and self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self < lo or self > hi:
            raise OverflowError('int too big to convert')
        if self.w is None:
            raise Inconclusive('to_bytes of an unbounded integer')
        w = max(self.w, 8 * length + 1)
        e = self.at(w)
        out = [_octet(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        return SymBytes(out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    def is_integer(self):
        return True

    def __repr__(self):
        return '<symbolic int>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<symbolic int>'

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _octet(e8):
    e8 = z3.simplify(e8)
    if z3.is_bv_value(e8):
        return e8.as_long()
    return SymInt(z3.ZeroExt(1, e8), 9, 0, 255)


def int_from_octets(v, byteorder='big', signed=False):
    v = list(v)
    if byteorder == 'little':
        v.reverse()
    if not v:
        return 0
    if all(type(x) is int for x in v):
        return int.from_bytes(bytes(v), 'big', signed=signed)
    parts = [z3.BitVecVal(x, 8) if type(x) is int else z3.Extract(7, 0, x.at(max(x.w, 9))) for x in v]
    e = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    n = 8 * len(v)
    if signed:
        return SymInt(e, n, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return SymInt(z3.ZeroExt(1, e), n + 1, 0, (1 << n) - 1)


# ---------------------------------------------------------------------------

class SymSeq(object):
    __slots__ = ('v',)
    elem_hi = 255

    def __init__(self, v):
        self.v = list(v)

    @classmethod
    def _elems(cls, o):
        raise NotImplementedError

    def _new(self, v):
        return type(self)(v)

    def __len__(self):
        return len(self.v)

    def __bool__(self):
        return bool(self.v)

    def __hash__(self):
        if any(type(x) is not int for x in self.v):
            return MAGIC_HASH
        return hash(self.plain())

    def is_plain(self):
        return all(type(x) is int for x in self.v)

    def concrete(self):
        """fork over all values"""
        return type(self)([x if type(x) is int else ENG.concretize(x) for x in self.v]).plain()

    def __eq__(self, o):
        q = o
        o = self._elems(o)
        if o is None:
            # objects of the library get their reflected comparison
            return NotImplemented if type(q).__module__.startswith('pyasn1') else False
        if len(o) != len(self.v):
            return False
        return sym_and([a == b for a, b in zip(self.v, o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _lex(self, o, strict):
        o = self._elems(o)
        if o is None:
            return NotImplemented
        for a, b in zip(self.v, o):
            if a == b:
                continue
            return bool(a < b)
        return len(self.v) < len(o) if strict else len(self.v) <= len(o)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else not r

    def __add__(self, o):
        o = self._elems(o)
        if o is None:
            return NotImplemented
        return self._new(self.v + o)

    def __radd__(self, o):
        o = self._elems(o)
        if o is None:
            return NotImplemented
        return self._new(o + self.v)

    def __mul__(self, n):
        return self._new(self.v * int(n))
    __rmul__ = __mul__

    def __contains__(self, o):
        return self.find(o) >= 0 if not isinstance(o, int) else any(x == o for x in self.v)

    def startswith(self, p, start=0, end=None):
        if type(p) is tuple:
            return any(self.startswith(x, start, end) for x in p)
        p = self._elems(p)
        v = self.v[start:end]
        if len(p) > len(v):
            return False
        return bool(sym_and([a == b for a, b in zip(v, p)]))

    def endswith(self, p, start=0, end=None):
        if type(p) is tuple:
            return any(self.endswith(x, start, end) for x in p)
        p = self._elems(p)
        v = self.v[start:end]
        if len(p) > len(v):
            return False
        return bool(sym_and([a == b for a, b in zip(v[len(v) - len(p):], p)]))

    def find(self, p, start=0, end=None):
        p = self._elems(p)
        v = self.v[:end] if end is not None else self.v
        for i in range(start or 0, len(v) - len(p) + 1):
            if sym_and([a == b for a, b in zip(v[i:i + len(p)], p)]):
                return i
        return -1

    def index(self, p, start=0, end=None):
        r = self.find(p, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, p):
        p = self._elems(p)
        n = i = 0
        while i <= len(self.v) - len(p):
            if sym_and([a == b for a, b in zip(self.v[i:i + len(p)], p)]):
                n += 1
                i += max(1, len(p))
            else:
                i += 1
        return n

    def _isspace(self, c):
        raise NotImplementedError

    def _stripset(self, chars):
        if chars is None:
            return self._isspace
        chars = self._elems(chars)

        def f(c):
            for x in chars:
                if c == x:
                    return True
            return False
        return f

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        i = 0
        while i < len(self.v) and f(self.v[i]):
            i += 1
        return self._new(self.v[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        i = len(self.v)
        while i > 0 and f(self.v[i - 1]):
            i -= 1
        return self._new(self.v[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def replace(self, old, new, count=-1):
        old, new = self._elems(old), self._elems(new)
        if not old:
            raise Inconclusive('replace of an empty string')
        out = []
        i = n = 0
        while i < len(self.v):
            if i + len(old) <= len(self.v) and (count < 0 or n < count) and \
                    sym_and([a == b for a, b in zip(self.v[i:i + len(old)], old)]):
                out += new
                i += len(old)
                n += 1
            else:
                out.append(self.v[i])
                i += 1
        return self._new(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        cur = []
        if sep is None:
            for c in self.v:
                if self._isspace(c):
                    if cur:
                        out.append(self._new(cur))
                        cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(self._new(cur))
            if maxsplit >= 0:
                raise Inconclusive('split with maxsplit')
            return out
        sep = self._elems(sep)
        i = 0
        while i < len(self.v):
            if i + len(sep) <= len(self.v) and (maxsplit < 0 or len(out) < maxsplit) and \
                    sym_and([a == b for a, b in zip(self.v[i:i + len(sep)], sep)]):
                out.append(self._new(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(self.v[i])
                i += 1
        out.append(self._new(cur))
        return out

    def ljust(self, n, fill=None):
        f = self._fill if fill is None else self._elems(fill)[0]
        return self._new(self.v + [f] * (n - len(self.v)))

    def rjust(self, n, fill=None):
        f = self._fill if fill is None else self._elems(fill)[0]
        return self._new([f] * (n - len(self.v)) + self.v)
    _fill = 32

    def removeprefix(self, p):
        return self._new(self.v[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return self._new(self.v[:len(self.v) - len(p)]) if len(p) and self.endswith(p) else self

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out += self.v
            first = False
            e = self._elems(p)
            if e is None:
                raise TypeError('sequence item: wrong type')
            out += e
        return self._new(out)

    def splitlines(self, keepends=False):
        out = []
        cur = []
        i = 0
        v = self.v
        while i < len(v):
            c = v[i]
            cur.append(c)
            end = None
            if c == 13:
                end = 1
                if i + 1 < len(v) and v[i + 1] == 10:
                    cur.append(v[i + 1])
                    i += 1
                    end = 2
            elif self._islinebreak(c):
                end = 1
            if end:
                out.append(self._new(cur if keepends else cur[:-end]))
                cur = []
            i += 1
        if cur:
            out.append(self._new(cur))
        return out

    def _islinebreak(self, c):
        return bool(c == 10)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return '<symbolic>'


WIDE = {'utf-16-be': 2, 'utf-16be': 2, 'utf-32-be': 4, 'utf-32be': 4}


class SymBytes(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)

    @classmethod
    def _elems(cls, o):
        t = type(o)
        if t is SymBytes or t is SymByteArray:
            return o.v
        if t in (bytes, bytearray, memoryview):
            return list(o)
        return None

    def plain(self):
        return bytes(self.v)

    def __getitem__(self, i):
        if type(i) is slice:
            return SymBytes(self.v[i])
        if type(i) is SymInt:
            i = ENG.concretize(i)
        return self.v[i]

    def __iter__(self):
        return iter(list(self.v))

    def _isspace(self, c):
        if type(c) is int:
            return c in (9, 10, 11, 12, 13, 32)
        return bool(SymBool(z3.Or(_b(c == 32), z3.And(_b(c >= 9), _b(c <= 13)))))

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if self.is_plain():
            return self.plain().decode(encoding, errors)
        if enc in ('us-ascii', 'ascii', '646', 'utf-8', 'utf8', 'iso-8859-1', 'latin-1', 'latin1', 'l1', 'iso8859-1', 'cp1252'):
            if enc in ('iso-8859-1', 'latin-1', 'latin1', 'l1', 'iso8859-1'):
                return SymStr(self.v)
            if enc == 'cp1252':
                raise Inconclusive('cp1252')
            out = []
            i = 0
            while i < len(self.v):
                c = self.v[i]
                i += 1
                if c > 127:
                    if enc in ('us-ascii', 'ascii', '646'):
                        raise UnicodeDecodeError('ascii', b'\x80', 0, 1, 'ordinal not in range(128)')
                    # two octets for U+0080..00FF; anything else is enumerated
                    if i < len(self.v) and sym_and([c >= 0xC2, c <= 0xC3, self.v[i] >= 0x80, self.v[i] <= 0xBF]):
                        c = ((c & 3) << 6) | (self.v[i] & 0x3F)
                        i += 1
                    else:
                        return self.concrete().decode(encoding, errors)
                out.append(c)
            return SymStr(out)
        w = WIDE.get(enc)
        if w:
            # code points below 256; others are enumerated
            out = []
            if len(self.v) % w:
                return self.concrete().decode(encoding, errors)
            for i in range(0, len(self.v), w):
                if sym_and([x == 0 for x in self.v[i:i + w - 1]]):
                    out.append(self.v[i + w - 1])
                else:
                    return self.concrete().decode(encoding, errors)
            return SymStr(out)
        return self.concrete().decode(encoding, errors)

    def hex(self, *a):
        return self.concrete().hex(*a)

    def tobytes(self):
        return self

    def __repr__(self):
        return '<symbolic octets>'
    __str__ = __repr__

    def __bytes__(self):
        return self.concrete()


class SymStr(SymSeq):
    """text over code points 0..255"""
    __slots__ = ()
    __class__ = property(lambda self: str)

    @classmethod
    def _elems(cls, o):
        t = type(o)
        if t is SymStr:
            return o.v
        if isinstance(o, str):
            return [ord(c) for c in o]
        return None

    def plain(self):
        return ''.join(map(chr, self.v))

    def __getitem__(self, i):
        if type(i) is slice:
            return SymStr(self.v[i])
        if type(i) is SymInt:
            i = ENG.concretize(i)
        return SymStr([self.v[i]])

    def __iter__(self):
        return iter([SymStr([c]) if type(c) is not int else chr(c) for c in self.v])

    def _isspace(self, c):
        if type(c) is int:
            return chr(c).isspace()
        # 9..13, 28..32, 133, 160
        return bool(SymBool(z3.Or(z3.And(_b(c >= 9), _b(c <= 13)),
                                  _b(c == 133), _b(c == 160), z3.And(_b(c >= 28), _b(c <= 32)))))

    def _islinebreak(self, c):
        if type(c) is int:
            return c in (10, 11, 12, 13, 28, 29, 30, 133)
        return bool(SymBool(z3.Or(z3.And(_b(c >= 10), _b(c <= 13)), z3.And(_b(c >= 28), _b(c <= 30)), _b(c == 133))))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if self.is_plain():
            return self.plain().encode(encoding, errors)
        if enc in ('iso-8859-1', 'latin-1', 'latin1', 'l1', 'iso8859-1'):
            return SymBytes(self.v)
        if enc in ('us-ascii', 'ascii', '646', 'utf-8', 'utf8'):
            out = []
            for c in self.v:
                if c > 127:
                    if enc in ('us-ascii', 'ascii', '646'):
                        raise UnicodeEncodeError('ascii', '\x80', 0, 1, 'ordinal not in range(128)')
                    out.append((c >> 6) | 0xC0)
                    out.append((c & 0x3F) | 0x80)
                else:
                    out.append(c)
            return SymBytes(out)
        w = WIDE.get(enc)
        if w:
            out = []
            for c in self.v:
                out += [0] * (w - 1) + [c]
            return SymBytes(out)
        return self.concrete().encode(encoding, errors)

    def isspace(self):
        return bool(self.v) and all(self._isspace(c) for c in self.v)

    def _map(self, f):
        return SymStr([f(c) for c in self.v])

    def upper(self):
        return self._map(lambda c: ord(chr(c).upper()) if type(c) is int else
                         (c - 32 if (c >= 97 and c <= 122) else c if c < 128 else _nonascii()))

    def lower(self):
        return self._map(lambda c: ord(chr(c).lower()) if type(c) is int else
                         (c + 32 if (c >= 65 and c <= 90) else c if c < 128 else _nonascii()))

    def isdigit(self):
        return bool(self.v) and all(bool(c >= 48) and bool(c <= 57) for c in self.v)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self._new(self.v[:i]), sep, self._new(self.v[i + len(sep):])

    def __mod__(self, o):
        return self.concrete() % o

    def __repr__(self):
        return '<symbolic text>'
    __str__ = __repr__

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)


def _nonascii():
    raise Inconclusive('case mapping of non-ASCII text')


def _b(x):
    return x.e if type(x) is SymBool else z3.BoolVal(bool(x))


class SymLen(object):
    """A value of which only the length matters: octets, text, bits or a
    collection of symbolic size."""
    __slots__ = ('n', 'kind')

    def __init__(self, n, kind):
        self.n = n
        self.kind = kind

    @property
    def __class__(self):
        return {'octets': bytes, 'text': str, 'map': dict, 'seq': list}.get(self.kind, SymLen)

    def __hash__(self):
        return MAGIC_HASH

    def __bool__(self):
        return bool(self.n > 0)

    def __len__(self):
        return ENG.concretize(self.n)

    def encode(self, *a):
        return SymLen(self.n, 'octets')

    def decode(self, *a):
        return SymLen(self.n, 'text')

    def __repr__(self):
        return '<symbolic-length %s>' % self.kind
    __str__ = __repr__


class SymByteArray(SymBytes):
    """bytearray whose octets may be symbolic"""
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def __init__(self, v=b''):
        self.v = list(v.v if type(v) in (SymBytes, SymByteArray) else v)

    def octets(self):
        return bytes(self.v) if self.is_plain() else SymBytes(self.v)

    def plain(self):
        return bytearray(self.v)

    def __getitem__(self, i):
        if type(i) is slice:
            return SymByteArray(self.v[i])
        return SymBytes.__getitem__(self, i)

    def __setitem__(self, i, x):
        self.v[i] = list(x) if type(i) is slice else x

    def __delitem__(self, i):
        del self.v[i]

    def append(self, x):
        self.v.append(x)

    def extend(self, x):
        self.v.extend(list(x))

    def __iadd__(self, x):
        e = self._elems(x)
        if e is None:
            raise TypeError("can't concat %s to bytearray" % type(x).__name__)
        self.v.extend(e)
        return self

    def clear(self):
        del self.v[:]

    def copy(self):
        return SymByteArray(self.v)

    def decode(self, *a, **k):
        return SymBytes(self.v).decode(*a, **k)


class SymSet(object):
    """set with symbolic members, kept as a list"""
    def __init__(self, items=()):
        self._v = []
        for x in items:
            self.add(x)

    @property
    def __class__(self):
        return set

    __hash__ = None

    def __contains__(self, x):
        return any(bool(x == y) for y in self._v)

    def add(self, x):
        if x not in self:
            self._v.append(x)

    def discard(self, x):
        self._v = [y for y in self._v if not bool(x == y)]

    def remove(self, x):
        if x not in self:
            raise KeyError('<member>')
        self.discard(x)

    def __iter__(self):
        return iter(list(self._v))

    def __len__(self):
        return len(self._v)


class SymStream(object):
    """io.BytesIO over octets that may be symbolic (concrete length)."""
    def __init__(self, v=b''):
        self._v = list(SymBytes._elems(v))
        self._p = 0

    @property
    def __class__(self):
        import io
        return io.BytesIO

    def read(self, n=-1):
        if n is None or n < 0:
            r = self._v[self._p:]
        else:
            if type(n) is SymInt:
                if n > 0x7fffffffffffffff:
                    raise OverflowError("cannot fit 'int' into an index-sized integer")
                left = max(0, len(self._v) - self._p)
                n = left if n >= left else int(n)
            if n > 0x7fffffffffffffff:
                raise OverflowError("cannot fit 'int' into an index-sized integer")
            r = self._v[self._p:self._p + n]
        self._p += len(r)
        if all(type(x) is int for x in r):
            return bytes(r)
        return SymBytes(r)

    def tell(self):
        return self._p

    def seek(self, n, whence=0):
        n = int(n)
        if whence == 0:
            self._p = n
        elif whence == 1:
            self._p = max(0, self._p + n)
        else:
            self._p = max(0, len(self._v) + n)
        return self._p

    def seekable(self):
        return True

    def readable(self):
        return True

    def getvalue(self):
        if all(type(x) is int for x in self._v):
            return bytes(self._v)
        return SymBytes(self._v)

    def write(self, x):
        e = SymBytes._elems(x)
        if e is None:
            raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)
        self._v[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)

    def truncate(self, n=None):
        del self._v[self._p if n is None else n:]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def peek(self, n):
        return SymBytes(self._v[self._p:self._p + n])

    def close(self):
        pass


SYM = (SymInt, SymBool, SymBytes, SymStr, SymLen, SymByteArray)
SYMTYPES = frozenset(SYM)


def has_sym(x, depth=4):
    t = type(x)
    if t in SYMTYPES or t is SymStream:
        return True
    if depth and t in (list, tuple):
        for i in x:
            if has_sym(i, depth - 1):
                return True
    return False


class SymText(object):
    """io.StringIO over characters that may be symbolic"""
    def __init__(self, v=''):
        self._v = list(SymStr._elems(v))
        self._p = 0
        self.closed = False

    @property
    def __class__(self):
        import io
        return io.StringIO

    def _out(self, r):
        self._p += len(r)
        if all(type(x) is int for x in r):
            return ''.join(map(chr, r))
        return SymStr(r)

    def read(self, n=-1):
        if n is None or n < 0:
            return self._out(self._v[self._p:])
        return self._out(self._v[self._p:self._p + int(n)])

    def readline(self, size=-1):
        r = []
        for c in self._v[self._p:]:
            if size is not None and 0 <= size <= len(r):
                break
            r.append(c)
            if c == 10:
                break
        return self._out(r)

    def write(self, x):
        e = SymStr._elems(x)
        if e is None:
            raise TypeError("string argument expected, got %r" % type(x).__name__)
        self._v[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def readlines(self, hint=-1):
        r = []
        while self._p < len(self._v):
            r.append(self.readline())
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def tell(self):
        return self._p

    def seek(self, n, whence=0):
        self._p = n if whence == 0 else self._p + n if whence == 1 else len(self._v) + n
        return self._p

    def getvalue(self):
        p, self._p = self._p, 0
        r = self.read()
        self._p = p
        return r

    def seekable(self):
        return True

    def readable(self):
        return True

    def close(self):
        self.closed = True

    def flush(self):
        pass
