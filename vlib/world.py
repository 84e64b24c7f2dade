"""The code under test (plain or instrumented) next to the reference."""
import importlib
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class World(object):
    def __init__(self, symbolic, modules=None):
        from vlib import asn, build
        self.symbolic = symbolic
        if symbolic:
            from symx import instr
            instr.install(REPO)
        else:
            if sys.path[0] != REPO:
                sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        self.ref = asn.Ref()
        self.real = {}
        self.failed = {}
        for m in sorted(self.ref.mods):
            if modules is not None and m not in modules:
                continue
            try:
                self.real[m] = importlib.import_module('pyasn1_modules.' + m)
            except Exception as e:      # noqa
                self.failed[m] = '%s: %s' % (type(e).__name__, e)
        if not symbolic:
            for m in self.real.values():
                assert m.__file__.startswith(REPO + '/'), m.__file__
        self.builder = build.Builder(self.ref)
        self.builder.fill()
        if symbolic:
            self._stub_caches()
        self._robj = {}
        self._alone = {}
        self._sobj = {}
        self.canon = None

    def _stub_caches(self):
        from pyasn1.codec.ber import decoder

        class Miss(dict):
            def __getitem__(self, k):
                raise KeyError(k)

            def __setitem__(self, k, v):
                pass
        cls = decoder.SingleItemDecoder
        init = cls.__init__

        def __init__(self, *a, **k):
            init(self, *a, **k)
            self._tagCache = Miss()
            self._tagSetCache = Miss()
        cls.__init__ = __init__

    def getitem(self, table, key):
        """table[key]; the key may be symbolic"""
        if self.symbolic:
            from symx import instr
            return instr.sx_getitem(table, key)
        return table[key]

    def alone(self, mod):
        """modules loaded by importing one module into an empty process, as
        far as the package is concerned; -> (name -> module, what failed)"""
        r = self._alone.get(mod)
        if r is None:
            mine = lambda k: k == 'pyasn1_modules' or k.startswith('pyasn1_modules.')   # noqa
            saved = {k: sys.modules.pop(k) for k in list(sys.modules) if mine(k)}
            failed = None
            try:
                importlib.import_module('pyasn1_modules.' + mod)
            except Exception as e:      # noqa
                failed = '%s: %s' % (type(e).__name__, e)
            finally:
                got = {k[15:]: sys.modules.pop(k) for k in list(sys.modules) if mine(k)}
                sys.modules.update(saved)
            r = self._alone[mod] = got, failed
        return r

    # -- objects -----------------------------------------------------------
    def real_attr(self, ref):
        return getattr(self.real[ref[0]], ref[1])

    def real_obj(self, ref):
        """schema object of an exported type"""
        ref = tuple(ref)
        o = self._robj.get(ref)
        if o is None:
            a = self.real_attr(ref)
            o = a() if isinstance(a, type) else a
            self._robj[ref] = o
        return o

    def ref_obj(self, ref):
        ref = tuple(ref)
        o = self._sobj.get(ref)
        if o is None:
            o = self._sobj[ref] = self.builder.cls(ref)()
        return o

    def exported(self):
        for m in sorted(self.ref.mods):
            for n in self.ref.mods[m].types:
                yield (m, n)

    def distinct(self):
        """exported (module, name) pairs, one per real class object and
        reference definition"""
        seen = {}
        for r in self.exported():
            if r[0] not in self.real or not hasattr(self.real[r[0]], r[1]):
                yield r
                continue
            key = (id(self.real_attr(r)), self.ref.final(r))
            if key not in seen:
                seen[key] = r
                yield r

    def canonical(self):
        """reference definition -> ids of the componentType objects of the
        real types published under the names of that definition"""
        if self.canon is None:
            self.canon = {}
            for r in self.exported():
                try:
                    o = self.real_obj(r)
                except Exception:       # noqa
                    continue
                ct = getattr(o, 'componentType', None)
                if ct is not None:
                    self.canon.setdefault(self.ref.final(r), set()).add((id(ct), o.typeId if hasattr(o, 'typeId') else None))
        return self.canon
