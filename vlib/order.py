"""Child process: imports modules in the order given, reports open type
tables.  argv[1]: JSON {repo, order, want: null | {table|field, key, n}}"""
import builtins
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fields(ref, m, out, univ):
    """tables as the open fields of the module's types see them"""
    from vlib import pos
    for n, t in ref.mods[m].types.items():
        if t.kind == 'REF':
            continue
        for path, tt, nn, c in pos.walk(ref, t, lambda t, p: t.kind == 'REF'):
            if c is None or not c.by:
                continue
            try:
                o = getattr(sys.modules['pyasn1_modules.' + m], n)
                o = pos.at(o() if isinstance(o, type) else o, path.rsplit('/', 1)[0])
                nt = [x for x in o.componentType.namedTypes if x.name == c.name][0]
            except Exception:       # noqa
                continue
            mp = ref.mods[c.by[1][0]].maps.get(c.by[1][1], c.by[1])
            if nt.openType:
                out['%s.%s%s (%s.%s)' % (m, n, path, mp[0], mp[1])] = sorted(
                    '.'.join(map(str, k)) if isinstance(k, univ.ObjectIdentifier) else str(int(k)) for k in nt.openType)


def hold(mod, name):
    """keep the table as a program sees it that imported its module by itself:
    other modules' entries have to arrive in that very table"""
    held = {}
    mod = 'pyasn1_modules.' + mod
    plain = builtins.__import__

    def look():
        m = sys.modules.get(mod)
        if not held and m is not None and not getattr(m.__spec__, '_initializing', False) and hasattr(m, name):
            held['table'] = getattr(m, name)

    def watch(*a, **k):
        r = plain(*a, **k)
        look()
        return r
    builtins.__import__ = watch
    return held


def main():
    sys.dont_write_bytecode = True
    a = json.loads(sys.argv[1])
    sys.path.insert(0, a['repo'])
    out = {'failed': None}
    held = hold(*a['want']['table']) if a['want'] else {}
    for m in a['order']:
        try:
            importlib.import_module('pyasn1_modules.' + m)
        except Exception as e:      # noqa
            out['failed'] = '%s: %s: %s' % (m, type(e).__name__, str(e)[:200])
            print(json.dumps(out))
            return
    sys.path.insert(1, HERE)
    from pyasn1.type import univ
    mods = sorted(x[15:] for x in sys.modules if x.startswith('pyasn1_modules.rfc'))
    out['loaded'] = mods
    w = a['want']
    if w is None:
        from vlib import asn
        ref = asn.Ref()
        t = {}
        for m in mods:
            if m not in ref.mods:
                continue
            for n in ref.mods[m].maps:
                d = getattr(sys.modules['pyasn1_modules.' + m], n, None)
                if isinstance(d, dict):
                    t['%s.%s' % (m, n)] = sorted('.'.join(map(str, k)) if isinstance(k, univ.ObjectIdentifier) else str(int(k)) for k in d)
        for m in mods:
            if m in ref.mods:
                fields(ref, m, t, univ)
        out['tables'] = t
    else:
        m, n = w['table']
        d = getattr(sys.modules['pyasn1_modules.' + m], n, {})
        d = held.get('table', d)
        key = univ.ObjectIdentifier(tuple(w['key'])) if type(w['key']) is list else univ.Integer(w['key'])
        o = d.get(key)
        if o is None:
            out['entry'] = None
        else:
            from vlib import world, ops
            wd = world.World(False)
            mp = wd.ref.mods[m].maps.get(n, (m, n))
            k = tuple(w['key']) if type(w['key']) is list else w['key']
            like = []
            for i, (mod, t) in enumerate(wd.ref.writers.get(tuple(mp), {}).get(k, [])):
                r = wd.builder.obj(t)
                try:
                    ok = ops.named_alike(wd, o, t) or all(ops.alike(wd, o, r, x) is True for x in w['n'])
                except Exception:       # noqa
                    ok = False
                if ok:
                    like.append([mod, i])
            out['entry'] = like
    print(json.dumps(out))


if __name__ == '__main__':
    main()
