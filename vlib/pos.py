"""Positions: the places below a type where its own definition decides."""
from vlib import asn
from vlib.c01 import Layout


def walk(ref, t, boundary, path='', depth=0, comp=None):
    """(path, T, Norm, Comp or None) for t and everything local below it; the
    type at a boundary is yielded too, but not what is inside"""
    n = ref.norm(t)
    yield path, t, n, comp
    if depth > 40 or (path and boundary(t, path)):
        return
    if n.kind.endswith(' OF'):
        if n.elem is not None:
            for x in walk(ref, n.elem, boundary, path + '/0', depth + 1):
                yield x
    else:
        for c in n.comps or ():
            for x in walk(ref, c.type, boundary, path + '/' + c.name, depth + 1, c):
                yield x


class Missing(Exception):
    pass


def at(obj, path):
    """schema object at a path below obj"""
    for name in path.split('/')[1:]:
        ct = getattr(obj, 'componentType', None)
        if ct is None:
            raise Missing(path)
        if hasattr(ct, 'namedTypes'):
            for nt in ct.namedTypes:
                if nt.name == name:
                    obj = nt.asn1Object
                    break
            else:
                raise Missing(path)
        else:
            obj = ct
    return obj


def norm_at(refg, ref, path):
    """Norm of the reference type at a path, with the component it is"""
    t = refg.lookup(tuple(ref))
    comp = None
    for name in path.split('/')[1:]:
        n = refg.norm(t)
        if n.kind.endswith(' OF'):
            t, comp = n.elem, None
            continue
        for c in n.comps or ():
            if c.name == name:
                t, comp = c.type, c
                break
        else:
            raise Missing(path)
    return refg.norm(t), comp


def positions(w, only=None):
    """(ref, path, T, Norm, Comp) over every distinct exported type that can
    be built"""
    lay = Layout(w)
    for ref in w.distinct():
        if only and ref not in only:
            continue
        try:
            robj = w.real_obj(ref)
        except Exception:       # noqa
            yield ref, None, None, None, None
            continue
        t = w.ref.lookup(ref)
        for path, tt, n, c in walk(w.ref, t, lay.boundary_for(ref, t, robj)):
            yield ref, path, tt, n, c
