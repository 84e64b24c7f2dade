"""Runs ops on the plain, un-instrumented code: replays witnesses and
counterexamples.  Started with /opt/venv/bin/python, speaks JSON lines."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def canon(x):
    """digest -> JSON value"""
    t = type(x)
    if t in (tuple, list):
        return [canon(i) for i in x]
    if isinstance(x, (bytes, bytearray)):
        return {'b': bytes(x).hex()}
    if t is bool or x is None or t is str:
        return x
    if isinstance(x, int):
        return int(x) if -2 ** 53 < x < 2 ** 53 else {'i': str(int(x))}
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, dict):
        return {'d': [[canon(k), canon(v)] for k, v in x.items()]}
    return {'r': repr(x)}


def uncanon(x):
    if type(x) is list:
        return [uncanon(i) for i in x]
    if type(x) is dict:
        if 'b' in x:
            return bytes.fromhex(x['b'])
        if 'i' in x:
            return int(x['i'])
        if 'f' in x:
            return float(x['f'])
        if 'd' in x:
            return {_h(uncanon(k)): uncanon(v) for k, v in x['d']}
    return x


def _h(k):
    return tuple(k) if type(k) is list else k


def run(world, opname, args):
    from vlib import ops
    try:
        ok, digest = ops.OPS[opname](world, **args)
    except Exception as e:      # noqa
        import traceback
        return {'error': traceback.format_exc()}
    return {'ok': bool(ok), 'digest': canon(digest)}


def apart(f):
    """f() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(f()).encode()
            with os.fdopen(w, 'wb') as o:
                o.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {'error': 'process died'}


def main():
    from vlib import world, checks
    checks.load_ops()
    w = world.World(False)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    out.write(json.dumps({'ready': True, 'failed': w.failed}) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        res = []
        alone = type(req) is dict
        for opname, args in req['apart'] if alone else req:
            args = uncanon(args) if type(args) is not dict or 'd' in args else {k: uncanon(v) for k, v in args.items()}
            res.append(apart(lambda: run(w, opname, args)) if alone else run(w, opname, args))
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
