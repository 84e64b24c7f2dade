"""Runs the scripts of /repo/tools in this process, from their current source,
with standard input, output, network and hash functions replaced."""
import io
import os
import re
import signal
import sys

from vlib import ops
from vlib.ops import Hang, Lib, tree, op, kind

_code = {}
CPU = 60        # seconds of CPU time after which a script counts as hanging


def source(w, name):
    if name not in _code:
        from vlib.world import REPO
        path = os.path.join(REPO, 'tools', name)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        if w.symbolic:
            from symx import instr
            _code[name] = instr.instrument(src, path, 'tools.' + name[:-3], whole=True), path
        else:
            _code[name] = compile(src, path, 'exec', dont_inherit=True), path
    return _code[name]


class Patch(object):
    """attributes replaced for a while"""
    def __init__(self):
        self.old = []

    def set(self, o, name, v):
        self.old.append((o, name, o.__dict__.get(name, Patch)))
        setattr(o, name, v)

    def undo(self):
        for o, name, v in reversed(self.old):
            if v is Patch:
                delattr(o, name)
            else:
                setattr(o, name, v)


def pieces(s, shown):
    """text -> list of texts and shown objects"""
    if type(s) is not str:
        return sympieces(s, shown) if isinstance(s, str) else [s]
    out = []
    pos = 0
    for m in re.finditer('\x01(\\d+)\x02', s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append(shown[int(m.group(1))])
        pos = m.end()
    if pos < len(s) or not out:
        out.append(s[pos:])
    return out


def sympieces(s, shown):
    out, cur, tok = [], '', None
    for c in s:
        if type(c) is str and c == '\x01':
            if len(cur):
                out.append(cur)
            cur, tok = '', ''
        elif tok is not None and type(c) is str:
            if c == '\x02':
                out.append(shown[int(tok)])
                tok = None
            else:
                tok += c
        else:
            cur = cur + c
    return out + [cur] if len(cur) or not out else out


def run(w, name, stdin, argv=(), setup=None):
    """-> (how it ended, what it wrote, namespace)"""
    from vlib.c13 import textfile
    L = Lib()
    code, path = source(w, name)
    p = Patch()
    shown = []
    out = []

    def show(self, scope=0):
        shown.append(('obj', kind(self), tree(self)))
        return '\x01%d\x02' % (len(shown) - 1)

    def put(*args, **kw):
        if kw.get('file') not in (None, sys.stdout):
            return
        for a in args:
            a = ops_str(w, a)
            for x in pieces(a, shown):
                out.append(x)

    class Err(io.StringIO):
        pass

    class Std(object):
        encoding = 'utf-8'

        def write(self, s):
            for x in pieces(s, shown):
                out.append(x)
            return len(s)

        def flush(self):
            pass

        def isatty(self):
            return False
    try:
        for m in (L.base, L.univ, L.char, L.useful):
            for c in list(vars(m).values()):
                if isinstance(c, type) and 'prettyPrint' in c.__dict__:
                    p.set(c, 'prettyPrint', show)
        p.set(sys, 'argv', [path] + list(argv))
        p.set(sys, 'stdin', textfile(w, stdin))
        p.set(sys, 'stdout', Std())
        p.set(sys, 'stderr', Err())
        if setup:
            setup(p)
        ns = {'__name__': '__main__', '__file__': path, 'print': put}

        def late(*a):
            raise Hang()
        old = signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
        try:
            exec(code, ns)
            end = ('done', 0)
        except SystemExit as e:
            end = ('done', 0) if e.code in (None, 0) else ('exit', e.code if isinstance(e.code, int) else 1)
        except Hang:
            end = ('hangs', None)
        except Exception as e:      # noqa
            end = ('failed', type(e).__name__)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    finally:
        p.undo()
    return end, out, ns


def ops_str(w, a):
    if w.symbolic:
        from symx import instr
        return instr.m_str(a)
    return str(a)


def objects(out):
    return [x for x in out if type(x) is tuple and x[1] != 'OBJECT IDENTIFIER']


def number(out):
    """first number of the last text written"""
    for x in reversed(out):
        if type(x) is str and x.strip():
            m = re.search(r'\d+', x)
            return int(m.group()) if m else None
    return None


def armoured(w, octets, width=64):
    """base64 text of octets, in lines"""
    from vlib.c14 import encoded, join
    cs = encoded(w, octets)
    out = []
    for i, c in enumerate(cs):
        out.append(c)
        if i % width == width - 1:
            out.append('\n')
    if not out or out[-1] != '\n':
        out.append('\n')
    return join(w, out)
