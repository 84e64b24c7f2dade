"""C13 the PEM reader extracts exactly the delimited block."""
import io
import itertools

from vlib.ops import Hang, op, conj
from vlib.run import Task, Text, Report, run_all

REAL = (('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----'),
        ('-----BEGIN X509 CRL-----', '-----END X509 CRL-----'),
        ('-----BEGIN PKCS7-----', '-----END PKCS7-----'))


class File(io.StringIO):
    """a text file; who keeps on reading at its end is stopped"""
    idle = 0

    def _got(self, r):
        self.idle = 0 if r else self.idle + 1
        if self.idle > IDLE:
            raise Hang()
        return r

    def read(self, *a):
        return self._got(io.StringIO.read(self, *a))

    def readline(self, *a):
        return self._got(io.StringIO.readline(self, *a))


IDLE = 2000


def textfile(w, text):
    if w.symbolic:
        from symx.engine import SymText

        class SymFile(SymText):
            idle = 0

            def _out(self, r):
                self.idle = 0 if len(r) else self.idle + 1
                if self.idle > IDLE:
                    raise Hang()
                return SymText._out(self, r)
        return SymFile(text)
    return File(text)


def b64(w, s):
    """base64 decoding of one line -> octets or None"""
    try:
        if w.symbolic:
            from symx import instr
            return instr.m_b64decode(s.encode())
        import base64
        return base64.b64decode(s.encode())
    except ValueError:
        return None


def cut(text):
    """lines of a text, each with what follows its line end"""
    out = []
    line = text[:0]
    for i in range(len(text)):
        if text[i] == '\n':
            out.append((line, text[i + 1:]))
            line = text[:0]
        else:
            line = line + text[i]
    if len(line):
        out.append((line, text[:0]))
    return out


def expected(w, text, markers):
    """-> (outcome, index, data, alternative data, rest)"""
    idx = None
    body = []
    for line, rest in cut(text):
        line = line.strip()
        if idx is None:
            for i, (b, e) in enumerate(markers):
                if line == b:
                    idx = i
                    break
        elif line == markers[idx][1]:
            parts = [b64(w, x) for x in body]
            if all(p is not None for p in parts):
                data = b''
                for p in parts:
                    data = data + p
                return 'block', idx, data, rest
            whole = text[:0]
            for x in body:
                whole = whole + x
            return 'bad', idx, b64(w, whole), rest
        else:
            body.append(line)
    return ('none' if idx is None else 'unterminated'), idx, b'', text[:0]


def same_octets(a, b):
    if len(a) != len(b):
        return False
    return len(a) == 0 or a == b


@op
def pem_blocks(w, text, markers, calls, single=False):
    """the reader called `calls` times on one stream"""
    from pyasn1_modules import pem
    markers = [tuple(m) for m in markers]
    for i in range(len(markers)):
        for j in range(i):
            if markers[i][0] == markers[j][0]:
                return True, ('same begin marker',)
        for m in markers[i]:
            if not (m == m.strip()) or len(m) == 0 or any(c == '\n' for c in m):
                return True, ('odd marker',)
    if single:
        markers = markers[:1]
    f = textfile(w, text)
    left = text
    seen = []
    good = []
    for n in range(calls):
        kind, idx, data, rest = expected(w, left, markers)
        try:
            if single == 'default':
                i, got = None, pem.readPemFromFile(f)
            elif single:
                i, got = None, pem.readPemFromFile(f, *markers[0])
            else:
                i, got = pem.readPemBlocksFromFile(f, *markers)
        except ValueError as e:
            seen.append('error')
            return kind == 'bad', tuple(seen)
        seen += [kind, i, got if len(got) else b'']
        if kind == 'none' and i not in (-1, None):
            return False, tuple(seen)
        if kind in ('block', 'bad') and i not in (idx, None):
            return False, tuple(seen)
        if kind == 'bad' and data is None:
            return False, tuple(seen)
        r = same_octets(got, data)
        if r is False:
            return False, tuple(seen)
        if r is not True:
            good.append(r)
        left = rest
    tail = f.read()
    seen.append(tail)
    r = same_octets(tail, left)
    if r is not True:
        if r is False:
            return False, tuple(seen)
        good.append(r)
    return conj(good), tuple(seen)


def chars(s):
    return [ord(c) for c in s]


def line(kind, i, markers, deep, data=True):
    """characters of one line of a stream"""
    a = ['7+0:l%da' % i] if deep else []
    if kind[0] in 'BE':
        m = markers[int(kind[1])]['BE'.index(kind[0])]
        m = list(m.v) if isinstance(m, Text) else chars(m)
        return m + a + [10]
    if kind == 'D':
        if not data:
            return chars('QUJD') + [10]
        return [65, '7+0:l%dd' % i, '7+0:l%de' % i, 61] + [10]
    if kind == 'P':
        return chars('QQ==') + a + [10]
    if kind == 'X':
        return a + a + [10]
    raise ValueError(kind)


def tasks(tier):
    out = []
    thorough = tier == 'thorough'
    # any text over any markers
    for npairs, nlines, width, calls in ((1, 5, 1, 2), (2, 4, 1, 2), (1, 3, 2, 1)) + (((1, 6, 1, 3), (2, 5, 1, 2), (2, 3, 2, 1), (3, 3, 1, 1)) if thorough else ()):
        ms = [(Text(['7+0:b%d' % i]), Text(['7+0:e%d' % i])) for i in range(npairs)]
        t = []
        for i in range(nlines):
            t += ['7+0:c%d.%d' % (i, j) for j in range(width)] + [10]
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': ms, 'calls': calls},
                        'any lines: %d lines of %d over %d pairs' % (nlines, width, npairs), seconds=600, max_paths=200000))
        if npairs == 1:
            out.append(Task('pem_blocks', {'text': Text(t), 'markers': ms, 'calls': calls, 'single': True},
                            'any lines, single: %d lines of %d' % (nlines, width), seconds=600, max_paths=200000))
    out.append(Task('pem_blocks', {'text': Text(['7+0:c%d' % i for i in range(7 if thorough else 6)]), 'markers': [('B', 'E')], 'calls': 2},
                    'any text', seconds=600, max_paths=200000))
    # streams of marker and data lines, the published markers
    for n in range(1, 7 if thorough else 6):
        ks = ('B0', 'E0', 'B1', 'E1', 'D') if n <= 4 or thorough else ('B0', 'E0', 'E1', 'D')
        for seq in itertools.product(ks, repeat=n):
            if n == 5 and not thorough and (seq[0] != 'B0' or 'E0' not in seq):
                continue
            t = []
            for i, k in enumerate(seq):
                t += line(k, i, REAL, i == n // 2, k not in seq[:i] or tier == 'thorough')
            out.append(Task('pem_blocks', {'text': Text(t), 'markers': list(REAL), 'calls': 2}, 'stream %s' % ' '.join(seq)))
            if n == 3:
                out.append(Task('pem_blocks', {'text': Text(t), 'markers': list(REAL), 'calls': 2, 'single': 'default'}, 'stream, default %s' % ' '.join(seq)))
                out.append(Task('pem_blocks', {'text': Text(t[:-1]), 'markers': list(REAL[1:]), 'calls': 2}, 'stream without last line end %s' % ' '.join(seq)))
    # pairs sharing an end marker
    shared = (('B0', 'E'), ('B1', 'E'), ('B2', 'F'))
    for seq in itertools.product(('B0', 'B1', 'B2', 'E0', 'E2', 'D'), repeat=3):
        t = []
        for i, k in enumerate(seq):
            t += line(k, i, shared, i == 1, k not in seq[:i] or thorough)
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': list(shared), 'calls': 2}, 'shared end %s' % ' '.join(seq)))
    # a begin marker that is also an end marker
    mixed = (('X', 'Y'), ('Y', 'X'), ('Z', 'Z'))
    for seq in itertools.product(('B0', 'B1', 'B2', 'D'), repeat=4):
        t = []
        for i, k in enumerate(seq):
            t += line(k, i, mixed, i == 1, k not in seq[:i] or thorough)
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': list(mixed), 'calls': 2}, 'mixed %s' % ' '.join(seq)))
    # long lines, long markers, many pairs, many blocks
    for n in (17, 33, 61, 64, 65, 72, 76, 77, 80, 81, 120, 128, 129, 256, 512, 1024):
        b, e = 'b' * n, 'e' * n
        m = chars(b) + [10]
        end = chars(e) + [10]
        body = chars('QUJD' * (n // 4)) + ['7+0:x', 65, 65, 65] + chars('REVG') + [10]
        for name, t in (('body of', m + body + end), ('begin and more', chars(b) + ['7+0:x', 10] + chars('QUJD\n') + end + m + chars('REVG\n') + end),
                        ('part of begin', chars(b[:-1]) + ['7+0:x', 10] + chars('QUJD\n') + end + m + chars('REVG\n') + end),
                        ('end and more', m + chars('QUJD\n') + chars(e) + ['7+0:x', 10] + end),
                        ('part of end', m + chars('QUJD\n') + chars(e[:-1]) + ['7+0:x', 10] + end),
                        ('blanks before', [32] * n + ['7+0:x'] + m + chars('QUJD\n') + [9] * n + end),
                        ('blanks behind', chars(b) + [32] * n + ['7+0:x', 10] + chars('QUJD\n') + chars(e) + [32] * n + ['7+0:y', 10]),
                        ('text of', chars('t' * n) + ['7+0:x'] + chars('t' * n) + [10] + m + chars('QUJD') + [32] * n + [10] + end)):
            out.append(Task('pem_blocks', {'text': Text(t), 'markers': [('B', 'E'), (b, e)], 'calls': 2}, '%s %d characters' % (name, n)))
    pairs = [('b%d' % i, 'e%d' % i) for i in range(24)]
    for i in range(24):
        t = chars('b') + ['7+0:x', 10] if i < 10 else chars('b%d' % (i // 10)) + ['7+0:x', 10]
        t += chars('QUJD\ne%d\nREVG\n' % i) + chars('e%d\n' % ((i + 1) % 24))
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': pairs, 'calls': 2}, 'pair %d of 24' % i))
    for n in (5, 17, 40):
        t = []
        for i in range(n):
            t += chars('b%d\n' % (i % 24)) + ['7+0:x%d' % i if i == n - 2 else 81, 85, 74, 68, 10] + chars('e%d\n' % (i % 24))
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': pairs, 'calls': n + 1}, '%d blocks' % n))
    # characters beyond ASCII around the markers and in what is read
    for name, t in (('before', ['8+0:x', '8+0:y', 10] + chars('B\nQUJD\nE\n')), ('next to begin', ['8+0:x'] + chars('B') + ['8+0:y'] + chars('\nQUJD\nE\n')),
                    ('in the block', chars('B\nQU') + ['8+0:x'] + chars('JD\n') + ['8+0:y'] + chars('\nE\n')),
                    ('next to end', chars('B\nQUJD\n') + ['8+0:x'] + chars('E') + ['8+0:y'] + chars('\nE\n')),
                    ('behind', chars('B\nQUJD\nE\n') + ['8+0:x', '8+0:y', 10]), ('only', ['8+0:x', 10, '8+0:y'])):
        for single in (False, True):
            out.append(Task('pem_blocks', {'text': Text(t), 'markers': [('B', 'E')], 'calls': 2, 'single': single},
                            'any of 256 characters %s%s' % (name, ', single' if single else '')))
    # very many lines
    for n in (1100, 5000) if thorough else (1100, 4200):
        t = chars('B\n') + chars('QUJD\n') * n + [65, '7+0:d', 65, 65, 10] + chars('E\nB\nREVG\nE\n')
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': [('B', 'E')], 'calls': 2}, 'block of %d lines' % n, seconds=600))
        t = chars('QUJD\n') * n + ['7+0:d', 10] + chars('B\nREVG\nE\n')
        out.append(Task('pem_blocks', {'text': Text(t), 'markers': [('B', 'E')], 'calls': 2}, '%d lines before a block' % n, seconds=600))
    # long blocks and long streams
    for nl in (3, 64, 700) if thorough else (3, 64):
        t = chars('some text\n') * nl + chars(REAL[1][0]) + [10]
        for i in range(nl):
            t += chars('QUJD') * 15 + ([65, '7+0:d%d' % i, 65, 65] if i == nl // 2 else chars('QUJD')) + [10]
        t += chars(REAL[1][1]) + [32, 10]
        out.append(Task('pem_blocks', {'text': Text(t * 2), 'markers': list(REAL), 'calls': 3}, 'long %d' % nl, seconds=600))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C13', tier, seed)
    w = world.World(True)
    ts = tasks(tier)
    rep.results = run_all(w, ts, known=rep.known)
    rep.assumptions = ['base64 decoding of one line is CPython\'s binascii (modelled; every path witness replayed against it)',
                       'begin markers are distinct, not empty and without surrounding blanks (a line is compared without them)',
                       'where a line on its own is not complete base64 either an error or the decoding of the joined lines is accepted']
    return rep.finish({'streams': 'up to 5 lines of one symbolic character (3 of two) over 1 or 2 pairs of symbolic markers; 6 wholly symbolic '
                                  'characters; all streams of up to 4 (5 for one pair) marker and data lines of the published markers with symbolic '
                                  'data and trailing blanks; long blocks of 64 lines; lines, markers and blanks of up to 1024 characters; 24 pairs; 40 blocks; 4200 lines',
                       'calls': 'two or three in a row on one stream', 'characters': '7 bits; 8 bits in streams of one block',
                       'outside': 'streams that return octets; markers longer than one character are concrete'},
                      must_see=('block', 'none', 'unterminated'))
