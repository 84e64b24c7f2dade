"""C14 base64 text readers return the encoded octets."""
from vlib.c13 import textfile
from vlib.ops import op
from vlib.run import Task, Oct, Text, Report, run_all

ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
BLANKS = (9, 10, 11, 12, 13, 32)


def letter(w, v):
    """character of a 6-bit value (RFC 4648, table 1)"""
    if not w.symbolic or type(v) is int:
        return ALPHA[int(v)]
    import z3
    from symx.engine import SymInt, SymStr
    e = z3.ZeroExt(1, z3.Extract(7, 0, v.at(max(v.w, 9))))
    bv = lambda n: z3.BitVecVal(n, 9)
    r = z3.If(z3.ULT(e, bv(26)), e + bv(65), z3.If(z3.ULT(e, bv(52)), e + bv(71), z3.If(z3.ULT(e, bv(62)), e - bv(4),
              z3.If(e == bv(62), bv(43), bv(47)))))
    return SymStr([SymInt(r, 9, 43, 122)])


def encoded(w, octets):
    """characters of the base64 text, one by one"""
    out = []
    for i in range(0, len(octets), 3):
        o = [octets[j] for j in range(i, min(i + 3, len(octets)))]
        out.append(letter(w, o[0] >> 2))
        out.append(letter(w, (o[0] & 3) << 4 | (o[1] >> 4 if len(o) > 1 else 0)))
        out.append(letter(w, (o[1] & 15) << 2 | (o[2] >> 6 if len(o) > 2 else 0)) if len(o) > 1 else '=')
        out.append(letter(w, o[2] & 63) if len(o) > 2 else '=')
    return out


def join(w, parts):
    if w.symbolic:
        from symx.engine import SymStr
        return SymStr([c for p in parts for c in SymStr._elems(p)])
    return ''.join(parts)


@op
def base64_text(w, octets, blanks, where, via):
    """blanks: characters inserted before the characters at `where`"""
    from pyasn1_modules import pem
    for i in range(len(blanks)):
        is_blank = blanks[i] == ' '
        for b in BLANKS:
            is_blank = is_blank | (blanks[i] == chr(b))
        if not is_blank:
            return True, ('not a blank',)
    cs = encoded(w, octets)
    parts = []
    for i in range(len(cs) + 1):
        parts += [blanks[j] for j in range(len(where)) if where[j] == i]
        parts += cs[i:i + 1]
    text = join(w, parts)
    try:
        if via == 'text':
            got = pem.readBase64fromText(text)
        else:
            f = textfile(w, text)
            if via == 'rest':
                f.read(0)
            got = pem.readBase64FromFile(f)
    except Exception as e:      # noqa
        return False, ('failed', type(e).__name__)
    if len(got) != len(octets):
        return False, ('octets', got)
    return (True if len(got) == 0 else got == octets), ('octets', got)


@op
def base64_broken(w, octets, width, end, via):
    """the usual layout: lines of `width` characters"""
    n = (len(octets) + 2) // 3 * 4
    at = [i for i in range(width, n, width)] + [n]
    return base64_text(w, octets, end * len(at), sorted(at * len(end)), via)


def tasks(tier):
    thorough = tier == 'thorough'
    out = []
    for n in range(0, 13 if thorough else 7):
        names = ['o%d' % i for i in range(n)]
        cs = (n + 2) // 3 * 4
        for via in ('text', 'file'):
            out.append(Task('base64_text', {'octets': Oct(names), 'blanks': '', 'where': [], 'via': via}, '%d octets, %s' % (n, via)))
            for i in range(cs + 1):
                out.append(Task('base64_text', {'octets': Oct(names), 'blanks': Text(['7+0:b0']), 'where': [i], 'via': via},
                                '%d octets, blank at %d, %s' % (n, i, via)))
                for j in range(i, cs + 1):
                    if n in (1, 2, 3, 4) or thorough and n < 9:
                        out.append(Task('base64_text', {'octets': Oct(names), 'blanks': Text(['7+0:b0', '7+0:b1']), 'where': [i, j], 'via': via},
                                        '%d octets, blanks at %d, %d, %s' % (n, i, j, via)))
            # blanks everywhere
            every = list(range(cs + 1))
            out.append(Task('base64_text', {'octets': Oct(names), 'blanks': ' \n' * (len(every) // 2) + ' ' * (len(every) % 2), 'where': every, 'via': via},
                            '%d octets, blanks everywhere, %s' % (n, via)))
    for width, end in ((64, '\n'), (76, '\r\n'), (1, '\n'), (4, '\n'), (63, ' '), (100000, '\n')):
        for n in (47, 48, 49, 200, 1500, 70000):
            sym = range(0, n, 97 if 60 < n < 9000 else 11 if n < 60 else 9001)
            o = [('o%d' % i) if i in sym else (i * 37 + 11) & 255 for i in range(n)]
            for via in ('text', 'file'):
                if n > 1000 and width == 1 or n > 9000 and (width, via) not in ((64, "file"), (76, "text")):
                    continue
                out.append(Task('base64_broken', {'octets': Oct(o), 'width': width, 'end': end, 'via': via},
                                '%d octets in lines of %d, %s' % (n, width, via), seconds=400))
    out.sort(key=lambda t: -len(t.args['octets'].v))
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C14', tier, seed)
    w = world.World(True)
    rep.results = run_all(w, tasks(tier), known=rep.known)
    rep.assumptions = ['base64 text is encoded by the harness from RFC 4648 table 1; CPython\'s binascii is modelled and every path witness replayed '
                       'against it']
    return rep.finish({'octets': 'every string of up to 6 octets with one blank anywhere (4 with two blanks anywhere) and with blanks everywhere; '
                                 '47, 48, 49, 200, 1500, 70000 octets in lines of 1, 4, 63, 64, 76 and unlimited characters',
                       'blanks': 'space, HT, LF, VT, FF, CR (symbolic)', 'outside': 'longer strings'}, must_see=('octets',))
