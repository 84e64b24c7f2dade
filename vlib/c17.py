"""C17 client tools build the request their arguments describe.

tools/ocspclient.py and tools/snmpget.py are executed from their current
source; the hash function, urllib and the socket are replaced by recorders, so
a hash is known by what was hashed."""
from vlib import der, tool
from vlib.ops import op, decode, encode, conj, neg, any_of, same
from vlib.run import Task, Oct, Text, Report, run_all

URL = 'http://ocsp.example/x'
PEM = ('-----BEGIN CERTIFICATE-----\n', '-----END CERTIFICATE-----\n')
SHA1 = (1, 3, 14, 3, 2, 26)
STATUS = ('good', 'revoked', 'unknown')


class Sha(object):
    """a hash function known only by what it is given"""
    digest_size = 20
    block_size = 64
    name = 'sha1'

    def __init__(self, seen, data=b''):
        self.seen, self.data = seen, data

    def update(self, d):
        self.data = self.data + d

    def digest(self):
        self.seen.append(self.data)
        return bytes([0xd0, len(self.seen)]) * 10

    def copy(self):
        return Sha(self.seen, self.data)


def part(t, *names):
    for n in names:
        if t is None or type(t[1]) is not list:
            return None
        t = dict(t[1]).get(n)
    return t


def elements(t):
    return [x for _, x in t[1]]


def equal(a, b):
    """condition: two optional trees are equal"""
    if a is None or b is None:
        return a is b
    return conj(same(a, b))


def eq_oct(a, b):
    if len(a) != len(b):
        return False
    return len(a) == 0 or a == b


def client(w, stdin, answer):
    """-> (how it ended, what it wrote, [(url, octets, headers)], [hashed])"""
    sent, hashed = [], []

    class Req(object):
        def __init__(self, url, data=None, headers={}, **kw):
            self.full_url, self.data, self.headers = url, data, dict(headers)

        def add_header(self, k, v):
            self.headers[k] = v

    class Rsp(object):
        status = code = 200

        def read(self, *a):
            return answer

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def urlopen(r, data=None, *a, **kw):
        if type(r) is Req:
            sent.append((r.full_url, r.data if data is None else data, r.headers))
        else:
            sent.append((r, data, {}))
        return Rsp()

    def new(name, data=b'', **kw):
        if name.lower().replace('-', '') != 'sha1':
            raise AssertionError('another hash')
        return Sha(hashed, data)

    def setup(p):
        import hashlib
        import urllib.request
        p.set(hashlib, 'sha1', lambda data=b'', **kw: Sha(hashed, data))
        p.set(hashlib, 'new', new)
        p.set(urllib.request, 'Request', Req)
        p.set(urllib.request, 'urlopen', urlopen)
    end, out, _ = tool.run(w, 'ocspclient.py', stdin, [URL], setup)
    return end, out, sent, hashed


def pems(w, certs):
    text = ''
    for c in certs:
        text = text + PEM[0] + tool.armoured(w, c) + PEM[1]
    return text


def request_ok(w, sent, hashed, name, key, user):
    """condition: what was sent describes the pair"""
    if len(sent) != 1:
        return False, 'sent %d' % len(sent)
    url, data, headers = sent[0]
    if url != URL or {k.lower(): v for k, v in headers.items()}.get('content-type') != 'application/ocsp-request':
        return False, 'sent elsewhere'
    a, v = decode(w.ref_obj(('rfc2560', 'OCSPRequest')), data)
    if a[0] != 'ok' or len(a[2]):
        return False, 'not a request'
    t = a[1]
    e = encode(v)
    if e[0] != 'ok':
        return False, 'not complete'
    conds = [eq_oct(e[1], data)]
    ver = part(t, 'tbsRequest', 'version')
    if ver is not None:
        conds.append(ver[1] == 0)
    if [n for n, _ in part(t, 'tbsRequest')[1]] not in (['version', 'requestList'], ['requestList']) or len(t[1]) != 1:
        return False, 'other parts'
    rl = elements(part(t, 'tbsRequest', 'requestList'))
    if len(rl) != 1 or len(rl[0][1]) != 1:
        return False, 'requests'
    cid = part(rl[0], 'reqCert')
    alg = part(cid, 'hashAlgorithm')
    if part(alg, 'algorithm')[1] != SHA1:
        return False, 'algorithm'
    par = part(alg, 'parameters')
    if par is not None and par[1] != b'\x05\x00':
        return False, 'parameters'
    for field, want in (('issuerNameHash', name), ('issuerKeyHash', key)):
        d = part(cid, field)[1]
        if type(d) is not bytes or len(d) != 20 or d[0] != 0xd0 or d != d[:2] * 10 or not 1 <= d[1] <= len(hashed):
            return False, field + ' is no hash'
        conds.append(eq_oct(hashed[d[1] - 1], want))
    conds.append(equal(part(cid, 'serialNumber'), part(user, 'tbsCertificate', 'serialNumber')))
    return conj(conds), 'request'


@op
def ocsp_request(w, issuer, user, subject, uissuer, key, answer):
    """subject, uissuer: the names in the certificates; key: the key bits"""
    end, out, sent, hashed = client(w, pems(w, [issuer, user]), answer)
    u, _ = decode(w.ref_obj(('rfc2459', 'Certificate')), user)
    i, _ = decode(w.ref_obj(('rfc2459', 'Certificate')), issuer)
    if u[0] != 'ok' or i[0] != 'ok':
        return end[0] in ('failed', 'exit') and not sent, ('unreadable', end[0])
    m = eq_oct(subject, uissuer)
    if m is False or not m:
        return end[0] in ('failed', 'exit') and not sent, ('other names', end[0] if end[0] != 'failed' else 'fails')
    ok, why = request_ok(w, sent, hashed, uissuer, key, u[1])
    return ok, (why, end[0])


def text_of(w, out):
    s = ''
    for x in out:
        if type(x) is tuple:
            v = x[2][1]
            if w.symbolic:
                from symx import engine
                v = str(engine.ENG.concretize(v)) if type(v) is engine.SymInt else v
            x = asciitext(w, str(v) if isinstance(v, int) else v)
            if not isinstance(x, str):
                return None
        s = s + x
    return s


def in_order(s, wanted):
    """condition: the texts occur in s in this order"""
    memo = {}

    def go(k, pos):
        if k == len(wanted):
            return True
        if (k, pos) not in memo:
            n = len(wanted[k])
            alts = []
            for p in range(pos, len(s) - n + 1):
                c = s[p:p + n] == wanted[k]
                if c is False:
                    continue
                c = conj([c, go(k + 1, p + n)])
                if c is True:
                    alts = [True]
                    break
                alts.append(c)
            memo[k, pos] = any_of(alts) if alts else False
        return memo[k, pos]
    return go(0, 0)


@op
def ocsp_answer(w, issuer, user, answer, inner):
    """inner: the BasicOCSPResponse in the answer"""
    end, out, sent, hashed = client(w, pems(w, [issuer, user]), answer)
    fail = end[0] in ('failed', 'exit')
    a, _ = decode(w.ref_obj(('rfc2560', 'OCSPResponse')), answer)
    if a[0] != 'ok':
        return fail, ('not a response', fail)
    st = part(a[1], 'responseStatus')[1]
    if not bool(st == 0):
        return fail, ('unsuccessful', fail)
    rt = part(a[1], 'responseBytes', 'responseType')
    if rt is None:
        return fail, ('no bytes', fail)
    basic = (1, 3, 6, 1, 5, 5, 7, 48, 1, 1)
    if len(rt[1]) != len(basic) or not bool(conj([x == y for x, y in zip(rt[1], basic)])):
        return fail, ('another kind', fail)
    b, _ = decode(w.ref_obj(('rfc2560', 'BasicOCSPResponse')), inner)
    if b[0] != 'ok':
        return fail, ('not a basic response', fail)
    rs = elements(part(b[1], 'tbsResponseData', 'responses'))
    if not rs:
        return fail, ('no responses', fail)
    text = text_of(w, out)
    if end[0] != 'done' or text is None:
        return False, ('not reported', end)
    serial = part(rs[0], 'certID', 'serialNumber')[1]
    if w.symbolic:
        from symx import engine
        serial = engine.ENG.concretize(serial) if type(serial) is not int else serial
    want = [str(int(serial)), part(rs[0], 'certStatus')[1][0][0], part(b[1], 'tbsResponseData', 'producedAt')[1], part(rs[0], 'thisUpdate')[1]]
    want = [asciitext(w, x) for x in want]
    return in_order(text, want), ('reported', want[1], text)


def asciitext(w, x):
    if isinstance(x, bytes):
        return x.decode('ascii')
    return x


@op
def snmp_get(w, community, oid, host, answer):
    arcs = [int(x if type(x) is str else x.concrete()) for x in oid.split('.') if len(x)]
    sent = []

    class Sock(object):
        def __init__(self, *a, **kw):
            self.to = None

        def connect(self, to):
            self.to = to

        def sendto(self, data, *a):
            sent.append((data, a[-1]))
            return len(data)

        def send(self, data, *a):
            sent.append((data, self.to))
            return len(data)
        sendall = send

        def recvfrom(self, n, *a):
            return answer, (host, 161)

        def recv(self, n, *a):
            return answer

        def settimeout(self, t):
            pass

        def setsockopt(self, *a):
            pass

        def bind(self, *a):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def setup(p):
        import socket
        p.set(socket, 'socket', Sock)
    end, out, _ = tool.run(w, 'snmpget.py', '', [community, host, oid], setup)
    if len(sent) != 1:
        return False, ('sent %d' % len(sent), end)
    data, to = sent[0]
    if to != (host, 161):
        return False, 'sent elsewhere'
    a, v = decode(w.ref_obj(('rfc1157', 'Message')), data)
    if a[0] != 'ok' or len(a[2]):
        return False, 'not a message'
    e = encode(v)
    if e[0] != 'ok':
        return False, 'not complete'
    t = a[1]
    conds = [eq_oct(e[1], data), part(t, 'version')[1] == 0]
    if [n for n, _ in t[1]] != ['version', 'community', 'data']:
        return False, 'other parts'
    c = part(t, 'community')[1]
    want = community.encode('iso-8859-1') if isinstance(community, str) else community
    conds.append(eq_oct(c, want))
    pdu = part(t, 'data', 'get-request')
    if pdu is None:
        return False, 'not a request'
    for n in ('error-status', 'error-index'):
        conds.append(part(pdu, n)[1] == 0)
    vbs = elements(part(pdu, 'variable-bindings'))
    if len(vbs) != 1:
        return False, 'bindings'
    name = part(vbs[0], 'name')[1]
    if len(name) != len(arcs):
        return False, 'another OID'
    conds += [x == y for x, y in zip(name, arcs)]
    val = part(vbs[0], 'value')
    while val is not None and val[0] == 'CHOICE':
        val = val[1][0][1] if val[1] else None
    if val is None or val[0] != 'NULL':
        return False, 'not NULL'
    return conj(conds), 'request'


# -- inputs ---------------------------------------------------------------------

def wrap(ident, body):
    return [ident] + der.length(len(body)) + list(body)


def cat(*parts):
    out = []
    for p in parts:
        out += p
    return out


ALG = wrap(0x30, wrap(6, der.oid_body((1, 2, 840, 113549, 1, 1, 5))) + [5, 0])


def name(rdns):
    """rdns: lists of (arcs, string tag, content)"""
    return wrap(0x30, cat(*[wrap(0x31, cat(*[wrap(0x30, wrap(6, der.oid_body(a)) + wrap(tag, c)) for a, tag, c in r])) for r in rdns]))


def utc(s):
    return wrap(0x17, list(s.encode()))


def cert(subject, issuer, serial, key, version=True, ext=False):
    """key: content of the BIT STRING"""
    tbs = cat([0xa0, 3, 2, 1, 2] if version else [], wrap(2, serial), ALG, issuer,
              wrap(0x30, utc('200101000000Z') + utc('300101000000Z')), subject, wrap(0x30, ALG + wrap(3, key)))
    if ext:
        tbs += wrap(0xa3, wrap(0x30, wrap(0x30, wrap(6, der.oid_body((2, 5, 29, 19))) + [1, 1, 255] + wrap(4, [0x30, 0]))))
    return wrap(0x30, cat(wrap(0x30, tbs), ALG, wrap(3, [0, 1, 2, 3])))


def single(serial, status, this, nxt=False):
    cid = wrap(0x30, wrap(0x30, wrap(6, der.oid_body(SHA1)) + [5, 0]) + wrap(4, [0xd0, 1] * 10) + wrap(4, [0xd0, 2] * 10) + wrap(2, serial))
    st = ([0x80, 0], wrap(0xa1, wrap(0x18, list(b'20190101000000Z')) + [0xa0, 3, 10, 1, 1]), [0x82, 0])[status]
    return wrap(0x30, cat(cid, st, wrap(0x18, this), wrap(0xa0, wrap(0x18, list(b'20290909090909Z'))) if nxt else []))


def basic(singles, produced, by=1, ver=False):
    who = wrap(0xa1, name([[((2, 5, 4, 3), 0x13, list(b'R'))]])) if by == 1 else wrap(0xa2, wrap(4, [7] * 20))
    tbs = wrap(0x30, cat([0xa0, 3, 2, 1, 0] if ver else [], who, wrap(0x18, produced), wrap(0x30, cat(*singles))))
    return wrap(0x30, cat(tbs, ALG, wrap(3, [0, 1, 2])))


def response(status, kind, inner):
    return wrap(0x30, cat(wrap(10, status), wrap(0xa0, wrap(0x30, wrap(6, kind) + wrap(4, inner)))))


BASIC = der.oid_body((1, 3, 6, 1, 5, 5, 7, 48, 1, 1))


def digits(text, *sym):
    """octets of text, with some positions replaced by a symbolic digit"""
    return ['3+48:%s%d' % (text[:1], i) if i in sym else ord(c) for i, c in enumerate(text)]


def syms(tag, n, k=8):
    return ['8+0:%s%d' % (tag, i) if i < k else (i * 7 + 3) & 255 for i in range(n)]


CN, OU, O, C = (2, 5, 4, 3), (2, 5, 4, 11), (2, 5, 4, 10), (2, 5, 4, 6)


def rdn_sets(tag, n=2):
    """the same shape of name, with its own symbols"""
    def chars(k, m):
        return ['7+0:%s%d.%d' % (tag, k, i) if i < n else 65 + i for i in range(m)]
    return [
        ('one', [[(CN, 0x13, chars(0, 3))]]),
        ('empty', []),
        ('three', [[(C, 0x13, chars(0, 2))], [(O, 0x0c, list(b'Org') + chars(1, 2))], [(CN, 0x16, chars(2, 1))]]),
        ('multi', [[(CN, 0x13, list(b'a')), (OU, 0x13, list(b'b'))], [(O, 0x14, chars(0, 2))]]),
        ('long', [[(CN, 0x13, chars(0, 64))], [(O, 0x13, chars(1, 64))], [(OU, 0x13, [66] * 60)]]),
        ('bmp', [[(CN, 0x1e, [0, '7+0:%sb' % tag, 0, 66])]]),
    ]


def tasks(w, tier):
    out = []
    ok = response([0], BASIC, basic([single([5], 0, list(b'20200101000000Z'))], list(b'20200102000000Z')))
    plain = name([[(CN, 0x13, list(b'CA'))]])
    me = name([[(CN, 0x13, list(b'me'))]])

    def req(label, i, u, subject, uissuer, key):
        out.append(Task('ocsp_request', {'issuer': Oct(i), 'user': Oct(u), 'subject': Oct(subject), 'uissuer': Oct(uissuer),
                                         'key': Oct(key), 'answer': Oct(ok)}, 'request ' + label))
    # names: the same name, and two names of the same shape with their own symbols
    ns, ms = rdn_sets('n'), rdn_sets('m')
    for (label, a), (_, b) in zip(ns, ms):
        a, b = name(a), name(b)
        req('name %s' % label, cert(a, plain, [1], [0, 4]), cert(me, a, syms('s', 2), [0, 9]), a, a, [4])
        if a != b:
            req('names %s' % label, cert(a, plain, [1], [0, 4]), cert(me, b, [7], [0, 9]), a, b, [4])
    # names of different shapes
    for x in range(len(ns)):
        for y in range(len(ns)):
            if x != y and (tier == 'thorough' or abs(x - y) <= 2):
                a, b = name(ns[x][1]), name(ms[y][1])
                req('names %s and %s' % (ns[x][0], ns[y][0]), cert(a, plain, [1], [0, 4]), cert(me, b, [7], [0, 9]), a, b, [4])
    two = [(CN, 0x13, list(b'a'))], [(O, 0x13, list(b'b'))]
    for label, x, y in (('reordered', [two[0], two[1]], [two[1], two[0]]), ('prefix', [two[0], two[1]], [two[0]]), ('extension', [two[0]], [two[0], two[1]]),
                        ('same text of another kind', [two[0]], [[(CN, 0x0c, list(b'a'))]]), ('same text under another type', [two[0]], [[(O, 0x13, list(b'a'))]])):
        a, b = name(x), name(y)
        req('names %s' % label, cert(a, plain, [1], [0, 4]), cert(me, b, [7], [0, 9]), a, b, [4])
    # the user certificate's other name and the issuer's own issuer must not matter
    n1, n2 = name(rdn_sets('n')[0][1]), name(rdn_sets('m')[0][1])
    req('own names', cert(plain, n1, [1], [0, 4]), cert(n2, plain, [7], [0, 9]), plain, plain, [4])
    # keys
    for n in (0, 1, 2, 3, 8, 33, 126, 127, 140, 270, 1100) if tier == 'thorough' else (0, 1, 2, 8, 127, 140, 270):
        k = syms('k', n, 6)
        req('key of %d octets' % n, cert(plain, plain, [1], [0] + k), cert(me, plain, [7], [0, 9]), plain, plain, k)
    for pad in range(1, 8):
        last = [(0xff << pad) & 0xff]
        for n in (0, 1, 3):
            k = syms('k', n, 4) + last
            req('key of %d octets and %d bits' % (n, 8 - pad), cert(plain, plain, [1], [pad] + k), cert(me, plain, [7], [0, 9]), plain, plain, k)
    # serial numbers
    for n in (1, 2, 3, 8, 9, 20, 21):
        req('serial of %d octets' % n, cert(plain, plain, [1], [0, 4]), cert(me, plain, syms('s', n, 4), [0, 9]), plain, plain, [4])
    # the issuer's serial is another one; other forms of certificate
    req('both serials', cert(plain, plain, syms('i', 2), [0] + syms('k', 1)), cert(me, plain, syms('s', 2), [0] + syms('u', 1)), plain, plain, syms('k', 1))
    for v in (False, True):
        for e in (False, True):
            if v or not e:
                req('version %d extensions %d' % (v, e), cert(plain, plain, [1], [0] + syms('k', 2), v, e), cert(me, plain, syms('s', 2), [0, 9], v, e), plain, plain, syms('k', 2))
    # self-signed, and the same certificate twice
    c = cert(plain, plain, syms('s', 2), [0] + syms('k', 2))
    req('self', c, c, plain, plain, syms('k', 2))
    # not certificates
    good = cert(plain, plain, [1], [0, 4])
    req('issuer is no certificate', good[:-1], cert(me, plain, [7], [0, 9]), plain, plain, [4])
    req('user is no certificate', good, cert(me, plain, [7], [0, 9])[:-1], plain, plain, [4])
    out += answers(w, tier, good, cert(me, plain, [5], [0, 9]))
    out += snmp(w, tier)
    return out


def answers(w, tier, i, u):
    out = []
    this, prod = digits('20200304050607Z', 3, 13), digits('19210908070605Z', 3, 13)

    def ans(label, octets, inner):
        out.append(Task('ocsp_answer', {'issuer': Oct(i), 'user': Oct(u), 'answer': Oct(octets), 'inner': Oct(inner)}, 'answer ' + label))
    for st in range(3):
        for by in (1, 2):
            b = basic([single([5], st, this, by == 2)], prod, by, by == 2)
            ans('%s by %d' % (STATUS[st], by), response([0], BASIC, b), b)
        for other in range(3):
            b = basic([single(['4+64:s'], st, this), single([99], other, digits('20310101010101Z', 3))], prod)
            ans('%s then %s' % (STATUS[st], STATUS[other]), response([0], BASIC, b), b)
    for n in (1, 2, 9, 20):
        serial = ['4+%d:s' % (64 if n == 1 else 16)] + [17] * (n - 1)
        b = basic([single(serial, 0, this)], prod)
        ans('serial of %d octets' % n, response([0], BASIC, b), b)
    b = basic([single([0x80, 1], 1, this)], prod)
    ans('negative serial', response([0], BASIC, b), b)
    b = basic([single([5], 0, list(b'20200304050607Z'))], list(b'19210908070605Z'))
    ans('any status', response(['8+0:status'], BASIC, b), b)
    ans('any long status', response(['8+0:status', '8+0:status2'], BASIC, b), b)
    for p in range(len(BASIC)):
        if p in (0, 1, 8) or tier == 'thorough':
            k = list(BASIC)
            k[p] = '7+0:arc'
            ans('kind with any octet %d' % p, response([0], k, b), b)
    ans('shorter kind', response([0], BASIC[:-1], b), b)
    ans('longer kind', response([0], BASIC + [1], b), b)
    for st in range(8):
        ans('status %d without bytes' % st, wrap(0x30, [10, 1, st]), b)
    b0 = basic([], list(b'19210908070605Z'))
    ans('no responses', response([0], BASIC, b0), b0)
    ans('cut short', response([0], BASIC, b[:-1]), b[:-1])
    ans('not a basic response', response([0], BASIC, [4, 2, 65, 66]), [4, 2, 65, 66])
    ans('answer cut short', response([0], BASIC, b)[:-1], b)
    ans('empty answer', [], b)
    ans('any identifier', ['8+0:ident'] + response([0], BASIC, b)[1:], b)
    return out


def snmp(w, tier):
    out = []
    vb = wrap(0x30, wrap(6, der.oid_body((1, 3, 6, 1))) + wrap(4, list(b'hi')))
    ans = wrap(0x30, cat([2, 1, 0], wrap(4, list(b'public')), wrap(0xa2, cat([2, 1, 123], [2, 1, 0], [2, 1, 0], wrap(0x30, vb)))))

    def get(label, comm, oid, host='192.0.2.1'):
        out.append(Task('snmp_get', {'community': Text(comm), 'oid': Text(oid), 'host': host, 'answer': Oct(ans)}, 'snmpget ' + label))
    base = list(b'1.3.6.1.2.1.1.')
    for n in (0, 1, 2, 6, 40, 127, 128, 200):
        get('community of %d' % n, ['7+0:c%d' % i if i < 6 else 97 for i in range(n)], base + list(b'3.0'))
    get('OID digit', list(b'public'), base + ['3+48:d', 46, 48])
    for text in ('1.3', '0.0', '2.999.1', '1.3.6.1.4.1.20408.4294967295', '1.3.127.128.16383.16384', '1.39.1', '2.40',
                 '1.3.6.1.' + '.'.join(str(i * 37) for i in range(60)), '.1.3.6.1'):
        get('OID %s' % text[:30], list(b'public'), list(text.encode()), 'host.example')
    get('both', ['7+0:c'], [49, 46, 51, 46, '3+48:d', '3+48:e', 53])
    return out


def check(tier, seed):
    from vlib import world
    rep = Report('C17', tier, seed)
    w = world.World(True)
    rep.results = run_all(w, tasks(w, tier), known=rep.known)
    rep.assumptions = ['SHA-1 is replaced by a recorder (a hash is known by what was hashed); urllib and the socket are replaced by recorders',
                       'requests and answers are read with the reference grammar',
                       'names are compared as encoded (DER); base64 itself is C13 and C14']
    return rep.finish({'certificates': 'symbolic name characters, serial octets (up to 21) and key octets (up to 1100, every number of unused bits)',
                       'answers': 'symbolic status, type, serial, date digits; up to two single responses',
                       'SNMP': 'communities up to 200 characters, first 6 symbolic (7-bit); a symbolic OID digit and a list of OIDs',
                       'outside': 'transport, hash function, proxies; certificates in BER that is not DER'},
                      must_see=('request', 'other names', 'reported', 'unsuccessful', 'another kind', 'unreadable'))
