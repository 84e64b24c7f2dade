#!/usr/bin/env python3
"""Cross-check of the reference's object identifiers against the OID table of
the installed OpenSSL (an independently maintained registry), and of equally
named identifiers among the reference's modules.  Not a check of the code:
an audit aid for ref/*.asn.  Prints disagreements, exits 1 if there are any
that are not explained in KNOWN below."""
import collections
import glob
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# same normalised name, legitimately another object
# (RFC 2459 section A.1 on: holdInstruction OBJECT IDENTIFIER ::=
# {joint-iso-itu-t(2) member-body(2) us(840) x9cm(10040) 2}, as printed)
KNOWN = {
    (m, 'id_holdinstruction_' + n)
    for m in ('rfc2314', 'rfc2315', 'rfc2459', 'rfc2511', 'rfc3280',
              'rfc5208', 'rfc5280')
    for n in ('none', 'callissuer', 'reject')
} | {('rfc6486', 'id_ct_rpkiManifest')}   # content type, not the access method


def norm(name):
    name = name.lower().replace('_', '-')
    name = re.sub(r'^(id|ub)-', '', name)
    name = re.sub(r'^(at|ce|pe|kp|ad|on|qt|aa|alg|smime-aa|smime-ct|smime-alg|'
                  r'smime-cti|cti|ct|cmc|it|pda|aca|cct|ets|spq|pkip|regctrl|'
                  r'reginfo|pkix-ocsp|pkix|mod|smime)-', '', name)
    return re.sub(r'[^a-z0-9]', '', name)


def openssl():
    out = subprocess.run(['openssl', 'list', '-objects'], capture_output=True,
                         text=True).stdout
    byoid, byname = {}, collections.defaultdict(set)
    for line in out.splitlines():
        m = re.match(r'^(.*?) = (.*?), ([0-9.]+)$', line.strip())
        if m:
            byoid[m[3]] = (m[1], m[2])
            for n in (m[1], m[2]):
                byname[norm(n.replace(' ', ''))].add(m[3])
    return byoid, byname


def reference():
    res = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'ref', '*.asn'))):
        mod = os.path.basename(p)[:-4]
        for line in open(p):
            m = re.match(r'^(\S+) OID ::= ([0-9.]+)\s*$', line)
            if m:
                res[mod, m[1]] = m[2]
    return res


def main():
    byoid, byname = openssl()
    ref = reference()
    agree = same = 0
    bad = []
    names = collections.defaultdict(lambda: collections.defaultdict(list))
    for (mod, name), oid in ref.items():
        names[name][oid].append(mod)
        hit = byname.get(norm(name), set())
        if oid in hit:
            agree += 1
        elif oid in byoid:
            same += 1
            if '-v' in sys.argv:
                print('same OID, other name: %s.%s %s = %s' % (mod, name, oid, byoid[oid]))
        elif hit and (mod, name) not in KNOWN:
            bad.append('%s.%s = %s, OpenSSL has %s' % (mod, name, oid, sorted(hit)))
    for name, oids in sorted(names.items()):
        if len(oids) > 1:
            print('differs among modules: %s %s' % (name, {k: v[:4] for k, v in oids.items()}))
    for b in bad:
        print('OTHER OID:', b)
    print('%d constants (%d names): %d agree with OpenSSL by name and value, '
          '%d by value under another name, %d disagree, the others are unknown to it'
          % (len(ref), len(names), agree, same, len(bad)))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
