"""E08: tools/gftool and tools/gentab, built from the tree, against an
independent computation."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor

DUMP = r'''
#include <stdio.h>
#include <ecc/gf13.h>
#include <ecc/bch.h>
#include <ecc/crc32.h>
int main(void)
{
	int i;
	for (i = 0; i < 8192; i++) printf("exp %d %u\n", i, (unsigned)gf13_exp[i]);
	for (i = 0; i < 8192; i++) printf("log %d %u\n", i, (unsigned)gf13_log[i]);
	for (i = 0; i < 256; i++) { unsigned char b = ~i; printf("crc %d %u\n", i, (unsigned)~crc32_nand(&b, 1, 0xffffffff)); }
	printf("bch 2 %llu\nbch 4 %llu\nbch 6 %llu\nbch 8 %llu\n", (unsigned long long)bch_1bit.generator, (unsigned long long)bch_2bit.generator,
		(unsigned long long)bch_3bit.generator, (unsigned long long)bch_4bit.generator);
	return 0;
}
'''


def mulmod(a, b, p, d):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> d & 1:
            a ^= p
    return r


def primes(n):
    out, q = [], 2
    while q * q <= n:
        if n % q == 0:
            out.append(q)
            while n % q == 0:
                n //= q
        q += 1
    return out + ([n] if n > 1 else [])


def is_primitive(p):
    d = p.bit_length() - 1
    n = (1 << d) - 1
    if not p & 1:
        return False
    def power(e):
        r, b = 1, 2 if d > 1 else 1
        while e:
            if e & 1:
                r = mulmod(r, b, p, d)
            b = mulmod(b, b, p, d)
            e >>= 1
        return r
    return power(n) == 1 and all(power(n // q) != 1 for q in primes(n))


def rev(p):
    return int(bin(p)[:1:-1], 2) if p else 0


def pmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def minimal(p, k):
    """Minimal polynomial of alpha^-k, where alpha is a root of p."""
    d = p.bit_length() - 1
    n = (1 << d) - 1
    k = -k % n
    conj, e = [], k
    while True:
        conj.append(e)
        e = e * 2 % n
        if e == k:
            break
    # alpha^e for each conjugate
    def alpha(e):
        r, b = 1, 2
        while e:
            if e & 1:
                r = mulmod(r, b, p, d)
            b = mulmod(b, b, p, d)
            e >>= 1
        return r
    poly = [1]                      # coefficients, lowest first
    for e in conj:
        a = alpha(e)
        new = [0] * (len(poly) + 1)
        for i, c in enumerate(poly):
            new[i + 1] ^= c
            new[i] ^= mulmod(c, a, p, d)
        poly = new
    assert all(c < 2 for c in poly)
    return sum(c << i for i, c in enumerate(poly))


def parse_line(l):
    """'0x13 [0x19] -> x^4 + x + 1' -> value, after checking that all agree."""
    m = re.search(r'0x([0-9a-fA-F]+)\s*\[0x([0-9a-fA-F]+)\]\s*->\s*([x^0-9 +]+)', l)
    if not m:
        return None
    v, r = int(m.group(1), 16), int(m.group(2), 16)
    t = 0
    for w in m.group(3).split('+'):
        w = w.strip()
        t ^= 1 if w == '1' else 2 if w == 'x' else 1 << int(w[2:]) if w.startswith('x^') else -1
    return (v, r, t)


def run(prop, tier, seed, work, repo, rdir):
    import run as runner
    rnd = random.Random('%d %s' % (seed, prop))
    exe = {}
    for t in ('gftool', 'gentab'):
        exe[t] = os.path.join(work, t)
        r = subprocess.run(['clang', '-g', '-O1', '-w', '-fsanitize=address', '-I', repo, os.path.join(repo, 'tools', t + '.c'), '-o', exe[t]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise runner.CheckError('build failed:\n' + r.stdout[-3000:])
    with open(os.path.join(work, 'dump.c'), 'w') as f:
        f.write(DUMP)
    import glob
    r = subprocess.run(['clang', '-w', '-I', repo, os.path.join(work, 'dump.c')] + sorted(glob.glob(os.path.join(repo, 'ecc', '*.c'))) + ['-o', os.path.join(work, 'dump')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise runner.CheckError('build failed:\n' + r.stdout[-3000:])
    lib = {}
    for l in subprocess.run([os.path.join(work, 'dump')], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
        w = l.split()
        if len(w) == 3:
            lib[w[0], int(w[1])] = int(w[2])

    def call(*argv):
        try:
            r = subprocess.run([exe[argv[0]]] + list(argv[1:]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400 if tier == 'thorough' else 100, text=True, errors='replace',
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            return None, '', 'no answer'
        return r.returncode, r.stdout, r.stderr

    def spell(v):
        s = '%x' % v
        if rnd.random() < .3:
            s = s.upper()
        return rnd.choice(['0x', '', '0x00', '000']) + s

    deep = tier == 'thorough'
    cases = []
    for d in range(2, 16 if deep else 14):
        cases.append(('search', d))
    prims = {d: None for d in range(2, 16)}
    for d in range(2, 16):
        if d <= 9:
            prims[d] = [p for p in range(1 << d, 2 << d) if is_primitive(p)]
        else:
            prims[d] = []
            while len(prims[d]) < (40 if deep else 12):
                p = rnd.randrange(1 << d, 2 << d) | 1
                if is_primitive(p):
                    prims[d].append(p)
    prims[13].append(0x201b)
    for d in range(2, 16):
        ps = prims[d] if len(prims[d]) <= (60 if deep else 24) else rnd.sample(prims[d], 60 if deep else 24)
        for p in ps:
            cases.append(('exp', p, spell(p)))
            cases.append(('log', p, spell(p)))
        if d <= 13:
            for p in ps:
                for _ in range(4 if deep else 3):
                    # up to the point where the product no longer fits in 63 bits
                    n = rnd.randrange(1, (1 << d) - 1) if d < 7 else rnd.randrange(1, 2 * (70 // d) + 3)
                    cases.append(('bch', p, n, spell(p)))
    for n in (2, 4, 6, 8):
        cases.append(('bch', 0x201b, n, '0x201b'))
    cases += [('libexp',), ('liblog',), ('libcrc',)]
    cases += [('crc', 0xedb88320, '0xedb88320'), ('crc', 0, '0'), ('crc', 0xffffffff, 'ffffffff')]
    for _ in range(4000 if deep else 600):
        p = rnd.getrandbits(32)
        cases.append(('crc', p, spell(p)))
    for _ in range(40):
        bad = list('%x' % rnd.getrandbits(32))
        bad.insert(rnd.randrange(1, len(bad) + 1), rnd.choice('gGzZ-/:@`{ '))
        s = '0x1' + ''.join(bad)
        cases.append(('badcrc', s))
        cases.append(('badgf', s, rnd.choice(['exp', 'log'])))

    for p in (0x1002d, 0x1100b):
        for k in ('exp', 'log'):
            cases.append((k, p, spell(p)))
    for _ in range(12):
        cases.append(('refuse', '%x' % (1 << rnd.randrange(17, 31) | rnd.randrange(1 << 16) | 1), rnd.choice(['exp', 'log', 'bch']), '3'))
        d = rnd.randrange(2, 14)
        cases.append(('refuse', '%x' % rnd.choice(prims[d]), 'bch', str((1 << d) - 1 + rnd.choice([0, 0, 1, 2, rnd.randrange(1000)]))))
        cases.append(('refuse', '%x' % rnd.choice(prims[d]), rnd.choice(['tab', 'expo', 'lo', 'x', '']), '3'))

    def hexes(out):
        return [int(x, 16) for x in re.findall(r'0x([0-9a-fA-F]+)', out)]

    def field(p):
        d = p.bit_length() - 1
        ex, a = [], 1
        for _ in range(1 << d):
            ex.append(a)
            a <<= 1
            if a >> d & 1:
                a ^= p
        return d, ex

    def one(c):
        """-> message or None"""
        k = c[0]
        if k == 'search':
            d = c[1]
            rc, out, err = call('gftool', 'search', str(d))
            got = [parse_line(l) for l in out.split('\n') if l.strip()]
            if rc != 0 or None in got:
                return 'search %d fails: exit %s, %s' % (d, rc, err[-300:])
            for v, r, t in got:
                if r != rev(v) or t != v:
                    return 'search %d prints inconsistent forms of 0x%x' % (d, v)
            got = [v for v, _, _ in got]
            want = [p for p in range(1 << d, 2 << d) if is_primitive(p)]
            if sorted(got) != want:
                x = sorted(set(got) ^ set(want)) or ['duplicates']
                return 'search %d is wrong about %s' % (d, ', '.join('0x%x' % v if isinstance(v, int) else v for v in x[:5]))
        elif k in ('exp', 'log', 'libexp', 'liblog'):
            if k.startswith('lib'):
                p, s, k = 0x201b, '0x201b', k[3:]
            else:
                p, s = c[1:]
            d, ex = field(p)
            rc, out, err = call('gftool', s, k)
            got = hexes(out)
            if rc != 0 or len(got) != 1 << d:
                return '%s %s fails: exit %s, %d entries, %s' % (s, k, rc, len(got), err[-300:])
            if k == 'exp':
                want = ex
            else:
                want = [got[0]] + [0] * ((1 << d) - 1)     # log of 0 means nothing
                for i in range((1 << d) - 1):
                    want[ex[i]] = i
                if got[1] == (1 << d) - 1:                 # log of 1: 0 or the order
                    want[1] = got[1]
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False)
                return '%s %s: entry %d is 0x%x, expected 0x%x' % (s, k, i, got[i], want[i])
            if c[0].startswith('lib'):
                for i in range(8192):
                    if got[i] != lib[k, i] and not (k == 'log' and i == 0):
                        return 'gf13_%s[%d] is 0x%x, the tool prints 0x%x' % (k, i, lib[k, i], got[i])
        elif k == 'bch':
            p, n, s = c[1:]
            d = p.bit_length() - 1
            ms, prod = [], 1
            for i in range(1, n + 1, 2):
                m = minimal(p, i)
                if m not in ms:
                    prod = pmul(prod, m)
                ms.append(m)
            rc, out, err = call('gftool', s, 'bch', str(n))
            fits = prod.bit_length() - 1 <= 63
            if not fits:
                if rc == 0:
                    return '%s bch %d: exit 0 although the product has degree %d' % (s, n, prod.bit_length() - 1)
                return None
            if rc != 0:
                return '%s bch %d fails: exit %s, %s' % (s, n, rc, err[-300:])
            got = [parse_line(l) for l in out.split('\n') if '->' in l]
            for g in got:
                if g is None or g[1] != rev(g[0]) or g[2] != g[0]:
                    return '%s bch %d prints inconsistent forms' % (s, n)
            got = [g[0] for g in got]
            if got[-1:] != [prod]:
                return '%s bch %d: generator 0x%x, expected 0x%x' % (s, n, got[-1] if got else 0, prod)
            if got[:-1] != ms:
                return '%s bch %d: minimal polynomials %s, expected %s' % (s, n, [hex(x) for x in got[:-1]], [hex(x) for x in ms])
            if p == 0x201b and ('bch', n) in lib and lib['bch', n] != rev(prod):
                return 'the library uses generator 0x%x for %d syndromes, expected 0x%x' % (lib['bch', n], n, rev(prod))
        elif k in ('crc', 'libcrc'):
            p, s = (0xedb88320, '0xedb88320') if k == 'libcrc' else c[1:]
            rc, out, err = call('gentab', s)
            want = []
            for i in range(256):
                r = i
                for _ in range(8):
                    r = r >> 1 ^ (p if r & 1 else 0)
                want.append(r)
            got = hexes(out)
            if rc != 0 or len(got) != 256:
                return 'gentab %s: exit %s, %d entries, %s' % (s, rc, len(got), err[-300:])
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False)
                return 'gentab %s: entry %d is 0x%x, expected 0x%x' % (s, i, got[i], want[i])
            if k == 'libcrc':
                for i in range(256):
                    if lib['crc', i] != want[i]:
                        return 'CRC table entry %d of the library is 0x%x, the tool prints 0x%x' % (i, lib['crc', i], want[i])
        elif k == 'badcrc':
            rc, out, err = call('gentab', c[1])
            if rc == 0:
                return 'gentab accepts "%s"' % c[1]
        elif k == 'refuse':
            rc, out, err = call('gftool', *c[1:])
            if rc == 0:
                return 'gftool accepts %s' % ' '.join(c[1:])
            if rc is None or rc < 0 or 'runtime error' in err or 'Sanitizer' in err:
                return 'gftool %s dies: %s' % (' '.join(c[1:]), err[-300:])
        elif k == 'badgf':
            rc, out, err = call('gftool', c[1], c[2])
            if rc == 0:
                return 'gftool accepts "%s"' % c[1]
        return None

    kinds = {}
    for c in cases:
        kinds[c[0]] = kinds.get(c[0], 0) + 1
    failed = []

    def guarded(c):
        if len(failed) > 8:             # enough to report; every one of the rest might hang
            return None
        m = one(c)
        if m:
            failed.append(c)
        return m
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(guarded, cases))
    bad = [(len(repr(c)), c, m) for c, m in zip(cases, res) if m]
    out = dict(evaluations=len(cases), distinct_nontrivial=len(set(cases)), samples=[repr(c) for c in cases[:3] + cases[60:63] + cases[-3:]],
               stats=kinds, violation=None, message='')
    if bad:
        bad.sort(key=lambda x: x[:1])
        _, c, m = bad[0]
        again = one(c)
        if not again:
            raise runner.CheckError('a failure could not be reproduced: ' + m)
        p = os.path.join(rdir, '%s-%d.json' % (prop, seed))
        with open(p, 'w') as f:
            json.dump(dict(property=prop, case=list(c), message=m, failing_cases=len(bad)), f, indent=1)
        out['violation'], out['message'] = p, '%s: %s' % (prop, m)
    return out
