#!/usr/bin/env python3
"""Runs the check of one property: run.py <id> [--tier quick|thorough].

Builds the harness together with /repo's current working tree in a scratch
directory, runs generated cases in 8 worker processes, minimises and replays a
failing case, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error.
"""
import argparse, functools, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
from checks import CHECKS           # id -> dict
JOBS = 8
WALL = 660                          # safety stop for the search (s), quick tier


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C')


def build(work, spec, fuzz=False):
    """Compile the tree's sources and the harness; returns the binary."""
    if fuzz:
        work = os.path.join(work, 'fuzz')
        os.makedirs(work, exist_ok=True)
    san = [] if spec.get('nosan') else ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if spec.get('ubsan') else ['-fsanitize=address']
    libc = ['clang', '-g', '-O1', '-w', '-fexceptions', '-fno-omit-frame-pointer', '-I', REPO] + san + (['-fsanitize=fuzzer-no-link'] if fuzz else [])
    jobs = []
    objs = []
    def add(cmd, src, tag):
        o = os.path.join(work, tag + os.path.basename(src).rsplit('.', 1)[0] + '.o')
        objs.append(o)
        jobs.append(cmd + ['-c', src, '-o', o])
    for d in spec.get('libs', ['dhara']):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.c'))):
            add(libc + spec.get('cflags', []), f, d + '_')
            if d == 'ecc' and spec.get('ecc_both'):
                # the table-free build, with its symbols renamed
                ren = ['-D%s=nt_%s' % (s, s) for s in ecc_symbols()]
                add(libc + ['-DGF13_NO_TABLES'] + ren, f, 'nt_')
    for f in spec.get('shims', []):
        src = os.path.join(HERE, 'harness', f + '.c')
        add(libc, src, 'tb_')
        add(libc + ['-DGF13_NO_TABLES', '-DVF(x)=nt_##x'] + ['-D%s=nt_%s' % (s, s) for s in ecc_symbols()], src, 'nt_')
    cxx = ['clang++', '-std=c++17', '-g', '-O2', '-w', '-I', REPO, '-I', os.path.join(HERE, 'harness')] + (['-fsanitize=address'] if spec.get('cxxsan') else [])
    for f in spec['srcs']:
        if fuzz and f == 'main':
            f = 'fuzz'
        add(cxx, os.path.join(HERE, 'harness', f + '.cpp'), 'x_')
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda c: (c, sh(c)), jobs))
    for c, r in res:
        if r.returncode:
            raise CheckError('build failed: %s\n%s' % (' '.join(c), r.stdout[-4000:]))
    exe = os.path.join(work, 'h')
    r = sh(['clang++'] + san + (['-fsanitize=fuzzer'] if fuzz else []) + objs + ['-o', exe])
    if r.returncode:
        raise CheckError('link failed:\n' + r.stdout[-4000:])
    return exe


@functools.lru_cache(None)
def ecc_symbols():
    """External symbols defined by the tree's ecc sources."""
    d = tempfile.mkdtemp(prefix='verif-sym-')
    out = set()
    try:
        for flags in ([], ['-DGF13_NO_TABLES']):
            for f in sorted(glob.glob(os.path.join(REPO, 'ecc', '*.c'))):
                o = os.path.join(d, 'a.o')
                r = sh(['clang', '-w', '-I', REPO] + flags + ['-c', f, '-o', o])
                if r.returncode:
                    raise CheckError('build failed:\n' + r.stdout[-4000:])
                for l in sh(['nm', '-g', '--defined-only', o]).stdout.split('\n'):
                    p = l.split()
                    if len(p) == 3:
                        out.add(p[2])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sorted(out)


def replay(exe, path, timeout=100):
    """-> (failed, message, full output)"""
    try:
        r = sh([exe, 'replay', path], env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, 'HANG: no result within %d s' % timeout, ''
    if r.returncode == 0:
        return False, '', r.stdout
    m = re.search(r'^FAIL (.*)$', r.stdout, re.M)
    if m:
        return True, m.group(1), r.stdout
    m = re.search(r'(HANG: .*|ERROR: AddressSanitizer.*|.*runtime error:.*)', r.stdout)
    if m:
        return True, m.group(1).strip(), r.stdout
    if r.returncode == 3:
        raise CheckError('bad replay file %s' % path)
    return True, 'the process dies (exit status %d)' % r.returncode, r.stdout


def klass(msg):
    if 'HANG' in msg or 'budget' in msg:
        return 'hang'
    if 'Sanitizer' in msg or 'runtime error' in msg or 'process dies' in msg:
        return 'crash'
    return 'viol'


def shrink(exe, path, work, msg, deadline):
    """Delta debugging over the operation lines of a case file."""
    lines = open(path).read().split('\n')
    head = [l for l in lines if l and not l.startswith('op ')]
    ops = [l for l in lines if l.startswith('op ')]
    want = klass(msg)
    tried = [0]

    def fails(h, o):
        tried[0] += 1
        p = os.path.join(work, 'cand%d' % tried[0])
        with open(p, 'w') as f:
            f.write('\n'.join(h + o) + '\n')
        try:
            bad, m, _ = replay(exe, p, 40)
        except CheckError:
            bad = False
        os.unlink(p)
        return bad and klass(m) == want

    with ThreadPoolExecutor(JOBS) as ex:
        # look at every crash point, so that removing operations keeps the failure
        h2 = [re.sub(r'\bprobe=[1-9]\d*', 'probe=1', l) for l in head]
        if h2 != head and fails(h2, ops):
            head = h2
        n = 2
        while len(ops) >= 1 and time.time() < deadline:
            size = max(1, (len(ops) + n - 1) // n)
            cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            cands.sort(key=lambda c: 0)
            done = False
            for i in range(0, len(cands), JOBS):
                if time.time() > deadline:
                    break
                batch = cands[i:i + JOBS]
                res = list(ex.map(lambda c: fails(head, c), batch))
                for c, r in zip(batch, res):
                    if r:
                        ops = c
                        done = True
                        break
                if done:
                    break
            if done:
                n = max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(len(ops), n * 2)
    return '\n'.join(head + ops) + '\n', tried[0]


def sequence(exe, prop, seed, idx, thorough, work, txt, deadline):
    """A failure which needs what earlier cases left behind in the process
    (state which outlives its structures): the shortest run of earlier cases of
    the same worker after which the case fails.  -> text of a replay file or None"""
    before = []

    def fails(parts):
        p = os.path.join(work, 'seq')
        with open(p, 'w') as f:
            f.write('---\n'.join(parts + [txt]))
        try:
            return replay(exe, p, 600)[0]
        except CheckError:
            return False

    n = 1
    while True:
        while len(before) < n and idx >= JOBS * (len(before) + 1):
            before.append(sh([exe, 'gen', prop, str(seed), str(idx - JOBS * (len(before) + 1)), str(int(thorough))], env=ENV).stdout)
        parts = before[::-1]
        if fails(parts):
            break
        if len(before) < n or time.time() > deadline:
            return None
        n *= 4
    k = max(1, len(parts) // 2)
    while parts and time.time() < deadline:
        i = 0
        while i < len(parts) and time.time() < deadline:
            cand = parts[:i] + parts[i + k:]
            if fails(cand):
                parts = cand
            else:
                i += k
        if k == 1:
            break
        k = max(1, k // 2)
    return '---\n'.join(parts + [txt])


def run_workers(exe, prop, seed, count, thorough, work, wall, start=0):
    procs = []
    for k in range(JOBS):
        d = os.path.join(work, 'w%d' % k)
        os.makedirs(d, exist_ok=True)
        for f in ('fail', 'cur'):
            if os.path.exists(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))
        out = open(os.path.join(d, 'out'), 'w')
        procs.append((subprocess.Popen([exe, 'run', prop, str(seed), str(start + k), str(JOBS), str(count), str(int(thorough)), d],
                                       stdout=out, stderr=subprocess.STDOUT, env=ENV), d, out))
    t0 = time.time()
    stopped = False
    failed = []
    while True:
        alive = [p for p in procs if p[0].poll() is None]
        failed = [p for p in procs if p[0].poll() not in (None, 0)]
        if not alive:
            break
        if failed or time.time() - t0 > wall:
            stopped = not failed
            if failed:
                time.sleep(1.0)     # let the others finish a nearby failure
            for p in alive:
                if p[0].poll() is None:
                    p[0].send_signal(signal.SIGKILL)
            for p in alive:
                p[0].wait()
            failed = [p for p in procs if p[0].returncode not in (0, -9)]
            if failed or stopped:
                break
            raise CheckError('a worker was killed')
        time.sleep(0.05)
    for p in procs:
        p[2].close()
    stats, hashes, nt, n = {}, set(), set(), 0
    for p in procs:
        part = {}
        for l in open(os.path.join(p[1], 'out'), errors='replace'):
            w = l.split()
            if len(w) == 4 and w[0] == 'C':
                n += 1
                hashes.add(w[2])
                if int(w[3]):
                    nt.add(w[2])
            elif len(w) == 3 and w[0] == 'STAT':
                v = int(w[2])
                if w[1].startswith('max'):
                    stats[w[1]] = max(stats.get(w[1], 0), v)
                else:
                    stats[w[1]] = stats.get(w[1], 0) + v
    fails = []
    idxs = {}
    for p in failed:
        f = os.path.join(p[1], 'fail')
        txt = None
        idx = open(os.path.join(p[1], 'cur')).read().strip() if os.path.exists(os.path.join(p[1], 'cur')) else ''
        if os.path.exists(f):
            txt = open(f).read()
        elif idx:
            r = sh([exe, 'gen', prop, str(seed), idx, str(int(thorough))], env=ENV)
            txt = r.stdout if r.returncode == 0 else None
        if txt:
            if idx:
                idxs[txt] = int(idx)
            fails.append((len(txt), txt))
        else:
            tail = open(os.path.join(p[1], 'out'), errors='replace').read()[-2000:]
            raise CheckError('a worker ended with status %s\n%s' % (p[0].returncode, tail))
    fails.sort()
    return dict(n=n, hashes=hashes, nt=nt, stats=stats, idx=idxs, fails=[t for _, t in fails], stopped=stopped)


def fuzz(prop, spec, seed, work, secs):
    """Coverage-guided search over the choices of the case generator.
    -> (executions, non-trivial, coverage, corpus size, failing cases)"""
    exe = build(work, spec, True)
    corpus = os.path.join(work, 'corpus')
    os.makedirs(corpus)
    rnd = random.Random(seed)
    for i in range(64):
        with open(os.path.join(corpus, 'seed%d' % i), 'wb') as f:
            f.write(rnd.randbytes(rnd.choice([100, 500, 2000, 6000])))
    procs = []
    for k in range(JOBS):
        d = os.path.join(work, 'z%d' % k)
        os.makedirs(d)
        out = open(os.path.join(d, 'out'), 'w')
        procs.append((subprocess.Popen([exe, corpus, '-seed=%d' % (seed * 100 + k + 1), '-max_len=8000', '-len_control=0', '-reload=1',
                                        '-max_total_time=%d' % secs, '-timeout=1200', '-rss_limit_mb=6000', '-print_final_stats=1', '-artifact_prefix=%s/' % d],
                                       stdout=out, stderr=subprocess.STDOUT, cwd=d, env=dict(ENV, VF_PROP=prop, VF_OUT=d)), d, out))
    t0 = time.time()
    while any(p[0].poll() is None for p in procs):
        if any(p[0].poll() not in (None, 0) for p in procs) or time.time() - t0 > secs + 120:
            for p in procs:
                if p[0].poll() is None:
                    p[0].send_signal(signal.SIGKILL)
                    p[0].wait()
            break
        time.sleep(0.2)
    n = nt = cov = 0
    fails = []
    for p, d, out in procs:
        out.close()
        t = open(os.path.join(d, 'out'), errors='replace').read()
        v = re.findall(r'^VF (\d+) (\d+)', t, re.M)
        if v:
            n += int(v[-1][0])
            nt += int(v[-1][1])
        c = re.findall(r' ft: (\d+)', t)
        cov = max([cov] + [int(x) for x in c[-1:]])
        if os.path.exists(os.path.join(d, 'fail')):
            fails.append(open(os.path.join(d, 'fail')).read())
        elif p.returncode not in (0, -9):
            raise CheckError('the fuzzer ended with status %s\n%s' % (p.returncode, t[-2000:]))
    fails.sort(key=len)
    return n, nt, cov, len(os.listdir(corpus)), fails


def known_findings(prop):
    """[(id, text)] listed for this property."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: id=(\S+) property=(\S+) case=(\S+) (.*)', l.strip())
            if m and m.group(2) == prop:
                out.append((m.group(1), m.group(3), m.group(4)))
    return out


def check(prop, tier, seed):
    spec = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = os.path.join(HERE, 'evidence', prop + '.json')
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    try:
        if spec.get('python'):
            import importlib
            res = importlib.import_module(spec['python']).run(prop, tier, seed, work, REPO, rdir)
            write_evidence(ev, prop, tier, seed, spec, res, time.time() - t0)
            if res['violation']:
                print('%s' % res['message'])
                print('VIOLATION property=%s replay=%s' % (prop, res['violation']))
                return 1
            print('OK property=%s: %d cases, %d non-trivial' % (prop, res['evaluations'], res['distinct_nontrivial']))
            return 0
        exe = build(work, spec)
        # the recorded findings, each re-demonstrated
        for kid, case, text in known_findings(prop):
            bad, msg, out = replay(exe, os.path.join(HERE, case))
            if ('STAT known_%s ' % kid) in out:
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, text))
        count = spec['count'] if tier == 'quick' else spec.get('thorough', spec['count'] * 12)
        wall = WALL if tier == 'quick' else 6 * 3600
        r = run_workers(exe, prop, seed, count, tier == 'thorough', work, wall)
        samples = []
        for i in (0, 1):
            s = sh([exe, 'gen', prop, str(seed), str(i), str(int(tier == 'thorough'))], env=ENV).stdout
            samples.append(s if len(s) < 2500 else s[:2500] + '... (%d operations in all)' % s.count('\nop '))
        res = dict(evaluations=r['n'], distinct_nontrivial=len(r['nt']), samples=samples, stats=r['stats'], stopped=r['stopped'])
        if tier == 'thorough' and not r['fails'] and not r['stopped']:
            z = fuzz(prop, spec, seed, work, int(os.environ.get('VERIF_FUZZ_S', '600')))
            r['fails'] = z[4]
            res['stats'].update(fuzz_executions=z[0], fuzz_nontrivial=z[1], fuzz_features=z[2], fuzz_corpus=z[3])
        viol = None
        for txt in r['fails']:
            p = os.path.join(work, 'case')
            with open(p, 'w') as f:
                f.write(txt)
            bad, msg, out = replay(exe, p)
            if not bad:
                small, tried = sequence(exe, prop, seed, r['idx'].get(txt, 0), tier == 'thorough', work, txt, time.time() + 120), 0
                if small is None:
                    print('note: a failing case does not fail when replayed', file=sys.stderr)
                    continue
            else:
                small, tried = shrink(exe, p, work, msg, time.time() + (60 if tier == 'quick' else 300))
            dst = os.path.join(rdir, '%s-%d.case' % (prop, seed))
            with open(dst, 'w') as f:
                f.write(small)
            msgs = []
            for _ in range(3):
                b, m, o = replay(exe, dst)
                if not b:
                    break
                msgs.append(m)
            if len(msgs) < 3:
                print('note: a failing case does not fail on every replay', file=sys.stderr)
                continue
            viol = (dst, msgs[0], small.count('\nop '), tried)
            break
        if r['fails'] and not viol:
            raise CheckError('a failure could not be reproduced')
        res['violations'] = 1 if viol else 0
        write_evidence(ev, prop, tier, seed, spec, res, time.time() - t0)
        if viol:
            print('%s: %s (minimised to %d operations in %d steps)' % (prop, viol[1], viol[2], viol[3]))
            print('VIOLATION property=%s replay=%s' % (prop, viol[0]))
            return 1
        if not r['stopped'] and r['n'] != count:
            raise CheckError('%d cases ran, expected %d' % (r['n'], count))
        print('OK property=%s: %d cases, %d distinct non-trivial, %.1f s%s' % (prop, r['n'], len(r['nt']), time.time() - t0, ' (stopped at the time limit)' if r['stopped'] else ''))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(path, prop, tier, seed, spec, res, wall):
    cov = dict(evaluations=res['evaluations'], distinct_nontrivial=res['distinct_nontrivial'],
               rule=spec['rule'], samples=res['samples'], counts=res.get('stats', {}))
    if res.get('stopped'):
        cov['stopped_at_time_limit'] = True
    d = dict(property=prop, tier=tier, seed=seed, level=spec['level'], coverage=cov,
             assumptions=spec.get('assumptions', []), wall_s=round(wall, 2),
             violations=int(res.get('violations', 1 if res.get('violation') else 0)))
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    try:
        sys.exit(check(a.prop, a.tier, a.seed))
    except CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        sys.exit(2)


if __name__ == '__main__':
    main()
