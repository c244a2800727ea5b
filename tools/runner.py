"""Running harness workers, collecting their reports, matching known findings, writing evidence."""
import json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor
import vbuild

VERIF = vbuild.VERIF
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'out'))
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
JOBS = vbuild.JOBS


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.evaluations = 0
        self.distinct = set()
        self.nontrivial_extra = 0
        self.samples = []
        self.stats = {}
        self.viols = []      # (case, key, detail, repro)
        self.incon = []
        self.discards = []
        self.errors = []
        self.extra = {}
        self.repro = os.path.join(OUT, prop)
        shutil.rmtree(self.repro, ignore_errors=True)
        os.makedirs(self.repro, exist_ok=True)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violation(self, case, key, detail, repro='-'):
        self.viols.append((case, key, detail, repro))

    def write_repro(self, case, text):
        p = os.path.join(self.repro, '%s-%s.txt' % (self.prop, case))
        with open(p, 'w') as f:
            f.write(text)
        return p

    # -- workers -------------------------------------------------------
    def parse(self, text, count_cases=True):
        for l in text.split('\n'):
            f = l.split('\t')
            if f[0] == 'CASE' and len(f) >= 4:
                if count_cases:
                    self.evaluations += 1
                    if f[3] == '1':
                        self.distinct.add(f[2])
                    if len(self.samples) < 6 and f[3] == '1':
                        self.samples.append({'case': f[1], 'hash': f[2], 'what': f[4] if len(f) > 4 else ''})
            elif f[0] == 'VIOL' and len(f) >= 5:
                self.viols.append((f[1], f[2], f[3], f[4]))
            elif f[0] == 'INCONC':
                self.incon.append(f[1:])
            elif f[0] == 'DISCARD':
                self.discards.append(f[1:])
            elif f[0] == 'STAT' and len(f) >= 3:
                self.stat(f[1], int(f[2]))

    def run_range(self, exe, mode, n, args=(), start=0, chunks=None, timeout=3000, env=None, seed=None):
        """splits [start, start+n) in chunks that are run by JOBS workers"""
        chunks = chunks or min(max(1, n), JOBS * 6)
        bounds = [start + n * i // chunks for i in range(chunks + 1)]
        jobs = [(bounds[i], bounds[i + 1]) for i in range(chunks) if bounds[i] < bounds[i + 1]]

        def go(j):
            cmd = [exe, mode, '--seed', str(self.seed if seed is None else seed), '--from', str(j[0]), '--to', str(j[1]),
                   '--repro', self.repro, '--prop', self.prop] + list(args)
            for attempt in (0, 1):
                r = run(cmd, timeout, env)
                if r[0] == 0:
                    return r
            return (r[0], r[1], r[2], cmd)
        with ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(go, jobs):
                self.parse(r[1])
                if r[0] != 0:
                    self.worker_failure(r)

    def worker_failure(self, r):
        # the code under test runs in the worker itself only where a mode says so; a worker that dies twice on
        # the same inputs is a failure of what it ran
        key = 'worker:%s' % crash_key(r[0], r[2])
        f = self.write_repro('worker-%d' % len(self.viols), 'cmd: %s\nstatus: %s\nstderr:\n%s\n' % (
            ' '.join(r[3]), r[0], r[2][-6000:]))
        self.viols.append(('worker', key, r[2][-600:].replace('\n', ' '), f))


def crash_key(rc, err):
    m = re.search(r'SUMMARY: (\w+Sanitizer: .{0,160})', err)
    if m:
        return m.group(1)
    m = re.search(r'.*(runtime error: .{0,120})', err)
    if m:
        return m.group(1)
    m = re.search(r'.*[Aa]ssert.*', err)
    if m:
        return m.group(0)[:200]
    return 'status %s %s' % (rc, err.strip()[:120].replace('\n', ' '))


def run(cmd, timeout=3000, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')
    e.setdefault('UBSAN_OPTIONS', 'print_stacktrace=1')
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, input=inp)
        return (p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), cmd)
    except subprocess.TimeoutExpired as t:
        return (-999, (t.stdout or b'').decode(errors='replace'), 'timeout', cmd)


def known_for(prop):
    out = []
    try:
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) case=(\S+) (?:key=(\S+) )?(.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def run_check(prop, spec):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    c = Ctx(prop, tier, seed)
    spec['run'](c)
    known = known_for(prop)
    hit, bad = {}, []
    for v in c.viols:
        k = next((k for k in known if v[0] == k[0] and (k[1] is None or re.search(k[1], v[1]))), None)
        if k:
            hit[k] = v
        else:
            bad.append(v)
    wall = time.time() - t0
    cov = {
        'evaluations': c.evaluations,
        'distinct_nontrivial': len(c.distinct) + c.nontrivial_extra,
        'rule': spec['rule'],
        'samples': c.samples[:6],
        'inconclusive': len(c.incon),
        'discarded': len(c.discards),
        'observed': dict(sorted(c.stats.items())),
    }
    cov.update(c.extra)
    ev = {'property': prop, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed,
          'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(bad),
          'assumptions': spec.get('assumptions', [])}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    seen = {}
    for v in bad:
        seen.setdefault(v[1].split('|')[0][:80], []).append(v)
    for vs in list(seen.values())[:20]:
        v = vs[0]
        if v[3] == '-':
            v = (v[0], v[1], v[2], c.write_repro(v[0], 'case %s\n%s\n%s\n' % v[:3]))
        print('VIOLATION property=%s replay=%s' % (prop, v[3]))
        print('  %d case(s), first %s: %s: %s' % (len(vs), v[0], v[1], v[2][:400]))
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %d known, %d inconclusive, %.1fs' % (
        prop, tier, seed, c.evaluations, cov['distinct_nontrivial'], len(bad), len(hit), len(c.incon), wall))
    if bad:
        return 1
    if c.evaluations == 0 or cov['distinct_nontrivial'] < 2 or len(c.incon) * 4 > max(c.evaluations, 1) * 3:
        print('the run observed too little to give an answer')
        return 4
    return 0
