"""C12: the driver jlc and the optimizer jlm-opt as tools, observed from outside.

A case is a random C project and a random command line. jlc builds it in one directory, clang builds it with the
equivalent commands in a twin directory, and everything a user sees is compared. jlm-opt runs random sequences of passes
with random outputs; its dumps, statistics and outputs are checked against the command line.
Everything happens in a scratch directory that is removed afterwards.
"""
import hashlib, json, os, random, re, shlex, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vbuild, runner

CLANG = '/usr/lib/llvm-18/bin/clang'
PASSES = {
    'AAAndersenAgnostic': 'PointsToAnalysisStateEncoder', 'AAAndersenRegionAware': 'PointsToAnalysisStateEncoder',
    'NodePullIn': 'NodeSinking', 'NodePushOut': 'NodeHoisting'}
for _p in ('AggregateAllocaSplitting CommonNodeElimination DeadNodeElimination FunctionInlining IfConversion '
           'InvariantValueRedirection IOBarrierElimination LoadChainSeparation LoopStrengthReduction LoopUnrolling LoopUnswitching '
           'NodeReduction PredicateCorrelation ScalarEvolution StoreValueForwarding').split():
    PASSES[_p] = _p
# statistics that tell which of several passes with the same name, or with a parameter, ran
STAT_OPTION = {'AAAndersenAgnostic': ('print-agnostic-mod-ref-summarization', 'AgnosticModRefSummarizer'),
               'AAAndersenRegionAware': ('print-mod-ref-summarization', 'RegionAwareModRefSummarizer'),
               'CommonNodeElimination': ('print-cne-stat', 'CNE'), 'DeadNodeElimination': ('print-dne-stat', 'DeadNodeElimination'),
               'FunctionInlining': ('print-iln-stat', 'ILN'), 'LoopUnrolling': ('print-unroll-stat', 'UNROLL'),
               'LoopUnswitching': ('print-ivt-stat', 'LoopUnswitching'), 'NodePullIn': ('print-pull-stat', 'PULL'),
               'NodePushOut': ('print-push-stat', 'PUSH'), 'NodeReduction': ('print-reduction-stat', 'RED'),
               'StoreValueForwarding': ('print-store-value-forwarding', 'StoreValueForwarding')}
NAMES = ['x.1.c', 'x.2.c', 'x.c', 'a b.c', "it's.c", 'sub/a.c', 'sub2/a.c', 'a.c', 'u-1.c', 'q$x.c', 'p&q.c', 'sub/x.1.c', 'w(1).c',
         'sub 3/k;l.c', 'z"q.c', 'back`t.c', 'main.o.c', 'v+w.c', 'tilde~.c', 'star*.c', 'UPPER.c', 'long-name_with.many.dots.c']


class Failure(Exception):
    def __init__(self, key, detail=''):
        self.key, self.detail = key, detail


def sh(cmd, cwd, env=None, timeout=120, stdout=None):
    e = dict(os.environ)
    e.update(LC_ALL='C')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return -999, b'', 'timeout'
    return p.returncode, p.stdout or b'', p.stderr.decode(errors='replace')


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = hashlib.sha256(fh.read()).hexdigest()
    return out


def put(base, path, text):
    p = os.path.join(base, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)


COMMON = r'''
#include <stdio.h>
#include <limits.h>
#include <stddef.h>
#define STR1(x) #x
#define STR(x) STR1(x)
'''

# macros: (argument of -D, code that observes it)
MACROS = [
    ('NUM%d=%d', 'printf("%s=%d\\n", "NUM@", NUM@);'),
    ('TXT%d="hello world %d"', 'printf("%s=%s\\n", "TXT@", TXT@);'),
    ('FN%d(x)=((x)*%d)', 'printf("%s=%d\\n", "FN@", FN@(7));'),
    ('EMPTY%d=', 'printf("%s=[%s]\\n", "EMPTY@", STR(EMPTY@));'),
    ('BARE%d', 'printf("%s=%d\\n", "BARE@", BARE@);'),
    ('DOL%d="$HOME $(echo hi) $$"', 'printf("%s=%s\\n", "DOL@", DOL@);'),
    ('BQ%d="`echo hi`"', 'printf("%s=%s\\n", "BQ@", BQ@);'),
    ("CH%d='c'", 'printf("%s=%d\\n", "CH@", CH@);'),
    ('OPS%d="a;b|c&d>e<f*?[x]~#!{y}"', 'printf("%s=%s\\n", "OPS@", OPS@);'),
    ('BSL%d="x\\\\ty\\"z"', 'printf("%s=%s\\n", "BSL@", BSL@);'),
    ('EXPR%d=1 + %d * 2', 'printf("%s=%d\\n", "EXPR@", EXPR@);'),
    ('EQ%d=(3==%d)', 'printf("%s=%d\\n", "EQ@", EQ@);'),
]
FLAGS = ['unsigned-char', 'signed-char', 'short-enums', 'no-short-enums', 'short-wchar', 'fast-math', 'no-fast-math', 'wrapv',
         'no-strict-aliasing', 'math-errno', 'no-math-errno', 'finite-math-only', 'gnu89-inline']


class Project:
    def __init__(self, r):
        self.r = r
        n = r.choice([1, 1, 2, 2, 3, 4])
        self.units = r.sample(NAMES, n)
        self.macros = []
        for k in range(r.choice([0, 1, 1, 2, 4])):
            t, code = r.choice(MACROS)
            v = r.randrange(1, 99)
            i = r.randrange(1, 9)
            t = t % ((i, v)[:t.count('%d')])
            self.macros.append((t, code.replace('@', str(i)), re.match(r'\w+', t).group(0)))
        self.ninc = r.choice([0, 0, 1, 2, 3])
        self.incs = ['inc%d' % i if r.random() < .7 else "in c'%d" % i for i in range(self.ninc)]
        self.has_cfg = [r.random() < .7 for _ in self.incs]
        self.std = r.choice([None, None, 'c89', 'c90', 'c99', 'c11', 'gnu89', 'gnu99'])
        self.flags = r.sample(FLAGS, r.choice([0, 0, 1, 2, 3]))
        self.pthread = r.random() < .25
        self.warn_code = r.random() < .15
        self.warns = r.choice([[], [], ['all'], ['error', 'all'], ['all', 'no-unused-variable', 'error'], ['unused-variable', 'error=unused-variable'],
                               ['no-error', 'all'], ['error', 'all', 'no-error=unused-variable']])
        # the same macro twice is a warning, not an error
        if self.warns and len(set(m[2] for m in self.macros)) != len(self.macros):
            self.macros = self.macros[:1]
        if 'error' in ' '.join(self.warns):
            self.flags = []
        self.suppress = r.random() < .15
        self.rdynamic = r.random() < .2 and 'error' not in ' '.join(self.warns)
        self.libs = r.choice([[], [], [], ['foo'], ['bar', 'foo'], ['foo', 'bar', 'foo'], ['foo', 'bar']])
        self.libdirs = ['lib1', "lib 2", 'lib3'][:r.choice([1, 2, 3])] if self.libs else []
        r.shuffle(self.libdirs)
        self.libhas = {d: [l for l in ('foo', 'bar') if r.random() < .9] for d in self.libdirs}
        self.weakobjs = r.sample(['wk1.o', 'wk 2.o', 'sub/wk1.o'], r.choice([0, 0, 0, 1, 2, 3]))
        self.opt = r.choice([None, '0', '1', '2', '3', '3', '2'])
        self.exit = r.randrange(0, 100)
        self.broken = None
        if r.random() < .12:
            self.broken = r.choice(['error', 'syntax', 'undefined', 'missing', 'cfgless'])
        self.sources()

    def sources(self):
        r = self.r
        self.text = {}
        ansi_main = 'main'
        for i, u in enumerate(self.units):
            s = COMMON
            if self.ninc:
                s += '#include "cfg.h"\n' if any(self.has_cfg) or self.broken == 'cfgless' else ''
                s += '#include <only%d.h>\n' % r.randrange(self.ninc)
            s += 'enum small%d { S0_%d, S1_%d };\n' % (i, i, i)
            s += 'static int table%d[8] = { 1, %d, 3, %d };\n' % (i, r.randrange(50), r.randrange(50))
            s += 'int shared_%d = %d;\n' % (i, r.randrange(1000))
            if self.weakobjs or i % 2 == 0:
                s += '__attribute__((weak)) int weakfun(void) { return %d; }\n' % i
            else:
                s += 'int weakfun(void);\n'
            if self.weakobjs:
                s += 'int wkobj(void);\n'
            if self.libs and i == 0:
                s += ''.join('int %s_value(void);\n' % l for l in set(self.libs))
            for j in range(len(self.units)):
                s += 'int unit_%d(int x);\nextern int shared_%d;\n' % (j, j)
            s += 'int unit_%d(int x)\n{\n  int k, s;\n' % i
            if self.warn_code and i == len(self.units) - 1:
                s += '  int unused;\n'
            s += '  s = x;\n  for (k = 0; k < 8; k++) { if (table%d[k] & 1) s += table%d[k] * k; else s ^= k; }\n' % (i, i)
            s += '  shared_%d += s;\n' % r.randrange(len(self.units))
            for t, code, name in self.macros:
                s += '#ifdef %s\n  %s\n#else\n  printf("no %s\\n");\n#endif\n' % (name, code, name)
            s += '''#ifdef CFG
  printf("CFG %d\\n", CFG);
#endif
#ifdef ONLY
  printf("ONLY %d\\n", ONLY);
#endif
#ifdef __STDC_VERSION__
  printf("std %ld\\n", (long)__STDC_VERSION__);
#endif
#ifdef __STRICT_ANSI__
  puts("ansi");
#endif
#ifdef __GNUC_GNU_INLINE__
  puts("gnuinline");
#endif
#ifdef __FAST_MATH__
  puts("fast");
#endif
#ifdef __FINITE_MATH_ONLY__
  printf("finite %d\\n", __FINITE_MATH_ONLY__);
#endif
#ifdef __NO_MATH_ERRNO__
  puts("nomatherrno");
#endif
#ifdef _REENTRANT
  puts("reentrant");
#endif
''' + '  printf("char %%d enum %%d wchar %%d weak %%d\\n", CHAR_MIN < 0, (int)sizeof(enum small%d), (int)sizeof(L\'a\'), weakfun());\n' % i
            if self.weakobjs:
                s += '  printf("wkobj %d\\n", wkobj());\n'
            s += '  printf("%%s %%d\\n", STR(unit%d), s);\n  return s;\n}\n' % i
            if i == 0:
                if self.rdynamic:
                    s += 'void *dlsym(void *, const char *);\n'
                s += 'int main(int argc, char **argv)\n{\n  int t, i;\n  t = argc;\n'
                for j in range(len(self.units)):
                    s += '  t = t * 3 + unit_%d(t);\n  i = shared_%d; printf("shared %%d\\n", i);\n' % (j, j)
                if self.rdynamic:
                    s += '  printf("dyn %d\\n", dlsym((void *)0, "unit_0") != 0);\n'
                for l in sorted(set(self.libs)):
                    s += '  printf("%s %%d\\n", %s_value());\n' % (l, l)
                if self.broken == 'undefined':
                    s += '  { int nowhere_to_be_found(int); t += nowhere_to_be_found(t); }\n'
                s += '  printf("total %%d\\n", t);\n  return %d;\n}\n' % self.exit
            if i == len(self.units) - 1:
                if self.broken == 'error':
                    s += '#error this is broken\n'
                if self.broken == 'syntax':
                    s += 'int syntax( { return }\n'
            self.text[u] = s

    def write(self, d):
        r = random.Random(self.exit)
        for u in self.units:
            if not (self.broken == 'missing' and u == self.units[-1]):
                put(d, u, self.text[u])
        for i, inc in enumerate(self.incs):
            for k in range(self.ninc):
                if r.random() < .4 or k == i:
                    put(d, '%s/only%d.h' % (inc, k), '#undef ONLY\n#define ONLY %d\n' % (10 * i + k))
            if self.has_cfg[i] and self.broken != 'cfgless':
                put(d, inc + '/cfg.h', '#undef CFG\n#define CFG %d\n' % (100 + i))
        for k, l in enumerate(self.libdirs):
            for lib in self.libhas[l]:
                other = 'int foo_value(void); ' if lib == 'bar' else ''
                put(d, 'tmp.c', '%sint %s_value(void) { return %d%s; }\n' % (other, lib, 10 * k, ' + foo_value()' if other else ''))
                os.makedirs(os.path.join(d, l), exist_ok=True)
                sh([CLANG, '-c', 'tmp.c', '-o', 'tmp.o'], d)
                sh(['ar', 'rcsD', '%s/lib%s.a' % (l, lib), 'tmp.o'], d)
        for k, o in enumerate(self.weakobjs):
            put(d, 'tmp.c', '__attribute__((weak)) int wkobj(void) { return %d; }\n__attribute__((weak)) int weakfun(void) { return %d; }\n'
                % (k, 100 + k))
            os.makedirs(os.path.dirname(os.path.join(d, o)), exist_ok=True)
            sh([CLANG, '-c', 'tmp.c', '-o', o], d)
        for f in ('tmp.c', 'tmp.o'):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))

    # options of the compilation and of linking, in a random order that keeps the order within a kind
    def options(self):
        r = self.r
        groups = []
        groups.append([['-D' + m[0]] if r.random() < .7 else ['-D', m[0]] for m in self.macros])
        groups.append([['-I' + i] if r.random() < .7 else ['-I', i] for i in self.incs])
        if self.std:
            groups.append([['-std=' + self.std]])
        groups.append([['-f' + f] for f in self.flags])
        groups.append([['-W' + w] for w in self.warns])
        if self.pthread:
            groups.append([['-pthread']])
        if self.suppress:
            groups.append([['-w']])
        if self.rdynamic:
            groups.append([['-rdynamic']])
        groups.append([['-L' + l] if r.random() < .7 else ['-L', l] for l in self.libdirs])
        groups.append([['-l' + l] for l in self.libs])
        if self.opt:
            groups.append([['-O' + self.opt]])
        return groups

    def passes(self):
        r = self.r
        if r.random() < .55:
            return []
        return [r.choice(sorted(PASSES)) for _ in range(r.choice([1, 2, 3, 6, 10]))]

    def cc_options(self):
        out = []
        out += ['-D' + m[0] for m in self.macros] + ['-I' + i for i in self.incs]
        out += ['-std=' + self.std] if self.std else []
        out += ['-f' + f for f in self.flags] + ['-W' + w for w in self.warns]
        out += (['-pthread'] if self.pthread else []) + (['-w'] if self.suppress else [])
        return out


def interleave(r, groups, sep=None):
    groups = [list(g) for g in groups if g]
    out = []
    while groups:
        g = r.choice(groups)
        out += g.pop(0)
        groups = [g for g in groups if g]
    return out


def obj_of(src):
    return src[:-2] + '.o'


class DriverCase:
    def __init__(self, jlc, scratch, seed, idx):
        self.r = random.Random('%s/%s/jlc' % (seed, idx))
        self.jlc = jlc
        self.d = os.path.join(scratch, 'c%d' % idx)
        self.stats = {}
        self.cmds = []
        for x in ('jlc', 'ref', 'tmp'):
            os.makedirs(os.path.join(self.d, x))

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def run_jlc(self, args, exp_stats=False):
        self.cmds.append(' '.join(shlex.quote(a) for a in ['jlc'] + args))
        self.stat('jlc.runs')
        rc, out, err = sh([self.jlc] + args, self.d + '/jlc', {'TMPDIR': self.d + '/tmp'})
        if rc < 0:
            raise Failure('jlc crashed or hung', 'status %d %s' % (rc, err[-400:]))
        return rc, out, err

    def reference(self, p, inputs, out, link, cflags):
        """the equivalent clang commands; returns (ok, compiled)"""
        ref = self.d + '/ref'
        for u in inputs:
            if u.endswith('.c'):
                rc, o, e = sh([CLANG] + p.cc_options() + cflags + ['-O0', '-c', u, '-o', out if out and not link else obj_of(u)], ref)
                if rc != 0:
                    return False, e
        if link:
            objs = [obj_of(u) if u.endswith('.c') else u for u in inputs]
            rc, o, e = sh([CLANG, '-no-pie'] + (['-pthread'] if p.pthread else []) + (['-rdynamic'] if p.rdynamic else []) + objs +
                          ['-L' + l for l in p.libdirs] + ['-l' + l for l in p.libs] + ['-o', out or 'a.out'], ref)
            if rc != 0:
                return False, e
        return True, ''

    def compare_programs(self, out):
        res = []
        for x in ('jlc', 'ref'):
            exe = os.path.join(self.d, x, out)
            if not os.path.exists(exe):
                res.append('not there')
            else:
                res.append(sh([exe], os.path.join(self.d, x), timeout=20)[:2])
        if res[0] != res[1]:
            raise Failure('the program that jlc built behaves differently', 'jlc %r reference %r' % tuple(str(x)[-700:] for x in res))
        if isinstance(res[0], tuple):
            self.stat('programs.run')
            self.stat('observed.bytes', len(res[0][1]))
        return res[0]

    def build(self, p, inputs, link, out, extra_groups, extra_ref=(), out_prefix=None):
        r = self.r
        jl, ref = self.d + '/jlc', self.d + '/ref'
        before = snapshot(jl)
        groups = p.options()
        passes = p.passes()
        groups.append([['-J' + x] for x in passes])
        groups.append([[i] for i in inputs])
        if out:
            groups.append([['-o', out]])
        if not link:
            groups.append([['-c']])
        want_stats = r.random() < .5
        if want_stats:
            groups.append([['--JlmOptPassStatistics=print-rvsdg-optimization']])
        groups += extra_groups
        args = interleave(r, groups)
        for f in os.listdir(self.d + '/tmp'):
            os.remove(os.path.join(self.d, 'tmp', f))
        rc, o, err = self.run_jlc(args)
        ok, why = self.reference(p, inputs, out, link, list(extra_ref))
        if (rc == 0) != ok:
            raise Failure('jlc %s but clang %s' % (('succeeds', 'fails') if rc == 0 else ('fails', 'succeeds')),
                          'jlc status %d: %s; clang: %s' % (rc, err[-400:], why[-400:]))
        self.stat('built' if ok else 'rejected')
        after = snapshot(jl)
        for f, h in before.items():
            if after.get(f) != h and f != (out or 'a.out') and f not in [obj_of(u) for u in inputs if u.endswith('.c')]:
                raise Failure('jlc changed a file that is not its output', f)
        new = set(after) - set(before)
        allowed = set([out or 'a.out'] if link or out else [])
        objs = [obj_of(u) for u in inputs if u.endswith('.c')]
        if not (out and not link):
            allowed |= set(os.path.normpath(x) for x in objs)
        allowed |= set(f for f in new if f.endswith('.d'))
        if new - allowed:
            raise Failure('jlc wrote files it was not asked for', str(sorted(new - allowed)))
        if ok:
            for f in ([out or 'a.out'] if link else ([out] if out else objs)):
                if os.path.normpath(f) not in after:
                    raise Failure('jlc did not write its output', f)
            if want_stats:
                self.check_sequence(passes, [u for u in inputs if u.endswith('.c')], p.opt)
        elif link and (out or 'a.out') in new:
            raise Failure('jlc failed but left an output behind', out or 'a.out')
        return ok

    def check_sequence(self, passes, units, opt):
        """what was optimized, by which passes, in which order"""
        logs = [f for f in os.listdir(self.d + '/tmp') if f.endswith('statistics.log')]
        seqs = []
        for f in logs:
            for l in open(os.path.join(self.d, 'tmp', f)):
                if l.startswith('RVSDGOPTIMIZATION'):
                    seqs.append(re.findall(r'\d{3}-([A-Za-z]+)-#RvsdgNodesBefore', l))
        if len(seqs) != len(units):
            raise Failure('statistics of %d optimizations for %d files' % (len(seqs), len(units)))
        exp = [PASSES[p] for p in passes]
        if not seqs:
            return
        if not passes and opt == "3":
            if any(s != seqs[0] for s in seqs) or not seqs[0]:
                raise Failure('-O3 optimizes the files differently', str(seqs)[:400])
        else:
            for s in seqs:
                if s != exp:
                    raise Failure('the passes that ran are not the ones asked for', 'asked %s ran %s' % (exp, s))
        self.stat('pass.sequences', len(seqs))

    def go(self):
        r = self.r
        p = Project(r)
        for x in ('jlc', 'ref'):
            p.write(os.path.join(self.d, x))
        scenario = r.choice(['link'] * 6 + ['separate'] * 2 + ['rebuild', 'rebuild', 'depend', 'print', 'unwritable', 'badopt', 'one', 'one'])
        self.what = '%s %d units' % (scenario, len(p.units))
        self.stat('scenario.' + scenario)
        inputs = list(p.units) + list(p.weakobjs)
        r.shuffle(inputs)
        out = r.choice([None, 'prog', 'pr og', 'sub9/prog.x', "o'ut", 'a.b.c'])
        for x in ('jlc', 'ref'):
            os.makedirs(os.path.join(self.d, x, 'sub9'), exist_ok=True)
        result = None
        if scenario in ('link', 'rebuild'):
            ok = self.build(p, inputs, True, out, [])
            if ok:
                result = self.compare_programs(out or 'a.out')
            if scenario == 'rebuild':
                u = r.choice(p.units)
                for x in ('jlc', 'ref'):
                    f = os.path.join(self.d, x, u)
                    if os.path.exists(f):
                        t = open(f).read().replace('"total', '"new total').replace('table', 'tab_le').replace('s = x;', 's = x + 5;')
                        open(f, 'w').write(t)
                ok = self.build(p, inputs, True, out, [])
                if ok:
                    result = self.compare_programs(out or 'a.out')
        elif scenario == 'separate':
            # compile some units, then link their objects together with the remaining sources
            k = r.randrange(1, len(p.units) + 1)
            first = p.units[:]
            r.shuffle(first)
            first, rest = first[:k], first[k:]
            ok = True
            for part in ([first] if r.random() < .5 else [[u] for u in first]):
                o = None
                if len(part) == 1 and r.random() < .5:
                    o = obj_of(part[0])
                ok = self.build(p, part, False, o, []) and ok
                if not ok:
                    break
            if ok:
                mix = [obj_of(u) for u in first] + rest + list(p.weakobjs)
                r.shuffle(mix)
                if self.build(p, mix, True, out, []):
                    result = self.compare_programs(out or 'a.out')
        elif scenario == 'one':
            u = r.choice(p.units)
            o = r.choice([None, 'other.o', 'sub9/o b.o'])
            ok = self.build(p, [u], False, o, [])
            result = ('one', ok)
            if ok:
                syms = []
                for x in ('jlc', 'ref'):
                    rc, s, e = sh(['nm', '-P', '-g', o or obj_of(u)], os.path.join(self.d, x))
                    syms.append(sorted(l.split()[:2] for l in s.decode(errors='replace').split('\n') if l and 'memset' not in l and
                                       'memcpy' not in l and 'puts' not in l and 'putchar' not in l and 'printf' not in l))
                if p.opt != '3' and [s for s in syms[0] if s[1] in 'TDBW'] != [s for s in syms[1] if s[1] in 'TDBW']:
                    raise Failure('the object file defines other symbols', '%s / %s' % tuple(syms))
        elif scenario == 'depend':
            u = r.choice(p.units)
            t = r.choice(['target', 'obj/x.o', 'tar get'])
            f = r.choice(['dep.mk', 'sub9/x.d', 'de p.d'])
            o = r.choice([None, 'other.o'])
            ok = self.build(p, [u], False, o, [[['-MD']], [['-MF', f]], [['-MT', t]]], ['-MD', '-MF', f, '-MT', t]) if not f.endswith('.mk') else \
                self.build_dep(p, u, f, t, o)
            result = ('depend', ok)
            if ok:
                deps = []
                for x in ('jlc', 'ref'):
                    fp = os.path.join(self.d, x, f)
                    deps.append(re.split(r'(?<!\\)\s+', open(fp).read().replace('\\\n', ' ').strip()) if os.path.exists(fp) else None)
                if deps[0] is None or deps[1] is None or (deps[0][0], set(deps[0][1:])) != (deps[1][0], set(deps[1][1:])):
                    raise Failure('the dependency file differs', str(deps)[:600])
                self.stat('dependencies', len(deps[0]))
        elif scenario == 'print':
            groups = p.options() + [[['-J' + x] for x in p.passes()], [[i] for i in inputs], [['-###']]]
            if out:
                groups.append([['-o', out]])
            before = snapshot(self.d + '/jlc')
            rc, o, e = self.run_jlc(interleave(r, groups))
            if snapshot(self.d + '/jlc') != before or os.listdir(self.d + '/tmp'):
                raise Failure('jlc -### wrote files', str(set(snapshot(self.d + '/jlc')) - set(before)))
            text = (o.decode(errors='replace') + e)
            if rc != 0:
                raise Failure('jlc -### fails', e[-300:])
            # the commands that it printed build the program
            text = text.replace('jlm-opt --input-format=llvm ', shlex.quote(os.path.join(os.path.dirname(self.jlc), 'jlm-opt')) + ' ')
            rc, o2, e2 = sh(['sh', '-e', '-c', text], self.d + '/jlc')
            ok, why = self.reference(p, inputs, out, True, [])
            if (rc == 0) != ok:
                raise Failure('the commands that jlc -### prints do not do what jlc does', 'status %d %s; reference %s; commands %s' % (
                    rc, e2[-300:], why[-300:], text[:600]))
            if ok:
                result = self.compare_programs(out or 'a.out')
        elif scenario == 'unwritable':
            # an output that cannot be written
            bad = r.choice(['nodir/prog', 'sub9'])
            link = r.random() < .5
            args = interleave(r, p.options() + [[[i] for i in (inputs if link else p.units[:1])], [['-o', bad]]] + ([] if link else [[['-c']]]))
            rc, o, e = self.run_jlc(args)
            if rc == 0:
                raise Failure('jlc succeeds although it cannot write its output', bad)
            result = ('unwritable', bad)
        elif scenario == 'badopt':
            bad = r.choice([['-JNoSuchPass'], ['-O7'], ['-std=c42'], ['--no-such-option'], ['-l' + 'nonexistent_library_x'], ['nonexistent.o'],
                            ['nonexistent.c'], ['-Werror', '-Wall', '-DBADMACRO=1', '-DBADMACRO=2']])
            if bad[0] == '-Werror' and (p.suppress or 'no-error' in ' '.join(p.warns)):
                bad = ['-O7']
            p.opt = None if bad[0].startswith('-O') else p.opt
            p.std = None if bad[0].startswith('-std') else p.std
            args = interleave(r, p.options() + [[[i] for i in inputs], [[b] for b in bad]] + ([[['-o', out]]] if out else []))
            rc, o, e = self.run_jlc(args)
            if rc == 0:
                raise Failure('jlc accepts a wrong command line', str(bad))
            if os.path.exists(os.path.join(self.d, 'jlc', out or 'a.out')):
                raise Failure('jlc failed but left an output behind', str(bad))
            result = ('badopt', bad)
        self.what += ' -> %s' % (str(result)[:60],)
        return result

    def build_dep(self, p, u, f, t, o):
        """as build(), for dependency files that are not called *.d"""
        args = interleave(self.r, p.options() + [[['-J' + x] for x in p.passes()], [[u]], [['-c']], [['-MD']], [['-MF', f]], [['-MT', t]]] +
                          ([[['-o', o]]] if o else []))
        rc, _, err = self.run_jlc(args)
        ok, why = self.reference(p, [u], o, False, ['-MD', '-MF', f, '-MT', t])
        if (rc == 0) != ok:
            raise Failure('jlc %s' % ('succeeds but clang fails' if rc == 0 else 'fails but clang succeeds'), err[-300:] + why[-300:])
        return ok


C_FUNCS = ['''
int table[16] = { 3, 1, 4, 1, 5, 9, 2, 6 };
static int inner%d(int a, int b) { int s = 0; for (int i = 0; i < a; i++) { if (i & b) s += table[i & 15]; else s -= i * b; } return s; }
int func%d(int x) { int t[4] = { x, 2, 3, 4 }; for (int i = 0; i < 3; i++) t[i] += inner%d(t[i + 1] & 7, x) ; return t[0] ^ t[1] ^ t[2]; }
''', '''
static long acc%d; long *hold%d = &acc%d;
static int step%d(int *p, int n) { while (n-- > 0) { *p += n; acc%d += *p * 4 + 4; } return *p; }
int func%d(int x) { int v = x; return step%d(&v, x & 15) + (int)*hold%d; }
''', '''
struct s%d { char c; int i; double d; };
static struct s%d g%d = { 1, 2, 3.5 };
int func%d(int x) { struct s%d l = g%d; l.i += x; l.d *= x; g%d = l; switch (x & 3) { case 0: return l.i; case 1: return (int)l.d; case 2: return l.c; } return -1; }
''']


class OptCase:
    def __init__(self, exe, scratch, seed, idx):
        self.r = random.Random('%s/%s/opt' % (seed, idx))
        self.exe = exe
        self.d = os.path.join(scratch, 'o%d' % idx)
        os.makedirs(self.d + '/tmp')
        self.stats, self.cmds = {}, []

    stat = DriverCase.stat

    def run(self, args, stdout=None):
        self.cmds.append(' '.join(shlex.quote(a) for a in ['jlm-opt'] + args))
        self.stat('jlm-opt.runs')
        rc, out, err = sh([self.exe] + args, self.d, {'TMPDIR': self.d + '/tmp'}, stdout=stdout)
        if rc < 0:
            raise Failure('jlm-opt crashed or hung', 'status %d %s' % (rc, err[-400:]))
        return rc, out, err

    def behaviour(self, ll):
        rc, o, e = sh([CLANG, '-w', '-O0', '-x', 'ir', ll, '-o', 'run.exe'], self.d)
        if rc != 0:
            raise Failure('the output of jlm-opt is not valid', e[-400:])
        return sh(['./run.exe'], self.d, timeout=20)[:2]

    def go(self):
        r = self.r
        n = r.randrange(1, 4)
        src = '#include <stdio.h>\n'
        for i in range(n):
            t = r.choice(C_FUNCS)
            if i:
                t = t.replace('int table[16] = { 3, 1, 4, 1, 5, 9, 2, 6 };', 'extern int table[16];') if 'int table[16] =' in src else t
            src += t.replace('%d', str(i))
        src += 'int main(void) { int t = 1; for (int k = 0; k < 6; k++) { ' + ' '.join(
            't = t * 5 + func%d(t & 63); printf("%%d\\n", t);' % i for i in range(n)) + ' } return t & 63; }\n'
        src_name = r.choice(['m.c', 'a b.c', 'x.1.c'])
        put(self.d, src_name, src)
        ll = r.choice(['m.ll', 'x.y.ll', 'a b.ll', 'plain'])
        rc, o, e = sh([CLANG, '-S', '-emit-llvm', '-O' + r.choice(['0', '0', '1']), '-Xclang', '-disable-O0-optnone', src_name, '-o', ll], self.d)
        if rc != 0:
            raise RuntimeError('reference compiler: ' + e)
        ref = self.behaviour(ll)
        keep = open(os.path.join(self.d, ll), 'rb').read()
        scenario = r.choice(['passes'] * 6 + ['formats'] * 3 + ['errors'] * 3)
        self.what = scenario
        self.stat('opt.' + scenario)
        seq = [r.choice(sorted(PASSES)) for _ in range(r.choice([0, 1, 2, 4, 8, 14]))]
        self.what += ' ' + ','.join(seq)[:80]
        if scenario == 'passes':
            self.passes(r, ll, seq, ref)
        elif scenario == 'formats':
            self.formats(r, ll, seq, ref)
        else:
            self.errors(r, ll, seq)
        if open(os.path.join(self.d, ll), 'rb').read() != keep:
            raise Failure('jlm-opt changed its input', ll)
        return ref

    def passes(self, r, ll, seq, ref):
        sdir = r.choice(['st', 'st/deep', 's t'])
        groups = [[['--' + p] for p in seq], [[ll]], [['-o', 'out.ll']], [['-s', sdir] if r.random() < .5 else ['-s=' + sdir]]]
        dump = r.random() < .6
        if dump:
            groups.append([['--dumpRvsdgGraphs']])
        demanded = sorted(STAT_OPTION[p][0] for p in STAT_OPTION if r.random() < .4)
        opt = r.random() < .7
        construction = r.random() < .3
        for s in demanded + (['print-rvsdg-optimization'] if opt else []) + (['print-rvsdg-construction', 'print-rvsdg-destruction'] if construction else []):
            groups.append([['--' + s]])
        os.makedirs(os.path.join(self.d, os.path.dirname(sdir) or '.'), exist_ok=True)
        rc, o, e = self.run(interleave(r, groups))
        if rc != 0:
            raise Failure('jlm-opt fails', e[-400:])
        if self.behaviour('out.ll') != ref:
            raise Failure('the optimized program behaves differently', 'passes %s' % seq)
        base = os.path.join(self.d, sdir)
        files = sorted(os.listdir(base)) if os.path.isdir(base) else []
        dumps = [f for f in files if f.endswith('.json')]
        exp = ['000-Pristine.json'] + ['%03d-After%s.json' % (i + 1, PASSES[p]) for i, p in enumerate(seq)] if dump else []
        if dumps != exp:
            raise Failure('the dumped graphs are not those of the passes asked for', 'expected %s found %s' % (exp, dumps))
        for f in dumps:
            json.load(open(os.path.join(base, f)))
        self.stat('graphs.dumped', len(dumps))
        logs = [f for f in files if f.endswith('statistics.log')]
        lines = [l for f in logs for l in open(os.path.join(base, f)).read().split('\n') if l]
        names = [l.split()[0] for l in lines]
        # statistics of passes that were demanded and ran, in their order; nothing that was not demanded
        wanted = {STAT_OPTION[p][1]: p for p in STAT_OPTION if STAT_OPTION[p][0] in demanded}
        others = {'RVSDGOPTIMIZATION': opt, 'InterProceduralGraphToRvsdg': False, 'RVSDGDESTRUCTION': construction}
        exp = []
        for p in seq:
            if p in STAT_OPTION and STAT_OPTION[p][0] in demanded:
                exp.append(STAT_OPTION[p][1])
            # the memory state encoder cleans up with a dead node elimination of its own
            if p.startswith('AAAndersen') and 'print-dne-stat' in demanded:
                exp.append('DeadNodeElimination')
        got = [x for x in names if x in wanted]
        if got != exp:
            raise Failure('the statistics are not those of the passes that ran', 'expected %s found %s' % (exp, got))
        if names.count('RVSDGOPTIMIZATION') != int(opt) or names.count('RVSDGDESTRUCTION') != int(construction):
            raise Failure('statistics were written that were not asked for, or the other way round', str(names))
        for x in names:
            if x not in wanted and x not in others and not construction:
                raise Failure('statistics were written that were not asked for', x)
        if opt:
            l = next(l for l in lines if l.startswith('RVSDGOPTIMIZATION'))
            ran = re.findall(r'\d{3}-([A-Za-z]+)-#RvsdgNodesBefore', l)
            if ran != [PASSES[p] for p in seq]:
                raise Failure('the passes that ran are not the ones asked for', 'asked %s ran %s' % (seq, ran))
            before = [int(x) for x in re.findall(r'#RvsdgNodesBefore:(\d+)', l)]
            # the sizes that passes report for themselves agree with those of the sequence
            own = {}
            for k in lines:
                if k.startswith('DeadNodeElimination') or k.startswith('RED ') or k.startswith('UNROLL ') or k.startswith('LoopUnswitching'):
                    own.setdefault(k.split()[0], []).append(re.search(r'#RvsdgNodesBefore:(\d+)', k))
            for st, p in (('RED', 'NodeReduction'), ('UNROLL', 'LoopUnrolling'), ('LoopUnswitching', 'LoopUnswitching')):
                if st in own and STAT_OPTION[p][0] in demanded:
                    mine = [int(m.group(1)) for m in own[st] if m]
                    theirs = [b for b, q in zip(before, seq) if q == p]
                    if len(mine) == len(own[st]) and mine != theirs:
                        raise Failure('a pass saw another graph than the sequence', '%s: %s and %s' % (p, mine, theirs))
                    self.stat('sizes.compared', len(mine))
        self.stat('passes.run', len(seq))
        self.stat('statistics.lines', len(lines))

    def formats(self, r, ll, seq, ref):
        fmt = r.choice(['ascii', 'llvm', 'dot', 'json', 'jsonTree', 'tree'])
        common = ['--' + p for p in seq] + ['-s', 'st']
        flag = [] if fmt == 'llvm' and r.random() < .5 else ['--output-format=' + fmt]
        rc1, out1, e1 = self.run(common + flag + [ll])
        rc2, _, e2 = self.run(common + flag + [ll, '-o', 'f.out'])
        if rc1 or rc2:
            raise Failure('jlm-opt fails to write ' + fmt, e1[-300:] + e2[-300:])
        p = os.path.join(self.d, 'f.out')
        if not os.path.exists(p):
            raise Failure('jlm-opt did not write its output', fmt)
        out2 = open(p, 'rb').read()
        norm = lambda b: re.sub(rb'ModuleID.*|source_filename.*|0x[0-9a-f]+|n[0-9a-f]{6,}|\d{9,}', b'', b)
        if not out2.strip():
            raise Failure('the output is empty', fmt)
        if abs(len(norm(out1)) - len(norm(out2))) > 8 + len(out1) // 10:
            raise Failure('the output on stdout differs from the output in a file', '%s: %d and %d bytes' % (fmt, len(out1), len(out2)))
        for o in (out1, out2):
            if fmt in ('json', 'jsonTree'):
                try:
                    v = json.loads(o)
                except ValueError as x:
                    raise Failure('the output is not JSON', '%s %s' % (fmt, x))
                if not v:
                    raise Failure('the output is empty', fmt)
            elif fmt == 'llvm':
                put(self.d, 'o1.ll', o.decode())
                if self.behaviour('o1.ll') != ref:
                    raise Failure('the optimized program behaves differently', str(seq))
            elif fmt == 'dot':
                t = o.decode(errors='replace')
                if not t.lstrip().startswith(('digraph', 'graph', 'strict')) or t.count('{') != t.count('}'):
                    raise Failure('the output is not a dot graph', t[:100])
            else:
                t = o.decode(errors='replace')
                if 'main' not in t:
                    raise Failure('the output does not show main', fmt)
        self.stat('format.' + fmt)

    def errors(self, r, ll, seq):
        kind = r.choice(['nodir', 'full', 'stdoutfull', 'missing', 'garbage', 'truncated', 'badopt', 'badformat', 'directory'])
        common = ['--' + p for p in seq] + ['-s', 'st']
        fmt = ['--output-format=' + r.choice(['ascii', 'llvm', 'json', 'tree', 'jsonTree', 'dot'])]
        self.what += ' ' + kind + ' ' + fmt[0]
        if kind == 'nodir':
            rc, o, e = self.run(common + fmt + [ll, '-o', 'no/such/dir/x'])
        elif kind == 'directory':
            rc, o, e = self.run(common + fmt + [ll, '-o', 'tmp'])
        elif kind == 'full':
            rc, o, e = self.run(common + fmt + [ll, '-o', '/dev/full'])
        elif kind == 'stdoutfull':
            with open('/dev/full', 'wb') as f:
                rc, o, e = self.run(common + fmt + [ll], stdout=f)
        elif kind == 'missing':
            rc, o, e = self.run(common + fmt + ['nothere.ll', '-o', 'x'])
        elif kind == 'garbage':
            put(self.d, 'g.ll', 'this is not LLVM\n')
            rc, o, e = self.run(common + fmt + ['g.ll', '-o', 'x'])
        elif kind == 'truncated':
            t = open(os.path.join(self.d, ll)).read()
            t = t[:t.rindex('\n}\n', 0, r.randrange(len(t) // 2, len(t))) if '\n}\n' in t[:len(t) // 2] else len(t) // 3]
            put(self.d, 'g.ll', t)
            rc, o, e = self.run(common + fmt + ['g.ll', '-o', 'x'])
        elif kind == 'badopt':
            rc, o, e = self.run(common + fmt + [ll, '-o', 'x', '--NoSuchPass'])
        else:
            rc, o, e = self.run(common + ['--output-format=nosuch', ll, '-o', 'x'])
        if rc == 0:
            raise Failure('jlm-opt succeeds although it cannot do what it was asked for', kind + ' ' + fmt[0])
        if os.path.exists(os.path.join(self.d, 'x')) and kind in ('missing', 'garbage', 'truncated', 'badopt', 'badformat'):
            raise Failure('jlm-opt failed but left an output behind', kind)
        self.stat('errors.' + kind)


def one(kind, exe, scratch, seed, idx):
    """returns (case id, hash, nontrivial, what, stats, failure, commands, directory)"""
    c = (DriverCase if kind == 'jlc' else OptCase)(exe, scratch, seed, idx)
    c.what = ''
    fail, res = None, None
    try:
        res = c.go()
    except Failure as f:
        fail = (f.key, f.detail)
    h = hashlib.sha256(('%s %s %r' % (kind, re.sub(r'/[^ ]*/c\d+', '', ' ; '.join(c.cmds)), res)).encode()).hexdigest()[:16]
    return '%s-%d' % (kind, idx), h, res is not None, c.what, c.stats, fail, c.cmds, c.d


def tools():
    import glob
    out = {}
    for t in ('jlc', 'jlm-opt'):
        src = [os.path.relpath(f, vbuild.REPO) for f in sorted(glob.glob('%s/tools/%s/*.cpp' % (vbuild.REPO, t)))]
        out[t] = vbuild.build('plain', t, [], repo_srcs=src)
    return out


def run_cases(c, n_jlc, n_opt):
    exe = tools()
    scratch = tempfile.mkdtemp(prefix='jlm-driver-')
    jobs = [('jlc', i) for i in range(n_jlc)] + [('jlm-opt', i) for i in range(n_opt)]

    def go(j):
        r = one(j[0], exe[j[0]], scratch, c.seed, j[1])
        shutil.rmtree(r[7], ignore_errors=True)
        return j, r
    try:
        with ThreadPoolExecutor(vbuild.JOBS) as ex:
            for j, (case, h, nt, what, stats, fail, cmds, d) in ex.map(go, jobs):
                c.parse('CASE\t%s\t%s\t%d\t%s' % (case, h, nt or fail is not None, what.replace('\n', ' ')))
                for k, v in stats.items():
                    c.stat(k, v)
                if fail:
                    f = c.write_repro(case, '; driver: %s %s %d\n%s\n%s\ncommands:\n%s\n' % (c.seed, j[0], j[1], fail[0], fail[1], '\n'.join(cmds)))
                    c.violation(case, fail[0], fail[1], f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(seed, kind, idx):
    exe = tools()
    scratch = tempfile.mkdtemp(prefix='jlm-driver-')
    try:
        r = one(kind, exe[kind], scratch, seed, idx)
        print('\n'.join(r[6]))
        print(r[5] or 'no violation')
        if os.environ.get('KEEP'):
            shutil.copytree(scratch, os.environ['KEEP'])
        return 1 if r[5] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
