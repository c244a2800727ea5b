"""The checks, one per property."""
import glob, hashlib, os, re, subprocess, sys
import vbuild, runner, driver
from runner import run, VERIF

REPO = vbuild.REPO
CORE = ['main.cpp', 'gen.cpp', 'mini.cpp', 'ops.cpp', 'exec.cpp', 'jlmapi.cpp', 'proc.cpp', 'diff.cpp', 'modes.cpp', 'monitor.cpp', 'modcheck.cpp', 'layout.cpp', 'tap.cpp', 'model.cpp', 'bits.cpp', 'containers.cpp', 'api.cpp',
        'hls.cpp', 'hlsgen.cpp', 'hlssim.cpp']
CLANG = '/usr/lib/llvm-18/bin/clang'


def vh(variant='plain'):
    return vbuild.build(variant, 'vh', CORE)


def c_corpus(levels=('0', '1', '2')):
    """C programs (handwritten and the repository's) compiled to LLVM IR by clang"""
    d = os.path.join(vbuild.BUILD, 'c-ll')
    os.makedirs(d, exist_ok=True)
    out, todo = [], []
    for src in sorted(glob.glob(VERIF + '/corpus/c/*.c')) + sorted(glob.glob(REPO + '/tests/c-tests/*.c')):
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:10]
        for l in levels:
            o = os.path.join(d, '%s-%s-O%s.ll' % (os.path.basename(src)[:-2], h, l))
            if not os.path.exists(o):
                todo.append([CLANG, '-O' + l, '-Xclang', '-disable-O0-optnone', '-fno-vectorize', '-fno-slp-vectorize', '-w',
                             '-S', '-emit-llvm', '-o', o, src])
            out.append(o)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(vbuild.JOBS) as ex:
        for r in ex.map(lambda c: run(c, 60), todo):
            pass
    return [o for o in out if os.path.exists(o)]


def corpus():
    return sorted(glob.glob(VERIF + '/corpus/ll/*.ll'))


def known_inputs():
    return sorted(glob.glob(VERIF + '/corpus/known/*.ll'))


def run_corpus(c, exe, mode, files, args=(), prefix='corpus-'):
    if files:
        c.run_range(exe, mode, len(files), ['--corpus', ','.join(files), '--cprefix', prefix] + list(args), chunks=min(len(files), 32))


RULE_PROG = ('a case is a program: generated from (seed, index) by a random program generator and reshaped by a random LLVM '
             'pipeline, or taken from the regression corpus, or compiled from C; non-trivial: its reference run makes at least 4 '
             'observable events and executes at least 10 basic blocks; distinct: by hash of instruction structure and event log')


def c01(c):
    exe = vh()
    c.run_range(exe, 'rt', 8000 if c.quick else 160000)
    run_corpus(c, exe, 'rt', corpus())
    run_corpus(c, exe, 'rt', c_corpus())
    run_corpus(c, exe, 'rt', sorted(glob.glob(VERIF + '/corpus/known-rt/*.ll')), (), 'known-')


def c02(c):
    exe = vh()
    c.run_range(exe, 'opt', 1800 if c.quick else 20000, ['--nseq', '2' if c.quick else '3'])
    run_corpus(c, exe, 'opt', corpus(), ['--nseq', '2'])
    run_corpus(c, exe, 'opt', c_corpus(('0', '2') if c.quick else ('0', '1', '2')), ['--nseq', '1' if c.quick else '6'])
    run_corpus(c, exe, 'opt', known_inputs(), ['--headeronly', '1'], 'known-')


    # the settings that the environment makes: the alias analysis that forwarding asks, what it forwards, what is blocked
    for i, env in enumerate(SETTINGS):
        c.run_range(exe, 'opt', 60 if c.quick else 1500, ['--nseq', '2'], start=10**6 * (i + 1), env=env)


SETTINGS = [
    {'JLM_ENABLE_SVF_PTGAA': '1'},
    {'JLM_SVF_USE_TRIVIAL_LOCALAA': '1', 'JLM_ENABLE_SVF_PTGAA': '1', 'JLM_DISABLE_REGION_PREDICATE_CHECK': '1'},
    {'JLM_DISABLE_LOAD_LOAD_FORWARDING': '1', 'JLM_DISABLE_CALL_SIMPLE_ALLOCA_BLOCKING': '1', 'JLM_DISABLE_READ_ONLY_DETECTION': '1'},
]
ORDER_SETTINGS = [{'JLM_DISABLE_' + s: '1'} for s in ('NON_REENTRANT_ALLOCA_BLOCKLIST', 'OPERATION_SIZE_BLOCKING', 'CONSTANT_MEMORY_BLOCKING',
                                                    'READ_ONLY_DETECTION', 'CALL_SIMPLE_ALLOCA_BLOCKING')]


def c03(c):
    exe = vh()
    c.run_range(exe, 'wf', 1100 if c.quick else 9000, ['--nseq', '1' if c.quick else '3'])
    run_corpus(c, exe, 'wf', corpus(), ['--nseq', '1'])
    run_corpus(c, exe, 'wf', c_corpus(('0', '2')), ['--nseq', '1' if c.quick else '4'])


def c04(c):
    exe = vh()
    c.run_range(exe, 'mod', 4000 if c.quick else 15000)
    run_corpus(c, exe, 'mod', corpus() + c_corpus(('0', '2')))
    c.run_range(exe, 'layout', 400 if c.quick else 6000)


def observed(c, mode, n, nseq):
    exe = vh()
    c.run_range(exe, mode, n, ['--nseq', str(nseq)])
    run_corpus(c, exe, mode, corpus(), ['--nseq', '2'])
    run_corpus(c, exe, mode, c_corpus(('0', '1') if c.quick else ('0', '1', '2')), ['--nseq', str(nseq)])


def c05(c):
    observed(c, 'pta', 2400 if c.quick else 40000, 2 if c.quick else 4)


def c06(c):
    observed(c, 'order', 2400 if c.quick else 30000, 3 if c.quick else 8)
    for i, env in enumerate(ORDER_SETTINGS):
        c.run_range(vh(), 'order', 40 if c.quick else 1000, ['--nseq', '2'], start=10**6 * (i + 1), env=env)


def c07(c):
    observed(c, 'alias', 2800 if c.quick else 50000, 2 if c.quick else 4)


def c08(c):
    observed(c, 'scev', 2800 if c.quick else 50000, 2 if c.quick else 4)
    run_corpus(c, vh(), 'scev', sorted(glob.glob(VERIF + '/corpus/known-scev/*.ll')), ['--headeronly', '1'], 'known-')


def c09(c):
    exe = vh()
    c.run_range(exe, 'bits', 1200 if c.quick else 40000)
    c.run_range(exe, 'bitgraph', 15000 if c.quick else 300000)


def c10(c):
    c.run_range(vh(), 'cont', 1600 if c.quick else 60000)
    c.run_range(vh('asan'), 'cont', 160 if c.quick else 4000, ['--seed', '77'])


def c11(c):
    c.run_range(vh(), 'api', 24000 if c.quick else 800000)
    c.run_range(vh('asan'), 'api', 1200 if c.quick else 40000, ['--seed', '77'])


BUFFER_ASSERTION = r'signal6:.*add-buffers\.cpp:.*AdjustLoopBuffers'


def c12(c):
    driver.run_cases(c, 900 if c.quick else 20000, 500 if c.quick else 6000)


def c13(c):
    c.run_range(vh(), 'hls', 14000 if c.quick else 400000)
    c.run_range(vh('asan'), 'hls', 1000 if c.quick else 30000, ['--seed', '77'])
    # known findings that random programs run into now and then: recorded as such only while they are as rare as they are now
    hits = [v for v in c.viols if re.search(BUFFER_ASSERTION, v[1]) or re.search(BUFFER_ASSERTION, v[2])]
    c.extra['known_buffer_assertion'] = len(hits)
    if len(hits) * 100 <= c.evaluations:
        c.viols = [('known-hls3', *v[1:]) if v in hits else v for v in c.viols]
    circuits, dead = c.stats.get('hls.circuits', 0), c.stats.get('hls.deadlock.backedge', 0)
    if dead * 70 > circuits + 70:
        c.violation('deadlocks', 'circuits deadlock on loop backedges', '%d of %d circuits, about 0.2 %% are known' % (dead, circuits))
    if circuits * 4 < c.evaluations:
        c.incon += [('circuits', 'too few circuits')] * c.evaluations
    c.run_range(vh(), 'known-hls', 4)


def c14(c):
    exe = vh('asan')
    c.run_range(exe, 'san', 800 if c.quick else 6000, ['--nseq', '2'])
    run_corpus(c, exe, 'san', corpus(), ['--nseq', '1'])
    run_corpus(c, exe, 'san', c_corpus(('0',) if c.quick else ('0', '1', '2')), ['--nseq', '1' if c.quick else '3'])


CHECKS = {
    'C01': dict(run=c01, rule=RULE_PROG, assumptions=[
        "LLVM's own verifier, parser and ORC JIT execute both programs correctly",
        'the unoptimised reference execution defines the behaviour']),
    'C02': dict(run=c02, rule=RULE_PROG, assumptions=[
        "LLVM's own verifier, parser and ORC JIT execute both programs correctly"]),
    'C03': dict(run=c03, rule=RULE_PROG, assumptions=[
        'the definition of a well-formed RVSDG is written down in harness/monitor.cpp']),
    'C04': dict(run=c04, rule=RULE_PROG + '; for layouts: a case is 60 random types', assumptions=[
        "LLVM's DataLayout and verifier are right about x86-64"]),
    'C05': dict(run=c05, rule=RULE_PROG, assumptions=[
        'the instrumented program is run on objects whose addresses are never reused',
        'pointers that are computed but not dereferenced may leave their object and are not judged']),
    'C06': dict(run=c06, rule=RULE_PROG + '; every case is run under several random topological orders', assumptions=[
        'the hook JLM_VERIF_HOOKS in the traversers only changes which of the ready nodes is visited next']),
    'C07': dict(run=c07, rule=RULE_PROG, assumptions=[
        'claims are judged for accesses executed in the same execution of the region that encloses both']),
    'C08': dict(run=c08, rule=RULE_PROG, assumptions=[
        'loops that extend integers are excluded (known finding), except for the directed input']),
    'C09': dict(run=c09, rule='a case is a set of random operands (all operations on them) or a random graph of bit operations that is '
                'normalized step by step; non-trivial: at least one operation was judged or one normalization applied; distinct: by '
                'hash of operands and values', assumptions=["LLVM's APInt computes fixed width integers correctly"]),
    'C10': dict(run=c10, rule='a case is a random history of operations on every container and algorithm; non-trivial: results were '
                'compared; distinct: by hash of the results', assumptions=['the containers of the C++ standard library are right']),
    'C11': dict(run=c11, rule='a case is a random history of 20 to 80 changes and traversals of a random graph; non-trivial: at least one '
                'change was made; distinct: by hash of the sizes of the graph after each change', assumptions=[
        'changes are made within the documented preconditions (no cycles, nodes with users are not removed)']),
    'C12': dict(run=c12, rule='a case is a random C project with a random jlc command line (or a random module with a random jlm-opt '
                'command line); non-trivial: the tool ran and its effects were compared; distinct: by hash of the command lines and '
                'of what the built program prints', assumptions=[
        'clang with the equivalent options and ar, nm and sh do what they document',
        'objects are left next to their sources; the default names of dependency files are not judged']),
    'C13': dict(run=c13, rule='a case is a random kernel (structured control flow, arithmetic, arrays and globals) with several calls; '
                'non-trivial: at least one call was compared; distinct: by hash of the program and its results', assumptions=[
        'the simulator in harness/hlssim.cpp gives the components the meaning that the Verilog/FIRRTL backend documents for them',
        'kernels stay within what the circuit backend supports: no local arrays (known finding), no poison, no structs, no floats']),
    'C14': dict(run=c14, rule=RULE_PROG, assumptions=[
        'AddressSanitizer and UndefinedBehaviorSanitizer report what they claim to report; uninitialised reads are not covered']),
}


def setup():
    for v in ('plain', 'asan'):
        vh(v)
    driver.tools()
    c_corpus()
    return 0


def replay(f, rest):
    text = open(f, errors='replace').read()
    m = re.match(r'; driver: (\S+) (\S+) (\d+)', text)
    if m:
        return driver.replay(m.group(1), m.group(2), int(m.group(3)))
    m = re.search(r'^; case: (.*)$', text, re.M)
    exe = vh('asan' if '/C14/' in f or '; variant: asan' in text else 'plain')
    r = subprocess.run([exe] + (m.group(1).split() if m else ['replay', f]) + rest)
    return r.returncode
