#!/usr/bin/env python3
"""Content-hash based incremental build of /repo's libraries and the harness.

Variants:
  plain : -O1, jlm assertions on
  asan  : -O1 -g1, AddressSanitizer + UndefinedBehaviorSanitizer, jlm assertions on
All output goes to /verif/build/<variant>/ (git-ignored). /repo is only read.
"""
import hashlib, json, os, re, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++-18'
LLVM_INC = '/usr/lib/llvm-18/include'
BASE = ['-std=c++17', '-w', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
        '-D__STDC_LIMIT_MACROS', '-DJLM_ENABLE_ASSERTS', '-DJLM_VERIF_HOOKS', '-I' + LLVM_INC]
VARIANTS = {
    'plain': ['-O1', '-g0'],
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
    # development aid: which code of the repository do the workloads reach?
    'cov': ['-O1', '-g0', '-fprofile-instr-generate', '-fcoverage-mapping', '-DVH_COV'],
}
LINK = {
    'plain': [],
    'asan': ['-fsanitize=address,undefined'],
    'cov': ['-fprofile-instr-generate'],
}
LIBDIRS = ['jlm/util', 'jlm/rvsdg', 'jlm/llvm', 'jlm/tooling', 'jlm/hls']
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}


def fhash(p):
    h = _fh.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f:
                h = sha(f.read())
        except OSError:
            h = 'missing'
        _fh[p] = h
    return h


def gen_dir(variant):
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d + '/jlm/tooling', exist_ok=True)
    txt = '''#ifndef JLM_TOOLING_COMMANDPATHS_HPP
#define JLM_TOOLING_COMMANDPATHS_HPP
#include <jlm/util/file.hpp>
namespace jlm::tooling {
  static inline jlm::util::FilePath clangpath("/usr/lib/llvm-18/bin/clang");
  static inline jlm::util::FilePath llcpath("/usr/lib/llvm-18/bin/llc");
}
#endif
'''
    p = d + '/jlm/tooling/CommandPaths.hpp'
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    return d


def lib_sources():
    out = []
    for d in LIBDIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.cpp') or f.endswith('Tests.cpp'):
                    continue
                p = os.path.join(root, f)
                if 'Firrtl' in f:
                    continue
                with open(p, errors='replace') as fh:
                    t = fh.read()
                if re.search(r'^#include\s+<circt/', t, re.M) or (
                        re.search(r'^#include\s+<mlir/', t, re.M)):
                    continue
                if re.search(r'^#include <gtest/', t, re.M):
                    continue
                out.append(p)
    return out


def parse_deps(dfile):
    try:
        t = open(dfile).read()
    except OSError:
        return None
    t = t.replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    deps = []
    for x in t.split():
        x = os.path.normpath(x)
        if x.startswith(REPO) or x.startswith(VERIF):
            deps.append(x)
    return deps


class BuildError(Exception):
    pass


def compile_one(src, variant, extra=()):
    odir = os.path.join(BUILD, variant)
    rel = src[len(REPO) + 1:] if src.startswith(REPO + '/') else 'H/' + src[len(VERIF) + 1:]
    obj = os.path.join(odir, rel[:-4] + '.o')
    dfile = obj[:-2] + '.d'
    kfile = obj[:-2] + '.key'
    flags = BASE + VARIANTS[variant] + list(extra) + [
        '-I' + REPO, '-I' + REPO + '/tests', '-I' + gen_dir(variant), '-I' + VERIF + '/harness']
    def key():
        deps = parse_deps(dfile)
        if deps is None:
            return None
        return sha(json.dumps([flags, fhash(src), [(d, fhash(d)) for d in sorted(set(deps))]]).encode())
    if os.path.exists(obj) and os.path.exists(kfile):
        k = key()
        if k is not None and open(kfile).read() == k:
            return obj, False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.tmp'
    r = subprocess.run([CXX] + flags + ['-MMD', '-MF', dfile, '-MT', 'x', '-c', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)
    for d in parse_deps(dfile) or []:
        fhash(d)
    with open(kfile, 'w') as f:
        f.write(key())
    return obj, True


def build(variant, name, harness_srcs, libs=True, repo_srcs=(), extra_link=(), quiet=False):
    """returns the path of the executable"""
    t0 = time.time()
    gen_dir(variant)
    srcs = []
    if libs:
        srcs += lib_sources()
    srcs += [os.path.join(REPO, s) for s in repo_srcs]
    hs = [os.path.join(VERIF, 'harness', s) for s in harness_srcs]
    # big files first
    allsrc = sorted(srcs + hs, key=lambda p: -os.path.getsize(p))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, variant), allsrc))
    objs = sorted(o for o, _ in res)
    exe = os.path.join(BUILD, variant, name)
    lk = sha(json.dumps([[(o, fhash_obj(o)) for o in objs], LINK[variant], list(extra_link)]).encode())
    kf = exe + '.lkey'
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == lk):
        r = subprocess.run([CXX, '-fuse-ld=lld'] + LINK[variant] + ['-rdynamic', '-o', exe + '.tmp'] + objs +
                           ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lpthread', '-ldl'] + list(extra_link),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('link failed:\n' + r.stdout[-4000:])
        os.replace(exe + '.tmp', exe)
        open(kf, 'w').write(lk)
    n = sum(1 for _, c in res if c)
    if not quiet:
        print('[build] %s/%s: %d/%d compiled, %.1fs' % (variant, name, n, len(res), time.time() - t0), flush=True)
    return exe


def fhash_obj(o):
    return open(o[:-2] + '.key').read()


if __name__ == '__main__':
    pass
