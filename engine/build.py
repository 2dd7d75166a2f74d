"""Mechanical extraction: compiles /repo's current sources (and the harness) to LLVM bitcode, links them,
runs semantics-preserving passes; and builds the native replay program from the same sources."""
import hashlib, os, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src/tool1cd'
ENG = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENG)
OUT = os.environ.get('VF_OUT', VERIF + '/.work')
CXX = 'clang++'
INC = ['-I' + SRC, '-I' + SRC + '/SystemClasses', '-I' + SRC + '/cfapi', '-I' + REPO + '/src/ctool1cd', '-I' + ENG, '-include', 'cstdint']
PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify,lcssa)'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:400] + '\n' + r.stdout[-3000:])
    return r.stdout


def irdump():
    exe = OUT + '/irdump'
    src = ENG + '/irdump.cpp'
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(OUT, exist_ok=True)
        tmp = exe + f'.{os.getpid()}'
        run(['g++', '-O1', '-std=c++17', '-w', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(tmp, exe)
    return exe


def tool(name):
    for c in (name + '-18', name):
        for d in os.environ['PATH'].split(':'):
            if os.path.exists(d + '/' + c):
                return c
    return '/usr/lib/llvm-18/bin/' + name


def bitcode(work, tus, harness, defs=()):
    """-> path of the linked, optimised bitcode"""
    os.makedirs(work, exist_ok=True)
    jobs = []
    for t in tus:
        jobs.append((SRC + '/' + t if not t.startswith('/') else t, work + '/' + t.replace('/', '_') + '.bc', []))
    jobs.append((harness, work + '/harness.bc', ['-DVF_PROOF']))
    jobs.append((ENG + '/models.cpp', work + '/models.bc', []))

    def one(j):
        src, out, extra = j
        run([CXX, '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-w',
             '-fno-threadsafe-statics', '-DNDEBUG', *defs, *extra, *INC, '-emit-llvm', '-c', src, '-o', out])
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    linked = work + '/all.bc'
    run([tool('llvm-link'), *outs, '-o', linked])
    opt = work + '/opt.bc'
    run([tool('opt'), '-passes=' + PASSES, linked, '-o', opt])
    return opt


ALL_TUS = None


def all_tus():
    r = []
    for d in ('', '/SystemClasses', '/cfapi'):
        for f in sorted(os.listdir(SRC + d)):
            if f.endswith('.cpp') and f != 'main.cpp' or f == 'main.cpp':
                r.append((d + '/' + f).lstrip('/'))
    return r


def native(work, tus, harness, defs=(), san=True):
    """native program: harness + real sources, with address/undefined checks"""
    os.makedirs(work, exist_ok=True)
    flags = ['-std=c++11', '-O1', '-g', '-w', '-DNDEBUG', '-fPIC'] + list(defs)
    if san:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    def compile_(todo):
        def one(j):
            run([CXX, *flags, *INC, '-c', j[0], '-o', j[1]])
            return j[1]
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, todo))

    def job(t):
        return (SRC + '/' + t if not t.startswith('/') else t, work + '/n_' + t.replace('/', '_') + '.o')
    # the definitions of the harness (contracts of other units) come before those of the archive
    objs = compile_([(ENG + '/vf_native.cpp', work + '/n_vf.o'), (harness, work + '/n_harness.o')] + [job(t) for t in tus])
    exe = work + '/native'
    libs = ['-o', exe, '-rdynamic', '-lz', '-lboost_filesystem', '-lboost_system', '-lboost_regex', '-ldl', '-lpthread']
    try:
        run([CXX, *flags, *objs, *libs])
    except BuildError:
        more = compile_([job(t) for t in all_tus() if t not in tus])
        lib = work + '/liball.a'
        run(['ar', 'rcs', lib, *more])
        run([CXX, *flags, '-Wl,--allow-multiple-definition', *objs, lib, *libs])
    return exe
