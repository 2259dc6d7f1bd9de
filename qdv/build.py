"""Compiles a contract file together with the real sources to LLVM IR."""
import os, re, subprocess, glob, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QDV_REPO', '/repo')
CONFIGS = {'off': [], 'sse': ['-msse4.1', '-DQUADIRON_USE_SIMD'], 'avx': ['-mavx2', '-DQUADIRON_USE_SIMD']}
CLANG = next((p for p in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(p)), 'clang++')
LLVM = '/usr/lib/llvm-18/bin/'
PASSES = ('always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup>,loop-simplify,lcssa,loop(loop-rotate,indvars),'
          'simplifycfg<no-switch-to-lookup>,instcombine<no-verify-fixpoint>,loop-simplify,lcssa)')


def sh(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode:
        raise RuntimeError('%s: %s' % (' '.join(cmd[:3]), p.stderr[-3000:]))
    return p.stdout


def build_info(work):
    d = os.path.join(work, 'inc')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, 'src', 'build_info.in')) as f:
        s = f.read()
    s = re.sub(r'#cmakedefine (\w+).*', r'#define \1 "qdv"', s)
    with open(os.path.join(d, 'build_info.h'), 'w') as f:
        f.write(s)
    return d


def flags(work, cfg):
    return ['-include', 'utility', '-std=c++14', '-I' + REPO + '/src', '-I' + os.path.join(work, 'inc'), '-I' + os.path.join(VERIF, 'qdv', 'contracts'),
            '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-w', '-S', '-emit-llvm'] + CONFIGS[cfg]


LIBRARY = threading.Lock()    # contract files of one run share the library


def compile_ir(work, cfg, contract, pool, defs=()):
    """text of the IR of the contract file linked with the library"""
    build_info(work)
    srcs = sorted(glob.glob(REPO + '/src/*.cpp')) + sorted(glob.glob(REPO + '/src/*/*.cpp'))
    outs = []
    cpath = contract if os.path.isabs(contract) else os.path.join(VERIF, 'qdv', 'contracts', contract)
    tag = os.path.basename(cpath).replace('.cpp', '')
    def submit(s, o):
        return pool.submit(sh, [CLANG] + flags(work, cfg) + ['-D' + d for d in defs] + [s, '-o', o + '.tmp']), o

    def finish(futs):
        for f, o in futs:
            f.result()
            os.rename(o + '.tmp', o)
    own = os.path.join(work, '%s_%s.ll' % (tag, cfg))
    futs = [submit(cpath, own)]
    with LIBRARY:
        lib = []
        for s in srcs:
            o = os.path.join(work, 'lib_%s_%s.ll' % (os.path.relpath(s, REPO).replace('/', '_'), cfg))
            outs.append(o)
            if not os.path.exists(o):
                lib.append(submit(s, o))
        finish(lib)
    finish(futs)
    outs.append(own)
    linked = os.path.join(work, '%s_%s.bc' % (tag, cfg))
    sh([LLVM + 'llvm-link'] + outs + ['-o', linked])
    final = os.path.join(work, '%s_%s.opt.ll' % (tag, cfg))
    sh([LLVM + 'opt', '-S', '-passes=' + PASSES, linked, '-o', final])
    with open(final) as f:
        return f.read()


def demangle(names):
    p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(n[1:].strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))
