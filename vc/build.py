"""Mechanical extraction: compiles /repo's real sources (never a copy) and a contract file to LLVM bitcode / a native replay binary."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CON = os.path.join(VERIF, 'contracts')
CACHE = os.path.join(VERIF, '.cache')
CXX = 'clang++'
COMMON = ['-std=c++14', '-I' + REPO, '-I' + CON, '-I' + os.path.join(CON, 'gen'), '-isystem', '/usr/include/eigen3', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG',
          '-fno-access-control', '-w', '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-strict-aliasing', '-fno-math-errno']
SYM = COMMON + ['-O2', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-rtti' if False else '-frtti']
NAT = COMMON + ['-O1', '-DVC_NATIVE', '-c', '-g0', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-omit-frame-pointer']
PASSES_PRE = 'internalize,globaldce'

class BuildError(Exception):
    pass

def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd)[:600], r.stderr.decode('utf-8', 'replace')[:3000]))
    return r.stdout

_hdr = None
def header_hash():
    """hash of all headers (repo + contracts); any header change recompiles"""
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in ('scisim', 'ball2d', 'rigidbody2d', 'rigidbody3d', 'ball2dutils', 'rigidbody2dutils', 'rigidbody3dutils'):
            for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp', '.tpp', '.inl')):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        for f in sorted(os.listdir(CON)):
            if f.endswith('.h'):
                h.update(f.encode())
                h.update(open(os.path.join(CON, f), 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def included_cpps(path):
    """contract files may #include "x.cpp" of the repo: part of the key"""
    out = []
    txt = open(path, 'r', errors='replace').read()
    for m in re.finditer(r'#include\s+"([^"]+\.cpp)"', txt):
        for base in (REPO, CON):
            p = os.path.join(base, m.group(1))
            if os.path.exists(p):
                out.append(p)
    return out

def key(path, flags):
    h = hashlib.sha256()
    h.update(header_hash().encode())
    h.update(' '.join(flags).encode())
    h.update(path.encode())
    h.update(open(path, 'rb').read())
    for p in included_cpps(path):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:32]

def defs(contract):
    return ['-D' + m for l in re.findall(r'^// DEF (.*)$', open(contract, errors='replace').read(), re.M) for m in l.split()]

def compile_one(src, flags, ext):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key(src, flags) + ext)
    with _lk:
        lk = _locks.setdefault(out, threading.Lock())
    with lk:
        if not os.path.exists(out):
            tmp = out + '.%d_%d.tmp' % (os.getpid(), threading.get_ident())
            run([CXX] + flags + [src, '-o', tmp], 'compiling ' + src)
            os.replace(tmp, out)
    return out

_lk = threading.Lock()
_locks = {}

def compile_all(srcs, flags, ext, jobs=8):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda s: compile_one(s, flags, ext), srcs))

def harness_names(contract):
    bc = compile_one(contract, SYM + defs(contract), '.bc')
    out = run(['llvm-nm', '--defined-only', bc], 'llvm-nm').decode()
    return [m.group(1) for m in re.finditer(r' [Tt] vch_(\w+)$', out, re.M)]

def sym_module(contract, sources, noinline=()):
    """linked + optimized bitcode for one contract file; returns path"""
    srcs = [contract, os.path.join(CON, 'rt.cpp')] + [os.path.join(REPO, s) for s in sources]
    bcs = compile_all(srcs, SYM + defs(contract), '.bc')
    h = hashlib.sha256(('|'.join(bcs) + '|' + ','.join(noinline) + OPTVER).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, 'L' + h + '.bc')
    if os.path.exists(out):
        return out
    tmp = os.path.join(CACHE, 'tmp%d_%s' % (os.getpid(), h))
    run(['llvm-link'] + bcs + ['-o', tmp + '.l.bc'], 'llvm-link')
    names = ['vch_' + n for n in harness_names(contract)]
    run(['opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(names + RTKEEP), tmp + '.l.bc', '-o', tmp + '.i.bc'], 'internalize')
    if noinline:
        mark_noinline(tmp + '.i.bc', tmp + '.n.bc', noinline)
        os.replace(tmp + '.n.bc', tmp + '.i.bc')
    run(['opt', '-passes=default<O2>', '-vectorize-loops=false', '-vectorize-slp=false', '-unroll-runtime=false', '-unroll-allow-partial=false',
         '-unroll-allow-peeling=false', tmp + '.i.bc', '-o', tmp + '.o.bc'], 'opt')
    os.replace(tmp + '.o.bc', out)
    for e in ('.l.bc', '.i.bc'):
        if os.path.exists(tmp + e):
            os.remove(tmp + e)
    return out

OPTVER = 'v1'
RTKEEP = ['vc_rt_keep']

def mark_noinline(src, dst, pats):
    txt = run(['llvm-dis', src, '-o', '-'], 'llvm-dis').decode()
    rx = re.compile('|'.join(pats))
    out = []
    for line in txt.split('\n'):
        if line.startswith('define ') :
            m = re.search(r'@("?)([\w.$]+)\1\(', line)
            if m and rx.search(m.group(2)):
                # add noinline to the attribute list (before the opening brace / attribute group)
                line = re.sub(r'\)\s*(?=[^()]*\{$)', ') noinline ', line, 1) if not line.rstrip().endswith('noinline {') else line
        out.append(line)
    p = dst + '.ll'
    open(p, 'w').write('\n'.join(out))
    run(['llvm-as', p, '-o', dst], 'llvm-as')
    os.remove(p)

def native_binary(contract, sources):
    srcs = [contract, os.path.join(CON, 'native.cpp')] + [os.path.join(REPO, s) for s in sources]
    objs = compile_all(srcs, NAT + defs(contract), '.o')
    h = hashlib.sha256('|'.join(objs).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, 'N' + h)
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        cmd = [CXX, '-fsanitize=address', '-o', tmp] + objs + ['-Wl,--wrap=exit', '-Wl,--no-demangle']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            # functions of libraries that are not installed (QL, Ipopt, HDF5, XML): reaching one discards the trial
            und = sorted(set(re.findall(r"undefined reference to `([^'`]+)'", r.stderr.decode('utf-8', 'replace'))))
            if not und:
                raise BuildError('linking native replay failed: ' + r.stderr.decode('utf-8', 'replace')[:3000])
            asm = tmp + '.s'
            with open(asm, 'w') as f:
                f.write('.text\n' + ''.join('.weak %s\n%s:\n' % (u, u) + '.cfi_startproc\njmp vc_missing\n.cfi_endproc\n.zero 256\n' for u in und) + '.section .note.GNU-stack,"",@progbits\n')
            try:
                run(cmd + [asm], 'linking native replay')
            finally:
                os.remove(asm)
        os.replace(tmp, out)
    return out
