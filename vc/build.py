"""Compiles an instantiation unit against /repo's working tree to LLVM IR and parses it."""
import os, subprocess, tempfile, pickle, hashlib
from . import ir
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PIGO_REPO', '/repo')


class BuildError(Exception): pass


def llvm_ir(src, defs=(), tmp=None):
    d = tmp or tempfile.mkdtemp(prefix='vc')
    ll = os.path.join(d, os.path.basename(src) + ''.join('_%s' % x.replace('=', '') for x in defs) + '.ll')
    cmd = ['clang++-18', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-fopenmp', '-fno-access-control', '-fno-discard-value-names', '-g0',
           '-Wno-everything', '-emit-llvm', '-S', '-I' + os.path.join(HERE, 'stub'), '-I' + os.path.join(REPO, 'include')] + ['-D' + x for x in defs] + [src, '-o', ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    p = subprocess.run(['opt-18', '-S', '-passes=sroa,mem2reg,simplifycfg', ll, '-o', ll + '2'], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    txt = open(ll + '2').read()
    os.unlink(ll); os.unlink(ll + '2')
    if tmp is None: os.rmdir(d)
    return txt


def load(src, defs=()):
    m = ir.parse(llvm_ir(os.path.join(HERE, 'inst', src), defs))
    names = list(m.funcs) + list(m.decls)
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n.strip('@"') for n in names), capture_output=True, text=True)
    m.dem = dict(zip(names, p.stdout.split('\n')))
    m.consts = {}
    for g, v in m.globals.items():
        if v[1] is not None and v[1][0] == 'i': m.consts[g[1:]] = v[1][1]
    return m
