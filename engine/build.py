"""Build pipeline: /repo's current sources + one harness -> instrumented explorer and native replayer.

Everything is derived from the files as they are in /repo at the moment of the run; results are
cached under /verif/build by a hash of every input file (sources, headers, flags, engine)."""
import hashlib, os, subprocess, sys, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(VERIF, 'engine')
HAR = os.path.join(VERIF, 'harness')
REPO = os.environ.get('SYMI_REPO', '/repo')
BUILD = os.environ.get('SYMI_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = 8


class BuildError(Exception):
    pass


def run(cmd, what, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd[:3])+' ...', p.stdout.decode(errors='replace')[:3000]))
    return p.stdout.decode(errors='replace')


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_files():
    root = os.path.join(REPO, 'eskf_vio_backend')
    hdr, src = [], []
    for d in ('include', 'src'):
        for dp, _, fn in os.walk(os.path.join(root, d)):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if f.endswith(('.hpp', '.h', '.hh', '.ipp', '.inl', '.tpp')):
                    hdr.append(p)
                elif f.endswith(('.cpp', '.cc', '.cxx')):
                    src.append(p)
    return sorted(hdr), sorted(src)


def inc_dirs():
    out = []
    for d in ('include', 'src'):
        for dp, _, fn in os.walk(os.path.join(REPO, 'eskf_vio_backend', d)):
            out.append(dp)
    return sorted(out)


def tool(path, key, make):
    """make(tmp) creates the file; cached under its key"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s-%s' % (key, path))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid() + os.path.splitext(path)[1]
        make(tmp)
        os.replace(tmp, out)
    return out


def plugin():
    src = os.path.join(ENG, 'symx_pass.cpp')

    def make(tmp):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split()
        fl = [f for f in fl if not f.startswith('-std')]
        run(['g++', '-O1', '-fno-rtti', '-shared', '-fPIC', '-w'] + fl + ['-std=c++17', src, '-o', tmp], 'pass plugin')
    return tool('symx.so', h(rd(src)), make)


def runtime():
    src = os.path.join(ENG, 'symrt.cpp')
    return tool('symrt.o', h(rd(src)), lambda tmp: run(['g++', '-std=gnu++17', '-O2', '-w', '-c', src, '-o', tmp], 'run time'))


def native_rt():
    src = os.path.join(ENG, 'symi_native.cpp')
    return tool('symi_native.o', h(rd(src)), lambda tmp: run(['g++', '-std=gnu++17', '-O1', '-w', '-c', src, '-o', tmp], 'native run time'))


def flags(defs):
    return ['-std=c++17', '-O1', '-DEIGEN_DONT_VECTORIZE', '-DNDEBUG', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern',
            '-isystem', '/usr/include/eigen3', '-I', ENG, '-I', HAR] + ['-D' + d for d in defs] + sum([['-I', d] for d in inc_dirs()], [])


def pch(defs):
    ph = os.path.join(ENG, 'prelude.hpp')
    st = os.path.join(HAR, 'stubs.hpp')
    fl = ['-std=c++17', '-O1', '-DEIGEN_DONT_VECTORIZE', '-DNDEBUG', '-w', '-ffp-contract=off', '-ftrivial-auto-var-init=pattern', '-fno-vectorize', '-fno-slp-vectorize', '-isystem', '/usr/include/eigen3', '-I', ENG, '-I', HAR] + ['-D' + d for d in defs]
    key = h(rd(ph), rd(st), rd(os.path.join(HAR, 'matrix_plugin.inc')), rd(os.path.join(ENG, 'symi.h')), 'no timestamp', *fl)
    return tool('prelude.pch', key, lambda tmp: run(['clang++-18'] + fl + ['-Xclang', '-fno-pch-timestamp', '-x', 'c++-header', ph, '-o', tmp], 'pch'))


def bitcode(src, defs, hdrkey, extra=(), asan=False):
    p = pch(defs)
    fl = flags(defs) + list(extra)
    deps = b''
    if src.startswith(HAR):
        for f in sorted(glob.glob(os.path.join(HAR, '*.h*'))):
            deps += rd(f)
    key = h(rd(src), hdrkey, os.path.basename(p), deps, src, *fl)
    name = os.path.basename(src) + '.bc'
    return tool(name, key, lambda tmp: run(['clang++-18', '-include-pch', p] + fl + ['-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', src, '-o', tmp], 'compile ' + src))


def build(harness, entries, defs=(), want_native=False, asan=False):
    """returns dict(explorer=..., native=...)"""
    hdr, src = repo_files()
    hdrkey = h(*[x for f in hdr for x in (f, rd(f))])
    hsrc = os.path.join(HAR, harness + '.cpp')
    if asan:
        return build_asan(hsrc, src, defs, hdrkey)
    ex = ThreadPoolExecutor(JOBS)
    f_pl, f_rt, f_nt = ex.submit(plugin), ex.submit(runtime), ex.submit(native_rt)
    pch(defs)
    fs = [ex.submit(bitcode, hsrc, defs, hdrkey)] + [ex.submit(bitcode, s, defs, hdrkey) for s in src]
    bcs = [f.result() for f in fs]
    pl, rt, nt = f_pl.result(), f_rt.result(), f_nt.result()
    lk = h(*[os.path.basename(b) for b in bcs], *entries)

    def mk_opt(tmp):
        linked = tmp + '.l.bc'
        run([LLVM + 'llvm-link', '-o', linked] + bcs, 'llvm-link')
        keep = ','.join(entries)
        run([LLVM + 'opt', '-passes=internalize,globaldce,default<O1>,scalarizer,instcombine,simplifycfg,globaldce', '-internalize-public-api-list=' + keep,
             '-vectorize-loops=false', '-vectorize-slp=false', linked, '-o', tmp], 'opt')
        os.unlink(linked)
    opt = tool(harness + '.opt.bc', lk, mk_opt)

    def mk_exp(tmp):
        o = tmp + '.o'
        b = tmp + '.s.bc'
        run([LLVM + 'opt', '-load-pass-plugin=' + pl, '-passes=symx,function(instcombine<no-verify-fixpoint>,simplifycfg)', opt, '-o', b], 'symx')
        run([LLVM + 'llc', '-O1', '-filetype=obj', '-relocation-model=pic', b, '-o', o], 'llc')
        run(['g++', '-rdynamic', rt, o, '-o', tmp, '-lz3', '-lgmpxx', '-lgmp', '-lquadmath', '-ldl', '-lpthread'], 'link')
        os.unlink(o)
        os.unlink(b)

    def mk_nat(tmp):
        o = tmp + '.o'
        run([LLVM + 'llc', '-O1', '-filetype=obj', '-relocation-model=pic', opt, '-o', o], 'llc')
        run(['g++', '-rdynamic', o, nt, '-o', tmp, '-ldl', '-lpthread'], 'link')
        os.unlink(o)
    ke = h(lk, os.path.basename(pl), os.path.basename(rt))
    kn = h(lk, os.path.basename(nt))
    fe = ex.submit(tool, harness + '.exp', ke, mk_exp)
    fn = ex.submit(tool, harness + '.nat', kn, mk_nat) if want_native else None
    r = dict(explorer=fe.result(), native=fn.result() if fn else None, sources=src)
    ex.shutdown()
    return r


def build_asan(hsrc, src, defs, hdrkey):
    ex = ThreadPoolExecutor(JOBS)
    ph = os.path.join(ENG, 'prelude.hpp')
    fl = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,float-cast-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-UNDEBUG', '-DSYMI_ASAN', '-include', ph]
    base = [f for f in flags(defs) if f not in ('-O1', '-DNDEBUG')]

    def obj(s):
        key = h(rd(s), hdrkey, rd(ph), *[rd(f) for f in sorted(glob.glob(os.path.join(HAR, '*.h*')))], *(base + fl), s)
        return tool(os.path.basename(s) + '.asan.o', key, lambda tmp: run(['clang++-18'] + base + fl + ['-c', s, '-o', tmp], 'asan compile ' + s))
    objs = [f.result() for f in [ex.submit(obj, s) for s in [hsrc] + src]]
    nt = native_rt()
    key = h(*[os.path.basename(o) for o in objs], os.path.basename(nt))
    r = tool(os.path.basename(hsrc) + '.asan', key, lambda tmp: run(['clang++-18', '-fsanitize=address,undefined', '-rdynamic'] + objs + [nt, '-o', tmp, '-ldl', '-lpthread'], 'asan link'))
    return dict(native=r, explorer=None, sources=src)
