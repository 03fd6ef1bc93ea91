"""Compile /repo's current sources to normalised IR (JSON), in parallel, with a content-keyed cache."""
import os, sys, re, json, hashlib, subprocess, concurrent.futures as cf, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CLANG, CLANGXX = 'clang-18', 'clang++-18'
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']

class Broken(Exception):
    """The analysis itself cannot give an answer (compile error, vanished anchor...)."""

GA_SRC = '''base capi collect datatypes decomp elem_alg fapi ga_diag_seqc ga_malloc ga_solve_seq ga_symmetr ga_trace ghosts
global.nalg global.npatch global.periodic global.util hsort.scat iterator matmul matrix mtwister nbutil onesided
peigstubs sclstubs select sketch sparse.array sparse thread-safe'''.split()
MA_SRC = 'error f2c ma string-util table'.split()
DRA_SRC = 'buffers capi disk.arrays disk.param env fortran patch.util'.split()
TCG_SRC = 'checkbyte clustercheck collect drand48 evlog evon llog misc niceftn nxtval-armci p2p pbeginf pfilecopy sizeof'.split()
PORTS = {'ts': 'src-mpi', 'pr': 'src-mpi-pr', 'mt': 'src-mpi-mt', 'pt': 'src-mpi-pt', 'mpi3': 'src-mpi3'}
PORT_EXTRA = {'ts': [], 'pr': ['reg_cache'], 'mt': [], 'pt': ['reg_cache'], 'mpi3': ['reg_win']}

def tus():
    """name -> (path, kind)"""
    r = {}
    for s in GA_SRC: r['ga/' + s] = ('global/src/%s.c' % s, 'ga')
    for s in MA_SRC: r['ma/' + s] = ('ma/%s.c' % s, 'ga')
    for s in DRA_SRC: r['dra/' + s] = ('pario/dra/%s.c' % s, 'ga')
    for s in ('eaf', 'eaf_f2c'): r['eaf/' + s] = ('pario/eaf/%s.c' % s, 'ga')
    for s in ('elio', 'stat'): r['elio/' + s] = ('pario/elio/%s.c' % s, 'ga')
    for s in ('sf_capi', 'sf_fortran', 'shared.files'): r['sf/' + s] = ('pario/sf/%s.c' % s, 'ga')
    for s in ('capi', 'fapi'): r['tcg/' + s] = ('tcgmsg/%s.c' % s, 'ga')
    for s in TCG_SRC: r['tcgmpi/' + s] = ('tcgmsg/tcgmsg-mpi/%s.c' % s, 'ga')
    r['gaf2c/gaf2c'] = ('gaf2c/gaf2c.c', 'ga')
    for s in ('GlobalArray', 'GAServices', 'init_term', 'PGroup', 'services'):
        r['gapp/' + s] = ('ga++/src/%s.cc' % s, 'gapp')
    for s in ('armci', 'capi', 'groups', 'iterator', 'message'):
        r['armci/' + s] = ('comex/src-armci/%s.c' % s, 'comex:ts')
    for p, d in PORTS.items():
        for s in ['comex', 'groups'] + PORT_EXTRA[p]:
            r['%s/%s' % (p, s)] = ('comex/%s/%s.c' % (d, s), 'comex:' + p)
    return r

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()

def ensure_tool():
    """Build irdump from source (kept in the cache directory)."""
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irdump-' + file_hash(src)[:16])
    if os.path.exists(exe): return exe
    cfg = '/usr/lib/llvm-18/bin/llvm-config'
    flags = subprocess.check_output([cfg, '--cxxflags'], text=True).split()
    tmp = exe + '.tmp%d' % os.getpid()
    r = sh([CLANGXX, '-O1', '-o', tmp, src] + flags + ['-std=c++17', '-fno-exceptions', '-fno-rtti', '-w', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode: raise Broken('cannot build irdump:\n' + r.stdout[-3000:])
    os.rename(tmp, exe)
    return exe

def gen_headers(port='ts'):
    """Headers the build generates, regenerated from /repo's current templates."""
    d = os.path.join(CACHE, 'gen-' + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    vals = {'F2C_INTEGER_C_TYPE': 'long', 'F2C_REAL_C_TYPE': 'float', 'F2C_DOUBLE_PRECISION_C_TYPE': 'double',
            'C_POINTER_AS_INTEGER': 'long', 'F2C_GETARG': 'f2c_getarg_', 'F2C_IARGC': 'f2c_iargc_',
            'MA_LONG_DOUBLE': 'long double', 'MA_ACCESS_INDEX_TYPE_C': 'long'}
    def put(rel, text):
        p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.exists(p) and open(p).read() == text: return
        t = p + '.tmp%d' % os.getpid()
        with open(t, 'w') as f: f.write(text)
        os.rename(t, p)
    for rel in ('gaf2c/typesf2c.h', 'gaf2c/farg.h', 'ma/matypes.h'):
        t = open(os.path.join(REPO, rel + '.in')).read()
        t = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), m.group(0)), t)
        put(rel, t)
    papi = open(os.path.join(REPO, 'global/src/ga-papi.h')).read().split('\n')
    w = [l.replace('PAPI', 'WAPI').replace('pnga_', 'wnga_') for l in papi]
    put('global/src/ga-wapi.h', '\n'.join(l for l in w if 'typedef' not in l))
    out = []
    for l in papi:
        l = l.replace('PAPI', 'WAPIDEFS')
        l = re.sub(r'^.*p(nga_.*)\(.*\).*$' if False else r'^.*p(nga_.*)\(.*$', r'#define w\1 p\1', l) if re.match(r'^.*pnga_.*\(.*$', l) else l
        if l.startswith(' ') or l.startswith('/*') or l.startswith(' *') or 'typedef' in l: continue
        out.append(l)
    put('global/src/ga-wapidefs.h', '\n'.join(out))
    return d

def cflags(kind, gen):
    R = REPO
    if kind in ('ga', 'gapp'):
        inc = [VERIF + '/conf/ts', R, gen + '/ma', R + '/ma', R + '/LinAlg/lapack+blas', gen + '/global/src', R + '/global/src',
               R + '/global/testing', R + '/pario/dra', R + '/pario/eaf', R + '/pario/elio', R + '/pario/sf', R + '/ga++/src',
               gen + '/gaf2c', R + '/gaf2c', R + '/tcgmsg', R + '/tcgmsg/tcgmsg-mpi', R + '/comex/src-armci']
    else:
        p = kind.split(':')[1]
        inc = [VERIF + '/conf/%s/comex' % p, R + '/comex', R + '/comex/src-common', R + '/comex/' + PORTS[p], R + '/comex/src-armci']
    f = ['-DHAVE_CONFIG_H'] + ['-I' + i for i in inc] + MPI_INC
    return f

KEEP_DIR = os.path.join(VERIF, 'engine', 'keep')

def compile_one(name, path, kind, tool, gen, mode):
    """mode: 'keep' (inline all but kept functions) or 'raw' (no inlining)."""
    src = os.path.join(REPO, path)
    if not os.path.exists(src): raise Broken('source file vanished: ' + path)
    comp = CLANGXX if kind == 'gapp' else CLANG
    std = [] if kind == 'gapp' else ['-std=gnu17']
    base = [comp] + std + cflags(kind, gen)
    pp = subprocess.run(base + ['-E', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode: raise Broken('cannot preprocess %s:\n%s' % (path, pp.stderr.decode()[-2000:]))
    keep = os.path.join(KEEP_DIR, name.replace('/', '_') + '.txt')
    nor = os.path.join(VERIF, 'engine', 'noreturn.txt')
    h = hashlib.sha256()
    h.update(pp.stdout); h.update(mode.encode()); h.update(os.path.basename(tool).encode()); h.update(b'v2')
    for f in (keep, nor):
        if os.path.exists(f): h.update(open(f, 'rb').read())
    key = h.hexdigest()[:24]
    out = os.path.join(CACHE, 'ir', '%s-%s-%s.json' % (name.replace('/', '_'), mode, key))
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=CACHE)
    try:
        bc = tmp + '/m.bc'
        r = sh(base + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g', '-fno-eliminate-unused-debug-types', '-w', *([] if kind == 'gapp' else ['-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=implicit-int', '-Wno-error=return-type']), '-fno-strict-aliasing', '-emit-llvm', '-c', src, '-o', bc])
        if r.returncode: raise Broken('cannot compile %s:\n%s' % (path, r.stdout[-3000:]))
        args = [tool, bc, tmp + '/m.json', '--noreturn=' + nor]
        args += ['--keep=' + keep] if mode == 'keep' else ['--no-inline']
        r = sh(args)
        if r.returncode: raise Broken('irdump failed on %s:\n%s' % (path, r.stdout[-2000:]))
        os.rename(tmp + '/m.json', out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

def build(names, mode='keep'):
    tool, gen, T = ensure_tool(), gen_headers(), tus()
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {n: ex.submit(compile_one, n, T[n][0], T[n][1], tool, gen, mode) for n in names}
        return {n: f.result() for n, f in fs.items()}
