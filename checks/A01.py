"""API entry points forward to the operation of their name, every argument in its role."""
from vlib.api import *
from vlib.util import *
sys = __import__('sys'); sys.setrecursionlimit(20000)

GAU = [u for u in B.tus() if u.startswith('ga/')]
CPP = ['gapp/GlobalArray', 'gapp/GAServices', 'gapp/PGroup', 'gapp/services']
OTHER = ['ma/f2c', 'dra/capi', 'dra/fortran', 'eaf/eaf_f2c', 'sf/sf_capi', 'sf/sf_fortran', 'tcg/capi', 'tcg/fapi', 'armci/capi']
QUERY = {'GA_Ndim', 'NGA_Ndim', 'GA_Nnodes', 'GA_Nodeid', 'pnga_ndim', 'pnga_get_dimension', 'pnga_inquire_type', 'pnga_is_mirrored', 'pnga_type_f2c', 'pnga_type_c2f', 'ga_f2cstring', 'ga_c2fstring',
         'pnga_has_ghosts', 'strlen', 'strdup', 'pnga_total_blocks', '__gxx_personality_v0', '_ZSt9terminatev', '__cxa_begin_catch', 'gai_matmul_patch_flag'}
ERROR = {'GA_Error', 'pnga_error', 'wnga_error', 'Error', 'ARMCI_Error', '__assert_fail', 'exit', 'abort', 'dai_error', 'comex_error'}
# entry points whose operation carries another name
NAMED = {'verify_handle': {'valid_handle', 'verify_handle'}, 'brdcst': {'msg_brdcst', 'brdcst'}, 'lu_solve': {'lu_solve_alt', 'lu_solve'}, 'matmul_patch': {'matmul', 'matmul_mirrored', 'matmul_patch'},
         'initialize_args': {'initialize'}, 'sprs_array_access_col_block': {'sprs_array_access_col_block_idx', 'sprs_array_access_col_block_ptr', 'sprs_array_access_col_block'},
         'access_ghosts': {'access_ghosts', 'access_ghost_ptr'}, 'uses_fapi': set()}
GEMM = {'aihi': 'm', 'ajhi': 'k', 'bihi': 'k', 'bjhi': 'n', 'cihi': 'm', 'cjhi': 'n'}
# a C row is a Fortran column
CROWS = {'scale_rows': 'scale_cols', 'scale_cols': 'scale_rows'}
INVERTED = {'compare_distr'}      # documented: 0 when the distributions are identical
PERIODIC = {'periodic_get': 1, 'periodic_put': 2, 'periodic_acc': 3}
TYPE = {'i': {1001, 1010}, 'l': {1002}, 'f': {1003, 1012}, 's': {1003, 1012}, 'd': {1004, 1013}, 'c': {1006, 1014}, 'z': {1007, 1015}, 'll': {1016}}
INDEX = re.compile(r'^_*((\w*(lo|hi))|subscript|lower|upper)_?$')
EXTENT = re.compile(r'^_*((da_|ga_)?dims|chunk|width|ld|block|nblock|nblocks|proc_grid|block_dims|num_blocks|skip|reqdims|mask|coord|size|bsize)_?$')
SCALARIX = re.compile(r'^([abc]?[ij]?(lo|hi)|pdim|dimension)$')

def nz(s): return re.sub(r'^_+|_+$|\.coerce\d?$', '', s.lower())
def params(x, out=None):
    out = set() if out is None else out
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'p' and isinstance(x[1], int): out.add(x[1])
        elif len(x) == 3 and x[0] == 'by': return out
        elif len(x) == 3 and x[0] == 't' and len(x) == 3: params(x[1], out); params(x[2], out)
        else:
            for y in x: params(y, out)
    elif isinstance(x, frozenset):
        for y in x: params(y, out)
    return out
def ints(x, out):
    if isinstance(x, (tuple, frozenset)):
        for y in x: ints(y, out)
    elif isinstance(x, int) and not isinstance(x, bool): out.add(abs(x))
    return out
def atoms(x):
    if isinstance(x, frozenset): return {z for y in x for z in atoms(y)}
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'r': return {x}
        return {z for y in x for z in atoms(y)}
    return set()
def calls_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'r': out.add(x[1])
        if len(x) == 3 and x[0] == 'by': out.add(x[1])
        for y in x: calls_in(y, out)
    elif isinstance(x, frozenset):
        for y in x: calls_in(y, out)
    return out

def written(prog):
    """{(function, argument)}: the function may store through the pointer it is given there"""
    W = set(); pend = []
    for f in prog.all():
        for i in f.insts:
            if i.op == 'store':
                b = root(f, i.ops[1])
                if b is not None: W.add((f.name, b))
            elif i.op in ('call', 'invoke') and i.callee:
                t = prog.target(i)
                for n, o in enumerate(i.ops):
                    b = root(f, o) if not isinstance(o, list) else None
                    if b is None: continue
                    if t is not None: pend.append(((t.name, n), (f.name, b)))
                    elif i.callee in ('llvm.memcpy.p0.p0.i64', 'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memset', 'memmove', 'strcpy', 'strncpy') and n == 0: W.add((f.name, b))
    ch = True
    while ch:
        ch = False
        for a, b in pend:
            if a in W and b not in W: W.add(b); ch = True
    return W
def root(f, o):
    for _ in range(30):
        i = f.V(o)
        if i is None:
            return int(o[1:]) if isinstance(o, str) and o[0] == 'a' and o[1:].isdigit() else None
        if i.op in ('getelementptr', 'bitcast'): o = i.ops[0]
        else: return None

class Conv:
    """how an array argument was filled: (param, offset, 'rev'|'fwd', trip) or (index -> param) cells"""
    def __init__(self, contents):
        self.loops, self.cells, self.by, self.odd = [], [], [], []
        for w in contents:
            if w[0] == 'by': self.by.append(w); continue
            r = None
            if w[0] == 'w':
                _, ix, v, tr = w
                v = dict(v); k = v.pop((), 0); d = dict(ix)
                if len(v) == 1:
                    (m, c), = v.items()
                    if c == 1 and len(m) == 1 and m[0][0] == 'e':
                        b, s = m[0][1], dict(m[0][2])
                        if len(tr) == 1 and d == {(('t', 0),): 1}:
                            g = s.pop((('t', 0),), 0)
                            if g == 1 and not s: r = ('l', b, k, 'fwd', tr[0])
                            elif g == -1 and padd(s, {(): 1}) == dict(tr[0]): r = ('l', b, k, 'rev', tr[0])
                        elif not tr and set(d) <= {()}: r = ('c', d.get((), 0), b, fz(s), k)
                    elif c == 1 and len(m) == 1 and m[0][0] == 'p' and not tr and set(d) <= {()}: r = ('c', d.get((), 0), m[0], None, k)
            if r is None: self.odd.append(w)
            elif r[0] == 'l': self.loops.append(r[1:])
            else: self.cells.append(r[1:])

def n64(x):
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], int): return (re.sub(r'64(_c)?$', r'\1', x[0]), x[1])
        return tuple(n64(y) for y in x)
    if isinstance(x, frozenset): return frozenset(n64(y) for y in x)
    return x
def stem(n):
    n = n.lower().rstrip('_'); n = re.sub(r'(64)?(_c)?$', '', n) if not n.endswith('_c') else re.sub(r'(64)?_c$', '', n)
    return re.sub(r'^(nga|ga|ngai|gai|pnga)_', '', n)

MM = {'transa': 'transb', 'ta': 'tb', 'g_a': 'g_b', 'alo': 'blo', 'ahi': 'bhi', 'm': 'n'}
MM.update({v: k for k, v in MM.items()})
def swaps(f, d):
    """row-major callers hand the factors over in the other order"""
    return bool(re.match(r'^NGA_Matmul_patch', f.name) and d.startswith('pnga_') or re.match(r'^GA_[SDCZ]gemm(64)?_c$', d))

class A01:
    def __init__(self, ctx, prog, W):
        self.ctx, self.p, self.W = ctx, prog, W
        self.sums = {}
    def main(self, f, lang):
        ctx = self.ctx
        A = Api(f); nm = [nz(a[0]) for a in f.args]
        used = set(); key0 = f.name
        mains = []
        S = []
        for c in A.core():
            args = [A.full(o, c) for o in c.ops if not (isinstance(o, str) and o == c.x.get('c'))]
            g = A.guards(c)
            used |= params(g)
            for a in args: used |= params(a)
            if c.callee not in QUERY: S.append(('call', re.sub(r'64(_c)?$', r'\1', c.callee), g) + tuple(args))
            if c.callee in ERROR: continue
            if c.callee not in QUERY: mains.append((c, args))
        for q, o in A.outputs(): used |= {q} | params(o); S.append(('out', q, o))
        for i in f.insts:
            if i.op == 'store': used |= params(fz(A.term(i.ops[0])))
            if i.op in ('br', 'switch') and i.ops: used |= params(fz(A.term(i.ops[0])))
        rets = A.returns(); used |= params(rets); S.append(('ret', rets))
        self.sums[f.name] = (f, A, [n64(x) for x in S])
        ctx.count('entry_points')
        # every parameter has an effect
        for k, n in enumerate(nm):
            if k in used or n in ('this', 'ghosts', 'dummy') or re.search(r'(len|size)$', f.args[k][0]) or (n == 'type' and re.search(r'gop_?$', f.name)): continue
            if f.name.startswith('__'): continue
            ctx.viol('unused:%s:%s' % (f.name, f.args[k][0]), '%s ignores its parameter %s' % (f.where(), f.args[k][0]))
        ctx.ok(None, len(nm))
        for c, args in mains: self.call(f, A, nm, c, args, lang)
        self.complete(f, A, mains, lang)
        self.results(f, A, mains, rets)
        return A, mains
    def call(self, f, A, nm, c, args, lang):
        ctx = self.ctx
        d = self.p.target(c)
        ctx.count('forwarded_calls')
        sw = swaps(f, c.callee)
        # arguments that carry a parameter of the wrapper keep its order
        seq = [min(params(a)) for a in args if len(params(a)) == 1]
        vis = [k for k in seq if nm[k] != 'this']
        if c.callee == 'pnga_matmul' and {'m', 'n', 'k'} <= set(nm): self.gemm(f, c, args, nm)
        elif sw: pass
        elif vis != sorted(vis) or len(vis) != len(set(vis)):
            ctx.viol('order:%s:%s' % (f.name, c.callee), '%s passes its parameters to %s as (%s)' % (c.where(), c.callee, ', '.join(f.args[k][0] for k in vis)))
        ctx.ok('%s -> %s(%s)' % (f.name, c.callee, ', '.join(f.args[k][0] for k in seq)) if len(seq) > 5 else None)
        if d is None: return
        dn = [nz(a[0]) for a in d.args]
        handle = None
        for n, a in enumerate(args):
            if n >= len(dn): break
            q = dn[n]; ps = params(a)
            if re.match(r'^g_\w+$', q) or (q in ('d_a',)): handle = a
            pn = {nm[k] for k in ps}
            want = MM.get(q, q) if sw else q
            if len(dn) > 1 and ps and want in nm and want not in pn and 'this' not in pn:
                ctx.viol('cross:%s:%s:%s' % (f.name, d.name, q), '%s: %s receives the parameter %s as its %s, although %s has a parameter %s' %
                         (c.where(), d.name, '/'.join(sorted(pn)), q, f.name, want))
            ctx.ok()
            self.scalar(f, c, d, n, q, a, nm, lang)
            if lang not in ('c', 'dra'): 
                if lang == 'f' and a[0] == 'arr': self.fcells(f, c, d, q, a, nm)
                continue
            if lang == 'dra' and isinstance(c.ops[n], str) and c.ops[n].startswith('g:_') and a[0] == 't' and (d.name, n) not in self.W:
                ctx.viol('unset:%s:%s:%s' % (f.name, d.name, q), '%s passes %s a %s that was never given a value' % (c.where(), d.name, q))
            if a[0] == 'arr' and (not dict(a[2]) if a[2] else True): self.carray(f, A, c, d, n, q, a, args, handle, nm, lang)
            elif a[0] == 't' and len(a) == 2 and d.name.startswith('pnga_') and SCALARIX.match(q):
                t = dict(a[1]); k = t.pop((), 0)
                if len(t) == 1:
                    (m, co), = t.items()
                    if co == 1 and len(m) == 1 and m[0][0] == 'p' and SCALARIX.match(nm[m[0][1]]):
                        ctx.count('scalar_indices')
                        if k != 1: ctx.viol('shift:%s:%s:%s' % (f.name, d.name, q), '%s passes %s%+d for the 1-based index %s of %s' % (c.where(), nm[m[0][1]], k, q, d.name))
    def scalar(self, f, c, d, n, q, a, nm, lang):
        """sizes and counts arrive unchanged; an input is never left unset"""
        ctx = self.ctx; key = '%s:%s:%s' % (f.name, d.name, q)
        v = None
        if a[0] == 't' and len(a) == 2: v = dict(a[1])
        elif a[0] == 'arr':
            if lang != 'cpp' and not a[1] and (d.name, n) not in self.W and self.reads(d, n): ctx.viol('unset:' + key, '%s passes %s a %s that was never given a value' % (c.where(), d.name, q))
            cv = Conv(a[1])
            if len({x[0] for x in cv.loops}) > 1 and not a[2]: ctx.viol('overwritten:' + key, '%s fills the %s of %s from %s' % (c.where(), q, d.name, ' and '.join(sorted(f.args[x[0][1]][0] if x[0][0] == 'p' else x[0][0] for x in cv.loops))))
            if len(cv.cells) == 1 and not cv.loops and not cv.odd and cv.cells[0][0] == 0 and cv.cells[0][1][0] == 'p' and cv.cells[0][2] is None: v = {(cv.cells[0][1],): 1, (): cv.cells[0][3]}
        if v is None: return
        k = v.pop((), 0)
        if len(v) == 1:
            (m, co), = v.items()
            if co == 1 and len(m) == 1 and m[0][0] == 'p' and nm[m[0][1]].strip('_') == q.strip('_') and re.search('ndim|nv$|count|^n$|^m$|^k$|num|size|^proc|^dim$|^width', q) and not (SCALARIX.match(q) and lang == 'c'):
                ctx.count('scalars_forwarded')
                if k: ctx.viol('altered:' + key, '%s passes %s%+d as the %s of %s' % (c.where(), f.args[m[0][1]][0], k, q, d.name))
    def reads(self, d, n):
        return any(i.op == 'load' and root(d, i.ops[0]) == n for i in d.insts)
    def gemm(self, f, c, args, nm):
        d = self.p.target(c)
        for n, a in enumerate(args):
            q = nz(d.args[n][0])
            if q in GEMM and {nm[k] for k in params(a)} != {GEMM[q]}: self.ctx.viol('gemm:%s:%s' % (f.name, q), '%s passes %s as the %s of the product' % (c.where(), '/'.join(nm[k] for k in params(a)), q))
            if re.match('^[abc][ij]lo$', q) and a != ('t', frozenset({((), 1)})): self.ctx.viol('gemm:%s:%s' % (f.name, q), '%s does not start the %s of the product at 1' % (c.where(), q))
            self.ctx.ok()
    def carray(self, f, A, c, d, n, q, a, args, handle, nm, lang):
        ctx = self.ctx
        cv = Conv(a[1])
        if q in ('mapc', 'map') and d.name.startswith('pnga_'): self.mapped(f, a[1], 1, lambda b: b[0] == 'p')
        key = '%s:%s:%s' % (f.name, d.name, q)
        if cv.odd and (INDEX.match(q) or EXTENT.match(q)): ctx.count('conversions_not_in_closed_form')
        for b, k, dr, trip in cv.loops:
            if b[0] != 'p': continue
            ctx.count('array_conversions')
            if not d.name.startswith('pnga_') and lang == 'c':      # another wrapper, which converts
                if dr != 'fwd' or k: ctx.viol('direction:' + key, '%s converts %s for %s, which converts it again' % (c.where(), f.args[b[1]][0], d.name))
                continue
            if nm[b[1]] == 'list': 
                if dr != 'fwd' or k: ctx.viol('list:' + key, '%s converts the process list %s with offset %d, %s' % (c.where(), nm[b[1]], k, dr))
                continue
            if dr != 'rev': ctx.viol('direction:' + key, '%s copies %s to the %s of %s without reversing the dimensions' % (c.where(), f.args[b[1]][0], q, d.name))
            if INDEX.match(nm[b[1]]) and INDEX.match(q) or q in ('index', 'subscript') and not re.search('block_grid', d.name): want = 1
            elif EXTENT.match(nm[b[1]]) or EXTENT.match(q) or re.match(r'pnga_access_block_grid', d.name): want = 0
            else: want = None
            if want is not None and k != want:
                ctx.viol('offset:' + key, '%s passes %s%+d as the %s of %s; %s' % (c.where(), f.args[b[1]][0], k, q, d.name,
                         'C indices count from 0 and must be shifted by one' if want else 'it is not an index and must be passed unchanged'))
            # length: the rank of the array the bounds belong to
            t = dict(trip); off = t.pop((), 0)
            if q == 'ld' or nm[b[1]] == 'ld': woff = -1
            else: woff = 0
            okl = False
            if len(t) == 1:
                (m, co), = t.items()
                if co == 1 and len(m) == 1:
                    x = m[0]
                    if x[0] == 'p' and re.search('ndim|count|size', nm[x[1]]): okl = off == 0
                    elif x[0] == 'r' and x[1][0] in ('pnga_ndim', 'pnga_get_dimension'):
                        okl = off == woff and self.rank_of(f, A, x[1], handle, args)
                    elif x[0] == 'e' or x[0] == 'k': okl = True; ctx.count('lengths_from_memory')
                    else: okl = True
            if not okl: ctx.viol('length:' + key, '%s converts %s for a number of dimensions that is not the rank of the array it describes' % (c.where(), f.args[b[1]][0]))
            ctx.count('conversion_lengths')
        ctx.ok()
    def rank_of(self, f, A, callid, handle, args):
        if handle is None: return True
        for c in A.calls_:
            if A.callno[c.id] == callid:
                h = A.full(c.ops[0], c)
                if h == handle or params(h) and params(h) == params(handle): return True
                # operands that must have equal rank may share one query
                return bool(re.search(r'step_max|step_bound|elem_|median|(read|write)_section', f.name.lower()))
        return True
    def fcells(self, f, c, d, q, a, nm):
        """2-D Fortran entry points: pairs of scalars become bounds arrays"""
        ctx = self.ctx
        cv = Conv(a[1])
        if not cv.cells or cv.loops: return
        ix = [x[0] for x in cv.cells]
        ps = [x[1] for x in cv.cells]
        ps = [x[1] if x[0] == 'p' else None for x in ps]
        if len(ix) < 2 and not re.search('lo$|hi$', q): return
        if None in ps: return
        ctx.count('fortran_pairs')
        key = '%s:%s:%s' % (f.name, d.name, q)
        names = [nm[k] for k in ps]
        if sorted(ix) != list(range(2)):
            ctx.viol('cells:' + key, '%s fills the elements (%s) of the %s of %s from (%s): each element must be set once' % (c.where(), ','.join(map(str, ix)), q, d.name, ','.join(names))); return
        o = [k for _, k in sorted(zip(ix, ps))]
        if o != sorted(o) or any(x[4 - 1 + 0] is None for x in cv.cells if False): ctx.viol('cells:' + key, '%s stores %s in the wrong order into the %s of %s' % (c.where(), '/'.join(nm[k] for k in o), q, d.name))
        m = re.search(r'(lo|hi)$', q)
        if m and any(re.search(r'(lo|hi)$', x) and not x.endswith(m.group(1)) for x in names):
            ctx.viol('cells:' + key, '%s uses %s as the %s of %s' % (c.where(), '/'.join(names), q, d.name))
        if any(x[-1] for x in cv.cells): ctx.viol('cells:' + key, '%s shifts a Fortran index for the %s of %s' % (c.where(), q, d.name))
    def complete(self, f, A, mains, lang):
        """the operation happens on every path, except where an error is raised"""
        ctx = self.ctx
        if not mains: return
        stop = {c.blk for c, _ in mains} | {i.blk for i in A.calls_ if i.callee in ERROR or i.callee in QUERY and i.callee.endswith('flag')}
        seen = set(); work = [0]; bad = None
        big = self.toomany(f, A)
        while work:
            b = work.pop()
            if b in big: continue
            if b in seen or b in stop: continue
            seen.add(b)
            if f.blocks[b][-1].op == 'ret': bad = f.blocks[b][-1]; break
            work += f.succ[b]
        if bad is not None and lang in ('c', 'f', 'cpp', 'dra') and not re.search(r'PGroup\d+get(Default|Mirror|World)Ev$', f.name):
            ctx.viol('skipped:' + f.name, '%s can return without calling %s' % (f.where(), '/'.join(sorted({c.callee for c, _ in mains}))))
        ctx.ok()
    def toomany(self, f, A):
        """blocks reached only when more dimensions are asked for than the library supports"""
        out = set()
        for b, bl in enumerate(f.blocks):
            t = bl[-1]
            if t.op != 'br' or len(f.succ[b]) != 2: continue
            c = A.cond(t.ops[0])
            if c[0] != 'gt': continue
            d = dict(c[1]); k = d.pop((), 0)
            if len(d) == 1:
                (m, co), = d.items()
                if len(m) == 1 and m[0][0] == 'p' and nz(f.args[m[0][1]][0]) == 'ndim' and (co, k) in ((1, -7), (-1, 8)):
                    out.add(f.succ[b][0 if co == 1 else 1])
        return {b for b in out if len(f.pred[b]) == 1 or all(p in out or f.blocks[p][-1].op == 'br' for p in f.pred[b])}
    def results(self, f, A, mains, rets):
        """what the operation returns or writes reaches the caller"""
        ctx = self.ctx
        got = calls_in(rets, set()); outs = A.outputs(); reads = set()
        for i in f.insts:
            if i.op == 'load': reads.add(A.addr(i.ops[0])[0])
        passed = {}
        for c in A.calls_:
            for n, o in enumerate(c.ops):
                if isinstance(o, int): passed.setdefault(A.addr(o)[0], []).append((c, n))
        condused = set()
        for i in f.insts:
            if i.op in ('br', 'switch') and i.ops: calls_in(fz(A.term(i.ops[0])), condused)
            if i.op == 'store': calls_in(fz(A.term(i.ops[0])), condused)
            if i.op in ('call', 'invoke'):
                for o in i.ops:
                    if not isinstance(o, list) and not (isinstance(o, str) and o == i.x.get('c')): calls_in(fz(A.term(o)), condused)
        for r in rets: calls_in(r, got)
        for c, args in mains:
            if f.ret != 'void' and c.ty != 'void' and len(mains) == 1:
                ctx.count('return_values')
                if A.callno[c.id] not in got and A.callno[c.id] not in condused and repr(A.callno[c.id]) not in repr(rets):
                    ctx.viol('return:%s:%s' % (f.name, c.callee), '%s drops the value returned by %s' % (c.where(), c.callee))
                elif ('r', A.callno[c.id]) not in atoms(rets):
                    o = self.polarity(f, A, c)
                    if o and o[0] and o[1] and o[0] != o[1]:
                        ctx.count('status_results'); ctx.ok()
                        const = lambda S: all(len(x) == 0 or set(dict(x)) == {()} for x in S)
                        if stem(f.name) in INVERTED: o = {0: o[1], 1: o[0]}
                        if const(o[1]) and not const(o[0]) or const(o[0]) and const(o[1]) and o[0] != {fz({})}:
                            if not (const(o[0]) and o[0] == {fz({(): -1})}): ctx.viol('status:%s:%s' % (f.name, c.callee), '%s returns the result of %s only when it reports failure' % (c.where(), c.callee))
            d = self.p.target(c)
            if d is None: continue
            for n, o in enumerate(c.ops):
                if n >= len(d.args) or (d.name, n) not in self.W or not isinstance(o, int): continue
                b = A.addr(o)[0]
                if b[0] not in ('al', 'm'): continue
                if any(c2 is not c and f.inst_reaches(c, c2) for c2, _ in passed.get(b, []) if c2.callee not in FREE): continue
                if A.contents(b, c) and d.args[n][0] not in [a[0] for a in f.args]:  continue
                ctx.count('result_arrays')
                ctx.ok()
                rd = [i for i in f.insts if i.op == 'load' and A.addr(i.ops[0])[0] == b and f.inst_reaches(c, i)]
                if not rd and not (A.contents(b, c)):
                    ctx.viol('result:%s:%s:%s' % (f.name, d.name, d.args[n][0]), '%s never returns the %s computed by %s to its caller' % (c.where(), d.args[n][0], d.name))
                elif not rd and self.onlyout(d, n) :
                    ctx.viol('result:%s:%s:%s' % (f.name, d.name, d.args[n][0]), '%s never returns the %s computed by %s to its caller' % (c.where(), d.args[n][0], d.name))
        for q, o in outs:
            if nz(f.args[q][0]) == 'map' and f.mod.name == 'ga/capi': self.mapped(f, o, -1, lambda b: b[0] != 'p')
            for w in o:
                cv = Conv([w])
                for b, k, dr, trip in cv.loops:
                    if b[0] not in ('al', 'm', 'loc'): continue
                    n = nz(f.args[q][0])
                    if n in ('x', 'nlist', 'list', 'procs', 'map', 'buf'): continue
                    ctx.count('result_conversions')
                    want = -1 if re.match(r'^(lo|hi|subscript)$', n) or n == 'index' and not re.search(r'proc_index|block_grid', f.name.lower()) else 0
                    if k != want: ctx.viol('outshift:%s:%s' % (f.name, n), '%s returns %s shifted by %d instead of %d' % (f.where(), n, k, want))
                    if dr != 'rev': ctx.viol('outdir:%s:%s' % (f.name, n), '%s returns %s without reversing the dimensions' % (f.where(), n))
    def mapped(self, f, ws, want, src):
        """bounds in a distribution map are shifted like any other index"""
        for w in ws:
            if w[0] not in ('w', 'opaque'): continue
            v = dict(w[2]); k = v.pop((), 0)
            if len(v) == 1:
                (m, c), = v.items()
                if c == 1 and len(m) == 1 and m[0][0] == 'e' and src(m[0][1]):
                    self.ctx.count('map_conversions'); self.ctx.ok()
                    if k != want: self.ctx.viol('map:%s' % f.name, '%s converts the bounds in the map with an offset of %d instead of %d' % (f.where(), k, want))
    def polarity(self, f, A, c):
        """what is returned when the operation reports success and when it reports failure"""
        r = ('r', A.callno[c.id]); out = {0: set(), 1: set()}
        lg = lambda m: bool(m) and r in m
        def val(o, env, v):
            i = f.V(f.strip(o)) if isinstance(o, int) else None
            if i is not None and i.id in env: return val(env[i.id], env, v)
            if i is not None and i.op == 'select':
                t = truth(i.ops[0], env, v)
                if t is not None: return val(i.ops[1 if t else 2], env, v)
            p = A.term(o); q = {}
            for m, k in p.items():
                if m == (r,): q = padd(q, {(): k * v})
                else: q = padd(q, {m: k})
            if len(q) == 1 and len(list(q)[0]) == 1 and list(q)[0][0][0] == 'b':
                t = truth(i.id if i is not None and i.op == 'icmp' else o, env, v)
                if t is not None: q = {(): 1} if t else {}
            return q
        def truth(o, env, v):
            i = f.V(f.strip(o)) if isinstance(o, int) else None
            if i is None: return None
            if i.id in env: return truth(env[i.id], env, v) if isinstance(env[i.id], int) else {'c:0': False, 'c:1': True}.get(env[i.id])
            if i.op != 'icmp': return None
            d = padd(val(i.ops[0], env, v), val(i.ops[1], env, v), -1)
            if set(d) - {()}: return None
            k = d.get((), 0); p = i.x['p'].lstrip('su')
            return {'eq': k == 0, 'ne': k != 0, 'gt': k > 0, 'ge': k >= 0, 'lt': k < 0, 'le': k <= 0}[p]
        n = [0]
        def walk(b, env, v, seen, past):
            n[0] += 1
            if n[0] > 4000: return
            for i in f.blocks[b]:
                if i is c: past = True
            t = f.blocks[b][-1]
            if t.op == 'ret':
                if past and t.ops: out[v].add(fz(val(t.ops[0], env, v)))
                return
            ss = f.succ[b]
            if t.op == 'br' and len(ss) == 2 and past:
                k = truth(t.ops[0], env, v)
                if k is not None: ss = [ss[0 if k else 1]]
            for s in ss:
                if s in seen: continue
                e = dict(env)
                for i in f.blocks[s]:
                    if i.op == 'phi' and b in i.x['bs']: e[i.id] = i.ops[i.x['bs'].index(b)]
                walk(s, e, v, seen | {s}, past)
        for v in (0, 1): walk(0, {}, v, {0}, False)
        if n[0] > 4000: return None
        return out
    def onlyout(self, d, n):
        """the callee writes the argument and never reads what the caller put there"""
        for i in d.insts:
            if i.op == 'load' and root(d, i.ops[0]) == n: return False
            if i.op in ('call', 'invoke') and any(root(d, o) == n for o in i.ops if not isinstance(o, list)): return False
        return True

def run(ctx):
    ctx.rule('Every exported entry point of the C, Fortran and C++ interfaces (and of the disk-array, file, memory, message-passing and ARMCI layers) is summarised as the calls it makes, each argument a term over its own parameters, contents of local arrays included. '
             'Rules: the operation called is the one of that name; parameters keep their order and their role; C index arrays are reversed and shifted by one, extents reversed only, for the rank of the array they belong to; '
             'pairs of Fortran bounds fill each element once; every parameter is used; what the operation returns reaches the caller, converted back; the 32- and 64-bit variants, the NGA_/GA_ aliases and the C++ overloads have the same summary.')
    ctx.assume('Roles are taken from the parameter names of the definitions.')
    p = ctx.prog(GAU)
    W = written(p)
    a = A01(ctx, p, W)
    core = {f.name for f in p.all() if f.name.startswith('pnga_')}
    for u, lang in (('ga/capi', 'c'), ('ga/fapi', 'f')):
        for f in p.mods[u].fns.values():
            if f.internal: continue
            A, mains = a.main(f, lang)
            named(ctx, f, A, mains, core, lang)
            typed(ctx, f, A, mains)
    variants(ctx, a)
    q = ctx.prog(CPP + ['ga/capi'])
    capi = {re.sub('64$', '', re.sub(r'^(nga|ga)_', '', n.lower())).replace('_', '') for n, g in q.mods['ga/capi'].fns.items() if not g.internal}
    b = A01(ctx, q, set())
    for u in CPP:
        for f in q.mods[u].fns.values():
            if not f.kept or f.name.startswith('__'): continue
            A, mains = b.main(f, 'cpp')
            cppnamed(ctx, f, A, mains, capi)
    variants(ctx, b)
    r = ctx.prog(OTHER + ['dra/disk.arrays', 'eaf/eaf', 'sf/shared.files', 'ma/ma', 'armci/armci'])
    c = A01(ctx, r, written(r))
    onames = {x for m in r.mods.values() if m.name not in OTHER for g in m.fns.values() if not g.internal for x in bare(g.name)} | {'flick'}
    for u in OTHER:
        for f in r.mods[u].fns.values():
            if f.internal or not f.kept: continue
            A, mains = c.main(f, 'dra' if u == 'dra/capi' else 'other')
            othernamed(ctx, f, A, mains, onames)
    for n, m in (('entry_points', 1550), ('forwarded_calls', 1550), ('array_conversions', 380), ('conversion_lengths', 380), ('fortran_pairs', 95), ('own_name', 1450), ('variant_pairs', 440),
                 ('typed_entry_points', 60), ('result_arrays', 220), ('result_conversions', 25), ('return_values', 440), ('status_results', 25), ('scalar_indices', 55)): ctx.need(n, m)

def named(ctx, f, A, mains, core, lang):
    s = stem(f.name); cs = {c.callee[5:] for c, _ in mains if c.callee.startswith('pnga_')}
    if not mains: return
    if lang == 'c' and s in CROWS: want = {CROWS[s]}
    elif s in NAMED: want = NAMED[s]
    elif 'pnga_' + s in core: want = {s}
    else: want = set()
    want = {w for x in want for w in (x, x + '_ptr', x + '_idx', x + '2d') if 'pnga_' + w in core}
    if not want:
        if s in PERIODIC:
            ctx.count('own_name')
            for c, args in mains:
                if c.callee == 'pnga_periodic' and args[-1] != ('t', frozenset({((), PERIODIC[s])}.__iter__())): ctx.viol('op:' + f.name, '%s requests another periodic operation' % c.where())
            return
        ws = {x for m in [re.match(r'^(ll|[ilfdcsz])(\w+)$', s)] if m for x in (m.group(2), re.sub('scal', 'scale', m.group(2)), re.sub('scal$', 'scale', m.group(2)), re.sub(r'^scal_', 'scale_', m.group(2)))}
        ws |= {re.sub('_flat$', '', s), s + '_ptr', s + '_idx'}
        if 'gemm' in s: ws |= {'matmul'}
        want = {w for x in ws for w in (x, x + '_ptr', x + '_idx') if 'pnga_' + w in core}
        if not want: ctx.count('no_operation_of_that_name'); return
        if not cs and all(c.callee.startswith(('GA_', 'NGA_')) for c, _ in mains):
            if any(stem(c.callee) != s for c, _ in mains): ctx.viol('op:' + f.name, '%s calls %s' % (f.where(), '/'.join(c.callee for c, _ in mains)))
            return
    ctx.count('own_name')
    cs |= {stem(c.callee) for c, _ in mains if c.callee.startswith(('GA_', 'NGA_')) and stem(c.callee) == s}; want = want | {s}
    if not cs & want: ctx.viol('op:' + f.name, '%s calls %s instead of pnga_%s' % (f.where(), '/'.join(sorted(c.callee for c, _ in mains)), '/pnga_'.join(sorted(want))))
    ctx.ok()

ALIAS = {'utilrandom': 'random', 'drand48': 'random', 'srand48': 'srandom', 'pfcopy': 'pfilecopy', 'altpbegin': 'pbegin', 'pbeginf': 'pbegin', 'pbginf': 'pbegin'}
def bare(n):
    n = n.lower().replace('_', '')
    if n in ALIAS: return {n, ALIAS[n]}
    n = re.sub(r'^(parmci|armcitcgmsg|tcg|armci|pmsg|f2c|ma|eaf|sf|ndra|dra)', '', n)
    return {n, re.sub('^i', '', n), re.sub('^tcg', '', n), ALIAS.get(n, n)}
def othernamed(ctx, f, A, mains, names):
    if not mains:
        if not A.calls_ and bare(f.name) & names: ctx.viol('op:' + f.name, '%s does nothing' % f.where())
        return
    n = bare(f.name)
    if any(bare(c.callee) & n for c, _ in mains): ctx.count('own_name'); ctx.ok(); return
    ctx.viol('op:' + f.name, '%s forwards to %s' % (f.where(), '/'.join(sorted({c.callee for c, _ in mains}))))

def cppnamed(ctx, f, A, mains, capi):
    m = re.match(r'^_ZN?K?2GA\d+GlobalArray([CD])2E', f.name)
    if m:
        ctx.count('own_name')
        if not any(re.match(r'^N?GA_(Create|Duplicate|Copy)' if m.group(1) == 'C' else r'^GA_Destroy$', c.callee) for c, _ in mains): ctx.viol('op:' + f.name, '%s does not %s the array' % (f.where(), 'create' if m.group(1) == 'C' else 'destroy'))
        return
    m = re.match(r'^_ZNK?2GA(?:\d+(?:GlobalArray|GAServices|PGroup))?(\d+)(\w+)$', f.name)
    if not m: return
    n = m.group(2)[:int(m.group(1))].lower()
    if any(re.match(r'^_ZNK?2GA(?:\d+(?:GlobalArray|GAServices|PGroup))?%s%s' % (m.group(1), m.group(2)[:int(m.group(1))]), c.callee) for c, _ in mains): ctx.count('own_name'); ctx.ok(); return
    cs = {re.sub('64$', '', re.sub(r'^(nga|ga)_', '', c.callee.lower())).replace('_', '') for c, _ in mains if c.callee.startswith(('GA_', 'NGA_'))}
    if not cs:
        if not any(c.callee.startswith(('GA_', 'NGA_')) for c in A.calls_) and (n in capi or 'PGroup' in f.name and 'pgroup' + n in capi):
            ctx.count('own_name'); ctx.ok()
            ctx.viol('op:' + f.name, '%s never calls the operation %s of the C interface' % (f.where(), n))
        return
    if n in cs or 'pgroup' + n in cs or any(n in x or x in n for x in cs): ctx.count('own_name'); ctx.ok(); return
    ctx.viol('op:' + f.name, '%s forwards to %s' % (f.where(), '/'.join(sorted(c.callee for c, _ in mains))))

def typed(ctx, f, A, mains):
    s = stem(f.name)
    m = re.match(r'^(?:pgroup_)?(ll|[ilfdcsz])(gop|dot|add|scale?|fill|gemm)(_patch)?(_|$)', s)
    if not m: return
    I = set()
    for c in A.core():
        for o in c.ops:
            if not (isinstance(o, str) and o == c.x.get('c')): ints(A.full(o, c), I)
        ints(A.guards(c), I)
        for a, sx in f.cdeps[c.blk]:
            t = f.blocks[a][-1]
            if t.ops: ints(A.norm(A.cond(t.ops[0])), I)
    acc = accepted(f, A, mains)
    if acc is not None and acc[0] != set(CODES):
        ctx.count('types_accepted'); ctx.ok()
        want = {'i': {1001, 1002, 1016}, 'l': {1002}, 'll': {1016}, 'f': {1003}, 's': {1003}, 'd': {1004}, 'c': {1006}, 'z': {1007}}[m.group(1)]
        if acc[0] - want or not acc[0]: ctx.viol('accepts:' + f.name, '%s accepts arrays of element types %s' % (f.where(), sorted(acc[0]) or 'none'))
        hs = [n for n, x in enumerate(f.args) if re.match('^_?g_[a-z]$', x[0])]
        if len(acc[2]) < len(hs): ctx.viol('accepts:' + f.name, '%s does not ask for the type of every array' % f.where())
        elif acc[1]: ctx.viol('accepts:' + f.name, '%s accepts operands of different element types' % f.where())
    I = {x for x in I if 1000 <= x <= 1020}
    if not I: return
    ctx.count('typed_entry_points'); ctx.ok()
    if I - TYPE[m.group(1)]: ctx.viol('type:' + f.name, '%s uses element type code %s' % (f.where(), sorted(I - TYPE[m.group(1)])))

CODES = (1001, 1002, 1003, 1004, 1006, 1007, 1016)
def accepted(f, A, mains):
    """element types with which the operation is reached; None when the function does not ask"""
    asked = {}
    for c in A.calls_:
        if c.callee in ('pnga_inquire_type', 'pnga_inquire'): asked[A.addr(c.ops[1])[0]] = c
    if not asked: return None
    blk = {c.blk for c, _ in mains}
    def run(vals):
        def truth(o, env):
            i = f.V(f.strip(o)) if isinstance(o, int) else None
            if i is None: return {'c:0': False, 'c:1': True}.get(o)
            if i.op == 'phi' and i.id in env: return truth(env[i.id], env)
            if i.op == 'select':
                t = truth(i.ops[0], env)
                return None if t is None else truth(i.ops[1 if t else 2], env)
            if i.op != 'icmp': return None
            d = {}
            for sg, x in ((1, i.ops[0]), (-1, i.ops[1])):
                for m, k in A.term(x).items():
                    if len(m) == 1 and m[0][0] == 'e' and m[0][1] in vals: d = padd(d, {(): k * sg * vals[m[0][1]]})
                    else: d = padd(d, {m: k * sg})
            if set(d) - {()}: return None
            k = d.get((), 0); p = i.x['p'].lstrip('su')
            return {'eq': k == 0, 'ne': k != 0, 'gt': k > 0, 'ge': k >= 0, 'lt': k < 0, 'le': k <= 0}[p]
        seen = set(); work = [(0, None)]
        while work:
            b, fr = work.pop()
            if (b, fr) in seen: continue
            seen.add((b, fr))
            if b in blk: return True
            env = {i.id: i.ops[i.x['bs'].index(fr)] for i in f.blocks[b] if i.op == 'phi' and fr in i.x['bs']}
            if any(i.op == 'call' and i.callee in ERROR for i in f.blocks[b]): continue
            ss = f.succ[b]; t = f.blocks[b][-1]
            if t.op == 'br' and len(ss) == 2:
                k = truth(t.ops[0], env)
                if k is not None: ss = [ss[0 if k else 1]]
            elif t.op == 'switch':
                v = None
                q = {}
                for m, k in A.term(t.ops[0]).items():
                    if len(m) == 1 and m[0][0] == 'e' and m[0][1] in vals: q = padd(q, {(): k * vals[m[0][1]]})
                    else: q = padd(q, {m: k})
                if not set(q) - {()}: v = q.get((), 0)
                if v is not None:
                    ss = [next((x[1] for x in t.x['cs'] if int(str(x[0]).replace('c:', '')) == v), t.x['d'])]
            work += [(s, b) for s in ss]
        return False
    same = {T for T in CODES if run({a: T for a in asked})}
    mixed = set()
    for a in asked:
        for T in CODES:
            if len(asked) > 1 and any(run({b: (T if b == a else o) for b in asked}) for o in CODES if o != T): mixed.add((a, T))
    return same, mixed, {fz(A.term(c.ops[0])) for c in asked.values()}
def width(x):
    """the index width of the variant (4 or 8 bytes) made neutral"""
    return x
def variants(ctx, a):
    N = a.sums
    def cmp(n1, n2, why):
        (f, A, s), (g, Bq, t) = N[n1], N[n2]
        if len(f.args) != len(g.args): return
        ctx.count('variant_pairs'); ctx.ok()
        if s == t: return
        # one wrapper may be written in terms of another
        names = {n64((n, 0))[0] for n in N}
        if any(x[0] == 'call' and x[1] in names for x in s) != any(x[0] == 'call' and x[1] in names for x in t): ctx.count('variants_via_each_other'); return
        rest = list(t); left = []
        for x in s:
            y = next((y for y in rest if x == y), None)
            if y is None: left.append(x)
            else: rest.remove(y)
        for x in list(left):
            y = next((y for y in rest if narrow(x, y) or close(x, y)), None)
            if y is not None: left.remove(x); rest.remove(y)
        for x in left + rest:
            ctx.viol('variant:%s:%s' % tuple(sorted((n1, n2))), '%s and %s differ in %s (%s)' % (f.where(), g.where(), x[1] if x[0] == 'call' else {'out': 'the results returned', 'ret': 'the return value'}[x[0]], why)); return
    for n in sorted(N):
        if n.endswith('64') and n[:-2] in N: cmp(n, n[:-2], 'the same call with 64-bit indices')
        if n.startswith('NGA_') and 'GA_' + n[4:] in N: cmp(n, 'GA_' + n[4:], 'two names of one call')
        if n.startswith('nga_') and n[1:] in N and [x[0] for x in N[n][0].args] == [x[0] for x in N[n[1:]][0].args]: cmp(n, n[1:], 'two names of one call')
    ov = {}
    for n in N:
        m = re.match(r'^(_ZNK?2GA(?:\d+(?:GlobalArray|GAServices|PGroup))?)(\d+)(\w+)$', n)
        if m:
            k = int(m.group(2)); rest = m.group(3)[k:].replace('l', 'i').replace('x', 'i')
            if m.group(3)[:k] == 'gop': continue        # overloaded on the data type
            ov.setdefault((m.group(1), m.group(3)[:k], rest), []).append(n)
        m = re.match(r'^_ZN2GA11GlobalArrayC2E(\w+)$', n)
        if m: ov.setdefault(('C2', m.group(1).replace('l', 'i').replace('x', 'i')), []).append(n)
    for k, v in ov.items():
        for x in v[1:]: cmp(v[0], x, 'the same method with 64-bit indices')
def loose(p, q):
    if p[0] == 't' and q[0] == 'arr': p, q = q, p
    if p[0] != 'arr': return False
    if q[0] == 't': return params(p) == params(q)
    return (params(p) <= params(q) or params(q) <= params(p)) and bool(p[2] or q[2] or Conv(p[1]).odd or Conv(q[1]).odd)
def close(x, y):
    """equal, as far as arrays not filled by one plain copy can be told"""
    if x[0] != y[0] or len(x) != len(y): return False
    if x[0] == 'call':
        return x[1] == y[1] and x[2] == y[2] and all(p == q or loose(p, q) for p, q in zip(x[3:], y[3:]))
    if x[0] == 'out': return x[1] == y[1] and (Conv(x[2]).odd or Conv(y[2]).odd) and calls_in(x[2], set()) == calls_in(y[2], set())
    return False
def narrow(x, y):
    """arguments that name the width itself (4 and 8 bytes)"""
    if len(x) != len(y) or x[0] != 'call' or x[1] != y[1] or x[2] != y[2]: return False
    f4 = ('t', frozenset({((), 4)})); f8 = ('t', frozenset({((), 8)}))
    return all(p == q or {p, q} == {f4, f8} for p, q in zip(x[3:], y[3:]))
