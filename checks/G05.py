"""Element-wise operations: every element type gets the same formula, on elements of its own width."""
from vlib.kern import *
from vlib.util import *
UNITS = 'elem_alg global.npatch global.nalg matrix base global.util matmul select collect hsort.scat onesided ghosts nbutil sparse.array ga_symmetr ga_diag_seqc ga_solve_seq peigstubs'.split()
SIZE = {1001: 4, 1002: 8, 1003: 4, 1004: 8, 1006: 8, 1007: 16, 1016: 8}
STRUCT = {1006: '%struct.SingleComplex', 1007: '%struct.DoubleComplex'}
LET = {1001: 'i', 1002: 'l', 1003: 'f', 1004: 'd', 1006: 'c', 1007: 'z', 1016: 'll'}
GEMM = {1003: 's', 1004: 'd', 1006: 'c', 1007: 'z'}

TYPED = re.compile(r'^(armci_msg_(?:group_)?(i|l|ll|f|d)gop(_scope)?|(gal_|cblas_)?[sdcz](gemm|getrf|getrs|gemv|axpy|copy)_?)$')

def callname(c, t):
    """callee with its element-type letter replaced by '?' when it is the right one for t"""
    m = re.match(r'^(armci_msg_(?:group_)?)(i|l|ll|f|d)(gop(?:_scope)?)$', c)
    if m:
        want = {1006: 'f', 1007: 'd'}.get(t, LET[t])
        return m.group(1) + ('?' if m.group(2) == want else m.group(2)) + m.group(3)
    m = re.match(r'^((?:gal_|cblas_)?)([sdcz])(gemm|getrf|getrs|gemv|axpy|copy)(_?)$', c)
    if m: return m.group(1) + ('?' if m.group(2) == GEMM.get(t) else m.group(2)) + m.group(3) + m.group(4)
    return c

def loads(x, out):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'ld': out.add(x[1])
        for y in x: loads(y, out)
    elif isinstance(x, frozenset):
        for y in x: loads(y, out)
    return out

def widths(f, k):
    """{role: raw widths it is accessed with}"""
    W = {}
    for i in f.insts:
        if i.blk not in k.blocks or i.blk not in k.sc.blocks: continue
        if i.op == 'load' and i.ty != 'ptr': W.setdefault(k.role(i.ops[0])[0], set()).add(i.ty)
        if i.op == 'store' and i.x['vt'] != 'ptr': W.setdefault(k.role(i.ops[1])[0], set()).add(i.x['vt'])
    return W

def facts(f, t, k, own, inv=frozenset()):
    """inv: storage accessed with the same width whatever the type (indices, counters): conditions on it are not part of the formula"""
    S = set(); at = {}; ret = f.can_return()
    def data(c): return any(r in own and r not in inv and not local(r) for r in loads(c, set()))
    def guards(b):
        """element-dependent branches block b is directly control dependent on"""
        out = []; seen = set(); work = list(f.cdeps[b])
        for a, s in work:
            if a not in k.blocks or a not in k.sc.blocks: continue
            tm = f.blocks[a][-1]
            if len(f.succ[a]) != 2 or not tm.ops or (a, s) in seen: continue
            seen.add((a, s)); c = k.condof(tm.ops[0])
            if data(c): out.append((a, 0 if f.succ[a][0] == s else 1, c))
        return out
    def guarded(b, v, old, depth=0):
        g = guards(b)
        if len(g) == 1 and depth < 6:
            a, n, c = g[0]
            if a == b: return v
            v = k.sel(c, v, old) if n == 0 else k.sel(c, old, v)
            return guarded(a, v, old, depth + 1)
        if g: return k.atom(('any', frozenset((c, n) for a, n, c in g), frozenset(v.items())))
        for a, s in f.cdeps[b]:
            if a != b and a in k.blocks and f.dom[b] >> a & 1 and depth < 6: return guarded(a, v, old, depth + 1)
        return v
    pair = {}
    for i in f.insts:
        if i.op == 'store' and i.x['vt'] != 'ptr' and i.blk in k.blocks and i.blk in k.sc.blocks and ret[i.blk]:
            g = guards(i.blk)
            if len(g) == 1: pair.setdefault((g[0][0], k.role(i.ops[1])), []).append((g[0][1], i, g[0][2]))
    twin = {}
    for (a, r), l in pair.items():
        if len(l) == 2 and {l[0][0], l[1][0]} == {0, 1}:
            l.sort(key=lambda z: z[0])
            v = k.sel(l[0][2], k.poly(l[0][1].ops[0]), k.poly(l[1][1].ops[0]))
            for _, i, _ in l: twin[i.id] = (a, v)
    for b, blk in enumerate(f.blocks):
        tm = blk[-1]
        if b in k.blocks and b in k.sc.blocks and ret[b] and tm.op == 'br' and len(f.succ[b]) == 2:
            bad = [n for n, s in enumerate(f.succ[b]) if not ret[s] and (b, s) in k.sc.edges]
            if len(bad) == 1:
                c = k.condof(tm.ops[0])
                if data(c):
                    x = ('fatal', frozenset(k.sel(c, k.num(1), {}).items()) if bad[0] == 0 else frozenset(k.sel(c, {}, k.num(1)).items()))
                    S.add(x); at.setdefault(x, tm)
    def add(x, i): S.add(x); at.setdefault(x, i)
    wid = lambda v: 'E' if v == ELEM[t] or v == STRUCT.get(t) else v
    for i in f.insts:
        if i.blk not in k.blocks or i.blk not in k.sc.blocks or not ret[i.blk]: continue
        if i.op == 'store' and i.x['vt'] != 'ptr':
            r = k.role(i.ops[1]); old = k.atom(('ld',) + r)
            v = guarded(*twin[i.id], old) if i.id in twin else guarded(i.blk, k.poly(i.ops[0]), old)
            for u in unroll(frozenset(v.items()), r): add(('=', r, u), i)
        if i.op in ('load', 'store'):
            ty = i.ty if i.op == 'load' else i.x['vt']
            r = k.role(i.ops[0] if i.op == 'load' else i.ops[1])[0]
            if ty != 'ptr': add(('w', r, wid(ty)), i)
        if i.op == 'getelementptr' and i.x['gp'] and i.x['gp'][0][0] != 'f' and i.x.get('st') not in ('i8',):
            st = i.x.get('st')
            if st in ('float', 'double', 'i32', 'i64') or 'omplex' in (st or ''): add(('g', k.role(i.id)[0], 'C' if t in STRUCT and st == ELEM[t] else wid(st)), i)
        if i.op == 'call':
            c = i.callee or ''
            if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                n = k.sc.const(i.ops[2]) if not isinstance(i.ops[2], list) else None
                if n == SIZE[t] and not local(k.role(i.ops[0])[0]):
                    (r, x), (q, y) = k.role(i.ops[0]), k.role(i.ops[1])
                    add(('w', r, 'E'), i); add(('w', q, 'E'), i)
                    for c in range(NUM[t]): add(('=', (r, x + c), frozenset({((('ld', q, y + c),), 1)})), i)
                elif n is not None:
                    add(('=', k.role(i.ops[0]), frozenset({((('ld',) + k.role(i.ops[1]),), 1)}), 'E' if n == SIZE[t] else n), i)
            elif TYPED.match(c):
                n = k.P(i.ops[1]) if 'gop' in c and not isinstance(i.ops[1], list) else frozenset()
                add(('call', callname(c, t), n, tuple(mask(k.role(o)[0]) for o in i.ops if o is not i.callee and not isinstance(o, list) and (isinstance(o, int) and f.V(o).ty == 'ptr' or isinstance(o, str) and o[0] in 'ag')) if 'gop' not in c else ()), i)
    return S, at

GROUPS = ((1004, 1003, 1001, 1002, 1016), (1007, 1006))

def local(r): return isinstance(r, tuple) and r[0] in ('al', 'local')

def matches(x, raw, W):
    """is fact x (with raw type or size `raw`) present in W = {fact: raw}? widths agree as 'element of the type' or as the same fixed type"""
    if x in W: return True
    if x[0] != '=': return False
    k = 3
    return len(x) > k and any(y[0] == x[0] and len(y) > k and y[:k] == x[:k] and W[y] == raw for y in W)

def compare(ctx, f):
    K = kernels(f)
    if not K: return
    W = {t: widths(f, k) for t, k in K.items()}
    R0 = {t: facts(f, t, k, W[t]) for t, k in K.items()}
    sup = [t for t in R0 if any(x[0] in ('=', 'call', 'g') for x in R0[t][0])]
    if not sup: return
    ctx.count('functions')
    for grp in GROUPS:
        g = [t for t in grp if t in sup]
        if not g: continue
        inv = frozenset(r for r in set().union(*(W[t] for t in g)) if len({frozenset(W[t][r]) for t in g if r in W[t]}) == 1 and sum(r in W[t] for t in g) > 1)
        R = {t: facts(f, t, K[t], W[t], inv) for t in g}
        al = {t: set() for t in sup}
        for t in sup:
            for x in (R if t in R else R0)[t][0]:
                if x[0] in ('=', 'fatal'): locals_in(x, al[t])
        C = {}; O = {}
        for t in g:
            own = O[t] = {a for a in al[t] if not all(a in al[u] for u in sup)}
            cc = canon_map({x for x in R[t][0] if x[0] in ('=', 'fatal')}, own)
            C[t] = {}
            shared = set.intersection(*(K[u].blocks & set(K[u].sc.blocks) for u in g)) if len(g) > 1 else set()
            for x, i in R[t][1].items():
                C[t].setdefault(cc.get(x, x), (i, raw(i, K[t].sc), x[0] in ('w', 'g') and i.blk in shared))
        # elements are the objects accessed with the type's own width in the reference arm
        typed = {x[1] for x in C[g[0]] if x[0] in ('w', 'g') and x[2] in ('E', 'C') and not (local(x[1]) and x[1] in O[g[0]]) and x[1] not in inv}
        V = {t: {x: i for x, i in C[t].items() if x[0] in ('=', 'call', 'fatal') or x[1] in typed} for t in g}
        ctx.ok('%s: %s: %d facts' % (f.where(), '/'.join(TY[t] for t in g), len(V[g[0]])), n=len(g)); ctx.count('type_arms', len(g)); ctx.count('facts', sum(map(len, V.values())))
        yield f, g, V

def raw(i, sc=None):
    if i.op == 'call': return sc.const(i.ops[2]) if (i.callee or '').startswith('llvm.mem') else None
    return i.ty if i.op == 'load' else i.x.get('vt') if i.op == 'store' else i.x.get('st')

def show(x, d=0):
    """short readable form of a role/polynomial"""
    if isinstance(x, frozenset):
        if not all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) for y in x): return '{' + ', '.join(sorted(show(y, d + 1) for y in x)) + '}'
        r = []
        for m, c in sorted(x, key=repr):
            t = '*'.join(show(y, d + 1) for y in m) or '1'
            r.append(t if c == 1 else '-' + t if c == -1 else '%s*%s' % (c, t) if m else str(c))
        return ' + '.join(r) or '0'
    if isinstance(x, tuple):
        if not x: return '()'
        if x[0] == 'ld': return 'elem[' + ','.join(show(y, d + 1) for y in x[1:]) + ']'
        if x[0] == '*': return '*' + show(x[1], d + 1)
        if x[0] in ('al', 'local'): return 'local'
        return '%s(%s)' % (x[0] if isinstance(x[0], str) else show(x[0], d + 1), ', '.join(show(y, d + 1) for y in x[1:]))
    return str(x)

def describe(x):
    if x[0] == '=': return 'stores ' + show(x[2])[:160] + (' (%s bytes)' % x[3] if len(x) > 3 and x[3] != 'E' else '')
    if x[0] == 'w': return 'accesses %s as %s' % (show(x[1]), {'E': 'one element'}.get(x[2], x[2]))
    if x[0] == 'g': return 'steps over %s in units of %s' % (show(x[1]), {'E': 'one element', 'C': 'one component'}.get(x[2], x[2]))
    if x[0] == 'fatal': return 'aborts when ' + show(x[1])[:160]
    return 'calls ' + x[1].replace('?', '<type>') + (' on %s values' % show(x[2]) if x[2] else '')

FT = {1010: ('INT_MB', 8), 1012: ('FLT_MB', 4), 1013: ('DBL_MB', 8), 1014: ('SCPL_MB', 8), 1015: ('DCPL_MB', 16)}
CT = {1001: ('INT_MB', 8), 1002: ('INT_MB', 8), 1003: ('FLT_MB', 4), 1004: ('DBL_MB', 8), 1006: ('SCPL_MB', 8), 1007: ('DCPL_MB', 16)}

def typed_bases(ctx, f):
    """(b) an index handed to Fortran is the distance from the base array of the array's own type, in elements of that type"""
    if not any('_MB' in repr(i.ops) for i in f.insts if i.op == 'load'): return
    src = type_sources(f)
    if not src: return
    ret = f.can_return()
    fx = any(i.op == 'switch' and any(v in (1012, 1013) for v, _ in i.x['cs']) for i in f.insts)
    for t, (base, sz) in (FT if fx else CT).items():
        sc = special(f, t, src)
        live = {t2: set(special(f, t2, src).blocks) for t2 in (FT if fx else CT)}
        mine = set(sc.blocks) - set.intersection(*live.values())
        k = Kernel(f, t, sc, mine)
        for i in f.insts:
            if i.blk not in mine or not ret[i.blk]: continue
            if i.op == 'load' and isinstance(i.ops[0], str) and re.match(r'g:(INT|FLT|DBL|SCPL|DCPL)_MB$', i.ops[0]):
                ctx.ok('%s: base of type %d' % (i.where(), t)); ctx.count('typed_bases')
                if i.ops[0] != 'g:' + base: ctx.viol('%s:%d:base' % (f.name, t), '%s measures an element of type %d from %s instead of %s' % (i.where(), t, i.ops[0][2:], base))
            if i.op == 'store' and i.x['vt'] != 'ptr':
                for m, c in k.P(i.ops[1 - 1]):
                    for a in m:
                        if isinstance(a, tuple) and a[0] == 'div' and '_MB' in repr(a[1]):
                            d = dict(a[2]).get(())
                            ctx.ok('%s: unit of type %d' % (i.where(), t)); ctx.count('typed_units')
                            if d != sz: ctx.viol('%s:%d:unit' % (f.name, t), '%s converts a byte distance to an index of type %d by dividing by %s, elements have %d bytes' % (i.where(), t, d, sz))

ACC = {1001: 37, 1002: 42, 1003: 39, 1004: 38, 1006: 40, 1007: 41}
GOP = {1001: -99, 1002: -101, 1016: -102, 1003: -306, 1004: -307, 1006: -306, 1007: -307}
RMW = {1001: 12, 1002: 13, 1016: 13}
NUM = {t: 2 if t in STRUCT else 1 for t in TY}
# (callee, argument): the table its type-dependent constant must follow
ARGS = ((r'^ARMCI_(Nb)?Acc', 0, ACC, 'accumulate operation'), (r'^armci_msg_(group_)?gop_scope$', 4, GOP, 'reduction type'), (r'^armci_msg_(group_)?gop_scope$', 2, NUM, 'number of reals per element'), (r'^ARMCI_Rmw$', 0, RMW, 'read-modify-write operation'), (r'^GAsizeof$', 0, {t: t for t in TY}, 'type'))

def codes(ctx, f):
    """(c) the constants by which an element type is named to the layer below"""
    K = None
    for i in f.insts:
        if i.op == 'call' and i.callee:
            for rx, n, tab, what in ARGS:
                if not re.match(rx, i.callee) or isinstance(i.ops[n], list): continue
                K = K or kernels(f)
                cs = {t: k.sc.const(i.ops[n]) for t, k in K.items() if i.blk in k.sc.blocks}
                cs = {t: c for t, c in cs.items() if isinstance(c, int)}
                if not cs or len(set(cs.values())) < 2 and (tab not in (ACC, RMW) or not any(i.blk in k.blocks for k in K.values()) and tab is RMW): continue
                for t, c in cs.items():
                    ctx.ok('%s: %s for %s' % (i.where(), what, TY[t])); ctx.count('type_codes')
                    if t in tab and c != tab[t]: ctx.viol('%s:%s:%s' % (f.name, TY[t], i.callee), '%s passes %s with %s %s for elements of type %s (must be %s)' % (i.where(), i.callee, what, c, TY[t], tab[t]))
                for t in set(tab) - set(cs) - {1016}: ctx.viol('%s:%s:%s' % (f.name, TY[t], i.callee), '%s: no %s for elements of type %s' % (i.where(), what, TY[t]))
        # sizes: a value that is the element size for most types must be it for all
        if i.op in ('phi', 'select') and i.ty and i.ty.startswith('i') and sum(str(o) in ('c:4', 'c:8', 'c:16') for o in i.ops) >= 2:
            K = K or kernels(f)
            cs = {t: k.sc.const(i.id) for t, k in K.items() if i.blk in k.sc.blocks}
            cs = {t: c for t, c in cs.items() if isinstance(c, int) and c in (1, 2, 4, 8, 16)}
            if len(set(cs.values())) < 2 or sum(c == SIZE[t] for t, c in cs.items()) < 3: continue
            for t, c in cs.items():
                ctx.ok('%s: size of %s' % (i.where(), TY[t])); ctx.count('type_sizes')
                if c != SIZE[t]: ctx.viol('%s:%s:size' % (f.name, TY[t]), '%s: the size used for elements of type %s is %s' % (i.where(), TY[t], c))

def run(ctx):
    ctx.rule('(a) In every function of the array library that dispatches on the element type, the code reached for int, long, long long, float and double - and for single and double complex - is specialised by constant propagation of the type and reduced to facts: each value stored as a polynomial over element loads (max, min, abs, selections recognised; casts, temporaries, statement order and loop form ignored), each access and pointer step on element storage with its width, each call to a typed kernel (reductions, BLAS). The facts must be the same for all the types, element widths being the type\'s own')
    ctx.rule('(b) An index handed to Fortran is measured from the base array of the array\'s own type, in elements of that type')
    ctx.rule('(c) The constants naming an element type to the layers below - accumulate operation, reduction type and component count, read-modify-write operation, element size - are the ones of the array\'s type')
    ctx.assume('long long may be unsupported by an operation (no arm at all); every other type that has an arm anywhere in a function must have it everywhere the sibling types do')
    ctx.assume('index expressions are not compared, only which storage is read and written and what is computed')
    p = ctx.prog(['ga/' + u for u in UNITS])
    for f in p.all():
        typed_bases(ctx, f); codes(ctx, f)
        for f, g, V in compare(ctx, f) or ():
            for t in g[1:]:
                if t == 1016 and not any(x[0] in ('=', 'call') for x in V[t]): continue
                diff = []
                for a, b in ((g[0], t), (t, g[0])):
                    W = {x: z[1] for x, z in V[b].items()}
                    for x in sorted(V[a], key=repr):
                        if '_MB' in repr(x) or V[a][x][2]: continue
                        if x[0] in ('w', 'g') and local(x[1]) and {g[0], t} & {1001, 1002, 1016}: continue  # a local of integer type may count anything
                        if not matches(x, V[a][x][1], W): diff.append('for %s only, %s %s' % (TY[a], V[a][x][0].where(), describe(x)))
                if diff: ctx.viol('%s:%s' % (f.name, TY[t]), '%s: the %s and %s code differ: %s' % (f.where(), TY[g[0]], TY[t], '; '.join(diff[:4]) + (' (+%d more)' % (len(diff) - 4) if len(diff) > 4 else '')))
    for k, n in (('functions', 40), ('type_arms', 250), ('facts', 1800), ('typed_bases', 15), ('typed_units', 8), ('type_codes', 60), ('type_sizes', 10)): ctx.need(k, n)
