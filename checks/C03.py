"""Accumulate: datatype -> wire operation -> server handler -> arithmetic kernel agree for every type, port and transfer form."""
from vlib.util import *
from vlib.sccp import SCCP, BOT
D = {37: ('int', 4, 'i32', 4), 38: ('double', 8, 'double', 8), 39: ('float', 4, 'float', 4),
     40: ('single complex', 8, 'float', 4), 41: ('double complex', 16, 'double', 8), 42: ('long', 8, 'i64', 8)}
MPIT = {37: 'ompi_mpi_int', 38: 'ompi_mpi_double', 39: 'ompi_mpi_float', 40: 'ompi_mpi_float', 41: 'ompi_mpi_double', 42: 'ompi_mpi_long'}
ARITH = {'i32': ('add', 'mul'), 'i64': ('add', 'mul'), 'float': ('fadd', 'fmul'), 'double': ('fadd', 'fmul')}
# GA element types (macdecls.h values are read from the C_* constants below) -> accumulate datatype
GATYPE = {1001: 37, 1002: 42, 1003: 39, 1004: 38, 1006: 40, 1007: 41}

def typed_args(f):
    """argument indices of f that are compared with (all) the six datatype constants"""
    out = {}
    for i in f.insts:
        if i.op == 'switch' and isinstance(f.strip(i.ops[0]), str) and f.strip(i.ops[0])[0] == 'a':
            out.setdefault(int(f.strip(i.ops[0])[1:]), set()).update(c[0] for c in i.x['cs'])
        elif i.op == 'icmp' and i.x['p'] in ('eq', 'ne'):
            a = f.strip(i.ops[0]); b = i.ops[1]
            if isinstance(a, str) and a[0] == 'a' and isinstance(b, str) and b.startswith('c:') and b != 'c:big':
                out.setdefault(int(a[1:]), set()).add(int(b[2:]))
    return [k for k, v in out.items() if len(v & set(D)) >= 4]

def op_field(f, o):
    return any(x.endswith('header_t.operation') for x in f.fields_of(o)[-1:])

def poly(f, o, leaf, depth=0):
    """value as a polynomial {sorted tuple of leaves: coeff} or None"""
    if depth > 20: return None
    i = f.V(o)
    if i is None:
        if isinstance(o, str) and o.startswith('c:'): return {(): int(o[2:])}
        if isinstance(o, str) and o.startswith('f:'): return {(): float(o[2:])}
        return None
    l = leaf(i)
    if l is not None: return {(l,): 1}
    if i.op in ('add', 'fadd', 'sub', 'fsub', 'mul', 'fmul'):
        a, b = poly(f, i.ops[0], leaf, depth + 1), poly(f, i.ops[1], leaf, depth + 1)
        if a is None or b is None: return None
        r = {}
        if i.op in ('add', 'fadd', 'sub', 'fsub'):
            s = -1 if 'sub' in i.op else 1
            for k, v in a.items(): r[k] = r.get(k, 0) + v
            for k, v in b.items(): r[k] = r.get(k, 0) + s * v
        else:
            for k, v in a.items():
                for k2, v2 in b.items():
                    kk = tuple(sorted(k + k2)); r[kk] = r.get(kk, 0) + v * v2
        return {k: v for k, v in r.items() if v}
    if i.op == 'fneg':
        a = poly(f, i.ops[0], leaf, depth + 1)
        return None if a is None else {k: -v for k, v in a.items()}
    if i.op == 'call' and (i.callee or '').startswith('llvm.fmuladd'):
        a, b, c = [poly(f, x, leaf, depth + 1) for x in i.ops[:3]]
        if None in (a, b, c): return None
        r = dict(c)
        for k, v in a.items():
            for k2, v2 in b.items():
                kk = tuple(sorted(k + k2)); r[kk] = r.get(kk, 0) + v * v2
        return {k: v for k, v in r.items() if v}
    if i.op in ('freeze', 'sext', 'zext'): return poly(f, i.ops[0], leaf, depth + 1)
    return None

def ptr_base(f, o, seen=None):
    """argument a pointer is derived from (through GEPs, phis and casts), and the struct component (0/1) it selects"""
    seen = seen or set(); comp = 0
    while True:
        i = f.V(o)
        if i is None:
            return (o, comp)
        if i.id in seen: return (None, comp)
        seen.add(i.id)
        if i.op == 'getelementptr':
            for g in i.x['gp']:
                if g[0] == 'f' and g[2] == 1: comp = 1
                if i.x.get('st') == 'i8' and g[0] != 'f' and g[1] in ('c:4', 'c:8'): comp = 1
            o = i.ops[0]; continue
        if i.op in ('bitcast', 'freeze'): o = i.ops[0]; continue
        if i.op == 'phi':
            for x in i.ops:
                r = ptr_base(f, x, seen)
                if r[0] is not None: return (r[0], comp or r[1])
            return (None, comp)
        return (o, comp)

def kernel(ctx, port, f):
    """_acc(op, bytes, dst, src, scale)"""
    if len(f.args) != 5: raise Broken('accumulate kernel changed its interface in ' + port)
    names = {'a2': 'dst', 'a3': 'src', 'a4': 'scale'}
    for d, (nm, size, el, esz) in D.items():
        r = SCCP(f, {0: d})
        stores = [i for i in r.live() if i.op == 'store']
        ld = lambda i: (names.get(ptr_base(f, i.ops[0])[0]), ptr_base(f, i.ops[0])[1]) if i.op == 'load' and ptr_base(f, i.ops[0])[0] in names else None
        cplx = d in (40, 41)
        want = {0: {(('dst', 0),): 1, tuple(sorted([('src', 0), ('scale', 0)])): 1}}
        if cplx:
            want = {0: {(('dst', 0),): 1, tuple(sorted([('src', 0), ('scale', 0)])): 1, tuple(sorted([('src', 1), ('scale', 1)])): -1},
                    1: {(('dst', 1),): 1, tuple(sorted([('src', 0), ('scale', 1)])): 1, tuple(sorted([('src', 1), ('scale', 0)])): 1}}
        got = {}
        for s in stores:
            b, c = ptr_base(f, s.ops[1])
            if names.get(b) != 'dst': continue
            if s.x['vt'] != el:
                ctx.viol('%s:kernel:%s:type' % (port, nm), 'for %s data the accumulate kernel stores %s elements at %s' % (nm, s.x['vt'], s.where()))
                continue
            got[c] = (poly(f, s.ops[0], ld), s)
        for i in r.live():
            if i.op == 'load' and ld(i) and i.ty != el:
                ctx.viol('%s:kernel:%s:ltype' % (port, nm), 'for %s data the accumulate kernel reads %s elements at %s' % (nm, i.ty, i.where()))
        for c, w in want.items():
            ctx.ok('%s kernel %s component %d = %s' % (port, nm, c, got.get(c, (None,))[0])); ctx.count('kernel_formulas')
            if c not in got: ctx.viol('%s:kernel:%s:missing' % (port, nm), 'accumulate kernel of %s does not update component %d for %s data' % (port, c, nm))
            elif got[c][0] != w:
                ctx.viol('%s:kernel:%s:formula' % (port, nm), 'for %s data the kernel does not compute dst + src*scale at %s (found %s)' % (nm, got[c][1].where(), got[c][0]))
        div = {r.const(i.ops[1]) for i in r.live() if i.op in ('udiv', 'sdiv') and f.strip(i.ops[0]) == 'a1'}
        div |= {1 << r.const(i.ops[1]) for i in r.live() if i.op in ('lshr', 'ashr') and f.strip(i.ops[0]) == 'a1' and r.const(i.ops[1]) is not None}
        if div and div != {size}:
            ctx.viol('%s:kernel:%s:count' % (port, nm), 'element count of %s data is computed with element size %s' % (nm, sorted(div)))

def opload(f, c):
    def g(i):
        return c if i.op == 'load' and op_field(f, i.ops[0]) else None
    return g

def scale_consts(f, r, base):
    """constant lengths/offsets applied to the scale bytes at the start of the payload `base`, or received for it"""
    s = set()
    for i in r.live():
        if i.op == 'getelementptr' and i.ops[0] == base and len(i.x['gp']) == 1:
            v = r.const(i.x['gp'][0][1]) if not isinstance(i.x['gp'][0][1], list) else None
            if v: s.add(v)
    return s

def run(ctx):
    ctx.rule('Partial evaluation of client routines, server dispatch, handlers and the arithmetic kernel for each of the six accumulate '
             'datatypes: the operation sent must be dispatched to exactly one handler which accepts it and applies the same datatype; the '
             'scale factor occupies that type\'s size on both sides; the kernel (as a polynomial over its loads) is dst + src*scale.')
    p = ctx.prog(['%s/comex' % x for x in ('ts', 'pr', 'mt', 'pt', 'mpi3')] + ['ga/onesided', 'ga/ghosts', 'ga/global.periodic', 'ga/sparse.array', 'ga/elem_alg', 'ga/hsort.scat'])
    for port in ('ts', 'pr', 'mt', 'pt'):
        m = p.mods[port + '/comex']
        k = m.fns.get('_acc')
        if k is None: raise Broken('anchor vanished: accumulate kernel in ' + m.path)
        kernel(ctx, port, k)
        # client side
        sent = {}       # op -> datatype
        for f in m.fns.values():
            if not f.kept or f is k: continue
            for a in typed_args(f):
                if f.name == '_scale': continue
                sends = False
                for d, (nm, size, el, esz) in D.items():
                    r = SCCP(f, {a: d})
                    ops = set()
                    for i in r.live():
                        if i.op == 'store' and op_field(f, i.ops[1]):
                            v = r.get(i.ops[0])
                            ops.add(v if v is not BOT else None)
                    if not ops: continue
                    sends = True
                    ctx.ok('%s %s(%s) sends op %s' % (port, f.name, nm, sorted(map(str, ops)))); ctx.count('client_mappings')
                    if len(ops) != 1 or None in ops:
                        ctx.viol('%s:%s:%s:op' % (port, f.name, nm), '%s does not send one definite operation for %s data (%s)' % (f.where(), nm, ops)); continue
                    o = ops.pop()
                    if sent.get(o, (d,))[0] != d:
                        ctx.viol('%s:%s:%s:dup' % (port, f.name, nm), '%s sends the same operation code for %s and %s data' % (f.where(), nm, D[sent[o][0]][0]))
                    sent[o] = (d, f)
                    # scale length
                    sc = [('a%d' % n) for n, x in enumerate(f.args) if x[0] == 'scale']
                    for i in r.live_calls():
                        if i.callee == '_acc' or p.target(i) is not None and typed_args(p.target(i)): continue
                        if not any(f.strip(x) in sc for x in i.ops if not isinstance(x, list)): continue
                        n = {r.const(x) for x in i.ops[:3] if not isinstance(x, list) and r.const(x) not in (None, 0)} - {None}
                        if not n: continue
                        ctx.ok(); ctx.count('client_scale_lengths')
                        if size not in n:
                            ctx.viol('%s:%s:%s:scale' % (port, f.name, nm), 'the %s scale factor is sent with length %s instead of %d at %s' % (nm, sorted(n), size, i.where()))
        # server side
        disp = [f for f in m.fns.values() if f.kept and any(i.op == 'switch' and f.V(i.ops[0]) is not None and f.V(i.ops[0]).op == 'load' and op_field(f, f.V(i.ops[0]).ops[0]) and len(i.x['cs']) > 10 for i in f.insts)
                and any('handler' in (i.callee or '') for i in f.insts if i.op == 'call')]
        if not disp: raise Broken('anchor vanished: request dispatch in ' + m.path)
        for o, (d, cf) in sorted(sent.items()):
            nm, size, el, esz = D[d]
            for s in disp:
                r = SCCP(s, loadc=opload(s, o))
                hs = []
                for i in r.live_calls():
                    t = p.target(i)
                    if t is not None and t.mod is m and any(x[0].endswith('header') for x in t.args) and any(True for _ in t.calls('_acc')): hs.append(t)
                ctx.ok(); ctx.count('server_mappings')
                if len(hs) != 1:
                    ctx.viol('%s:dispatch:%d' % (port, o), 'operation %d (accumulate of %s data sent by %s) is not dispatched to exactly one accumulate handler in %s (%s)' % (o, nm, cf.name, s.where(), [h.name for h in hs])); continue
                h = hs[0]
                rh = SCCP(h, loadc=opload(h, o))
                acc = list(rh.live_calls('_acc'))
                if not acc or not rh.returns():
                    ctx.viol('%s:handler:%s:%d' % (port, h.name, o), '%s rejects operation %d, which %s sends for %s data' % (h.where(), o, cf.name, nm)); continue
                for i in acc:
                    v = rh.get(i.ops[0])
                    if v != d:
                        ctx.viol('%s:handler:%s:%s' % (port, h.name, nm), '%s applies datatype %s to %s data at %s' % (h.name, v if v is not BOT else '?', nm, i.where()))
                    # scale pointer: the start of the payload or a received buffer of the right size
                    ctx.ok(); ctx.count('server_scale_lengths')
                    so = h.strip(i.ops[4]); si = h.V(so)
                    if isinstance(so, str):
                        offs = scale_consts(h, rh, so)
                        offs2 = {x for x in offs}
                        if offs and min(offs) != size:
                            ctx.viol('%s:handler:%s:%s:scale' % (port, h.name, nm), 'server skips %d bytes of scale factor for %s data, client sends %d (%s)' % (min(offs), nm, size, h.where()))
                    elif si is not None and si.op == 'call' and si.callee == 'malloc':
                        n = rh.get(si.ops[0])
                        rc = [rh.get(j.ops[1]) for j in rh.live_calls('server_recv', 'MPI_Recv') if h.strip(j.ops[0]) == so]
                        if n is not BOT and n < size or rc and any(x not in (size,) for x in rc):
                            ctx.viol('%s:handler:%s:%s:scale' % (port, h.name, nm), 'server receives a scale factor of %s bytes for %s data, client sends %d (%s)' % (rc, nm, size, h.where()))
    # mpi3: one-sided MPI accumulate
    m = p.mods['mpi3/comex']
    for f in m.fns.values():
        if not f.kept or f.name == '_acc': continue
        for a in typed_args(f):
            for d, (nm, size, el, esz) in D.items():
                r = SCCP(f, {a: d})
                ac = [i for i in r.live_calls() if re.match(r'MPI_(Ra|A)ccumulate$', i.callee)]
                if not ac and not any(re.match(r'MPI_(Ra|A)ccumulate$', i.callee) for i in f.calls()): continue
                ctx.count('mpi3_mappings'); ctx.ok('mpi3 %s(%s)' % (f.name, nm))
                scp = {'a%d' % n for n, x in enumerate(f.args) if x[0] == 'scale'}
                for i in r.live():
                    if i.op == 'load':
                        b = ptr_base(f, i.ops[0])[0]
                        if b in scp and i.ty != el:
                            ctx.viol('mpi3:%s:%s:scale' % (f.name, nm), 'the scale factor of %s data is read as %s at %s' % (nm, i.ty, i.where()))
                for i in ac:
                    if f.strip(r.resolve(i.ops[7])) != 'g:ompi_mpi_op_sum':
                        ctx.viol('mpi3:%s:%s:op' % (f.name, nm), 'accumulate does not use MPI_SUM at ' + i.where())
                    for x in (i.ops[2], i.ops[6]):
                        t = f.strip(r.resolve(x))
                        if isinstance(t, str) and t.startswith('g:ompi_mpi_') and t[2:] != MPIT[d]:
                            ctx.viol('mpi3:%s:%s:type' % (f.name, nm), '%s data is accumulated as %s at %s' % (nm, t[2:], i.where()))
                if ac:
                    mul = {i.ty for i in r.live() if i.op in ('fmul', 'mul') and i.ty in ('float', 'double')}
                    mul |= {i.ty for i in r.live() if i.op == 'call' and (i.callee or '').startswith('llvm.fmuladd')}
                    if (el in ('float', 'double')) and mul - {el}:
                        ctx.viol('mpi3:%s:%s:arith' % (f.name, nm), '%s data is scaled in %s arithmetic (%s)' % (nm, sorted(mul), f.where()))
    # GA element type -> accumulate datatype
    for f in p.all():
        if not f.mod.name.startswith('ga/') or not f.kept: continue
        calls = [i for i in f.insts if i.op == 'call' and re.match(r'^ARMCI_(NbAcc|Acc)[SV]?$', i.callee or '')]
        if not calls: continue
        tests = ga_type_tests(f)
        for t, d in GATYPE.items():
            r = SCCP(f, cmpc=lambda i: tests.get(i.id, {}).get(t), loadc=ga_type_load(f, t))
            for i in r.live_calls():
                if i not in calls: continue
                v = r.get(i.ops[0])
                if v is None: continue
                ctx.ok(); ctx.count('ga_mappings')
                if v is BOT: ctx.count('ga_mappings_unresolved'); continue
                if v != d:
                    ctx.viol('ga:%s:%d' % (f.name, t), 'an array of element type %d is accumulated with datatype %s instead of %d at %s' % (t, v, d, i.where()))
    ctx.need('kernel_formulas', 32); ctx.need('client_mappings', 50); ctx.need('server_mappings', 50); ctx.need('ga_mappings', 6); ctx.need('mpi3_mappings', 12)

def ga_type_load(f, t):
    def g(i):
        if f.fields_of(i.ops[0])[-1:] == ['global_array_t.type']: return t
        return None
    return g
def ga_type_tests(f):
    """icmp instructions testing a (non-constant-propagated) type value against a type constant"""
    out = {}
    for i in f.insts:
        if i.op == 'icmp' and i.x['p'] in ('eq', 'ne') and isinstance(i.ops[1], str) and re.match(r'c:10\d\d$', i.ops[1]):
            c = int(i.ops[1][2:])
            if 1000 <= c <= 1020: out[i.id] = {t: (t == c) == (i.x['p'] == 'eq') for t in range(1000, 1021)}
    return out
