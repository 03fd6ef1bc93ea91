"""Read-modify-write: the old value is returned and the new one stored, at the right width, in one server-side step."""
from vlib.comexlib import *
from vlib.sccp import SCCP, BOT
from vlib.flow import Flow
OPS = {10: ('swap', 4), 11: ('swap', 8), 12: ('add', 4), 13: ('add', 8)}

def root_name(f, o, depth=6):
    """region classification: target memory / payload / heap object at constant offset / local"""
    o = f.strip(o)
    k = repr(f.akey(o))
    r, path = f.addr(o)
    off = 0
    for x in path:
        if isinstance(x, tuple):
            if isinstance(x[1], str) and x[1].startswith('c:'): off += int(x[1][2:])
            else: off = None; break
    if 'header_t.remote_address' in k: return 'TARGET'
    if r[0] == 'a': return ('arg', r[1], off)
    if r[0] == 'v':
        i = f.insts[r[1]]
        if i.op == 'call' and i.callee in ('malloc', '_my_malloc', 'calloc'): return ('heap', i.id, off)
        if i.op == 'phi' and depth:
            rs = {root_name(f, x, depth - 1) for x in i.ops if x not in ('n', 'u')}
            if len(rs) == 1: return rs.pop()
            return ('phi', i.id, off)
    if r[0] == 'al': return ('local', r[1], off)
    if r[0] == 'ld': return ('ld', repr(f.akey(f.insts[r[1]].ops[0])), off)
    return None

def width(f, i):
    ty = i.ty if i.op == 'load' else i.x.get('ty') or i.x.get('vt')
    return {'i32': 4, 'i64': 8}.get(ty)

def handler(ctx, port, f, kind, reply, ridx, push=False):
    hdrs = {f.addr(i.ops[0] if i.op == 'load' else i.ops[1])[0][1] for i in f.insts if i.op in ('load', 'store')
            and (f.leaf(i) or '').startswith('header_t.') and f.addr(i.ops[0] if i.op == 'load' else i.ops[1])[0][0] == 'a'}
    for w in (4, 8):
        def loadc(i):
            l = f.leaf(i)
            if l == 'header_t.length': return w
            return None
        sc = SCCP(f, loadc=loadc)
        if not sc.returns(): ctx.viol('%s:%s:%d' % (port, f.name, w), 'no path serves width %d' % w); continue
        def region(fn, o):
            r = root_name(fn, o)
            if isinstance(r, tuple) and r[0] == 'phi':   # resolve through the specialised phi
                r = root_name(fn, sc.resolve(fn.addr(o)[0][1]) if fn.addr(o)[0][0] == 'v' else o)
            if r is None: return None
            if isinstance(r, tuple) and r[0] == 'arg' and r[1] in hdrs: return None
            if isinstance(r, tuple) and r[0] == 'arg': return ('payload',)
            return r
        st = {'sent': 0}
        def on(i, get, ev):
            if i.op == 'call' and i.callee in ('server_recv',): st['rx'] = region(f, i.ops[0])
            if i.op == 'call' and i.callee == reply:
                st['sent'] += 1
                base = i.ops[ridx]
                r = region(f, base)
                if push:
                    # header-carrying message: the value sits behind the header
                    r = None
                    for x in cand: 
                        if x[0] == 'heap' and x[2]: r = x
                v = get(r) if r is not None else None
                ctx.ok('%s %s width %d reply' % (port, i.where(), w)); ctx.count('replies')
                if v != ('in', 'TARGET'):
                    ctx.viol('%s:%s:%d:reply' % (port, f.name, w), 'width %d: the reply sent at %s is not the value the target held before the update (it is %s)' % (w, i.where(), v))
                if not push:
                    n = sc.get(i.ops[1])
                    if n is not BOT and n is not None and n != w: ctx.viol('%s:%s:%d:len' % (port, f.name, w), 'the reply at %s carries %s bytes for a %d-byte operand' % (i.where(), n, w))
            if ev and ev[0] == 'store':
                if isinstance(ev[1], tuple): cand.append(ev[1])
                if ev[1] == 'TARGET':
                    if i.op == 'store':
                        t = i.x.get('ty') or i.x.get('vt')
            if i.op == 'ret':
                v = get('TARGET')
                pay = [('in', ('payload',))]
                if st.get('rx'): pay.append(('in', st['rx']))
                want = [('add',) + tuple(sorted((('in', 'TARGET'), q), key=repr)) for q in pay] if kind == 'add' else pay
                ctx.ok('%s %s width %d final value' % (port, f.where(), w)); ctx.count('finals')
                if v not in want:
                    ctx.viol('%s:%s:%d:value' % (port, f.name, w), 'width %d: the target is left holding %s instead of %s' % (w, v, 'old + operand' if kind == 'add' else 'the operand'))
        cand = []
        Flow(f, sc, region).run(on)
        if st['sent'] == 0: ctx.viol('%s:%s:%d:none' % (port, f.name, w), 'no reply is sent for width %d' % w)
        # all live accesses of the target and payload have the operand's width
        for i in sc.live():
            if i.op in ('load', 'store') and region(f, i.ops[0] if i.op == 'load' else i.ops[1]) in ('TARGET', ('payload',)):
                ww = {'i32': 4, 'i64': 8}.get(i.ty if i.op == 'load' else store_ty(f, i))
                ctx.count('widths')
                if ww is not None and ww != w: ctx.viol('%s:%s:%d:width' % (port, f.name, w), '%d-byte access at %s while serving a %d-byte operand' % (ww, i.where(), w))

def store_ty(f, i):
    return i.x.get('ty') or i.x.get('vt') or (f.V(i.ops[0]).ty if f.V(i.ops[0]) is not None else None)

def client(ctx, port, m, opmap):
    f = m.fns.get('comex_rmw')
    if f is None: raise Broken('anchor vanished: comex_rmw in ' + m.path)
    on_ = opnames(m)
    for op, (kind, w) in OPS.items():
        sc = SCCP(f, argc={0: op})
        if not sc.returns(): ctx.viol('%s:rmw:%d' % (port, op), 'operation %d is rejected' % op); continue
        ctx.ok('%s comex_rmw op %s width %d' % (port, kind, w)); ctx.count('client_ops')
        widths(ctx, port, op, kind, w, f, sc)
        hop, hlen = set(), set()
        for i in sc.live():
            if i.op == 'store':
                l = f.leaf(i)
                if l == 'header_t.operation': hop.add(sc.get(i.ops[0]))
                if l == 'header_t.length': hlen.add(sc.get(i.ops[0]))
        want = opmap[kind]
        if {on_.get(x) for x in hop} != {want}: ctx.viol('%s:rmw:%d:op' % (port, op), '%s/%d bytes is sent as operation %s' % (kind, w, [on_.get(x, '?') for x in hop]))
        if hlen != {w}: ctx.viol('%s:rmw:%d:len' % (port, op), '%s/%d bytes is sent with operand length %s' % (kind, w, hlen))
        for i in sc.live_calls('nb_recv'):
            if sc.get(i.ops[1]) != w or f.strip(i.ops[0]) != 'a1': ctx.viol('%s:rmw:%d:recv' % (port, op), 'the old value is not received as %d bytes into the caller\'s location at %s' % (w, i.where()))
        # operand: extra for add, *ploc for swap
        src = []
        def region(fn, o):
            r = root_name(fn, sc.resolve(fn.strip(o)) if isinstance(fn.strip(o), int) else o)
            if isinstance(r, tuple) and r[0] == 'arg' and r[1] == 1: return ('ploc',)
            return r if isinstance(r, tuple) and r[0] in ('heap', 'local') else None
        fin = {}
        def on(i, get, ev):
            if ev and ev[0] == 'store': fin[ev[1]] = ev[2]
            if i.op == 'call' and i.callee in ('nb_send_header', '_mq_push'):
                fin['sent'] = dict((k, v) for k, v in fin.items() if isinstance(k, tuple))
        Flow(f, sc, region).run(on)
        vals = [v for k, v in fin.get('sent', {}).items()]
        want = ('arg', 3) if kind == 'add' else ('in', ('ploc',))
        ctx.count('operands')
        if want not in vals: ctx.viol('%s:rmw:%d:operand' % (port, op), 'the operand of %s/%d is not %s' % (kind, w, 'the increment' if kind == 'add' else 'the caller\'s value'))

BY = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
def widths(ctx, port, op, kind, w, f, sc):
    """the caller's location is only read or written at the operand width"""
    for i in sc.live():
        if i.op in ('load', 'store') and f.addr(i.ops[0] if i.op == 'load' else i.ops[1])[0] == ('a', 1):
            ctx.ok('%s rmw %d caller access' % (port, op)); ctx.count('caller_accesses')
            b = BY.get(i.ty if i.op == 'load' else i.x.get('vt'), 0)
            if b != w: ctx.viol('%s:rmw:%d:caller-width' % (port, op), 'the caller\'s %d-byte value is accessed as %d bytes at %s' % (w, b, i.where()))
        elif i.op == 'call' and i.callee and (i.callee.startswith(('llvm.memcpy', 'llvm.memmove')) or i.callee in ('_my_memcpy', 'memcpy')) and any(f.addr(o)[0] == ('a', 1) for o in i.ops[:2]):
            ctx.ok('%s rmw %d caller copy' % (port, op)); ctx.count('caller_accesses')
            if sc.get(i.ops[2]) != w: ctx.viol('%s:rmw:%d:caller-width' % (port, op), 'the caller\'s %d-byte value is not copied as %d bytes at %s' % (w, w, i.where()))

def run(ctx):
    ctx.rule('For each fetch-and-add / swap operation code and operand width (4, 8): by constant specialisation and value flow, the request '
             'carries the right operation, width and operand; the (single) server handler replies with the value the target held before its '
             'update and leaves old+operand (resp. the operand) there, all accesses at that width; the old value is received in the caller\'s '
             'location. In mpi3 exactly one MPI_Fetch_and_op of matching type and operator followed by a flush. GA maps the element type to the matching width.')
    p = ctx.prog(['pr/comex', 'pt/comex', 'mt/comex', 'ts/comex', 'mpi3/comex'])
    for port in ('pr', 'pt', 'mt'):
        m = p.mods[port + '/comex']
        client(ctx, port, m, {'add': 'OP_FETCH_AND_ADD', 'swap': 'OP_SWAP'})
        for nm, kind in (('_fetch_and_add_handler', 'add'), ('_swap_handler', 'swap')):
            f = m.fns.get(nm)
            if f is None: raise Broken('anchor vanished: %s in %s' % (nm, m.path))
            handler(ctx, port, f, kind, 'server_send', 0)
    m = p.mods['ts/comex']
    client(ctx, 'ts', m, {'add': 'OP_FETCH_AND_ADD_REQUEST', 'swap': 'OP_SWAP_REQUEST'})
    for nm, kind in (('_fetch_and_add_request_handler', 'add'), ('_swap_request_handler', 'swap')):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: %s in %s' % (nm, m.path))
        handler(ctx, 'ts', f, kind, '_mq_push', 1, push=True)
    m = p.mods['mpi3/comex']
    f = m.fns.get('comex_rmw')
    if f is None: raise Broken('anchor vanished: comex_rmw in mpi3')
    for op, (kind, w) in OPS.items():
        sc = SCCP(f, argc={0: op})
        cs = [i for i in sc.live_calls() if i.callee in ('MPI_Fetch_and_op', 'MPI_Get_accumulate', 'MPI_Compare_and_swap', 'MPI_Put', 'MPI_Get', 'MPI_Accumulate')]
        ctx.ok('mpi3 op %s width %d' % (kind, w)); ctx.count('client_ops')
        if len(cs) != 1 or cs[0].callee != 'MPI_Fetch_and_op':
            ctx.viol('mpi3:rmw:%d' % op, 'not performed by exactly one atomic fetch-and-op: %s' % [i.callee for i in cs]); continue
        c = cs[0]
        if 'ompi_mpi_' + ('int' if w == 4 else 'long') not in str(c.ops[2]): ctx.viol('mpi3:rmw:%d:type' % op, 'element type %s for a %d-byte operand at %s' % (c.ops[2], w, c.where()))
        if ('sum' if kind == 'add' else 'replace') not in str(c.ops[5]): ctx.viol('mpi3:rmw:%d:op' % op, 'operator %s for %s at %s' % (c.ops[5], kind, c.where()))
        if f.strip(c.ops[1]) != 'a1': ctx.viol('mpi3:rmw:%d:result' % op, 'the old value is not returned in the caller\'s location at ' + c.where())
        widths(ctx, 'mpi3', op, kind, w, f, sc)
        r = f.addr(c.ops[0])[0]
        if r != ('a', 1) or kind == 'add':
            st = [i for i in sc.live() if i.op == 'store' and f.addr(i.ops[1])[0] == r and f.inst_reaches(i, c)]
            for i in st:
                v = f.V(f.strip(i.ops[0]))
                good = (v is not None and v.op == 'load' and f.addr(v.ops[0])[0] == ('a', 1)) if kind == 'swap' else f.strip(i.ops[0]) == 'a3'
                if not good or BY.get(i.x.get('vt')) != w: ctx.viol('mpi3:rmw:%d:operand' % op, 'the operand stored at %s is not the %s at %d bytes' % (i.where(), 'increment' if kind == 'add' else 'caller\'s value', w))
            if not st: ctx.viol('mpi3:rmw:%d:operand' % op, 'the operand at %s is not set' % c.where())
        fl = [i for i in sc.live_calls('MPI_Win_flush', 'MPI_Win_unlock') if f.inst_reaches(c, i)]
        if not fl: ctx.viol('mpi3:rmw:%d:flush' % op, 'returns before the operation completes at ' + c.where())
    # GA: read_inc chooses the width from the element type, and the returned value from the same variable
    q = ctx.prog(['ga/onesided'])
    g = q.need('pnga_read_inc')
    for ty, op in ((1001, 12), (1002, 13)):
        def cmpc(i):
            for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                if isinstance(b, str) and b.startswith('c:') and b != 'c:big' and 1000 <= int(b[2:]) <= 1020:
                    if i.x['p'] == 'eq': return int(b[2:]) == ty
                    if i.x['p'] == 'ne': return int(b[2:]) != ty
            return None
        sc = SCCP(g, cmpc=cmpc)
        for i in sc.live_calls('ARMCI_Rmw', 'PARMCI_Rmw'):
            ctx.ok('read_inc type %d' % ty); ctx.count('ga_read_inc')
            v = sc.get(i.ops[0])
            if v != op: ctx.viol('ga:read_inc:%d' % ty, 'element type %d is updated with operation %s at %s' % (ty, v, i.where()))
            # the increment must keep the operand's width on its way down
            o = sc.resolve(i.ops[3])
            w = {'i32': 4, 'i64': 8}.get(g.V(o).ty if g.V(o) is not None else (g.args[int(o[1:])][1] if isinstance(o, str) and o[0] == 'a' else None), 8)
            if OPS[op][1] > w: ctx.viol('ga:read_inc:increment-width:%d' % ty, 'the increment of a %d-byte element is narrowed to %d bytes before it is added, at %s' % (OPS[op][1], w, i.where()))
            buf = g.addr(sc.resolve(i.ops[1]))[0]
            for r in sc.live():
                if r.op == 'ret':
                    x = g.V(g.strip(sc.resolve(g.strip(r.ops[0]))))
                    if x is None or x.op != 'load' or g.addr(x.ops[0])[0] != buf: ctx.viol('ga:read_inc:%d:ret' % ty, 'the value returned is not the one fetched (line %d)' % r.line)
                    elif {'i32': 4, 'i64': 8}.get(x.ty) != OPS[op][1]: ctx.viol('ga:read_inc:%d:width' % ty, 'the fetched %d-byte value is read back as %s' % (OPS[op][1], x.ty))
    a = ctx.prog(['armci/armci'])
    f = a.need('PARMCI_Rmw')
    for c in f.calls('comex_rmw'):
        ctx.count('forward')
        if [f.strip(o) for o in c.ops[:5]] != ['a0', 'a1', 'a2', 'a3', 'a4'] or c.ops[5] != 'c:0': ctx.viol('armci:rmw', 'arguments are not forwarded unchanged at ' + c.where())
    ctx.need('client_ops', 20); ctx.need('replies', 16); ctx.need('finals', 16); ctx.need('ga_read_inc', 2); ctx.need('operands', 16); ctx.need('forward', 1)
    ctx.assume('One server (or one progress engine) serves each owner and handles messages one at a time, so a handler body is indivisible; MPI_Fetch_and_op is atomic.')
