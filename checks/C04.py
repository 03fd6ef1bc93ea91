"""Fence/barrier: every update sent to another process is tracked, and a fence or barrier does not complete before it is acknowledged."""
from vlib.comexlib import *
MOD = ('OP_PUT', 'OP_ACC')
WAITS = {'nb_wait_for_all', 'nb_wait_all'}

def fence_store(f, i):
    """(index key, value) for a store to the fence table"""
    if i.op != 'store': return None
    g = gaddr(f, i.ops[1], 'fence_array')
    if g is None or g[0] is None: return None
    v = i.ops[0]
    return repr(f.key(g[0])), (v if v in ('c:0',) else 'set')

def is_flag_test(f, cond, truth):
    """condition tests a fence flag: (index key, flag set on this edge)"""
    r = null_test(f, cond, truth)
    if r is None: return None
    g = gload(f, r[0], 'fence_array')
    return (repr(f.key(g[0])), r[1]) if g and g[0] is not None else None

def counts_flags(f, phi):
    """phi is a counter that is 0 initially and incremented only under fence-flag tests (any nest of phis/selects)"""
    seen, st, zero, inc = set(), [phi], False, False
    while st:
        o = st.pop()
        i = f.V(o)
        if i is None:
            if o == 'c:0': zero = True; continue
            return False
        if i.id in seen: continue
        seen.add(i.id)
        if i.op == 'phi': st.extend(i.ops)
        elif i.op == 'select': st.extend(i.ops[1:])
        elif i.op == 'add':
            a, b = i.ops
            if b == 'c:1': inc = True; st.append(a)
            else:
                j = f.V(f.strip(b))
                if j is not None and j.op == 'icmp' and is_flag_test(f, j.id, True): inc = True; st.append(a)
                else: return False
            continue
        elif i.op in ('zext', 'sext', 'freeze', 'trunc'): st.append(i.ops[0])
        else: return False
    return zero and inc

def check_sends(ctx, port, m):
    on = opnames(m)
    for f in m.fns.values():
        if not f.kept: continue
        hs = [(c, o) for c, o in header_sends(f) if o != ()]
        mod = {c.id for c, o in hs if o is None or any(on.get(x, 'OP_PUT').startswith(MOD) for x in o)}
        if not mod: continue
        ctx.count('update_senders')
        def step(i, s):
            sets, sent = s
            if i.id in mod:
                ctx.ok('%s %s update message' % (port, i.where()))
                ctx.count('update_sends')
                k = repr(f.key(i.ops[2]))
                return (sets, sent | {(k, i.id)})
            fs = fence_store(f, i)
            if fs:
                return (sets | {fs[0]}, sent) if fs[1] == 'set' else (sets - {fs[0]}, sent)
            if i.op == 'call' and i.callee in ('_fence_master', 'comex_fence_all', 'comex_fence_proc'): return (sets, sent)
            if i.op == 'ret':
                for k, c in sent:
                    if k not in sets:
                        ctx.viol('%s:%s:untracked' % (port, f.name), 'an update is sent at %s but a path to the return at line %d leaves the fence flag of its destination unset' % (f.insts[c].where(), i.line))
            return s
        explore(f, (frozenset(), frozenset()), step)

def check_fencer(ctx, port, m, f, sends, acks, waiter):
    """f sends fence requests (calls in `sends`)."""
    ctx.count('fencers')
    ids = {c.id for c in sends}
    # (a) flags are cleared / function returns only after the acknowledgements
    def step(i, s):
        if i.id in ids:
            ctx.ok('%s %s fence request' % (port, i.where())); ctx.count('fence_requests')
            return 'out'
        if waiter(i): return 'idle'
        fs = fence_store(f, i)
        if fs and fs[1] == 'c:0':
            ctx.ok('%s %s flag cleared' % (port, i.where())); ctx.count('clears')
            if s == 'out': ctx.viol('%s:%s:early-clear' % (port, f.name), 'fence flag cleared before the acknowledgement is waited for, at ' + i.where())
            if s == 'none' and not loop_of(f, i.blk):
                ctx.viol('%s:%s:clear-without-fence' % (port, f.name), 'fence flag cleared on a path that sent no fence request, at ' + i.where())
        if i.op == 'ret' and s == 'out':
            ctx.viol('%s:%s:no-wait' % (port, f.name), 'returns at line %d without waiting for the fence acknowledgement' % i.line)
        return s
    def edge(b, k, s):
        if acks and s == 'out':
            ct = cond_truth(f, b, k)
            if ct and acks(ct): return 'idle'
        return s
    explore(f, 'none', step, edge)
    # (b) the request goes out for every flagged destination
    for c in sends:
        dest = c.ops[2] if c.callee == 'nb_send_header' else c.ops[0]
        dk = repr(f.key(dest))
        lp = loop_of(f, c.blk)
        idx = None
        for a, s in f.all_cdeps(c.blk):
            ct = cond_truth(f, a, s)
            if not ct: continue
            t = is_flag_test(f, *ct)
            if t:
                if not t[1]: ctx.viol('%s:%s:inverted' % (port, f.name), 'fence request is sent only when the flag is clear, at ' + c.where())
                idx = t[0]; continue
            cond = f.V(ct[0])
            if cond is not None and cond.op == 'icmp':
                x, y = cond.ops; pr = cond.x['p']
                if isinstance(x, str) and not isinstance(y, str): x, y, pr = y, x, SWAP[pr]
                if not ct[1]: pr = NEG[pr]
                if lp and any(phi.id in (f.strip(x), f.strip(y)) or onu for phi, _, _, _, _, onu, bb in induction(f, *lp) if bb == a): continue
                if any(a in body and any(bb == a for *_, bb in induction(f, h, body)) for h, body in f.loops().items()): continue
                if counts_flags(f, f.strip(x)) and isinstance(y, str) and y.startswith('c:'):
                    n = int(y[2:])
                    if (pr, n) in (('ne', 0), ('sgt', 0), ('sge', 1), ('ugt', 0), ('uge', 1)): continue
                    ctx.viol('%s:%s:skips' % (port, f.name), 'fence is skipped although flags are set (count %s %d) at line %d' % (pr, n, cond.line)); continue
                # ts skips itself: a process never flags itself through the message queue
                if pr == 'ne' and port == 'ts' and any('state' in str(k) for k in (f.key(x), f.key(y))): continue
                if pr in ('ne', 'eq') and any(z in ('n',) for z in (x, y)): continue   # allocation result
            ctx.viol('%s:%s:conditional' % (port, f.name), 'the fence request at %s also depends on the condition at line %d, which is not the fence flag' % (c.where(), (cond.line if cond is not None else 0)))
        if idx is None:
            ctx.viol('%s:%s:unflagged' % (port, f.name), 'fence request does not depend on the destination\'s flag at ' + c.where())
        if lp:
            fr = full_range(f, *lp)
            if fr is None:
                if induction(f, *lp): ctx.viol('%s:%s:range' % (port, f.name), 'the loop sending fence requests does not visit every rank (loop at line %d)' % f.blocks[lp[0]][0].line)
            else:
                ctx.count('full_loops')
                if not ('size' in repr(fr[1]) and fr[1][0] not in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'ashr', 'lshr')): ctx.viol('%s:%s:range' % (port, f.name), 'the loop sending fence requests is not bounded by the number of ranks')
    # (c) acknowledgement receive for the same destination is posted with each request
    if port != 'ts':
        for c in sends:
            dk = repr(f.key(c.ops[2]))
            rv = [r for r in f.calls('nb_recv') if repr(f.key(r.ops[2])) == dk and (f.before(r, c) or f.postdominates(r, c)) and loop_of(f, r.blk) == loop_of(f, c.blk)]
            if not rv: ctx.viol('%s:%s:no-ack' % (port, f.name), 'no acknowledgement receive from the destination accompanies the fence request at ' + c.where())
            else: ctx.count('ack_receives')

def run(ctx):
    ctx.rule('pr, pt, mt: on every CFG path that sends a put/accumulate message (operation constant read from the header store), the fence flag '
             'of exactly that destination rank is set at return. Every function that sends fence requests: the request is sent for each rank '
             'whose flag is set (loop over all ranks, no other condition), the acknowledgement is received and waited for before a flag is '
             'cleared or the function returns. Barrier calls complete the fence before MPI_Barrier. pr: a direct (shared memory) access to a '
             'destination is preceded by a fence of it when its flag is set. ts: senders set the flag, fence loop as above. mpi3: the fences flush every window of the list.')
    p = ctx.prog(['pr/comex', 'pt/comex', 'mt/comex', 'ts/comex', 'mpi3/comex'])
    for port in ('pr', 'pt', 'mt'):
        m = p.mods[port + '/comex']; on = opnames(m)
        check_sends(ctx, port, m)
        for f in m.fns.values():
            if not f.kept: continue
            fs = [c for c, o in header_sends(f) if o not in ((), None) and {on[x] for x in o} == {'OP_FENCE'}]
            if fs: check_fencer(ctx, port, m, f, fs, None, lambda i: i.op == 'call' and i.callee in WAITS)
            else:
                for i in f.insts:
                    st = fence_store(f, i)
                    if st and st[1] == 'c:0' and not any('fence_array' in repr(f.addr(s.ops[1])) for s in f.insts if s.op == 'store' and f.leaf(s) is None and False):
                        if f.name != 'comex_init' and f.name != '_comex_init':
                            ctx.viol('%s:%s:clears' % (port, f.name), 'fence flag cleared by a function that does not fence, at ' + i.where())
        # entry points reach a fencer unconditionally
        for nm in ('comex_fence_proc', 'comex_fence_all'):
            f = m.fns.get(nm)
            if f is None: raise Broken('anchor vanished: %s in %s' % (nm, m.path))
        barrier(ctx, port, m)
    # pr: fence before direct access
    m = p.mods['pr/comex']
    for nm in ('nb_put', 'nb_get', 'nb_acc'):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        direct = []
        for i in f.insts:
            if i.op == 'call' and (i.callee or '').startswith('llvm.memcpy'):
                ra, rb = roots(f, i.ops[0]), roots(f, i.ops[1])
                hdr = any(r[0] == 'v' and f.insts[r[1]].op == 'call' and f.insts[r[1]].callee in ('malloc', '_comex_malloc') for r in ra)
                if not hdr: direct.append(i)
            elif i.op == 'call' and i.callee == '_acc': direct.append(i)
        ctx.count('direct_accesses', len(direct))
        dset = {d.id for d in direct}
        def step(i, s):
            if i.op == 'call' and i.callee == '_fence_master': return True
            if i.id in dset:
                ctx.ok('pr %s direct access' % i.where())
                if not s: ctx.viol('pr:%s:direct-unfenced' % nm, 'memory accessed directly at %s while an earlier remote update of the same owner may be unfenced' % i.where())
            return s
        def edge(b, k, s):
            ct = cond_truth(f, b, k)
            t = is_flag_test(f, *ct) if ct else None
            return True if t and not t[1] else s
        explore(f, False, step, edge)
    # ts
    m = p.mods['ts/comex']
    def waits(i): return False
    for nm in ('comex_fence_all', 'comex_fence_proc'):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        sends = list(f.calls('_send_fence_message'))
        if not sends: ctx.viol('ts:%s:none' % nm, 'no fence request is sent'); continue
        roots_n = {repr(f.key(c.ops[1])) for c in sends}
        def acks(ct):
            i = f.V(ct[0])
            if i is None or i.op != 'icmp': return False
            l = f.V(f.strip(i.ops[0]))
            if l is None or l.op != 'load' or repr(f.key(l.ops[0])) not in roots_n: return False
            pr = i.x['p'] if ct[1] else NEG[i.x['p']]
            return (pr, i.ops[1]) in (('sle', 'c:0'), ('eq', 'c:0'), ('slt', 'c:1'))
        check_fencer(ctx, 'ts', m, f, sends, acks, waits)
    for f in m.fns.values():
        if not f.kept: continue
        ops = op_stores(f)
        push = [c for c in f.calls('_mq_push')]
        on = opnames(m)
        mod = [i for i, r, v in ops if v is None or any(on.get(x, 'OP_PUT').startswith(MOD) and not on[x].endswith('RESPONSE') for x in v)]
        if not mod or f.name.endswith('handler'): continue
        for c in push:
            rs = roots(f, c.ops[1])
            if not any(r & rs for i, r, v in ops if i in mod): continue
            ctx.ok('ts %s update message' % c.where()); ctx.count('update_sends')
            sk = repr(f.key(c.ops[0]))
            good = [i for i in f.insts if fence_store(f, i) and fence_store(f, i)[1] == 'set' and fence_store(f, i)[0] == sk and (f.before(i, c) or f.postdominates(i, c))]
            if not good: ctx.viol('ts:%s:untracked' % f.name, 'an update is queued at %s without setting the destination\'s fence flag' % c.where())
    # mpi3
    m = p.mods['mpi3/comex']
    barrier(ctx, 'mpi3', m)
    for nm, fl in (('comex_fence_proc', ('MPI_Win_flush', 'MPI_Win_flush_all', 'MPI_Win_fence')), ('comex_fence_all', ('comex_wait_all',)), ('comex_wait_all', ('MPI_Win_flush_all', 'MPI_Win_fence'))):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        cs = list(f.calls(*(fl + ('MPI_Win_flush_all', 'MPI_Win_fence'))))
        if not cs: ctx.viol('mpi3:%s:noflush' % nm, 'does not flush the windows'); continue
        ctx.ok('mpi3 ' + nm); ctx.count('fencers')
        for c in cs:
            if c.callee == 'comex_wait_all':
                if not f.postdominates(c, f.blocks[0][0]) and c.blk != 0: ctx.viol('mpi3:%s:noflush' % nm, 'can return without flushing')
                continue
            lp = loop_of(f, c.blk)
            if lp is None: ctx.viol('mpi3:%s:loop' % nm, 'flushes only one window at ' + c.where()); continue
            # cursor: phi with init = load ...win_list, update = load cursor.next; no other condition inside the loop
            h, body = lp
            phi = [i for i in f.blocks[h] if i.op == 'phi' and any('win_list' in repr(f.key(o)) for o in i.ops) and any("next" in repr(f.key(o)) for o in i.ops)]
            if not phi: ctx.viol('mpi3:%s:loop' % nm, 'the flush loop does not walk the whole window list, at ' + c.where())
            latch = [b for b in body if h in f.succ[b]]
            ok = all(b == c.blk or (f.dom[b] >> c.blk) & 1 for b in latch)
            if not ok: ctx.viol('mpi3:%s:skip' % nm, 'some windows are not flushed: the flush at %s is conditional' % c.where())
    ctx.need('update_senders', 12); ctx.need('fencers', 8); ctx.need('update_sends', 15); ctx.need('direct_accesses', 4); ctx.need('ack_receives', 5)
    ctx.assume('The server answers a fence request only after the updates that precede it on the same channel (messages between two processes are '
               'not overtaken, MPI guarantee; the server handles one message at a time).')

def barrier(ctx, port, m):
    f = m.fns.get('comex_barrier')
    if f is None: raise Broken('anchor vanished: comex_barrier')
    n = 0
    def step(i, s):
        nonlocal n
        if i.op == 'call' and i.callee == 'comex_fence_all': return 'fenced'
        if i.op == 'call' and i.callee == 'MPI_Barrier':
            n += 1
            ctx.ok('%s barrier %s' % (port, i.where()))
            if s != 'fenced': ctx.viol('%s:barrier:unfenced' % port, 'barrier entered before the fence at ' + i.where())
            return 'done'
        if i.op == 'ret' and s != 'done': ctx.viol('%s:barrier:missing' % port, 'comex_barrier returns without a barrier')
        return s
    explore(f, 'none', step)
    ctx.count('barriers', n)
