"""Mutual exclusion: a mutex is granted to one requester at a time, released to the next waiter, and addressed by the number the caller gave."""
from vlib.comexlib import *

def canon(f, o, depth=10):
    """key with loads of single-store locals replaced by the stored value"""
    o = f.strip(o)
    i = f.V(o)
    if i is not None and i.op == 'load':
        r, p = f.addr(i.ops[0])
        if r[0] == 'al' and not p:
            st = [s for s in f.insts if s.op == 'store' and f.addr(s.ops[1]) == (r, p)]
            if len(st) == 1: return canon(f, st[0].ops[0], depth - 1)
    return f.key(o)

def slot(f, o, table):
    """address of table[i][j] -> (canon i, canon j) or None"""
    r, p = f.addr(o)
    if r[0] != 'ld': return None
    j = [x[1] for x in p if isinstance(x, tuple)]
    if any(not isinstance(x, tuple) for x in p): return None
    l = f.insts[r[1]]
    r2, p2 = f.addr(l.ops[0])
    if r2[0] == 'g':
        # statically a one-dimensional table
        return None
    if r2[0] != 'ld': return None
    l2 = f.insts[r2[1]]
    r3, p3 = f.addr(l2.ops[0])
    if r3 != ('g', table) or p3: return None
    i = [x[1] for x in p2 if isinstance(x, tuple)]
    return (canon(f, i[-1]) if i else 0, canon(f, j[-1]) if j else 0)

def check_server(ctx, port, m):
    lock, unlock = m.fns.get('_lock_handler'), m.fns.get('_unlock_handler')
    if lock is None or unlock is None: raise Broken('anchor vanished: lock handlers in ' + m.path)
    slots = set()
    for f in (lock, unlock):
        for i in f.insts:
            if i.op in ('load', 'store'):
                a = i.ops[0] if i.op == 'load' else i.ops[1]
                for t in ('mutexes', 'lq_heads'):
                    s = slot(f, a, t)
                    if s:
                        ctx.count('slot_accesses'); ctx.ok('%s %s %s' % (port, t, i.where()))
                        slots.add((t, repr(s)))
                        if 'header_t.rank' not in repr(s[0]) or 'header_t.length' not in repr(s[1]):
                            ctx.viol('%s:%s:%s:index' % (port, f.name, t), 'the %s entry accessed at %s is not the one named by the request' % ('mutex' if t == 'mutexes' else 'queue', i.where()))
    # ---- lock
    f = lock
    pa = [k for k, a in enumerate(f.args) if a[0] == 'proc'] or [len(f.args) - 1]
    proc = 'a%d' % pa[0]
    def owner_test(ct):
        i = f.V(ct[0])
        if i is None or i.op != 'icmp' or i.x['p'] not in ('eq', 'ne', 'slt', 'sgt', 'sge'): return None
        for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
            j = f.V(f.strip(x))
            if j is not None and j.op == 'load' and slot(f, j.ops[0], 'mutexes') and isinstance(y, str) and y.startswith('c:'):
                c = int(y[2:])
                p = i.x['p']
                if p in ('eq', 'ne') and c == -1: return (p == 'eq') == ct[1]
                if x is i.ops[0] and (p, c) == ('slt', 0): return ct[1]
                if x is i.ops[0] and (p, c) in (('sgt', -1), ('sge', 0)): return not ct[1]
                return 'bad'
        return None
    def step(i, s):
        free, owned, sent, queued, node = s
        if i.op == 'store':
            if slot(f, i.ops[1], 'mutexes'):
                if free is not True: ctx.viol('%s:lock:steal' % port, 'ownership is overwritten at %s on a path where the mutex may be held' % i.where())
                if f.strip(i.ops[0]) != proc: ctx.viol('%s:lock:owner' % port, 'the mutex is given to someone other than the requester at ' + i.where())
                owned = True
            elif slot(f, i.ops[1], 'lq_heads') or f.leaf_addr(i.ops[1]) in ('lock_link.next', 'comex_lock_t.next'):
                v = f.V(f.strip(i.ops[0]))
                if v is not None and v.op == 'call' and 'malloc' in (v.callee or ''): queued = min(2, queued + 1)
            elif f.leaf_addr(i.ops[1]) in ('lock_link.rank', 'comex_lock_t.rank'):
                node = f.strip(i.ops[0]) == proc
        if i.op == 'call' and i.callee == 'server_send':
            sent = min(2, sent + 1)
            if free is not True: ctx.viol('%s:lock:grant' % port, 'a grant is sent at %s on a path where the mutex may be held' % i.where())
        if i.op == 'ret':
            ctx.ok('%s lock path free=%s' % (port, free)); ctx.count('lock_paths')
            if free is True:
                if not owned: ctx.viol('%s:lock:unrecorded' % port, 'a free mutex is granted without recording the owner (%s)' % f.where())
                if sent != 1: ctx.viol('%s:lock:reply' % port, 'a free mutex leads to %d grant messages (%s)' % (sent, f.where()))
                if queued: ctx.viol('%s:lock:both' % port, 'a granted request is also queued (%s)' % f.where())
            else:
                if queued != 1: ctx.viol('%s:lock:lost' % port, 'a request for a held mutex is queued %d times (%s)' % (queued, f.where()))
                if node is not True: ctx.viol('%s:lock:waiter' % port, 'the queued waiter is not the requester (%s)' % f.where())
        return (free, owned, sent, queued, node)
    def edge(b, k, s):
        ct = cond_truth(f, b, k)
        if not ct: return s
        t = owner_test(ct)
        if t == 'bad': ctx.viol('%s:lock:test' % port, 'the mutex is considered free by a comparison with another value than the free mark'); return s
        if t is None: return s
        if s[0] is not None and s[0] != t: return None
        return (t,) + s[1:]
    explore(f, (None, False, 0, 0, None), step, edge)
    # a node may be appended only behind a node known to be last, or to an empty queue, so no waiter is dropped
    for i in f.insts:
        if i.op != 'store': continue
        v = f.V(f.strip(i.ops[0]))
        if v is None or v.op != 'call' or 'malloc' not in (v.callee or ''): continue
        k = f.akey(i.ops[1])
        if slot(f, i.ops[1], 'lq_heads') is None and f.leaf_addr(i.ops[1]) not in ('lock_link.next', 'comex_lock_t.next'): continue
        ctx.count('enqueues'); ok = False
        for a, s in f.all_cdeps(i.blk) | {(a, s) for a in range(len(f.blocks)) for s in f.succ[a] if (f.dom[i.blk] >> s) & 1 and len(f.pred[s]) == 1}:
            ct = cond_truth(f, a, s)
            nt = null_test(f, *ct) if ct else None
            if nt and not nt[1]:
                j = f.V(f.strip(nt[0]))
                if j is not None and j.op == 'load' and (f.akey(j.ops[0]) == k or (slot(f, i.ops[1], 'lq_heads') and slot(f, j.ops[0], 'lq_heads') == slot(f, i.ops[1], 'lq_heads'))): ok = True
        # or the old head is kept behind the new node
        for s in f.insts:
            if s.op == 'store' and f.leaf_addr(s.ops[1]) in ('lock_link.next', 'comex_lock_t.next') and f.addr(s.ops[1])[0] == ('v', v.id):
                j = f.V(f.strip(s.ops[0]))
                if j is not None and j.op == 'load' and f.akey(j.ops[0]) == k: ok = True
        if not ok: ctx.viol('%s:lock:overwrite' % port, 'linking the waiter at %s can drop waiters already queued' % i.where())
    # ---- unlock
    f = unlock
    def head_test(ct):
        nt = null_test(f, *ct)
        if not nt: return None
        j = f.V(f.strip(nt[0]))
        if j is not None and j.op == 'load' and slot(f, j.ops[0], 'lq_heads'): return nt[1]
        return None
    def from_head(o):
        """value read from the field of the queue head: (field) """
        j = f.V(f.strip(o))
        if j is None or j.op != 'load': return None
        r, p = f.addr(j.ops[0])
        if r[0] != 'ld': return None
        if slot(f, f.insts[r[1]].ops[0], 'lq_heads') is None: return None
        fl = [x for x in p if not isinstance(x, tuple)]
        return fl[-1].split('.')[-1] if fl else None
    def step(i, s):
        wait, own, pop, sent = s
        if i.op == 'store':
            if slot(f, i.ops[1], 'mutexes'):
                if i.ops[0] == 'c:-1': own = 'free'
                elif from_head(i.ops[0]) == 'rank': own = 'next'
                else: own = 'other'
            elif slot(f, i.ops[1], 'lq_heads'):
                pop = 'next' if from_head(i.ops[0]) == 'next' else 'other'
        if i.op == 'call' and i.callee == 'server_send':
            sent = min(2, sent + 1)
            if from_head(i.ops[2]) != 'rank': ctx.viol('%s:unlock:grantee' % port, 'the grant at %s does not go to the first waiter' % i.where())
        if i.op == 'ret':
            ctx.ok('%s unlock path waiter=%s' % (port, wait)); ctx.count('unlock_paths')
            if wait is True:
                if own != 'next': ctx.viol('%s:unlock:owner' % port, 'with a waiter queued the mutex is left %s (%s)' % (own or 'with its old owner', f.where()))
                if pop != 'next': ctx.viol('%s:unlock:queue' % port, 'the granted waiter is not removed from the queue (%s)' % f.where())
                if sent != 1: ctx.viol('%s:unlock:reply' % port, 'the next waiter is sent %d grants (%s)' % (sent, f.where()))
            else:
                if own != 'free': ctx.viol('%s:unlock:stuck' % port, 'with no waiter the mutex is left %s (%s)' % (own or 'held', f.where()))
                if sent: ctx.viol('%s:unlock:spurious' % port, 'a grant is sent although nobody waits (%s)' % f.where())
        return (wait, own, pop, sent)
    def edge(b, k, s):
        ct = cond_truth(f, b, k)
        t = head_test(ct) if ct else None
        if t is None: return s
        if s[0] is not None and s[0] != t: return None if s[2] is None else s
        return (t,) + s[1:]
    explore(f, (None, None, None, 0), step, edge)
    # ---- client: the request names the mutex and owner the caller gave, lock returns only after the grant
    for nm in ('comex_lock', 'comex_unlock'):
        g = m.fns.get(nm)
        if g is None: raise Broken('anchor vanished: ' + nm)
        st = [i for i in g.insts if i.op == 'store' and g.leaf(i) == 'header_t.length']
        ctx.count('clients'); ctx.ok('%s %s' % (port, nm))
        if not st or any(g.strip(i.ops[0]) != 'a0' for i in st): ctx.viol('%s:%s:number' % (port, nm), 'the request does not carry the mutex number of the caller (%s)' % g.where())
        calls = list(g.calls('nb_wait_for_all'))
        sends = list(g.calls('nb_send_header'))
        for c in sends:
            if not any(g.postdominates(w, c) for w in calls): ctx.viol('%s:%s:nowait' % (port, nm), 'returns before the request is completed (%s)' % c.where())
    # creation marks every mutex free and every queue empty
    g = m.fns.get('_mutex_create_handler')
    if g is None: raise Broken('anchor vanished: mutex creation handler')
    init = {}
    for i in g.insts:
        if i.op == 'store':
            for t in ('mutexes', 'lq_heads'):
                if slot(g, i.ops[1], t): init[t] = (i, i.ops[0])
    for t, v in (('mutexes', 'c:-1'), ('lq_heads', 'n')):
        ctx.count('inits')
        if t not in init: ctx.viol('%s:create:%s' % (port, t), 'mutex creation does not initialise the %s' % t); continue
        if init[t][1] != v: ctx.viol('%s:create:%s' % (port, t), 'mutex creation does not mark entries free/empty at ' + init[t][0].where())
        lp = loop_of(g, init[t][0].blk)
        fr = full_range(g, *lp) if lp else None
        if lp and induction(g, *lp) and (fr is None or 'header_t.length' not in repr(fr[1])): ctx.viol('%s:create:%s:range' % (port, t), 'mutex creation does not initialise every entry (%s)' % init[t][0].where())

def ts(ctx, m):
    f = m.fns.get('_lq_progress') or m.fns.get('comex_make_progress')
    if f is None: raise Broken('anchor vanished: lock queue progress')
    def owner(o):
        r, p = f.addr(o)
        if r[0] != 'ld': return None
        r2, p2 = f.addr(f.insts[r[1]].ops[0])
        if [x for x in p2 if not isinstance(x, tuple)][-1:] == ['local_state.mutexes']:
            ix = [x[1] for x in p if isinstance(x, tuple)]
            return repr(f.key(ix[-1])) if ix else '0'
        return None
    def step(i, s):
        free, = s
        if i.op == 'store' and owner(i.ops[1]) is not None:
            ctx.ok('ts grant ' + i.where()); ctx.count('ts_grants')
            if free != owner(i.ops[1]): ctx.viol('ts:lock:steal', 'ownership is overwritten at %s on a path where the mutex may be held' % i.where())
            if 'rank' not in repr(f.key(i.ops[0])): ctx.viol('ts:lock:owner', 'the mutex is not given to the queued requester at ' + i.where())
            return ('granted',)
        if i.op == 'call' and i.callee == '_mq_push':
            if free != 'granted': ctx.viol('ts:lock:grant', 'a grant is sent at %s without taking the mutex' % i.where())
            return (None,)
        return s
    def edge(b, k, s):
        ct = cond_truth(f, b, k)
        i = f.V(ct[0]) if ct else None
        if i is not None and i.op == 'icmp':
            j = f.V(f.strip(i.ops[0]))
            if j is not None and j.op == 'load' and owner(j.ops[0]) is not None:
                p = i.x['p'] if ct[1] else NEG[i.x['p']]
                if (p, i.ops[1]) in (('slt', 'c:0'), ('sle', 'c:-1'), ('eq', 'c:-1')): return (owner(j.ops[0]),)
                return (None,)
        if b in [t for t in f.loops()]: return (None,)
        return s
    explore(f, (None,), step, edge)
    ctx.need('ts_grants', 1)
    g = m.fns.get('_unlock_request_handler')
    if g is None: raise Broken('anchor vanished: unlock request handler')
    st = [i for i in g.insts if i.op == 'store' and 'local_state.mutexes' in repr(g.akey(i.ops[1])) and 'header_t.length' in repr(g.akey(i.ops[1]))]
    ctx.count('clients')
    if not st or any(i.ops[0] != 'c:-1' for i in st) or not any(g.postdominates(i, g.blocks[0][0]) or i.blk == 0 for i in st):
        ctx.viol('ts:unlock:stuck', 'an unlock request does not free the mutex it names (%s)' % g.where())
    for nm in ('comex_lock', 'comex_unlock'):
        g = m.fns.get(nm)
        if g is None: raise Broken('anchor vanished: ' + nm)
        s2 = [i for i in g.insts if i.op == 'store' and g.leaf(i) == 'header_t.length']
        ctx.count('clients')
        if not s2 or any(g.strip(i.ops[0]) != 'a0' for i in s2): ctx.viol('ts:%s:number' % nm, 'the request does not carry the mutex number of the caller (%s)' % g.where())
        for c in g.calls('_mq_push'):
            if g.strip(c.ops[0]) != 'a1': ctx.viol('ts:%s:proc' % nm, 'the request does not go to the owner of the mutex at ' + c.where())
    g = m.fns['comex_lock']
    # lock spins until the notification is cleared
    ex = []
    for c in g.calls('_mq_push'):
        note = [repr(g.key(i.ops[0])) for i in g.insts if i.op == 'store' and g.leaf(i) == 'header_t.notify_address']
        def step(i, s):
            if i is c: return 'out'
            if i.op == 'ret' and s == 'out': ex.append(i)
            return s
        def edge(b, k, s):
            ct = cond_truth(g, b, k)
            nt = null_test(g, *ct) if ct else None
            if nt and not nt[1]:
                j = g.V(g.strip(nt[0]))
                if j is not None and j.op == 'load' and repr(g.key(j.ops[0])) in note: return 'done'
            return s
        explore(g, 'none', step, edge)
    if ex: ctx.viol('ts:lock:nowait', 'comex_lock can return before the grant arrives (line %d)' % ex[0].line)

def mpi3(ctx, m):
    for nm, val in (('comex_lock', 1), ('comex_unlock', 0)):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        def step(i, s):
            ep, got, put = s
            c = i.callee if i.op == 'call' else None
            if c == 'MPI_Win_lock':
                if i.ops[0] != 'c:1': ctx.viol('mpi3:%s:shared' % nm, 'the wait list is accessed under a lock other processes may share at ' + i.where())
                return (True, False, False)
            if c in ('MPI_Get', 'MPI_Put', 'MPI_Rget', 'MPI_Rput'):
                ctx.ok('mpi3 ' + i.where()); ctx.count('mpi3_accesses')
                if not ep: ctx.viol('mpi3:%s:epoch' % nm, 'the wait list is accessed outside the exclusive epoch at ' + i.where())
                return (ep, got or 'Get' in c, put or 'Put' in c)
            if c == 'MPI_Win_unlock':
                if not (got and put): ctx.viol('mpi3:%s:atomic' % nm, 'reading the wait list and changing it are not done in one exclusive epoch (%s)' % i.where())
                return (False, got, put)
            if i.op == 'ret' and (ep or not (got and put)): ctx.viol('mpi3:%s:end' % nm, 'returns without updating the wait list, or inside the epoch')
            return s
        explore(f, (False, False, False), step)
        for c in f.calls('MPI_Put'):
            r = f.addr(c.ops[0])[0]
            vs = [s.ops[0] for s in f.insts if s.op == 'store' and f.addr(s.ops[1])[0] == r]
            if vs != ['c:%d' % val]: ctx.viol('mpi3:%s:value' % nm, 'the wait-list entry is set to %s instead of %d at %s' % (vs, val, c.where()))
            if 'rank' not in repr(f.key(c.ops[4])): ctx.viol('mpi3:%s:slot' % nm, 'the wait-list entry written is not the caller\'s own at ' + c.where())

def run(ctx):
    ctx.rule('Server ports: on every path of the lock handler the mutex is taken, recorded and granted once exactly when it is free, otherwise the '
             'requester is queued once without dropping waiters; on every path of the unlock handler the first waiter becomes owner, leaves the '
             'queue and is notified once, or the mutex becomes free. All accesses use the indices of the request. Clients send the caller\'s mutex '
             'number and wait for the grant. ts: ownership is changed only where it was tested free and each grant follows it. mpi3: the wait list '
             'is read and updated in one exclusive epoch. GA maps mutex k to owner k / share and index k mod share, the same for lock and unlock.')
    p = ctx.prog(['pr/comex', 'pt/comex', 'mt/comex', 'ts/comex', 'mpi3/comex'])
    for port in ('pr', 'pt', 'mt'): check_server(ctx, port, p.mods[port + '/comex'])
    ts(ctx, p.mods['ts/comex'])
    mpi3(ctx, p.mods['mpi3/comex'])
    q = ctx.prog(['ga/base', 'armci/armci'])
    cr = q.need('pnga_create_mutexes')
    share = None
    for i in cr.insts:
        if i.op == 'store' and f_g(cr, i.ops[1]) and i.x.get('ty') != 'x':
            g = f_g(cr, i.ops[1])
            j = cr.V(cr.strip(i.ops[0]))
            if j is not None and j.op in ('sdiv', 'udiv'): share = g
    if share is None: raise Broken('anchor vanished: mutexes per process')
    for nm, callee in (('pnga_lock', 'ARMCI_Lock'), ('pnga_unlock', 'ARMCI_Unlock')):
        f = q.need(nm)
        cs = [c for c in f.calls() if c.callee in (callee, 'P' + callee)]
        if not cs: ctx.viol('ga:%s:none' % nm, 'does not reach the mutex owner (%s)' % f.where())
        for c in cs:
            ctx.ok('ga ' + c.where()); ctx.count('ga_mapping')
            m_, p_ = f.key(c.ops[0]), f.key(c.ops[1])
            sh = ('load', (('g', share), ()))
            if m_ != ('srem', 'a0', sh): ctx.viol('ga:%s:index' % nm, 'the index used at %s is not the mutex number modulo the mutexes per process' % c.where())
            if p_ != ('sdiv', 'a0', sh): ctx.viol('ga:%s:owner' % nm, 'the owner used at %s is not the mutex number divided by the mutexes per process' % c.where())
    for nm, t in (('PARMCI_Lock', 'comex_lock'), ('PARMCI_Unlock', 'comex_unlock')):
        f = q.need(nm)
        cs = list(f.calls(t))
        ctx.count('forward')
        if len(cs) != 1 or [f.strip(x) for x in cs[0].ops] != ['a0', 'a1']: ctx.viol('armci:' + nm, 'does not forward to %s with the same mutex and process (%s)' % (t, f.where()))
    ctx.need('slot_accesses', 18); ctx.need('lock_paths', 6); ctx.need('unlock_paths', 6); ctx.need('clients', 9); ctx.need('ga_mapping', 2); ctx.need('enqueues', 6); ctx.need('mpi3_accesses', 4)
    ctx.assume('The server handles one message at a time. Deadlock by lock order in user programs and fairness are outside this property.')

def f_g(f, o):
    r, p = f.addr(o)
    return r[1] if r[0] == 'g' and not p else None
