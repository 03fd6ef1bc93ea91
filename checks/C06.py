"""Completion: blocking calls return completed, handles complete the operation they were returned for, test never reports early."""
from vlib.comexlib import *
from vlib.paths import Explorer, NEGP, isc, cval
WAITH = 'nb_wait_for_handle'; GETIX = 'nb_get_handle_index'

def src_call(f, o, names):
    """operand is (through casts) the result of a call of one of names"""
    i = f.V(f.strip(o))
    return i if i is not None and i.op == 'call' and i.callee in names else None

def client(ctx, port, m, f):
    """every handle obtained is waited for, or its number is handed to the caller"""
    hdl_args = set()
    for i in f.insts:
        if i.op == 'store' and f.addr(i.ops[1])[0][0] == 'a' and src_call(f, i.ops[0], (GETIX,)): hdl_args.add(f.addr(i.ops[1])[0][1])
    has_req = [n for n, a in enumerate(f.args) if n < len(f.dty) and False]
    ctx.count('handle_users')
    waitset = {'nb_wait_for_all'}
    def step(i, s, q):
        # s: (latest handle inst | None, index inst from the latest handle | None, frozenset pending, frozenset given)
        cur, ix, pend, given = s
        if i.op == 'call' and i.callee:
            if i.callee == WAITH:
                if i.id in pend and i.id not in given and not hdl_args:
                    ctx.viol('%s:%s:dropped' % (port, f.name), 'a new handle is taken at %s while the operation started on the previous one was never waited for' % i.where())
                return (i.id, None, pend - {i.id}, given - {i.id})
            if i.callee == GETIX: return (cur, i.id, pend, given)
            if i.callee in ('nb_wait_for_all',):
                h = src_call(f, i.ops[0], (WAITH,))
                ctx.count('waits')
                return (cur, ix, pend - {h.id} if h is not None else pend, given)
            if i.callee in ('nb_wait_all', 'comex_wait_all'): return (cur, ix, frozenset(), given)
            used = [src_call(f, o, (WAITH,)) for o in i.ops]
            used = [h.id for h in used if h is not None]
            if used:
                ctx.ok('%s %s starts communication on a handle' % (port, i.where())); ctx.count('starts')
                return (cur, ix, pend | set(used), given)
        if i.op == 'store' and f.addr(i.ops[1])[0][0] == 'a':
            g = src_call(f, i.ops[0], (GETIX,))
            if g is not None and g.id == ix and cur is not None: return (cur, ix, pend, given | {cur})
            if g is not None: ctx.viol('%s:%s:index' % (port, f.name), 'the handle number given to the caller at %s is not that of the operation\'s handle' % i.where())
        if i.op == 'ret':
            for h in pend - given:
                if hdl_args:
                    # allowed only where the caller passed no handle
                    if all(q.nz('a%d' % a) is False for a in hdl_args): continue
                ctx.viol('%s:%s:incomplete' % (port, f.name), 'returns at line %d although the communication started on the handle taken at %s may still be in flight and its handle was not given to the caller' % (i.line, f.insts[h].where()))
        return s
    Explorer(f, step, limit=60000).run((None, None, frozenset(), frozenset()))
    if hdl_args: ctx.count('nonblocking_calls')

def heads(f, o):
    i = f.V(f.strip(o))
    if i is None or i.op != 'load': return None
    l = f.leaf(i)
    return l if l in ('nb_t.send_head', 'nb_t.recv_head') else None

def drained(ctx, port, f, what, at):
    """at(inst, q) -> True where both lists must be known empty"""
    n = 0
    def step(i, s, q):
        nonlocal n
        if at(i, q):
            n += 1
            ctx.ok('%s %s' % (port, i.where()))
            if s != {'nb_t.send_head', 'nb_t.recv_head'}:
                ctx.viol('%s:%s:early' % (port, f.name), '%s at %s on a path where %s may still hold requests' % (what, i.where(), ' and '.join(sorted({'nb_t.send_head': 'the send list', 'nb_t.recv_head': 'the receive list'}[x] for x in {'nb_t.send_head', 'nb_t.recv_head'} - s))))
        if i.op == 'call' and i.callee and i.callee.startswith('nb_wait_for_'): return frozenset()
        if i.op == 'store' and f.leaf(i) in ('nb_t.send_head', 'nb_t.recv_head'): return s - {f.leaf(i)}
        return s
    def edge(b, k, s, q):
        out = set(s)
        for o, nz in implied_tests(f, b, k):
            h = heads(f, o)
            if h and not nz: out.add(h)
        return frozenset(out)
    Explorer(f, step, edge=edge).run(frozenset())
    if n == 0: ctx.viol('%s:%s:none' % (port, f.name), 'no completion point found in ' + f.where())

def one_request(ctx, port, f, lst):
    """nb_wait_for_send1 / recv1: wait (or successful test) of the head's own request precedes delivery, release and unlinking"""
    head = 'nb_t.%s_head' % lst
    waits = [c for c in f.calls('MPI_Wait', 'MPI_Test')]
    if not waits: ctx.viol('%s:%s:nowait' % (port, f.name), 'the request is never waited for in ' + f.where()); return
    for c in waits:
        k = repr(f.akey(c.ops[0]))
        if head not in k or 'request' not in k: ctx.viol('%s:%s:request' % (port, f.name), 'waits for something else than the request at the head of the %s list, at %s' % (lst, c.where()))
    flagcell = {f.addr(c.ops[1])[0] for c in waits if c.callee == 'MPI_Test'}
    seen = defaultdict(int)
    def step(i, s, q):
        done, deliv = s
        if i in waits:
            return (True, deliv) if i.callee == 'MPI_Wait' else (False, deliv)
        ev = None
        if i.op == 'call' and i.callee:
            if i.callee in ('unpack',): ev = 'unpack'
            elif i.callee.startswith(('llvm.memcpy', 'memcpy')) : ev = 'copy'
            elif i.callee in ('free', '_my_free'): ev = 'free'
        if i.op == 'store' and f.leaf(i) == head: ev = 'unlink'
        if ev:
            seen[ev] += 1
            ctx.ok('%s %s %s' % (port, i.where(), ev))
            if not done and not (ev == 'unlink' and flagcell): ctx.viol('%s:%s:%s' % (port, f.name, ev), '%s before the request completed, at %s' % (ev, i.where()))
            if ev in ('unpack', 'copy'): return (done, deliv | {ev})
        return s
    def edge(b, k, s, q):
        ct = cond_truth(f, b, k)
        if ct and flagcell:
            nt = null_test(f, *ct)
            if nt:
                j = f.V(f.strip(nt[0]))
                if j is not None and j.op == 'load' and f.addr(j.ops[0])[0] in flagcell: return (nt[1], s[1])
        return s
    Explorer(f, step, edge=edge).run((False, frozenset()))
    if not seen['unlink']: ctx.viol('%s:%s:unlink' % (port, f.name), 'the completed request is not removed from the list')
    if lst == 'recv':
        # delivery of strided / vector replies: performed exactly under the presence test of their descriptor
        for what, fld, names in (('strided', '.stride', ('unpack',)), ('vector', '.iov', None)):
            calls = [i for i in f.insts if i.op == 'call' and i.callee and (i.callee in names if names else i.callee.startswith(('llvm.memcpy', 'memcpy')))]
            if not calls: ctx.viol('%s:%s:%s' % (port, f.name, what), 'received data of a %s get is not delivered to the destination' % what); continue
            for c in calls:
                conds = []
                for a, sx in f.all_cdeps(c.blk):
                    ct = cond_truth(f, a, sx)
                    if not ct: continue
                    if any(a in body and any(bb == a for *_, bb in induction(f, h, body)) for h, body in f.loops().items()): continue
                    nt = null_test(f, *ct)
                    if nt:
                        j = f.V(f.strip(nt[0]))
                        if j is not None and j.op == 'load':
                            if (f.leaf(j) or '').endswith(fld) and nt[1]: conds.append('own'); continue
                            if f.addr(j.ops[0])[0] in flagcell: continue
                    conds.append('line %d' % f.blocks[a][-1].line)
                ctx.count('deliveries')
                bad = [x for x in conds if x != 'own']
                if bad: ctx.viol('%s:%s:%s-cond' % (port, f.name, what), 'delivery of a %s get at %s depends on another condition (%s)' % (what, c.where(), bad[0]))
                if what == 'vector':
                    lp = loop_of(f, c.blk)
                    fr = full_range(f, *lp) if lp else None
                    if fr is None or 'count' not in repr(fr[1]): ctx.viol('%s:%s:vector-range' % (port, f.name), 'not every segment of a vector get is delivered, at ' + c.where())

def test_for_all(ctx, port, f):
    """returns 0 only if every request tested on the way had completed"""
    tests = [c for c in f.calls() if c.callee and c.callee.startswith('nb_test_for_')]
    ids = {c.id: c for c in tests}
    def step(i, s, q):
        if i.id in ids: return s
        if i.op == 'ret':
            ctx.ok('%s %s' % (port, i.where())); ctx.count('test_returns')
            c = q.const(i.ops[0])
            if c == 0 and s: ctx.viol('%s:%s:early' % (port, f.name), 'reports completion although a request tested on the path was incomplete: ' + i.where())
            if c is None: ctx.viol('%s:%s:unknown' % (port, f.name), 'completion result not determined by the tests: ' + i.where())
        if i.op == 'store' and f.leaf(i) == 'nb_t.in_use' and i.ops[0] == 'c:0' and s:
            ctx.viol('%s:%s:release' % (port, f.name), 'handle released although a request tested on the path was incomplete: ' + i.where())
        return s
    def edge(b, k, s, q):
        ct = cond_truth(f, b, k)
        nt = null_test(f, *ct) if ct else None
        if nt and f.V(f.strip(nt[0])) is not None and f.V(f.strip(nt[0])).id in ids and not nt[1]: return True
        return s
    Explorer(f, step, edge=edge).run(False)
    if len(tests) < 2: ctx.viol('%s:%s:lists' % (port, f.name), 'does not test both the send and the receive list')

def user_call(ctx, port, f, is_test):
    """comex_wait / comex_test: act on the caller's handle"""
    def from_caller(o):
        k = repr(f.key(o)) if not isinstance(o, int) or f.insts[o].op != 'getelementptr' else repr(f.akey(o))
        return 'nb_state' in k and "'a'" in k or ("('a', 0)" in k and 'nb_state' in k)
    cs = [c for c in f.calls('nb_wait_for_all', 'nb_test_for_all')]
    for c in cs:
        ctx.ok('%s %s' % (port, c.where()))
        if not from_caller(c.ops[0]): ctx.viol('%s:%s:handle' % (port, f.name), 'does not act on the handle the caller passed, at ' + c.where())
    ctx.count('user_calls')
    if not is_test:
        bad = [True]
        def step(i, s, q):
            if i.op == 'call' and i.callee in ('nb_wait_for_all', 'nb_wait_all', 'comex_wait_all'): return True
            if i.op == 'ret' and not s: ctx.viol('%s:%s:nowait' % (port, f.name), 'can return without waiting')
            return s
        Explorer(f, step).run(False)
    else:
        tf = [c for c in cs if c.callee == 'nb_test_for_all']
        for lst in ('send', 'recv'):
            ctx.ok()
            drive = {'nb_test_for_all', 'nb_wait_for_all', 'nb_wait_for_%s1' % lst, 'nb_test_for_%s1' % lst}
            if not any(c.callee in drive or c.callee in ('MPI_Test', 'MPI_Wait', 'MPI_Testall') and lst + '_head' in repr(f.akey(c.ops[0])) for c in f.calls()):
                ctx.viol('%s:%s:progress:%s' % (port, f.name, lst), 'polling never advances the %s requests of the handle, so it never reports completion' % lst)
        st = [i for i in f.insts if i.op == 'store' and f.addr(i.ops[1])[0] == ('a', 1)]
        if not st: ctx.viol('%s:%s:status' % (port, f.name), 'the status is never set'); return
        if tf:
            def step(i, s, q):
                if i in st:
                    v = q.const(i.ops[0]); r = q.nz(tf[0].id)
                    ctx.ok('%s status %s' % (port, i.where()))
                    if v is None or r is None or (v != 0) != r: ctx.viol('%s:%s:status' % (port, f.name), 'status %s set at %s does not follow from the test result' % (v, i.where()))
                return s
            Explorer(f, step, track=lambda i: i.id == tf[0].id).run(None)
        else:
            drained(ctx, port, f, 'completion reported', lambda i, q: i in st and i.ops[0] == 'c:0')
            if any(i.ops[0] not in ('c:0', 'c:1') for i in st): ctx.viol('%s:%s:status' % (port, f.name), 'status is not a constant on some path')

def mpi3(ctx, p, m):
    RMA = re.compile(r'^MPI_R?(Put|Get|Accumulate|Get_accumulate)$', re.I)
    n = 0
    for f in m.fns.values():
        if not f.kept: continue
        ops = [c for c in f.calls() if RMA.match(c.callee)]
        if not ops: continue
        ids = {c.id for c in ops}
        n += 1
        def reqcell(c): return f.addr(c.ops[-1])
        def step(i, s, q):
            if i.id in ids:
                ctx.ok('mpi3 ' + i.where()); ctx.count('rma_calls')
                key = ('req', reqcell(i)) if i.callee.lower().startswith('mpi_r') else ('win', repr(f.key(i.ops[-1])))
                if key in s and key[0] == 'req': ctx.viol('mpi3:%s:overwritten' % f.name, 'the request of an unfinished operation is overwritten at ' + i.where())
                return s | {key}
            if i.op == 'call' and i.callee == 'MPI_Wait': return s - {('req', f.addr(i.ops[0]))}
            if i.op == 'call' and i.callee in ('MPI_Win_flush', 'MPI_Win_flush_all', 'MPI_Win_fence', 'MPI_Win_flush_local', 'MPI_Win_unlock'): return frozenset(k for k in s if k[0] == 'req')
            if i.op == 'store':
                v = f.V(i.ops[0])
                if v is not None and v.op == 'load' and ('req', f.addr(v.ops[0])) in s and (f.leaf(i) or '').endswith('.request'): return s - {('req', f.addr(v.ops[0]))}
            if i.op == 'ret' and s: ctx.viol('mpi3:%s:incomplete' % f.name, 'returns at line %d with an unfinished one-sided operation' % i.line)
            return s
        Explorer(f, step, limit=100000).run(frozenset())
    f = p.need('comex_wait') if False else m.fns.get('comex_wait')
    g = m.fns.get('comex_test')
    if f is None or g is None: raise Broken('anchor vanished: comex_wait/comex_test')
    def own(fn, o): 
        k = repr(fn.akey(o)); return 'nb_list' in k and "('a', 0)" in k and 'nb_t.request' in k
    def step(i, s, q):
        if i.op == 'call' and i.callee == 'MPI_Wait' and own(f, i.ops[0]): return True
        if i.op == 'store' and f.leaf(i) == 'nb_t.active' and not s: ctx.viol('mpi3:comex_wait:release', 'handle released before the wait at ' + i.where())
        if i.op == 'ret' and not s: ctx.viol('mpi3:comex_wait:nowait', 'can return without waiting for the caller\'s request')
        return s
    Explorer(f, step).run(False); ctx.count('user_calls')
    ts = [c for c in g.calls('MPI_Test') if own(g, c.ops[0])]
    if not ts: ctx.viol('mpi3:comex_test:request', 'the caller\'s request is not tested'); return
    cell = g.addr(ts[0].ops[1])[0]
    def step(i, s, q):
        if i is ts[0]: return None if False else 'tested'
        if i.op == 'store' and g.addr(i.ops[1])[0] == ('a', 1):
            ctx.ok('mpi3 ' + i.where())
            v = q.const(i.ops[0])
            if s not in ('yes', 'no') or v is None or (v == 0) != (s == 'yes'): ctx.viol('mpi3:comex_test:status', 'status %s at %s does not follow from the test' % (v, i.where()))
        return s
    def edge(b, k, s, q):
        ct = cond_truth(g, b, k); nt = null_test(g, *ct) if ct else None
        if nt:
            j = g.V(g.strip(nt[0]))
            if j is not None and j.op == 'load' and g.addr(j.ops[0])[0] == cell: return 'yes' if nt[1] else 'no'
        return s
    Explorer(g, step, edge=edge).run('no-test'); ctx.count('user_calls')
    ctx.count('mpi3_functions', n)

def ts(ctx, m):
    """ts: operations complete inside the call: progress is driven until nothing is outstanding"""
    for nm in ('comex_put', 'comex_get', 'comex_puts', 'comex_gets', 'comex_accs', 'comex_putv', 'comex_getv', 'comex_accv', 'comex_wait', 'comex_test', 'comex_wait_proc', 'comex_wait_all'):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ts ' + nm)
        prog = {'comex_make_progress', 'comex_wait_all', 'comex_wait_proc'} - {nm}
        nbi = {'_put_nbi', '_get_nbi', '_acc_nbi'}
        st = [i for i in f.insts if i.op == 'store' and nm == 'comex_test' and f.addr(i.ops[1])[0] == ('a', 1)]
        def step(i, s, q):
            if i.op == 'call' and i.callee in prog: return 'done'
            if i.op == 'call' and i.callee in nbi: return 'open'
            if i in st and s != 'done': ctx.viol('ts:comex_test:early', 'completion reported before progress at ' + i.where())
            if i.op == 'ret':
                ctx.ok('ts %s' % i.where()); ctx.count('ts_calls')
                # a call that transferred nothing through the queue has nothing to wait for
                if s == 'open' or (s == 'none' and nm.startswith('comex_wait')): ctx.viol('ts:%s:incomplete' % nm, 'returns at line %d without driving the operation to completion' % i.line)
            return s
        Explorer(f, step, limit=60000).run('none')
    f = m.fns['comex_make_progress']
    # the progress loop ends only with an empty send queue and no outstanding get
    seen = [0]
    def edge(b, k, s, q):
        for o, nz in implied_tests(f, b, k):
            j = f.V(f.strip(o))
            if j is None: continue
            if j.op == 'load' and (f.leaf(j) or '').endswith('.mq_size'): s = s - {'mq'} if nz else s | {'mq'}
            if j.op == 'call' and j.callee == '_gq_test': s = s - {'gq'} if nz else s | {'gq'}
            if j.op == 'phi' and not nz and {f.V(x).callee if f.V(x) is not None and f.V(x).op == 'call' else None for x in j.ops} & {'_gq_test'}: s = s | {'gq'}
        return s
    def step(i, s, q):
        if i.op == 'call' and i.callee in ('_mq_push',) or i.op == 'call' and (i.callee or '').endswith('_handler'): s = s - {'mq'}
        if i.op == 'call' and i.callee in ('_lq_progress',): s = s - {'mq'}
        if i.op == 'call' and i.callee == '_gq_test':
            r = s - {'gq'}
            return r
        if i.op == 'ret':
            seen[0] += 1
            ctx.ok('ts ' + i.where())
            if s != {'mq', 'gq'}: ctx.viol('ts:comex_make_progress:early', 'progress stops although %s may remain, at line %d' % ('outgoing messages' if 'mq' not in s else 'outstanding gets', i.line))
        return s
    Explorer(f, step, edge=edge, track=lambda i: i.op == 'call' and i.callee == '_gq_test').run(frozenset())

def ga_layer(ctx):
    q = ctx.prog(['ga/nbutil', 'ga/onesided'])
    f = q.need('nga_wait_internal')
    # waits for every ARMCI handle linked to the GA handle
    ws = list(f.calls('ARMCI_Wait'))
    if not ws: ctx.viol('ga:wait:none', 'the GA wait never waits'); return
    for c in ws:
        ctx.ok('ga ' + c.where()); ctx.count('ga_waits')
        lp = loop_of(f, c.blk)
        if lp is None: ctx.viol('ga:wait:loop', 'only one of the transfers of a request is waited for, at ' + c.where()); continue
        h, body = lp
        # leaving the loop only when the cursor is null
        for b in body:
            for k in f.succ[b]:
                if k in body: continue
                ct = cond_truth(f, b, k); nt = null_test(f, *ct) if ct else None
                j = f.V(f.strip(nt[0])) if nt else None
                if nt is None or nt[1] or not (j is not None and (j.op == 'load' and 'next' in repr(f.leaf(j)) or j.op == 'phi' or 'ahandle' in repr(f.key(nt[0])))):
                    ctx.viol('ga:wait:exit', 'the wait loop is left before every linked transfer was waited for (line %d)' % f.blocks[b][-1].line)
        # each iteration: waited unless the element is inactive
        latch = [b for b in body if h in f.succ[b]]
        for (a, sx) in f.all_cdeps(c.blk):
            if a not in body: continue
            ct = cond_truth(f, a, sx); nt = null_test(f, *ct) if ct else None
            if nt and nt[1]:
                j = f.V(f.strip(nt[0]))
                if j is not None and (j.op == 'phi' or j.op == 'load' and ('active' in repr(f.leaf(j)) or 'next' in repr(f.leaf(j)) or 'handle' in repr(f.leaf(j)))): continue
            ctx.viol('ga:wait:cond', 'waiting for a linked transfer depends on an unrelated condition (line %d)' % f.blocks[a][-1].line)

def ga_test(ctx, f):
    """the GA test answers 'complete' only when no linked transfer is left, and drops a transfer only when its own test said so"""
    def is_count(o):
        j = f.V(f.strip(o))
        return j is not None and j.op == 'load' and (f.leaf(j) or '').startswith('ga_nbhdl_array_t.') and (j.ty or '').startswith('i')
    def cleared(j, truth):
        """the condition proves that the request's list is empty (or belongs to another request)"""
        if j.op != 'icmp': return False
        a, b = j.ops
        p = j.x['p'] if truth else NEGP[j.x['p']]
        la, lb = (f.leaf(f.V(f.strip(x))) if f.V(f.strip(x)) is not None and f.V(f.strip(x)).op == 'load' else None for x in (a, b))
        if p == 'ne' and any(l and l.startswith('ga_nbhdl_array_t.') and not isc(o) for l, o in ((la, b), (lb, a))): return True     # tag differs
        if b == 'n' and p == 'eq' and la and la.startswith('ga_nbhdl_array_t.'): return True
        return is_count(a) and (b == 'c:0' and p in ('eq', 'sle', 'ule') or b == 'c:1' and p in ('slt', 'ult'))
    calls = list(f.calls('ARMCI_Test'))
    if not calls: ctx.viol('ga:test:none', 'the GA test never tests its transfers'); return
    for c in calls:
        lp = loop_of(f, c.blk)
        ctx.ok('ga ' + c.where()); ctx.count('ga_tests')
        if lp is None: ctx.viol('ga:test:loop', 'only one of the transfers of a request is tested, at ' + c.where()); continue
    # state: (some transfer of the list is not known complete, verdict on the latest one)
    def step(i, s, q):
        left, cur = s
        if i in calls: return (left or cur == 'unk', 'unk')
        if i.op == 'store':
            l = f.leaf(i) or ''
            j = f.V(i.ops[0])
            dec = j is not None and j.op in ('add', 'sub') and is_count(j.ops[0])
            if l.startswith('ga_nbhdl_array_t.') and (dec or isc(i.ops[0])):
                ctx.ok('ga ' + i.where())
                if dec and cur != 'done': ctx.viol('ga:test:drop', 'a transfer is dropped from its request although its test did not report completion, at ' + i.where())
                if not dec and cval(i.ops[0]) == 0 and (left or cur in ('unk', 'pend')): ctx.viol('ga:test:forget', 'a request is marked finished while a transfer of it may be outstanding, at ' + i.where())
        if i.op == 'ret':
            ctx.ok('ga ' + i.where()); ctx.count('ga_tests')
            v = q.const(i.ops[0])
            j = f.V(f.strip(i.ops[0]))
            if v is None and j is not None and j.op == 'icmp' and cleared(j, False): return s
            if v == 0 and (left or cur in ('unk', 'pend')): ctx.viol('ga:test:early', 'completion is reported although a transfer of the request may be outstanding, at ' + i.where())
            if v is None and (left or cur in ('unk', 'pend')) and not accumulates(i.ops[0]): ctx.viol('ga:test:early', 'the reported result does not reflect every transfer of the request, at ' + i.where())
        return s
    def accumulates(o, seen=None):
        seen = set() if seen is None else seen
        j = f.V(f.strip(o))
        if j is None: return True
        if j.id in seen: return True
        seen.add(j.id)
        if j.op == 'phi': return all(accumulates(x, seen) for x in j.ops)
        if j.op == 'or': return True
        return False
    def edge(b, k, s, q):
        left, cur = s
        ct = cond_truth(f, b, k)
        j = f.V(f.strip(ct[0])) if ct else None
        if j is not None and cleared(j, ct[1]): return (False, None)
        for o, nz in implied_tests(f, b, k):
            if f.V(f.strip(o)) in calls: cur = 'pend' if nz else 'done'
        return (left or cur == 'pend', None if cur == 'pend' else cur)
    Explorer(f, step, edge=edge, track=lambda i: i.op == 'call' and i.callee == 'ARMCI_Test').run((False, None))

def run(ctx):
    ctx.rule('pr, pt, mt: path-sensitive typestate of every internal handle: communication started on it is waited for before return, or the handle\'s '
             'number is stored for the caller. The wait loop ends only when both request lists are known empty; data delivery, release and unlinking of '
             'a request happen after MPI_Wait (or a successful MPI_Test) of that very request; strided and vector replies are always unpacked; test '
             'reports completion only if every request tested was complete. ts: no call returns with queued traffic. mpi3: every request is waited for, '
             'flushed, or stored in the caller\'s handle. GA: wait covers every transfer linked to the request.')
    p = ctx.prog(['pr/comex', 'pt/comex', 'mt/comex', 'ts/comex', 'mpi3/comex'])
    for port in ('pr', 'pt', 'mt'):
        m = p.mods[port + '/comex']
        for f in m.fns.values():
            if f.kept and any(True for _ in f.calls(WAITH)): client(ctx, port, m, f)
        w = m.fns.get('nb_wait_for_all')
        if w is None: raise Broken('anchor vanished: nb_wait_for_all')
        drained(ctx, port, w, 'wait finished', lambda i, q: i.op == 'ret')
        one_request(ctx, port, m.fns['nb_wait_for_send1'], 'send'); one_request(ctx, port, m.fns['nb_wait_for_recv1'], 'recv')
        if 'nb_test_for_all' in m.fns:
            test_for_all(ctx, port, m.fns['nb_test_for_all'])
            one_request(ctx, port, m.fns['nb_test_for_send1'], 'send'); one_request(ctx, port, m.fns['nb_test_for_recv1'], 'recv')
        user_call(ctx, port, m.fns['comex_wait'], False); user_call(ctx, port, m.fns['comex_test'], True)
        # wait for everything
        a = m.fns['nb_wait_all']
        for c in list(a.calls('nb_wait_for_all')) or [None]:
            lp = loop_of(a, c.blk) if c is not None else None
            fr = full_range(a, *lp) if lp else None
            ctx.ok('%s %s' % (port, a.where()))
            if fr is None or 'nb_max_outstanding' not in repr(fr[1]): ctx.viol('%s:nb_wait_all:range' % port, 'not every handle is waited for in ' + a.where())
            else:
                if any(x != lp[0] and cond_truth(a, x, y) and not any(bb == x for *_, bb in induction(a, *lp)) for x, y in a.all_cdeps(c.blk)): ctx.viol('%s:nb_wait_all:cond' % port, 'waiting is conditional in ' + a.where())
        for nm in ('comex_wait_all', 'comex_wait_proc'):
            f = m.fns[nm]
            cs = [c for c in f.calls('nb_wait_all', 'comex_wait_all')]
            if not cs or not any(c.blk == 0 or f.postdominates(c, f.blocks[0][0]) for c in cs): ctx.viol('%s:%s' % (port, nm), 'can return without waiting for the outstanding operations')
            ctx.ok('%s %s' % (port, nm))
    ts(ctx, p.mods['ts/comex'])
    mpi3(ctx, p, p.mods['mpi3/comex'])
    ga_layer(ctx)
    ga_test(ctx, ctx.prog(['ga/nbutil']).need('nga_test_internal')); ctx.need('ga_tests', 2)
    ctx.need('handle_users', 75); ctx.need('nonblocking_calls', 27); ctx.need('starts', 120); ctx.need('mpi3_functions', 18); ctx.need('rma_calls', 18); ctx.need('user_calls', 8); ctx.need('deliveries', 8); ctx.need('ga_waits', 1)
    ctx.assume('A handle marked free has empty request lists (established by the wait/test rules, which release only then). MPI completion semantics.')
