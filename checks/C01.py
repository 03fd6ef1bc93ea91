"""Accumulates are applied under the lock of the process that owns the memory."""
from vlib.util import *
PORTS = {'pr': 'sem', 'pt': 'sem', 'mt': 'mutex'}
ACQ = {'sem': 'sem_wait', 'mutex': 'pthread_mutex_lock'}
REL = {'sem': 'sem_post', 'mutex': 'pthread_mutex_unlock'}
EXPECT = {'pr': 6, 'pt': 5, 'mt': 4}
LOCALFLAGS = {'COMEX_ENABLE_ACC_SELF', 'COMEX_ENABLE_ACC_SMP'}

def flagtest(f, b, k):
    ct = cond_truth(f, b, k)
    if not ct: return None
    r = null_test(f, *ct)
    if not r: return None
    i = f.V(r[0])
    if i is not None and i.op == 'load':
        root, path = f.addr(i.ops[0])
        if root[0] == 'g' and not path and root[1] in LOCALFLAGS: return root[1], r[1]
    return None

def run(ctx):
    ctx.rule('In every port with local update paths (pr, pt, mt), on every CFG path each call of the element-wise accumulate kernel is '
             'made while holding the semaphore/mutex of the target (index = the rank whose memory is looked up), the lock is released '
             'before every return and never taken twice; the only unlocked path allowed is the one where both local-update switches are off.')
    p = ctx.prog(['pr/comex', 'pt/comex', 'mt/comex'])
    for port, kind in PORTS.items():
        m = p.mods[port + '/comex']
        sites = 0
        kernel = m.fns.get('_acc')
        if kernel is None: raise Broken('anchor vanished: accumulate kernel in ' + m.path)
        for f in m.fns.values():
            if not f.kept: continue
            calls = [i for i in f.calls('_acc')]
            if not calls: continue
            ctx.count('functions')
            sites += len(calls)
            owners = {repr(f.key(i.ops[0])) for i in f.calls('reg_cache_find')}
            handler = any(a[0] == 'header' for a in f.args)
            def step(i, s):
                held, flags = s
                c = i.callee if i.op == 'call' else None
                if c == ACQ[kind]:
                    k = repr(f.key(i.ops[0]))
                    if held: ctx.viol('%s:%s:double' % (port, f.name), 'owner lock taken while already held at ' + i.where())
                    if kind == 'sem': owner_check(i, k)
                    return (k, flags)
                if c == REL[kind]:
                    k = repr(f.key(i.ops[0]))
                    if held is None: ctx.viol('%s:%s:release' % (port, f.name), 'owner lock released while not held at ' + i.where())
                    elif held != k: ctx.viol('%s:%s:mismatch' % (port, f.name), 'a different lock is released than was taken, at %s' % i.where())
                    return (None, flags)
                if c == '_acc':
                    ctx.ok('%s %s' % (port, i.where()))
                    if held is None and not all((n, False) in flags for n in need):
                        ctx.viol('%s:%s:unlocked' % (port, f.name), 'accumulate applied without the owner\'s lock at ' + i.where())
                if i.op == 'ret' and held is not None:
                    ctx.viol('%s:%s:leak' % (port, f.name), 'returns with the owner lock held at ' + i.where())
                return s
            def edge(b, k, s):
                t = flagtest(f, b, k)
                if t is None: return s
                held, flags = s
                if (t[0], not t[1]) in flags: return None
                return (held, flags | {t})
            def owner_check(i, k):
                j = f.V(i.ops[0])
                idx = None
                if j is not None and j.op == 'load':
                    r, path = f.addr(j.ops[0])
                    for x in path:
                        if isinstance(x, tuple): idx = x[1]
                ik = repr(f.key(idx)) if idx is not None else None
                ctx.count('owner_checks')
                if ik is None or ik not in owners:
                    ctx.viol('%s:%s:owner' % (port, f.name), 'the lock taken at %s is not the one of the rank whose memory is updated (index %s, memory of %s)' % (i.where(), ik, sorted(owners)))
            need = LOCALFLAGS if port == 'pr' else {'(none)'}
            explore(f, (None, frozenset()), step, edge)
        ctx.counts['acc_sites_' + port] = sites
        ctx.need('acc_sites_' + port, 3)
    ctx.need('functions', 12)
    ctx.assume('The local-update switches are constant after initialisation; POSIX semaphores and mutexes are correct. The ts port applies '
               'updates from one thread and mpi3 delegates atomicity to MPI_Accumulate, so neither has this obligation.')
