"""Internal thread lock: balanced, never re-acquired, held around all shared communication state of the thread-safe calls."""
from vlib.util import *
LOCK, UNLOCK = 'GA_Internal_Threadsafe_Lock', 'GA_Internal_Threadsafe_Unlock'
# the calls documented as thread safe ("GA is now thread safe"), confirmed by reading
ENTRY = ['pnga_put', 'pnga_nbput', 'pnga_get', 'pnga_nbget', 'ngai_acc_common', 'pnga_read_inc', 'pnga_nbwait', 'pnga_nbtest',
         'pnga_sync', 'pnga_create', 'pnga_initialize']
COMM = re.compile(r'^(ARMCI_|PARMCI_|MPI_)')

def run(ctx):
    p = ctx.prog(GA)
    p.need(LOCK); p.need(UNLOCK)
    ctx.rule('Typestate {free,held} of the process-wide thread lock is explored over every CFG path of every function that takes it: '
             'no path may return while holding it, release it unheld, or (through any call chain) take it again while held; in the '
             'thread-safe entry points every call that reaches communication or writes shared library state happens while it is held.')
    # the lock primitives really lock and unlock the same object
    lk = {i.callee: i.ops[0] for i in p.need(LOCK).calls() if 'lock' in (i.callee or '')}
    ul = {i.callee: i.ops[0] for i in p.need(UNLOCK).calls() if 'lock' in (i.callee or '')}
    ctx.count('lock_primitives', len(lk) + len(ul))
    if 'pthread_mutex_lock' not in lk: ctx.viol('primitive:lock', 'the thread lock function does not lock the mutex: ' + p.need(LOCK).where())
    elif 'pthread_mutex_unlock' not in ul: ctx.viol('primitive:unlock', 'the thread unlock function does not unlock the mutex: ' + p.need(UNLOCK).where())
    elif lk['pthread_mutex_lock'] != ul['pthread_mutex_unlock']: ctx.viol('primitive:object', 'lock and unlock act on different mutexes')
    ctx.ok('lock/unlock act on the same mutex %s' % lk)
    acq = closure_callers(p, {LOCK})
    # effects: functions that communicate or write globals
    direct = set()
    for f in p.all():
        if f.name in (LOCK, UNLOCK): continue
        for i in f.insts:
            if i.op == 'call' and i.callee and COMM.match(i.callee) and not p.target(i): direct.add(f); break
            if i.op == 'store' and f.addr(i.ops[1])[0][0] == 'g': direct.add(f); break
    eff = set(direct)
    callers = defaultdict(set)
    for f in p.all():
        for i in f.calls():
            t = p.target(i)
            if t is not None: callers[t].add(f)
    st = list(eff)
    while st:
        f = st.pop()
        for c in callers[f]:
            if c not in eff: eff.add(c); st.append(c)
    users = [f for f in p.analysed() if any(True for _ in f.calls(LOCK, UNLOCK)) and f.name not in (LOCK, UNLOCK)]
    ctx.count('functions_using_lock', len(users))
    for f in users:
        def step(i, s):
            if i.op in ('call', 'invoke') and i.callee:
                c = i.callee
                if c == LOCK:
                    ctx.count('lock_sites')
                    if s == 1: ctx.viol('reacquire:%s' % f.name, 'thread lock taken again while held at ' + i.where())
                    return 1
                if c == UNLOCK:
                    if s == 0: ctx.viol('unlock-unheld:%s' % f.name, 'thread lock released while not held at ' + i.where())
                    return 0
                t = p.target(i)
                if s == 1 and t is not None and t in acq:
                    ctx.viol('reacquire:%s:%s' % (f.name, c), 'call at %s while the thread lock is held re-enters it: %s' % (i.where(), chain_to(p, t, {LOCK})))
            if i.op == 'ret':
                ctx.ok('%s returns at line %d in state %s' % (f.name, i.line, 'held' if s else 'free'))
                if s == 1: rets.append(i)
            return s
        rets = []
        pre = explore(f, 0, step)
        for i in rets:
            node = next((n for n in pre if n[0] == i.blk and n[1] == 1), None)
            ctx.viol('held-at-return:%s' % f.name, 'thread lock still held when %s returns at %s; path: lines %s' % (f.name, i.where(), path_lines(f, pre, node)))
    # coverage of the thread-safe entry points
    for n in ENTRY:
        f = p.get(n)
        if f is None: raise Broken('anchor vanished: ' + n)
        ctx.count('entry_points')
        bad = []
        def step(i, s):
            if i.op in ('call', 'invoke') and i.callee:
                if i.callee == LOCK: return 1
                if i.callee == UNLOCK: return 0
                t = p.target(i)
                if s == 0 and (t in acq if t is not None else False): return s   # callee takes the lock itself
                if (t is not None and t in eff) or (t is None and COMM.match(i.callee)):
                    ctx.ok()
                    if s == 0: bad.append(i)
            elif i.op == 'store' and f.addr(i.ops[1])[0][0] == 'g':
                ctx.ok()
                if s == 0: bad.append(i)
            return s
        explore(f, 0, step)
        for i in bad:
            what = i.callee or ('store to %s' % f.addr(i.ops[1])[0][1])
            ctx.viol('unlocked:%s:%s' % (f.name, what), 'in thread-safe call %s, %s is reached without the thread lock at %s' % (f.name, what, i.where()))
    ctx.need('functions_using_lock', 9); ctx.need('entry_points', len(ENTRY))
    ctx.assume('ARMCI/ComEx progress inside the lock terminates; user code calls init/terminate from one thread.')
