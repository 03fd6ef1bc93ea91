"""A sync fences before its barrier; GA_Fence covers every process updated since GA_Init_fence."""
from vlib.util import *
from vlib.comexlib import *
from vlib.paths import Explorer
from vlib.sccp import SCCP
UPD = {'ARMCI_Put': 3, 'ARMCI_PutS': 6, 'ARMCI_NbPutS': 6, 'ARMCI_AccS': 8, 'ARMCI_NbAccS': 8, 'ARMCI_NbPut': 3, 'ARMCI_PutV': 2, 'ARMCI_NbPutV': 2,
       'ARMCI_AccV': 4, 'ARMCI_NbAccV': 4, 'ARMCI_PutS_flag': 8, 'ARMCI_NbPutS_flag': 8, 'ARMCI_PutValueLong': 2, 'ARMCI_PutValueInt': 2, 'ARMCI_PutValueDouble': 2,
       'ARMCI_PutValueFloat': 2, 'ARMCI_Put_flag': 5, 'ARMCI_NbAcc': 5, 'ARMCI_Acc': 5, 'armci_write_strided_': 0}
BAR = {'pnga_msg_sync', 'pnga_msg_pgroup_sync'}
CASTS = ('sext', 'zext', 'trunc', 'freeze')

def group_of(f, o):
    """o = &PGRP_LIST[g].group -> key of g"""
    r, path = f.addr(o)
    if r[0] != 'ld' or f.addr(f.insts[r[1]].ops[0])[0] != ('g', 'PGRP_LIST'): return None
    if f.leaf_addr(o) != 'proc_list_t.group': return None
    ix = [x[1] for x in path if isinstance(x, tuple) and x[0] == '[]']
    return kk(f, ix[0]) if ix else None
def kk(f, o):
    o = f.strip(o, CASTS)
    i = f.V(o)
    if i is not None and i.op == 'load' and f.addr(i.ops[0])[0][0] == 'g' and not f.addr(i.ops[0])[1]: return repr(('g', f.addr(i.ops[0])[0][1]))
    if i is not None and i.op == 'call' and i.callee == 'pnga_pgroup_get_default': return repr(('g', 'GA_Default_Proc_Group'))
    return repr(f.key(o)).replace("'sext', ", '')

def fence_loops(ctx, f):
    """loop headers h such that leaving the loop means every member of group g was fenced: {h: g}"""
    out = {}
    for c in f.calls('ARMCI_Fence'):
        a = f.V(f.strip(c.ops[0], CASTS))
        if a is None or a.op != 'call' or a.callee != 'ARMCI_Absolute_id': continue
        lp = loop_of(f, c.blk)
        if not lp: continue
        h, body = lp
        fr = full_range(f, h, body)
        if fr is None or f.strip(a.ops[1], CASTS) != fr[0].id: continue
        g = group_of(f, a.ops[0])
        bound = next((b for phi, init, st, pr, b, u, bb in induction(f, h, body) if phi.id == fr[0].id), None)
        n = f.V(f.strip(bound, CASTS)) if fr[0] is not None else None
        if n is None or n.op != 'load':
            j = f.V(f.strip(f.V(induction(f, h, body)[0][1]).ops[0], CASTS)) if induction(f, h, body) and f.V(induction(f, h, body)[0][1]) is not None else None
            n = j
        if n is None or n.op != 'load' or f.leaf(n) != 'proc_list_t.map_nproc': continue
        r, path = f.addr(n.ops[0])
        ix = [x[1] for x in path if isinstance(x, tuple) and x[0] == '[]']
        if not ix or kk(f, ix[0]) != g: continue
        latches = [b for b in f.pred[h] if b in body]
        exits = {b for b in body for k in f.succ[b] if k not in body and f.can_return()[k]}
        if all((f.dom[l] >> c.blk) & 1 for l in latches) and exits == {x[-1] for x in induction(f, h, body) if x[0].id == fr[0].id}: out[h] = g
    return out

def syncs(ctx, p):
    for name in ('pnga_sync', 'pnga_pgroup_sync'):
        f = p.need(name)
        loops = fence_loops(ctx, f)
        ctx.count('group_fence_loops', len(loops))
        def grp(i):
            if i.callee == 'pnga_msg_sync': return repr(('g', 'GA_Default_Proc_Group'))
            return kk(f, i.ops[0])
        def step(i, s, q):
            fenced, done = s
            if i.op != 'call':
                if i.op == 'ret':
                    ctx.ok('%s return' % name); ctx.count('sync_returns')
                    if not done: ctx.viol(name + ':no-barrier', '%s returns at line %d without the barrier' % (name, i.line))
                return s
            if i.callee == 'ARMCI_AllFence': return ('all', done)
            if i.callee == 'pnga_pgroup_sync' and name == 'pnga_sync':
                ctx.ok('%s nested' % name)
                if grp(i) != repr(('g', 'GA_Default_Proc_Group')): ctx.viol(name + ':group', 'the default group is not the one synchronised at ' + i.where())
                return (fenced, True)
            if i.callee in BAR:
                ctx.ok('%s barrier' % name); ctx.count('barriers')
                if fenced is None: ctx.viol(name + ':order', 'the barrier at %s is reached on a path that has not fenced the group\'s processes' % i.where())
                elif fenced != 'all' and fenced != grp(i): ctx.viol(name + ':group', 'the processes fenced before the barrier at %s are not those of its group' % i.where())
                if name == 'pnga_pgroup_sync' and grp(i) != repr(f.key('a0')) and grp(i) != kk(f, 'a0'): ctx.viol(name + ':group', 'the barrier at %s is not that of the group asked for' % i.where())
                return (None, True)
            if i.callee in UPD: return (None, done)
            return s
        def edge(b, k, s, F=None):
            for h, g in loops.items():
                body = f.loops()[h]
                if b in body and k not in body: return (s[0] or g, s[1])
            return s
        Explorer(f, step, edge=lambda b, k, s, *a: edge(b, k, s), limit=50000).run((None, False))
    # the barriers themselves
    for name, want in (('pnga_msg_sync', repr(('g', 'GA_Default_Proc_Group'))), ('pnga_msg_pgroup_sync', None)):
        f = p.need(name)
        if want is None: want = kk(f, 'a0')
        for val, exp in ((3, 'armci_msg_group_barrier'), (-1, 'armci_msg_barrier')):
            s = SCCP(f, argc={0: val} if f.args else None, callc=lambda i: val if i.callee in ('pnga_pgroup_get_default',) else None,
                     loadc=lambda i: val if f.addr(i.ops[0])[0] == ('g', 'GA_Default_Proc_Group') else None)
            calls = [i for i in s.live_calls() if i.callee in ('armci_msg_group_barrier', 'armci_msg_barrier')]
            ctx.ok('%s(%d)' % (name, val)); ctx.count('barrier_dispatch')
            if len(calls) != 1 or calls[0].callee != exp: ctx.viol('%s:dispatch' % name, '%s does not end in the barrier of the %s' % (name, 'group' if val > 0 else 'world'))
            elif val > 0:
                g = group_of(f, calls[0].ops[0])
                if g is None or 'c:' not in str(g) and g != want and s.const(0) is None and not same_group(f, s, calls[0].ops[0], val): ctx.viol('%s:group' % name, 'the barrier at %s is on another group' % calls[0].where())

def same_group(f, s, o, val):
    r, path = f.addr(o)
    ix = [x[1] for x in path if isinstance(x, tuple) and x[0] == '[]']
    return bool(ix) and s.const(ix[0]) == val

def marks(ctx, p):
    def fset(f):
        return lambda i: 1 if f.addr(i.ops[0])[0] == ('g', 'GA_fence_set') and not f.addr(i.ops[0])[1] else None
    def slot(f, o):
        """identity of a process operand: SSA value, or the variable it is loaded from"""
        o = f.strip(o, CASTS)
        i = f.V(o)
        if i is not None and i.op == 'load' and f.addr(i.ops[0])[0][0] == 'al' and '[' not in str(f.insts[f.addr(i.ops[0])[0][1]].x.get('at_', '')): return ('al', f.addr(i.ops[0])[0][1])
        return ('v', repr(o) if not isinstance(o, int) else o)
    files = {}
    for f in p.all():
        cs = [i for i in f.calls() if i.callee in UPD]
        if not cs: continue
        if not f.mod.path.endswith('onesided.c'): continue
        s = SCCP(f, loadc=fset(f))
        mk = {}
        for i in s.live():
            if i.op != 'store' or i.ops[0] == 'c:0': continue
            g = gaddr(f, i.ops[1], 'fence_array')
            if g and g[0] is not None: mk[i.id] = slot(f, g[0])
        sets = [i for i in s.live() if i.op == 'store' and f.addr(i.ops[1])[0] == ('g', 'GA_fence_set')]
        for c in cs:
            if c.id not in {x.id for x in s.live()}: continue
            k = slot(f, c.ops[UPD[c.callee]])
            ctx.ok('%s update' % c.where()); ctx.count('updates')
            def redef(i, k=k):
                if k[0] == 'v': return i.id == k[1]
                if i.op == 'store': return f.addr(i.ops[1])[0] == k
                return i.op in ('call', 'invoke') and any(isinstance(o, int) and f.addr(o)[0] == k for o in i.ops) and not (i.callee or '').startswith('llvm.')
            def walk(back):
                st, vis = [(c.blk, c.pos)], set()
                while st:
                    b, pos = st.pop(); stop = False
                    seq = list(reversed(f.blocks[b][:pos])) if back else f.blocks[b][pos + 1:]
                    for i in seq:
                        if mk.get(i.id) == k: stop = True; break
                        if redef(i) or not back and (i.op == 'ret' or i.op == 'call' and i.callee in ('pnga_fence', 'ARMCI_Fence')): return False
                    if stop: continue
                    nx = f.pred[b] if back else f.succ[b]
                    if back and b == 0: return False
                    for q in nx:
                        e = (q, b) if back else (b, q)
                        if e in s.edges and q not in vis: vis.add(q); st.append((q, len(f.blocks[q]) if back else -1))
                return True
            if not walk(True) and not walk(False):
                ctx.viol('%s:%s:unmarked' % (f.name, c.callee), 'the update at %s (%s) can be sent between GA_Init_fence and GA_Fence without marking its target process' % (c.where(), c.callee))

def fence(ctx, p):
    f = p.need('pnga_fence')
    cs = list(f.calls('ARMCI_Fence', 'ARMCI_AllFence'))
    clears = [i for i in f.insts if i.op == 'call' and i.callee and i.callee.startswith('llvm.memset') and f.addr(i.ops[0])[0][0] == 'ld' and f.addr(f.insts[f.addr(i.ops[0])[0][1]].ops[0])[0] == ('g', 'fence_array')
              or i.op == 'store' and i.ops[0] == 'c:0' and gaddr(f, i.ops[1], 'fence_array')]
    ctx.count('fence_calls', len(cs))
    if not cs: ctx.viol('pnga_fence:none', 'pnga_fence fences nothing'); return
    for c in cs:
        ctx.ok('pnga_fence fence')
        if c.callee == 'ARMCI_AllFence': continue
        lp = loop_of(f, c.blk)
        fr = full_range(f, *lp) if lp else None
        if fr is None or f.strip(c.ops[0], CASTS) != fr[0].id or fr[1] != ('load', (('g', 'GAnproc'), ())):
            ctx.viol('pnga_fence:range', 'the loop fencing marked processes (%s) does not visit every process' % c.where()); continue
        for a, b in f.all_cdeps(c.blk):
            if a not in lp[1]: 
                continue
            ct = cond_truth(f, a, b)
            if ct is None: continue
            r = null_test(f, *ct)
            g = gload(f, r[0], 'fence_array') if r else None
            if g and g[0] is not None:
                if not r[1]: ctx.viol('pnga_fence:inverted', 'unmarked processes are fenced instead of marked ones, at ' + c.where())
                if f.strip(g[0], CASTS) != f.strip(c.ops[0], CASTS): ctx.viol('pnga_fence:index', 'the mark tested is not that of the process fenced, at ' + c.where())
                continue
            if f.V(ct[0]) is not None and fr[0].id in (f.strip(f.V(ct[0]).ops[0], CASTS), f.strip(f.V(ct[0]).ops[-1], CASTS)) and a in {x[-1] for x in induction(f, *lp)}: continue
            ctx.viol('pnga_fence:conditional', 'fencing a marked process also depends on the condition at line %d' % f.blocks[a][-1].line)
        for z in clears:
            ctx.count('mark_clears')
            if f.inst_reaches(z, c) and not (loop_of(f, z.blk) and loop_of(f, z.blk)[0] == lp[0] and not f.before(z, c) and kk(f, gaddr(f, z.ops[1], 'fence_array')[0]) == kk(f, c.ops[0])):
                ctx.viol('pnga_fence:early-clear', 'marks are cleared at %s before the marked processes are fenced' % z.where())
        h, body = lp
        def step(i, s):
            if i.op == 'ret' and not s: ctx.viol('pnga_fence:skipped', 'pnga_fence can return at line %d without having visited every marked process' % i.line)
            if i.op == 'ret': ctx.ok('pnga_fence return')
            return s
        ex = {x[-1] for x in induction(f, h, body)}
        explore(f, False, step, lambda b, k, s: True if b in body and k not in body and b in ex else s)
    # marks cleared anywhere else: only after a barrier (all updates complete)
    for g in p.all():
        for z in g.insts:
            isz = z.op == 'call' and z.callee and z.callee.startswith('llvm.memset') and g.addr(z.ops[0])[0][0] == 'ld' and g.addr(g.insts[g.addr(z.ops[0])[0][1]].ops[0])[0] == ('g', 'fence_array') \
                or z.op == 'store' and z.ops[0] == 'c:0' and gaddr(g, z.ops[1], 'fence_array')
            if not isz or g.name == 'pnga_fence': continue
            ctx.ok('%s clears marks' % g.name); ctx.count('mark_clears')
            if not any(g.before(b, z) for b in g.calls('ARMCI_AllFence', 'pnga_msg_pgroup_sync', 'pnga_msg_sync', 'pnga_sync')):
                ctx.viol('%s:clear' % g.name, 'fence marks are cleared at %s without a preceding fence' % z.where())

def forward(ctx, p):
    """ARMCI layer: a fence or barrier reaches the runtime with the same process/group"""
    def one(name, callee, *args):
        f = p.need(name)
        cs = list(f.calls(callee))
        ctx.ok('%s -> %s' % (name, callee)); ctx.count('forwarded')
        for k, w in args:
            for c in cs:
                o = c.ops[k]
                i = f.V(f.strip(o, CASTS))
                got = ('*', i.ops[0]) if i is not None and i.op == 'load' else o if isinstance(o, str) else f.strip(o, CASTS)
                if isinstance(got, tuple) and isinstance(got[1], str) and got[1].startswith('g:'): got = got[1]
                if got != w: ctx.viol('%s:argument' % name, '%s passes something other than the %s it was given to %s at %s' % (name, 'group' if k or 'all' in callee else 'process', callee, c.where()))
        ret = {}
        def step(i, s):
            if i.op == 'call' and i.callee == callee: return True
            if i.op == 'ret' and not s: ctx.viol('%s:skipped' % name, '%s can return at line %d without %s' % (name, i.line, callee))
            return s
        explore(f, False, step)
    one('PARMCI_AllFence', 'comex_fence_all', (0, 'c:0'))
    one('PARMCI_Fence', 'comex_fence_proc', (0, 'a0'), (1, 'c:0'))
    one('parmci_msg_barrier', 'comex_barrier', (0, 'g:ARMCI_Default_Proc_Group'))
    one('parmci_msg_group_barrier', 'comex_barrier', (0, ('*', 'a0')))
    for a, b in (('ARMCI_AllFence', 'PARMCI_AllFence'), ('ARMCI_Fence', 'PARMCI_Fence'), ('armci_msg_barrier', 'parmci_msg_barrier'), ('armci_msg_group_barrier', 'parmci_msg_group_barrier')):
        one(a, b, *([(0, 'a0')] if p.need(a).args else []))

def run(ctx):
    ctx.rule('pnga_sync/pnga_pgroup_sync: on every path a fence of all members of the group precedes the barrier of the same group, and the barrier precedes the return; '
             'every put/accumulate of the one-sided operations marks its target process (same value) while a GA fence is open; pnga_fence fences every marked process before '
             'clearing marks; the ARMCI layer forwards fences and barriers with the same process or group.')
    p = ctx.prog(GA)
    syncs(ctx, p); marks(ctx, p); fence(ctx, p)
    a = ctx.prog(['armci/armci', 'armci/message', 'armci/capi'])
    forward(ctx, a)
    ctx.need('updates', 14); ctx.need('barriers', 3); ctx.need('forwarded', 8); ctx.need('group_fence_loops', 1)
