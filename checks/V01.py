"""A region outside the array, or a dead handle, is refused before array data is touched."""
from vlib.util import *
from vlib.paths import Explorer
from vlib import build as B

XFER = re.compile(r'^P?ARMCI_(Nb)?(Put|Get|Acc|Rmw)')
LOCATE = {'pnga_locate_region': (0, 1, 2), 'pnga_locate_nnodes': (0, 1, 2), 'pnga_locate': (0, 1, 1)}
INQ = {'pnga_inquire', 'nga_inquire_internal'}
SWP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
NEG = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}
NEED = frozenset(['lo', 'hi'])

def dep(f, o, g, d=0):
    if o == g: return True
    i = f.V(o)
    return i is not None and d < 6 and i.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'freeze') and any(dep(f, x, g, d + 1) for x in i.ops)

class Region:
    """what one function establishes about region (g, lo, hi) given by three of its parameters"""
    def __init__(self, A, f, g, lo, hi):
        self.A, self.f, self.g, self.lo, self.hi = A, f, 'a%d' % g, ('a', lo), ('a', hi)
        self.ol, self.oh = 'a%d' % lo, 'a%d' % hi
        self.loops = f.loops(); self._near = {}; self._nearv = {}
        # counted loops over all dimensions: header -> (counter, edge taken when all have been visited)
        self.ivs, self.done = {}, {}
        for h in self.loops:
            for i in f.blocks[h]:
                if i.op == 'phi':
                    d = self.counts(i)
                    if d is not None: self.ivs[h] = i.id; self.done[h] = (h, d)
    def ndim(self, o):
        f = self.f; j = f.V(f.strip(o))
        if j is None: return False
        if j.op == 'load':
            r, pa = f.addr(j.ops[0])
            if f.leaf_addr(j.ops[0]) == 'global_array_t.ndim': return any(dep(f, q[1], self.g) for q in pa if isinstance(q, tuple))
            if r[0] == 'al': return any(c.op == 'call' and c.callee in INQ and c.ops[0] == self.g and f.addr(c.ops[2])[0] == r for c in f.insts)
        return j.op == 'call' and j.callee in ('pnga_ndim', 'pnga_get_dimension') and j.ops[0] == self.g
    def counts(self, i):
        """phi of a loop header running over all dimensions"""
        f = self.f; body = self.loops[i.blk]
        init = [o for o, b in zip(i.ops, i.x['bs']) if b not in body]; nx = [o for o, b in zip(i.ops, i.x['bs']) if b in body]
        if len(set(map(str, nx))) != 1: return None
        n = f.V(f.strip(nx[0]))
        if n is None or n.op not in ('add', 'sub') or f.strip(n.ops[0]) != i.id: return None
        st = int(n.ops[1][2:]) if isinstance(n.ops[1], str) and n.ops[1].startswith('c:') else 0
        st = st if n.op == 'add' else -st
        t = f.blocks[i.blk][-1]
        if t.op != 'br' or len(t.x['t']) != 2 or t.x['t'][0] == t.x['t'][1]: return None
        c = f.V(t.ops[0])
        if c is None or c.op != 'icmp': return None
        r = self.bound(c, i, st, init)
        if r is None: return None
        return t.x['t'][1 if r else 0]
    def bound(self, c, i, st, init):
        """does comparison c say that counter i still has dimensions to visit (True), has none (False), or neither (None)"""
        f = self.f
        pr = c.x['p'].lstrip('su'); a, b = c.ops
        if f.strip(b) == i.id: a, b, pr = b, a, SWP[pr]
        if f.strip(a) != i.id: return None
        if st == 1 and init == ['c:0'] and self.ndim(b): return True if pr in ('lt', 'ne') else False if pr in ('ge', 'eq') else None
        if st == -1 and len(init) == 1:
            k = f.V(f.strip(init[0]))
            if k is None or k.op not in ('sub', 'add') or k.ops[1] not in ('c:1', 'c:-1') or not self.ndim(k.ops[0]): return None
            if b == 'c:0' and pr in ('ge', 'lt') or b == 'c:-1' and pr in ('gt', 'le'): return pr in ('ge', 'gt')
        return None
    def later(self, b, k):
        """a test of a loop counter after the loop: (header, still dimensions to visit)"""
        f = self.f; t = f.blocks[b][-1]
        if t.op != 'br' or len(t.x['t']) != 2 or t.x['t'][0] == t.x['t'][1]: return None
        c = f.V(t.ops[0])
        if c is None or c.op != 'icmp': return None
        for h, iv in self.ivs.items():
            if b in self.loops[h]: continue
            i = f.V(iv); body = self.loops[h]
            init = [o for o, q in zip(i.ops, i.x['bs']) if q not in body]
            st = 1 if init == ['c:0'] else -1
            r = self.bound(c, i, st, init)
            if r is not None: return h, r == (k == t.x['t'][0])
        return None
    def elem(self, o):
        """(root, index) of a loaded element, or ('dims', index)"""
        f = self.f; i = f.V(f.strip(o))
        if i is None or i.op != 'load': return None
        r, pa = f.addr(i.ops[0])
        ix = [q[1] for q in pa if isinstance(q, tuple)]
        if f.leaf_addr(i.ops[0]) == 'global_array_t.dims':
            return ('dims', f.strip(ix[-1]) if len(ix) > 1 else 'c:0') if any(dep(f, q, self.g) for q in ix[:1]) else None
        if r[0] == 'al' and any(c.op == 'call' and c.callee in INQ and c.ops[0] == self.g and f.addr(c.ops[3])[0] == r for c in f.insts): r = 'dims'
        if len(ix) > 1: return None
        return r, f.strip(ix[0]) if ix else 'c:0'
    def ghost(self, o):
        """bound of the block with its ghost cells: ('lo'|'hi', index)"""
        f = self.f; i = f.V(f.strip(o))
        if i is None or i.op not in ('sub', 'add'): return None
        w = f.V(f.strip(i.ops[1])); a = i.ops[0]
        if i.op == 'add' and (w is None or w.op != 'load' or f.leaf_addr(w.ops[0]) != 'global_array_t.width'): w, a = f.V(f.strip(i.ops[0])), i.ops[1]
        if w is None or w.op != 'load' or f.leaf_addr(w.ops[0]) != 'global_array_t.width': return None
        ix = [q[1] for q in f.addr(w.ops[0])[1] if isinstance(q, tuple)]
        e = self.elem(a)
        if e is None or e[0] == 'dims' or f.strip(ix[-1]) != e[1] or not any(dep(f, q, self.g) for q in ix[:1]): return None
        for c in f.insts:
            if c.op == 'call' and c.callee == 'pnga_distribution' and c.ops[0] == self.g:
                for k, what, op in ((2, 'lo', 'sub'), (3, 'hi', 'add')):
                    if f.addr(c.ops[k])[0] == e[0] and i.op == op: return what, e[1]
        return None
    def atoms(self, c, truth, al, out, d=0):
        i = self.f.V(c)
        if i is None or d > 12: return
        if i.id in al: return self.atoms(al[i.id], truth, al, out, d + 1)
        if i.op == 'icmp':
            pr = i.x['p'].lstrip('su'); a, b = i.ops
            if not truth: pr = NEG[pr]
            if pr in ('eq', 'ne') and b == 'c:0':
                j = self.f.V(self.f.strip(a))
                j = self.f.V(al.get(j.id, j.id)) if j is not None else None
                if j is not None and j.op in ('zext', 'sext'): j = self.f.V(j.ops[0])
                if j is not None and (j.ty == 'i1' or j.op in ('and', 'or', 'xor', 'phi', 'select')): self.atoms(j.id, pr == 'ne', al, out, d + 1)
            out.append((pr, a, b)); out.append((SWP[pr], b, a))
        elif i.op in ('zext', 'sext', 'freeze', 'trunc'): self.atoms(i.ops[0], truth, al, out, d + 1)
        elif i.op == 'xor' and i.ops[1] in ('c:-1', 'c:1'): self.atoms(i.ops[0], not truth, al, out, d + 1)
        elif i.op == 'or' and not truth or i.op == 'and' and truth:
            for o in i.ops: self.atoms(o, truth, al, out, d + 1)
        elif i.op == 'select' and (truth and i.ops[2] == 'c:0' or not truth and i.ops[1] in ('c:-1', 'c:1')):
            self.atoms(i.ops[0], truth, al, out, d + 1); self.atoms(i.ops[1] if truth else i.ops[2], truth, al, out, d + 1)
    def learn(self, b, k, al):
        """{(fact, index)} known on edge b -> k"""
        f = self.f; t = f.blocks[b][-1]; got = set(); calls = []
        if t.op != 'br' or len(t.x['t']) != 2 or t.x['t'][0] == t.x['t'][1]: return got, calls
        at = []
        self.atoms(t.ops[0], k == t.x['t'][0], al, at)
        for pr, x, y in at:
            if y == 'c:0' and pr == 'ne':
                c = f.V(f.strip(x))
                if c is not None and c.op in ('call', 'invoke'): calls.append(c)
                if c is not None and c.op == 'load' and f.leaf_addr(c.ops[0]) == 'global_array_t.actv' and any(dep(f, q[1], self.g) for q in f.addr(c.ops[0])[1] if isinstance(q, tuple)): got.add(('act', None))
            e = self.elem(x)
            if e is None: continue
            gh = self.ghost(y)
            if gh is not None and gh[1] == e[1]:
                if e[0] == self.lo and pr in ('ge', 'gt') and gh[0] == 'lo': got.add(('lo', e[1]))
                if e[0] == self.hi and pr in ('le', 'lt') and gh[0] == 'hi': got.add(('hi', e[1]))
            r, ix = e
            if r == self.lo and (pr, y) in (('ge', 'c:1'), ('gt', 'c:0')): got.add(('lo', ix))
            e2 = self.elem(y)
            if e2 is None or e2[1] != ix: continue
            if r == self.hi and pr in ('le', 'lt') and e2[0] == 'dims': got.add(('hi', ix))
            if r == self.lo and pr in ('le', 'lt') and e2[0] == self.hi: got.add(('le', ix))
        return got, calls
    def run(self, limit=60000):
        """-> (facts at successful returns, [(event, missing)])"""
        f, A = self.f, self.A
        self.ev, self.rets = {}, None
        def step(i, s, q):
            est, it, al = s
            if i.op in ('call', 'invoke') and i.callee:
                t = A.p.target(i)
                if XFER.match(i.callee): self.event(i, est, NEED)
                elif t is not None:
                    gs = [n for n, o in enumerate(i.ops) if dep(f, o, self.g)]
                    if gs:
                        ls = [n for n, o in enumerate(i.ops) if o == self.ol]; hs = [n for n, o in enumerate(i.ops) if o == self.oh]
                        if t.name in LOCATE: return s
                        if (t.name, gs[0]) in A.checked and not (ls and hs): return s
                        if ls and hs:
                            r = A.region(t, gs[0], ls[0], hs[-1])
                            if r[1]: self.event(i, est, frozenset().union(*[m for _, m in r[1]]))
                            if r[0]: return est | r[0], it, al
                        elif t.name in A.acc: self.event(i, est, NEED)
            elif i.op == 'ret':
                if f.name in LOCATE:
                    v = q.const(i.ops[0]) if i.ops else None
                    if v == 0 or i.ops and i.ops[0] == 'c:0': return s
                self.rets = est if self.rets is None else self.rets & est
            return s
        def edge(b, k, s, q):
            est, it, al = s
            al = dict(al)
            got, calls = self.learn(b, k, al)
            for c in calls:
                t = A.p.target(c)
                if t is not None and t.name in LOCATE and dep(f, c.ops[0], self.g):
                    ls = [n for n, o in enumerate(c.ops) if o == self.ol]; hs = [n for n, o in enumerate(c.ops) if o == self.oh]
                    g3 = LOCATE[t.name]
                    if ls and hs: est = est | A.region(t, *g3)[0]
                    else:
                        # one corner at a time
                        r = A.region(t, *g3)[0]
                        if ls and {'lo', 'hi'} <= r: est = est | {'lo', 'lo<'}
                        if hs and {'lo', 'hi'} <= r: est = est | {'hi', 'hi>'}
            it = dict(it)
            for what, ix in got:
                if what == 'act': est = est | {'act'}
                for h, iv in self.ivs.items():
                    if ix == iv and h in it: it[h] = (it[h][0], it[h][1] | {what})
            # loop bookkeeping
            lt = self.later(b, k)
            if lt is not None and al.get(('x', lt[0])) in ('done', 'early') and (al[('x', lt[0])] == 'early') != lt[1]: return None
            for h in list(it):
                if (b, k) == self.done[h]: al[('x', h)] = 'done'
                if b in self.loops[h] and k not in self.loops[h]:
                    if al.get(('x', h)) == 'done': est = est | it[h][0]
                    else: al[('x', h)] = 'early'
                    del it[h]
                elif k == h and b in self.loops[h]: it[h] = (it[h][0] & it[h][1], frozenset())
            if k in self.ivs and b not in self.loops[k]:
                it[k] = (NEED | {'le'}, frozenset()); al.pop(('x', k), None)
            for i in f.blocks[k]:
                if i.op != 'phi': break
                if i.ty == 'i1' or i.id in self.flags:
                    for o, pb in zip(i.ops, i.x['bs']):
                        if pb == b:
                            if isinstance(o, int): al[i.id] = al.get(o, o)
                            else: al.pop(i.id, None)
            if NEED | {'le'} <= est: return est, frozenset(), frozenset()
            return est, frozenset(it.items()), frozenset((x, o) for x, o in al.items() if (self.nearx(x[1], k) if isinstance(x, tuple) else self.near(x, k)))
        # phis that carry truth values
        self.flags = set()
        for i in f.insts:
            if i.op == 'phi' and i.ty in ('i1', 'i32', 'i64', 'i8') and any(f.V(f.strip(o)) is not None and f.V(f.strip(o)).ty == 'i1' for o in i.ops if isinstance(o, int)): self.flags.add(i.id)
            elif i.op == 'phi' and any(isinstance(o, str) and o.startswith('c:') for o in i.ops) and all(isinstance(o, str) and o.startswith('c:') or f.V(o) is not None and f.V(o).op == 'phi' for o in i.ops): self.flags.add(i.id)
        # returned values and the conditions that test truth values
        self.conds = set()
        st = [i.ops[0] for i in f.insts if i.op == 'ret' and i.ops]
        while st:
            v = f.V(st.pop())
            if v is not None and v.id not in self.conds:
                self.conds.add(v.id)
                if v.op in ('phi', 'select', 'zext', 'sext', 'trunc', 'freeze'): st += [o for o in v.ops if isinstance(o, int)]
        ex = Explorer(f, step, edge=edge, limit=limit, soft=True, only=lambda x: x.id in self.flags or x.id in self.conds)
        ex.run((frozenset(['le'] if self.lo == self.hi else []), frozenset(), frozenset()))
        return self.rets or frozenset(), list(self.ev.values())
    def nearx(self, h, k):
        if k in self.loops[h]: return True
        if h not in self._near:
            f = self.f; blks = {b for b in range(len(f.blocks)) if any(self.later(b, q) is not None and self.later(b, q)[0] == h for q in f.succ[b])}
            out, w = set(), list(blks)
            while w:
                b = w.pop()
                if b in out: continue
                out.add(b)
                if b != h: w += f.pred[b]
            self._near[h] = out
        return k in self._near[h]
    def near(self, x, k):
        """may the truth value x still be tested from block k on, before it is computed again"""
        if x not in self._nearv:
            f = self.f; dom = f.insts[x].blk; st = [f.insts[x].id]; blks = set(); seen = set()
            while st:
                v = st.pop()
                for u in f.users.get(v, ()):
                    if u.id in seen: continue
                    seen.add(u.id)
                    if u.op == 'phi':
                        blks |= {pb for o, pb in zip(u.ops, u.x['bs']) if o == v}
                        continue
                    blks.add(u.blk)
                    if u.op in ('icmp', 'xor', 'and', 'or', 'zext', 'sext', 'trunc', 'freeze', 'select'): st.append(u.id)
            out, w = set(), list(blks)
            while w:
                b = w.pop()
                if b in out: continue
                out.add(b)
                if b != dom: w += f.pred[b]
            self._nearv[x] = out
        return k in self._nearv[x]
    def event(self, i, est, need):
        miss = need - est
        if miss: self.ev[i.id] = (i, miss | (self.ev[i.id][1] if i.id in self.ev else frozenset()))

class Analysis:
    def __init__(self, p):
        self.p, self.memo, self.checked = p, {}, set()
        self.acc = {f.name for f in p.all() if any(i.op in ('call', 'invoke') and i.callee and XFER.match(i.callee) for i in f.insts)}
        ch = True
        while ch:
            ch = False
            for f in p.all():
                if f.name not in self.acc and any(i.op in ('call', 'invoke') and i.callee in self.acc for i in f.insts): self.acc.add(f.name); ch = True
    def region(self, f, g, lo, hi):
        k = (f.name, g, lo, hi)
        if k not in self.memo:
            self.memo[k] = (frozenset(), [])
            try: self.memo[k] = Region(self, f, g, lo, hi).run()
            except Broken as e: self.memo[k] = (frozenset(['?']), [])
        return self.memo[k]

def _t3(*k): return [(a, a + 1, a + 2) for a in k]
ONE = 'put nbput get nbget acc nbacc put_field nbput_field get_field nbget_field strided_put strided_get strided_acc nbput_notify periodic get_ghost_block access_ptr access_idx'
OPS = {n: _t3(0) for n in (ONE + ' fill_patch scale_patch zero_patch abs_value_patch recip_patch add_constant_patch print_patch').split()}
OPS.update({n: _t3(0, 3, 6) for n in ('elem_multiply_patch elem_divide_patch elem_maximum_patch elem_minimum_patch elem_step_divide_patch '
                                     'elem_stepb_divide_patch step_mask_patch').split()})
OPS.update(median_patch=_t3(0, 3, 6, 9), step_bound_info_patch=_t3(0, 3, 6, 9), step_max_patch=_t3(0, 3), copy_patch=_t3(1, 4),
           dot_patch=[(0, 2, 3), (4, 6, 7)], add_patch=[(1, 2, 3), (5, 6, 7), (8, 9, 10)], matmul_basic=_t3(4, 7, 10), print_patch_file=_t3(1),
           read_inc=[(0, 1, 1)], locate=[(0, 1, 1)], locate_region=_t3(0), locate_nnodes=_t3(0))
FULL = NEED | {'le'}
# what a function has established about its region whenever it comes back successfully
POST = {n: FULL | {'act'} for n in 'locate locate_region locate_nnodes put nbput acc nbacc nbget put_field nbput_field get_field nbget_field nbput_notify read_inc'.split()}
POST.update({n: FULL for n in ('strided_put', 'strided_get', 'strided_acc', 'matmul_basic')})
POST.update({n: NEED | {'le', 'lo<', 'hi>'} for n in ('access_ptr', 'access_idx')})
POST.update({n: NEED for n in 'add_patch dot_patch median_patch step_bound_info_patch step_max_patch'.split() + [k for k in OPS if k.startswith(('elem_', 'step_mask'))]})
SAY = {'lo': 'that the region starts inside the array', 'hi': 'that the region ends inside the array', 'le': 'that the region is not empty',
       'act': 'that the handle is in use', 'lo<': 'who owns its first element', 'hi>': 'who owns its last element'}
# locating elements of the library's own making: indices taken from the distribution itself
OWN = {'ngai_get_first_last_indices': 'first and last index of the own mirrored block', 'pnga_scan_add': 'whole of a one-dimensional array',
       'pnga_scan_copy': 'whole of a one-dimensional array', 'gai_scan_copy_add': 'whole of a one-dimensional array',
       'pnga_pack': 'checked against the dimension', 'pnga_unpack': 'checked against the dimension', 'gai_pack_unpack': 'checked against the dimension'}


def run(ctx):
    import sys
    sys.setrecursionlimit(20000)
    ctx.rule('For each operation and each region argument, path-sensitive collection of the comparisons made on (handle, lo, hi): per dimension inside a loop '
             'over all dimensions of that array, or by a callee that makes them; a transfer of array data, or the hand-over of the handle to a function that '
             'transfers, is reached only after lo >= 1 (or >= the ghost edge) and hi <= the dimension are known, and the operations with a contract leave '
             'successfully only with the contract established.')
    ctx.rule('Every result of pnga_locate, pnga_locate_region and pnga_locate_nnodes is tested or handed back, and the failure branch neither transfers data '
             'nor reads the (unset) owner before it locates again.')
    p = ctx.prog([u for u in B.tus() if u.startswith('ga/')])
    A = Analysis(p)
    A.checked = {('pnga_' + n, o[0]) for n in OPS for o in OPS[n]} | {('gai_iterator_init', 0), ('pnga_matmul_patch', 4), ('pnga_matmul_patch', 7), ('pnga_matmul_patch', 10)}
    for n, obs in list(OPS.items()) + [('gai_iterator_init', _t3(0))]:
        f = p.need('pnga_' + n if n in OPS else n)
        for g, lo, hi in obs:
            facts, ev = A.region(f, g, lo, hi)
            if '?' in facts: raise Broken('%s: region analysis did not finish' % f.name)
            ctx.count('regions')
            bad = False
            for i, miss in ev:
                bad = True
                ctx.viol('%s:%s:%s' % (f.name, i.callee, g), '%s: %s is reached with array argument %d before it is known %s'
                         % (i.where(), i.callee, g, ' and '.join(SAY[m] for m in sorted(miss))))
            post = POST.get(n, FULL if n == 'gai_iterator_init' else frozenset())
            for m in sorted(post - facts):
                bad = True
                ctx.viol('%s:post:%s:%s' % (f.name, g, m), '%s: %s can come back successfully without having checked %s' % (f.where(), f.name, SAY[m]))
            ctx.count('conditions', len(post))
            if not bad: ctx.ok('%s(%d): %s' % (f.name, g, ', '.join(sorted(post)) or 'no transfer before the region is known'))
    ctx.count('transfers', sum(1 for f in p.all() for i in f.insts if i.op in ('call', 'invoke') and i.callee and XFER.match(i.callee)))
    results(ctx, A)
    ctx.need('regions', 70); ctx.need('conditions', 150); ctx.need('locates', 45)

def results(ctx, A):
    p = A.p
    for f in p.analysed():
        if f.name in OWN: continue
        for i in f.insts:
            if i.op not in ('call', 'invoke') or i.callee not in LOCATE: continue
            ctx.count('locates')
            bad = result(f, i, A)
            if bad: ctx.viol('%s:%s:result' % (f.name, i.callee), '%s: %s' % (i.where(), bad))
            else: ctx.ok('%s: result of %s' % (i.where(), i.callee))

def result(f, i, A):
    st, br, seen, ret = [i.id], [], set(), False
    while st:
        v = st.pop()
        for u in f.users.get(v, ()):
            if u.id in seen: continue
            seen.add(u.id)
            if u.op == 'ret': ret = True
            elif u.op == 'icmp' and ('c:0' in u.ops or 'c:1' in u.ops) and u.x['p'] in ('eq', 'ne'): br.append(u)
            elif u.op in ('trunc', 'zext', 'sext', 'freeze', 'phi', 'select', 'and', 'or', 'xor', 'icmp'): st.append(u.id)
    if not br: return None if ret else 'the result of %s is not tested' % i.callee
    outs = [f.addr(o)[0] for o in i.ops[LOCATE[i.callee][2] + 1:] if o not in ('n',)]
    fails = []
    for c in br:
        # through i1 conversions to the branch
        st, seen = [(c.id, (c.x['p'] == 'eq') == ('c:0' in c.ops))], set()
        while st:
            v, failtrue = st.pop()
            for u in f.users.get(v, ()):
                if u.op == 'br' and len(u.x['t']) == 2: fails.append((u.blk, u.x['t'][0 if failtrue else 1]))
                elif u.op == 'xor': st.append((u.id, not failtrue))
                elif u.op in ('zext', 'sext', 'freeze', 'trunc'): st.append((u.id, failtrue))
                elif u.op == 'icmp' and 'c:0' in u.ops and u.x['p'] in ('eq', 'ne') and (u.id, failtrue) not in seen:
                    seen.add((u.id, failtrue)); st.append((u.id, failtrue == (u.x['p'] == 'ne')))
                elif u.op == 'ret': ret = True
    if not fails: return None if ret or any(u.op in ('phi', 'select', 'ret', 'store') for c in br for u in f.users.get(c.id, ())) else 'the result of %s is not tested' % i.callee
    for b, k in fails:
        st, seen = [k], set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); stop = False
            for j in f.blocks[x]:
                if j.op in ('call', 'invoke') and j.callee:
                    if j.callee in LOCATE: stop = True; break
                    if XFER.match(j.callee) or A.p.target(j) is not None and j.callee in A.acc:
                        return 'after %s failed %s is called (%s)' % (i.callee, j.callee, j.where())
                if j.op == 'load' and f.addr(j.ops[0])[0] in outs and f.addr(j.ops[0])[0][0] == 'al':
                    return 'after %s failed its result is read (%s)' % (i.callee, j.where())
            if not stop: st += f.succ[x]
    return None
