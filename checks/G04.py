"""Ranks are used in the numbering they belong to: remote operations address world ranks, per-array tables group ranks."""
from vlib.util import *
from vlib.sccp import SCCP
from vlib import build as B

# remote operations: position of the process argument
WSINK = {'ARMCI_Put': 3, 'ARMCI_Get': 3, 'ARMCI_PutS': 6, 'ARMCI_GetS': 6, 'ARMCI_NbPutS': 6, 'ARMCI_NbGetS': 6, 'ARMCI_AccS': 8, 'ARMCI_NbAccS': 8,
         'ARMCI_NbPut': 3, 'ARMCI_NbGet': 3, 'ARMCI_PutV': 2, 'ARMCI_GetV': 2, 'ARMCI_NbPutV': 2, 'ARMCI_NbGetV': 2, 'ARMCI_AccV': 4, 'ARMCI_NbAccV': 4,
         'ARMCI_PutS_flag': 8, 'ARMCI_Rmw': 4, 'armci_domain_id': 1, 'armci_domain_same_id': 1}
WCALL = {'ARMCI_Absolute_id', 'armci_msg_me', 'pnga_pgroup_absolute_id', 'pnga_cluster_procid', 'armci_domain_glob_proc_id'}
GARG = {'pnga_distribution': 1, 'pnga_access_block_segment_ptr': 1, 'pnga_access_block_segment_idx': 1, 'pnga_proc_topology': 1, 'pnga_get_proc_index': 1}
GCALL = {'pnga_pgroup_nodeid'}
# results through pointers: (argument position, numbering)
OUT = {'pnga_locate': (2, 'G'), 'pnga_locate_region': (4, 'G'), 'pnga_locate_nnodes': (None, None), 'gai_iterator_next': (1, 'W')}
WF = {'proc_list_t.inv_map_proc_list'}
GF = {'proc_list_t.map_proc_list', '_iterator_hdl.proclist', 'global_array_t.rstrctd_list'}
CASTS = ('sext', 'zext', 'trunc', 'freeze')

class Dom:
    def __init__(self, p): self.p = p; self.fs = {}
    def spec(self, f):
        """f as executed on an array of a proper processor group: the group handle is positive"""
        if f in self.fs: return self.fs[f]
        def loadc(i):
            l = f.leaf(i)
            if l == 'global_array_t.p_handle': return 1
            return -9 if f.addr(i.ops[0])[0] == ('g', 'GA_Init_Proc_Group') else None     # the array's group has been chosen
        def callc(i): return {'pnga_get_pgroup': 1, 'pnga_is_mirrored': 0, 'pnga_pgroup_get_world': -1}.get(i.callee)
        argc = {}
        for i in f.insts:
            if i.op == 'load' and f.leaf(i) and f.leaf(i).startswith('proc_list_t.'):
                for x in self.idx(f, i.ops[0]):
                    o = f.strip(x)
                    if isinstance(o, str) and o[0] == 'a' and o[1:].isdigit(): argc[int(o[1:])] = 1
        def cmpc(i):
            # a read-only array lives on the world group
            for x, y in (i.ops, i.ops[::-1]):
                l = f.V(f.strip(x))
                if l is not None and l.op == 'load' and f.leaf(l) == 'global_array_t.property' and y == self.ro and i.x['p'] in ('eq', 'ne'): return i.x['p'] == 'ne'
        s = SCCP(f, argc=argc, loadc=loadc, callc=callc, cmpc=cmpc)
        self.fs[f] = s
        return s
    def idx(self, f, o):
        """array indices on the way to address o"""
        out = []
        while True:
            i = f.V(o)
            if i is None or i.op not in ('getelementptr', 'bitcast', 'freeze'): return out
            if i.op == 'getelementptr':
                out += [g[1] for g in i.x['gp'] if g[0] != 'f' and not isinstance(g[1], list)]
            o = i.ops[0]
    def table(self, f, i):
        """field a loaded element comes from: load x[k] where x = load s->field"""
        r, path = f.addr(i.ops[0])
        if r[0] == 'ld':
            l = f.insts[r[1]]
            lf = f.leaf(l)
            if lf: return lf, self.idx(f, i.ops[0])
        return None, []
    def dom(self, f, o, at=None, seen=None):
        """set of numberings the value of o may be in: 'W', 'G', 'U' (computed), ('a', n)"""
        if seen is None: seen = set()
        s = self.spec(f)
        o = f.strip(o, CASTS)
        if isinstance(o, str):
            if o[0] == 'a' and o[1:].isdigit(): return {('a', int(o[1:]))}
            return set()
        if not isinstance(o, int): return {'U'}
        if o in seen: return set()
        seen.add(o)
        i = f.insts[o]
        if s.const(o) is not None: return set()
        if i.op == 'phi':
            r = set()
            for x, b in zip(i.ops, i.x['bs']):
                if (b, i.blk) in s.edges: r |= self.dom(f, x, at, seen)
            return r
        if i.op == 'select':
            c = s.const(i.ops[0])
            if c is not None: return self.dom(f, i.ops[1] if c & 1 else i.ops[2], at, seen)
            return self.dom(f, i.ops[1], at, seen) | self.dom(f, i.ops[2], at, seen)
        if i.op in ('call', 'invoke'):
            if i.callee in WCALL: return {'W'}
            if i.callee in GCALL: return {'G'}
            return {'U'}
        if i.op == 'load':
            r, path = f.addr(i.ops[0])
            if r == ('g', 'GAme'): return {'W'}
            t, _ = self.table(f, i)
            if t in WF: return {'W'}
            if t in GF: return {'G'}
            if r[0] in ('al', 'v'): return self.cell(f, r, i, seen)
            if r[0] == 'a': return {('*', r[1])}
            return {'U'}
        if i.op in ('srem', 'urem'):
            n = f.V(f.strip(i.ops[1], CASTS))
            if n is not None and (n.op == 'call' and n.callee == 'pnga_nnodes' or n.op == 'load' and f.addr(n.ops[0])[0] == ('g', 'GAnproc')): return {'M'}
        return {'U'}
    def samedef(self, f, st, ld):
        """the address operand is not recomputed between st and ld"""
        d = f.V(ld.ops[0])
        return d is None or d.op == 'alloca' or f.before(d, st)
    def cell(self, f, r, at, seen):
        """contents of a local variable or array at instruction at: the writes that reach it"""
        s = self.spec(f)
        out = set()
        scalar = r[0] == 'al' and '[' not in str(f.insts[r[1]].x.get('at_', '['))
        w = {}
        for i in f.insts:
            if i.op == 'store' and f.addr(i.ops[1])[0] == r and i.x.get('vt') == at.ty: w[i.id] = i
            elif i.op in ('call', 'invoke') and i.callee and i.callee in OUT:
                for k, o in enumerate(i.ops):
                    if isinstance(o, int) and f.addr(o)[0] == r: w[i.id] = i
        st, vis = [(at.blk, at.pos)], set()
        while st:
            b, pos = st.pop(); stop = False
            for i in reversed(f.blocks[b][:pos]):
                if i.id not in w: continue
                if i.op == 'store':
                    out |= self.dom(f, i.ops[0], i, seen)
                    if i.ops[1] == at.ops[0] and self.samedef(f, i, at): stop = True; break
                else:
                    k, d = OUT[i.callee]
                    if k is None or f.addr(i.ops[k])[0] != r: continue
                    out.add(d)
                if scalar or i.op != 'store': stop = True; break
            if stop: continue
            for q in f.pred[b]:
                if (q, b) in s.edges and q not in vis: vis.add(q); st.append((q, len(f.blocks[q])))
        return out

def run(ctx):
    ctx.rule('For every function, specialised to an array on a proper processor group: the process argument of every remote operation and fence mark is a world '
             'rank on every path; the process index of the array pointer table, and the index of the group-to-world table, is never a world rank; the index of the '
             'world-to-group table is never a group rank.')
    p = ctx.prog(GA)
    D = Dom(p)
    D.ro = 'c:%d' % next(e['READ_ONLY'] for m in p.mods.values() for e in m.enums.values() if 'READ_ONLY' in e)
    names = {'M': 'a block number folded by the size of another group', 'W': 'a world rank', 'G': 'a rank in the array\'s group', 'U': 'a computed value not translated to a world rank'}
    pend = []      # (fn, arg, kind, what) obligations on callers
    def judge(f, o, at, want, what, chain=()):
        ds = D.dom(f, o, at)
        ctx.ok('%s: %s' % (f.name, what))
        for d in sorted(ds, key=str):
            if isinstance(d, tuple):
                pend.append((f, d, want, what, chain)); continue
            if want == 'W' and d != 'W' or want == 'G' and d in 'WM' or want == 'Wx' and d == 'G':
                ctx.viol('%s:%s:%s' % (f.name, what.split(' at ')[0], d), '%s: on an array of a processor group %s is %s' % (at.where(), what, names[d]))
    for f in p.all():
        s = D.spec(f)
        for i in list(s.live()):
            if i.op in ('call', 'invoke') and i.callee in WSINK and len(i.ops) > WSINK[i.callee]:
                ctx.count('remote_operations'); judge(f, i.ops[WSINK[i.callee]], i, 'W', 'the process of %s' % i.callee)
            elif i.op in ('call', 'invoke') and i.callee in GARG: ctx.count('distribution_queries'); judge(f, i.ops[GARG[i.callee]], i, 'G', 'the process asked of %s' % i.callee)
            elif i.op in ('load', 'store'):
                if i.op == 'load' and not f.users.get(i.id): continue
                a = i.ops[0] if i.op == 'load' else i.ops[1]
                r, path = f.addr(a)
                if r[0] != 'ld': continue
                l = f.insts[r[1]]
                lf = f.leaf(l)
                base, _ = f.addr(l.ops[0])
                ix = D.idx(f, a)
                if not ix: continue
                if base == ('g', 'fence_array') and i.op == 'store': ctx.count('fence_marks'); judge(f, ix[0], i, 'W', 'the fence mark')
                elif lf == 'global_array_t.ptr': ctx.count('pointer_table'); judge(f, ix[0], i, 'G', 'the index of the array pointer table')
                elif lf == 'proc_list_t.inv_map_proc_list' and i.op == 'load': ctx.count('to_world'); judge(f, ix[0], i, 'G', 'the index of the group-to-world table')
                elif lf == 'proc_list_t.map_proc_list' and i.op == 'load': ctx.count('to_group'); judge(f, ix[0], i, 'Wx', 'the index of the world-to-group table')
    callers = defaultdict(list)
    for f in p.all():
        for i in D.spec(f).live_calls():
            t = p.target(i)
            if t is not None: callers[t].append((f, i))
    done = set()
    while pend:
        g, (k, n), want, what, chain = pend.pop()
        if (g, k, n, want, what) in done or k == '*' or 'armci_domain' in what: continue
        done.add((g, k, n, want, what))
        for f, i in callers[g]:
            if n < len(i.ops): ctx.count('through_arguments'); judge(f, i.ops[n], i, want, '%s (through %s)' % (what, g.name))
    ctx.need('remote_operations', 55); ctx.need('pointer_table', 60); ctx.need('to_world', 55); ctx.need('to_group', 15); ctx.need('fence_marks', 12)
