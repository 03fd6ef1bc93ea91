"""Whatever an operation acquires for its own use is given back exactly once, by the matching release, on every path."""
from vlib.util import *
from vlib.paths import Explorer
from vlib import build as B

# kind -> (acquirers {callee: ('ret',) | ('out', k) | ('obj', k)}, releasers {callee: (k, by)}) ; by: 'val' the value, 'ptr' address of the cell
KINDS = {
    'memory': ({'malloc': 'ret', 'calloc': 'ret', 'realloc': 'ret', 'strdup': 'ret', 'strndup': 'ret'}, {'free': 0, 'realloc': 0}),
    'C++ object': ({'_Znwm': 'ret', '_Znam': 'ret'}, {'_ZdlPv': 0, '_ZdlPvm': 0, '_ZdaPv': 0, '_ZdaPvm': 0}),
    'work space': ({'pnga_malloc': 'ret', 'ga_malloc': 'ret'}, {'pnga_free': 0, 'ga_free': 0}),
    'local shared memory': ({'ARMCI_Malloc_local': 'ret', 'PARMCI_Malloc_local': 'ret', 'comex_malloc_local': 'ret', 'ARMCI_Malloc_local_memdev': 'ret'},
                            {'ARMCI_Free_local': 0, 'PARMCI_Free_local': 0, 'comex_free_local': 0}),
    'stack block': ({'MA_push_get': 3, 'MA_push_stack': 3}, {'MA_pop_stack': 0, 'MA_chop_stack': 0}),
    'heap block': ({'MA_alloc_get': 3, 'MA_allocate_heap': 3}, {'MA_free_heap': 0}),
    # pnga_allocate destroys the handle itself when it fails; its callers then give up
    'temporary array': ({'pnga_duplicate': 1, 'pnga_create_handle': 'ret', 'pnga_create': 5}, {'pnga_destroy': 0}),
    'MPI datatype': ({'MPI_Type_contiguous': 2, 'MPI_Type_vector': 4, 'MPI_Type_hvector': 4, 'MPI_Type_create_hvector': 4, 'MPI_Type_indexed': 4,
                      'MPI_Type_create_struct': 4, 'MPI_Type_create_subarray': 6, 'MPI_Type_create_hindexed': 4, 'MPI_Type_hindexed': 4},
                     {'MPI_Type_free': ('cell', 0)}),
    'MPI group': ({'MPI_Comm_group': 1, 'MPI_Group_incl': 3, 'MPI_Win_get_group': 1}, {'MPI_Group_free': ('cell', 0)}),
    'MPI communicator': ({'MPI_Comm_dup': 1, 'MPI_Comm_split': 3, 'MPI_Comm_create': 2, 'MPI_Intercomm_create': 5, 'MPI_Intercomm_merge': 2}, {'MPI_Comm_free': ('cell', 0)}),
    'stream': ({'fopen': 'ret'}, {'fclose': 0}),
    'directory': ({'opendir': 'ret'}, {'closedir': 0}),
    'patch iterator': ({'gai_iterator_init': ('obj', 3)}, {'gai_iterator_destroy': 0}),
}
ACQ = {n: (k, h) for k, (a, r) in KINDS.items() for n, h in a.items()}
REL = {}
for k, (a, r) in KINDS.items():
    for n, h in r.items(): REL.setdefault(n, (k, h))
NOTTOUCH = re.compile(r'^llvm\.(dbg|lifetime|assume)')

BORROWS = {'pnga_allocate', 'wnga_allocate'}
class Summ:
    """what functions do with their pointer parameters: 'borrow' | 'keep' (stored somewhere or returned) | 'free:<kind>'"""
    def __init__(self, p): self.p, self.memo, self.busy = p, {}, set()
    def param(self, g, k):
        key = (g, k)
        if key in self.memo: return self.memo[key]
        self.memo[key] = {'borrow'}
        for _ in range(3):
            r = self.flow(g, 'a%d' % k)
            if r == self.memo[key]: break
            self.memo[key] = r
        return self.memo[key]
    def flow(self, f, start):
        out, seen, st = set(), set(), [(start, False)]
        cells = set()
        class L(list):
            def append(self, x): list.append(self, x if isinstance(x, tuple) else (x, mixed))
        st = L(st); mixed = False
        while st:
            o, mixed = st.pop()
            if (o, mixed) in seen: continue
            seen.add((o, mixed))
            us = f.users.get(o, ()) if isinstance(o, int) else [i for i in f.insts if o in i.ops]
            for i in us:
                if i.op in ('bitcast', 'phi', 'select', 'freeze', 'ptrtoint', 'inttoptr', 'getelementptr', 'sext', 'zext', 'trunc', 'add', 'sub'):
                    if i.op == 'getelementptr' and i.ops[0] != o: continue
                    st.append((i.id, mixed or i.op in ('phi', 'select') and len({x for x in i.ops[i.op == 'select':] if x not in ('n', 'u')}) > 1))
                elif i.op == 'store' and i.ops[0] == o:
                    root, path = f.addr(i.ops[1])
                    if root[0] == 'al':
                        if root[1] not in cells:
                            cells.add(root[1])
                            # a cell that also receives other values: what is read back may be one of those
                            other = any(j is not i and (j.op == 'store' and f.addr(j.ops[1])[0] == root and j.ops[0] != o or
                                        j.op in ('call', 'invoke') and not (j.callee and NOTTOUCH.match(j.callee)) and any(isinstance(x, int) and f.V(x).ty == 'ptr' and f.addr(x)[0] == root for x in j.ops)) for j in f.insts)
                            for j in f.insts:
                                if j.op == 'load' and f.addr(j.ops[0])[0] == root: st.append((j.id, mixed or other))
                    else:
                        c = f.V(root[1]) if root[0] == 'v' else None
                        if c is not None and c.op == 'call' and c.callee in ACQ and ACQ[c.callee] == ('memory', 'ret') and (f, c.id) not in self.busy:
                            # kept in a temporary table: what happens to that?
                            self.busy.add((f, c.id))
                            if 'keep' in self.flow(f, c.id): out.add('keep')
                            self.busy.discard((f, c.id))
                        else: out.add('keep')
                elif i.op in ('call', 'invoke'):
                    for n, a in enumerate(i.ops):
                        if a == o: out |= {x for x in self.call(i, n) if not (mixed and x.startswith('free'))}
                elif i.op == 'ret': out.add('keep')
        return out or {'borrow'}
    def call(self, i, n):
        c = i.callee
        if c in BORROWS: return {'borrow'}
        if c is None: return {'keep'}
        if c in REL and REL[c][1] == n: return {'free:' + REL[c][0]}
        if c in REL or c in ACQ: return {'borrow'}
        t = self.p.target(i)
        if t is None: return {'borrow'}
        if n >= len(t.dty) - 1 and t.dty: return {'borrow'} if n >= len(t.args) else self.param(t, n)
        return self.param(t, n)

def fresh(p):
    """functions that hand a freshly acquired value to their caller: {name: kind}"""
    out = {}
    for _ in range(3):
        for f in p.all():
            if f.name in ACQ or f.name in out: continue
            for i in f.insts:
                if i.op != 'ret' or not i.ops: continue
                st, seen, got, bad = [i.ops[0]], set(), set(), False
                while st:
                    o = st.pop()
                    if o in seen: continue
                    seen.add(o)
                    v = f.V(o)
                    if v is None:
                        if o not in ('n', 'u'): bad = True
                        continue
                    if v.op in ('phi', 'select', 'bitcast', 'freeze'): st += v.ops[1:] if v.op == 'select' else v.ops
                    elif v.op in ('call', 'invoke') and v.callee:
                        k = ACQ.get(v.callee, (None, None)); t = p.target(v)
                        if k[1] == 'ret' and v.callee not in ('pnga_create_handle',): got.add(k[0])
                        elif t is not None and t.name in out: got.add(out[t.name])
                        else: bad = True
                    else: bad = True
                if got and not bad and len(got) == 1 and not any(kept(p, f, v) for v in seen if isinstance(v, int)): out[f.name] = got.pop()
    return out

def fresh_out(p):
    """functions that hand a freshly acquired value to their caller through a pointer parameter: {name: (kind, k)}"""
    out = {}
    for _ in range(2):
        for f in p.analysed():
            if f.name in ACQ or f.name in out: continue
            for i in f.insts:
                if i.op not in ('call', 'invoke') or not i.callee: continue
                k, h = ACQ.get(i.callee) or out.get(i.callee) or (None, None)
                if isinstance(h, int) and h < len(i.ops) and isinstance(i.ops[h], str) and re.match(r'a\d+$', i.ops[h]): out[f.name] = (k, int(i.ops[h][1:]))
    return out

def kept(p, f, v):
    return any(u.op == 'store' and u.ops[0] == v and f.addr(u.ops[1])[0][0] != 'al' for u in f.users.get(v, ()))

class Site:
    def __init__(self, f, i, kind, how, summ, fr):
        self.f, self.i, self.kind, self.how, self.summ, self.fr = f, i, kind, how, summ, fr
        self.bad = []
        self.escaped = False
        self._giv = None; self.gaveup = False; self.loops = f.loops()
    def cellkey(self, o):
        root, path = self.f.addr(o)
        if root[0] != 'al': return None
        for p in path:
            if isinstance(p, tuple) and any(isinstance(x, int) and False for x in p): return None
        return (root[1], tuple(path))
    def run(self):
        f = self.f
        self.al = {i.id for i in f.insts if i.op == 'alloca'}
        self.local = self._local_cells()
        if self.how == 'ret': obj = None
        else:
            k = self.how[1] if isinstance(self.how, tuple) else self.how
            root, path = f.addr(self.i.ops[k])
            if root[0] != 'al': self.escaped = True; return
            obj = (root[1], path)
        self.obj = obj
        self.explore(None, 3000)
    def explore(self, only, limit):
        f = self.f
        ex = self.ex = Explorer(f, self.step, track=lambda x: x is self.i, edge=self.edge, only=only, limit=limit,
                                keep=[self.i.id] if self.i.ty != 'void' else [], merge=True, soft=True)
        try: ex.run(('none', frozenset(), frozenset()), self.i.blk); return
        except Broken:
            if only is not None: raise
            self.gaveup = False
        # too many combinations: keep only what is known about the conditions that decide on the site and on its releases
        ids = set()
        for b in self.givers() | {self.i.blk}:
            for c in f.all_cdeps(b):
                t = f.blocks[c[0] if isinstance(c, tuple) else c][-1]
                if t.ops:
                    m = {}; ex._cond_atoms(t.ops[0], m, t.id, 0); ids |= set(m)
        st = list(ids)
        while st:
            v = f.V(st.pop())
            if v is not None and v.op in ('phi', 'select', 'zext', 'sext', 'trunc', 'freeze'):
                for o in v.ops:
                    if isinstance(o, int) and o not in ids: ids.add(o); st.append(o)
        kk = {ex.rep[v][0] for v in ids if v in ex.rep}
        ids |= {v for v, (n, sg) in ex.rep.items() if n in kk}
        self.bad = []
        try: self.explore(lambda x: x.id in ids, 20000); return
        except Broken: self.bad = []
        # nothing but the outcome of the acquisition itself: decides the sites that need no correlation
        self.explore(lambda x: False, 40000)
        if self.bad: self.bad = []; raise Broken('undecided')
    def _local_cells(self):
        """allocas whose address is only used for loads and stores (through constant offsets) and as call arguments that borrow"""
        return self.al
    def alias(self, s, o):
        return isinstance(o, int) and o in s[1]
    def has(self, al, o):
        """1: holds it, 2: points inside it, 0: neither"""
        return (1 if o in al else 2 if ~o in al else 0) if isinstance(o, int) else 0
    def edge(self, b, k, s, q):
        if s[0] == 'none': return s
        f = self.f
        # leaving a loop that gives the object away in one of its iterations: whether that iteration came is a matter of arithmetic
        if s[0] == 'own' and self.givers():
            for h, body in self.loops.items():
                if b in body and k not in body and self.i.blk not in body and self.givers() & body: self.gaveup = True; return None
        t = f.blocks[b][-1]
        if t.op == 'br' and len(t.x['t']) == 2 and t.x['t'][0] != t.x['t'][1]:
            c = f.V(t.ops[0])
            if c is not None and c.op == 'icmp' and c.x['p'] in ('eq', 'ne') and any(isinstance(o, str) and re.match(r'g:ompi_mpi_\w+_null$', o) for o in c.ops) \
                    and any(self.has(s[1], o) for o in c.ops) and s[0] == 'own':
                if (k == t.x['t'][0]) == (c.x['p'] == 'eq'): return None
        add = set()
        for i in self.f.blocks[k]:
            if i.op != 'phi': break
            for o, pb in zip(i.ops, i.x['bs']):
                if pb == b:
                    h = self.has(s[1], o)
                    if h: add.add(i.id if h == 1 else ~i.id)
        drop = {x for i in self.f.blocks[k] if i.op == 'phi' for x in (i.id, ~i.id)}
        al = (set(s[1]) - drop) | add
        # forget aliases nobody uses any more
        al = {v for v in al if self.usedfrom(v if v >= 0 else ~v, k)}
        if s[0] == 'rel' and not al and not any(self.cellused(c, k) for c in s[2]): return None
        return (s[0], frozenset(al), s[2])
    def givers(self):
        """blocks in which (an alias of) the object is stored elsewhere, passed to a function that keeps it, or released"""
        if self._giv is None:
            f = self.f; self._giv = g = set()
            st, seen, cells = ([self.i.id] if self.how == 'ret' else []), set(), ({self.obj} if self.obj else set())
            for i in f.insts:
                if i.op == 'load' and self.obj and self.cellkey(i.ops[0]) == self.obj: st.append(i.id)
                if i.op in ('call', 'invoke') and i is not self.i and self.obj and any(isinstance(o, int) and f.V(o).ty == 'ptr' and (self.cellkey(o) or (None,))[0] == self.obj[0] and i.callee in REL for o in i.ops): g.add(i.blk)
            while st:
                o = st.pop()
                if o in seen: continue
                seen.add(o)
                for u in f.users.get(o, ()):
                    if u.op in ('bitcast', 'phi', 'select', 'getelementptr', 'sext', 'zext', 'trunc', 'freeze'):
                        if u.op != 'getelementptr' or u.ops[0] == o: st.append(u.id)
                    elif u.op == 'store' and u.ops[0] == o:
                        c = self.cellkey(u.ops[1])
                        if c is None or self.vararg(u.ops[1]): g.add(u.blk)
                        elif c not in cells:
                            cells.add(c)
                            for j in f.insts:
                                if j.op == 'load' and self.cellkey(j.ops[0]) == c: st.append(j.id)
                    elif u.op in ('call', 'invoke'):
                        for n, a in enumerate(u.ops):
                            if a == o and (u.callee in REL and REL[u.callee][1] == n or self.summ.call(u, n) - {'borrow'}): g.add(u.blk)
        return self._giv
    def cellused(self, c, k):
        if not hasattr(self, '_cu'): self._cu = {}
        ub = self._cu.get(c)
        if ub is None:
            ub = self._cu[c] = set()
            for i in self.f.insts:
                if i.op == 'load' and self.cellkey(i.ops[0]) == c or i.op in ('call', 'invoke') and any(isinstance(o, int) and self.f.V(o).ty == 'ptr' and (self.cellkey(o) or (None,))[0] == c[0] for o in i.ops if o != self.i.id):
                    ub.add(i.blk)
        return k in ub or bool(ub & self.f.reach(k))
    def usedfrom(self, v, k):
        if not hasattr(self, '_u'): self._u = {}
        ub = self._u.get(v)
        if ub is None:
            ub = set()
            for u in self.f.users.get(v, ()):
                ub.add(u.blk)
                if u.op == 'phi':
                    for o, pb in zip(u.ops, u.x['bs']):
                        if o == v: ub.add(pb)
            self._u[v] = ub
        return k in ub or bool(ub & self.f.reach(k))
    def report(self, what, i, s):
        self.bad.append((what, i, s))
    def step(self, i, s, q):
        f = self.f
        if i is self.i:
            if s[0] == 'own': self.report('lost', i, s)
            if i.callee == 'realloc': pass
            if self.how == 'ret': return ('own', frozenset([i.id]), frozenset())
            return ('own', frozenset(), frozenset([self.obj]))
        st, al, cells = s
        if st == 'none': return s
        if i.id in al or ~i.id in al: al = al - {i.id, ~i.id}; s = (st, al, cells)
        if i.op in ('bitcast', 'freeze', 'getelementptr', 'ptrtoint', 'inttoptr', 'sext', 'zext', 'trunc'):
            h = self.has(al, i.ops[0]) if i.ops else 0
            if h:
                if i.op == 'getelementptr' and not all(x[0] == 'f' and x[2] == 0 or x[1] == 'c:0' for x in i.x.get('gp', ())): h = 2
                return (st, al | {i.id if h == 1 else ~i.id}, cells)
            return s
        if i.op in ('add', 'sub') and self.kind in ('memory', 'work space'):
            if any(self.has(al, o) for o in i.ops): return (st, al | {~i.id}, cells)
            return s
        if i.op == 'select':
            hs = [self.has(al, o) for o in i.ops[1:]]
            if any(hs): return (st, al | {i.id if 1 in hs else ~i.id}, cells)
            return s
        if i.op == 'load':
            if self.has(al, i.ops[0]):
                if st == 'rel': self.report('use', i, s); return None
                return s
            c = self.cellkey(i.ops[0])
            if c in cells: return (st, al | {i.id}, cells)
            return s
        if i.op == 'store':
            if self.has(al, i.ops[1]) and st == 'rel': self.report('use', i, s); return None
            c = self.cellkey(i.ops[1])
            if self.has(al, i.ops[0]):
                if c is None or any(not isinstance(x, (int, str, tuple)) for x in c[1]): self.escaped = True; return None
                if self.vararg(i.ops[1]): self.escaped = True; return None
                return (st, al, cells | {c})
            if c in cells and c != self.obj: return (st, al, cells - {c})
            if c in cells and c == self.obj and self.how != 'ret' and not isinstance(self.how, tuple):
                return (st, al, cells - {c})
            return s
        if i.op in ('call', 'invoke'):
            c = i.callee
            if c and NOTTOUCH.match(c): return s
            rel = REL.get(c)
            for n, o in enumerate(i.ops):
                if not isinstance(o, int): continue
                cell = None
                hv = self.has(al, o)
                if hv: hit = True
                else:
                    ck = self.cellkey(o) if f.V(o) is not None and f.V(o).ty == 'ptr' else None
                    if ck is None: continue
                    cell = [x for x in cells if x[0] == ck[0]]
                    if not cell: continue
                    hit = False
                if hit:
                    if rel and rel[1] == n:
                        if rel[0] != self.kind and not {rel[0], self.kind} == {'memory'}: self.report('mismatch', i, s); return None
                        if hv == 2: self.report('inside', i, s); return None
                        if st == 'rel': self.report('twice', i, s); return None
                        if st == 'own': return ('rel', al, cells)
                        continue
                    if st == 'rel' and c not in ('printf', 'fprintf'):
                        self.report('use', i, s); return None
                    if c in ACQ or c in REL: continue
                    w = self.summ.call(i, n)
                    if self.kind == 'temporary array': w = w - {'keep'}   # handles are numbers; the tables belong to the library
                    if 'keep' in w: self.escaped = True; return None
                    fr = [x[5:] for x in w if x.startswith('free:')]
                    if fr:
                        if self.kind not in fr: self.report('mismatch', i, s); return None
                        return ('rel', al, cells)
                else:
                    # the address of the cell that holds it
                    if rel and rel[1] in (('cell', n), n) and self.obj and cell:
                        if rel[0] != self.kind: continue
                        if st == 'rel': self.report('twice', i, s); return None
                        return ('rel', al, cells)
                    if c in ACQ or c in REL: continue
                    t = self.summ.p.target(i)
                    if self.kind in ('patch iterator', 'temporary array'): continue
                    if t is not None and (self.obj or cell):
                        w = self.cellarg(t, n)
                        if w == 'free': return ('rel', al, cells)
                        if w == 'keep': self.escaped = True; return None
                    elif c is None: self.escaped = True; return None
            return s
        if i.op == 'ret':
            if st == 'own':
                if i.ops and self.has(al, i.ops[0]): return None
                # known null here: nothing was acquired
                if self.how == 'ret' and q.nz(self.i.id) is False: return None
                if self.failed(q): return None
                self.report('leak', i, s)
            return None
        return s
    def failed(self, q):
        """acquisition known to have failed on this path"""
        if self.how == 'ret': return q.const(self.i.id) == 0
        if self.i.callee.startswith('MPI_'): c = q.const(self.i.id); return c not in (None, 0) or q.nz(self.i.id) is True
        r = q.ev(self.i.id, q.cur)
        return r is not None and (r == ('eq', 0) or r[0] == 'ne' and 1 in r[1])
    def vararg(self, o):
        """address with a variable index"""
        f = self.f; i = f.V(o)
        while i is not None and i.op in ('getelementptr', 'bitcast'):
            if i.op == 'getelementptr' and any(isinstance(x[1], int) for x in i.x.get('gp', ())): return True
            i = f.V(i.ops[0])
        return False
    def cellarg(self, t, n):
        """what a callee does with what the cell it is given the address of holds"""
        f = t; out = 'borrow'
        a = 'a%d' % n
        for i in f.insts:
            if i.op == 'load' and f.addr(i.ops[0])[0] == ('a', n):
                w = self.summ.flow(f, i.id)
                if any(x.startswith('free:') for x in w): return 'free'
                if 'keep' in w: out = 'keep'
            elif i.op in ('call', 'invoke') and i.callee:
                for k, o in enumerate(i.ops):
                    if o == a:
                        if i.callee in REL and REL[i.callee][1] in (('cell', k), k): return 'free'
                        t2 = self.summ.p.target(i)
                        if t2 is not None and t2 is not t and t2.name not in ACQ:
                            w = self.cellarg(t2, k)
                            if w == 'free': return 'free'
                            if w == 'keep': out = 'keep'
            elif i.op == 'store' and i.ops[0] == a and f.addr(i.ops[1])[0][0] != 'al': out = 'keep'
        return out

TEXT = {'leak': 'is not given back on a path that returns', 'lost': 'is acquired again while the previous one is still held', 'twice': 'is given back twice on one path',
        'use': 'is used after it was given back', 'inside': 'is given back through a pointer that no longer points to its start', 'mismatch': 'is given back with the wrong release operation'}

def work(a):
    """sites of one function -> (counters, violations)"""
    port, p, summ, fr, fo = STATE
    f = p.all_list[a]; cnt, bad = [], []
    for i in f.insts:
        if i.op not in ('call', 'invoke') or not i.callee: continue
        k = ACQ.get(i.callee)
        if k is None:
            t = p.target(i)
            if t is not None and t.name in fr: k = (fr[t.name], 'ret')
            elif t is not None and t.name in fo: k = fo[t.name]
        if k is None: continue
        s = Site(f, i, k[0], k[1], summ, fr)
        try: s.run()
        except Broken as e: cnt.append('sites too large'); continue
        cnt.append('acquisitions (%s)' % k[0])
        cnt.append('handed over to a structure or caller' if s.escaped else 'followed to every return')
        seen = set()
        for what, j, st in s.bad:
            if (what, j.id) in seen: continue
            seen.add((what, j.id))
            bad.append(('%s%s:%s:%s' % (port + ':' if port else '', f.name, i.callee, what),
                        '%s: the %s acquired at line %s %s (%s)' % (f.where(), k[0], i.where().split(':')[1].split(' ')[0], TEXT[what], j.where())))
    return cnt, bad

def run(ctx):
    global STATE
    import multiprocessing as mp, gc
    ctx.rule('Every call that acquires a resource (heap memory, C++ object, work space, registered local memory, MA stack or heap block, temporary global array, MPI datatype, group or communicator, stream, directory, patch iterator), '
             'and every call of a function whose result or out-parameter is such a fresh acquisition, is followed from its site along all paths of its function. Values and cells that hold it are tracked through copies, local variables, tables and address arithmetic; callees are summarised per parameter (borrow / keep / release of a kind).')
    ctx.rule('On every path that returns it must have been released exactly once by the release operation of its kind through its original value, not passed to anything or dereferenced afterwards, and not replaced by a second acquisition while held; or it must have been stored in a structure that outlives the call, returned, or handed to a callee that keeps it. '
             'Paths on which the acquisition is known to have failed, and paths that end in a fatal error, owe nothing.')
    ctx.assume('what is stored in a library structure or handed to the caller is released by the code that owns that structure; not followed here')
    ctx.assume('branches are correlated through constants, repeated comparisons and the outcome of the acquisition; arithmetic on loop counters is not')
    units = [u for u in B.tus() if not u.startswith(('mpi3/', 'mt/', 'pr/', 'pt/', 'ts/'))]
    progs = [('', units)] + [(port, [u for u in B.tus() if u.startswith(port + '/')]) for port in B.PORTS]
    for port, us in progs:
        p = ctx.prog(us)
        summ = Summ(p); fr = fresh(p)
        fs = [f for f in p.analysed() if f.name not in ACQ and any(i.op in ('call', 'invoke') and i.callee for i in f.insts)]
        fs.sort(key=lambda f: -len(f.insts))
        p.all_list = fs
        STATE = (port, p, summ, fr, fresh_out(p))
        gc.freeze()
        with mp.get_context('fork').Pool(8) as pool: res = pool.map(work, range(len(fs)), 4)
        for cnt, bad in res:
            for c in cnt: ctx.count(c)
            for k, m in bad: ctx.viol(k, m)
    ctx.need('followed to every return', 450); ctx.need('handed over to a structure or caller', 250)
