"""Interprocedural dependence of values on a source (here: the rank of the executing process). Labels: 'R' for the source, an integer
for the value of (or memory behind) that argument. Flow-insensitive in memory; local memory is one cell per allocation, shared memory
one cell per global or structure field."""
from .ir import *

class Taint:
    def __init__(self, prog, src_calls=(), src_cells=(), clean_calls=None, ext_pure=None, out_clean=None, implicit=True, cellok=None):
        """clean_calls: name -> True: results and written memory are the same everywhere whatever the inputs"""
        self.p, self.src_calls, self.src_cells = prog, set(src_calls), set(src_cells)
        self.clean = clean_calls or (lambda n: False)
        self.implicit = implicit
        self.cellok = cellok or (lambda c: True)
        self.fns = [f for f in prog.all()]
        self.ret = {f: frozenset() for f in self.fns}
        self.out = {f: {} for f in self.fns}       # arg index -> labels flowing into memory behind it
        self.cells = {}                            # shared cell -> True when 'R' was stored
        self.val, self.mem, self.wl, self._wr = {}, {}, {}, {}
        self.cleanmem = {f: self._cleanmem(f) for f in self.fns}
        self.callers = defaultdict(set)
        for f in self.fns:
            for i in f.calls():
                t = prog.target(i)
                if t is not None: self.callers[t].add(f)
        self.readers = defaultdict(set)
        work = deque(self.fns); inq = set(self.fns)
        n = 0
        while work:
            f = work.popleft(); inq.discard(f); n += 1
            if n > 60 * len(self.fns): raise Broken('taint does not converge')
            newcells = self.do(f)
            add = set()
            if newcells[0]: add |= self.callers[f]
            for c in newcells[1]: add |= self.readers[c]
            for g in add:
                if g not in inq: inq.add(g); work.append(g)
    def _cleanmem(self, f):
        """local allocations that receive the result of a global reduction or broadcast"""
        s = set()
        for i in f.insts:
            if i.op == 'call' and i.callee and self.clean(i.callee):
                for o in i.ops:
                    if isinstance(o, (int, list)):
                        r, _ = f.addr(o)
                        if r[0] in ('al', 'a'): s.add(r)
        return s
    def cell(self, f, o):
        """('l', root) local, ('s', name) shared, ('a', n) behind an argument"""
        r, path = f.addr(o)
        leaf = f.leaf_addr(o)
        if r[0] == 'al': return ('l', r)
        if r[0] == 'g': return ('s', r[1] if not leaf else leaf)
        if r[0] == 'a': return ('a', r[1]) if not leaf else ('s', leaf)
        if leaf: return ('s', leaf)
        return ('o', r)
    def writers(self, f, root, at):
        """ids of the instructions that may have written the local allocation last before instruction at, no cleaning call in between"""
        key = (f, root, at.id)
        if key in self._wr: return self._wr[key]
        mk = (f, root)
        if mk not in self._wr:
            m = {}
            for i in f.insts:
                if i.op == 'store' and f.addr(i.ops[1])[0] == root:
                    m[i.id] = 'kill' if f.V(i.ops[1]) is not None and f.V(i.ops[1]).op == 'alloca' and f.V(i.ops[1]).ty and '[' not in str(f.V(i.ops[1]).x) else 'write'
                elif i.op in ('call', 'invoke') and any(isinstance(o, (int, list)) and f.addr(o)[0] == root for o in i.ops):
                    m[i.id] = 'clean' if i.callee and self.clean(i.callee) else 'write'
            self._wr[mk] = m
        m = self._wr[mk]
        out, seen = set(), set()
        st = [(at.blk, at.pos)]
        while st:
            b, pos = st.pop()
            stop = False
            for i in reversed(f.blocks[b][:pos]):
                k = m.get(i.id)
                if k is None: continue
                if k == 'clean': stop = True; break
                out.add(i.id)
                if k == 'kill': stop = True; break
            if stop: continue
            for p in f.pred[b]:
                if p not in seen: seen.add(p); st.append((p, len(f.blocks[p])))
        self._wr[key] = out
        return out
    def do(self, f):
        V = self.val.setdefault(f, {}); M = self.mem.setdefault(f, {})
        E = frozenset()
        cm = self.cleanmem[f]
        newcells = []
        ctl = {}
        def lab(o):
            if isinstance(o, int): return V.get(o, E)
            if isinstance(o, str):
                if o[0] == 'a' and o[1:].isdigit(): return frozenset([int(o[1:])])
                return E
            if isinstance(o, list): return E
            return E
        def memlab(c, aux=E, at=None):
            if c[0] == 'l':
                if c[1] in cm:
                    n = E
                    if at is not None:
                        for w in self.writers(f, c[1], at): n |= W.get((w, c[1]), E)
                    return n
                return M.get(c, E)
            if c[0] == 's':
                self.readers[c[1]].add(f)
                if c[1] in self.src_cells or self.cells.get(c[1]): return frozenset('R')
                return E
            if c[0] == 'a':
                if ('a', c[1]) in cm: return E
                return M.get(c, E) | {c[1]}
            return aux
        W = self.wl.setdefault(f, {})
        def store(c, l, at=None):
            if not l: return False
            if c[0] == 'l' and c[1] in cm and at is not None:
                if l <= W.get((at.id, c[1]), E): return False
                W[(at.id, c[1])] = W.get((at.id, c[1]), E) | l; return True
            if c[0] == 's':
                if 'R' in l and not self.cells.get(c[1]) and self.cellok(c[1]):
                    self.cells[c[1]] = f.name; newcells.append(c[1])
                return False
            if c[0] == 'o': return False
            o = M.get(c, E)
            if l <= o: return False
            M[c] = o | l; return True
        def blk(b):
            """labels of the branches deciding whether block b runs"""
            if not self.implicit: return E
            s = E
            for (a, _) in f.cdeps.get(b, ()):
                t = f.blocks[a][-1]
                if t.ops: s |= lab(t.ops[0])
            return s
        ch = True; rounds = 0
        while ch:
            ch = False; rounds += 1
            bl = {}
            for i in f.insts:
                n = E
                if i.op == 'load':
                    c = self.cell(f, i.ops[0])
                    n = memlab(c, lab(i.ops[0]), i)
                    # indexed by a rank-dependent index
                    if i.ops and isinstance(i.ops[0], int) and not (c[0] == 'l' and c[1] in cm): n |= self.addrlab(f, i.ops[0], lab)
                elif i.op == 'store':
                    l = lab(i.ops[0])
                    if i.blk not in bl: bl[i.blk] = blk(i.blk)
                    if store(self.cell(f, i.ops[1]), l | bl[i.blk], i): ch = True
                    continue
                elif i.op in ('call', 'invoke'):
                    nm = i.callee
                    if nm in self.src_calls: n = frozenset('R')
                    elif nm and self.clean(nm): n = E
                    else:
                        t = self.p.target(i) if nm else None
                        if t is not None and t in self.ret:
                            def sub(ls):
                                s = set()
                                for x in ls:
                                    if x == 'R': s.add('R')
                                    elif x < len(i.ops):
                                        o = i.ops[x]
                                        s |= lab(o)
                                        if isinstance(o, (int, list)) or isinstance(o, str) and o[0] in 'ag':
                                            c = self.cell(f, o)
                                            if c[0] in 'l': s |= memlab(c, E, i)
                                return frozenset(s)
                            n = sub(self.ret[t])
                            for k, ls in self.out[t].items():
                                if k < len(i.ops):
                                    if store(self.cell(f, i.ops[k]), sub(ls), i): ch = True
                        elif nm and nm.startswith(('llvm.memcpy', 'llvm.memmove')) or nm in ('memcpy', 'memmove', 'strcpy', 'strncpy'):
                            c = self.cell(f, i.ops[1]); l = memlab(c, E, i)
                            if store(self.cell(f, i.ops[0]), l, i): ch = True
                        elif nm and not nm.startswith('llvm.'):
                            s = E
                            for o in i.ops: s |= lab(o)
                            n = s
                elif i.op == 'phi':
                    for o in i.ops: n |= lab(o)
                    if self.implicit and len(set(map(json.dumps, i.ops))) > 1:
                        n |= self.philab(f, i, lab)
                elif i.op == 'ret':
                    if i.ops:
                        l = lab(i.ops[0])
                        if not l <= self.ret[f]: self.ret[f] = self.ret[f] | l; newret = True; M['ret'] = 1; ch = True
                    continue
                elif i.op in ('alloca', 'br', 'switch', 'unreachable'): continue
                else:
                    for o in i.ops: n |= lab(o)
                if n and not n <= V.get(i.id, E): V[i.id] = V.get(i.id, E) | n; ch = True
        changed = bool(M.pop('ret', 0))
        o = {}
        for c, l in M.items():
            if c[0] == 'a' and l and ('a', c[1]) not in cm: o[c[1]] = frozenset(l)
        if o != self.out[f]: self.out[f] = o; changed = True
        return changed, newcells
    def addrlab(self, f, o, lab, depth=0):
        i = f.V(o)
        if i is None or depth > 8: return frozenset()
        n = frozenset()
        if i.op == 'getelementptr':
            for g in i.x['gp']:
                if g[0] != 'f' and isinstance(g[1], int) and not isinstance(g[1], bool): n |= lab(self.idx(g[1]))
            n |= self.addrlab(f, i.ops[0], lab, depth + 1)
        return n
    def idx(self, x): return x
    def philab(self, f, i, lab):
        """labels of the branches that select among the incoming values of a phi"""
        n = frozenset()
        h = i.blk
        back = [b for b in f.pred[h] if (f.dom[b] >> h) & 1]
        inc = {}
        for o, b in zip(i.ops, i.x['bs']): inc[b] = json.dumps(o)
        if back:
            if len({inc[b] for b in back}) < 2:
                fw = [b for b in f.pred[h] if b not in back]
                if len({inc[b] for b in fw}) < 2: return n
                st = fw
            else: st = list(back)
        else: st = list(f.pred[h])
        key = (f, i.id)
        if not hasattr(self, '_pl'): self._pl = {}
        if key not in self._pl:
            dom_h = f.dom[h]
            region = set(); s2 = list(st)
            while s2:
                b = s2.pop()
                if b in region or b == h: continue
                region.add(b)
                if (dom_h >> b) & 1: continue
                s2.extend(f.pred[b])
            vals = {b: set() for b in region}
            ch = True
            def edge(b, k):
                return {inc[b]} if k == h else vals.get(k, set())
            while ch:
                ch = False
                for b in region:
                    v = set()
                    for k in f.succ[b]: v |= edge(b, k)
                    if v != vals[b]: vals[b] = v; ch = True
            out = []
            for b in region:
                t = f.blocks[b][-1]
                if not t.ops or len(f.succ[b]) < 2: continue
                ss = [frozenset(edge(b, k)) for k in f.succ[b]]
                ss = [x for x in ss if x]
                if len(set(ss)) > 1: out.append(t.ops[0])
            self._pl[key] = out
        for o in self._pl[key]: n |= lab(o)
        return n
