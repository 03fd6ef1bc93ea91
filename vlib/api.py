"""What an API wrapper forwards: the core calls it makes, each argument as a term over the wrapper's own parameters."""
from .ir import *
CASTS = ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp', 'fptosi', 'uitofp', 'fptoui')
ALLOC = ('malloc', 'calloc', 'pnga_malloc', 'wnga_malloc', '_Znam', '_Znwm', 'gai_malloc', 'realloc')
PURE = ('pnga_ndim', 'pnga_has_ghosts', 'pnga_is_mirrored', 'pnga_type_f2c', 'pnga_type_c2f', 'pnga_nnodes', 'pnga_nodeid', 'pnga_total_blocks', 'strlen', 'pnga_pgroup_get_default', 'pnga_pgroup_get_world')
FREE = ('free', 'pnga_free', '_ZdaPv', '_ZdlPv', 'pnga_free', 'gai_free')

def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items(): r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}
def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr)); r[m] = r.get(m, 0) + v * w
    return {k: v for k, v in r.items() if v}
def fz(p): return frozenset(p.items())

class Api:
    def __init__(self, f, skip=lambda c: c.startswith('llvm.')):
        self.f = f; self.memo = {}; self.stack = []; self.skip = skip
        self.iv = {}
        self.stores = [i for i in f.insts if i.op == 'store']
        self.calls_ = [i for i in f.insts if i.op in ('call', 'invoke') and i.callee and not skip(i.callee)]
        n = {}
        self.callno = {}
        for i in self.calls_:
            n[i.callee] = n.get(i.callee, 0) + 1; self.callno[i.id] = (i.callee, n[i.callee])
        self._st = None
        # queries: the same question has the same answer
        seen = {}
        for i in self.calls_:
            if i.callee in PURE:
                a = tuple(fz(self.term(o)) for o in i.ops if not isinstance(o, list) and not (isinstance(o, str) and o == i.x.get('c')))
                l = seen.setdefault(i.callee, [])
                if a not in l: l.append(a)
                self.callno[i.id] = (i.callee, l.index(a) + 1)
        self.memo = {}; self.iv = {}
    # ---- scalar terms
    def atom(self, *a): return {(a,): 1}
    def term(self, o):
        f = self.f
        if isinstance(o, list): return self.atom('k', json.dumps(o))
        if isinstance(o, str):
            if o.startswith('c:') and o != 'c:big': v = int(o[2:]); return {(): v} if v else {}
            if o[0] == 'a' and o[1:].isdigit(): return self.atom('p', int(o[1:]))
            return self.atom('k', o)
        if o in self.memo: return self.memo[o]
        if o in self.stack or len(self.stack) > 40: return self.atom('rec')
        self.stack.append(o)
        try: r = self._term(f.V(o))
        finally: self.stack.pop()
        if 'rec' not in repr(r): self.memo[o] = r
        return r
    def _term(self, i):
        f = self.f
        if i.op in CASTS: return self.term(i.ops[0])
        if i.op in ('add', 'sub'): return padd(self.term(i.ops[0]), self.term(i.ops[1]), 1 if i.op == 'add' else -1)
        if i.op == 'mul': return pmul(self.term(i.ops[0]), self.term(i.ops[1]))
        if i.op == 'shl' and isinstance(i.ops[1], str) and i.ops[1].startswith('c:'): return pmul(self.term(i.ops[0]), {(): 1 << int(i.ops[1][2:])})
        if i.op == 'load':
            b, ix = self.addr(i.ops[0])
            w = self.forward(b, ix, i)
            if w is not None: return w
            return self.atom('e', b, fz(ix))
        if i.op in ('getelementptr', 'alloca'):
            b, ix = self.addr(i.id)
            return self.atom('&', b, fz(ix))
        if i.op in ('call', 'invoke'):
            return self.atom('r', self.callno.get(i.id, (i.callee, 0)))
        if i.op == 'phi':
            if self.induction(i.id): return self.atom('iv', i.id)
            alts = {fz(self.term(x)) for x in i.ops}
            if len(alts) == 1: return dict(alts.pop())
            return self.atom('alt', frozenset(alts))
        if i.op == 'select':
            return self.atom('alt', frozenset({fz(self.term(i.ops[1])), fz(self.term(i.ops[2]))}), self.cond(i.ops[0]))
        if i.op in ('icmp', 'fcmp'): return self.atom('b', self.cond(i.id))
        return self.atom(i.op, tuple(fz(self.term(x)) for x in i.ops if not isinstance(x, list)))
    def cond(self, o):
        i = self.f.V(o)
        if i is not None and i.op in ('icmp', 'fcmp'):
            p = i.x['p'].lstrip('su') if i.op == 'icmp' else i.x['p']; a, b = self.term(i.ops[0]), self.term(i.ops[1])
            d = padd(a, b, -1)
            if i.op == 'icmp' and p in ('gt', 'ge', 'lt', 'le'):
                if p in ('lt', 'le'): d = padd({}, d, -1)
                if p in ('ge', 'le'): d = padd(d, {(): 1})
                return ('gt', fz(d))
            if p in ('eq', 'ne'): d = min((d, padd({}, d, -1)), key=lambda z: sorted(map(repr, z.items())))
            return (p, fz(d))
        return ('v', fz(self.term(o)))
    def forward(self, b, ix, ld):
        """value of a local scalar slot when one store dominates the load and is the only one"""
        if not (isinstance(b, tuple) and b[0] == 'al'): return None
        ws = []
        for s in self.stores:
            sb, si = self.addr(s.ops[1])
            if sb == b: ws.append((s, si))
        if self.escapes(b[1]): return None
        if len(ws) == 1 and ws[0][1] == ix and self.f.before(ws[0][0], ld) and not any(isinstance(a, tuple) and a[0] == 'iv' for m in ix for a in m): return self.term(ws[0][0].ops[0])
        return None
    def escapes(self, aid):
        f = self.f; work = [aid]; seen = set()
        while work:
            k = work.pop()
            if k in seen: continue
            seen.add(k)
            for u in f.users[k]:
                if u.op in ('getelementptr', 'bitcast', 'phi', 'select'): work.append(u.id)
                elif u.op in ('call', 'invoke') and not (u.callee or '').startswith('llvm.'): return True
                elif u.op == 'store' and u.ops[0] == k: return True
        return False
    # ---- addresses
    def addr(self, o):
        """(base, index polynomial) - constant and variable indices summed, scaled by nothing (arrays of one element kind)"""
        f = self.f; ix = {}
        d = 0
        while d < 30:
            d += 1
            i = f.V(o)
            if i is None:
                if isinstance(o, str) and o[0] == 'a' and o[1:].isdigit(): return ('p', int(o[1:])), ix
                if isinstance(o, list) and o and o[0] == 'gep': return ('k', json.dumps(o)), ix
                return ('k', json.dumps(o)), ix
            if i.op == 'getelementptr':
                gp = i.x['gp']
                for n, g in enumerate(gp):
                    if g[0] == 'f': ix = padd(ix, self.atom('fld', g[1], g[2]))
                    else:
                        t = self.term(g[1])
                        if n == 0 and len(gp) > 1 and not t: continue
                        if n < len(gp) - 1 and t: t = pmul(t, self.atom('row', n))
                        ix = padd(ix, t)
                o = i.ops[0]; continue
            if i.op in CASTS: o = i.ops[0]; continue
            if i.op == 'alloca': return ('al', i.id), ix
            if i.op in ('call', 'invoke'):
                if i.callee in ALLOC: return ('m', i.id), ix
                return ('r', self.callno.get(i.id, (i.callee, 0))), ix
            if i.op == 'load':
                w = self.term(i.id)
                if len(w) == 1:
                    (m, c), = w.items()
                    if c == 1 and len(m) == 1:
                        if m[0][0] == 'p': return m[0], ix
                        if m[0][0] == '&' : return m[0][1], padd(ix, dict(m[0][2]))
                        if m[0][0] == 'r': return m[0], ix
                return ('*', fz(w)), ix
            if i.op in ('phi', 'select'):
                ops = i.ops if i.op == 'phi' else i.ops[1:]
                if i.id in self.stack: return ('rec',), ix
                if i.op == 'phi' and self.induction(i.id):
                    body = f.loops()[i.blk]
                    ix = padd(ix, self.atom('iv', i.id)); o = [x for x, b in zip(i.ops, i.x['bs']) if b not in body][0]; continue
                self.stack.append(i.id)
                try: alts = {self.addr(x) and (self.addr(x)[0], fz(self.addr(x)[1])) for x in ops}
                finally: self.stack.pop()
                alts = {a for a in alts if a[0] != ('k', '"null"')} or alts
                if len(alts) == 1:
                    b, x = alts.pop(); return b, padd(ix, dict(x))
                return ('alts', frozenset(alts)), ix
            return ('v', i.op), ix
        return ('?',), ix
    # ---- loops
    def induction(self, pid):
        """(init, step, trip count) of an integer counter; None when it is not one"""
        if pid in self.iv: return self.iv[pid]
        self.iv[pid] = None
        f = self.f; ph = f.V(pid)
        if ph.op != 'phi' or not (ph.ty.startswith('i') or ph.ty == 'ptr') or ph.blk not in f.loops(): return None
        body = f.loops()[ph.blk]
        init = [x for x, b in zip(ph.ops, ph.x['bs']) if b not in body]; nxt = [x for x, b in zip(ph.ops, ph.x['bs']) if b in body]
        if len(init) != 1 or len(set(map(str, nxt))) != 1: return None
        n = f.V(f.strip(nxt[0]))
        if n is not None and ph.ty == 'ptr':
            if n.op != 'getelementptr' or n.ops[0] != pid or len(n.x['gp']) != 1 or n.x['gp'][0][0] == 'f' or n.x['gp'][0][1] not in ('c:1', 'c:-1'): return None
            step = 1 if n.x['gp'][0][1] == 'c:1' else -1
            self.iv[pid] = ('?',)
            i0 = {}
        else:
            if n is None or n.op not in ('add', 'sub') or f.strip(n.ops[0]) != pid or n.ops[1] not in ('c:1', 'c:-1'): return None
            step = (1 if n.ops[1] == 'c:1' else -1) * (1 if n.op == 'add' else -1)
            self.iv[pid] = ('?',)
            i0 = self.term(init[0])
        trip = None
        for b in body:
            t = f.blocks[b][-1]
            if t.op != 'br' or len(f.succ[b]) != 2: continue
            outs = [s not in body for s in f.succ[b]]
            if sum(outs) != 1: continue
            c = f.V(t.ops[0])
            if c is None or c.op != 'icmp': continue
            l, r = f.strip(c.ops[0]), f.strip(c.ops[1]); p = c.x['p'].lstrip('su')
            if r == pid or r == n.id: l, r = r, l; p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p); bound = c.ops[0]
            else: bound = c.ops[1]
            if l not in (pid, n.id) or ph.ty == 'ptr': continue
            if outs[0]: p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[p]   # condition to stay
            bd = self.term(bound)
            if step == 1:
                k = {'lt': 0, 'ne': 0, 'le': 1}.get(p)
                if k is None: continue
                cnt = padd(padd(bd, i0, -1), {(): k} if k else {})
            else:
                k = {'gt': 0, 'ne': 0, 'ge': 1}.get(p)
                if k is None: continue
                cnt = padd(padd(i0, bd, -1), {(): k} if k else {})
            if l == n.id and b != ph.blk: pass       # bottom-tested: counts the same when it runs at all
            trip = cnt; break
        if trip is None:        # counts along with another counter of the loop
            for o in f.blocks[ph.blk]:
                if o.op == 'phi' and o.id != pid and o.ty != 'ptr':
                    r = self.induction(o.id)
                    if r and len(r) == 3: trip = dict(r[2]); break
        if trip is None: self.iv[pid] = None; return None
        self.iv[pid] = (fz(i0), step, fz(trip))
        self.memo = {}
        return self.iv[pid]
    def ivs(self, p, out=None):
        out = set() if out is None else out
        if isinstance(p, dict): p = fz(p)
        if isinstance(p, tuple) and len(p) == 2 and p[0] == 'iv': out.add(p[1]); return out
        if isinstance(p, (tuple, frozenset)):
            for x in p: self.ivs(x, out)
        return out
    def subst_iv(self, x, m):
        """replace ('iv', id) atoms by polynomials, re-normalising"""
        if isinstance(x, dict):
            r = {}
            for mono, c in x.items():
                q = {(): c}
                for a in mono:
                    q = pmul(q, m[a[1]] if isinstance(a, tuple) and a[0] == 'iv' and a[1] in m else {(self.subst_atom(a, m),): 1})
                r = padd(r, q)
            return r
        return x
    def subst_atom(self, a, m):
        if isinstance(a, frozenset):
            try:
                d = dict(a)
                if all(isinstance(k, tuple) for k in d): return fz(self.subst_iv(d, m))
            except (TypeError, ValueError): pass
            return frozenset(self.subst_atom(y, m) for y in a)
        if isinstance(a, tuple): return tuple(self.subst_atom(y, m) for y in a)
        return a
    # ---- contents of arrays
    def writes(self, base, upto=None):
        """stores into `base`, each canonicalised over its loop counters (first element source, direction)"""
        out = set()
        for s in self.stores:
            b, ix = self.addr(s.ops[1])
            if b != base: continue
            if upto is not None and not self.f.inst_reaches(s, upto): continue
            out.add(self.canon(ix, self.term(s.ops[0])))
        for c in self.calls_:
            pass
        return frozenset(out)
    def canon(self, ix, v):
        m = {}; trips = []
        # the counters, ordered by their use in the target index then the value
        ids = sorted(self.ivs(ix) | self.ivs(v), key=lambda k: (len(self.f.loops().get(self.f.V(k).blk, ())) * -1, self.f.V(k).blk))
        heads = []
        for k in ids:
            if self.f.V(k).blk not in heads: heads.append(self.f.V(k).blk)
        for n, h in enumerate(heads):
            mine = [k for k in ids if self.f.V(k).blk == h]
            infos = [self.induction(k) for k in mine]
            if any(not x or len(x) != 3 for x in infos): return ('opaque', fz(ix), fz(v))
            trip = dict(infos[0][2])
            tn = {(('t', n),): 1}
            # count upwards from zero over the target index
            co = sum((self.coef(ix, k) or 0) * x[1] for k, x in zip(mine, infos))
            if not co: co = infos[0][1]
            nth = padd(padd(trip, {(): 1}, -1), tn, -1) if co < 0 else tn
            for k, x in zip(mine, infos): m[k] = padd(dict(x[0]), pmul({(): x[1]}, nth))
            trips.append(fz(trip))
        if m:
            # trip counts may mention outer counters
            ix = self.subst_iv(ix, m); v = self.subst_iv(v, m); trips = [fz(self.subst_iv(dict(t), m)) for t in trips]
        return ('w', fz(ix), fz(v), tuple(trips))
    def coef(self, p, k):
        c = 0
        for mono, v in p.items():
            if any(a == ('iv', k) for a in mono): c += v
        return c
    def arg(self, o, call):
        """an argument as a term; a local array with what was written into it"""
        t = self.term(o)
        f = self.f
        if isinstance(o, str) and o.startswith('g:'):       # a file-scope work array filled here
            b = ('k', json.dumps(o)); c = self.contents(b, call)
            if any(x[0] == 'w' for x in c): return ('arr', c, frozenset())
        if len(t) == 1:
            (m, c), = t.items()
            if c == 1 and len(m) == 1 and m[0][0] == '&' and m[0][1][0] in ('al', 'm'):
                return ('arr', self.contents(m[0][1], call), m[0][2])
        i = f.V(f.strip(o)) if isinstance(o, int) else None
        if i is not None:
            b, ix = self.addr(o)
            if b[0] in ('al', 'm'): return ('arr', self.contents(b, call), fz(ix))
        return ('t', fz(t))
    def contents(self, base, call):
        w = self.writes(base, call)
        outs = set()
        for c in self.calls_:
            if c is call or not self.f.inst_reaches(c, call): continue
            for n, a in enumerate(c.ops):
                if isinstance(a, int) and self.addr(a)[0] == base: outs.add(('by', self.callno[c.id], n))
        if any(self.mentions_base(x, base) for x in w): return frozenset({('odd', frozenset(w | outs))})
        return frozenset(w | outs)
    def mentions_base(self, x, base):
        if x == base: return True
        return isinstance(x, (tuple, frozenset)) and any(self.mentions_base(y, base) for y in x)

    # ---- canonical form: locals by their use, counters by their range
    def mentions(self, x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('al', 'm') and isinstance(x[1], int): out.add(x)
            else:
                for y in x: self.mentions(y, out)
        elif isinstance(x, frozenset):
            for y in x: self.mentions(y, out)
        return out
    def labels(self):
        if self._st is None:
            self._st = {}
            use = {}
            for c in self.calls_:
                if c.callee in FREE or c.callee in ALLOC: continue
                for n, a in enumerate(c.ops):
                    if isinstance(a, int):
                        t = ('t', fz(self.term(a)))
                        bs = self.mentions(t, set())
                        b = self.addr(a)[0]
                        self.mentions((b,), bs)
                        for x in bs: use.setdefault(x, set()).add((self.callno[c.id], n))
            for x in use: self._st[x] = ('loc', frozenset(use[x]))
        return self._st
    def norm(self, x):
        lab = self.labels()
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('al', 'm') and isinstance(x[1], int): return lab.get(x, ('loc', x[0]))
            if len(x) == 2 and x[0] == 'iv' and isinstance(x[1], int): return ('iv', self.norm(self.iv.get(x[1])))
            return tuple(self.norm(y) for y in x)
        if isinstance(x, frozenset): return frozenset(self.norm(y) for y in x)
        return x
    def full(self, o, call):
        """argument with the contents of every local array it may designate"""
        a = self.arg(o, call)
        if a[0] == 't':
            bs = {b for b in self.mentions(a, set())}
            if bs and self.f.V(o) is not None and self.f.V(o).ty == 'ptr': a = a + (frozenset((b, self.contents(b, call)) for b in bs),)
        return self.norm(a)
    def guards(self, i):
        """conditions (not loop bounds) the instruction is directly control dependent on"""
        out = set()
        for a, s in self.f.cdeps[i.blk]:
            if a in self.f.loops(): continue
            t = self.f.blocks[a][-1]
            if t.op != 'br' or len(self.f.succ[a]) != 2: continue
            c = self.cond(t.ops[0]); n = self.f.succ[a].index(s)
            if c[0] == 'ne': c = ('eq',) + c[1:]; n = 1 - n
            if c[0] == 'gt' and n == 1: c = ('gt', fz(padd({(): 1}, dict(c[1]), -1))); n = 0
            out.add((self.norm(c), n))
        return frozenset(out)
    def outputs(self):
        r = []
        for q in range(len(self.f.args)):
            w = self.writes(('p', q))
            if w: r.append((q, self.norm(w)))
        return r
    def returns(self):
        return frozenset(self.norm(fz(self.term(i.ops[0]))) for i in self.f.insts if i.op == 'ret' and i.ops)
    def core(self, drop=re.compile(r'^(malloc|calloc|realloc|free|pnga_malloc|pnga_free|__assert_fail|assert|printf|fprintf|fflush|strlen|str.*|snprintf|sprintf)$')):
        return [c for c in self.calls_ if not drop.match(c.callee)]
