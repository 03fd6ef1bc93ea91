"""Path-sensitive exploration: (block, user state, facts). Facts are finite knowledge about SSA values and memory cells gained from
branches, constant stores and phi edges; an edge whose condition contradicts the facts is not followed. Over-approximates the
executable paths (a fact is dropped whenever it might be stale)."""
from .ir import *
from .sccp import wrap

NOKILL = re.compile(r'^(llvm\.(dbg|lifetime|assume|expect)|printf|fprintf|fflush|puts|putchar|strlen|sprintf|snprintf|str|perror|fabs|sqrt|log|exp|floor|ceil|pow|GA_Internal_Threadsafe)')
NEGP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SW = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

def isc(o): return isinstance(o, str) and (o == 'n' or o.startswith('c:') and o != 'c:big')
def cval(o): return 0 if o == 'n' else int(o[2:])

class Facts:
    """immutable map key -> ('eq', c) | ('ne', frozenset(cs))   key: ('v', ssa id) | ('m', akey)"""
    __slots__ = ('d',)
    def __init__(self, d=frozenset()): self.d = d
    def __hash__(self): return hash(self.d)
    def __eq__(self, o): return self.d == o.d

class Explorer:
    def __init__(self, fn, step, track=None, edge=None, pure=None, limit=300000, init_facts=None, only=None, keep=(), merge=False, soft=False):
        """step(inst, state, q) -> state | [states] | None(stop); q(operand) -> known constant or None, q.nz(operand) -> True/False/None"""
        self.fn, self.step, self.edge, self.limit = fn, step, edge, limit
        self.pure = pure or NOKILL
        self.rel = self._relevant(track)
        if only is not None: self.rel = {v for v in self.rel if only(fn.insts[v])}
        self.init_facts = init_facts or {}
        self.keep = set(keep); self.rel |= self.keep
        self._akey = {}
        # merge: comparisons written twice (same structure, operands not modified in between) have one truth value;
        # soft: calls do not change memory cells other than locals they are given
        self.soft = soft
        self.rep = self._canon() if merge else {}
        if only is not None: self.rep = {k: v for k, v in self.rep.items() if only(fn.insts[k])}
    def _canon(self):
        f = self.fn; groups = {}
        for i in f.insts:
            if i.op != 'icmp': continue
            x, y, p = f.key(i.ops[0]), f.key(i.ops[1]), i.x['p']
            forms = [((p, repr(x), repr(y)), True), ((SW[p] if p in SW else p, repr(y), repr(x)), True),
                     ((NEGP[p], repr(x), repr(y)), False), ((SW[NEGP[p]] if NEGP[p] in SW else NEGP[p], repr(y), repr(x)), False)]
            k, sign = min(forms)
            groups.setdefault(k, []).append((i, sign))
        rep = {}
        self.kdeps = {}
        for k, l in groups.items():
            if len(l) < 2: continue
            n = ('k', l[0][0].id)
            deps, loads = set(), set()
            for i, s in l:
                rep[i.id] = (n, s)
                st, seen = list(i.ops), set()
                while st:
                    j = f.V(st.pop())
                    if j is None or j.id in seen: continue
                    seen.add(j.id); deps.add(j.blk)
                    if j.op == 'load': loads.add((self.fn.leaf_addr(j.ops[0]), repr(f.addr(j.ops[0])[0]), repr(f.akey(j.ops[0]))))
                    if j.op in ('phi', 'call', 'invoke'): continue
                    st += [o for o in j.ops if isinstance(o, int)]
                    if j.op in ('load', 'getelementptr'): 
                        st += [x for x in self._gepvars(j)]
            self.kdeps[n] = (deps, loads)
        return rep
    def _gepvars(self, j):
        o = j.ops[0] if j.op == 'load' else j.id
        r, p = self.fn.addr(o)
        return [x[1] for x in p if isinstance(x, tuple) and isinstance(x[1], int)] + ([r[1]] if r[0] in ('ld', 'v') and isinstance(r[1], int) else [])
    # which SSA values and cells are worth facts
    def _relevant(self, track):
        f = self.fn
        rel, conds = set(), {}
        for b in f.blocks:
            t = b[-1]
            if t.op in ('br', 'switch') and t.ops: self._cond_atoms(t.ops[0], conds, t.id, 0)
        for v, s in conds.items():
            i = f.insts[v]
            if len(s) > 1 or i.op == 'phi' or i.op == 'load': rel.add(v)
        for i in f.insts:
            if i.op == 'ret' and i.ops:
                c = {}; self._cond_atoms(i.ops[0], c, i.id, 0); rel |= set(c)
            if track and track(i): rel.add(i.id)
        # phis feeding relevant phis
        st = list(rel)
        while st:
            i = f.insts[st.pop()]
            if i.op in ('phi', 'select', 'zext', 'sext', 'trunc', 'freeze'):
                for o in i.ops:
                    if isinstance(o, int) and o not in rel: rel.add(o); st.append(o)
        return rel
    def _cond_atoms(self, o, out, at, depth):
        i = self.fn.V(o)
        if i is None or depth > 10: return
        out.setdefault(i.id, set()).add(at)
        if i.op in ('icmp', 'xor', 'and', 'or', 'zext', 'sext', 'trunc', 'freeze', 'select'):
            for x in i.ops: self._cond_atoms(x, out, at, depth + 1)
        elif i.op == 'phi':
            for x in i.ops:
                j = self.fn.V(x)
                if j is not None and depth < 4 and (j.op in ('icmp', 'phi', 'zext', 'xor')): self._cond_atoms(x, out, at, depth + 4)
    def ak(self, o):
        k = json.dumps(o)
        if k not in self._akey: self._akey[k] = repr(self.fn.akey(o))
        return self._akey[k]
    # evaluate
    def ev(self, o, F, depth=0):
        """-> ('eq', c) | ('ne', {..}) | None"""
        if isc(o): return ('eq', cval(o))
        if isinstance(o, str) and o.startswith('g:'): return ('ne', frozenset([0]))
        if isinstance(o, str): return F.get(('a', o))
        if not isinstance(o, int): return None
        r = F.get(('v', o))
        if r is not None: return r
        if depth > 12: return None
        i = self.fn.insts[o]
        if i.op in ('zext', 'sext', 'freeze'):
            r = self.ev(i.ops[0], F, depth + 1)
            if r and r[0] == 'eq' and i.op == 'zext' and i.x.get('ft') == 'i1': return ('eq', r[1] & 1)
            return r
        if i.op == 'trunc':
            r = self.ev(i.ops[0], F, depth + 1)
            return ('eq', wrap(r[1], i.ty)) if r and r[0] == 'eq' else None
        if i.op == 'icmp':
            t = self.cmp(i, F, depth)
            if t is None and i.id in self.rep:
                n, sg = self.rep[i.id]
                r = F.get(n)
                if r is not None: return ('eq', -1 if (r[1] != 0) == sg else 0)
            return None if t is None else ('eq', -1 if t else 0)
        if i.op == 'xor' and i.ty == 'i1':
            a, b = self.ev(i.ops[0], F, depth + 1), self.ev(i.ops[1], F, depth + 1)
            if a and b and a[0] == b[0] == 'eq': return ('eq', -1 if (a[1] & 1) != (b[1] & 1) else 0)
            return None
        if i.op in ('and', 'or'):
            a, b = self.ev(i.ops[0], F, depth + 1), self.ev(i.ops[1], F, depth + 1)
            if a and b and a[0] == b[0] == 'eq': return ('eq', a[1] & b[1] if i.op == 'and' else a[1] | b[1])
            for z in (a, b):
                if z and z[0] == 'eq':
                    if i.op == 'and' and z[1] == 0: return z
                    if i.op == 'or' and i.ty == 'i1' and z[1] & 1: return z
            return None
        if i.op == 'select':
            c = self.ev(i.ops[0], F, depth + 1)
            if c and c[0] == 'eq': return self.ev(i.ops[1] if c[1] & 1 else i.ops[2], F, depth + 1)
            a, b = self.ev(i.ops[1], F, depth + 1), self.ev(i.ops[2], F, depth + 1)
            return a if a is not None and a == b else None
        if i.op == 'alloca': return ('ne', frozenset([0]))
        return None
    def cmp(self, i, F, depth=0):
        a, b, p = self.ev(i.ops[0], F, depth + 1), self.ev(i.ops[1], F, depth + 1), i.x['p']
        if a and b and a[0] == b[0] == 'eq':
            x, y = a[1], b[1]
            if p[0] == 'u': x &= (1 << 64) - 1; y &= (1 << 64) - 1; p = 's' + p[1:]
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
        if p in ('eq', 'ne'):
            for u, v in ((a, b), (b, a)):
                if u and v and u[0] == 'eq' and v[0] == 'ne' and u[1] in v[1]: return p == 'ne'
        return None
    def assume(self, o, truth, F):
        """add facts of condition operand o being truth; None if contradictory"""
        i = self.fn.V(o)
        r = self.ev(o, F)
        if r is not None and r[0] == 'eq':
            return F if bool(r[1] & 1) == truth else None
        if i is None: return F
        F = dict(F)
        if i.id in self.rel: F[('v', i.id)] = ('eq', -1 if truth else 0)
        if i.id in self.rep:
            n, sg = self.rep[i.id]
            F[n] = ('eq', -1 if truth == sg else 0)
        if i.op == 'xor' and i.ops[1] == 'c:-1': return self.assume(i.ops[0], not truth, F)
        if i.op == 'and' and truth or i.op == 'or' and not truth:
            for x in i.ops:
                F = self.assume(x, truth, F)
                if F is None: return None
            return F
        if i.op == 'select' and i.ty == 'i1':
            if truth and i.ops[2] == 'c:0' or (not truth and i.ops[1] == 'c:-1'):
                a = self.assume(i.ops[0], truth, F)
                return None if a is None else self.assume(i.ops[1] if truth else i.ops[2], truth, a)
        if i.op == 'freeze': return self.assume(i.ops[0], truth, F)
        if i.op == 'icmp':
            p = i.x['p'] if truth else NEGP[i.x['p']]
            x, y = i.ops
            if self.isconst(x, F) and not self.isconst(y, F): x, y, p = y, x, SW[p]
            if self.isconst(y, F):
                c = self.ev(y, F)[1]
                return self.learn(x, p, c, F)
        return F
    def isconst(self, o, F):
        if isc(o): return True
        r = self.ev(o, F)
        return r is not None and r[0] == 'eq'
    def learn(self, o, p, c, F):
        j = self.fn.V(o)
        if p == 'ugt' and c == 0: p = 'ne'
        if p == 'ult' and c == 1: p, c = 'eq', 0
        if p not in ('eq', 'ne'): return F
        cur = self.ev(o, F)
        if cur:
            if cur[0] == 'eq':
                if (cur[1] == c) != (p == 'eq'): return None
                return F
            if p == 'eq' and c in cur[1]: return None
        new = ('eq', c) if p == 'eq' else ('ne', (cur[1] if cur else frozenset()) | {c})
        F = dict(F)
        if j is None:
            if isinstance(o, str) and o[0] == 'a': F[('a', o)] = new
            return F
        if j.id in self.rel: F[('v', j.id)] = new
        if j.op == 'load' and F.get(('last', self.ak(j.ops[0]))) == j.id: F[('m', self.ak(j.ops[0]))] = new
        if j.op in ('zext', 'sext', 'freeze') and j.x.get('ft') != 'i1': return self.learn(j.ops[0], p, c, F)
        if j.op in ('zext', 'sext') and j.x.get('ft') == 'i1':
            if c == 0: return self.assume(j.ops[0], p == 'ne', F)
            if p == 'eq': return self.assume(j.ops[0], True, F)
        if j.op == 'select' and p == 'eq' and isc(j.ops[1]) and isc(j.ops[2]):
            a, b = cval(j.ops[1]), cval(j.ops[2])
            if a != b and c in (a, b): return self.assume(j.ops[0], c == a, F)
        if j.op == 'select' and p == 'ne' and isc(j.ops[1]) and isc(j.ops[2]):
            a, b = cval(j.ops[1]), cval(j.ops[2])
            if a != b and c in (a, b): return self.assume(j.ops[0], c != a, F)
        return F
    def kill(self, i, F):
        """memory effect of instruction i on the facts"""
        f = self.fn
        if i.op == 'store':
            k = self.ak(i.ops[1]); r, p = f.addr(i.ops[1]); leaf = f.leaf_addr(i.ops[1])
            F = dict(F)
            for key in [x for x in F if x[0] in ('m', 'last')]:
                if key[1] == k or self.mayalias(key[1], k, r, leaf): del F[key]
            for key in [x for x in F if x[0] == 'k']:
                if any(lk == k or (rr == repr(r) if r[0] == 'al' or rr.startswith("('al'") else lf == leaf and (lf is not None or rr == repr(r) or r[0] != 'g' and not rr.startswith("('g'"))) for lf, rr, lk in self.kdeps[key][1]): del F[key]
            v = self.ev(i.ops[0], F)
            if v is not None: F[('m', k)] = v
            elif isinstance(i.ops[0], int): F[('last', k)] = i.ops[0]
            return F
        if i.op in ('call', 'invoke') and not (i.callee and self.pure.match(i.callee)):
            F = dict(F)
            esc = {repr(f.addr(o)[0]) for o in i.ops if isinstance(o, (int, list))}
            for key in [x for x in F if x[0] == 'k']:
                if any(rr in esc for lf, rr, lk in self.kdeps[key][1]): del F[key]
            if self.soft:
                for key in [x for x in F if x[0] in ('m', 'last')]:
                    if any(key[1].startswith('(' + e) for e in esc): del F[key]
                return F
            esc = {repr(f.addr(o)[0]) for o in i.ops if isinstance(o, (int, list))}
            for key in [x for x in F if x[0] in ('m', 'last')]:
                if key[1].startswith("(('al'") and not any(key[1].startswith('(' + e) for e in esc) and not self.escaped(key[1]): continue
                del F[key]
            return F
        return F
    def escaped(self, key):
        if not hasattr(self, '_esc'):
            f = self.fn; self._esc = set()
            for i in f.insts:
                if i.op == 'store' and isinstance(i.ops[0], int):
                    r, p = f.addr(i.ops[0])
                    if r[0] == 'al': self._esc.add('(' + repr(r))
        return any(key.startswith(e) for e in self._esc)
    def mayalias(self, key, k, r, leaf):
        """may a store to address k (root r, last field leaf) touch cell key?"""
        kal, sal = key.startswith("(('al'"), r[0] == 'al'
        if kal and sal: return key.startswith('(' + repr(r)) and ('[]' in key or '[]' in k)
        if kal or sal:
            return self.escaped(key) if kal else False
        if key.startswith("(('g'") and r[0] == 'g':
            if not key.startswith('(' + repr(r)): return False
        m = re.findall(r"'([\w.<>:]+\.[\w]+)'", key)
        kl = m[-1] if m else None
        return kl == leaf or leaf is None and kl is None
    def dominating(self, blk):
        """facts about SSA values that hold whenever blk is entered: the branches that dominate it"""
        f = self.fn; F = {}
        for d in f.blocks:
            t = d[-1]; b = t.blk
            if t.op != 'br' or len(t.x['t']) != 2 or t.x['t'][0] == t.x['t'][1]: continue
            for k, truth in ((t.x['t'][0], True), (t.x['t'][1], False)):
                if f.pred[k] == [b] and (k == blk or f.dom[blk] >> k & 1):
                    G = self.assume(t.ops[0], truth, dict(F))
                    if G is not None: F = G
        return {k: v for k, v in F.items() if k[0] in 'vk'}
    def run(self, init=None, start=0):
        f = self.fn
        F0 = frozenset(self.init_facts.items())
        if start: F0 = frozenset(self.dominating(start).items())
        start = (start, init, F0)
        self.pre = pre = {start: None}
        q = deque([start]); n = 0
        ex = self
        while q:
            node = q.popleft(); b, s, Fz = node
            n += 1
            if n > self.limit: raise Broken('state space too large in %s' % f.name)
            states = [(s, dict(Fz))]
            for i in f.blocks[b]:
                nxt = []
                for (t, F) in states:
                    if i.op == 'phi': nxt.append((t, F)); continue   # bound on the edge
                    if i.op == 'load':
                        if i.id in self.rel or True:
                            k = self.ak(i.ops[0]); m = F.get(('m', k))
                            F = dict(F); F.pop(('v', i.id), None)
                            if m is not None and i.id in self.rel: F[('v', i.id)] = m
                            elif m is None and i.id in self.rel:
                                F[('last', k)] = i.id
                    elif ('v', i.id) in F: F = dict(F); F.pop(('v', i.id))
                    self.cur = F
                    r = self.step(i, t, self)
                    if r is None: continue
                    F = self.kill(i, F)
                    if isinstance(r, list): nxt.extend((x, F) for x in r)
                    else: nxt.append((r, F))
                states = nxt
                if not states: break
            t = f.blocks[b][-1]
            for (s2, F) in states:
                for k in f.succ[b]:
                    G = F
                    if t.op == 'br' and len(t.x['t']) == 2 and t.x['t'][0] != t.x['t'][1]:
                        G = self.assume(t.ops[0], k == t.x['t'][0], G)
                    elif t.op == 'switch':
                        cs = [c[0] for c in t.x['cs'] if c[1] == k]
                        if k == t.x['d']:
                            if not cs:
                                for c in t.x['cs']:
                                    G = self.learn(t.ops[0], 'ne', c[0], G)
                                    if G is None: break
                        else:
                            v = self.ev(t.ops[0], G)
                            if v and v[0] == 'eq' and v[1] not in cs: G = None
                            elif v and v[0] == 'ne' and all(c in v[1] for c in cs): G = None
                            elif len(cs) == 1: G = self.learn(t.ops[0], 'eq', cs[0], G)
                    if G is None: continue
                    self.cur = G
                    s3 = s2
                    if self.edge is not None:
                        s3 = self.edge(b, k, s2, self)
                        if s3 is None: continue
                    if self.rep and f.dom[b] >> k & 1:
                        body = f.loops().get(k) if not hasattr(self, '_lp') else self._lp.get(k)
                        if not hasattr(self, '_lp'): self._lp = f.loops(); body = self._lp.get(k)
                        bad = [x for x in G if x[0] == 'k' and self.kdeps[x][0] & body]
                        if bad:
                            G = dict(G)
                            for x in bad: del G[x]
                    # phis
                    new = {}
                    for i in f.blocks[k]:
                        if i.op != 'phi': break
                        for o, pb in zip(i.ops, i.x['bs']):
                            if pb == b:
                                if i.id in self.rel: new[i.id] = self.ev(o, G)
                    if new:
                        G = dict(G)
                        for v, r in new.items():
                            if r is None: G.pop(('v', v), None)
                            else: G[('v', v)] = r
                    G = self.prune(G, k)
                    nd = (k, s3, frozenset(G.items()))
                    if nd not in pre:
                        pre[nd] = node; q.append(nd)
        self.nodes = n
        return pre
    def prune(self, F, k):
        """drop facts about values that no reachable instruction uses"""
        if not hasattr(self, '_live'):
            self._live = {}
            f = self.fn
            self._ub = {}
            self._cells = {}
            for i in f.insts:
                if i.op == 'load' and i.id in self.rel: self._cells.setdefault(self.ak(i.ops[0]), set()).add(i.blk)
        f = self.fn
        out = {}
        rb = None
        for key, v in F.items():
            if key[0] == 'v' and key[1] in self.keep: out[key] = v
            elif key[0] == 'v':
                ub = self._ub.get(key[1])
                if ub is None:
                    ub = self._ub[key[1]] = self.useblocks(key[1], 0, set())
                if k in ub or ub & f.reach(k): out[key] = v
            elif key[0] == 'k':
                if not hasattr(self, '_kb'):
                    self._kb = {}
                    for i, (n, sg) in self.rep.items(): self._kb.setdefault(n, set()).update(self.useblocks(i, 0, set()) | {f.insts[i].blk})
                ub = self._kb[key]
                if k in ub or ub & f.reach(k): out[key] = v
            elif key[0] in ('m', 'last'):
                cb = self._cells.get(key[1], ())
                if cb and (k in cb or any(c in f.reach(k) for c in cb)):
                    if key[0] == 'last' and f.insts[v].blk != k and ('v', v) not in F and False: continue
                    out[key] = v
            else: out[key] = v
        return out
    def useblocks(self, v, depth, seen):
        f = self.fn; ub = set()
        if v in seen: return ub
        seen.add(v)
        for u in f.users.get(v, ()):
            ub.add(u.blk)
            if u.op == 'phi': 
                for o, pb in zip(u.ops, u.x['bs']):
                    if o == v: ub.add(pb)
            elif u.op in ('icmp', 'xor', 'and', 'or', 'zext', 'sext', 'trunc', 'freeze', 'select', 'add', 'sub'): ub |= self.useblocks(u.id, depth + 1, seen)
        return ub
    # queries for step
    def const(self, o):
        r = self.ev(o, self.cur); return r[1] if r and r[0] == 'eq' else None
    def nz(self, o):
        r = self.ev(o, self.cur)
        if r is None: return None
        if r[0] == 'eq': return r[1] != 0
        return True if 0 in r[1] else None
    def fact_mem(self, o):
        return self.cur.get(('m', self.ak(o)))
    def path(self, blk, state=None, last=None):
        for nd in self.pre:
            if nd[0] == blk and (state is None or nd[1] == state): return path_lines(self.fn, self.pre, nd, last)
        return ''
