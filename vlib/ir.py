"""In-memory model of the normalised IR: modules, functions, CFG, expressions, call graph."""
import json, os, re, sys
from collections import defaultdict, deque
from . import build as B
from .build import Broken

class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'line', 'x', 'blk', 'fn', 'pos')
    def __repr__(self): return '<%s %%%d %s %s>' % (self.fn.name, self.id, self.op, self.x.get('c', ''))
    @property
    def callee(self):
        return self.fn.mod.alias(self.x['c']) if 'c' in self.x else None
    def where(self):
        f = self.fn
        if 'in' in self.x: return '%s:%d (in %s, inlined into %s at line %d)' % (f.mod.path, self.line, self.x['in'], f.name, self.x['at'])
        return '%s:%d (%s)' % (f.mod.path, self.line, f.name)
    def isterm(self): return self.op in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume', 'indirectbr')

class Fn:
    def __init__(self, mod, d):
        self.mod, self.name, self.line = mod, d['name'], d.get('line', 0)
        self.internal, self.ret, self.va, self.kept = d['int'], d['ret'], d['va'], d['kept']
        self.src = d.get('src', self.name)
        self.file = d.get('file', '')
        self.dty = d.get('dty', [])
        self.args = d['args']
        self.blocks, self.insts = [], []
        for bi, b in enumerate(d['blocks']):
            bl = []
            for pi, r in enumerate(b):
                i = Inst(); i.id, i.op, i.ty, i.ops, i.line, i.x = r
                i.blk, i.fn, i.pos = bi, self, pi
                bl.append(i); self.insts.append(i)
            self.blocks.append(bl)
        self.succ, self.pred = [[] for _ in self.blocks], [[] for _ in self.blocks]
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            s = []
            if t.op in ('br', 'invoke'): s = list(t.x['t'])
            elif t.op == 'switch': s = [t.x['d']] + [c[1] for c in t.x['cs']]
            elif t.op == 'indirectbr': s = []
            seen = []
            for k in s:
                if k not in seen: seen.append(k)
            self.succ[bi] = seen
        for bi, s in enumerate(self.succ):
            for k in s: self.pred[k].append(bi)
        self._dom = self._pdom = self._cd = self._users = self._loops = None
        self._reach = {}
    def __repr__(self): return '<Fn %s>' % self.name
    def where(self): return '%s:%d (%s)' % (self.mod.path, self.line, self.name)
    def V(self, o):
        """operand -> Inst if it is one"""
        return self.insts[o] if isinstance(o, int) else None
    def calls(self, *names):
        for i in self.insts:
            if i.op in ('call', 'invoke') and i.callee and (not names or i.callee in names): yield i
    def argname(self, o):
        return self.args[int(o[1:])][0]
    @property
    def users(self):
        if self._users is None:
            self._users = defaultdict(list)
            for i in self.insts:
                for o in i.ops:
                    if isinstance(o, int): self._users[o].append(i)
                    elif isinstance(o, str) and o and o[0] == 'a': self._users[o].append(i)
                for g in i.x.get('gp', ()):
                    if g[0] != 'f' and isinstance(g[1], (int,)): self._users[g[1]].append(i)
                    elif g[0] != 'f' and isinstance(g[1], str) and g[1][0] == 'a': self._users[g[1]].append(i)
                if 'ic' in i.x and isinstance(i.x['ic'], int): self._users[i.x['ic']].append(i)
        return self._users
    # ---- order
    def before(self, a, b):
        """a dominates b (instructions)"""
        if a.blk == b.blk: return a.pos < b.pos
        return (self.dom[b.blk] >> a.blk) & 1 == 1
    def postdominates(self, a, b):
        """a is on every path from b to a return"""
        if a.blk == b.blk and a.pos > b.pos: return True
        return a.blk != b.blk and (self.pdom[b.blk] >> a.blk) & 1 == 1
    @property
    def dom(self):
        if self._dom is None:
            n = len(self.blocks); full = (1 << n) - 1
            dom = [full] * n; dom[0] = 1
            order = self.rpo()
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0: continue
                    m = full
                    for p in self.pred[b]: m &= dom[p]
                    m |= 1 << b
                    if m != dom[b]: dom[b] = m; ch = True
            self._dom = dom
        return self._dom
    @property
    def pdom(self):
        """post-dominators with respect to ret blocks only (fatal exits are ignored)"""
        if self._pdom is None:
            n = len(self.blocks); full = (1 << n) - 1
            pd = [full] * n
            rets = [b for b in range(n) if self.blocks[b][-1].op in ('ret', 'resume')]
            canret = self.can_return()
            for r in rets: pd[r] = 1 << r
            order = [b for b in reversed(self.rpo())]
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b in rets or not canret[b]: continue
                    m = full
                    for s in self.succ[b]:
                        if canret[s]: m &= pd[s]
                    m |= 1 << b
                    if m != pd[b]: pd[b] = m; ch = True
            self._pdom = pd
        return self._pdom
    def can_return(self):
        n = len(self.blocks); can = [False] * n
        st = [b for b in range(n) if self.blocks[b][-1].op in ('ret', 'resume')]
        for b in st: can[b] = True
        while st:
            b = st.pop()
            for p in self.pred[b]:
                if not can[p]: can[p] = True; st.append(p)
        return can
    def rpo(self):
        seen, out, st = {0}, [], [(0, iter(self.succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    @property
    def cdeps(self):
        """block -> set of (branch block, successor) it is directly control dependent on (fatal exits ignored)"""
        if self._cd is None:
            cd = defaultdict(set); can = self.can_return(); pd = self.pdom
            for a in range(len(self.blocks)):
                ss = [s for s in self.succ[a] if can[s]]
                if len(ss) < 2: continue
                for s in ss:
                    # nodes that postdominate s but not strictly a
                    m = pd[s] & ~(pd[a] & ~(1 << a))
                    b = 0
                    while m:
                        if m & 1: cd[b].add((a, s))
                        m >>= 1; b += 1
            self._cd = cd
        return self._cd
    def all_cdeps(self, blk):
        """transitive control dependence: set of (branch block, succ)"""
        out, st = set(), [blk]
        seen = {blk}
        while st:
            b = st.pop()
            for (a, s) in self.cdeps.get(b, ()):
                out.add((a, s))
                if a not in seen: seen.add(a); st.append(a)
        return out
    def reach(self, b):
        """blocks reachable from b (including b only if in a cycle)"""
        if b not in self._reach:
            seen, st = set(), list(self.succ[b])
            while st:
                k = st.pop()
                if k in seen: continue
                seen.add(k); st.extend(self.succ[k])
            self._reach[b] = seen
        return self._reach[b]
    def inst_reaches(self, a, b):
        if a.blk == b.blk and a.pos < b.pos: return True
        return b.blk in self.reach(a.blk)
    def loops(self):
        """list of (header, set(blocks), latches) natural loops"""
        if self._loops is None:
            L = {}
            for b in range(len(self.blocks)):
                for s in self.succ[b]:
                    if (self.dom[b] >> s) & 1:
                        body = L.setdefault(s, {s}); st = [b]
                        while st:
                            k = st.pop()
                            if k in body: continue
                            body.add(k); st.extend(self.pred[k])
            self._loops = L
        return self._loops
    # ---- expressions
    def strip(self, o, casts=('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr')):
        while True:
            i = self.V(o)
            if i is not None and i.op in casts: o = i.ops[0]; continue
            return o
    def addr(self, o, depth=12):
        """pointer operand -> (root, path). root: ('g',name)|('a',n)|('al',id)|('ld',rootpath...)|('v',id)...; path: tuple of
        field names / ('[]',operand)"""
        path = []
        while True:
            if isinstance(o, list) and o[0] == 'x':
                if o[1] == 'getelementptr':
                    path = self._gp(o[4]) + path; o = o[2]; continue
                if o[1] in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'): o = o[2]; continue
                return ('?',), tuple(path)
            i = self.V(o)
            if i is None:
                if isinstance(o, str):
                    if o.startswith('g:'): return ('g', self.mod.alias(o[2:])), tuple(path)
                    if o[0] == 'a' and o[1:].isdigit(): return ('a', int(o[1:])), tuple(path)
                    return ('k', o), tuple(path)
                return ('?',), tuple(path)
            if i.op == 'getelementptr':
                path = self._gp(i.x['gp']) + path; o = i.ops[0]; continue
            if i.op in ('bitcast', 'freeze', 'addrspacecast'): o = i.ops[0]; continue
            if i.op == 'alloca': return ('al', i.id), tuple(path)
            if i.op == 'load':
                return ('ld', i.id), tuple(path)
            return ('v', i.id), tuple(path)
    def _gp(self, gp):
        out = []
        for g in gp:
            if g[0] == 'f': out.append(self.mod.field(g[1], g[2]))
            else: out.append(('[]', g[1] if not isinstance(g[1], list) else 'x'))
        return out
    def fields_of(self, o):
        """names of the struct fields on the access path of pointer operand o, following loads"""
        r, p = self.addr(o)
        f = [x for x in p if not isinstance(x, tuple)]
        return f
    def leaf(self, i):
        """for a load/store Inst: (struct, field) being accessed, or None"""
        o = i.ops[0] if i.op == 'load' else i.ops[1]
        return self.leaf_addr(o)
    def leaf_addr(self, o):
        r, p = self.addr(o)
        for x in reversed(p):
            if not isinstance(x, tuple): return x
        return None
    def key(self, o, depth=14, memo=None):
        """structural key of a value; loads are keyed by address structure (so equal keys need an aliasing argument)"""
        if isinstance(o, list): return json.dumps(o)
        i = self.V(o)
        if i is None: return o
        if depth == 0: return ('v', i.id)
        d = depth - 1
        if i.op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'): return self.key(i.ops[0], depth)
        if i.op == 'load': return ('load', self.akey(i.ops[0], d))
        if i.op == 'getelementptr': return ('gep', self.akey(o, d))
        if i.op in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'):
            a, b = self.key(i.ops[0], d), self.key(i.ops[1], d)
            return (i.op,) + tuple(sorted((a, b), key=repr))
        if i.op in ('sub', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr', 'fsub', 'fdiv'):
            return (i.op, self.key(i.ops[0], d), self.key(i.ops[1], d))
        if i.op in ('icmp', 'fcmp'): return (i.op, i.x['p'], self.key(i.ops[0], d), self.key(i.ops[1], d))
        if i.op == 'select': return ('select',) + tuple(self.key(x, d) for x in i.ops)
        return ('v', i.id)
    def akey(self, o, depth=12):
        r, p = self.addr(o)
        if r[0] == 'ld' and depth > 0: r = ('ld', self.akey(self.insts[r[1]].ops[0], depth - 1))
        elif r[0] == 'v' and depth > 0: r = ('v', r[1])
        return (r, tuple(x if not isinstance(x, tuple) else ('[]', self.key(x[1], depth - 1) if depth > 0 else x[1]) for x in p))

class Mod:
    def __init__(self, name, path, d):
        self.name, self.path = name, path
        self.structs = d['structs']; self.enums = d['enums']
        self.aliases = {a: t for a, t in d['aliases']}
        self.globals = d['globals']
        self.fns = {}
        self.prog = None
        for f in d['functions']:
            fn = Fn(self, f); self.fns[fn.name] = fn
    def alias(self, n):
        n = self.aliases.get(n, n)
        if self.prog: n = self.prog.aliases.get(n, n)
        return n
    def field(self, st, ix):
        s = self.structs.get(st)
        nm = ''
        if s and ix < len(s['fields']): nm = s['fields'][ix][0]
        st = re.sub(r'^%(struct|union|class)\.', '', st)
        st = re.sub(r'\.\d+$', '', st)
        return '%s.%s' % (st, nm or ix)

class Prog:
    """A set of modules linked by name."""
    def __init__(self, names, mode='keep'):
        paths = B.build(names, mode)
        T = B.tus()
        self.mods = {}
        self.aliases = {}
        self.fns = {}
        self.mode = mode
        for n in names:
            with open(paths[n]) as f: d = json.load(f)
            m = Mod(n, T[n][0], d)
            self.mods[n] = m
            self.aliases.update(m.aliases)
        for m in self.mods.values():
            m.prog = self
            for f in m.fns.values():
                if f.internal: self.fns.setdefault('%s::%s' % (m.name, f.name), f)
                else: self.fns[f.name] = f
        self._callers = None
    def all(self):
        for m in self.mods.values():
            for f in m.fns.values():
                if f.kept or not f.internal: yield f
    def analysed(self):
        """functions to which per-function rules apply: the repository's own entry points (helpers that were inlined are
        judged in their callers)"""
        for m in self.mods.values():
            for f in m.fns.values():
                if f.kept: yield f
    def get(self, name, mod=None):
        name = self.aliases.get(name, name)
        if mod is not None and name in mod.fns: return mod.fns[name]
        return self.fns.get(name)
    def need(self, name):
        f = self.get(name)
        if f is None: raise Broken('anchor vanished: function %s' % name)
        return f
    def target(self, call):
        """defined function called by a call inst (direct), or None"""
        c = call.callee
        if c is None: return None
        return self.get(c, call.fn.mod)
    def stat(self):
        fs = list(self.all())
        return {'translation_units': len(self.mods), 'functions': len(fs), 'instructions': sum(len(f.insts) for f in fs),
                'call_sites': sum(1 for f in fs for i in f.insts if i.op in ('call', 'invoke'))}

# ---------------------------------------------------------------- typestate exploration
def explore(fn, init, step, edge=None, start=None, limit=400000):
    """Explore (block, state) pairs. step(inst, state) -> iterable of next states (or a state); edge(block, succ, state) ->
    state or None (infeasible). Returns dict of visited (block,state) -> predecessor, for path reports."""
    st0 = (0, init) if start is None else start
    pre = {st0: None}
    q = deque([st0])
    n = 0
    while q:
        b, s = q.popleft()
        n += 1
        if n > limit: raise Broken('state space too large in %s' % fn.name)
        states = [s]
        for i in fn.blocks[b]:
            nxt = []
            for t in states:
                r = step(i, t)
                if r is None: continue
                if isinstance(r, list): nxt.extend(r)
                else: nxt.append(r)
            states = nxt
            if not states: break
        for t in states:
            for k in fn.succ[b]:
                u = t if edge is None else edge(b, k, t)
                if u is None: continue
                if (k, u) not in pre:
                    pre[(k, u)] = (b, s); q.append((k, u))
    return pre

def path_lines(fn, pre, node, last=None):
    out = []
    while node is not None:
        b = node[0]
        for i in reversed(fn.blocks[b]):
            if i.line and 'in' not in i.x:
                if not out or out[-1] != i.line: out.append(i.line)
                break
        node = pre.get(node)
    out = out[::-1]
    if last: out.append(last)
    r = []
    for l in out:
        if not r or r[-1] != l: r.append(l)
    if len(r) > 14: r = r[:5] + ['...'] + r[-8:]
    return ' -> '.join(str(x) for x in r)

def cond_truth(fn, b, k):
    """(cond operand, truth) for edge b->k of a conditional br; None otherwise"""
    t = fn.blocks[b][-1]
    if t.op == 'br' and len(t.x['t']) == 2 and t.x['t'][0] != t.x['t'][1]:
        return t.ops[0], k == t.x['t'][0]
    return None

def null_test(fn, cond, truth):
    """If the condition tests a value against 0/null: (operand, is_nonzero when truth) else None. Looks through
    icmp ne (zext (icmp..)), 0 chains and xor true."""
    for _ in range(8):
        i = fn.V(cond)
        if i is None: return None
        if i.op == 'icmp' and i.x['p'] in ('eq', 'ne') and (i.ops[1] in ('n', 'c:0') or i.ops[0] in ('n', 'c:0')):
            nz = truth if i.x['p'] == 'ne' else not truth
            o = fn.strip(i.ops[0] if i.ops[1] in ('n', 'c:0') else i.ops[1], ('zext', 'sext', 'freeze'))
            j = fn.V(o)
            if j is not None and j.op in ('icmp', 'fcmp'):
                cond, truth = o, nz; continue
            return o, nz
        if i.op == 'xor' and i.ops[1] == 'c:-1' and i.ty == 'i1':
            cond, truth = i.ops[0], not truth; continue
        return None
    return None

def implied_tests(f, b, k):
    """[(operand, nonzero)] known when edge b->k is taken, looking through short-circuit phis, and/or"""
    out = []
    def walk(c, t, d):
        i = f.V(c)
        if i is None or d > 8: return
        if i.op == 'icmp' or i.op == 'xor':
            nt = null_test(f, c, t)
            if nt:
                out.append(nt)
                j = f.V(f.strip(nt[0], ('zext', 'sext', 'freeze')))
                if j is not None and j.op == 'phi' and j.ty == 'i1': walk(j.id, nt[1], d + 1)
        elif i.op in ('zext', 'freeze'): walk(i.ops[0], t, d + 1)
        elif i.op == 'or' and not t or i.op == 'and' and t:
            for o in i.ops: walk(o, t, d + 1)
        elif i.op == 'select' and i.ty == 'i1' and (t and i.ops[2] == 'c:0' or not t and i.ops[1] == 'c:-1'):
            walk(i.ops[0], t, d + 1); walk(i.ops[1] if t else i.ops[2], t, d + 1)
        elif i.op == 'phi' and i.ty == 'i1':
            live = [(o, pb) for o, pb in zip(i.ops, i.x['bs']) if not (o == 'c:0' if t else o in ('c:-1', 'c:1'))]
            if len(live) == 1:
                o, pb = live[0]
                walk(o, t, d + 1)
                # the path came through pb: tests dominating pb inside the short-circuit chain hold
                cur, n = pb, 0
                while n < 6 and cur != i.blk and len(f.pred[cur]) == 1:
                    a = f.pred[cur][0]
                    ct = cond_truth(f, a, cur)
                    if ct: walk(ct[0], ct[1], d + 1)
                    if a == b: break
                    # stop once a block of the chain has real effects
                    if any(x.op in ('store', 'call') for x in f.blocks[cur]): break
                    cur = a; n += 1
    ct = cond_truth(f, b, k)
    if ct:
        walk(ct[0], ct[1], 0)
    return out
