"""Data-dependence provenance: which parameters (and which fields behind them) a value, an address or the contents of an object derive
from. Flow-insensitive within a function, context-sensitive across functions through event summaries. Control dependence is ignored."""
from .ir import *

ALLOC = {'malloc', 'calloc', 'realloc', 'comex_malloc_local', '_my_malloc', 'strdup'}
COPY = {'memcpy', 'memmove'}
PURE = {'free', 'printf', 'fprintf', 'fflush', 'abort', 'exit', 'strcmp', 'strlen', 'comex_error', '__assert_fail', 'perror', 'usleep'}

def is_copy(c): return c in COPY or c.startswith(('llvm.memcpy', 'llvm.memmove'))
def is_local(o): return o[0] in ('al', 'v')

class Deps:
    def __init__(self, f, ext=(), stores=None, outs=None, rets=None):
        self.f = f
        self.ext = set(ext)              # calls whose results/outputs do not depend on their arguments
        self.stores = stores or (lambda i, k: True)   # does call i write through argument k
        self.rets = rets or (lambda d, i: None)
        self.outs = outs or (lambda d, i, k: None)
        self.writers = defaultdict(set); self.tok = defaultdict(set); self.obj = defaultdict(set)
        self.cell = defaultdict(set); self.cobj = defaultdict(set)
        self.run()
    def fieldof(self, path):
        for x in reversed(path):
            if not isinstance(x, tuple): return x.split('.', 1)[1]
        return None
    def idxtok(self, path):
        r = set()
        for x in path:
            if isinstance(x, tuple): r |= self.tokens(x[1])
        return r
    def tokens(self, o):
        """tokens of the value of operand o"""
        if isinstance(o, list):
            r = set()
            for x in o[2:]:
                if isinstance(x, (int, list)) : r |= self.tokens(x)
            return r
        if isinstance(o, int): return self.tok[o]
        if isinstance(o, str):
            if o[0] == 'a' and o[1:].isdigit(): return {('a', int(o[1:]))}
            if o.startswith('g:'): return {('g', self.f.mod.alias(o[2:]))}
        return set()
    def objects(self, o):
        if isinstance(o, int): return self.obj[o]
        if isinstance(o, str):
            if o[0] == 'a' and o[1:].isdigit(): return {('a', int(o[1:]))}
            if o.startswith('g:'): return {('g', self.f.mod.alias(o[2:]))}
        if isinstance(o, list):
            r = set()
            for x in o[2:]:
                if isinstance(x, (str, list)): r |= self.objects(x)
            return r
        return set()
    def deref(self, b, fld): return b + (fld or '*',) if len(b) < 5 else b
    def rootval(self, r):
        if r[0] == 'g': return 'g:' + r[1]
        if r[0] == 'a': return 'a%d' % r[1]
        return r[1] if len(r) > 1 else None
    def contents(self, o, fld=None, seen=None):
        """tokens held in the objects operand o may point to"""
        r = set()
        for b in self.objects(o): r |= self.content_of(b, fld)
        return r
    def content_of(self, b, fld=None):
        if not is_local(b): return {self.deref(b, fld)}
        r = set()
        for (ob, fl), t in list(self.cell.items()):
            if ob == b and (fld is None or fl in (fld, '*')): r |= t
        return r
    def contents_at(self, o, at):
        """contents when instruction at executes: for scratch arrays filled by plain stores, a filling that a later one replaces does not count"""
        r = set()
        for b in self.objects(o):
            ws = self.writers.get(b, set())
            if not is_local(b) or not ws or None in ws: r |= self.content_of(b); continue
            f = self.f
            ss = [f.insts[x] for x in ws]
            for s in ss:
                if not f.inst_reaches(s, at): continue
                hit = False
                for s2 in ss:
                    if s2 is s: continue
                    lp = [h for h, body in f.loops().items() if s2.blk in body and s.blk not in body and at.blk not in body]
                    blk = lp and min(lp, key=lambda h: -len(f.loops()[h]))
                    if lp and (f.dom[at.blk] >> blk) & 1 and blk in f.reach(s.blk) and s.x.get('vt') == s2.x.get('vt'): hit = True
                if not hit: r |= self.tokens(s.ops[0])
        return r
    def both(self, o): return self.tokens(o) | self.contents(o)
    def run(self):
        f = self.f
        ch = True
        while ch:
            n0 = sum(map(len, self.tok.values())) + sum(map(len, self.obj.values())) + sum(map(len, self.cell.values())) + sum(map(len, self.cobj.values()))
            for i in f.insts: self.visit(i)
            ch = n0 != sum(map(len, self.tok.values())) + sum(map(len, self.obj.values())) + sum(map(len, self.cell.values())) + sum(map(len, self.cobj.values()))
    def visit(self, i):
        f = self.f; op = i.op
        if op == 'alloca': self.obj[i.id].add(('al', i.id)); return
        if op == 'load':
            r, path = f.addr(i.ops[0])
            rv = self.rootval(r); fld = self.fieldof(path)
            t = set(self.idxtok(path)); ob = set()
            for b in self.objects(rv):
                if is_local(b):
                    for fl in (fld or '*',) if fld is None else (fld, '*'):
                        t |= self.cell[(b, fl)]; ob |= self.cobj[(b, fl)]
                    if fld is None:
                        for (o2, fl), tt in list(self.cell.items()):
                            if o2 == b: t |= tt; ob |= self.cobj[(o2, fl)]
                else:
                    nb = self.deref(b, fld)
                    t.add(nb)
                    if i.ty == 'ptr': ob.add(nb)
            if r[0] not in ('al',): 
                if r[0] in ('ld', 'v'): t |= {x for x in self.tokens(rv) if not (x[0] == 'a' and any(y[:len(x)] == x for y in t if y != x))}
            self.tok[i.id] |= t; self.obj[i.id] |= ob
            return
        if op == 'store':
            r, path = f.addr(i.ops[1]); rv = self.rootval(r); fld = self.fieldof(path) or '*'
            for b in self.objects(rv):
                if is_local(b) or b[0] == 'a':
                    self.writers[b].add(i.id); self.cell[(b, fld)] |= self.tokens(i.ops[0]); self.cobj[(b, fld)] |= self.objects(i.ops[0])
            return
        if op == 'getelementptr':
            self.tok[i.id] |= self.tokens(i.ops[0]); self.obj[i.id] |= self.objects(i.ops[0])
            for g in i.x['gp']:
                if g[0] != 'f': self.tok[i.id] |= self.tokens(g[1])
            return
        if op == 'call':
            c = i.callee or ''
            if c.startswith(('llvm.dbg', 'llvm.lifetime')): return
            if is_copy(c):
                for b in self.objects(i.ops[0]):
                    if is_local(b) or b[0] == 'a':
                        self.writers[b].add(None); self.cell[(b, '*')] |= self.contents(i.ops[1]) | (self.tokens(i.ops[1]) if not any(is_local(x) for x in self.objects(i.ops[1])) else set())
                        for s in self.objects(i.ops[1]):
                            for (ob, fl), t in list(self.cobj.items()):
                                if ob == s: self.cobj[(b, '*')] |= t
                self.tok[i.id] |= self.tokens(i.ops[0]); self.obj[i.id] |= self.objects(i.ops[0])
                return
            if c in ALLOC:
                self.obj[i.id].add(('v', i.id)); return
            if c in PURE or c in self.ext: return
            allt = set()
            for o in i.ops: allt |= self.tokens(o) | self.contents_at(o, i)
            fresh = self.rets(self, i) if i.ty == 'ptr' else None
            if fresh is not None:
                self.tok[i.id] |= fresh[0]; self.obj[i.id].add(('v', i.id)); self.cell[(('v', i.id), '*')] |= fresh[1]; self.writers[('v', i.id)].add(None)
            elif i.ty != 'void':
                self.tok[i.id] |= allt
                if i.ty == 'ptr':
                    self.obj[i.id].add(('v', i.id)); self.cell[(('v', i.id), '*')] |= allt
            for k, o in enumerate(i.ops):
                obs = [b for b in self.objects(o) if is_local(b) or b[0] == 'a']
                if obs and self.stores(i, k):
                    t = self.outs(self, i, k)
                    for b in obs: self.writers[b].add(None); self.cell[(b, '*')] |= allt if t is None else t
            return
        if op in ('br', 'switch', 'ret', 'unreachable', 'icmp', 'fcmp'): return
        for n, o in enumerate(i.ops):
            if op == 'select' and n == 0: continue
            self.tok[i.id] |= self.tokens(o); self.obj[i.id] |= self.objects(o)
