"""Type-specialised view of a function that dispatches on the GA element type: which memory it touches and what it computes per type."""
import hashlib
from .ir import *
from .sccp import SCCP, BOT
TY = {1001: 'int', 1002: 'long', 1003: 'float', 1004: 'double', 1006: 'scpl', 1007: 'dcpl', 1016: 'longlong'}
ELEM = {1001: 'i32', 1002: 'i64', 1003: 'float', 1004: 'double', 1006: 'float', 1007: 'double', 1016: 'i64'}
CASTS = ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr')
VCASTS = CASTS + ('fpext', 'fptrunc', 'sitofp', 'fptosi', 'uitofp', 'fptoui')
ABS = {'abs', 'labs', 'llabs', 'fabs', 'fabsf', 'llvm.fabs.f64', 'llvm.fabs.f32', 'llvm.abs.i32', 'llvm.abs.i64'}
FUN = {'hypotf': 'hypot', 'powf': 'pow', 'expf': 'exp', 'logf': 'log', 'floorf': 'floor', 'ceilf': 'ceil'}
SQRT = {'sqrt', 'sqrtf', 'llvm.sqrt.f64', 'llvm.sqrt.f32'}

def type_sources(f):
    """values compared with or switched over element type constants"""
    src = set()
    for i in f.insts:
        if i.op == 'switch' and sum(1000 <= v <= 1020 for v, _ in i.x['cs']) >= 2: src.add(f.strip(i.ops[0]))
        elif i.op == 'icmp' and i.x['p'] in ('eq', 'ne') and isinstance(i.ops[1], str) and re.match(r'c:10[01]\d$', i.ops[1]): src.add(f.strip(i.ops[0]))
    return {s for s in src if isinstance(s, int) or isinstance(s, str) and s[0] == 'a' and s[1:].isdigit()}

def special(f, t, src=None):
    src = type_sources(f) if src is None else src
    ids = {s for s in src if isinstance(s, int)}
    tests = {}
    for i in f.insts:
        if i.op == 'icmp' and f.strip(i.ops[0]) in src and isinstance(i.ops[1], str) and i.ops[1].startswith('c:') and i.ops[1] != 'c:big' and 1000 <= int(i.ops[1][2:]) <= 1020 and i.x['p'] in ('eq', 'ne'):
            tests[i.id] = (t == int(i.ops[1][2:])) == (i.x['p'] == 'eq')
    return SCCP(f, {int(s[1:]): t for s in src if isinstance(s, str)}, loadc=lambda i: t if i.id in ids else None, callc=lambda i: t if i.id in ids else None, cmpc=lambda i: tests.get(i.id))

class Kernel:
    def __init__(self, f, t, sc, blocks):
        self.f, self.t, self.sc, self.blocks = f, t, sc, blocks
        self.stack = []; self.memo = {}
    def role(self, o, depth=0):
        """(object, component) an address designates; offsets ignored"""
        f = self.f; comp = 0
        seen = set()
        while True:
            i = f.V(o)
            if i is None: return (o if not isinstance(o, list) else json.dumps(o), comp)
            if i.id in seen or depth > 12: return (('?',), comp)
            seen.add(i.id)
            if i.op == 'getelementptr':
                st = i.x.get('st') or ''
                for g in i.x['gp']:
                    if g[0] == 'f':
                        if 'omplex' in g[1]: comp = g[2]
                if st == 'i8' and self.t in (1006, 1007) and len(i.x['gp']) == 1 and i.x['gp'][0][1] == ('c:4' if self.t == 1006 else 'c:8'): comp = 1
                o = i.ops[0]; continue
            if i.op in CASTS: o = i.ops[0]; continue
            if i.op == 'load': return (('*',) + (self.role(i.ops[0], depth + 1)[0],), comp)
            if i.op == 'alloca': return (('al', i.id), comp)
            if i.op in ('phi', 'select'):
                ops = [x for n, x in enumerate(i.ops) if not (i.op == 'select' and n == 0)]
                if i.op == 'phi': ops = [x for x, b in zip(i.ops, i.x['bs']) if (b, i.blk) in self.sc.edges]
                rs = set()
                for x in ops:
                    j = f.V(x)
                    if j is not None and j.id in seen: continue
                    k = self.through(x, i.id, 0)
                    if k: continue
                    rs.add(self.role(x, depth + 1)[0])
                if len(rs) == 1: return (rs.pop(), comp)
                return (('mix', frozenset(rs)), comp)
            if i.op == 'call': return (('call', i.callee) + ((i.id,) if i.blk not in self.blocks else ()), comp)
            return (('v', i.id), comp)
    def through(self, o, pid, d):
        """o is derived from phi pid by pointer arithmetic"""
        f = self.f
        while d < 12:
            i = f.V(o)
            if i is None: return False
            if i.id == pid: return True
            if i.op in ('getelementptr',) + CASTS: o = i.ops[0]; d += 1; continue
            return False
        return False
    # polynomials: frozenset of (monomial tuple sorted by repr, coefficient)
    def P(self, o): 
        r = self.poly(o)
        return frozenset(r.items())
    def num(self, v):
        if v == self.t: return self.atom(('type',))
        if abs(v) >= 2147483647: return {(('huge',),): 1 if v > 0 else -1}
        return ({(): int(v) if v == int(v) else v}) if v else {}
    def atom(self, a): return {(a,): 1}
    def add(self, a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    def mul(self, a, b):
        r = {}
        for k, v in a.items():
            for k2, v2 in b.items():
                kk = tuple(sorted(k + k2, key=repr)); r[kk] = r.get(kk, 0) + v * v2
        return {k: v for k, v in r.items() if v}
    def poly(self, o):
        f = self.f
        if isinstance(o, str):
            if o.startswith('c:') and o != 'c:big': return self.num(int(o[2:]))
            if o.startswith('f:'):
                v = float(o[2:]); return self.num(v) if v == v else self.atom(('const', o))
            return self.atom(('leaf', o))
        i = f.V(o)
        if i is None: return self.atom(('leaf', json.dumps(o)))
        c = self.sc.const(i.id) if i.ty and i.ty.startswith('i') else None
        if isinstance(c, int): return self.num(c)
        if i.id in self.memo: return self.memo[i.id]
        if i.id in self.stack or len(self.stack) > 60: return self.atom(('rec',))
        self.stack.append(i.id)
        try: r = small(self._poly(i))
        finally: self.stack.pop()
        if not any('rec' in repr(k) for k in r): self.memo[i.id] = r
        return r
    def _poly(self, i):
        f = self.f; op = i.op
        if op in ('add', 'fadd'): return self.add(self.poly(i.ops[0]), self.poly(i.ops[1]))
        if op in ('sub', 'fsub'): return self.add(self.poly(i.ops[0]), self.poly(i.ops[1]), -1)
        if op in ('mul', 'fmul'): return self.mul(self.poly(i.ops[0]), self.poly(i.ops[1]))
        if op == 'fneg': return self.add({}, self.poly(i.ops[0]), -1)
        if op in VCASTS: return self.poly(i.ops[0])
        if op in ('sdiv', 'fdiv', 'udiv'): return self.atom(('div', self.P(i.ops[0]), self.P(i.ops[1])))
        if op in ('srem', 'urem', 'frem'): return self.atom(('rem', self.P(i.ops[0]), self.P(i.ops[1])))
        if op == 'load': return self.atom(('ld',) + self.role(i.ops[0]))
        if op in ('icmp', 'fcmp'): return self.atom(self.cond(i))
        if op == 'select': return self.sel(self.condof(i.ops[0]), self.poly(i.ops[1]), self.poly(i.ops[2]))
        if op == 'call':
            c = i.callee or ''
            if c.startswith('llvm.fmuladd'): return self.add(self.mul(self.poly(i.ops[0]), self.poly(i.ops[1])), self.poly(i.ops[2]))
            if c in ABS: return self.atom(('abs', self.absn(self.poly(i.ops[0]))))
            if c in SQRT: return self.atom(('sqrt', self.P(i.ops[0])))
            return self.atom(('call', FUN.get(c, c), tuple(self.P(x) for x in i.ops)))
        if op == 'phi':
            live = [(x, b) for x, b in zip(i.ops, i.x['bs']) if (b, i.blk) in self.sc.edges]
            if len(live) == 1: return self.poly(live[0][0])
            if i.blk in f.loops():
                return self.atom(('loop', frozenset(self.P(x) for x, b in live)))
            g = self.gate(i, live)
            if g is not None: return g
            return self.atom(('phi', frozenset(self.P(x) for x, b in live)))
        return self.atom((op, tuple(self.P(x) for x in i.ops if isinstance(x, (int, str)))))
    def gate(self, i, live):
        f = self.f
        if len(live) != 2: return None
        (x, a), (y, b) = live
        # nearest common dominator with a conditional branch
        d = f.dom[a] & f.dom[b]
        c = max((k for k in range(len(f.blocks)) if (d >> k) & 1), key=lambda k: bin(f.dom[k]).count('1'))
        t = f.blocks[c][-1]
        if t.op != 'br' or not t.ops: return None
        s0, s1 = f.succ[c][0], f.succ[c][1]
        def side(p):
            if p == c:
                return 0 if s0 == i.blk else 1 if s1 == i.blk else None
            r0 = s0 != i.blk and (f.dom[p] >> s0) & 1; r1 = s1 != i.blk and (f.dom[p] >> s1) & 1
            return 0 if r0 and not r1 else 1 if r1 and not r0 else None
        p, q = side(a), side(b)
        if None in (p, q) or p == q: return None
        if p == 1: x, y = y, x
        return self.sel(self.condof(t.ops[0]), self.poly(x), self.poly(y))
    def condof(self, o):
        i = self.f.V(o)
        if i is None: return ('leaf', repr(o))
        if i.op in ('icmp', 'fcmp'): return self.cond(i)
        return ('b', self.P(o))
    def cond(self, i):
        """('>'|'>='|'=='|'!=', difference polynomial)"""
        p = i.x['p']
        p = {'ogt': 'gt', 'ugt': 'gt', 'sgt': 'gt', 'oge': 'ge', 'uge': 'ge', 'sge': 'ge', 'olt': 'lt', 'ult': 'lt', 'slt': 'lt', 'ole': 'le', 'ule': 'le', 'sle': 'le', 'oeq': 'eq', 'ueq': 'eq', 'une': 'ne', 'one': 'ne'}.get(p, p)
        a, b = self.poly(i.ops[0]), self.poly(i.ops[1])
        if p in ('lt', 'le'): a, b = b, a; p = 'gt' if p == 'lt' else 'ge'
        d = self.add(a, b, -1)
        if p in ('eq', 'ne'):
            n = self.add({}, d, -1)
            d = min(d, n, key=lambda z: repr(sorted(z.items(), key=repr)))
        return (p, frozenset(d.items()))
    def sel(self, c, x, y):
        """select normalised: abs/max/min recognised, negated conditions swapped"""
        if x == y: return x
        if c[0] == 'ne': c = ('eq', c[1]); x, y = y, x
        if c[0] in ('gt', 'ge'):
            d = dict(c[1])
            if self.add(x, y, -1) == d: return self.atom(('max', frozenset([frozenset(x.items()), frozenset(y.items())])))
            if self.add(y, x, -1) == d: return self.atom(('min', frozenset([frozenset(x.items()), frozenset(y.items())])))
            neg = self.add({}, x, -1)
            if y == neg:
                if d == x: return self.atom(('abs', self.absn(x)))
                if d == y: return self.atom(('-abs', self.absn(x)))
            if c[0] == 'ge':
                c = ('gt', frozenset(self.add({}, d, -1).items())); x, y = y, x
        return self.atom(('sel', c, frozenset(x.items()), frozenset(y.items())))
    def absn(self, x):
        n = self.add({}, x, -1)
        return frozenset(min(x, n, key=lambda z: repr(sorted(z.items(), key=repr))).items())

def kernels(f, types=TY):
    """{type: Kernel} with .blocks = the blocks live for that type but not for every type"""
    src = type_sources(f)
    if not src: return {}
    sc = {t: special(f, t, src) for t in types}
    live = {t: set(s.blocks) for t, s in sc.items()}
    common = set.intersection(*live.values())
    return {t: Kernel(f, t, sc[t], live[t] - common) for t in types}

def substitute(x, ren):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'al' and x in ren: return ('local', ren[x])
        return tuple(substitute(y, ren) for y in x)
    if isinstance(x, frozenset): return frozenset(substitute(y, ren) for y in x)
    return x
def replace_rec(x, new):
    """expression x with the loop-carried value replaced by `new`"""
    if x == ('rec',): return new
    if isinstance(x, frozenset):
        out = set()
        for y in x:
            z = replace_rec(y, new)
            if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], tuple) and not isinstance(z[1], (tuple, frozenset, str)): z = (tuple(sorted(z[0], key=repr)), z[1])
            out.add(z)
        return frozenset(out)
    if isinstance(x, tuple): return tuple(replace_rec(y, new) for y in x)
    return x
def unroll(v, tgt):
    """a value accumulated in a register over a loop and then stored = the same accumulation done in the target"""
    old = ('ld',) + tgt
    def go(v, d):
        if len(v) == 1 and d < 4:
            (m, c), = v
            if c == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'loop':
                return set().union(*(go(frozenset(a), d + 1) for a in m[0][1])) if len(m[0]) == 2 and isinstance(m[0][1], frozenset) else {v}
        return {replace_rec(v, old) if d else v}
    r = go(v, 0)
    return {x for x in r if x != frozenset({((old,), 1)})} or r
CAP = 1500
def size(x, n=0):
    """nodes of a nested tuple/frozenset, counting stops above CAP"""
    n += 1
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            n = size(y, n)
            if n > CAP: break
    return n
def mask(x):
    if isinstance(x, tuple):
        return ('al',) if len(x) == 2 and x[0] == 'al' else tuple(mask(y) for y in x)
    return frozenset(mask(y) for y in x) if isinstance(x, frozenset) else x
def small(r):
    """a polynomial too large to carry is replaced by a digest of itself (locals masked)"""
    n = 0
    for k, v in r.items():
        n = size(k, n)
        if n > CAP: return {(('digest', hashlib.sha1(stable(mask(frozenset(r.items()))).encode()).hexdigest()[:16]),): 1}
    return r
def locals_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'al': out.add(x)
        else:
            for y in x: locals_in(y, out)
    elif isinstance(x, frozenset):
        for y in x: locals_in(y, out)
def canon_map(facts, ren):
    """{fact: the fact with the locals in `ren` replaced by structural colours}"""
    col = {a: 0 for a in ren}
    for _ in range(3):
        new = {}
        for a in col:
            c2 = dict(col); c2[a] = ('self', col[a])
            mine = []
            for fct in facts:
                l = set(); locals_in(fct, l)
                if a in l: mine.append(stable(substitute(fct, c2)))
            new[a] = hashlib.sha1('|'.join(sorted(mine)).encode()).hexdigest()[:12]
        col = new
    return {x: substitute(x, col) for x in facts}
def stable(x):
    if isinstance(x, tuple): return '(' + ','.join(stable(y) for y in x) + ')'
    if isinstance(x, frozenset): return '{' + ','.join(sorted(stable(y) for y in x)) + '}'
    return repr(x)
