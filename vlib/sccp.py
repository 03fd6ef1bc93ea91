"""Sparse conditional constant propagation under assumptions (partial evaluation of one function)."""
from .ir import *
BOT = object()
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

def wrap(v, ty):
    b = BITS.get(ty)
    if b is None: return v
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v
def uns(v, ty):
    b = BITS.get(ty, 64); return v & ((1 << b) - 1)

class SCCP:
    """argc: {arg index: int}; loadc(inst) -> int|None for loads; callc(inst) -> int|None for call results;
    cmpc(inst) -> bool|None overrides a comparison."""
    def __init__(self, fn, argc=None, loadc=None, callc=None, cmpc=None):
        self.fn, self.argc, self.loadc, self.callc, self.cmpc = fn, argc or {}, loadc, callc, cmpc
        self.val = {}
        self.edges = set(); self.blocks = set()
        self._run()
    def get(self, o):
        """None = undefined/unreached yet, BOT = unknown, else int"""
        if isinstance(o, int): return self.val.get(o)
        if isinstance(o, str):
            if o.startswith('c:'):
                return int(o[2:]) if o != 'c:big' else BOT
            if o == 'n': return 0
            if o == 'u': return BOT
            if o[0] == 'a' and o[1:].isdigit(): return self.argc.get(int(o[1:]), BOT)
        return BOT
    def const(self, o):
        v = self.get(o)
        return v if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, bool) else None
    def _run(self):
        fn = self.fn
        bw, iw = deque([(None, 0)]), deque()
        done = set()
        users = fn.users
        while bw or iw:
            if bw:
                e = bw.popleft()
                if e in self.edges: continue
                self.edges.add(e)
                b = e[1]
                first = b not in self.blocks
                self.blocks.add(b)
                for i in fn.blocks[b]:
                    if i.op == 'phi' or first: self._visit(i, bw, iw)
                continue
            i = iw.popleft()
            for u in users.get(i, ()):
                if u.blk in self.blocks: self._visit(u, bw, iw)
    def _visit(self, i, bw, iw):
        op = i.op
        if op == 'br':
            t = i.x['t']
            if not i.ops: bw.append((i.blk, t[0])); return
            v = self.get(i.ops[0])
            if v is None: return
            if v is BOT:
                for k in t: bw.append((i.blk, k))
            else: bw.append((i.blk, t[0] if v & 1 else t[1]))
            return
        if op == 'switch':
            v = self.get(i.ops[0])
            if v is None: return
            if v is BOT:
                bw.append((i.blk, i.x['d']))
                for c in i.x['cs']: bw.append((i.blk, c[1]))
            else:
                ty = None
                for c in i.x['cs']:
                    if c[0] == v: bw.append((i.blk, c[1])); break
                else: bw.append((i.blk, i.x['d']))
            return
        if op == 'invoke':
            for k in i.x['t']: bw.append((i.blk, k))
        if i.ty == 'void': return
        old = self.val.get(i.id)
        if old is BOT: return
        new = self._eval(i)
        if new is None or new == old and new is not BOT and old is not None: return
        if old is not None and new is not BOT and new != old: new = BOT
        self.val[i.id] = new
        iw.append(i.id)
    def _eval(self, i):
        op, ty = i.op, i.ty
        if op == 'phi':
            r = None
            for o, b in zip(i.ops, i.x['bs']):
                if (b, i.blk) not in self.edges: continue
                v = self.get(o)
                if o == 'u': continue
                if v is None: continue
                if v is BOT: return BOT
                if r is None: r = v
                elif r != v: return BOT
            return r
        if op == 'load':
            v = self.loadc(i) if self.loadc else None
            return BOT if v is None else v
        if op in ('call', 'invoke'):
            v = self.callc(i) if self.callc else None
            return BOT if v is None else v
        if op in ('icmp',):
            if self.cmpc:
                v = self.cmpc(i)
                if v is not None: return int(v)
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if a is None or b is None: return None
            if a is BOT or b is BOT: return BOT
            t = i.x['ty']; p = i.x['p']
            if p[0] == 'u': a, b = uns(a, t), uns(b, t); p = 's' + p[1:]
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p])
        if op == 'select':
            c = self.get(i.ops[0])
            if c is None: return None
            if c is BOT:
                a, b = self.get(i.ops[1]), self.get(i.ops[2])
                return a if a == b and a is not None and a is not BOT else BOT
            return self.get(i.ops[1] if c & 1 else i.ops[2])
        if op in ('sext', 'zext', 'trunc', 'freeze'):
            a = self.get(i.ops[0])
            if a is None or a is BOT: return a
            if op == 'zext': return uns(a, i.x['ft'])
            return wrap(a, ty)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'sdiv', 'srem', 'udiv', 'urem', 'lshr', 'ashr'):
            a, b = self.get(i.ops[0]), self.get(i.ops[1])
            if op == 'mul' and (a == 0 or b == 0) and a is not BOT and b is not BOT: return 0
            if a is None or b is None: return None
            if a is BOT or b is BOT: return BOT
            try:
                if op == 'add': r = a + b
                elif op == 'sub': r = a - b
                elif op == 'mul': r = a * b
                elif op == 'and': r = a & b
                elif op == 'or': r = a | b
                elif op == 'xor': r = a ^ b
                elif op == 'shl': r = a << b
                elif op == 'lshr': r = uns(a, ty) >> b
                elif op == 'ashr': r = a >> b
                elif op == 'sdiv': r = int(a / b) if abs(a) < 2**50 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
                elif op == 'srem': r = a - b * (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
                elif op == 'udiv': r = uns(a, ty) // uns(b, ty)
                else: r = uns(a, ty) % uns(b, ty)
            except ZeroDivisionError: return BOT
            return wrap(r, ty)
        return BOT
    # queries
    def live(self):
        for b in sorted(self.blocks):
            for i in self.fn.blocks[b]: yield i
    def live_calls(self, *names):
        for i in self.live():
            if i.op in ('call', 'invoke') and i.callee and (not names or i.callee in names): yield i
    def returns(self):
        return any(i.op == 'ret' for i in self.live())
    def resolve(self, o):
        """operand through phis with one live incoming value"""
        for _ in range(20):
            i = self.fn.V(o)
            if i is None or i.op != 'phi': return o
            inc = {repr(x): x for x, b in zip(i.ops, i.x['bs']) if (b, i.blk) in self.edges and x != 'u'}
            if len(inc) != 1: return o
            o = list(inc.values())[0]
        return o
