"""Value flow through small memory regions along the live paths of a specialised function (abstract interpretation over a finite
domain of value tags; no solver, no execution)."""
from .sccp import *

class Flow:
    """region(fn, operand) -> hashable region name or None; initial contents are ('in', region).
    Walks every acyclic path of live blocks (bounded), reports events to on(inst, state, get) where get(region) gives contents."""
    def __init__(self, fn, sc, region, limit=200):
        self.fn, self.sc, self.region, self.limit = fn, sc, region, limit
    def val(self, o, st, mem):
        f = self.fn
        if isinstance(o, int) and o in st: return st[o]
        c = self.sc.get(o)
        if isinstance(c, int) and not isinstance(c, bool) and c is not BOT: return ('c', c)
        if isinstance(o, str):
            return ('arg', int(o[1:])) if o[0] == 'a' and o[1:].isdigit() else ('k', o)
        return ('v', o)
    def run(self, on):
        f, sc = self.fn, self.sc
        can = f.can_return()
        n = 0
        stack = [(0, None, {}, {}, frozenset())]
        while stack:
            b, prev, st, mem, seen = stack.pop()
            n += 1
            if n > self.limit * 20: raise Broken('too many paths in ' + f.name)
            st, mem = dict(st), dict(mem)
            def get(r): return mem.get(r, ('in', r))
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for o, pb in zip(i.ops, i.x['bs']):
                        if pb == prev: st[i.id] = self.val(o, st, mem)
                elif i.op == 'load':
                    r = self.region(f, i.ops[0])
                    c = sc.get(i.id)
                    st[i.id] = ('c', c) if isinstance(c, int) and c is not BOT else (get(r) if r is not None else ('v', i.id))
                elif i.op == 'store':
                    r = self.region(f, i.ops[1])
                    if r is not None:
                        on(i, get, ('store', r, self.val(i.ops[0], st, mem)))
                        mem[r] = self.val(i.ops[0], st, mem)
                elif i.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'): st[i.id] = self.val(i.ops[0], st, mem)
                elif i.op in ('add', 'sub'):
                    a, c = self.val(i.ops[0], st, mem), self.val(i.ops[1], st, mem)
                    if not (a[0] == 'c' and c[0] == 'c'):
                        st[i.id] = ('add',) + tuple(sorted((a, c), key=repr)) if i.op == 'add' else ('sub', a, c)
                elif i.op == 'select':
                    c = sc.get(i.ops[0])
                    if c in (0, 1, -1) and c is not BOT: st[i.id] = self.val(i.ops[1] if c else i.ops[2], st, mem)
                elif i.op == 'call' and i.callee and (i.callee.startswith(('llvm.memcpy', 'llvm.memmove')) or i.callee in ('_my_memcpy', 'memcpy')):
                    d, s = self.region(f, i.ops[0]), self.region(f, i.ops[1])
                    v = get(s) if s is not None else ('mem', repr(f.akey(i.ops[1])))
                    if d is not None:
                        on(i, get, ('store', d, v)); mem[d] = v
                elif i.op in ('call', 'ret'):
                    on(i, get, None)
                if i.op == 'call' and i.callee and '_my_free' in i.callee: pass
            for k in f.succ[b]:
                if (b, k) not in sc.edges or not can[k] or (b, k) in seen: continue
                stack.append((k, b, st, mem, seen | {(b, k)}))
