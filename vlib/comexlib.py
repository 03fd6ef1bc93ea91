"""Facts about the client/server ports of comex (pr, pt, mt) read from the IR."""
from .util import *

def opnames(m):
    e = m.enums['op_t']
    return {v: k for k, v in (e.items() if isinstance(e, dict) else e)}

def consts(f, o, depth=8, seen=None):
    """possible constants of an integer operand through phi/select; None if some source is unknown"""
    seen = set() if seen is None else seen
    if isinstance(o, str):
        return {int(o[2:])} if o.startswith('c:') and o != 'c:big' else (set() if o == 'u' else None)
    i = f.V(o)
    if i is None or depth == 0: return None
    if i.id in seen: return set()
    seen.add(i.id)
    if i.op in ('sext', 'zext', 'trunc', 'freeze'): return consts(f, i.ops[0], depth, seen)
    if i.op == 'phi': xs = i.ops
    elif i.op == 'select': xs = i.ops[1:]
    else: return None
    out = set()
    for x in xs:
        c = consts(f, x, depth - 1, seen)
        if c is None: return None
        out |= c
    return out

def roots(f, o, depth=6, seen=None):
    """possible root objects of a pointer, through phi/select"""
    seen = set() if seen is None else seen
    r, p = f.addr(o)
    if r[0] == 'v' and depth:
        i = f.insts[r[1]]
        if i.id in seen: return set()
        seen.add(i.id)
        xs = i.ops if i.op == 'phi' else i.ops[1:] if i.op == 'select' else None
        if xs is not None:
            out = set()
            for x in xs: out |= roots(f, x, depth - 1, seen)
            return out
    return {r}

def op_stores(f):
    """[(inst, root set, possible operation constants or None)]"""
    out = []
    for i in f.insts:
        if i.op == 'store' and f.leaf(i) == 'header_t.operation':
            out.append((i, roots(f, i.ops[1]), consts(f, i.ops[0])))
    return out

SENDERS = ('nb_send_header', 'server_send')
def header_sends(f, sender='nb_send_header'):
    """[(call, ops set or None)] for sends whose buffer carries a header written in this function; payload sends give ()"""
    st = op_stores(f)
    out = []
    for c in f.calls(sender):
        rs = roots(f, c.ops[0])
        ops, hit = set(), False
        for i, r, v in st:
            if r & rs and f.inst_reaches(i, c):
                hit = True
                if v is None: ops = None
                elif ops is not None: ops |= v
        out.append((c, ops if hit else ()))
    return out

def loop_of(f, blk):
    """innermost natural loop (header, body) containing blk"""
    best = None
    for h, body in f.loops().items():
        if blk in body and (best is None or len(body) < len(best[1])): best = (h, body)
    return best

def induction(f, h, body):
    """[(phi, init operand, step, bound pred, bound operand)] of counted loops with header h. The exit test may sit in the header
    or the latch."""
    out = []
    for i in f.blocks[h]:
        if i.op != 'phi': break
        preds = i.x['bs']
        init = [o for o, b in zip(i.ops, preds) if b not in body]
        upd = [o for o, b in zip(i.ops, preds) if b in body]
        if len(init) != 1 or not upd: continue
        u = f.V(upd[0])
        if u is None or any(x != upd[0] for x in upd): continue
        if u.op in ('add', 'sub') and u.ops[0] == i.id and isinstance(u.ops[1], str) and u.ops[1].startswith('c:'):
            st = int(u.ops[1][2:]) * (1 if u.op == 'add' else -1)
        else: continue
        for b in body:
            for k in f.succ[b]:
                if k in body: continue
                ct = cond_truth(f, b, k)
                c = f.V(ct[0]) if ct else None
                if c is None or c.op != 'icmp': continue
                x, y, pr = c.ops[0], c.ops[1], c.x['p']
                if f.strip(x) not in (i.id, u.id):
                    if f.strip(y) in (i.id, u.id): x, y, pr = y, x, SWAP[pr]
                    else: continue
                if ct[1]: pr = NEG[pr]
                out.append((i, init[0], st, pr, y, f.strip(x) == u.id, b))
    return out
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

def full_range(f, h, body):
    """loop header -> key of N if the loop visits exactly 0..N-1 (either direction), with its induction phi; else None"""
    for phi, init, st, pr, bound, onupd, b in induction(f, h, body):
        if st == 1 and init == 'c:0' and pr in ('slt', 'ult', 'ne') : return phi, f.key(bound)
        if st == 1 and init == 'c:0' and pr in ('sle', 'ule') and f.V(bound) is not None and f.V(bound).op in ('add', 'sub') and \
           f.V(bound).ops[1] in ('c:-1', 'c:1'): return phi, f.key(f.V(bound).ops[0])
        j = f.V(init)
        if st == -1 and j is not None and j.op in ('sub', 'add') and j.ops[1] in ('c:1', 'c:-1') and bound in ('c:0', 'c:-1') and pr in ('sge', 'sgt'):
            if (pr, bound) in (('sge', 'c:0'), ('sgt', 'c:-1')): return phi, f.key(j.ops[0])
    return None

def gload(f, o, name):
    """is o (through casts) a load from global array/scalar `name`? -> (True, index operand or None)"""
    i = f.V(f.strip(o))
    if i is None or i.op != 'load': return None
    return gaddr(f, i.ops[0], name)
def gaddr(f, o, name):
    r, p = f.addr(o)
    if r[0] == 'ld':
        r2, p2 = f.addr(f.insts[r[1]].ops[0])
        if r2 == ('g', name) and not p2:
            ix = [x[1] for x in p if isinstance(x, tuple)]
            return (ix[-1] if ix else None,)
        return None
    if r == ('g', name):
        ix = [x[1] for x in p if isinstance(x, tuple)]
        return (ix[-1] if ix else None,)
    return None
