"""Sync masks are one-shot, and implicit synchronisation surrounds every collective unless masked."""
from vlib.util import *
import os
from vlib import build as B
from vlib.paths import Explorer
B0, E0 = '_ga_sync_begin', '_ga_sync_end'
SYNC = {'pnga_sync', 'pnga_pgroup_sync'}
DATA = re.compile(r'^(ARMCI_(Get|Put|Acc|NbGet|NbPut|NbAcc|Rmw|Wait)\w*|PARMCI_\w+)$')
ACCESS = {'pnga_access_ptr', 'pnga_access_idx', 'pnga_access_block_ptr', 'pnga_access_block_idx', 'pnga_access_block_grid_ptr', 'pnga_access_block_grid_idx',
          'pnga_access_block_segment_ptr', 'pnga_access_block_segment_idx', 'pnga_access_ghost_ptr', 'pnga_access_ghosts', 'pnga_access_ghost_element_ptr',
          'pnga_access_ghost_element', 'gai_iterator_next', 'pnga_local_iterator_next'}

def is_glob(f, i, name):
    return i.op in ('load', 'store') and f.addr(i.ops[0] if i.op == 'load' else i.ops[1])[0] == ('g', name)

def analyse(p):
    capt = {}
    touch = set()
    for f in p.analysed():
        lb = [i for i in f.insts if i.op == 'load' and is_glob(f, i, B0)]
        le = [i for i in f.insts if i.op == 'load' and is_glob(f, i, E0)]
        if lb or le or any(i.op == 'store' and (is_glob(f, i, B0) or is_glob(f, i, E0)) for i in f.insts): touch.add(f)
        if lb or le: capt[f] = (lb, le)
    # functions that touch array data themselves or through calls that do not handle the masks on their own
    data = set()
    callers = defaultdict(set)
    for f in p.all():
        for i in f.calls():
            t = p.target(i)
            if t is not None: callers[t].add(f)
            if DATA.match(i.callee) or i.callee in ACCESS: data.add(f)
    st = list(data)
    while st:
        g = st.pop()
        if g in touch: continue
        for c in callers[g]:
            if c not in data: data.add(c); st.append(c)
    # functions that (transitively) consult or set the masks
    mask = set(touch); st = list(touch)
    while st:
        g = st.pop()
        for c in callers[g]:
            if c not in mask: mask.add(c); st.append(c)
    return capt, touch, data, mask

def run(ctx):
    ctx.rule('For every collective that reads the synchronisation masks (each path, path-sensitively in the captured flags): both flags are captured and switched '
             'back on before any nested operation that consults them and before return; with the opening flag set, a synchronisation precedes the first access '
             'to array data; with the closing flag set, a synchronisation follows the last access to array data before return.')
    p = ctx.prog(GA)
    capt, touch, data, mask = analyse(p)
    setters = {f.name for f in p.all() if any(i.op == 'store' and i.ops[0] == 'c:0' and is_glob(f, i, E0) for i in f.insts)}
    ctx.count('mask_setters', len(setters))
    for l in open(os.path.join(B.VERIF, 'conf/lists/collectives.txt')):
        n, w = l.split()
        f = p.get(n)
        if f is None: continue
        lb, le = capt.get(f, ((), ()))
        if ('b' in w and not lb or 'e' in w and not le) and (f in data or any(i.callee in SYNC for i in f.calls())):
            ctx.viol('%s:ignores' % n, '%s touches array data but no longer consults the %s mask' % (n, 'opening' if 'b' in w and not lb else 'closing'))
    for f, (lb, le) in sorted(capt.items(), key=lambda x: x[0].name):
        if f.name in setters: continue
        ctx.count('collectives')
        bid, eid = {i.id for i in lb}, {i.id for i in le}
        rets = {f.V(i.ops[0]).id for i in f.insts if i.op == 'ret' and i.ops and f.V(i.ops[0]) is not None and f.V(i.ops[0]).op == 'phi'}
        def events(i):
            if i.op != 'call' or not i.callee: return None
            if i.callee in SYNC: return 'sync'
            t = p.target(i)
            if t is not None and t.name in setters: return 'mask'
            if DATA.match(i.callee) or i.callee in ACCESS: return 'data'
            if t is None: return None
            r = ''
            if t in data and t not in touch: r += 'data'
            if t in mask: r += 'nested'
            return r or None
        ev = {i.id: events(i) for i in f.insts if i.op == 'call'}
        begun = bool(bid); ended = bool(eid)
        def flag(ids, q):
            # value of the captured flag on this path: False only if known off
            vals = [q.nz(x) for x in ids]
            return not any(v is False for v in vals)
        def step(i, s, q):
            # s: begin on?, end on? (1 on / 'cap' unknown caller value), opened, clean(after last data), started
            bg, en, opened, clean, masked = s
            if i.op == 'load': return s
            if i.op == 'store':
                if is_glob(f, i, B0): return (1 if i.ops[0] == 'c:1' else 'cap', en, opened, clean, masked)
                if is_glob(f, i, E0): return (bg, 1 if i.ops[0] == 'c:1' else 'cap', opened, clean, masked)
                return s
            if i.op == 'call':
                e = ev[i.id]
                if e is None: return s
                if e == 'sync': ctx.count('syncs'); return (bg, en, True, True, masked)
                if e == 'mask': return (bg, en, opened, clean, True)
                if 'nested' in e:
                    ctx.ok('%s nested %s' % (f.name, i.callee)); ctx.count('nested')
                    if (bg != 1 or en != 1) : ctx.viol('%s:leak:%s' % (f.name, i.callee), 'nested operation %s at %s still sees the caller\'s mask' % (i.callee, i.where()))
                    # the nested operation consumes an explicit mask
                    masked = False
                if 'data' in e:
                    ctx.ok('%s data access %s' % (f.name, i.callee)); ctx.count('data_accesses')
                    if begun and not opened and flag(bid, q): ctx.viol('%s:opening' % f.name, 'array data is accessed (%s at %s) before the opening synchronisation although it is not masked' % (i.callee, i.where()))
                    clean = False
                return (bg, en, opened, clean, masked)
            if i.op == 'ret':
                ctx.ok('%s return' % f.name); ctx.count('returns')
                if bg != 1: ctx.viol('%s:begin-kept' % f.name, 'returns with the opening mask of this call still in force (line %d)' % i.line)
                if en != 1: ctx.viol('%s:end-kept' % f.name, 'returns with the closing mask of this call still in force (line %d)' % i.line)
                if ended and not clean and flag(eid, q) and not (i.ops and q.const(i.ops[0]) == 0): ctx.viol('%s:closing' % f.name, 'returns at line %d without the closing synchronisation although it is not masked' % i.line)
            return s
        e = Explorer(f, step, track=lambda i: i.id in bid | eid, only=lambda i: i.id in rets or dep(f, i, bid | eid), limit=100000, keep=bid | eid | rets)
        e.run(('cap', 'cap', False, True, False))
    ctx.need('collectives', 60); ctx.need('syncs', 120); ctx.need('data_accesses', 100)

def dep(f, i, ids, depth=0):
    """value derived from the captured flags only"""
    if i.id in ids: return True
    if depth > 6 or i.op not in ('icmp', 'zext', 'sext', 'phi', 'and', 'or', 'xor', 'select', 'trunc'): return False
    return any(dep(f, f.V(o), ids, depth + 1) for o in i.ops if isinstance(o, int))
