"""Destroying a handle gives back everything it holds, once, and uses nothing of it afterwards."""
from vlib.util import *
from vlib.paths import Explorer
from vlib import build as B
import checks.R01 as R01

NEG = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}
SWP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}

def releases():
    r = {}
    for n, (k, h) in R01.REL.items():
        if isinstance(h, int): r[n] = h
        elif isinstance(h, tuple) and len(h) == 2 and isinstance(h[1], int): r[n] = h[1]
    r.update({'free': 0, 'pnga_destroy': 0, 'pnga_pgroup_destroy': 0, 'ARMCI_Free': 0, 'ARMCI_Free_group': 0, 'ARMCI_Free_memdev': 0, 'PARMCI_Free': 0,
              'MA_free_heap': 0, 'ARMCI_Group_free': 0, 'comex_group_free': 0, 'MPI_Comm_free': 0, 'MPI_Group_free': 0, 'elio_close': 0, 'close': 0, 'MA_free': 0})
    return r
REL = releases()

class Ent:
    def __init__(self, fn, struct, own, active=(), excuse=None, keep=False, arg=0, ok=None):
        self.fn, self.struct, self.own, self.active, self.excuse, self.keep, self.arg, self.ok = fn, struct, own, active, excuse or {}, keep, arg, ok

GA_EX = {'ptr': {('z', 'actv'), ('nz', 'overlay'), ('z', 'ptr'), ('inv', 'id')},
         'rstrctd_list': {('z', 'num_rstrctd')}, 'rank_rstrctd': {('z', 'num_rstrctd')},
         'cache_head': {('ne', 'property', 'READ_CACHE')}, 'old_mapc': {('ne', 'property', 'READ_ONLY')}, 'p_handle': {('ne', 'property', 'READ_ONLY')}}
SP1, SP2 = {('z', 'ready')}, {('nz', 'ready'), ('z', 'active')}
ENTS = [
    Ent('pnga_destroy', 'global_array_t', ['mapc', 'cache', 'cache_head', 'rstrctd_list', 'rank_rstrctd', 'old_mapc', 'p_handle', 'ptr'], ('actv', 'actv_handle'), GA_EX),
    Ent('pnga_deallocate', 'global_array_t', ['cache', 'cache_head', 'ptr'], ('actv',), GA_EX, keep=True),
    Ent('pnga_pgroup_destroy', 'proc_list_t', ['map_proc_list', 'group'], ('actv',)),
    Ent('pnga_sprs_array_destroy', '_sparse_array', ['g_data', 'g_i', 'g_j', 'g_blk', 'blkidx', 'blksize', 'offset', 'val', 'idx', 'jdx'], ('ready', 'active'),
        dict([(k, SP1) for k in ('g_data', 'g_i', 'g_j', 'g_blk', 'blkidx', 'blksize', 'offset')] + [(k, SP2) for k in ('val', 'idx', 'jdx')])),
    Ent('gai_iterator_destroy', '_iterator_hdl', ['map', 'proclist', 'proclistperm']),
]

class Walk:
    def __init__(self, f, ent, consts):
        self.f, self.e, self.consts = f, ent, consts
        self.S = ent.struct + '.'
    def field(self, o, d=0, seen=None):
        """fields of the entity that value o comes from"""
        f = self.f; seen = set() if seen is None else seen
        i = f.V(o)
        if i is None or i.id in seen or d > 20: return set()
        seen.add(i.id)
        if i.op == 'load':
            l = str(f.leaf_addr(i.ops[0]) or '')
            if l.startswith(self.S): return {l[len(self.S):]}
            r, pa = f.addr(i.ops[0])
            if r[0] == 'ld' and str(f.leaf_addr(f.insts[r[1]].ops[0])) == self.S + 'ptr': return {'ptr'}
            return set()
        if i.op in ('bitcast', 'getelementptr', 'ptrtoint', 'inttoptr', 'trunc', 'sext', 'zext', 'freeze', 'add', 'sub'): return self.field(i.ops[0], d + 1, seen)
        if i.op in ('phi', 'select'): return set().union(*[self.field(x, d + 1, seen) for x in (i.ops if i.op == 'phi' else i.ops[1:])])
        return set()
    def place(self, o):
        l = str(self.f.leaf_addr(o) or '')
        return l[len(self.S):] if l.startswith(self.S) else None
    def atoms(self, c, truth, out, d=0):
        f = self.f; i = f.V(c)
        if i is None or d > 12: return
        if i.op == 'icmp':
            pr = i.x['p'].lstrip('su'); a, b = i.ops
            if isinstance(a, str) and a[:1] in 'cn' and not (isinstance(b, str) and b[:1] in 'cn'): a, b, pr = b, a, SWP[pr]
            if not truth: pr = NEG[pr]
            j = f.V(a)
            if b == 'c:0' and pr in ('eq', 'ne') and j is not None and j.op in ('zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'xor', 'phi', 'select'): self.atoms(a, pr == 'ne', out, d + 1)
            fl = self.field(a)
            if len(fl) == 1:
                k = next(iter(fl))
                if b in ('c:0', 'n'):
                    if pr in ('eq', 'le'): out.add(('z', k))
                    elif pr in ('ne', 'gt'): out.add(('nz', k))
                if isinstance(b, str) and b.startswith('c:'):
                    for n in self.consts:
                        if b == 'c:%d' % self.consts[n] and pr in ('eq', 'ne'): out.add((pr, k, n))
                    if pr == 'eq' and k == 'id': out.add(('inv', 'id'))
        elif i.op in ('zext', 'sext', 'freeze', 'trunc'): self.atoms(i.ops[0], truth, out, d + 1)
        elif i.op == 'xor' and i.ops[1] in ('c:-1', 'c:1'): self.atoms(i.ops[0], not truth, out, d + 1)
        elif i.op == 'or' and not truth or i.op == 'and' and truth:
            for o in i.ops: self.atoms(o, truth, out, d + 1)
        elif i.op == 'select' and (truth and i.ops[2] == 'c:0' or not truth and i.ops[1] in ('c:-1', 'c:1')):
            self.atoms(i.ops[0], truth, out, d + 1); self.atoms(i.ops[1] if truth else i.ops[2], truth, out, d + 1)
        elif i.ty == 'i1' or i.op == 'load':
            fl = self.field(i.id)
            if len(fl) == 1: out.add(('nz' if truth else 'z', next(iter(fl))))
    def released(self, i):
        """fields given back by call i"""
        k = REL.get(i.callee)
        if k is None or k >= len(i.ops): return set()
        fl = self.field(i.ops[k])
        if not fl:
            x = self.place(i.ops[k])
            if x: fl = {x}
        return fl
    def run(self):
        f, e = self.f, self.e
        self.bad = {}; self.paths = 0; self.sites = set()
        def step(i, s, q):
            rel, know = s
            if i.op in ('call', 'invoke') and i.callee:
                fl = self.released(i)
                for x in fl:
                    if x not in e.own: continue
                    self.sites.add((i.id, x))
                    if x in rel: self.note(i, x, 'gives back %s a second time' % x)
                    if e.active and not any(('nz', a) in know for a in e.active): self.note(i, x, 'gives back %s without knowing that the handle is in use' % x)
                    rel = rel | {x}
                if not fl:
                    for o in i.ops:
                        for x in self.field(o):
                            if x in rel and i.callee not in ('printf', 'fprintf'): self.note(i, x, 'uses %s after it was given back (%s)' % (x, i.callee))
                if 'p_handle' in s[0]:
                    for o in i.ops:
                        if isinstance(o, int):
                            r, pa = f.addr(o)
                            if self.grouped(pa) or r[0] == 'ld' and self.grouped(f.addr(f.insts[r[1]].ops[0])[1]): self.note(i, 'p_handle', 'uses the group after it was destroyed (%s)' % i.callee)
            elif i.op == 'store':
                x = self.place(i.ops[1])
                if x in e.own and x in rel: rel = rel - {x}; know = know | {('gone', x)} if i.ops[0] in ('n', 'c:0') else know - {('gone', x)}
                elif x in e.own and x != 'p_handle': know = know - {('gone', x)}
                if x in e.active and i.ops[0] == 'c:0': know = know | {('dead', x)}
            elif i.op == 'load':
                r, pa = f.addr(i.ops[0])
                if r[0] == 'ld':
                    for x in self.field(i.ops[0]):
                        if x in rel: self.note(i, x, 'reads through %s after it was given back' % x)
                if 'p_handle' in rel and self.grouped(pa): self.note(i, 'p_handle', 'reads the table entry of the group after it was destroyed')
            elif i.op == 'ret':
                if i.ops and (i.ops[0] == 'c:0' and e.ok is None or q.const(i.ops[0]) == 0 and e.ok is None and f.x_ret): return s
                self.paths += 1
                for x in e.own:
                    if x in rel:
                        if e.active and not (any(('dead', a) in know for a in e.active) and not (e.keep and x != 'ptr')): self.note(i, x, 'leaves %s in the table after giving it back' % x)
                        continue
                    if ('gone', x) in know or ('z', x) in know: continue
                    if any(z in know or z[0] == 'ne' and ('eq', z[1], self.other(z)) in know for z in e.excuse.get(x, ())): continue
                    if x == 'p_handle' and e.keep: continue
                    self.note(i, x, 'can leave without giving back %s' % x)
            return rel, know
        def edge(b, k, s, q):
            t = f.blocks[b][-1]
            if t.op == 'br' and len(t.x['t']) == 2 and t.x['t'][0] != t.x['t'][1]:
                out = set()
                self.atoms(t.ops[0], k == t.x['t'][0], out)
                for a in out:
                    n = {'z': 'nz', 'nz': 'z'}.get(a[0])
                    if n and (n, a[1]) in s[1] and a[1] not in e.own and a[1] not in e.active and a[1] not in self.written: return None
                    if a[0] == 'eq' and any(z[0] == 'eq' and z[1] == a[1] and z[2] != a[2] or z == ('ne',) + a[1:] for z in s[1]): return None
                    if a[0] == 'ne' and ('eq',) + a[1:] in s[1]: return None
                keep = frozenset(a for a in out if a[0] in ('z', 'nz', 'inv') or a[0] in ('eq', 'ne') and a[1] == 'property')
                return s[0], s[1] | keep
            return s
        self.written = {self.place(i.ops[1]) for i in f.insts if i.op == 'store'}
        f.x_ret = True
        ex = Explorer(f, step, edge=edge, limit=200000, soft=True, merge=True)
        ex.run((frozenset(), frozenset()))
        return self.bad
    def other(self, z): return 'READ_CACHE' if z[2] == 'READ_ONLY' else 'READ_ONLY'
    def grouped(self, pa):
        f = self.f
        return any(isinstance(q, tuple) and 'p_handle' in self.field(q[1]) for q in pa)
    def note(self, i, x, what): self.bad.setdefault((x, what), i)

def enum():
    import os
    s = re.sub(r'/\*.*?\*/', '', open(os.path.join(B.REPO, 'global/src/base.h')).read(), flags=re.S)
    m = re.search(r'enum\s+property_type\s*\{([^}]*)\}', s)
    if not m: raise Broken('enum property_type not found')
    n, out = 0, {}
    for e in m[1].split(','):
        e = e.strip()
        if not e: continue
        if '=' in e: e, v = [x.strip() for x in e.split('=')]; n = int(v, 0)
        out[e] = n; n += 1
    return out

def run(ctx):
    ctx.rule('Path-sensitive typestate of every resource-holding field of a handle in the function that destroys it: given back, known to be empty, or not '
             'applicable by the mode the handle is in, on every successful way out; once; only for a handle in use; not used afterwards.')
    p = ctx.prog([u for u in B.tus() if u.startswith('ga/')])
    consts = {k: v for k, v in enum().items() if k in ('READ_ONLY', 'READ_CACHE')}
    for e in ENTS:
        f = p.need(e.fn)
        w = Walk(f, e, consts)
        for (x, what), i in sorted(w.run().items(), key=lambda z: z[1].id):
            ctx.viol('%s:%s:%s' % (e.fn, x, re.sub(r'\W+', '-', what)[:40]), '%s: %s %s' % (i.where(), e.fn, what))
        ctx.count('fields', len(e.own)); ctx.count('ways_out', w.paths); ctx.count('release_sites', len(w.sites))
        for x in e.own:
            if not any(k[0] == x for k in w.bad): ctx.ok('%s: %s' % (e.fn, x))
    ctx.need('fields', 26); ctx.need('ways_out', 100); ctx.need('release_sites', 25)
