"""Collective operations are reached by every process of the group, whatever its rank."""
from vlib.util import *
from vlib.taint import Taint
SEEDS = re.compile(r'^(pnga_sync|pnga_pgroup_sync|pnga_msg_(sync|pgroup_sync|brdcst)|pnga_brdcst|pnga_pgroup_brdcst|pnga_gop|pnga_pgroup_gop|pnga_\w*gop|ga_msg_\w+|armci_msg_(barrier|bcast|brdcst|sel\w*|reduce\w*|\w*gop\w*|\w*group_\w+|bintree|exchange\w*)|'
                   r'ARMCI_(Barrier|Malloc|Malloc_group|Malloc_memdev|Malloc_group_memdev|Free|Free_group|Free_memdev|Create_mutexes|Destroy_mutexes|Init|Finalize|Group_create\w*|Group_free)|'
                   r'PARMCI_(Barrier|Malloc\w*|Free|Free_group|Create_mutexes|Destroy_mutexes)|MPI_(Barrier|Bcast|Allreduce|Reduce|Allgather\w*|Alltoall\w*|Gather\w*|Scatter\w*|Comm_(create|split|dup|free)\w*|Win_(create|allocate|free)\w*))$')
NOTC = re.compile(r'^(armci_msg_group_(me|nproc|parent)|P?ARMCI_\w+_local)$')
CLEAN = re.compile(r'^(pnga_\w*gop|pnga_brdcst|pnga_pgroup_brdcst|pnga_msg_brdcst|armci_msg_(bcast|brdcst|sel|\w*gop\w*|reduce)\w*|MPI_(Bcast|Allreduce|Allgather\w*)|P?ARMCI_Malloc(_group|_memdev|_group_memdev)?|comex_malloc(_mem_dev)?)$')
SRC = {'pnga_nodeid', 'pnga_pgroup_nodeid', 'armci_msg_me', 'ARMCI_Group_rank', 'ARMCI_Me', 'PARMCI_Group_rank', 'armci_me'}
CELLS = {'GAme', 'armci_me', 'MPme'}
# shared state that differs between processes by design; everything else in the shared tables is replicated (collectively maintained)
PERPROC = re.compile(r'^(global_array_t\.(lo|old_lo|first|last|size|id|has_data|rstrctd_id|cache)|_iterator_hdl\.\w+|GA_total_memory|ga_stat_t\.\w+|ga_bytes_t\.\w+|_sparse_array\.(val|idx|jdx|ilo|ihi|nval|maxval|blkidx|blksize|offset|nblocks))$')

EXEMPT = {
 'pnga_merge_mirrored:pnga_pgroup_gop': 'the group joins the processes with the same position on every node; they hold the same block of a mirrored array, so the condition is equal for all of them',
 'pnga_update3_ghosts:pnga_pgroup_sync': 'creation of an array with ghost cells aborts unless every process holds data, so the no-data exit is taken by none',
 'pnga_zero:pnga_zero_patch': 'taken only for arrays with ghost cells, whose creation aborts unless every process holds data',
}
NULLPTR = 'every allocation is padded by one element (GA_ELEM_PADDING), so a pointer is NULL only after the collective allocation failed everywhere'
def nullptr(f, br):
    i = f.V(br.ops[0])
    return i is not None and i.op == 'icmp' and 'n' in i.ops and any(f.V(o) is not None and f.V(o).op == 'load' and
        f.addr(f.V(o).ops[0])[0][0] == 'ld' and f.leaf_addr(f.insts[f.addr(f.V(o).ops[0])[0][1]].ops[0]) == 'global_array_t.ptr' for o in i.ops)
def seed(n): return n and SEEDS.match(n) and not NOTC.match(n)

def collectives(p):
    callers = defaultdict(set); hit = {}
    for f in p.all():
        for i in f.calls():
            t = p.target(i)
            if t is not None: callers[t].add(f)
            if seed(i.callee): hit[f] = i.callee
    st = list(hit)
    while st:
        g = st.pop()
        for c in callers[g]:
            if c not in hit: hit[c] = g.name; st.append(c)
    return hit

def run(ctx):
    ctx.rule('Interprocedural rank-dependence (data and control) of every branch condition; where a branch depends on the rank of the executing process, '
             'every way from it to the common continuation must make the same sequence of collective calls (functions that transitively reach a barrier, '
             'broadcast, reduction or collective allocation).')
    ctx.assume('shared tables of the library other than the listed per-process fields are replicated; all nodes run the same number of processes')
    p = ctx.prog(GA + ['dra/disk.arrays', 'dra/patch.util', 'dra/capi', 'sf/shared.files', 'sf/sf_capi', 'armci/armci', 'armci/groups', 'armci/message', 'armci/capi'])
    hit = collectives(p)
    ctx.count('collective_functions', len(hit))
    T = Taint(p, SRC, CELLS, lambda n: bool(CLEAN.match(n)), cellok=lambda c: bool(PERPROC.match(c)))
    padded = True
    for n in ('gai_get_shmem', 'gai_get_devmem'):
        f = p.need(n)
        for i in f.calls():
            if i.callee.startswith('ARMCI_Malloc'):
                ctx.count('padded_allocations')
                j = f.V(f.strip(i.ops[1]))
                if j is None or j.op != 'add': padded = False
    for f in p.analysed():
        V = T.val[f]
        col = {}
        for i in f.calls():
            t = p.target(i)
            if seed(i.callee) or t in hit: col.setdefault(i.blk, []).append(i); ctx.ok('%s %s' % (f.name, i.callee)); ctx.count('collective_calls')
        if not col: continue
        ctx.count('functions')
        done = set()
        for b in sorted(col):
            for (a, s) in f.all_cdeps(b):
                if a in done: continue
                br = f.blocks[a][-1]
                if not br.ops or not isinstance(br.ops[0], int) or 'R' not in V.get(br.ops[0], ()): continue
                done.add(a); ctx.count('rank_branches')
                seqs = [sequences(f, k, f.pdom[a], a, col) for k in f.succ[a] if f.can_return()[k]]
                if any(x != seqs[0] for x in seqs):
                    i = col[b][0]
                    key = '%s:%s' % (f.name, i.callee)
                    if f.name in ('pnga_destroy', 'pnga_deallocate') and padded and nullptr(f, br): ctx.exceptions.append(key + ' at ' + br.where() + ': ' + NULLPTR); continue
                    if key in EXEMPT: ctx.exceptions.append(key + ' at ' + br.where() + ': ' + EXEMPT[key]); continue
                    ctx.viol(key, 'collective %s at %s is reached by some processes only: the branch at %s depends on the rank' % (i.callee, i.where(), br.where()))

def sequences(f, k, pd, a, col):
    """set of collective call sequences from block k to the common continuation of branch block a"""
    ip = pd & ~(1 << a)
    can = f.can_return()
    memo, scc = {}, {}
    def comp(b):
        if b not in scc:
            c = frozenset({b} | {x for x in f.reach(b) if b in f.reach(x) and not (ip >> x) & 1}) if b in f.reach(b) else frozenset([b])
            for x in c: scc[x] = c
        return scc[b]
    def go(b):
        if (ip >> b) & 1: return frozenset([()])
        c = comp(b)
        if c in memo: return memo[c]
        names = sorted({i.callee for x in c for i in col.get(x, ())})
        here = tuple(i.callee for i in col.get(b, ())) if len(c) == 1 else (('loop',) + tuple(names),) if names else ()
        memo[c] = frozenset([here])
        out, ex = set(), False
        for x in c:
            for n in f.succ[x]:
                if can[n] and n not in c:
                    ex = True
                    for q in go(n): out.add(here + q)
        if not ex: out.add(here)
        if len(out) > 64: out = {('many', b)}
        memo[c] = frozenset(out)
        return memo[c]
    return go(k)
