"""Shared analyses: call-graph closures, effects."""
from .ir import *
from . import build as B

GA = ['ga/' + s for s in B.GA_SRC]

def closure_callers(prog, seeds):
    """names of functions (Fn objects) that may transitively call any function named in seeds (direct calls)"""
    seeds = set(seeds)
    callers = defaultdict(set)
    hit = set()
    for f in prog.all():
        for i in f.calls():
            g = prog.target(i)
            if g is not None: callers[g].add(f)
            if i.callee in seeds: hit.add(f)
    st = list(hit)
    while st:
        f = st.pop()
        for c in callers[f]:
            if c not in hit: hit.add(c); st.append(c)
    return hit

def chain_to(prog, f, seeds, limit=12):
    """a call chain f -> ... -> seed, as text"""
    q = deque([(f, [f.name])]); seen = {f}
    while q:
        g, p = q.popleft()
        for i in g.calls():
            if i.callee in seeds: return ' -> '.join(p + [i.callee])
            t = prog.target(i)
            if t is not None and t not in seen and len(p) < limit:
                seen.add(t); q.append((t, p + [t.name]))
    return f.name
