"""Global reductions, selections and broadcasts apply the requested operation, type, length and group."""
from vlib.util import *
from vlib.sccp import *
OPS = {'+': 'sum', '*': 'prod', 'max': 'max', 'min': 'min', 'absmax': 'max', 'absmin': 'min', 'or': 'bor', '&&': 'land', 'land': 'land',
       '||': 'lor', 'lor': 'lor', '&': 'band', 'band': 'band', '|': 'bor', 'bor': 'bor'}
TYPES = {-99: ('int', 'i32'), -101: ('long', 'i64'), -102: ('long_long_int', 'i64'), -306: ('float', 'float'), -307: ('double', 'double')}
PAIR = {-99: '2int', -101: 'long_int', -102: None, -306: 'float_int', -307: 'double_int'}
ELEM = {'int*': -99, 'long*': -101, 'long long*': -102, 'float*': -306, 'double*': -307}
SELF, NODE, ALL, MASTERS = -2, 337, 333, 339

def gtext(m, o):
    """constant string operand -> text"""
    if isinstance(o, str) and o.startswith('g:'):
        g = m.globals.get(o[2:])
        if g and isinstance(g.get('init'), str) and g['init'].startswith('s:'): return g['init'][2:]
    return None

def text_oracle(f, arg, text):
    """callc/loadc giving the results of comparing string argument `arg` when it holds `text`"""
    def is_arg(o):
        for _ in range(6):
            if o == arg: return True
            i = f.V(o)
            if i is None or i.op not in ('freeze', 'bitcast'): return False
            o = i.ops[0]
        return False
    def callc(i):
        c = i.callee
        if c in ('strncmp', 'strcmp', 'memcmp', 'strncasecmp', 'strcasecmp'):
            a, b = i.ops[0], i.ops[1]
            if is_arg(a): s, t, sg = text, gtext(f.mod, b), 1
            elif is_arg(b): s, t, sg = text, gtext(f.mod, a), -1
            else: return None
            if t is None: return None
            if c in ('strncmp', 'memcmp', 'strncasecmp'):
                n = i.ops[2]
                if not (isinstance(n, str) and n.startswith('c:')): return None
                n = int(n[2:]); s, t = s[:n], t[:n]
            return 0 if s == t else sg * (1 if s > t else -1)
        if c == 'strlen' and is_arg(i.ops[0]): return len(text)
        if c == 'comex_initialized': return 1
        return None
    def loadc(i):
        if i.ty != 'i8': return None
        root, path = f.addr(i.ops[0])
        if root != ('a', int(arg[1:])): return None
        off = [p[1] for p in path] if all(isinstance(p, tuple) for p in path) else None
        k = 0
        if path:
            gi = f.V(i.ops[0])
            if gi is None or gi.op != 'getelementptr' or len(gi.x.get('gp', ())) != 1: return None
            o = gi.x['gp'][0][1]
            if not (isinstance(o, str) and o.startswith('c:')): return None
            k = int(o[2:])
        s = text + '\0'
        return ord(s[k]) if 0 <= k < len(s) else None
    return callc, loadc

class Spec:
    """one function specialised for a reduction operation name / type code / scope"""
    def __init__(self, f, text=None, args=None, selfimpossible=True):
        self.f = f
        sarg = next(('a%d' % k for k, t in enumerate(f.dty[1:]) if t in ('char*', 'const char*')), None)
        callc = loadc = None
        if text is not None and sarg: callc, loadc = text_oracle(f, sarg, text)
        stored = any(i.op == 'store' and i.ops[1] == 'g:ARMCI_GROUP_SELF' for g in f.mod.fns.values() for i in g.insts)
        def ld(i):
            if i.ops[0] == 'g:ARMCI_GROUP_SELF' and not stored: return SELF
            if loadc: return loadc(i)
        def cmpc(i):
            # no group handle passed by a caller is the private alias of MPI_COMM_SELF
            a, b = self.sc.get(i.ops[0]), self.sc.get(i.ops[1])
            if i.x['p'] in ('eq', 'ne') and (a == SELF and b is BOT or b == SELF and a is BOT): return i.x['p'] == 'ne'
            return None
        self.sc = SCCP.__new__(SCCP)
        self.sc.__init__(f, {int(k[1:]): v for k, v in (args or {}).items()}, ld, callc, cmpc)
    def live(self): return self.sc.live()
    def calls(self, *n): return list(self.sc.live_calls(*n))
    def leaves(self, o, seen=None, at=None):
        """values an operand may take along live paths: operands that are not phis/selects; loads of locals give ('by', call, argpos)
        for the calls that filled them"""
        f, sc = self.f, self.sc
        seen = set() if seen is None else seen
        c = sc.get(o)
        if isinstance(c, int) and c is not BOT and not isinstance(o, str): return {('c', c)}
        i = f.V(o)
        if i is None:
            if isinstance(o, str) and o.startswith('c:') and o != 'c:big': return {('c', int(o[2:]))}
            return {('o', o)}
        if (i.id) in seen: return set()
        seen = seen | {i.id}
        if i.op == 'phi':
            r = set()
            for x, b in zip(i.ops, i.x['bs']):
                if (b, i.blk) in sc.edges and x != 'u': r |= self.leaves(x, seen)
            return r
        if i.op == 'select':
            c = sc.get(i.ops[0])
            if c in (0, 1, -1) and c is not BOT: return self.leaves(i.ops[1 if c else 2], seen)
            return self.leaves(i.ops[1], seen) | self.leaves(i.ops[2], seen)
        if i.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'): return self.leaves(i.ops[0], seen)
        if i.op == 'load':
            root, path = f.addr(i.ops[0])
            if root[0] == 'al':
                r = set()
                for w, k in self.writers(root[1], path, i):
                    if w is None: r.add(('undef', root[1]))
                    elif w.op == 'store': r |= self.leaves(w.ops[0], seen)
                    else: r.add(('by', w.id, k))
                return r
            if root[0] == 'g': return {('g', root[1], path)}
            if root[0] == 'a': return {('*', 'a%d' % root[1], path)}
        return {('v', i.id)}
    def writers(self, al, path, at):
        """last writers [(inst, operand position)] of a local on the live paths reaching instruction `at`; None if none"""
        f, sc = self.f, self.sc
        out, seen, st = set(), set(), [(at.blk, at.pos)]
        while st:
            b, pos = st.pop()
            hit = None
            for i in reversed(f.blocks[b][:pos]):
                if i.op == 'store':
                    root, p = f.addr(i.ops[1])
                    if root == ('al', al) and (p == path or p[:len(path)] == path or path[:len(p)] == p): hit = (i.id, 0)
                elif i.op in ('call', 'invoke') and i.callee and not i.callee.startswith('llvm.lifetime') and not i.callee.startswith('llvm.dbg'):
                    for k, o in enumerate(i.ops):
                        if isinstance(o, (int,)) and f.V(o) is not None and f.V(o).ty == 'ptr':
                            root, p = f.addr(o)
                            if root == ('al', al) and not readonly(i.callee, k): hit = (i.id, k)
                if hit: break
            if hit: out.add(hit); continue
            ps = [p for p in f.pred[b] if (p, b) in sc.edges]
            if b == 0: out.add((None, 0))
            for p in ps:
                if p not in seen: seen.add(p); st.append((p, len(f.blocks[p])))
        return [(f.insts[a] if a is not None else None, k) for a, k in out]
    def dominated(self, targets, at):
        """is some live instruction of `targets` on every live path from the entry to `at`?"""
        f, sc = self.f, self.sc
        tb = defaultdict(list)
        for t in targets: tb[t.blk].append(t.pos)
        if any(p < at.pos for p in tb.get(at.blk, ())): return True
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            if b == at.blk: return False
            if tb.get(b): continue
            for k in f.succ[b]:
                if (b, k) in sc.edges and k not in seen: seen.add(k); st.append(k)
        return True
    def postdominated(self, targets, at):
        """does every live path from `at` to a return pass one of targets?"""
        f, sc = self.f, self.sc
        can = f.can_return()
        tb = defaultdict(list)
        for t in targets: tb[t.blk].append(t.pos)
        if any(p > at.pos for p in tb.get(at.blk, ())): return True
        if f.blocks[at.blk][-1].op == 'ret': return False
        seen, st = set(), [at.blk]
        while st:
            b = st.pop()
            for k in f.succ[b]:
                if (b, k) not in sc.edges or k in seen or not can[k]: continue
                if tb.get(k): continue
                if f.blocks[k][-1].op == 'ret': return False
                seen.add(k); st.append(k)
        return True

READ = {'MPI_Allreduce': {0}, 'comex_group_comm': set(), 'MPI_Group_translate_ranks': {2}, 'comex_barrier': set(), 'MPI_Isend': {0}}
def readonly(callee, k):
    return k in READ.get(callee, ())

def groups(s, comm):
    """communicator operand -> set of group descriptions"""
    out = set()
    for l in s.leaves(comm):
        if l == ('o', 'g:ompi_mpi_comm_self'): out.add('self')
        elif l[0] == 'by' and s.f.insts[l[1]].callee == 'comex_group_comm': out |= grp(s, s.f.insts[l[1]].ops[0])
        else: out.add('?' + repr(l))
    return out
def grp(s, o):
    out = set()
    for l in s.leaves(o):
        if l[0] == 'by' and s.f.insts[l[1]].callee in ('ARMCI_Group_get_default', 'PARMCI_Group_get_default'): out.add('default')
        elif l == ('g', 'ARMCI_Default_Proc_Group', ()): out.add('default')
        elif l == ('g', 'ARMCI_Node_group', ()): out.add('node')
        elif l == ('c', 0): out.add('world')
        elif l == ('c', SELF): out.add('self')
        elif l[0] == '*' and l[2] == (): out.add('given:' + l[1])
        else: out.add('?' + repr(l))
    return out
def dtype(s, o): 
    r = set()
    for l in s.leaves(o):
        r.add(l[1][len('g:ompi_mpi_'):] if l[0] == 'o' and str(l[1]).startswith('g:ompi_mpi_') else repr(l))
    return r
def same_value(s, o, arg): return s.leaves(o) == {('o', arg)}
def field_mul(s, o):
    """product operand -> list of factor leaves"""
    i = s.f.V(o)
    while i is not None and i.op in ('sext', 'zext', 'trunc', 'freeze'): i = s.f.V(i.ops[0])
    if i is None or i.op != 'mul': return None
    return [s.leaves(x) for x in i.ops]

def loops_over(s, n):
    """blocks of loops bounded by a comparison with argument n"""
    f = s.f; out = set()
    for h, body in f.loops().items():
        for b in body:
            t = f.blocks[b][-1]
            if t.op == 'br' and t.ops and any(k not in body for k in t.x['t']):
                c = f.V(t.ops[0])
                if c is not None and c.op == 'icmp' and any(l == ('o', n) for o in c.ops for l in s.leaves(o)): out |= body
    return out

REDUCERS = ['armci_msg_%s%sgop' % (g, t) for g in ('', 'group_') for t in ('i', 'l', 'll', 'f', 'd')] + \
    ['armci_msg_reduce', 'armci_msg_reduce_scope', 'armci_msg_gop_scope', 'armci_msg_group_gop_scope']
def reductions(ctx, m):
    cnt = 0
    for nm in REDUCERS:
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        if not any(True for _ in f.calls('MPI_Allreduce')): ctx.viol(nm + ':none', '%s performs no reduction' % f.where()); continue
        for text, code in (('nosuchoperation', None), ('+', -5)):
            a = {}
            if code is not None:
                tv = next(('a%d' % k for k, t in enumerate(f.args) if t[0] == 'type'), None)
                if tv is None: continue
                a[tv] = code
            s = Spec(f, text, a)
            ctx.ok('%s: an unknown operation or type is fatal' % nm)
            if any(i.op == 'ret' or i.op == 'call' and i.callee == 'MPI_Allreduce' for i in s.live()):
                ctx.viol('%s:unknown:%s' % (nm, 'op' if code is None else 'type'), '%s: an unknown %s is not fatal' % (f.where(), 'operation' if code is None else 'type'))
    for f in m.fns.values():
        if not f.kept or f.internal: continue
        if not any(True for _ in f.calls('MPI_Allreduce')): continue
        names = [a[0] for a in f.args]
        tys = f.dty[1:]
        if 'contribute' in names or not tys or 'char*' not in tys: continue
        x = next(('a%d' % k for k, t in enumerate(tys) if t in ELEM or t == 'void*'), None)
        n = next(('a%d' % k for k, t in enumerate(tys) if t == 'int' and x and k == int(x[1:]) + 1), None)
        if x is None or n is None: ctx.viol('%s:shape' % f.name, '%s reduces, but has no (buffer, count, op) arguments' % f.where()); continue
        T = tys[int(x[1:])]
        targ = next(('a%d' % k for k, t in enumerate(tys) if t == 'int' and k > int(n[1:])), None)
        scope = 'a0' if tys[0] == 'int' and x != 'a0' else None
        garg = next(('a%d' % k for k, t in enumerate(tys) if 'Group' in t), None)
        for sc in ([ALL, NODE] if scope else [None]):
            for code in ([ELEM[T]] if T in ELEM else sorted(TYPES)):
                for op, mo in OPS.items():
                    if T in ('float*', 'double*') or code in (-306, -307):
                        if mo not in ('sum', 'prod', 'max', 'min'): continue
                    a = {}
                    if scope: a[scope] = sc
                    if targ and T not in ELEM: a[targ] = code
                    s = Spec(f, op, a)
                    tag = '%s:%s:%s%s' % (f.name, op, TYPES[code][0], '' if sc is None else ':%d' % sc)
                    ar = s.calls('MPI_Allreduce')
                    cnt += 1
                    ctx.ok('%s: one MPI_Allreduce of the right operation, type, length and group' % tag)
                    if not ar: ctx.viol(tag + ':none', '%s: operation "%s" performs no reduction' % (f.where(), op)); continue
                    if any(f.inst_reaches(q, r) and q is not r or r.blk in f.reach(r.blk) for q in ar for r in ar): ctx.viol(tag + ':many', '%s: operation "%s" is reduced more than once' % (f.where(), op)); continue
                    for i in s.live():
                        if i.op == 'ret' and not s.dominated(ar, i): ctx.viol(tag + ':none', '%s: operation "%s" is not reduced on every path' % (f.where(), op))
                    for r in ar: one(ctx, s, r, f, x, n, names, tys, code, op, mo, tag, garg, sc)
    ctx.count('reductions specialised', cnt)

def one(ctx, s, r, f, x, n, names, tys, code, op, mo, tag, garg, sc):
    inplace = r.ops[0] in ('c:1', 'i:1')
    buf = r.ops[1] if inplace else r.ops[0]
    if not same_value(s, buf, x): ctx.viol(tag + ':buf', '%s reduces something other than the caller\'s buffer' % r.where())
    if not same_value(s, r.ops[2], n): ctx.viol(tag + ':count', '%s does not reduce the %s elements asked for' % (r.where(), names[int(n[1:])]))
    d = dtype(s, r.ops[3])
    if d != {TYPES[code][0]}: ctx.viol(tag + ':type', '%s reduces %s data as %s' % (r.where(), TYPES[code][0], sorted(d)))
    o = dtype(s, r.ops[4])
    if o != {'op_' + mo}: ctx.viol(tag + ':op', '%s: operation "%s" is mapped to %s, expected MPI %s' % (r.where(), op, sorted(o), mo))
    want = {'default'} if garg is None else {'given:' + garg}
    if sc == NODE: want = {'node', 'self'} if garg is None else {'self'}
    g = groups(s, r.ops[5])
    if not g or not g <= want: ctx.viol(tag + ':group', '%s reduces over %s, expected %s' % (r.where(), sorted(g), sorted(want)))
    if not inplace and not same_value(s, r.ops[1], x):
        cp = []
        for i in s.live():
            if i.op == 'call' and i.callee and (i.callee.startswith(('llvm.memcpy', 'llvm.memmove')) or i.callee in ('memcpy', 'memmove')):
                fm = field_mul(s, i.ops[2])
                size = fm and {('o', n)} in fm and any(all(l[0] == 'by' and f.insts[l[1]].callee == 'MPI_Type_size' and dtype(s, f.insts[l[1]].ops[0]) == d or l == ('c', {'i32': 4, 'float': 4}.get(TYPES[code][1], 8)) for l in q) and q for q in fm)
                if not size:
                    sh = f.V(i.ops[2])
                    while sh is not None and sh.op in ('sext', 'zext', 'trunc'): sh = f.V(sh.ops[0])
                    size = sh is not None and sh.op == 'shl' and s.leaves(sh.ops[0]) == {('o', n)} and s.sc.get(sh.ops[1]) == {'i32': 2, 'float': 2}.get(TYPES[code][1], 3)
                if same_value(s, i.ops[0], x) and s.leaves(i.ops[1]) == s.leaves(r.ops[1]) and size: cp.append(i)
        if not s.postdominated(cp, r):
            ctx.viol(tag + ':result', '%s: the reduced values are not copied back to the caller\'s buffer (all %s elements) on every path' % (r.where(), names[int(n[1:])]))
    # ---- absolute values first, and only then
    st = [i for i in s.live() if i.op == 'store' and f.addr(i.ops[1])[0] == ('a', int(x[1:]))]
    pre = [i for i in st if f.inst_reaches(i, r)]
    if op in ('absmax', 'absmin'):
        lo = loops_over(s, n)
        good = [i for i in pre if i.blk in lo and absval(s, i, TYPES[code][1])]
        if not good: ctx.viol(tag + ':abs', '%s: "%s" reduces values whose absolute value was not taken (over all elements)' % (r.where(), op))
        bad = [i for i in pre if i not in good]
    else: bad = pre
    for i in bad: ctx.viol(tag + ':changed', '%s: the caller\'s values are modified before "%s" is applied' % (i.where(), op))
    if g != {'self'}: barrier(ctx, s, r, g, tag)

def absval(s, st, ty):
    """stored value is |v| of the element at the same address: a select/phi of v and -v, or fabs/abs"""
    f = s.f
    v = f.V(st.ops[0])
    ad = f.akey(st.ops[1])
    def isload(o):
        i = f.V(o); return i is not None and i.op == 'load' and i.ty == ty and f.akey(i.ops[0]) == ad
    def isneg(o):
        i = f.V(o)
        return i is not None and (i.op == 'fneg' and isload(i.ops[0]) or i.op in ('sub', 'fsub') and i.ops[0] in ('c:0', 'f:-0.000000e+00', 'f:0.000000e+00', 'f:-0', 'f:0') and isload(i.ops[1]))
    if v is None: return False
    if v.op == 'call' and v.callee and v.callee.startswith(('llvm.fabs', 'llvm.abs', 'fabs', 'abs', 'labs', 'llabs')): return isload(v.ops[0])
    def signtest(c, truth):
        c = f.V(c)
        if c is None or c.op not in ('icmp', 'fcmp'): return None
        l = f.V(c.ops[0])
        while l is not None and l.op in ('fpext', 'freeze'): l = f.V(l.ops[0])
        if l is None or not isload(l.id): return None
        p = c.x['p'].replace('o', '', 1) if c.op == 'fcmp' else c.x['p'][1:] if c.x['p'][0] in 'su' else c.x['p']
        k = str(c.ops[1])
        nonneg = {'ge': True, 'gt': True, 'lt': False, 'le': False}.get(p[-2:])
        if nonneg is None: return None
        if k not in ('c:0', 'c:-1') and not k.startswith(('f:0', 'f:-0')): return None
        return nonneg == truth
    if v.op == 'select':
        if isload(v.ops[1]) and isneg(v.ops[2]): return signtest(v.ops[0], True) is True
        if isneg(v.ops[1]) and isload(v.ops[2]): return signtest(v.ops[0], True) is False
        return False
    if v.op == 'phi' and len(v.ops) == 2:
        for o, b in zip(v.ops, v.x['bs']):
            # the branch that selects this incoming value
            k = v.blk; c = b; ct = cond_truth(f, c, k)
            while ct is None and len(f.pred[c]) == 1: k, c = c, f.pred[c][0]; ct = cond_truth(f, c, k)
            if ct is None: return False
            t = signtest(*ct)
            if t is None or not (isload(o) if t else isneg(o)): return False
        return True
    return False

def barrier(ctx, s, r, g, tag):
    """the processes of the same group complete their one-sided traffic (and keep serving it) before blocking in MPI"""
    bs = [b for b in s.calls('comex_barrier') if grp(s, b.ops[0]) and grp(s, b.ops[0]) <= g | ({'default'} if 'node' in g else set())]
    ctx.ok('%s: comex_barrier of the same group precedes' % tag)
    if not s.dominated(bs, r):
        ctx.viol(tag + ':barrier', '%s blocks in MPI on a path without a preceding comex_barrier of the same group' % r.where())

def bcasts(s):
    """[(inst, buffer, length, root operand, groups)]"""
    out = []
    for i in s.calls('MPI_Bcast', 'armci_msg_bcast', 'armci_msg_brdcst'):
        if i.callee == 'MPI_Bcast': out.append((i, i.ops[0], i.ops[1], i.ops[3], groups(s, i.ops[4])))
        else: out.append((i, i.ops[0], i.ops[1], i.ops[2], {'default'}))
    return out

def select(ctx, m):
    f = next((f for f in m.fns.values() if f.kept and f.name == 'armci_msg_sel_scope'), None)
    if f is None: raise Broken('anchor vanished: armci_msg_sel_scope')
    names = [a[0] for a in f.args]; A = {nm: 'a%d' % k for k, nm in enumerate(names)}
    if set(A) < {'scope', 'x', 'n', 'op', 'type', 'contribute'}: raise Broken('anchor vanished: parameters of armci_msg_sel_scope')
    for op, mo in (('min', 'op_minloc'), ('max', 'op_maxloc')):
        for code in sorted(TYPES):
            for con in (0, 1):
                s = Spec(f, op, {A['scope']: ALL, A['type']: code, A['contribute']: con})
                s.sc.__init__(f, s.sc.argc, s.sc.loadc, s.sc.callc, eqop(s))
                tag = 'select:%s:%s:%s' % (op, TYPES[code][0], 'contributing' if con else 'empty')
                ctx.ok(tag); ctx.count('selections specialised')
                ar = s.calls('MPI_Allreduce')
                if len(ar) != 1: ctx.viol(tag + ':reduce', '%s: "%s" on %s performs %d reductions' % (f.where(), op, TYPES[code][0], len(ar))); continue
                r = ar[0]
                ri, ro = f.addr(r.ops[0])[0], f.addr(r.ops[1])[0]
                if ri[0] != 'al' or ro[0] != 'al' or ri == ro: ctx.viol(tag + ':pair', '%s does not reduce a (value, rank) pair of its own' % r.where()); continue
                if s.sc.get(r.ops[2]) != 1: ctx.viol(tag + ':count', '%s must reduce one pair' % r.where())
                d = dtype(s, r.ops[3])
                if PAIR[code] is not None and d != {PAIR[code]} or PAIR[code] is None and not longpair(s, m, r.ops[3]):
                    ctx.viol(tag + ':type', '%s reduces %s pairs as %s' % (r.where(), TYPES[code][0], sorted(d)))
                if dtype(s, r.ops[4]) != {mo}: ctx.viol(tag + ':op', '%s: "%s" is mapped to %s' % (r.where(), op, sorted(dtype(s, r.ops[4]))))
                g = groups(s, r.ops[5])
                if g != {'default'}: ctx.viol(tag + ':group', '%s selects over %s' % (r.where(), sorted(g)))
                barrier(ctx, s, r, g, tag)
                # ---- what is offered
                val, rank = [], []
                for i in s.live():
                    if i.op == 'store' and f.addr(i.ops[1])[0] == ri and f.inst_reaches(i, r):
                        p = f.addr(i.ops[1])[1]
                        (rank if p and str(p[-1]).endswith("1") or 'rank' in repr(p) else val).append(i)
                lastv = [w for w, _ in s.writers(ri[1], f.addr(val[0].ops[1])[1], r)] if val else []
                lastr = [w for w, _ in s.writers(ri[1], f.addr(rank[0].ops[1])[1], r)] if rank else []
                if not lastv or None in lastv or not lastr or None in lastr:
                    ctx.viol(tag + ':unset', '%s: the (value, rank) pair is not set on every path' % r.where()); continue
                for w in lastv:
                    ls = s.leaves(w.ops[0])
                    if con:
                        ok = all(l[0] == '*' and l[1] == A['x'] and l[2] == () for l in ls) and w.x.get('vt') == TYPES[code][1]
                        if not ok: ctx.viol(tag + ':value', '%s: a contributing process does not offer the %s value at the start of its buffer' % (w.where(), TYPES[code][0]))
                    else:
                        if not all(worst(l, op, TYPES[code][1]) for l in ls):
                            ctx.viol(tag + ':neutral', '%s: a process that does not contribute offers %s, which may win "%s"' % (w.where(), sorted(map(str, ls)), op))
                for w in lastr:
                    ok, past = rankval(s, w.ops[0], g)
                    if not ok: ctx.viol(tag + ':rank', '%s: the rank offered is not the rank in the group reduced over' % w.where())
                    elif con and past: ctx.viol(tag + ':rank', '%s: a contributing process offers a rank past the group' % w.where())
                    elif not con and not past: ctx.viol(tag + ':tie', '%s: a process that does not contribute wins a tie against one that does' % w.where())
                # ---- who answers
                bc = bcasts(s)
                bc = [b for b in bc if f.inst_reaches(r, b[0])]
                if not bc or not s.postdominated([b[0] for b in bc], r): ctx.viol(tag + ':answer', '%s: the winner\'s data are not broadcast on every path' % r.where())
                for i, buf, ln, root, gg in bc:
                    if not same_value(s, buf, A['x']) or not same_value(s, ln, A['n']): ctx.viol(tag + ':payload', '%s does not broadcast the whole payload' % i.where())
                    if gg != g: ctx.viol(tag + ':answergroup', '%s broadcasts over %s what was selected over %s' % (i.where(), sorted(gg), sorted(g)))
                    if not winner(s, root, ro, m): ctx.viol(tag + ':root', '%s: the root is not the rank that won the selection' % i.where())

def eqop(s):
    base = s.sc.cmpc
    def cmpc(i):
        if i.x['p'] in ('eq', 'ne'):
            a, b = (s.leaves(o) for o in i.ops)
            if len(a) == 1 and len(b) == 1:
                a, b = next(iter(a)), next(iter(b))
                if a[0] == b[0] == 'o' and str(a[1]).startswith('g:ompi_mpi_op_') and str(b[1]).startswith('g:ompi_mpi_op_'): return (a == b) == (i.x['p'] == 'eq')
        return base(i)
    return cmpc

def worst(l, op, ty):
    if ty in ('i32', 'i64'):
        b = 32 if ty == 'i32' else 64
        return l == ('c', -(1 << (b - 1)) if op == 'max' else (1 << (b - 1)) - 1)
    return l == ('o', 'f:-Inf' if op == 'max' else 'f:+Inf')
def rankval(s, o, g):
    """(is it the own rank in the communicator of g [+ its size], was the size added)"""
    f = s.f
    i = f.V(o)
    if i is not None and i.op == 'load' and f.addr(i.ops[0])[0][0] == 'al':
        ws = [w for w, _ in s.writers(f.addr(i.ops[0])[0][1], f.addr(i.ops[0])[1], i)]
        if len(ws) == 1 and ws[0] is not None and ws[0].op == 'store': return rankval(s, ws[0].ops[0], g)
    if i is not None and i.op == 'add':
        a, b = (rankval(s, x, g) for x in i.ops)
        if a == (True, False): return issize(s, i.ops[1], g), True
        if b == (True, False): return issize(s, i.ops[0], g), True
        return False, False
    ls = s.leaves(o)
    if len(ls) == 1:
        l = next(iter(ls))
        if l[0] == 'v' and f.insts[l[1]].op == 'add': return rankval(s, l[1], g)
        if l[0] == 'by':
            c = f.insts[l[1]]
            if c.callee == 'MPI_Comm_rank': return groups(s, c.ops[0]) == g, False
    return False, False
def issize(s, o, g):
    ls = s.leaves(o)
    return bool(ls) and all(l[0] == 'by' and s.f.insts[l[1]].callee == 'MPI_Comm_size' and groups(s, s.f.insts[l[1]].ops[0]) == g for l in ls)
def winner(s, root, ro, m):
    f = s.f; i = f.V(root)
    for _ in range(6):
        if i is not None and i.op in ('sext', 'zext', 'trunc', 'freeze'): i = f.V(i.ops[0])
    if i is not None and i.op in ('srem', 'urem'):
        if not issize(s, i.ops[1], {'default'}): return False
        i = f.V(i.ops[0])
    if i is None or i.op != 'load': return False
    r, p = f.addr(i.ops[0])
    return r == ro and bool(p) and (str(p[-1]).endswith('1') or 'rank' in repr(p))
def longpair(s, m, o):
    """the type of (long long, int) pairs: built once by this function from MPI_LONG_LONG and MPI_INT"""
    f = s.f
    ls = s.leaves(o)
    if not all(l[0] == 'g' for l in ls) or len(ls) != 1: return False
    g = next(iter(ls))[1]
    for c in s.calls('MPI_Type_create_struct', 'MPI_Type_struct'):
        if c.ops[4] == 'g:' + g:
            def cells(o):
                al = f.addr(o)[0]; d = {}
                for i in s.live():
                    if i.op == 'store' and f.addr(i.ops[1])[0] == al: d[repr(f.addr(i.ops[1])[1][-1:])] = str(i.ops[0])
                return [d[k] for k in sorted(d)]
            return (s.sc.get(c.ops[0]) == 2 and cells(c.ops[3]) == ['g:ompi_mpi_long_long_int', 'g:ompi_mpi_int']
                    and cells(c.ops[2]) == ['c:0', 'c:8'] and cells(c.ops[1]) == ['c:1', 'c:1'])
    return False

def broadcasts(ctx, m):
    for name, scope in (('armci_msg_bcast', None), ('armci_msg_brdcst', None), ('armci_msg_bcast_scope', ALL), ('armci_msg_bcast_scope', MASTERS),
                        ('armci_msg_bcast_scope', NODE), ('armci_msg_group_bcast_scope', ALL), ('armci_msg_group_bcast_scope', NODE)):
        f = m.fns.get(name)
        if f is None: raise Broken('anchor vanished: ' + name)
        A = {a[0]: 'a%d' % k for k, a in enumerate(f.args)}
        o = 1 if 'scope' in name else 0
        buf, ln, root = 'a%d' % o, 'a%d' % (o + 1), 'a%d' % (o + 2)
        garg = next(('a%d' % k for k, t in enumerate(f.dty[1:]) if 'Group' in t), None)
        s = Spec(f, None, {'a0': scope} if scope else {})
        tag = name + (':%d' % scope if scope else '')
        bc = bcasts(s)
        ctx.ok(tag); ctx.count('broadcasts specialised')
        rets = [i for i in s.live() if i.op == 'ret']
        if not bc or not all(s.dominated([b[0] for b in bc], r) for r in rets): ctx.viol(tag + ':none', '%s returns without broadcasting' % f.where()); continue
        for i, b, l, r, g in bc:
            if not same_value(s, b, buf) or not same_value(s, l, ln): ctx.viol(tag + ':buf', '%s does not broadcast the buffer and length given' % i.where())
            if i.callee == 'MPI_Bcast' and dtype(s, i.ops[2]) not in ({'byte'}, {'char'}): ctx.viol(tag + ':type', '%s: the length is in bytes, the type is %s' % (i.where(), sorted(dtype(s, i.ops[2]))))
            want = {'default'} if garg is None else {'given:' + garg}
            if scope == NODE: want = {'node', 'self'}
            if not g <= want: ctx.viol(tag + ':group', '%s broadcasts over %s, expected %s' % (i.where(), sorted(g), sorted(want)))
            if garg and scope != NODE: rok = translated(s, r, root, garg)
            else: rok = same_value(s, r, root)
            if not rok: ctx.viol(tag + ':root', '%s: the root is not the rank given%s' % (i.where(), ' translated from the world group' if garg else ''))
            if i.callee == 'MPI_Bcast' and scope != NODE: barrier(ctx, s, i, g, tag)

def translated(s, r, root, garg):
    """r was filled by MPI_Group_translate_ranks(group of world, 1, &root, group of *garg, &r)"""
    f = s.f
    ls = s.leaves(r)
    if len(ls) != 1: return False
    l = next(iter(ls))
    if l[0] != 'by' or l[2] != 4: return False
    t = f.insts[l[1]]
    if t.callee != 'MPI_Group_translate_ranks' or s.sc.get(t.ops[1]) != 1: return False
    al = f.addr(t.ops[2])[0]
    if al[0] != 'al': return False
    ws = s.writers(al[1], (), t)
    if not all(w is not None and w.op == 'store' and s.leaves(w.ops[0]) == {('o', root)} for w, _ in ws): return False
    def of(o):
        out = set()
        for l in s.leaves(o):
            if l[0] == 'by' and f.insts[l[1]].callee == 'MPI_Comm_group': out |= groups(s, f.insts[l[1]].ops[0])
            else: out.add('?')
        return out
    return of(t.ops[0]) == {'world'} and of(t.ops[3]) == {'given:' + garg}

def barriers(ctx, m, mc):
    for nm in ('parmci_msg_barrier', 'parmci_msg_group_barrier'):
        f = m.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        s = Spec(f)
        garg = next(('a%d' % k for k, t in enumerate(f.dty[1:]) if 'Group' in t), None)
        want = {'given:' + garg} if garg else {'default'}
        bs = [i for i in s.calls('MPI_Barrier') if groups(s, i.ops[0]) == want] + [i for i in s.calls('comex_barrier') if grp(s, i.ops[0]) == want]
        ctx.ok(nm); ctx.count('barriers')
        for i in s.live():
            if i.op == 'ret' and not s.dominated(bs, i): ctx.viol(nm + ':none', '%s returns without a barrier over %s' % (f.where(), sorted(want)))
        for i in s.calls('MPI_Barrier'):
            if groups(s, i.ops[0]) != want: ctx.viol(nm + ':group', '%s synchronises %s' % (i.where(), sorted(groups(s, i.ops[0]))))
            barrier(ctx, s, i, want, nm)
    for nm in ('pnga_msg_sync', 'pnga_msg_pgroup_sync'):
        f = mc.fns.get(nm)
        if f is None: raise Broken('anchor vanished: ' + nm)
        g = 'a0' if f.args else None
        for positive in (True, False):
            sc = SCCP(f, {}, None, None, positivity(f, g, positive))
            cs = [i for i in sc.live_calls() if re.match(r'p?armci_msg_(group_)?barrier$', i.callee)]
            tag = '%s:%s' % (nm, 'group' if positive else 'world')
            ctx.ok(tag); ctx.count('barriers')
            if len(cs) != 1 or ('group' in cs[0].callee) != positive or positive and not group_of(f, cs[0].ops[0], g):
                ctx.viol(tag, '%s does not synchronise the %s' % (f.where(), 'group in use' if positive else 'default group'))

def positivity(f, garg, positive):
    def pos(i):
        if i.x['p'] in ('sgt', 'sge', 'slt', 'sle') and isinstance(i.ops[1], str) and i.ops[1] in ('c:0', 'c:1'):
            v = f.V(f.strip(i.ops[0]))
            if (v is not None and v.op == 'call' and v.callee == 'pnga_pgroup_get_default') or garg and f.strip(i.ops[0]) == garg:
                if (i.x['p'], i.ops[1]) in (('sge', 'c:0'), ('sgt', 'c:1'), ('sle', 'c:1'), ('slt', 'c:0')): return None
                return {'sgt': positive, 'sge': positive, 'slt': not positive, 'sle': not positive}[i.x['p']]
        return None
    return pos

def pointtopoint(ctx, m):
    for name, call in (('armci_msg_snd', 'MPI_Isend'), ('armci_msg_rcv', 'MPI_Irecv'), ('armci_msg_rcvany', 'MPI_Irecv')):
        f = m.fns.get(name)
        if f is None: raise Broken('anchor vanished: ' + name)
        s = Spec(f)
        ctx.ok(name); ctx.count('point-to-point operations')
        A = {a[0]: 'a%d' % k for k, a in enumerate(f.args)}
        cs = s.calls(call)
        if len(cs) != 1: ctx.viol(name + ':post', '%s posts %d transfers' % (f.where(), len(cs))); continue
        c = cs[0]
        for pos, par in ((0, A['buffer']), (1, A['len']), (4, A['tag'])):
            if not same_value(s, c.ops[pos], par): ctx.viol('%s:arg%d' % (name, pos), '%s does not transfer the %s given' % (c.where(), f.argname(par)))
        peer = A.get('to') or A.get('from')
        if peer and not same_value(s, c.ops[3], peer): ctx.viol(name + ':peer', '%s: the partner is not the process given' % c.where())
        if not peer and s.sc.get(c.ops[3]) is BOT: ctx.viol(name + ':peer', '%s must accept any source' % c.where())
        if groups(s, c.ops[5]) != {'world'}: ctx.viol(name + ':comm', '%s: ranks are those of the world group, communicator is %s' % (c.where(), sorted(groups(s, c.ops[5]))))
        req = f.addr(c.ops[6])[0]
        waits = [i for i in s.calls('MPI_Test', 'MPI_Wait') if f.addr(i.ops[0])[0] == req]
        flags = {f.addr(i.ops[1])[0] for i in waits if i.callee == 'MPI_Test'}
        if not waits: ctx.viol(name + ':wait', '%s never tests the transfer it posted' % f.where())
        for t in s.calls('MPI_Test'):
            body = set().union(*([b for b in f.loops().values() if t.blk in b] or [set()]))
            ctx.ok('%s: polling makes progress' % name)
            if body and not any(i.op == 'call' and i.callee == 'comex_make_progress' for b in body for i in f.blocks[b]):
                ctx.viol(name + ':progress', '%s polls without serving one-sided requests (two-sided port), so the peer may never reach the matching call' % t.where())
        kept = [i for i in s.live() if i.op == 'store' and f.addr(i.ops[1]) == (('g', 'self_request'), ())]
        # every path from posting to returning sees the transfer complete (or hands it to the matching self receive)
        seen, st, bad = set(), [(c.blk, c.pos + 1)], None
        while st and bad is None:
            b, pos = st.pop()
            stop = False
            for i in f.blocks[b][pos:]:
                if i in kept or i.op == 'call' and i.callee == 'MPI_Wait' and i in waits: stop = True; break
                if i.op == 'ret': bad = i
            if stop: continue
            for k in f.succ[b]:
                if (b, k) not in s.sc.edges or (b, k) in seen: continue
                seen.add((b, k))
                done = False
                for o, nz in implied_tests(f, b, k):
                    v = f.V(o)
                    if nz and v is not None and v.op == 'load' and f.addr(v.ops[0])[0] in flags:
                        ws = s.writers(f.addr(v.ops[0])[0][1], (), v)
                        done = all(w in waits for w, _ in ws)
                if not done: st.append((k, 0))
        if bad is not None: ctx.viol(name + ':complete', '%s returns before the transfer posted at line %d is known to be complete' % (f.where(), c.line))
        if 'msglen' in A:
            ml = [i for i in s.calls('MPI_Get_count') if s.leaves(i.ops[2]) == {('o', A['msglen'])}]
            if not ml: ctx.viol(name + ':len', '%s does not report the length received' % f.where())
        if name == 'armci_msg_rcvany':
            for i in s.live():
                if i.op == 'ret' and i.ops:
                    v = f.V(f.strip(i.ops[0]))
                    if v is None or v.op != 'load' or 'MPI_SOURCE' not in repr(f.addr(v.ops[0])) and 'MPI_SOURCE' not in repr(f.leaf(v)):
                        ctx.viol(name + ':source', '%s does not return the source of the message' % f.where())

CODES = {1001: 'i', 1002: 'l', 1016: 'll', 1003: 'f', 1004: 'd', 1006: 'f2', 1007: 'd2'}
def collect(ctx, m):
    for name in ('pnga_gop', 'pnga_pgroup_gop'):
        f = m.fns.get(name)
        if f is None: raise Broken('anchor vanished: ' + name)
        A = {a[0]: 'a%d' % k for k, a in enumerate(f.args)}
        if not {'type', 'x', 'n', 'op'} <= set(A): raise Broken('anchor vanished: parameters of ' + name)
        for code, k in CODES.items():
            for positive in (True, False):
                sc = SCCP(f, {int(A['type'][1:]): code}, None, None, positivity(f, A.get('p_grp'), positive))
                tag = '%s:%d:%s' % (name, code, 'group' if positive else 'world')
                ctx.ok(tag); ctx.count('typed reductions dispatched')
                cs = [i for i in sc.live_calls() if i.callee.startswith('armci_msg_') or i.callee in ('pnga_gop', 'pnga_pgroup_gop')]
                if len(cs) != 1: ctx.viol(tag + ':calls', '%s: type %d reaches %d reductions' % (f.where(), code, len(cs))); continue
                c = cs[0]
                if c.callee in ('pnga_gop', 'pnga_pgroup_gop'):
                    ops = c.ops
                    if c.callee == 'pnga_pgroup_gop':
                        g = f.V(f.strip(ops[0]))
                        if g is None or g.callee != 'pnga_pgroup_get_default': ctx.viol(tag + ':group', '%s passes a group other than the default' % c.where())
                        ops = ops[1:]
                    elif positive: ctx.viol(tag + ':group', '%s reduces over the default group instead of the group given' % c.where())
                    if [f.strip(o) for o in ops] != [A['type'], A['x'], A['n'], A['op']] and not (sc.get(ops[0]) == code and [f.strip(o) for o in ops[1:]] == [A['x'], A['n'], A['op']]):
                        ctx.viol(tag + ':args', '%s does not pass its arguments on' % c.where())
                    continue
                want = 'armci_msg_%s%sgop' % ('group_' if positive and name == 'pnga_pgroup_gop' else '', k.rstrip('2'))
                if c.callee != want: ctx.viol(tag + ':type', '%s reduces type %d with %s, expected %s' % (c.where(), code, c.callee, want))
                if f.strip(c.ops[0]) != A['x'] or f.strip(c.ops[2]) != A['op']: ctx.viol(tag + ':args', '%s does not reduce the caller\'s buffer with the caller\'s operation' % c.where())
                if not count_is(f, c.ops[1], A['n'], 2 if k.endswith('2') else 1): ctx.viol(tag + ':count', '%s reduces the wrong number of components for type %d' % (c.where(), code))
                if want.startswith('armci_msg_group'):
                    if not group_of(f, c.ops[3], A['p_grp']): ctx.viol(tag + ':group', '%s does not reduce over the group given' % c.where())
    f = m.fns.get('pnga_brdcst')
    if f is None: raise Broken('anchor vanished: pnga_brdcst')
    cs = [i for i in f.calls('pnga_msg_brdcst', 'pnga_pgroup_brdcst')]
    ctx.ok('pnga_brdcst')
    if not cs or any([f.strip(o) for o in i.ops][-4:] != ['a0', 'a1', 'a2', 'a3'] for i in cs): ctx.viol('pnga_brdcst:args', '%s does not pass its arguments on' % f.where())
    for name in ('pnga_pgroup_brdcst', 'pnga_msg_brdcst'):
        f = m.fns.get(name)
        if f is None: raise Broken('anchor vanished: ' + name)
        A = {a[0]: 'a%d' % k for k, a in enumerate(f.args)}
        root = A.get('originator') or A.get('root'); buf = A.get('buf') or A.get('buffer')
        for positive in (True, False):
            sc = SCCP(f, {}, None, None, positivity(f, A.get('grp_id'), positive))
            tag = '%s:%s' % (name, 'group' if positive else 'world')
            ctx.ok(tag); ctx.count('broadcasts dispatched')
            cs = [i for i in sc.live_calls() if i.callee.startswith('armci_msg_')]
            if len(cs) != 1: ctx.viol(tag + ':calls', '%s reaches %d broadcasts' % (f.where(), len(cs))); continue
            c = cs[0]
            grpd = c.callee in ('armci_msg_group_bcast_scope',)
            if grpd != positive: ctx.viol(tag + ':which', '%s broadcasts over the wrong group' % c.where()); continue
            b, l, r = (c.ops[1], c.ops[2], c.ops[3]) if grpd else (c.ops[0], c.ops[1], c.ops[2])
            if b == buf:
                if f.strip(l) != A['len']: ctx.viol(tag + ':len', '%s does not broadcast the whole buffer' % c.where())
            else:
                why = pieces(f, c, b, l, buf, A['len'])
                if why: ctx.viol(tag + ':pieces', '%s: the pieces broadcast do not cover the buffer: %s' % (c.where(), why))
            if grpd:
                if not group_of(f, c.ops[4], A.get('grp_id')): ctx.viol(tag + ':group', '%s does not broadcast over the group in use' % c.where())
                v = f.V(f.strip(r))
                ok = v is not None and v.op == 'load' and 'inv_map_proc_list' in repr(f.akey(v.ops[0])) and root in deps(f, v.ops[0]) and not any(x.op == 'add' for x in chain(f, v.ops[0]))
                if not ok: ctx.viol(tag + ':root', '%s: the root is not the world rank of the group rank given' % c.where())
            elif f.strip(r) != root: ctx.viol(tag + ':root', '%s: the root is not the rank given' % c.where())

def pieces(f, c, b, l, buf, n):
    """a broadcast in pieces covers [0, n): the offset starts at 0 and grows by exactly the length sent, which is min(C, n - offset); the
    loop runs ceil(n / C) times (or while offset < n). Returns what is wrong, or None"""
    g = f.V(b)
    if g is None or g.op != 'getelementptr' or g.ops[0] != buf or len(g.x['gp']) != 1 or g.x.get('st') != 'i8': return 'the address is not the buffer plus a byte offset'
    P = f.V(f.strip(g.x['gp'][0][1]))
    if P is None or P.op != 'phi': return 'the offset does not advance'
    L = f.strip(l)
    for o in P.ops:
        if o == 'c:0': continue
        v = f.V(o)
        if v is None or v.op != 'add' or {f.strip(x) for x in v.ops} != {P.id, L}: return 'the offset does not start at 0 and advance by the length sent'
    if 'c:0' not in P.ops: return 'the offset does not start at 0'
    v = f.V(L)
    C = None
    def rest(o):
        i = f.V(f.strip(o)); return i is not None and i.op == 'sub' and [f.strip(x) for x in i.ops] == [n, P.id]
    def plus(o):
        i = f.V(f.strip(o)); return i is not None and i.op == 'add' and {str(f.strip(x)) for x in i.ops} == {str(P.id), 'c:%d' % C}
    def last(cc, truth):
        """does the condition say that the piece is the last: P + C > n"""
        i = f.V(cc)
        if i is None or i.op != 'icmp': return None
        a, bb = i.ops; p = i.x['p'][1:]
        if f.strip(a) == n and plus(bb) or isinstance(a, str) and a == 'c:%s' % C and rest(bb): a, bb = bb, a; p = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(p)
        if plus(a) and f.strip(bb) == n: d = {'gt': True, 'ge': True, 'lt': False, 'le': False}.get(p)
        elif rest(a) and bb == 'c:%d' % C: d = {'lt': True, 'le': True, 'gt': False, 'ge': False}.get(p)
        else: return None
        return None if d is None else d == truth
    if v is not None and v.op in ('phi', 'select'):
        alts = list(zip(v.ops, v.x['bs'])) if v.op == 'phi' else [(v.ops[1], True), (v.ops[2], False)]
        cs = [o for o, _ in alts if isinstance(o, str) and o.startswith('c:')]
        if len(alts) != 2 or len(cs) != 1: return 'the length is not min(constant, what is left)'
        C = int(cs[0][2:])
        if not 0 < C < 2**31: return 'a piece of %d bytes does not fit the length argument' % C
        for o, w in alts:
            if v.op == 'select': t = last(v.ops[0], w)
            else:
                k, q = v.blk, w; ct = cond_truth(f, q, k)
                while ct is None and len(f.pred[q]) == 1: k, q = q, f.pred[q][0]; ct = cond_truth(f, q, k)
                t = last(*ct) if ct else None
            if o == cs[0]: 
                if t is not False: return 'a full piece is sent although less is left'
            elif not rest(o) or t is not True: return 'the last piece is not what is left'
    elif v is not None and v.op == 'call' and v.callee and v.callee.startswith('llvm.smin'):
        cs = [o for o in v.ops[:2] if isinstance(o, str) and o.startswith('c:')]
        if len(cs) != 1 or not any(rest(o) for o in v.ops[:2]): return 'the length is not min(constant, what is left)'
        C = int(cs[0][2:])
    else: return 'the length is not min(constant, what is left)'
    # ---- number of steps
    body = next((bd for h, bd in f.loops().items() if h == P.blk), None)
    if body is None: return 'no loop'
    for q in body:
        t = f.blocks[q][-1]
        if t.op == 'br' and t.ops and any(k not in body for k in t.x['t']):
            ct = [cond_truth(f, q, k) for k in t.x['t'] if k in body][0]
            i = f.V(ct[0])
            if i is None or i.op != 'icmp': return 'loop condition not understood'
            a, bb, p = i.ops[0], i.ops[1], i.x['p'][1:]
            if p not in ('lt', 'gt', 'ge', 'le'): return 'loop condition not understood'
            if p in ('gt', 'le'): a, bb = bb, a; p = {'gt': 'lt', 'le': 'ge'}[p]
            cont = (p == 'lt') == ct[1]
            if not cont: return 'the loop does not run up to its bound'
            if f.strip(a) == P.id and f.strip(bb) == n: return None
            ctr = f.V(f.strip(a))
            if ctr is None or ctr.op != 'phi' or 'c:0' not in ctr.ops: return 'the number of pieces is not counted from 0'
            inc = [f.V(o) for o in ctr.ops if o != 'c:0']
            if not all(x is not None and x.op == 'add' and {str(y) for y in x.ops} == {str(ctr.id), 'c:1'} for x in inc): return 'the pieces are not counted one by one'
            e = f.V(f.strip(bb))
            while e is not None and e.op in ('fptosi', 'fptoui'): e = f.V(e.ops[0])
            if e is None or e.op != 'call' or not str(e.callee).startswith(('llvm.ceil', 'ceil')):
                if e is not None and e.op == 'sdiv' and e.ops[1] == 'c:%d' % C:
                    w = f.V(e.ops[0])
                    if w is not None and w.op == 'add' and {str(f.strip(y)) for y in w.ops} == {n, 'c:%d' % (C - 1)}: return None
                return 'the number of pieces is not ceil(length / piece)'
            dv = f.V(e.ops[0])
            if dv is None or dv.op != 'fdiv': return 'the number of pieces is not ceil(length / piece)'
            num = f.V(dv.ops[0])
            if num is None or num.op != 'sitofp' or f.strip(num.ops[0]) != n or dv.ops[1] != 'f:%d' % C: return 'the number of pieces is not ceil(length / piece)'
            return None
    return 'no loop'

def chain(f, o, seen=None):
    seen = set() if seen is None else seen
    out = []
    i = f.V(o)
    if i is None or i.id in seen: return out
    seen.add(i.id); out.append(i)
    for x in list(i.ops) + [g[1] for g in i.x.get('gp', ()) if g[0] != 'f']:
        out += chain(f, x, seen)
    return out
def deps(f, o):
    out = set()
    for i in chain(f, o):
        for x in list(i.ops) + [g[1] for g in i.x.get('gp', ()) if g[0] != 'f']:
            if isinstance(x, str) and x[:1] == 'a': out.add(x)
    if isinstance(o, str): out.add(o)
    return out
def count_is(f, o, n, k):
    o = f.strip(o)
    if k == 1: return o == n
    i = f.V(o)
    if i is None: return False
    if i.op == 'mul': return {str(f.strip(x)) for x in i.ops} == {n, 'c:2'}
    if i.op == 'shl': return f.strip(i.ops[0]) == n and i.ops[1] == 'c:1'
    if i.op == 'add': return [f.strip(x) for x in i.ops] == [n, n]
    return False
def group_of(f, o, garg):
    """address of PGRP_LIST[garg].group (garg None: of the default group)"""
    i = f.V(o)
    if i is None or 'group' not in ' '.join(map(str, f.fields_of(o))): return False
    if garg: return garg in deps(f, o)
    return any(x.op == 'call' and x.callee == 'pnga_pgroup_get_default' for x in chain(f, o))

def run(ctx):
    ctx.rule('Every reduction entry point of the ARMCI message layer, specialised by constant propagation for each documented operation name, '
             'type and scope, performs exactly one MPI_Allreduce of the caller\'s buffer, count and type with the MPI operation of that name over '
             'the given (default: default) group, takes absolute values of all elements first exactly for absmax/absmin, and copies all n elements back.')
    ctx.rule('armci_msg_sel_scope offers the process\'s own value and rank if it contributes, and otherwise the worst value with a rank that '
             'loses every tie; the payload of the rank that won is broadcast over the same group.')
    ctx.rule('Broadcasts send the caller\'s buffer and length from the given root (translated from world to group ranks for group broadcasts) '
             'over the given group; point-to-point transfers complete before they return; blocking MPI collectives are preceded by comex_barrier of the same group.')
    ctx.rule('pnga_gop, pnga_pgroup_gop and the broadcasts dispatch each data type to the reduction of that element type with the right count '
             '(two components per complex number), the same buffer and operation, and the group in use.')
    ctx.assume('group handles passed by callers are not the private alias of MPI_COMM_SELF; the MPI library implements its collectives')
    ctx.rule('Where an operation reduces or broadcasts a variable or table of its own, the type code (or typed entry point) is the element type the table is accessed with, '
             'and the number of elements is not more than it holds (exactly one for a scalar).')
    p = ctx.prog(['armci/message', 'ga/collect'])
    m = p.mods['armci/message']
    reductions(ctx, m); select(ctx, m); broadcasts(ctx, m); pointtopoint(ctx, m); barriers(ctx, m, p.mods['ga/collect'])
    collect(ctx, p.mods['ga/collect'])
    from vlib import build as B
    uses(ctx, ctx.prog([u for u in B.tus() if not u.startswith(('mpi3/', 'mt/', 'pr/', 'pt/', 'ts/'))]))
    ctx.need('own data reduced', 60)
    ctx.need('reductions specialised', 150); ctx.need('selections specialised', 20); ctx.need('broadcasts specialised', 7)
    ctx.need('typed reductions dispatched', 28); ctx.need('point-to-point operations', 3); ctx.need('barriers', 6)

# ---- callers inside the library -------------------------------------------------------------
# (buffer, element type: argument position or fixed, count)
USES = {'pnga_gop': (1, 0, 2), 'pnga_pgroup_gop': (2, 1, 3), 'armci_msg_gop_scope': (1, 4, 2), 'armci_msg_group_gop_scope': (1, 4, 2)}
for _t, _e in (('i', 'i32'), ('l', 'i64'), ('ll', 'i64'), ('f', 'float'), ('d', 'double')):
    USES['armci_msg_%sgop' % _t] = (0, _e, 1); USES['armci_msg_group_%sgop' % _t] = (0, _e, 1)
SENDS = {'pnga_msg_brdcst': (1, 2), 'pnga_brdcst': (1, 2), 'pnga_pgroup_brdcst': (2, 3), 'armci_msg_bcast': (0, 1), 'armci_msg_brdcst': (0, 1), 'armci_msg_bcast_scope': (1, 2)}
WIDTH = {'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'i8': 1, 'i16': 2, 'ptr': 8}
CODE = {1001: ('i32', 1), 1002: ('i64', 1), 1016: ('i64', 1), 1003: ('float', 1), 1004: ('double', 1), 1006: ('float', 2), 1007: ('double', 2),
        -99: ('i32', 1), -101: ('i64', 1), -102: ('i64', 1), -306: ('float', 1), -307: ('double', 1)}
FCODE = {1010: ('i64', 1), 1011: ('i64', 1), 1012: ('float', 1), 1013: ('double', 1), 1014: ('float', 2), 1015: ('double', 2)}

def linear(f, o, depth=0):
    """o = c*base + k -> (base key or None, c, k)"""
    if isinstance(o, str) and o.startswith('c:'): return None, 0, int(o[2:])
    i = f.V(o)
    if i is not None and depth < 8:
        if i.op in ('sext', 'zext', 'trunc', 'freeze'): return linear(f, i.ops[0], depth + 1)
        if i.op in ('mul', 'shl', 'add', 'sub') and isinstance(i.ops[1], str) and i.ops[1].startswith('c:'):
            b, c, k = linear(f, i.ops[0], depth + 1); n = int(i.ops[1][2:])
            if i.op == 'mul': return b, c * n, k * n
            if i.op == 'shl': return b, c << n, k << n
            return b, c, k + (n if i.op == 'add' else -n)
    return repr(f.key(o)), 1, 0

def extent(f, root):
    """bytes of the object: (base, c, k), or None"""
    i = f.V(root[1]) if root[0] in ('al', 'v') else None
    if i is None: return None
    if i.op == 'alloca':
        t = i.x.get('at_', ''); n = 1
        m = re.match(r'\[(\d+)x(\w+)\]$', t)
        if m: n, t = int(m.group(1)), m.group(2)
        return (None, 0, n * WIDTH[t]) if t in WIDTH and i.ops and i.ops[0] == 'c:1' else None
    if i.op in ('call', 'invoke') and i.callee == 'malloc': return linear(f, i.ops[0])
    return None

def uses(ctx, p):
    for f in p.analysed():
        for i in f.insts:
            if i.op not in ('call', 'invoke') or i.callee not in USES and i.callee not in SENDS: continue
            u = USES.get(i.callee) or SENDS[i.callee]
            root, path = f.addr(i.ops[u[0]])
            if root[0] not in ('al', 'v'): continue
            key = '%s:%s' % (f.name, i.callee)
            ext = extent(f, root)
            if i.callee in SENDS:
                if ext is None or path or f.V(root[1]).op != 'alloca': continue
                b, c, k = linear(f, i.ops[u[1]])
                ctx.ok('%s %s' % (f.name, i.callee)); ctx.count('own data broadcast')
                if b is None and k > ext[2] or '[' not in f.V(root[1]).x['at_'] and (b is not None or k != ext[2]):
                    ctx.viol(key + ':bytes', '%s broadcasts %s bytes of a %d-byte variable' % (i.where(), k if b is None else 'a variable number of', ext[2]))
                continue
            acc = {(j.ty if j.op == 'load' else j.x.get('vt')) for j in f.insts if j.op in ('load', 'store') and f.addr(j.ops[j.op == 'store'])[0] == root}
            t = u[1]
            if isinstance(t, int):
                t = i.ops[t]; c = f.V(t)
                if isinstance(t, str) and t.startswith('c:'): t = CODE.get(int(t[2:]))
                elif c is not None and c.op == 'call' and c.callee == 'pnga_type_f2c' and isinstance(c.ops[0], str) and c.ops[0].startswith('c:'): t = FCODE.get(int(c.ops[0][2:]))
                elif len(acc) == 1 and f.V(root[1]).op == 'alloca' and '[' not in f.V(root[1]).x.get('at_', '['): t = ('any', 1)
                else: t = None
            else: t = (t, 1)
            if t is None: continue
            ctx.ok('%s %s' % (f.name, i.callee)); ctx.count('own data reduced')
            if t[0] == 'any':
                ctx.viol(key + ':type', '%s reduces a variable holding one %s with the element type of something else' % (i.where(), sorted(acc)[0])); continue
            if acc and acc & set(WIDTH) and t[0] not in acc:
                ctx.viol(key + ':type', '%s reduces %s data as %s' % (i.where(), '/'.join(sorted(acc)), t[0]))
            if ext is not None and not path:
                b, c, k = linear(f, i.ops[u[2]]); w = WIDTH[t[0]] * t[1]
                if b is None and ext[0] is None: bad = k * w > ext[2] or '[' not in f.V(root[1]).x['at_'] and k * w != ext[2]
                elif f.V(root[1]).op == 'alloca': bad = '[' not in f.V(root[1]).x['at_']
                else: bad = b == ext[0] and (c * w > ext[1] or c * w == ext[1] and k * w > ext[2])
                if bad: ctx.viol(key + ':count', '%s reduces more or fewer elements than its buffer holds' % i.where())
