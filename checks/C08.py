"""One-sided transfers: the right addresses, strides and process reach the data movement, in the right direction, in every runtime."""
from vlib.comexlib import *
from vlib.deps import *
from collections import Counter
# public calls: source, source strides, destination, destination strides, counts, process, group (argument positions); remote side
A = {'put': dict(S=0, D=1, n=[2], p=3, g=4, R='D'), 'get': dict(S=0, D=1, n=[2], p=3, g=4, R='S'),
     'puts': dict(S=0, SS=1, D=2, DS=3, n=[4, 5], p=6, g=7, R='D'), 'gets': dict(S=0, SS=1, D=2, DS=3, n=[4, 5], p=6, g=7, R='S'),
     'putv': dict(iov=0, n=[1], p=2, g=3, R='D'), 'getv': dict(iov=0, n=[1], p=2, g=3, R='S'),
     'acc': dict(S=2, D=3, n=[4], p=5, g=6, R='D', sc=1), 'accs': dict(S=2, SS=3, D=4, DS=5, n=[6, 7], p=8, g=9, R='D', sc=1),
     'accv': dict(iov=2, n=[3], p=4, g=5, R='D', sc=1)}
OPS = {('comex_nb' if nb else 'comex_') + k: v for k, v in A.items() for nb in (0, 1)}
SEND = {'MPI_Isend': (0, 3), 'MPI_Send': (0, 3), 'MPI_Ssend': (0, 3), 'MPI_Issend': (0, 3)}
RECV = {'MPI_Irecv': (0, 3), 'MPI_Recv': (0, 3)}
HEAPW = {'MPI_Type_create_struct': {4}, 'MPI_Type_create_hindexed': {4}, 'MPI_Type_create_subarray': {6}, 'MPI_Type_vector': {4}, 'MPI_Type_create_hvector': {4}, 'MPI_Type_indexed': {4},
         'MPI_Type_contiguous': {2}, 'MPI_Type_commit': set(), 'MPI_Type_size': {1}, 'MPI_Group_translate_ranks': {4}, 'MPI_Win_get_group': {1},
         'MPI_Isend': {6}, 'MPI_Send': set(), 'MPI_Recv': {0, 6}, 'MPI_Irecv': {0, 6}}
RMA = {'MPI_Put': 'put', 'MPI_Rput': 'put', 'MPI_Get': 'get', 'MPI_Rget': 'get', 'MPI_Accumulate': 'acc', 'MPI_Raccumulate': 'acc'}

WAITS = re.compile(r'^(nb_wait_|nb_test_|_fence_master|comex_wait|comex_fence|comex_test|comex_make_progress)')

RANK = {('g', 'g_state', 'rank'), ('g', 'l_state', 'rank')}

class Sum:
    def __init__(self, m):
        self.m, self.memo, self.dep, self.wr, self.busy = m, {}, {}, {}, set()
    def rets(self, d, i):
        """(tokens, contents) of the freshly allocated object a call returns, or None"""
        g = self.m.fns.get(i.callee or '')
        if g is None or not g.blocks or g.name in self.busy: return None
        self.busy.add(g.name)
        try: dd = self.deps(g)
        finally: self.busy.discard(g.name)
        t, c = set(), set()
        for r in g.insts:
            if r.op != 'ret' or not r.ops or r.ops[0] == 'n': continue
            ob = dd.objects(r.ops[0])
            if not ob or any(b[0] != 'v' or g.insts[b[1]].callee not in ALLOC for b in ob): return None
            t |= self.subst(d, i, dd.tokens(r.ops[0]))
            for b in ob: c |= self.subst(d, i, dd.content_of(b))
        return t, c
    def writes(self, f):
        """parameters f may write through"""
        if f.name in self.wr: return self.wr[f.name]
        self.wr[f.name] = set()
        w = set()
        for i in f.insts:
            if i.op == 'store':
                r, p = f.addr(i.ops[1])
                if r[0] == 'a': w.add(r[1])
                elif r[0] in ('v', 'ld'):
                    j = f.insts[r[1]]
                    if j.op == 'phi':
                        for o in j.ops:
                            rr = f.addr(o)[0]
                            if rr[0] == 'a': w.add(rr[1])
            elif i.op == 'call':
                for k, o in enumerate(i.ops):
                    r, p = f.addr(o)
                    if r[0] == 'a' and r[1] < len(f.args) and f.args[r[1]][1] == 'ptr' and self.stores(i, k): w.add(r[1])
        self.wr[f.name] = w
        return w
    def stores(self, i, k):
        c = i.callee or ''
        g = self.m.fns.get(c)
        if g is not None and g.blocks: return k in self.writes(g)
        if c in HEAPW: return k in HEAPW[c]
        if is_copy(c): return k == 0
        if c in RMA: return k == 8
        return not (c.startswith('llvm.') or c in PURE)
    def deps(self, f):
        if f.name not in self.dep: self.dep[f.name] = Deps(f, stores=self.stores, outs=self.outs, rets=self.rets)
        return self.dep[f.name]
    def outs(self, d, i, k):
        """what call i leaves in the object passed as argument k: tokens, or None when only an over-approximation is known"""
        g = self.m.fns.get(i.callee or '')
        if g is None or not g.blocks or g.name in self.busy: return None
        self.busy.add(g.name)
        try: dd = self.deps(g)
        finally: self.busy.discard(g.name)
        r = set()
        for (b, fl), t in dd.cell.items():
            if b[:2] == ('a', k): r |= self.subst(d, i, t)
        return r
    def events(self, f):
        if f.name in self.memo: return self.memo[f.name] or []
        self.memo[f.name] = None
        d = self.deps(f); out = []
        def selfguard(i):
            r = set()
            for a, k in f.all_cdeps(i.blk):
                ct = cond_truth(f, a, k)
                j = f.V(f.strip(ct[0])) if ct else None
                if j is not None and j.op == 'icmp' and j.x['p'] == ('eq' if ct[1] else 'ne'):
                    x, y = d.tokens(j.ops[0]), d.tokens(j.ops[1])
                    if RANK & x: r |= y
                    if RANK & y: r |= x
            return r
        def ev(kind, i, **kw): out.append((kind, i.where(), {k: frozenset(v) for k, v in kw.items()}))
        for i in f.insts:
            if i.op == 'store':
                l = f.leaf(i) or self.layout(f, i) or ''
                if l.startswith('header_t.') or l.startswith('message_link.') or l.startswith('get_t.'):
                    ev('fld:' + l, i, v=d.tokens(i.ops[0]), c=d.contents(i.ops[0]) if i.x.get('vt') == 'ptr' else ())
                continue
            if i.op != 'call': continue
            c = i.callee or ''
            if is_copy(c):
                ob = d.objects(i.ops[0])
                if ob and all(is_local(b) for b in ob) and not self.mapped(f, d, i.ops[0]):
                    ev('pay', i, c=d.contents(i.ops[1]), r=d.tokens(i.ops[1]))
                else: ev('copy', i, w=d.tokens(i.ops[0]), r=d.tokens(i.ops[1]), c=d.contents(i.ops[1]), n=d.tokens(i.ops[2]), g=selfguard(i))
            elif c == '_acc':
                ev('acc', i, n=d.tokens(i.ops[1]), w=d.tokens(i.ops[2]), r=d.tokens(i.ops[3]), c=d.contents(i.ops[3]), s=d.both(i.ops[4]), g=selfguard(i))
            elif c in SEND:
                ev('out', i, v=d.tokens(i.ops[0]), c=d.contents(i.ops[0]), p=d.tokens(i.ops[3]), n=d.tokens(i.ops[1]), t=d.tokens(i.ops[2]))
            elif c in RECV:
                ev('in', i, v=d.tokens(i.ops[0]), p=d.tokens(i.ops[3]), n=d.tokens(i.ops[1]), t=d.tokens(i.ops[2]))
            elif c in RMA:
                ev('rma:' + RMA[c], i, v=d.tokens(i.ops[0]), c=d.contents(i.ops[0]), n=d.tokens(i.ops[1]), t=d.tokens(i.ops[2]), p=d.tokens(i.ops[3]), a=d.tokens(i.ops[4]),
                   rn=d.tokens(i.ops[5]), rt=d.tokens(i.ops[6]), win=d.tokens(i.ops[8 if RMA[c] == 'acc' else 7]))
            else:
                if c == 'reg_cache_find': ev('lookup', i, p=d.tokens(i.ops[0]), v=d.tokens(i.ops[1]), n=d.tokens(i.ops[2]))
                g = self.m.fns.get(c)
                if g is None or not g.blocks or WAITS.match(c): continue
                for kind, where, t in self.events(g):
                    out.append((kind, where + ' < ' + i.where(), {k: self.subst(d, i, v) for k, v in t.items()}))
        # distinct events only
        seen, r = set(), []
        for e in out:
            k = (e[0], e[1].split(' < ')[0], tuple(sorted(e[2].items())))
            if k not in seen: seen.add(k); r.append(e)
        self.memo[f.name] = r
        return r
    def layout(self, f, i):
        """field of a message header written through its byte offset in freshly allocated memory"""
        r, path = f.addr(i.ops[1])
        if r[0] != 'v' or f.insts[r[1]].callee not in ALLOC: return None
        off = 0
        for x in path:
            if not isinstance(x, tuple) or not str(x[1]).startswith('c:'): return None
            off += int(x[1][2:])
        st = self.m.structs.get('%struct.header_t')
        for n in (st or {'fields': ()})['fields']:
            if n[1] == off and i.ops[0] != 'u': return 'header_t.' + n[0]
        return None
    def mapped(self, f, d, o):
        """address inside memory looked up in the registration cache rather than freshly allocated"""
        return any(b[0] == 'v' and f.insts[b[1]].callee not in ALLOC for b in d.objects(o))
    def subst(self, d, i, toks):
        out = set()
        for t in toks:
            if t[0] != 'a' or t[1] >= len(i.ops): out.add(t); continue
            o, rest = i.ops[t[1]], t[2:]
            if not rest: out |= d.tokens(o); continue
            obs = d.objects(o)
            if not obs: out |= d.tokens(o); continue
            for b in obs:
                if is_local(b):
                    x = d.content_of(b, rest[0] if rest[0] != '*' else None)
                    more = rest[1:]
                    for y in x: out.add((y + more)[:5] if more and y[0] == 'a' else y)
                else: out.add((b + rest)[:5])
        return frozenset(out)

def roles(sp):
    if 'iov' in sp:
        v = sp['iov']
        return dict(S={('a', v, 'src', '*'), ('a', v, '*', 'src', '*')}, D={('a', v, 'dst', '*')}, SS=set(), DS=set(), SX={('a', v, 'src', '*', '*')}, DX={('a', v, 'dst', '*', '*')},
                    N={('a', v, 'bytes'), ('a', v, 'count')})
    r = dict(S={('a', sp['S'])}, D={('a', sp['D'])}, SX={('a', sp['S'], '*')}, DX={('a', sp['D'], '*')}, SS=set(), DS=set())
    if 'SS' in sp: r['SS'] = {('a', sp['SS'], '*'), ('a', sp['SS'])}; r['DS'] = {('a', sp['DS'], '*'), ('a', sp['DS'])}
    r['N'] = {('a', k) for k in sp['n']} | {('a', k, '*') for k in sp['n']}
    return r

def side(t, r):
    """which sides an operand derives from"""
    s = set()
    if t & (r['S'] | r['SS'] | r['SX']): s.add('S')
    if t & (r['D'] | r['DS'] | r['DX']): s.add('D')
    return s

def judge(ctx, port, op, sp, evs):
    r = roles(sp)
    R, L = sp['R'], 'DS'[sp['R'] == 'D']
    ptr = {'S': r['S'], 'D': r['D']}
    proc, grp = ('a', sp['p']), ('a', sp['g'])
    def bad(key, msg): ctx.viol('%s:%s:%s' % (port, op, key), '%s: %s' % (op, msg))
    kinds = Counter()
    def procok(t, where, what):
        if t & RANK and proc not in t: bad('process', '%s addresses the calling process instead of the target, at %s' % (what, where))
        elif proc not in t: bad('process', '%s does not go to the process that was named, at %s' % (what, where))
        elif grp not in t: bad('group', '%s ignores the processor group of the rank, at %s' % (what, where))
    for kind, where, t in evs:
        g = lambda k: t.get(k, frozenset())
        if kind in ('copy', 'acc'):
            w, rd, c = g('w'), g('r'), g('c')
            sw, sr = side(w, r), side(rd, r)
            if not sw and not sr: continue
            kinds[kind] += 1
            if sw != {'D'} or not w & ptr['D']: bad('copy-to', 'local transfer writes to an address that is not derived from the destination alone, at ' + where)
            if sr != {'S'} or not (rd & ptr['S'] or c & r['SX']): bad('copy-from', 'local transfer reads from an address that is not derived from the source alone, at ' + where)
            if not g('n') & r['N']: bad('copy-length', 'local transfer length does not come from the caller\'s count, at ' + where)
            mapped = w if R == 'D' else rd
            if proc in mapped:
                if grp not in mapped: bad('group', 'local transfer ignores the processor group of the rank, at ' + where)
            elif proc not in g('g'): bad('self', 'direct copy to the given address without knowing that the target is the calling process, at ' + where)
            if kind == 'acc' and ('a', sp['sc']) not in g('s') and ('a', sp['sc'], '*') not in g('s'): bad('scale', 'scale factor is not the caller\'s, at ' + where)
        elif kind == 'lookup':
            kinds[kind] += 1
            procok(g('p'), where, 'memory lookup')
            if side(g('v'), r) != {R} or not g('v') & ptr[R]: bad('lookup', 'memory lookup uses an address other than the remote one, at ' + where)
        elif kind == 'pay':
            t_ = g('c') | g('r')
            s = side(t_, r)
            if not s: continue
            kinds[kind] += 1
            if len(s) > 1: bad('mix', 'one message part mixes source and destination addressing, at ' + where)
            if g('c') & (r['DX' if R == 'D' else 'SX']) and not ('iov' in sp and not g('c') & {x for x in r['DX' if R == 'D' else 'SX'] if x[-2:] == ('*', '*')}):
                bad('payload', 'data is taken from the wrong side of the transfer, at ' + where)
            ls = r['SS' if L == 'S' else 'DS']
            if g('c') & ls and not g('c') & (r[L + 'X'] | r[L]): bad('strides', 'the local strides are sent as the remote layout, at ' + where)
        elif kind.startswith('fld:'):
            fld = kind.split('.', 1)[1]
            v = g('v')
            if fld == 'remote_address' and v:
                kinds['remote'] += 1
                if side(v, r) != {R} or not v & ptr[R]: bad('remote-address', 'the remote address of the message is not derived from the remote side alone, at ' + where)
            elif fld == 'local_address' and v:
                if side(v, r) != {L}: bad('local-address', 'the local address of the message is not derived from the local side alone, at ' + where)
            elif fld == 'rank' and kind.startswith('fld:header_t'):
                kinds['rank'] += 1
                procok(v, where, 'the message header')
            elif fld == 'length' and v:
                kinds['length'] += 1
                if not v & r['N']: bad('length', 'the message length does not come from the caller\'s count, at ' + where)
            elif fld in ('stride', 'iov', 'datatype') and kind.startswith('fld:message_link'):
                s = side(g('c') | (v if fld == 'datatype' else frozenset()), r)
                if s:
                    kinds['deferred'] += 1
                    if s != {L}: bad('deferred', 'the delivery of received data is described with the remote side\'s layout, at ' + where)
        elif kind in ('out', 'in'):
            kinds[kind] += 1
            procok(g('p'), where, 'the message')
            s = side(g('v') | g('t'), r)
            ls = r['SS' if L == 'S' else 'DS']
            if kind == 'out' and g('c') & ls and not g('c') & (r[L + 'X'] | r[L]): bad('strides', 'the local strides are sent as the remote layout, at ' + where)
            if kind == 'out' and s and (R != 'D' or s != {'S'}): bad('send-buffer', 'a message is sent from the wrong side of the transfer, at ' + where)
            if kind == 'in' and s and (R != 'S' or s != {'D'}): bad('recv-buffer', 'data is received into the wrong side of the transfer, at ' + where)
        elif kind.startswith('rma:'):
            kinds['rma'] += 1
            want = 'get' if R == 'S' else 'acc' if 'acc' in op else 'put'
            if kind != 'rma:' + want: bad('rma-kind', 'performs a one-sided %s, at %s' % (kind[4:], where))
            procok(g('p') | g('win'), where, 'the one-sided access')
            if side(g('v') | g('t') | g('n'), r) - {L}: bad('origin', 'the origin buffer is described with the remote side, at ' + where)
            if not (g('v') & ptr[L] or g('c') & (r[L + 'X'] | r[L]) or (g('t') & (r[L] | r[L + 'X']))): bad('origin', 'the origin buffer is not the local side, at ' + where)
            if side(g('a') | g('rt') | g('rn'), r) - {R}: bad('target', 'the remote location is described with the local side, at ' + where)
            if not (g('a') | g('rt')) & (ptr[R]): bad('target', 'the remote location does not derive from the remote address, at ' + where)
    return kinds

def handlers(m):
    """{kind: handler functions} found from the server's dispatch"""
    from checks.C05 import dispatch, opnames
    srv, sw = dispatch(m); on = opnames(m)
    out = defaultdict(dict)
    for v, b in sw.x['cs']:
        nm = on.get(v, '')
        k = re.match(r'OP_(PUT|GET|ACC)', nm)
        if not k: continue
        st, seen = [b], set()
        while st:
            x = st.pop(0)
            if x in seen: continue
            seen.add(x)
            h = [i for i in srv.blocks[x] if i.op == 'call' and (i.callee or '').endswith('_handler') and m.fns.get(i.callee)]
            if h: out[h[0].callee].setdefault(k.group(1), set()).add(nm); break
            st.extend(y for y in srv.succ[x] if (srv.dom[y] >> b) & 1)
    return out

def second_list(f, o, depth=14):
    """the address offset skips over a whole list (contains a product with a runtime count)"""
    i = f.V(o)
    if i is None or depth == 0: return False
    if i.op == 'mul' or i.op == 'shl':
        v = [f.strip(x) for x in (i.ops if i.op == 'mul' else i.ops[:1])]
        return any(not (isinstance(x, str) and x.startswith('c:')) and not (f.V(x) is not None and f.V(x).op == 'phi' and f.V(x).blk in f.loops()) for x in v)
    if i.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr'): return any(second_list(f, x, depth - 1) for x in i.ops)
    if i.op == 'getelementptr': return second_list(f, i.ops[0], depth - 1) or any(g[0] != 'f' and second_list(f, g[1], depth - 1) for g in i.x['gp'])
    return False

def server(ctx, port, m, S):
    H = handlers(m)
    if len(H) < 4: raise Broken('anchor vanished: transfer handlers of ' + m.path)
    iov = {}
    for name, kinds in H.items():
        f = m.fns[name]
        kind = sorted(kinds)[0]
        isiov = any('IOV' in n for n in kinds[kind])
        evs = S.events(f)
        hd = [k for k, a in enumerate(f.args) if any(t[:2] == ('a', k) and t[2:] in (('remote_address',), ('rank',), ('length',)) for e in evs for v in e[2].values() for t in v)]
        def bad(key, msg): ctx.viol('%s:%s:%s' % (port, name, key), msg)
        if len(hd) != 1: bad('header', 'the handler does not use the address and rank of the request (%s)' % f.where()); continue
        h = hd[0]
        RA, RK, LEN = ('a', h, 'remote_address'), ('a', h, 'rank'), ('a', h, 'length')
        ctx.count('handlers'); ctx.ok('%s %s (%s)' % (port, f.where(), kind))
        registered = any(e[0] == 'lookup' for e in evs)
        need = lambda t: (isiov or RA in t) and (not registered or RK in t)
        hit = 0
        for k, where, t in evs:
            g = lambda x: t.get(x, frozenset())
            if k == 'lookup':
                if RK not in g('p'): bad('owner', 'memory is looked up for a process other than the one addressed, at ' + where)
                if not isiov and RA not in g('v'): bad('address', 'memory is looked up at an address other than the requested one, at ' + where)
                ctx.ok('%s %s' % (port, where))
            if kind in ('PUT', 'ACC'):
                w = g('w') if k in ('copy', 'acc') else g('v') if k == 'in' else None
                if w is None: continue
                target = RA in w or RK in w
                if k == 'acc' or target or (k == 'copy' and not isiov):
                    ctx.ok('%s %s' % (port, where)); ctx.count('server_writes')
                    if not need(w): bad('target', 'data is written to memory other than the requested location, at ' + where)
                    else: hit += 1
                if k in ('copy', 'acc') and (RA in g('r') or RK in g('r')): bad('reversed', 'data is copied out of the target instead of into it, at ' + where)
            else:
                r = g('r') if k in ('copy', 'pay') else g('v') if k == 'out' else None
                if k in ('copy',) and (RA in g('w') or RK in g('w')): bad('reversed', 'a get writes into the target memory, at ' + where)
                if r is None: continue
                if RA in r or RK in r:
                    ctx.ok('%s %s' % (port, where)); ctx.count('server_reads')
                    if not need(r): bad('source', 'data is read from memory other than the requested location, at ' + where)
                    else: hit += 1
        if port == 'mt' and isiov: hit += 1
        if not hit: bad('nothing', 'the handler does not move data %s the requested location (%s)' % ('from' if kind == 'GET' else 'to', f.where()))
        if isiov:
            d = S.deps(f)
            pos = set()
            for i in f.insts:
                # pointers loaded out of the received address lists
                if i.op == 'load' and i.ty == 'ptr' and any(b[0] == 'v' and f.insts[b[1]].callee in ALLOC for b in d.objects(i.ops[0])) :
                    if any(u.op == 'call' and not (u.callee or '').startswith('llvm.dbg') or u.op in ('ptrtoint', 'getelementptr') for u in f.users[i.id]): pos.add(second_list(f, i.ops[0]))
            iov[kind] = (f, pos)
    # the client sends the source list first, the destination list second (or the reverse): the handler must read the remote one
    for f in m.fns.values():
        if not f.kept: continue
        d = None
        objs = {}
        for i in f.insts:
            if i.op != 'call' or not is_copy(i.callee or ''): continue
            d = d or S.deps(f)
            c = d.contents(i.ops[1])
            for side_ in ('src', 'dst'):
                if any(t[0] == 'a' and t[-2:] == (side_, '*') for t in c) and not any(t[-1] == '*' and t[-2] == '*' for t in c): objs.setdefault(frozenset(d.objects(i.ops[0])), {})[side_] = (second_list(f, i.ops[0]), i)
        for lists in objs.values():
            if len(lists) != 2: continue
            ops = {k for x in (f.name,) for k in ('PUT', 'GET', 'ACC') if any(e[0] == 'fld:header_t.operation' for e in S.events(f))}
            from checks.C05 import header_sends, opnames
            on = opnames(m)
            names = {on[o] for c, oo in header_sends(f) for o in (oo or ())}
            for k in ('PUT', 'GET', 'ACC'):
                if not any(n.startswith('OP_' + k) for n in names) or k not in iov: continue
                g, pos = iov[k]
                want = lists['src' if k == 'GET' else 'dst'][0]
                ctx.ok('%s address lists %s -> %s' % (port, f.where(), g.where())); ctx.count('address_lists')
                if lists['src'][0] == lists['dst'][0]: ctx.viol('%s:%s:lists' % (port, f.name), 'the source and destination address lists overlap in the message (%s)' % f.where())
                elif pos != {want}: ctx.viol('%s:%s:list' % (port, g.name), '%s takes the target addresses from the %s list of the message, %s put them in the other' % (g.where(), 'wrong' if pos else 'no', f.name))

def chunks(ctx, port, m):
    """loops that send or receive a buffer piece by piece advance by exactly the piece"""
    POS = {'nb_send_buffer': (0, 1), 'nb_send_header': (0, 1), 'nb_recv': (0, 1), 'server_send': (0, 1), 'server_recv': (0, 1), 'nb_recv_packed': (0, 1), 'nb_recv_iov': (0, 1), 'MPI_Isend': (0, 1), 'MPI_Recv': (0, 1)}
    def size_of(f, o):
        o = f.strip(o)
        i = f.V(o)
        if i is not None and i.op == 'sub' and i.ops[0] == 'c:0': return ('-', f.strip(i.ops[1]))
        return ('+', o)
    for f in m.fns.values():
        if not f.kept: continue
        for c in f.calls(*POS):
            lp = loop_of(f, c.blk)
            if lp is None: continue
            h, body = lp
            bp, np_ = POS[c.callee]
            n = f.strip(c.ops[np_])
            b = f.V(c.ops[bp])
            # the buffer is a pointer carried round the loop, possibly already moved back by the piece
            def carried(x):
                x = f.V(x)
                if x is not None and x.op == 'phi' and x.blk == h: return x, None
                if x is not None and x.op == 'getelementptr' and len(x.x['gp']) == 1:
                    y = f.V(x.ops[0])
                    if y is not None and y.op == 'phi' and y.blk == h: return y, x
                return None, None
            if b is None: continue
            ph, moved = carried(b.id)
            if ph is None: continue
            ctx.ok('%s %s piecewise' % (port, c.where())); ctx.count('chunk_loops')
            for o, pb in zip(ph.ops, ph.x['bs']):
                if pb not in body: continue
                j = f.V(o)
                good = j is not None and j.op == 'getelementptr' and len(j.x['gp']) == 1 and f.V(j.ops[0]) is ph
                if good:
                    sg, s = size_of(f, j.x['gp'][0][1])
                    good = s == n and (sg == '+' and moved is None or sg == '-' and moved is j)
                if not good: ctx.viol('%s:%s:advance' % (port, f.name), 'the buffer does not advance by the size of the piece transferred at ' + c.where())
            # what remains shrinks by the piece
            rem = [x for x in f.blocks[h] if x.op == 'phi' and x.ty and x.ty.startswith('i') and any(f.V(o) is not None and f.V(o).op == 'sub' and f.strip(f.V(o).ops[0]) == x.id for o in x.ops)]
            if rem and not any(f.strip(f.V(o).ops[1]) == n for x in rem for o in x.ops if f.V(o) is not None and f.V(o).op == 'sub'):
                ctx.viol('%s:%s:remaining' % (port, f.name), 'the remaining length does not shrink by the size of the piece transferred at ' + c.where())

def leaf0(f, o):
    """field an address designates; an element of an array of structures designates its first field"""
    l = f.leaf_addr(o)
    if l: return l
    i = f.V(o)
    if i is not None and i.op == 'getelementptr':
        st = f.mod.structs.get(i.x.get('st') or '')
        if st and st['fields']: return i.x['st'].replace('%struct.', '') + '.' + st['fields'][0][0]
    return None

def armci(ctx):
    """ARMCI calls hand every argument to the matching role of the runtime call"""
    p = ctx.prog(['armci/armci'])
    m = p.mods['armci/armci']
    S = Sum(m)
    for op, sp in A.items():
        for nb in (0, 1):
            base = op[:3] + {'': '', 's': 'S', 'v': 'V'}[op[3:]]
            name = 'PARMCI_' + ('Nb' if nb else '') + base[0].upper() + base[1:]
            f = m.fns.get(name)
            if f is None:
                if name == 'PARMCI_NbAcc': continue
                raise Broken('anchor vanished: ' + name)
            d = S.deps(f)
            n = 0
            for c in f.calls():
                k = re.match(r'comex_(nb)?(put|get|acc)([sv]?)$', c.callee)
                if not k: continue
                n += 1
                ctx.ok('ARMCI ' + c.where()); ctx.count('armci_calls')
                def bad(key, msg): ctx.viol('armci:%s:%s' % (name, key), '%s: %s, at %s' % (name, msg, c.where()))
                if k.group(2) != op[:3]: bad('kind', 'performs a %s' % k.group(2)); continue
                if (k.group(1) == 'nb') != bool(nb): bad('blocking', 'the %s form is called' % ('non-blocking' if k.group(1) else 'blocking'))
                q = A[k.group(2) + k.group(3)]
                for role in ('S', 'SS', 'D', 'DS', 'sc'):
                    if role in q and role in sp and d.f.strip(c.ops[q[role]]) != 'a%d' % sp[role]: bad(role, 'the %s is not passed on' % {'S': 'source', 'SS': 'source stride array', 'D': 'destination', 'DS': 'destination stride array', 'sc': 'scale'}[role])
                if 'sc' in sp and f.strip(c.ops[0]) != 'a0': bad('type', 'the operation type is not passed on')
                if f.strip(c.ops[q['p']]) != 'a%d' % sp['p']: bad('process', 'the process is not passed on')
                if nb and f.strip(c.ops[-1]) != 'a%d' % (sp['p'] + 1): bad('handle', 'the handle is not passed on')
                if c.ops[q['g']] != 'c:0': bad('group', 'the rank is not interpreted in the world group')
                if 'iov' in sp:
                    for fld, w in (('src', 'src_ptr_array'), ('dst', 'dst_ptr_array'), ('count', 'ptr_array_len'), ('bytes', 'bytes')):
                        st = [i for i in f.insts if i.op == 'store' and leaf0(f, i.ops[1]) == 'comex_giov_t.' + fld and d.objects(d.rootval(f.addr(i.ops[1])[0])) & d.objects(c.ops[q['iov']])]
                        t = {leaf0(f, f.V(f.strip(i.ops[0])).ops[0]) if f.V(f.strip(i.ops[0])) is not None and f.V(f.strip(i.ops[0])).op == 'load' else None for i in st}
                        if t != {'armci_giov_t.' + w}: bad('vector', 'the %s of the vector is taken from %s' % (fld, sorted(map(str, t))))
                    if f.strip(c.ops[q['n'][0]]) != 'a%d' % sp['n'][0]: bad('count', 'the vector length is not passed on')
                elif k.group(3) == op[3:]:
                    for a, b in zip(q['n'], sp['n']):
                        if f.strip(c.ops[a]) != 'a%d' % b: bad('count', 'a count is not passed on')
                else:
                    # contiguous shortcut of a strided call
                    if ('a', sp['n'][0], '*') not in d.tokens(c.ops[q['n'][0]]): bad('count', 'the length of the contiguous transfer does not come from the counts')
                    g = set()
                    for a, s in f.all_cdeps(c.blk):
                        t = f.blocks[a][-1]
                        if t.ops and loop_of(f, a) is None or t.ops: g |= cond_tokens(f, d, t.ops[0])
                    if not all(x in g for x in (('a', sp['SS']), ('a', sp['DS']), ('a', sp['n'][0]))): bad('contiguous', 'the data is treated as contiguous without looking at both stride arrays and the counts')
            if not n: ctx.viol('armci:%s:none' % name, '%s starts no transfer' % name)

def cond_tokens(f, d, o, depth=6):
    i = f.V(o)
    if i is None: return d.tokens(o)
    r = set(d.tokens(i.id))
    if depth and i.op in ('icmp', 'and', 'or', 'xor'):
        for x in i.ops: r |= cond_tokens(f, d, x, depth - 1)
    if i.op == 'call':
        for x in i.ops: r |= d.tokens(x)
    return r

def run(ctx):
    ctx.rule('for every public put/get/accumulate of every port, every data-movement event reachable from it is written/read at an address derived from the right '
             'caller argument, for the named process, with the caller\'s length, in the right direction, with the remote side\'s strides in the message; server handlers '
             'move data only at the requested address of the requested owner; piecewise transfers advance by the piece; ARMCI passes each argument to its role')
    p = ctx.prog([x + '/comex' for x in ('pr', 'pt', 'mt', 'ts', 'mpi3')])
    for port in ('pr', 'pt', 'mt', 'ts', 'mpi3'):
        m = p.mods[port + '/comex']
        S = Sum(m)
        for op, sp in OPS.items():
            f = m.fns.get(op)
            if f is None: raise Broken('anchor vanished: %s in %s' % (op, m.path))
            evs = S.events(f)
            k = judge(ctx, port, op, sp, evs)
            for kk, n in k.items(): ctx.count(kk, n)
            ctx.ok('%s %s: %s' % (port, op, dict(k)))
        if port in ('pr', 'pt', 'mt'): server(ctx, port, m, S)
        if port != 'mpi3': chunks(ctx, port, m)
    armci(ctx)
    for k, n in (('copy', 40), ('acc', 20), ('lookup', 20), ('out', 80), ('in', 20), ('pay', 50), ('remote', 50), ('rank', 40), ('length', 50), ('rma', 20), ('handlers', 20), ('server_writes', 10),
                 ('server_reads', 6), ('deferred', 6), ('address_lists', 6), ('chunk_loops', 8), ('armci_calls', 10)): ctx.need(k, n)
    ctx.assume('MPI delivers a message to the rank it is addressed to; the registration cache returns the mapping of the entry that contains the address. The element arithmetic of the '
               'copy loops inside one transfer (which offset of which segment) is not decided by this check.')
