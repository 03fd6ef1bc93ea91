"""Request/reply protocol between compute processes and the data server: every operation is served and message counts agree."""
from vlib.comexlib import *
CAP = 3
CSEND = {'nb_send_header': 2, 'nb_send_buffer': 2, 'nb_send_datatype': 2}
CRECV = {'nb_recv': 2, 'nb_recv_packed': 2, 'nb_recv_datatype': 2, 'nb_recv_iov': 2}
SSEND = {'server_send': 2, 'server_send_datatype': 2, 'MPI_Send': 3}
SRECV = {'server_recv': 2, 'server_recv_datatype': 2, 'MPI_Recv': 3}

def klass(vals):
    v = sorted(set(vals))
    if len(v) >= 3 or CAP in v: return 'one per chunk'
    if v == [0, 1]: return '0/1'
    return '/'.join(str(x) for x in v)

def dispatch(m):
    """operation -> handler call instruction in the server loop"""
    f = m.fns.get('_progress_server')
    if f is None: raise Broken('anchor vanished: server loop in ' + m.path)
    sw = [i for i in f.insts if i.op == 'switch' and 'header_t.operation' in repr(f.key(i.ops[0]))]
    if not sw: raise Broken('anchor vanished: operation dispatch in ' + m.path)
    return f, sw[0]

def paths(f, ev):
    out = set()
    def step(i, s):
        e = ev(i)
        if e is not None:
            s = list(s); s[e] = min(CAP, s[e] + 1); s = tuple(s)
        if i.op == 'ret': out.add(s)
        return s
    explore(f, (0, 0, 0), step)
    return out

def run(ctx):
    ctx.rule('For every operation code a process can send (constants reaching the operation field of a message header): the server loop has a case '
             'for it that leads to a handler; per path, the number of payload messages and of replies the sender posts equals the number the '
             'handler receives and sends (saturated counts over all CFG paths, loops summarised); payloads go to and replies come from the '
             'process the header was sent to; the handler receives from and replies to the requester; lock replies may be deferred to unlock.')
    p = ctx.prog(['pr/comex', 'pt/comex', 'mt/comex'])
    for port in ('pr', 'pt', 'mt'):
        m = p.mods[port + '/comex']; on = opnames(m)
        srv, sw = dispatch(m)
        handled = {}
        for v, b in sw.x['cs']:
            h = None
            # the handler is called in the case block or a block it falls into before the loop continues
            seen, st = set(), [b]
            while st and h is None:
                k = st.pop(0)
                if k in seen: continue
                seen.add(k)
                for i in srv.blocks[k]:
                    if i.op == 'call' and i.callee and i.callee.endswith('_handler') and m.fns.get(i.callee): h = i; break
                else: st.extend(x for x in srv.succ[k] if (srv.dom[x] >> b) & 1)
            handled[v] = (b, h)
        ctx.counts['cases_' + port] = len(handled)
        client = defaultdict(list)
        for f in m.fns.values():
            if not f.kept: continue
            hs = {c.id: (c, o) for c, o in header_sends(f)}
            real = [(c, o) for c, o in hs.values() if o != ()]
            if not real: continue
            ops = set()
            for c, o in real:
                if o is None: ctx.viol('%s:%s:unknown-op' % (port, f.name), 'the operation code sent at %s is not one of the operations' % c.where()); continue
                ops |= o
            hids = {c.id for c, o in real}
            def ev(i):
                if i.op != 'call': return None
                if i.id in hids: return 0
                if i.callee in CSEND: return 1
                if i.callee in CRECV: return 2
                return None
            ps = paths(f, ev)
            bad = [s for s in ps if s[0] == 0 and (s[1] or s[2])]
            if bad: ctx.viol('%s:%s:orphan' % (port, f.name), '%s: a path posts %d payload and %d receive messages without sending a request' % (f.where(), bad[0][1], bad[0][2]))
            ps1 = {s for s in ps if s[0]}
            multi = any(s[0] > 1 for s in ps1)
            if multi:   # one request per iteration of a loop over ranks: counts must scale with the requests
                for s in ps1:
                    if s[2] not in (0, s[0]): ctx.viol('%s:%s:count' % (port, f.name), '%s: %d requests but %d receives' % (f.where(), s[0], s[2]))
                cls = ('0' if all(s[1] == 0 for s in ps1) else '?', '1' if all(s[2] == s[0] for s in ps1) else '0')
            else: cls = (klass(s[1] for s in ps1), klass(s[2] for s in ps1))
            for o in ops: client[o].append((f, cls))
            # destinations
            for c, o in real:
                dk = f.key(c.ops[2])
                for i in f.calls(*(set(CSEND) | set(CRECV))):
                    if i.id in hids: continue
                    if f.inst_reaches(c, i) or f.inst_reaches(i, c):
                        ctx.ok('%s %s peer' % (port, i.where())); ctx.count('peer_checks')
                        pos = 2 if i.callee not in ('nb_send_datatype', 'nb_recv_datatype') else 2
                        if f.key(i.ops[pos]) != dk:
                            ctx.viol('%s:%s:peer:%s' % (port, f.name, i.callee), '%s addresses a different process than the request at line %d' % (i.where(), c.line))
        hdone = {}
        for op, lst in client.items():
            nm = on[op]
            if op not in handled:
                ctx.viol('%s:%s:undispatched' % (port, nm), 'operation %s is sent by %s but the server has no case for it' % (nm, lst[0][0].name)); continue
            b, h = handled[op]
            ctx.ok('%s %s -> %s' % (port, nm, h.callee if h is not None else '(inline)')); ctx.count('operations')
            if nm == 'OP_QUIT': continue
            if h is None:
                ctx.viol('%s:%s:nohandler' % (port, nm), 'the server case for %s at line %d calls no handler' % (nm, srv.blocks[b][0].line)); continue
            g = m.fns[h.callee]
            if g.name not in hdone:
                def ev(i):
                    if i.op != 'call': return None
                    if i.callee in SRECV: return 1
                    if i.callee in SSEND: return 2
                    return None
                ps = paths(g, ev)
                hdone[g.name] = (klass(s[1] for s in ps), klass(s[2] for s in ps))
                # peers: the source passed by the server loop
                pi = [k for k, a in enumerate(g.args) if a[0] == 'proc'] or [len(g.args) - 1]
                for i in g.insts:
                    if i.op == 'call' and (i.callee in SRECV or i.callee in SSEND):
                        pos = {**SRECV, **SSEND}[i.callee]
                        ctx.ok('%s %s peer' % (port, i.where())); ctx.count('peer_checks')
                        if g.strip(i.ops[pos]) != 'a%d' % pi[0] and not (nm == 'OP_UNLOCK'):
                            ctx.viol('%s:%s:peer' % (port, g.name), 'the handler exchanges data with a process other than the requester at ' + i.where())
            hc = hdone[g.name]
            for f, cc in lst:
                ctx.count('conversations'); ctx.ok('%s %s: %s sends %s payload, receives %s; %s' % (port, nm, f.name, cc[0], cc[1], g.name))
                same0 = cc[0] == hc[0]
                if nm == 'OP_LOCK': same1 = cc[1] == '1' and hc[1] == '0/1'
                elif nm == 'OP_UNLOCK': same1 = cc[1] == '0' and hc[1] == '0/1'
                else: same1 = cc[1] == hc[1]
                if not same0: ctx.viol('%s:%s:payload' % (port, nm), '%s: %s sends %s payload message(s), %s receives %s' % (nm, f.where(), cc[0], g.where(), hc[0]))
                if not same1: ctx.viol('%s:%s:reply' % (port, nm), '%s: %s waits for %s reply message(s), %s sends %s' % (nm, f.where(), cc[1], g.where(), hc[1]))
        # the source given to handlers is the one of the received message
        for i in srv.calls():
            g = m.fns.get(i.callee)
            if g is None or not i.callee.endswith('_handler'): continue
            k = repr(srv.key(i.ops[-1]))
            ctx.count('sources')
            if 'MPI_SOURCE' not in k and 'MPI_Status' not in k and 'status' not in k.lower():
                ctx.viol('%s:server:source:%s' % (port, i.callee), 'the handler called at %s is not given the source of the received message (%s)' % (i.where(), k))
    ctx.need('operations', 60); ctx.need('conversations', 60); ctx.need('peer_checks', 80); ctx.need('sources', 40)
    ctx.assume('MPI delivers messages of one sender/receiver/tag in order; chunk counts on both sides follow from the same length (the byte arithmetic of the chunk loops is not compared).')
