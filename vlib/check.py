"""Check driver: findings, known findings, obligations, evidence."""
import json, os, sys, time, traceback
from . import build as B
from .build import Broken, VERIF

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viols = []          # (key, message)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.oblig = 0
        self.exceptions = []
        self.progs = []
    def prog(self, names, mode='keep'):
        from .ir import Prog
        p = Prog(names, mode); self.progs.append(p); return p
    def rule(self, text): self.rules.append(text)
    def assume(self, text): self.assumptions.append(text)
    def ok(self, what=None, n=1):
        """one obligation examined"""
        self.oblig += n
        if what and len(self.samples) < 25: self.samples.append(what)
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def viol(self, key, msg):
        if not any(k == key for k, _ in self.viols): self.viols.append((key, msg))
    def need(self, name, minimum):
        """instances below what was confirmed by hand: the analysis has lost its subject"""
        if self.counts.get(name, 0) < minimum:
            raise Broken('rule instances lost: %s = %d, expected at least %d' % (name, self.counts.get(name, 0), minimum))

def known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return {}
    return {e['key']: e for e in json.load(open(p)).get('findings', []) if e['property'] == pid}

def run(pid, mod, tier):
    ctx = Ctx(pid, tier)
    try:
        mod.run(ctx)
        broken = None
    except Broken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    kf = known(pid)
    new = [(k, m) for k, m in ctx.viols if k not in kf]
    old = [(k, m) for k, m in ctx.viols if k in kf]
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    cov = {'explanation': ' '.join(ctx.rules) or 'see rules', 'obligations': ctx.oblig,
           'violating': len(ctx.viols), 'counts': ctx.counts, 'samples': ctx.samples[:25] or ['none'],
           'analysed': [p.stat() for p in ctx.progs],
           'units': sorted({n for p in ctx.progs for n in p.mods}),
           'known_findings_present': [k for k, _ in old], 'accepted_exceptions': ctx.exceptions}
    if broken: cov['broken'] = broken
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new), 'assumptions': ctx.assumptions}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, m in old: print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kf[k]['what'], k))
    print('%s: %d obligations, %d finding(s), %d known, %.1fs; %s' % (pid, ctx.oblig, len(new), len(old), time.time() - ctx.t0,
          ', '.join('%s=%d' % kv for kv in sorted(ctx.counts.items()))))
    rp = os.path.join(evdir, 'replay-%s.txt' % pid)
    if new:
        with open(rp, 'w') as f:
            for k, m in new: f.write('[%s]\n%s\n\n' % (k, m))
        for k, m in new: print('  finding [%s] %s' % (k, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp): os.remove(rp)
    if broken:
        print('ANALYSIS-BROKEN %s: %s' % (pid, broken)); return 2
    return 0
