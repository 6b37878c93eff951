"""The checks, one function per property."""
import os, sys, time, json, glob, random, re, concurrent.futures as cf
import vlib, gen
from vlib import VERIF, SEED, Case, Broken
from gen import *

class Run:
    """collects what a check covered and found"""
    level = 'model_checking'
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.violations, self.messages, self.coverage, self.assumptions = [], [], {}, []
        self.traces = self.events = 0
        self.samples = []
        self.extra = {}
        self.variants = {}; self.simvariants = {}
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick
    def violation(self, path, why=''):
        self.violations.append(path)
        if why: self.messages.append(why)
    def write(self, wall):
        c = {'states': vlib.STATS['states'], 'transitions': vlib.STATS['transitions'], 'traces_validated_against_impl': self.traces, 'events': self.events, 'samples': self.samples[:3]}
        c.update(self.extra)
        self.coverage = c
        vlib.evidence(self.prop, self.tier, {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': self.level, 'coverage': c,
                                             'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)})

    # ---- traces
    def bins(self, variants, sim=False):
        have = self.simvariants if sim else self.variants
        need = [v for v in variants if v not in have]
        if need:
            have.update((vlib.build_sim if sim else vlib.build)(need))
        return have
    def crash_of(self, cases, module='MdbxCrash', limit=3, timeout=120):
        """histories on simulated storage; the states found after crashes at random
        moments are checked against the specification along with the history"""
        bins = self.bins(sorted({c.variant for c in cases}), True)
        for c in cases: c.module = module
        with cf.ThreadPoolExecutor(vlib.NCPU + 2) as ex: list(ex.map(lambda c: vlib.run_crash(bins[c.variant], c, c.gen, timeout), cases))
        for c in cases:
            if c.rc == 2 or (c.rc and not c.lines): raise Broken('driver failed on %s: %d %s' % (c.name, c.rc, c.err))
            if c.rc and not any('"crash"' in x for x in c.lines[-1:]): c.lines.append('{"i":0,"w":0,"e":"crash","r":0,"sig":%d}' % c.rc)
        for c, idx, out in vlib.validate(cases, module=module, prop=self.prop)[:limit]:
            p = vlib.save_replay(self.prop, c, idx, out)
            img = [x for x in c.lines[:idx + 1] if '"e":"image"' in x or '"e":"imgend"' in x][-1:]
            self.violation(p, 'refused by the specification: case %s event %d: %s (%s)' % (c.name, idx, c.lines[idx][:300] if 0 <= idx < len(c.lines) else '?', ''.join(img)[:200]))
        self.traces += len(cases)
        self.events += sum(len(c.lines) for c in cases)
        self.extra['failed_storage_calls'] = self.extra.get('failed_storage_calls', 0) + sum('"fh":' in x for c in cases for x in c.lines)
        self.extra['crash_images'] = self.extra.get('crash_images', 0) + sum('"e":"image"' in x for c in cases for x in c.lines)
        self.extra['crash_images_inside_calls'] = self.extra.get('crash_images_inside_calls', 0) + sum('"e":"image"' in x and '"mid":1' in x for c in cases for x in c.lines)
        if cases: self.samples.append({'case': cases[0].name, 'events': cases[0].lines[:12]})
    def traces_of(self, cases, module='MdbxTrace', timeout=120, limit=3, post=None, report=True):
        """runs the scripts on the implementation, checks the traces"""
        bins = self.bins(sorted({c.variant for c in cases}))
        vlib.run_all(cases, bins, timeout)
        if post: post(cases)
        for c in cases:
            if c.rc == 2 or (c.rc and not c.lines):
                raise Broken('driver failed on %s: %d %s' % (c.name, c.rc, c.err))
            if c.rc and not any('"crash"' in x for x in c.lines[-1:]):
                c.lines.append('{"i":0,"w":0,"e":"crash","r":0,"sig":%d}' % c.rc)
        bad = vlib.validate(cases, module=module, prop=self.prop)
        self.last_bad = bad
        for c, idx, out in bad[:limit] if report else ():
            p = vlib.save_replay(self.prop, c, idx, out)
            self.violation(p, 'refused by the specification: case %s event %d: %s' % (c.name, idx, c.lines[idx][:300] if 0 <= idx < len(c.lines) else '?'))
        self.traces += len(cases)
        self.events += sum(len(c.lines) for c in cases)
        if cases:
            c = cases[0]
            self.samples.append({'case': c.name, 'events': c.lines[:12]})
        return bad
    def random_cases(self, n, tag, variant='plain', cls='Gen', **kw):
        res = []
        for i in range(n):
            g = getattr(gen, cls)('%s/%s/%d/%d' % (self.prop, tag, SEED, i), **kw)
            res.append(Case('%s-%s-%d' % (tag, variant, i), g.run(), g.params(), variant)); res[-1].gen = g
            res[-1].module = 'MdbxGeo' if isinstance(g, gen.Geo) else 'MdbxTrace'
        return res
    def corpus(self):
        """histories kept from earlier findings; run by every check they concern"""
        res = []
        for p in sorted(glob.glob(os.path.join(VERIF, 'corpus', '*.txt'))):
            head = open(p).readline()
            if not head.startswith('# '): continue
            meta = json.loads(head[2:])
            if self.prop not in meta['properties']: continue
            script = [x for x in open(p).read().split('\n')[1:] if x]
            for v in meta.get('variants', ['plain', 'chk']):
                res.append(Case('corpus-%s-%s' % (os.path.basename(p)[:-4], v), script, meta['params'], v)); res[-1].module = meta.get('module', 'MdbxTrace')
        return res

    def known(self):
        """recorded, not repaired findings: KNOWN_FINDINGS.txt names a history
        each; the history is run, and the finding is reported while the event it
        names occurs.  Any other refusal is a violation."""
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            m = re.match(r'finding: property=(\S+) history=(\S+) (.*)', line)
            if not m or m.group(1) != self.prop: continue
            p = os.path.join(VERIF, 'corpus', 'known', m.group(2) + '.txt')
            meta = json.loads(open(p).readline()[2:])
            script = [x for x in open(p).read().split('\n')[1:] if x]
            cases = [Case('known-%s-%s' % (m.group(2), v), script, meta['params'], v) for v in meta['variants']]
            self.traces_of(cases, report=False)
            seen = False
            for c in cases:
                hit = [i for i, x in enumerate(c.lines) if re.search(meta['event'], x)]
                seen = seen or bool(hit)
                for b, idx, out in self.last_bad:
                    if b is c and idx not in hit:
                        self.violation(vlib.save_replay(self.prop, c, idx, out), 'refused by the specification: case %s event %d: %s' % (c.name, idx, c.lines[idx][:300] if 0 <= idx < len(c.lines) else '?'))
            if seen: print('KNOWN-FINDING: property=%s %s' % (self.prop, m.group(3)))

CHECKS = {}
def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco

def page_cases(run, profiles):
    """histories with an observer of the pages of the file"""
    cases = []
    for tag, q, t, kw in profiles:
        n = run.scale(q, t); kw = dict(dict(cls='Pages'), **kw)
        cases += run.random_cases((n + 1) // 2, tag, 'plain', **kw) + run.random_cases(n // 2, tag + 'c', 'chk', **kw)
    for module, cls in (('MdbxPages', lambda c: not isinstance(c.gen, gen.Geo)), ('MdbxGeo', lambda c: isinstance(c.gen, gen.Geo))):
        some = [c for c in cases if cls(c)]
        if some: run.crash_of(some, module)
    run.extra['states_walked'] = sum('"wk":[{' in x for c in cases for x in c.lines)

def profile_check(prop, profiles, pages=()):
    """profiles: list of (tag, quick count, thorough count, generator options);
    pages: the same, with an observer of the pages"""
    def f(run):
        cases = run.corpus()
        for tag, q, t, kw in profiles:
            n = run.scale(q, t)
            cases += run.random_cases((n + 1) // 2, tag, 'plain', **kw) + run.random_cases(n // 2, tag + 'c', 'chk', **kw)
        run.traces_of([c for c in cases if c.module == 'MdbxTrace'])
        geo = [c for c in cases if c.module == 'MdbxGeo']
        if geo: run.traces_of(geo, 'MdbxGeo'); run.extra['geometry_changes'] = sum('"e":"egeo"' in x and '"r":0' in x for c in geo for x in c.lines)
        run.known()
        page_cases(run, pages)
        run.extra['rule'] = 'random histories of API calls, each result checked against Mdbx.tla: ' + ', '.join('%s x%d' % (p[0], run.scale(p[1], p[2])) for p in profiles) + (''.join(', %s x%d (pages observed)' % (p[0], run.scale(p[1], p[2])) for p in pages))
    CHECKS[prop] = f

def multi_check(prop, profiles, why):
    """several processes or threads on one database"""
    def f(run):
        cases = run.corpus()
        for tag, q, t, kw in profiles:
            n = run.scale(q, t)
            cases += run.random_cases((n + 1) // 2, tag, 'plain', cls='Multi', **kw) + run.random_cases(n // 2, tag + 'c', 'chk', cls='Multi', **kw)
        def post(cs):
            for c in cs: c.lines = gen.incarnations(c.lines)
        for c in cases: c.module = 'MdbxMulti'
        run.traces_of(cases, 'MdbxMulti', post=post)
        run.extra['deaths'] = sum('"e":"kill' in x or '"e":"exit"' in x for c in cases for x in c.lines)
        run.extra['races'] = sum('"e":"race"' in x for c in cases for x in c.lines)
        run.extra['rule'] = why + ': ' + ', '.join('%s x%d' % (p[0], run.scale(p[1], p[2])) for p in profiles)
    CHECKS[prop] = f

def crash_check(prop, profiles, why, cls='Dur', module='MdbxCrash'):
    def f(run):
        cases = []
        for tag, q, t, kw in profiles:
            n = run.scale(q, t)
            cases += run.random_cases((n + 1) // 2, tag, 'plain', cls=cls, **kw) + run.random_cases(n // 2, tag + 'c', 'chk', cls=cls, **kw)
        run.crash_of(cases, module)
        run.extra['rule'] = why + ': ' + ', '.join('%s x%d' % (p[0], run.scale(p[1], p[2])) for p in profiles)
    CHECKS[prop] = f

SINGLE = [0, 8, 2, 0, 8, 0]                # kinds of single-value tables
MULTI = [4, 20, 52, 68, 84, 12, 6, 28, 60, 22]
profile_check('C10', [('map', 80, 1500, dict(kinds=SINGLE, nested=0.002, weights=dict(put=45, delete=20, replace=10, get=25, cread=12))),
                      ('maptree', 24, 500, dict(kinds=SINGLE, K=200, ps=256, ops=900, weights=dict(put=45, delete=25, replace=10, burst=8))),
                      ('mapmain', 10, 200, dict(kinds=SINGLE, maindb=1.0))])
profile_check('C11', [('multi', 80, 1500, dict(kinds=MULTI, weights=dict(put=45, delete=25, replace=8, get=25, cread=10, burst=5))),
                      ('multitree', 30, 500, dict(kinds=MULTI, K=8, V=200, ps=256, ops=800, weights=dict(put=45, delete=25, burst=8)))])
profile_check('C12', [('nav', 60, 1200, dict(dupprob=0.6, weights=dict(cread=90, copen=6, cmod=4))),
                      ('navtree', 30, 600, dict(dupprob=0.5, ps=256, K=200, V=12, ops=700, weights=dict(cread=90, burst=10, copen=6, cmod=4))),
                      ('navdup', 24, 600, dict(kinds=MULTI, ps=256, K=10, V=150, ops=700, weights=dict(cread=90, burst=10, copen=6, cmod=4)))])
profile_check('C13', [('cur', 60, 1200, dict(dupprob=0.6, weights=dict(cread=30, cmod=40, copen=8, cmisc=6))),
                      ('curtree', 40, 600, dict(dupprob=0.6, ps=256, K=120, V=12, ops=700, weights=dict(cread=30, cmod=40, copen=8, burst=6))),
                      ('curnest', 20, 400, dict(dupprob=0.5, nested=0.02, weights=dict(cread=30, cmod=30, copen=8)))])

SYNCMODES = [0, NOMETASYNC, SAFENOSYNC]
KINDS_C14 = [0, 2, 8, 4, 6, 12, 68, 70, 20, 28, 22, 52, 60, 54, 84, 92, 86]
def opt_some(r, o, p, name, choices):
    if r.random() < p: o.append((name, r.choice(choices)))
def tree_opts(r):
    """options that change how the tree is laid out, never what it holds"""
    o = []
    opt_some(r, o, .3, 'merge_threshold_16dot16_percent', [8192, 12288, 16384, 32768])
    opt_some(r, o, .3, 'prefer_waf', [0, 1])
    opt_some(r, o, .3, 'subpage_limit', [0, 8192, 32768, 65535])
    opt_some(r, o, .3, 'subpage_room_threshold', [0, 8192, 32767])
    opt_some(r, o, .3, 'subpage_reserve_prereq', [0, 16384, 65535])
    opt_some(r, o, .3, 'subpage_reserve_limit', [0, 8192, 65535])
    opt_some(r, o, .3, 'split_reserve', [0, 4096, 16384])
    opt_some(r, o, .3, 'loose_limit', [0, 1, 4, 64, 255])
    opt_some(r, o, .3, 'rp_augment_limit', [1, 16, 1024])
    opt_some(r, o, .2, 'gc_time_limit', [0, 1, 65536])
    opt_some(r, o, .2, 'writethrough_threshold', [0, 1, 100])
    opt_some(r, o, .2, 'prefault_write_enable', [0, 1])
    return o
def spill_opts(lim):
    def f(r):
        o = [('txn_dp_limit', r.choice(lim)), ('txn_dp_initial', r.choice([16, 32, 64]))]
        opt_some(r, o, .7, 'spill_max_denominator', [0, 2, 4, 8, 32, 255])
        opt_some(r, o, .7, 'spill_min_denominator', [0, 1, 4, 8, 64, 255])
        opt_some(r, o, .5, 'spill_parent4child_denominator', [0, 1, 4, 8])
        opt_some(r, o, .5, 'dp_reserve_limit', [0, 1, 8, 64])
        return o + tree_opts(r)
    return f
profile_check('C01', [('txn', 40, 800, dict(abort=0.35, readers=0.15, modes=SYNCMODES, reopen=0.15, ops=350, weights=dict(seqcan=3, drop=1))),
                      ('txntree', 16, 300, dict(abort=0.35, readers=0.15, ps=256, K=150, V=12, ops=700, reopen=0.1, weights=dict(burst=8, drop=1))),
                      ('txnmap', 16, 300, dict(writemap=1.0, abort=0.35, readers=0.15, modes=[WRITEMAP, WRITEMAP | SAFENOSYNC], reopen=0.15, ops=400, weights=dict(seqcan=3, drop=1)))])
profile_check('C14', [('kinds', 90, 1500, dict(kinds=KINDS_C14, ops=300, weights=dict(put=40, get=30, cread=30, delete=14))),
                      ('kindstree', 24, 400, dict(kinds=KINDS_C14, ps=256, K=120, V=25, ops=600, weights=dict(put=40, get=25, cread=25, delete=14, burst=8)))])
PG = dict(ps=256, K=60, V=12, ops=350, readers=.2, endp=.08, modes=SYNCMODES)
PGSPILL = dict(ps=256, K=200, V=25, ops=500, opts=spill_opts([64, 80]), readers=.1, endp=.05, nested=.02, modes=SYNCMODES, abort=.1, weights=dict(burst=15, delete=25))
PGNEST = dict(ps=256, K=80, V=20, ops=450, nested=.06, readers=.05, endp=.1, modes=[0, SAFENOSYNC], abort=.3, weights=dict(burst=8, delete=20, drop=1))
PGDFG = dict(ps=256, K=150, V=25, ops=500, readers=.05, endp=.06, modes=SYNCMODES, weights=dict(defrag=1.5, burst=8, drop=2), cls='PagesDfg')
PGGROW = dict(ps=256, K=100, V=60, ops=500, kinds=[0, 8, 4, 20], geo=(4096, -1, 8 << 20, 4096, 4096), readers=.1, endp=.08, modes=SYNCMODES, weights=dict(burst=15, put=10, delete=20, drop=3))
PGFULL = dict(ps=256, K=150, V=40, ops=700, full=1, geo=(256 * 220, 256 * 220, 256 * 220, 0, 0), readers=.05, abort=.1, endp=.1, modes=SYNCMODES, weights=dict(put=60, delete=4, burst=14))
MAPMODES = [WRITEMAP, WRITEMAP | NOMETASYNC, WRITEMAP | SAFENOSYNC]
PGBIG = dict(ps=512, K=100, V=300, ops=400, nested=.02, endp=.06, modes=[0, SAFENOSYNC], readers=.1)
profile_check('C17', [('nest', 60, 1200, dict(nested=0.04, abort=0.4, ops=400, writemap=0, weights=dict(seqcan=3, drop=0.7))),
                      ('nesttree', 30, 500, dict(nested=0.03, abort=0.4, ops=800, writemap=0, ps=256, K=150, V=15, weights=dict(burst=8, drop=0.7)))],
                     [('nestpg', 20, 400, PGNEST), ('nestpgspill', 8, 200, dict(PGSPILL, nested=.04))])
profile_check('C21', [('seq', 60, 1200, dict(nested=0.03, abort=0.3, readers=0.2, reopen=0.1, ntab=(1, 3), writemap=0.2, ops=300, modes=SYNCMODES, weights=dict(seqcan=60, put=20, delete=10, drop=2)))])
profile_check('C29', [('spill', 40, 600, dict(opts=spill_opts([64, 80, 128]), ps=256, K=200, V=25, ops=900, abort=0.1, writemap=0.15, weights=dict(burst=12, put=45, delete=25))),
                      ('spillnest', 10, 200, dict(opts=spill_opts([64, 128]), ps=256, K=200, V=25, ops=700, nested=0.006, full=1, abort=0.1, writemap=0, weights=dict(burst=12, put=45, delete=25))),
                      ('spillbig', 14, 300, dict(opts=spill_opts([64, 128]), ps=256, K=200, V=12, ops=900, kinds=[0, 8, 4, 20], weights=dict(burst=15, put=45, delete=20, cread=15)))],
                     [('spillpg', 10, 300, PGSPILL)])
BULK = dict(put=40, delete=6, burst=6, cdelr=6, cbunch=6, cread=6, cmod=3)
BULKTREE = dict(put=60, delete=2, burst=10, cdelr=3, cbunch=3, cread=6, cmod=3)
profile_check('C15', [('bulk', 40, 1000, dict(kinds=SINGLE + MULTI, abort=0.05, ops=300, weights=BULK)),
                      ('bulktree', 20, 500, dict(kinds=SINGLE + MULTI, abort=0.05, readers=0.1, K=120, V=25, ps=256, ops=700, weights=BULKTREE)),
                      ('bulkdup', 30, 500, dict(kinds=MULTI, abort=0.05, nested=0.02, K=12, V=120, ps=256, ops=700, weights=BULKTREE)),
                      ('bulkspill', 6, 200, dict(opts=spill_opts([64, 128]), kinds=SINGLE + MULTI, abort=0.1, K=200, V=15, ps=256, ops=900, weights=BULKTREE))])
RANGE = dict(put=35, delete=8, burst=4, cdist=15, cscroll=15, cdistr=10, cscan=10, batch=6, cread=6, cmod=3)
RANGETREE = dict(put=45, delete=6, burst=10, cdist=15, cscroll=15, cdistr=10, cscan=6, batch=4, cread=6, cmod=3)
profile_check('C16', [('range', 60, 1000, dict(kinds=SINGLE + MULTI, abort=0.05, ops=300, weights=RANGE)),
                      ('rangetree', 20, 400, dict(kinds=SINGLE + MULTI, abort=0.05, readers=0.1, K=120, V=25, ps=256, ops=600, weights=RANGETREE)),
                      ('rangedup', 24, 400, dict(kinds=MULTI, abort=0.05, nested=0.02, K=10, V=120, ps=256, ops=600, weights=RANGETREE))])
LIFE = dict(cls='Life', K=6, V=4, ntab=(1, 2), writemap=0, maindb=0)
profile_check('C18', [('life', 140, 3000, dict(ops=250, **LIFE)),
                      ('lifesticky', 50, 1000, dict(ops=250, nst=0, **LIFE)),
                      ('lifelong', 10, 300, dict(ops=1500, **LIFE))])
CACHE = dict(cls='Cache', readers=0.45, writemap=0.15)
profile_check('C30', [('cache', 60, 1200, dict(K=12, V=8, ops=400, endp=.12, abort=.15, nested=.01, weights=dict(cache=60, drop=1), **CACHE)),
                      ('cachetree', 30, 600, dict(K=150, V=12, ps=256, ops=800, kinds=SINGLE + [4, 20], nce=24, endp=.08, abort=.1, nested=.005, weights=dict(cache=40, burst=8, drop=.7), **CACHE)),
                      ('cachedrop', 24, 400, dict(K=12, V=8, ops=300, endp=.15, abort=.2, weights=dict(cache=60, recreate=4, drop=2), **CACHE)),
                      ('cacherace', 10, 200, dict(K=8, V=8, ops=200, kinds=SINGLE, endp=.3, abort=.05, weights=dict(cachex=20, cache=20), **CACHE))])
COPY = dict(cls='Copy', weights=dict(copy=1.5, copystep=6, burst=2), readers=.3)
profile_check('C23', [('copy', 60, 1200, dict(endp=.05, ops=300, **COPY)),
                      ('copytree', 16, 400, dict(cls='Copy', ps=256, K=120, V=25, ops=600, endp=.05, nested=.02, readers=.3, weights=dict(copy=.4, copystep=3, burst=8))),
                      ('copymain', 20, 300, dict(cls='Copy', maindb=1, K=6, V=3, ops=250, endp=.2, readers=.3, weights=dict(copy=6, copystep=3, seqcan=8, delete=60, drop=3))),
                      ('copybig', 16, 300, dict(ps=4096, V=40, K=40, ops=300, endp=.08, nst=1, **COPY))])
DFG = dict(cls='Defrag', weights=dict(defrag=1.5, burst=8, drop=2))
profile_check('C24', [('dfg', 16, 300, dict(ps=256, K=60, V=60, ops=500, readers=.05, endp=.1, **DFG)),
                      ('dfgtree', 16, 300, dict(ps=256, K=120, V=25, ops=700, readers=.1, endp=.08, kinds=SINGLE + MULTI, **DFG)),
                      ('dfgmap', 8, 200, dict(ps=256, K=120, V=25, ops=500, writemap=1.0, readers=.03, endp=.08, **DFG)),
                      ('dfgspill', 6, 150, dict(ps=256, K=150, V=25, ops=600, opts=spill_opts([64, 128]), readers=.02, endp=.05, **DFG)),
                      ('dfgpage', 12, 200, dict(ps=4096, K=60, V=60, ops=400, readers=.05, endp=.1, **DFG)),
                      ('dfgchk', 8, 150, dict(ps=256, K=100, V=40, ops=400, chk=1, readers=.05, endp=.1, **DFG))],
              pages=[('dfgpages', 8, 200, PGDFG)])
ACC = dict(stat=8, burst=8, delete=30, put=20, drop=1)
profile_check('C09', [('acc', 20, 500, dict(ps=256, K=120, V=40, ops=500, readers=.1, endp=.08, chk=1, weights=ACC)),
                      ('accdup', 16, 400, dict(ps=256, K=30, V=120, ops=500, kinds=MULTI, readers=.1, endp=.08, chk=1, weights=ACC)),
                      ('accnest', 12, 300, dict(ps=256, K=120, V=25, ops=500, nested=.03, abort=.3, endp=.06, writemap=0, chk=1, weights=ACC)),
                      ('accspill', 8, 200, dict(ps=256, K=200, V=25, ops=700, opts=spill_opts([64, 128]), abort=.1, weights=dict(ACC, burst=15))),
                      ('accmap', 10, 200, dict(ps=256, K=120, V=40, ops=500, writemap=1.0, abort=.1, endp=.08, chk=1, weights=ACC)),
                      ('accfull', 16, 300, dict(ps=256, K=150, V=40, ops=900, room=.6, full=1, geo=(256 * 220, 256 * 220, 256 * 220, 0, 0), readers=.05, abort=.1, endp=.1, weights=dict(ACC, put=60, delete=4, burst=14)))],
                     [('accpg', 14, 400, dict(PG, readers=.05)), ('accpgspill', 12, 300, PGSPILL), ('accpgnest', 16, 400, PGNEST), ('accpgdfg', 6, 200, PGDFG), ('accpgbig', 10, 300, PGBIG)])
GEO = dict(cls='Geo', K=60, V=40, weights=dict(geo=2, wipe=2, fill=6, shrink=1.5), nested=.03, kinds=[0, 0, 4, 20], ops=500)
GEOTREE = dict(cls='Geo', ps=256, K=200, V=25, weights=dict(geo=1, wipe=1, fill=6, burst=8, delete=20), kinds=[0, 0, 4, 20], ops=600, opts=spill_opts([64, 80]), modes=[0, SAFENOSYNC], geo=(0, 0, 1500 * 256, 4096, 4096))
PGSHRINK = dict(cls='PagesGeo', K=60, V=40, weights=dict(geo=.1, wipe=0, fill=2, shrink=5), kinds=[0, 0, 4, 20], geop=.02, large=1, readers=.1, ops=300, ps=1024, modes=SYNCMODES + [0], writemap=.3, geo=(0, 0, 3000 * 1024, 8192, 8192))
PGGEO = dict(cls='PagesGeo', K=60, V=40, weights=dict(geo=1.5, wipe=2, fill=6), nested=.03, readers=.15, kinds=[0, 0, 4, 20], ops=350, modes=SYNCMODES, writemap=.3)
profile_check('C02', [('snap', 40, 800, dict(abort=0.1, readers=0.5, ps=256, K=60, V=25, ops=700, weights=dict(burst=6, put=40, delete=25, cread=5, cmod=5))),
                      ('snapbig', 20, 300, dict(abort=0.1, readers=0.5, ps=512, K=150, V=25, ops=900, kinds=[0, 8, 4, 20], weights=dict(burst=10, put=40, delete=30, cread=5, cmod=5, drop=0.6)))],
                     [('snapgeo', 6, 200, dict(PGGEO, readers=.4, ops=400)), ('snapshrink', 20, 400, PGSHRINK)])
profile_check('C22', [('geo', 24, 600, dict(GEO, readers=.2, reopen=.1, nst=1)), ('geosticky', 20, 400, dict(GEO, readers=0, nst=0, writemap=.4)),
                      ('geotree', 8, 200, dict(GEOTREE, nested=.06, readers=.1, nst=1)), ('geospill', 6, 200, dict(GEOTREE, nested=.06, readers=0, nst=0))],
                     [('geopg', 20, 500, PGGEO), ('geoshrink', 24, 500, PGSHRINK), ('pggrow', 6, 200, PGGROW), ('pgfull', 6, 200, PGFULL)])
profile_check('C08', [], [('pg', 30, 900, PG), ('pgmap', 16, 400, dict(PG, writemap=1.0, modes=MAPMODES, readers=.3)), ('pgspill', 14, 400, PGSPILL), ('pgspillmap', 4, 100, dict(PGSPILL, writemap=1.0, modes=MAPMODES)),
                          ('pgnest', 8, 300, PGNEST), ('pgdfg', 10, 300, PGDFG), ('pggrow', 10, 300, PGGROW), ('pggrowmap', 6, 200, dict(PGGROW, writemap=1.0, modes=MAPMODES)), ('pgfull', 12, 300, PGFULL), ('pggeo', 8, 300, PGGEO), ('pgshrink', 8, 300, PGSHRINK)])
CAT = dict(cls='Cat')
profile_check('C20', [('cat', 130, 2500, dict(ops=250, **CAT)),
                      ('catlong', 24, 400, dict(ops=600, **CAT))])
TIGHT = dict(K=30, V=8, geo=(-1, -1, 40960, 4096, -1), ps=256, full=1, nst=1)
multi_check('C03', [('fresh', 24, 500, dict(ops=250, race=.05, kill=.004, killin=.004, probe=0, registry=.005, fill=0, hsr=0, readers=.4, rops=(10, 80))),
                    ('freshthr', 24, 500, dict(ops=250, threads=1, nst=2, race=.05, registry=.005, fill=0, hsr=0, readers=.4, rops=(10, 120))),
                    ('freshtree', 8, 200, dict(ops=400, K=60, V=20, ps=256, race=.03, kill=.004, killin=.004, probe=0, readers=.3, weights=dict(burst=8)))],
            'random histories of several processes or threads, with moments at which writers and readers run freely at the same time')
multi_check('C04', [('dead', 40, 900, dict(ops=300, kill=.03, killin=.06, exit=.008, race=.015, probe=.002, registry=.01, fill=0, hsr=0, readers=.15)),
                    ('deadtree', 12, 300, dict(ops=400, K=60, V=20, ps=256, kill=.02, killin=.05, race=.01, probe=.002, weights=dict(burst=10), readers=.1)),
                    ('deadmap', 12, 300, dict(ops=300, wm=1.0, modes=[0, NOMETASYNC, SAFENOSYNC], kill=.03, killin=.05, race=.01, probe=.002)),
                    ('trythr', 16, 300, dict(ops=250, threads=1, nst=2, race=.05, registry=0, fill=0))],
            'random histories of several processes which are killed at random moments, also in the middle of calls')
multi_check('C19', [('park', 24, 500, dict(ops=300, race=.03, kill=.004, killin=.004, probe=0, hsr=.004, weights=dict(burst=20), readers=.4, parks=.5, kinds=[0, 8, 2], rops=(10, 60), **TIGHT)),
                    ('parkthr', 24, 500, dict(ops=250, threads=1, race=.06, hsr=.004, weights=dict(burst=14), readers=.4, parks=.5, kinds=[0, 8, 2], rops=(10, 100), **TIGHT)),
                    ('parkall', 16, 300, dict(ops=300, race=.02, hsr=.004, weights=dict(burst=20), readers=.4, parks=.5, **TIGHT))],
            'random histories in a small database, with parked readers of several processes or threads and writers in need of their pages')
multi_check('C27', [('reg', 30, 700, dict(ops=300, registry=.12, fill=.04, kill=.02, killin=.03, race=.01, readers=.4, nst=2)),
                    ('regfull', 16, 400, dict(ops=300, registry=.12, fill=.05, kill=.03, killin=.02, maxr=6, full=1, readers=.5)),
                    ('regspace', 20, 400, dict(ops=300, registry=.1, fill=.03, kill=.03, hsr=.03, weights=dict(burst=20), readers=.35, parks=.2, **TIGHT)),
                    ('regthr', 16, 300, dict(ops=250, threads=1, nst=2, registry=.12, race=.03, readers=.4))],
            'random histories of several processes or threads with readers that end or die, looking at the registry')
multi_check('C28', [('modes', 40, 900, dict(ops=250, probe=.06, close=.05, ro=.3, kill=.008, killin=.01, exit=.004, quiet=.02, hash=.02, race=.005, modes=[0, NOMETASYNC, SAFENOSYNC])),
                    ('modesmap', 20, 400, dict(ops=250, probe=.06, close=.05, ro=.3, kill=.008, killin=.01, quiet=.02, hash=.02, race=.005, wm=1.0, modes=[0, NOMETASYNC, SAFENOSYNC])),
                    ('quiet', 16, 300, dict(ops=300, probe=.02, close=.02, ro=.5, quiet=.06, hash=.04, readers=.3))],
            'random histories of several processes opening and closing one database in all modes, and digests of the file around read-only use')
TECHNIQUE, LEVEL_NOTE, NOT_APPLICABLE = {}, {}, {}
for x in 'C03 C04 C19 C27 C28'.split():
    TECHNIQUE[x] = 'trace validation: histories of up to three processes or threads on one database (killed at random moments, racing, opening in all modes) are checked event by event by TLC against spec/MdbxMulti.tla'
    LEVEL_NOTE[x] = 'Each history is decided completely; histories, moments of death and interleavings of simultaneous calls are a sample (real processes and threads under the scheduler of the system).'
TECHNIQUE['C05'] = TECHNIQUE['C06'] = 'trace validation with crash images: the library runs on simulated storage, files with random subsets of unflushed writes surviving are opened at random moments of random histories, and TLC checks history and found states against spec/MdbxCrash.tla'
LEVEL_NOTE['C05'] = ('Each history and each explored image is decided completely; histories, crash moments and surviving subsets are a seeded sample. Storage model: 512-byte sectors are atomic, fdatasync/msync/fsync/O_DSYNC writes make durable what they cover, memory-mapped stores are found by comparing at storage calls.')
LEVEL_NOTE['C06'] = LEVEL_NOTE['C05'] + ' MDBX_UTTERLY_NOSYNC is documented to lose consistency at power loss and is only checked for kills of the process.'
SMALL = dict(K=8, V=5, ops=150, endp=0.2)
TREE = dict(K=60, V=12, ps=256, ops=400, endp=0.08)
BURST = dict(burst=8)
crash_check('C05', [('dur', 40, 800, dict(modes=[0], txflags=0.0, writemap=0, **SMALL)),
                    ('durmap', 24, 400, dict(writemap=1.0, modes=[WRITEMAP], txflags=0.0, **SMALL)),
                    ('durtree', 20, 500, dict(modes=[0], txflags=0.0, weights=BURST, readers=0.1, **TREE)),
                    ('durtreemap', 10, 300, dict(writemap=1.0, modes=[WRITEMAP], txflags=0.0, weights=BURST, readers=0.1, **TREE)),
                    ('durspill', 8, 200, dict(modes=[0], txflags=0.1, opts=spill_opts([64, 80]), weights=dict(burst=12), K=100, V=12, ps=256, ops=500, endp=0.05, nested=0.01)),
                    ('durfull', 8, 200, dict(modes=[0], txflags=0.0, K=150, V=40, ps=256, ops=300, full=1, geo=(256 * 220, 256 * 220, 256 * 220, 0, 0)))],
            'random histories in durable mode on simulated storage, power lost at random moments with random subsets of the unflushed sectors surviving')
crash_check('C06', [('nometa', 30, 600, dict(modes=[NOMETASYNC], **SMALL)),
                    ('safe', 24, 500, dict(modes=[SAFENOSYNC], **SMALL)),
                    ('lazymap', 20, 400, dict(writemap=1.0, modes=[WRITEMAP | NOMETASYNC, WRITEMAP | SAFENOSYNC], **SMALL)),
                    ('mixed', 20, 400, dict(modes=SYNCMODES, txflags=0.5, chkpt=0.3, reopen=0.2, nested=0.02, abort=0.1, **SMALL)),
                    ('lazytree', 16, 400, dict(modes=[NOMETASYNC, SAFENOSYNC], weights=BURST, readers=0.1, **TREE)),
                    ('lazytreemap', 10, 200, dict(writemap=1.0, modes=[WRITEMAP | NOMETASYNC, WRITEMAP | SAFENOSYNC], weights=BURST, **TREE))],
            'random histories in the sync modes on simulated storage, power lost or process ended at random moments with random subsets of the unflushed sectors surviving')
FGROW = dict(K=100, V=60, ps=256, ops=500, endp=.08, farm=.4, kinds=[0, 8, 4, 20], geo=(4096, -1, 8 << 20, 4096, 4096), arms=.02, fm=[4, 4, 8, 8, 12, 15, 1, 2], readers=.1, weights=dict(burst=15, put=10, delete=20, drop=3))
FSMALL = dict(K=8, V=5, ops=220, endp=.25, farm=.6)
crash_check('C07', [('flt', 40, 1000, dict(modes=[0], txflags=.1, **FSMALL)),
                    ('fltmap', 30, 600, dict(writemap=1.0, modes=[WRITEMAP, WRITEMAP | NOMETASYNC, WRITEMAP | SAFENOSYNC], **FSMALL)),
                    ('fltlazy', 20, 400, dict(modes=[NOMETASYNC, SAFENOSYNC], **FSMALL)),
                    ('fltgrow', 24, 600, dict(modes=[0, 0, SAFENOSYNC], **FGROW)),
                    ('fltgrowmap', 12, 300, dict(writemap=1.0, modes=[WRITEMAP], **FGROW)),
                    ('fltspill', 12, 300, dict(modes=[0], K=100, V=12, ps=256, ops=500, endp=.05, arms=.015, farm=.4, opts=spill_opts([64, 80]), weights=dict(burst=12), nested=.01))],
            'random histories on simulated storage in which chosen storage calls fail', cls='Fault', module='MdbxFault')
TECHNIQUE['C07'] = 'trace validation with fault injection: random histories on simulated storage with failing or short writes, flushes, resizes and mappings; what is reported and what is found after (continued use, reopening, death of the process) is checked by TLC against spec/MdbxFault.tla'
LEVEL_NOTE['C07'] = 'Each history is decided completely; histories and failing calls are a seeded sample (a fault hits one or several consecutive calls of the chosen kinds). Failing memory allocation is not covered.'
TECHNIQUE['C08'] = 'trace validation with page sets: an independent reader of the file format records after every API call which pages changed, which pages each new committed state and its free list hold, and what losing power at that moment would leave; TLC checks these together with the calls against spec/MdbxPages.tla'
LEVEL_NOTE['C08'] = 'Every page write of every explored history is decided (the file is compared after each call and before each flush, on simulated storage); histories are a seeded sample, with all readers in one process. Pages rewritten with identical content are not noticed.'
LEVEL_NOTE['C23'] = 'Each history and each copy made in it is decided completely (content, counters, integrity check, further use of the copy); histories and the moments at which commits happen while a copy is being drained are a sample.'
LEVEL_NOTE['C30'] = 'Each history is decided completely; histories and the interleavings of racing threads are a sample.'
TECHNIQUE['C22'] = 'trace validation: random histories with changes of the geometry at any moment (in nested transactions, beside readers, on simulated storage too), growth to the limit and mass deletion; every event carries the committed and the transactions\' geometry and the size of the file, checked by TLC against spec/MdbxGeo.tla'
LEVEL_NOTE['C22'] = 'Each history is decided completely: the exact result of each change of the geometry, growth steps, the limits, what the file has to hold for the committed states and live readers, the content. Histories are a seeded sample; when and how far the library chooses to shrink is left open, and so is a refusal because the mapping can not be moved beside readers or a transaction. Sizes stay below a few megabytes; readers live in one process.'
LEVEL_NOTE['C24'] = 'Each history is decided completely; histories, limits and moments are a seeded sample. A failing allocation of memory during defragmentation is not covered.'
LEVEL_NOTE['C09'] = 'Each history is decided completely by the conservation law and the integrity check of the library; histories are a seeded sample. Boundedness is decided as reuse of free pages in a full database of fixed size.'
