"""Random scripts for the driver.  The generator keeps only what it needs to
issue meaningful calls; the outcome of every call is decided by the
specification."""
import random

RDONLY, TRY, PREP = 0x20000, 0x10000000, 0x1000000
NOOVER, NODUP, CURRENT, ALLDUPS, RESERVE, APPEND, APPENDDUP = 16, 32, 64, 128, 65536, 131072, 262144
CREATE, ACCEDE = 0x40000, 0x40000000
DUPSORT, INTKEY, DUPFIXED, INTDUP, REVKEY, REVDUP = 4, 8, 16, 32, 2, 64
NOSTICKY, WRITEMAP, NOMETASYNC, SAFENOSYNC, LIFO, NOMEMINIT, EXCL = 0x200000, 0x80000, 0x40000, 0x10000, 0x4000000, 0x1000000, 0x400000
MAXRANK = {(0): 400}

class Tbl:
    def __init__(s, n, flags, ks, vs, K, V):
        s.n, s.flags, s.ks, s.vs, s.K, s.V = n, flags, ks, vs, K, V
        s.dup = bool(flags & DUPSORT)

class Gen:
    def __init__(self, seed, **p):
        self.r = random.Random(seed)
        self.p = dict(ps=None, K=None, V=None, tables=None, ntab=(1, 2), dupprob=0.5, nested=0.0, readers=0.1, cursors=0.3, envflags=0, opts=(), geo=None,
                      ops=400, writemap=0.1, maindb=0.1, weights={}, nosync=True, dumps=0.02, chk=0.01, abort=0.15, ncur=6, single=False, full=0, checkpoints=0.0,
                      kinds=None, reopen=0.0, nst=1, modes=None, burst=0.25)
        self.p.update(p)
        self.s = []
        self.setup()

    def o(self, *a):
        self.s.append('0 ' + ' '.join(str(x) for x in a))

    def pick_table(self, n):
        r = self.r
        kind = r.choice(self.p['kinds']) if self.p['kinds'] else None
        if kind is None:
            dup = r.random() < self.p['dupprob']
            fl = 0
            if r.random() < 0.2: fl |= INTKEY
            elif r.random() < 0.15: fl |= REVKEY
            if dup:
                fl |= DUPSORT
                x = r.random()
                if x < 0.25: fl |= DUPFIXED
                elif x < 0.4: fl |= DUPFIXED | INTDUP
                elif x < 0.5: fl |= INTDUP | DUPFIXED
                if not fl & INTDUP and r.random() < 0.15: fl |= REVDUP
        else:
            fl = kind
        dup = fl & DUPSORT
        if fl & INTDUP: fl |= DUPFIXED
        ks = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]) if not fl & INTKEY else r.choice([0, 1, 2, 3])
        if dup:
            vs = r.choice([0, 1, 2, 3, 5, 6, 7, 8, 9]) if not fl & DUPFIXED else r.choice([0, 1, 2, 3, 4, 5, 6, 7] if not fl & INTDUP else [0, 1, 2, 3])
        else:
            vs = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])
        return Tbl(n, fl, ks, vs, self.K, self.V)

    def setup(self):
        r, p = self.r, self.p
        self.ps = p['ps'] or r.choice([256, 256, 256, 256, 512, 512, 1024, 4096])
        self.K = p['K'] or r.choice([6, 12, 30, 60, 120, 200])
        self.V = p['V'] or r.choice([6, 12, 25, 60])
        if self.K >= 120: self.V = min(self.V, 25)
        self.nt, self.nd, self.nc = 8, 8, p['ncur'] + 2
        wm = r.random() < p['writemap']
        self.wm = wm
        ef = p['envflags'] | (NOSTICKY if p['nst'] else 0)
        if wm: ef |= WRITEMAP
        if p['modes'] is not None: ef |= r.choice(p['modes'])
        elif p['nosync']: ef |= SAFENOSYNC
        self.wm = wm = bool(ef & WRITEMAP)
        if r.random() < 0.3: ef |= LIFO
        if r.random() < 0.2: ef |= NOMEMINIT
        self.ef = ef
        self.o('ecreate')
        self.o('eopt', 'max_db', 16)
        geo = p['geo'] or (-1, -1, 64 << 20, r.choice([-1, 1 << 16, 1 << 20]), r.choice([-1, 0, 1 << 16]))
        self.o('egeo', *geo, self.ps)
        self.o('eopen', ef)
        opts = p['opts']
        if callable(opts): opts = opts(r)
        self.opts = list(opts)
        for n, x in self.opts: self.o('eopt', n, x)
        if p['tables']: self.tabs = [Tbl(i[0], i[1], i[2], i[3], self.K, self.V) for i in p['tables']]
        elif r.random() < p['maindb']:
            self.tabs = [self.pick_table(0)]
        else:
            names = r.sample(range(1, 10), 9)
            self.tabs = [self.pick_table(names[i]) for i in range(r.randint(*p['ntab']))]
        self.txs = []          # stack of write transactions (slots)
        self.rd = {}           # reader slot -> state
        self.cur = {}          # cursor slot -> (owner txn slot, table idx)
        self.shadow = {}       # approximate content: table idx -> {k: set(v)}
        for i in range(len(self.tabs)): self.shadow[i] = {}
        self.saved = []
        self.ops_done = 0
        self.begin()
        for i, t in enumerate(self.tabs):
            self.o('dopen', self.txs[-1], i, t.n, t.flags | CREATE, t.ks, t.vs)
        self.o('commit', self.txs.pop())

    # ---- helpers
    def slot(self):
        used = set(self.txs) | set(self.rd)
        for i in range(self.nt):
            if i not in used: return i
        return None
    def begin(self, parent=-1):
        t = self.slot()
        if t is None: return
        f = 0
        self.o('begin', t, parent, f)
        self.txs.append(t)
        import copy
        self.saved.append(copy.deepcopy(self.shadow))
    def drop_cursors(self, ts):
        for c in [c for c, (t, d) in self.cur.items() if t in ts]: self.cur.pop(c); self.unb.add(c) if hasattr(self, 'unb') else None
    def end(self, commit):
        t = self.txs.pop()
        self.o('commit' if commit else 'abort', t)
        sv = self.saved.pop()
        if not commit: self.shadow = sv
        for c in [c for c, (tt, d) in self.cur.items() if tt == t]:
            self.o('cclose', c)
            del self.cur[c]
    def w(self):
        return self.txs[-1] if self.txs else None
    def key(self, t):
        r = self.r
        x = r.random()
        if x < 0.25: self.base = r.randint(1, t.K)
        b = getattr(self, 'base', 1)
        if x < 0.6: return min(t.K, max(1, b + r.randint(-3, 3)))
        return r.randint(1, t.K)
    def val(self, t):
        r = self.r
        if t.dup and r.random() < 0.4:
            b = getattr(self, 'vbase', 1)
            if r.random() < 0.3: self.vbase = r.randint(1, t.V)
            return min(t.V, max(1, b + r.randint(-2, 2)))
        return r.randint(1, t.V)
    def some_key(self, i):
        """a key likely to be present"""
        s = self.shadow[i]
        if s and self.r.random() < 0.75: return self.r.choice(list(s))
        return self.key(self.tabs[i])
    def some_val(self, i, k):
        s = self.shadow[i].get(k)
        if s and self.r.random() < 0.75: return self.r.choice(list(s))
        return self.val(self.tabs[i])
    def note_put(self, i, k, v):
        if self.tabs[i].dup: self.shadow[i].setdefault(k, set()).add(v)
        else: self.shadow[i][k] = {v}
    def note_del(self, i, k, v=0):
        s = self.shadow[i]
        if k in s:
            if v and self.tabs[i].dup:
                s[k].discard(v)
                if not s[k]: del s[k]
            else: del s[k]

    # ---- single operations
    def op_put(self, t, i):
        T, r = self.tabs[i], self.r
        k, v = self.key(T), self.val(T)
        x = r.random()
        f = 0
        if x < 0.12: f = NOOVER
        elif x < 0.2: f = RESERVE
        elif x < 0.26: f = CURRENT; k = self.some_key(i)
        elif x < 0.33: f = APPEND; k = max(self.shadow[i]) + r.randint(0, 2) if self.shadow[i] else k
        elif x < 0.40 and T.dup: f = NODUP
        elif x < 0.46 and T.dup: f = ALLDUPS; k = self.some_key(i)
        elif x < 0.52 and T.dup: f = APPENDDUP; k = self.some_key(i)
        elif x < 0.55 and T.dup: f = r.choice([CURRENT | ALLDUPS, CURRENT | NOOVER, NOOVER | NODUP, CURRENT | NODUP])
        elif x < 0.57: f = NOOVER | RESERVE if not T.dup else 0
        k = min(k, T.K)
        self.o('put', t, i, k, v, f)
        if f in (0, RESERVE, NODUP, APPENDDUP): self.note_put(i, k, v)
    def op_del(self, t, i):
        T, r = self.tabs[i], self.r
        k = self.some_key(i)
        v = 0
        if r.random() < (0.75 if T.dup else 0.1): v = self.some_val(i, k)
        self.o('del', t, i, k, v)
        self.note_del(i, k, v)
    def op_replace(self, t, i):
        T, r = self.tabs[i], self.r
        k = self.some_key(i)
        v, ov, f = self.val(T), 0, 0
        x = r.random()
        if x < 0.2: v, f = 0, CURRENT
        elif x < 0.35: f = CURRENT
        elif x < 0.5: f = NOOVER
        elif x < 0.75 and T.dup: f = CURRENT | NOOVER; ov = self.some_val(i, k); v = r.choice([0, v, v])
        elif x < 0.8: f = NODUP if T.dup else 0
        if T.dup and f == NODUP: f = 0
        self.o('replace', t, i, k, v, ov, f)
        if v and f in (0, CURRENT): self.note_put(i, k, v)
        elif not v and f == CURRENT: self.note_del(i, k)
        elif ov:
            self.note_del(i, k, ov)
            if v: self.note_put(i, k, v)
    def op_get(self, t, i):
        T, r = self.tabs[i], self.r
        k = self.some_key(i) if r.random() < 0.6 else self.key(T)
        x = r.random()
        if x < 0.35: self.o('get', t, i, k, 0)
        elif x < 0.65: self.o('getex', t, i, k, 0)
        else: self.o('getge', t, i, k, self.some_val(i, k) if T.dup and r.random() < 0.6 else 0)
    def op_burst(self, t, i):
        """runs of inserts or deletes that grow and shrink the tree"""
        T, r = self.tabs[i], self.r
        n = r.randint(5, min(60, T.K))
        a = r.randint(1, T.K)
        mode = r.choice(['asc', 'desc', 'rand', 'append', 'delasc', 'deldesc', 'delrand', 'dups', 'deldups', 'dupasc'] if T.dup else ['asc', 'desc', 'rand', 'append', 'delasc', 'deldesc', 'delrand'])
        if mode in ('dups', 'dupasc', 'deldups'):
            k = self.some_key(i)
            vs = [r.randint(1, T.V) for _ in range(n)] if mode != 'dupasc' else list(range(r.randint(1, T.V), T.V + 1))[:n]
            for v in vs:
                if mode == 'deldups': self.o('del', t, i, k, v); self.note_del(i, k, v)
                else: self.o('put', t, i, k, v, 0); self.note_put(i, k, v)
            return
        ks = [((a + j - 1) % T.K) + 1 for j in range(n)]
        if mode in ('desc', 'deldesc'): ks.reverse()
        if mode in ('rand', 'delrand'): r.shuffle(ks)
        if mode == 'append':
            m = max(self.shadow[i]) if self.shadow[i] else 0
            ks = list(range(m + 1, min(T.K, m + n) + 1))
        for k in ks:
            if mode.startswith('del'):
                self.o('del', t, i, k, 0); self.note_del(i, k)
            else:
                v = self.val(T)
                self.o('put', t, i, k, v, APPEND if mode == 'append' else 0); self.note_put(i, k, v)
    def op_copen(self, t, i):
        free = [c for c in range(self.p['ncur']) if c not in self.cur]
        if not free: return
        c = self.r.choice(free)
        self.o('copen', c, t, i)
        self.cur[c] = (t, i)
    def my_cursors(self, t):
        """cursors usable in transaction t"""
        anc = set(self.txs) if t in self.txs else {t}
        return [c for c, (tt, d) in self.cur.items() if tt in anc]
    def op_cread(self, t, i, c=None):
        r = self.r
        cs = self.my_cursors(t)
        if not cs: return self.op_copen(t, i)
        c = r.choice(cs)
        i = self.cur[c][1]
        T = self.tabs[i]
        x = r.random()
        if x < 0.62:
            op = r.choice([0, 1, 4, 4, 6, 7, 8, 8, 8, 8, 9, 11, 11, 12, 12, 12, 12, 13, 14, 14])
            if not T.dup and op in (1, 7): op = 8
            for _ in range(r.choice([1, 1, 1, 2, 4])): self.o('cget', c, op, 0, 0)
        elif x < 0.97:
            op = r.choice([15, 16, 17, 17, 19, 20] + list(range(21, 26)) + ([2, 2, 3, 3, 19, 20] + list(range(26, 36)) if T.dup else []))
            k = self.some_key(i)
            v = self.some_val(i, k) if (op in (2, 3, 19, 20) or op >= 26) and T.dup else 0
            self.o('cget', c, op, k, v)
        elif T.flags & DUPFIXED:
            op = r.choice([5, 10, 18, 36])
            self.o('cget', c, op, self.some_key(i) if op == 36 else 0, 0)
        else: self.o('ccount', c)
        if r.random() < 0.25: self.o('ceof', c)
        if r.random() < 0.1: self.o('ccount', c)
    def op_cmod(self, t, i):
        r = self.r
        cs = self.my_cursors(t)
        if not cs: return self.op_copen(t, i)
        c = r.choice(cs)
        i = self.cur[c][1]
        T = self.tabs[i]
        x = r.random()
        if x < 0.45:
            k, v = self.key(T), self.val(T)
            f = r.choice([0, 0, 0, 0, NOOVER, RESERVE if not T.dup else NODUP, APPEND if r.random() < .4 else 0] + ([APPENDDUP, ALLDUPS, NODUP] if T.dup else []))
            self.o('cput', c, k, v, f)
            if f in (0, RESERVE): self.note_put(i, k, v)
        elif x < 0.6:
            k = self.some_key(i)
            self.o('cget', c, 16, k, 0)
            self.o('cget', c, 4, 0, 0)
            if T.dup and r.random() < 0.6: self.o('cget', c, r.choice([8, 9, 7, 1]), 0, 0); self.o('cget', c, 4, 0, 0)
            self.o('cput', c, k if r.random() < 0.9 else self.key(T), self.val(T), CURRENT | (ALLDUPS if T.dup and r.random() < 0.2 else 0))
            self.o('cget', c, 4, 0, 0)
        elif x < 0.92:
            if r.random() < 0.5: self.o('cget', c, r.choice([15, 17]), self.some_key(i), 0)
            self.o('cdel', c, ALLDUPS if T.dup and r.random() < 0.2 else 0, r.choice([0, 1]))
            for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
                self.o('cget', c, r.choice([4, 8, 8, 12]), 0, 0)
                if r.random() < 0.5: self.o('cdel', c, 0, r.choice([0, 1]))
        elif T.flags & DUPFIXED:
            k = self.some_key(i)
            self.o('putm', c, k, r.choice([0, 0, 0, NODUP]), *[self.val(T) for _ in range(r.randint(1, 12))])
        else:
            self.o('cput', c, self.key(T), self.val(T), 0)
    def op_cmisc(self, t, i):
        r = self.r
        cs = self.my_cursors(t)
        if not cs: return self.op_copen(t, i)
        c = r.choice(cs)
        x = r.random()
        if x < 0.4 and len(cs) > 1:
            c2 = r.choice([q for q in cs if q != c])
            if self.cur[c][0] == t and self.cur[c2][0] == t:
                self.o('ccopy', c, c2)
                self.cur[c2] = (t, self.cur[c][1])
        elif x < 0.7:
            self.o('creset', c)
        elif self.cur[c][0] == t:
            self.o('cclose', c)
            del self.cur[c]
    def op_seqcan(self, t, i):
        r = self.r
        x = r.random()
        if x < 0.5: self.o('seq', t, i, r.choice([0, 1, 1, 2, 5, 100]))
        elif x < 0.75: self.o('canput', t, 1 if r.random() < 0.2 else 0, r.randint(0, 99), r.randint(0, 99), r.randint(0, 99))
        else: self.o('canget', t)
    def op_drop(self, t, i):
        self.o('drop', t, i, 0)
        self.shadow[i] = {}

    # ---- ranges
    def seek(self, c, i):
        """put a cursor somewhere"""
        r, T = self.r, self.tabs[i]
        x = r.random()
        if x < 0.1: self.o('cget', c, 0, 0, 0)
        elif x < 0.2: self.o('cget', c, 6, 0, 0)
        elif x < 0.3: self.o('cget', c, 17, self.key(T), 0)
        else:
            k = self.some_key(i)
            if T.dup and r.random() < 0.75: self.o('cget', c, r.choice([19, 3, 34]), k, self.some_val(i, k))
            else: self.o('cget', c, 17, k, 0)
    def range_cursors(self, t, n):
        """n cursors on the same table, opened as needed"""
        r = self.r
        cs = [c for c in self.my_cursors(t)]
        if not cs: self.op_copen(t, r.randrange(len(self.tabs))); cs = self.my_cursors(t)
        if not cs: return None, []
        i = self.cur[r.choice(cs)][1]
        cs = [c for c in cs if self.cur[c][1] == i]
        while len(cs) < n:
            free = [c for c in range(self.p['ncur']) if c not in self.cur]
            if not free: return i, cs
            self.o('copen', free[0], t, i); self.cur[free[0]] = (t, i); cs.append(free[0])
        r.shuffle(cs)
        return i, cs
    def two(self, t):
        i, cs = self.range_cursors(t, 2)
        if len(cs) < 2: return None
        c, c2 = cs[:2]
        self.seek(c, i); self.seek(c2, i)
        x = self.r.random()
        if x < 0.1: c = -1
        elif x < 0.2: c2 = -1
        return i, c, c2
    def deep(self):
        return 42 if self.r.random() < 0.85 else self.r.randint(0, 3)
    def op_cdelr(self, t, i):
        w = self.two(t)
        if not w: return
        i, c, c2 = w
        # most ranges are ordered
        self.o('cdelr', c, c2, 1 if c2 < 0 else self.r.choice([0, 1]))
        for x in (c, c2):
            if x >= 0 and self.r.random() < 0.3: self.o('cget', x, 4, 0, 0)
        self.o('dump', t, i)
    def op_cbunch(self, t, i):
        i, cs = self.range_cursors(t, 1)
        if not cs: return
        c = cs[0]
        self.seek(c, i)
        self.o('cbunch', c, self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
        if self.r.random() < 0.3: self.o('cget', c, 4, 0, 0)
        self.o('dump', t, i)
    def op_cdist(self, t, i):
        w = self.two(t)
        if not w: return
        i, c, c2 = w
        self.o('cdist', c, c2, self.deep())
        if c >= 0 and c2 >= 0:
            if self.r.random() < 0.5: self.o('ccmp', c, c2, self.r.choice([0, 1]))
            if self.r.random() < 0.3: self.o('cdist', c2, c, 42)
            if self.r.random() < 0.2: self.o('estm', c, c2)
    def op_cscroll(self, t, i):
        i, cs = self.range_cursors(t, 1)
        if not cs: return
        c = cs[0]; r = self.r
        self.seek(c, i)
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice([1, -1, 2, -2, 3, -3, 5, -5, r.randint(-40, 40), r.randint(-400, 400)])
            self.o('cscroll', c, n, self.deep()); self.o('cget', c, 4, 0, 0)
        if r.random() < 0.4: self.o('cget', c, r.choice([8, 12, 11, 14]), 0, 0)
    def op_cdistr(self, t, i):
        i, cs = self.range_cursors(t, 4)
        r = self.r
        base = r.randrange(self.p['ncur'])
        n = 0
        while base + n in self.cur and self.cur[base + n] == self.cur.get(base) and n < 5: n += 1
        n = r.randint(1, n) if n > 0 else 0
        rest = [c for c in cs if c < base or c >= base + n]
        if not n or not rest or self.cur[base][1] != i: return
        c = rest[0]; c2 = rest[1] if len(rest) > 1 else -1
        self.seek(c, i)
        if c2 >= 0: self.seek(c2, i)
        if r.random() < 0.2: c, c2 = -1, c
        self.o('cdistr', c, c2, base, n, self.deep())
        for j in range(base, base + n):
            if r.random() < 0.3: self.o('cget', j, r.choice([4, 4, 8, 12]), 0, 0)
    def op_cscan(self, t, i):
        i, cs = self.range_cursors(t, 1)
        if not cs: return
        c = cs[0]; r = self.r; T = self.tabs[i]
        pk, pv = r.choice([0, self.key(T)]), r.choice([0, 0, self.val(T)])
        tn = r.choice([8, 8, 11, 12, 12, 14] + ([9, 13] if T.dup else []))
        if r.random() < 0.5:
            s = r.choice([0, 6, 4, 4])
            self.seek(c, i); self.o('cscan', c, s, tn, pk, pv)
        else:
            k = self.some_key(i); v = self.some_val(i, k) if T.dup else 0
            s = r.choice([16, 19, 20, 21, 22, 23, 24, 25] + ([3, 2, 19, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35] if T.dup else []))
            self.o('cscanf', c, s, tn, k, v if s in (2, 3, 19, 20) or s >= 26 else 0, pk, pv)
        self.o('cget', c, 4, 0, 0)
    def op_batch(self, t, i):
        i, cs = self.range_cursors(t, 1)
        if not cs: return
        c = cs[0]; r = self.r
        if r.random() < 0.6: self.o('creset', c)
        else: self.seek(c, i)
        for j in range(r.randint(1, 4)):
            self.o('batch', c, 0 if j == 0 and r.random() < 0.7 else 8, r.choice([4, 6, 8, 20, 60, 400]))

    W = dict(put=30, delete=14, get=14, replace=4, burst=3, cread=25, cmod=12, cmisc=2, copen=3, seqcan=1, drop=0.3, dump=1, stat=1)
    def step(self):
        r, p = self.r, self.p
        x = r.random()
        # transaction structure
        if not self.txs:
            if self.rd and r.random() < 0.35: return self.reader_step()
            if p['readers'] and r.random() < p['readers'] and len(self.rd) < 4: return self.begin_reader()
            if r.random() < p['reopen'] and not self.rd: return self.reopen()
            if r.random() < p.get('room', 0): return self.room()
            self.begin()
            return
        if x < p['nested'] and len(self.txs) < 4 and not self.wm: return self.begin(self.txs[-1])
        if x > 1 - (p.get('endp', 0.02) if len(self.txs) == 1 else max(0.06, p.get('endp', 0))):
            self.end(r.random() > p['abort'])
            if not self.txs and r.random() < p['chk'] * 10: self.o('chk')
            return
        if self.rd and r.random() < 0.08: return self.reader_step()
        if p['readers'] and r.random() < p['readers'] * 0.1 and len(self.rd) < 3: return self.begin_reader()
        t = self.w()
        i = r.randrange(len(self.tabs))
        wts = dict(self.W); wts.update(p['weights'])
        names = list(wts)
        a = r.choices(names, [wts[n] for n in names])[0]
        if a == 'put': self.op_put(t, i)
        elif a == 'delete': self.op_del(t, i)
        elif a == 'get': self.op_get(t, i)
        elif a == 'replace': self.op_replace(t, i)
        elif a == 'burst': self.op_burst(t, i)
        elif a == 'cread': self.op_cread(t, i)
        elif a == 'cmod': self.op_cmod(t, i)
        elif a == 'cmisc': self.op_cmisc(t, i)
        elif a == 'copen': self.op_copen(t, i)
        elif a == 'seqcan': self.op_seqcan(t, i)
        elif a == 'drop': self.op_drop(t, i)
        elif a == 'dump': self.o('dump', t, i)
        elif a == 'stat':
            x = self.r.random()
            if x < .35: self.o('estat', t)
            elif x < .7: self.o('gcinfo', t, self.r.choice([-1, 0, 0, 0, 1, 2, 5]))
            else: self.o('dstat', t, i)
        else: getattr(self, 'op_' + a)(t, i)
    def room(self):
        t = self.slot()
        if t is None: return
        self.o('begin', t, -1, RDONLY); self.o('gcinfo', t, 0); self.o('abort', t)
        self.begin()
        if self.txs:
            self.op_del(self.w(), self.r.randrange(len(self.tabs)))
            if self.r.random() < .6: self.end(True)
    def begin_reader(self):
        t = self.slot()
        if t is None: return
        self.o('begin', t, -1, RDONLY)
        self.rd[t] = 'ro'
    def reader_step(self):
        r = self.r
        t = r.choice(list(self.rd))
        i = r.randrange(len(self.tabs))
        x = r.random()
        if x < 0.12:
            for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
            self.o(r.choice(['abort', 'commit']), t); del self.rd[t]
        elif x < 0.2:
            for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
            self.o(r.choice(['renew', 'refresh']), t)
        elif x < 0.5: self.op_get(t, i)
        elif x < 0.85: self.op_cread(t, i)
        else: self.o('dump', t, i)
    def reopen(self):
        for c in list(self.cur): self.o('cclose', c); del self.cur[c]
        self.o('eclose', 0)
        self.o('ecreate'); self.o('eopt', 'max_db', 16); self.o('eopen', self.ef)
        for n, x in self.opts: self.o('eopt', n, x)
        t = self.slot()
        self.o('begin', t, -1, RDONLY)
        for i, T in enumerate(self.tabs): self.o('dopen', t, i, T.n, T.flags, T.ks, T.vs)
        self.o('commit', t)
    def finish(self):
        while self.txs: self.end(True)
        for t in list(self.rd):
            for i in range(len(self.tabs)): self.o('dump', t, i)
            for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
            self.o('abort', t)
        t = 0
        self.rd.clear()
        self.o('begin', t, -1, RDONLY)
        for i in range(len(self.tabs)): self.o('dump', t, i); self.o('dstat', t, i); self.o('seq', t, i, 0)
        self.o('estat', t)
        self.o('gcinfo', t, 0)
        self.o('canget', t)
        self.o('abort', t)
        self.o('chk')
        self.o('eclose', 0)
        self.o('chkro')
    def run(self):
        while len(self.s) < self.p['ops']: self.step()
        self.finish()
        return self.s
    def params(self):
        return dict(K=self.K, V=self.V, T=self.nt, D=self.nd, C=self.nc, E=1, nst=self.p['nst'], full=self.p['full'], oust=0, bump=1, fault=0, wm=1 if self.wm else 0, id=0)

class Cache(Gen):
    """Lookups through cache entries, each used for one key of one table, shared
    by readers of different age and the writer."""
    def setup(self):
        self.ce = []
        super().setup()
        r = self.r
        for j in range(self.p.get('nce', 14)):
            i = r.randrange(len(self.tabs))
            self.ce.append((i, r.randint(1, self.tabs[i].K)))
        self.ce_new = set(range(len(self.ce)))
    def key(self, t):
        r = self.r
        if self.ce and r.random() < .4:
            ks = [k for i, k in self.ce if self.tabs[i] is t]
            if ks: return min(t.K, max(1, r.choice(ks) + r.choice([0, 0, 0, -1, 1, 2])))
        return super().key(t)
    def look(self, t, n=None):
        r = self.r
        for _ in range(n or r.choice([1, 1, 1, 2, 3, 6])):
            ce = r.randrange(len(self.ce))
            if r.random() < .01: self.o('cacheinit', ce)
            i, k = self.ce[ce]
            for _ in range(r.choice([1, 1, 2])): self.o('cache', t, i, k, ce, self.r.choice([0, 0, 1]))
    def op_cache(self, t, i): self.look(t)
    def op_cachex(self, t, i):
        """several readers of different age race"""
        r = self.r
        if len(self.txs) > 1: return
        ts = [x for x in self.rd]
        if len(ts) < 2: return
        i, k = r.choice(self.ce)
        self.o('cachex', i, k, r.choice([200, 1000]), *r.sample(ts, min(len(ts), r.choice([2, 3, 4]))))
    def op_recreate(self, t, i):
        T, r = self.tabs[i], self.r
        if T.n == 0: return
        for c in [c for c, (x, d) in self.cur.items() if d == i]: self.o('cclose', c); del self.cur[c]
        self.o('drop', t, i, 1)
        if r.random() < .4: self.o('dopen', t, i, T.n, T.flags | CREATE, T.ks, T.vs); self.o('drop', t, i, 1)
        if r.random() < .5: self.look(t)
        self.shadow[i] = {}
        self.o('dopen', t, i, T.n, T.flags | CREATE, T.ks, T.vs)
    def end(self, commit):
        if self.rd and self.r.random() < .05: self.op_cachex(None, 0)
        super().end(commit)
        if self.r.random() < .5 and self.rd:
            for t in self.rd:
                if self.r.random() < .6: self.look(t)
        if self.txs and self.r.random() < .5: self.look(self.txs[-1])
    def begin_reader(self):
        n = len(self.rd)
        super().begin_reader()
        if len(self.rd) > n and self.r.random() < .8: self.look(list(self.rd)[-1], self.r.randint(1, 8))
    def reader_step(self):
        if self.rd and self.r.random() < .6:
            t = self.r.choice(list(self.rd))
            return self.look(t) if self.r.random() < .85 else self.op_cachex(None, 0)
        super().reader_step()
    def params(self):
        return dict(super().params(), E=len(self.ce))

class Defrag(Gen):
    """Fragmentation by updates and deletions, defragmentation with all kinds of
    limits, alone or within a write transaction, with readers or without."""
    def dfg(self, t):
        r = self.r
        al = r.choice([0, 0, 0, 1, 5, 50]); en = r.choice([0, 0, 0, 2, 10, 100])
        tal, tl = r.choice([(0, 0)] * 5 + [(1, 100), (0, 1), (0, 3000), (50, 3), (300, 3000)])
        io = r.choice([0] * 9 + [2, 4]) if self.p.get('cpio', 1) else 0      # the kernel fails or copies a part only
        if io: self.o('cpio', io)
        self.o('defrag', t, al, tal, en, tl, r.choice([-1, -1, 0, 0, 1, 3, 10]), r.choice([0, 0, 0, 1, 2, 8, 32]), *r.choice([(0, 0)] * 3 + [(1, 0), (2, 0), (2, 1), (2, 3), (3, 0), (3, 2), (2, 10), (3, 10)]))
        if io: self.o('cpio', 0)
    def op_defrag(self, t, i):
        if len(self.txs) != 1 and self.r.random() < .8: return
        self.dfg(t)
        if len(self.txs) == 1:
            for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
        if self.r.random() < .7: self.o('dump', t, i)
    def end(self, commit):
        super().end(commit)
        if not self.txs and self.r.random() < self.p.get('dfgp', .3):
            self.dfg(-1)
            if self.r.random() < .3: self.o('chk')
            for t in self.rd:
                if self.r.random() < .4: self.o('dump', t, self.r.randrange(len(self.tabs)))

class Copy(Gen):
    """Copies of every kind, made from readers of different age, from clean and
    dirty writers and from the environment, some of them while others commit."""
    cb = None
    def setup(self):
        x = self.r.choice([0, 0, 0, 1, 2, 3, 4, 6])   # absent or lazy system calls
        if x: self.o('cpio', x)
        super().setup()
    def params(self): return dict(super().params(), oust=1)
    def cflags(self, rd):
        r = self.r
        f = r.choice([0, 1])
        if r.random() < .25: f |= 2
        if r.random() < .2: f |= 4
        if r.random() < .15: f |= 8
        if rd and r.random() < .1: f |= 16
        if r.random() < (.1 if rd else .02): f |= 32
        return f
    def cp(self, t):
        r = self.r
        if t == self.cb: return
        rd = t in self.rd
        f, mode = self.cflags(rd), r.choice([0, 0, 1, 2, 2, 3] if self.cb is None else [0, 1, 3])
        if mode == 3: f |= r.choice([64, 64, 0]) | r.choice([0, 1, 16, 200]) << 8
        if f & 16:
            for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
        self.o('copy', t, f, mode)
        if f & 16 and rd: del self.rd[t]
        elif f & 8 and rd: self.o('unpark', t, 0)
    def op_copy(self, t, i):
        if self.r.random() < .15: return self.cp(t)
        self.cp(self.r.choice([-1] + list(self.rd)))
    def op_copystep(self, t, i):
        if self.cb is None:
            if self.r.random() < .5: self.cbeg()
        else: self.o('copystep', self.r.choice([4096, 8192, 8192, 20000, 65536]))
        if self.cb is not None and self.r.random() < .1: self.cend()
    def cbeg(self):
        r = self.r
        t = -1
        if r.random() < .4 and self.rd:
            t = r.choice(list(self.rd))
            for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
        f = self.cflags(False) & ~32 & ~16
        if t != -1 and r.random() < .2: f &= ~16
        self.cb, self.cbf = t, f
        self.o('copybeg', t, f)
        if t != -1: self.hid = self.rd.pop(t)
    def cend(self):
        self.o('copyend')
        if self.cb != -1:
            self.rd[self.cb] = self.hid
            if self.cbf & 8: self.o('unpark', self.cb, 0)
        self.cb = None
    def slot(self):
        used = set(self.txs) | set(self.rd) | {self.cb}
        return next((i for i in range(self.nt) if i not in used), None)
    def begin(self, parent=-1):
        super().begin(parent)
        if self.r.random() < .1 and self.ops_ok(): self.cp(self.txs[-1])
    def ops_ok(self): return hasattr(self, 'ready')
    def end(self, commit):
        super().end(commit)
        if self.r.random() < .3: self.cp(self.r.choice([-1] + list(self.rd)))
    def reopen(self):
        if self.cb is not None: self.cend()
        if not self.rd: super().reopen()
    def step(self):
        self.ready = 1
        super().step()
    def finish(self):
        if self.cb is not None: self.cend()
        super().finish()

class Dur(Gen):
    """Histories for crashes: many transactions of a few updates, explicit
    syncs, all sync modes.  Images of the storage are taken at random moments."""
    def setup(self):
        self.s.append('0 sim')
        self.o0 = self.o
        super().setup()
        r = self.r
        if self.p.get('rate', 1): self.o('images', self.p.get('rate', 25), self.p.get('images', 14), r.randint(1, 1 << 30))
    def begin(self, parent=-1):
        n = len(self.s)
        super().begin(parent)
        if parent == -1 and len(self.s) > n and self.r.random() < self.p.get('txflags', 0.15):
            self.s[-1] = self.s[-1][:-1] + str(self.r.choice([SAFENOSYNC, NOMETASYNC]))
    def end(self, commit):
        r = self.r
        if len(self.txs) == 1 and commit and r.random() < self.p.get('chkpt', 0.1):
            self.o('checkpoint', self.txs[0], r.choice([0, 0, SAFENOSYNC, NOMETASYNC])); return
        super().end(commit)
        if not self.txs:
            x = r.random()
            if x < self.p.get('esync', 0.15): self.o('esync', r.choice([1, 1, 0]), r.choice([0, 0, 1]))
            elif x < 0.2 and self.p.get('kills', 1): self.o('imgkill')
    def examine(self, img, boot):
        """what is recorded from an image"""
        r = random.Random('%d/%d' % (self.r.randint(0, 1 << 30), img))
        q = ['usedb img-%d' % img, 'ecreate', 'eopt max_db 16', 'eopen %d' % ((NOSTICKY if self.p['nst'] else 0) | (self.ef & WRITEMAP if r.random() < .7 else 0)), 'begin 0 -1 %d' % RDONLY, 'canget 0', 'enum 0']
        for i, T in enumerate(self.tabs): q += ['dopen 0 %d %d %d %d %d' % (i, T.n, ACCEDE, T.ks, T.vs), 'dump 0 %d' % i, 'seq 0 %d 0' % i]
        q += ['abort 0', 'chk']
        if r.random() < 0.5:
            i = r.randrange(len(self.tabs)); T = self.tabs[i]
            q += ['begin 0 -1 0']
            for _ in range(r.randint(1, 6)): q += ['put 0 %d %d %d 0' % (i, self.key(T), self.val(T)), 'del 0 %d %d 0' % (i, self.key(T))]
            q += ['commit 0', 'begin 0 -1 %d' % RDONLY] + ['dump 0 %d' % i for i in range(len(self.tabs))] + ['abort 0', 'chk']
        q += ['eclose 0', 'chkro']
        return ['0 ' + x for x in q]

class Geo(Gen):
    """The geometry is changed at any moment, inside and outside of (nested) transactions and beside
    readers, while the content grows to the limit and is deleted again."""
    def setup(self):
        r, p = self.r, self.p
        p['full'] = 1
        ps = p['ps'] = p['ps'] or r.choice([256, 512, 1024, 1024, 2048, 4096, 4096])
        self.unit = ps * r.choice([8, 16, 64])
        if p['geo'] is None:
            up = r.choice([60, 120, 300, 700, 1500]) * max(ps, 1024)
            p['geo'] = (min(up, r.choice([0, 0, 16384, 65536, up // 4])), r.choice([0, 20000, up // 2]), up, r.choice([0, 4096, 4096, 16384, 16384, 65536, 131072]), r.choice([0, 4096, 4096, 16384, 65536]))
        super().setup()
        k = next(i for i, x in enumerate(self.s) if ' egeo ' in x)
        self.s.insert(k, '0 gwatch 1')
        self.cut = r.random() < .5
    def pick_table(self, n):
        T = super().pick_table(n)
        if not T.flags & DUPSORT and self.r.random() < self.p.get('large', .6): T.vs = self.r.choice([2, 4, 4])
        return T
    def amount(self):
        r = self.r
        return r.choice([-1, -1, 0, 1, 4096, 10000, 16384, 30000, 65536, 70000, 131072, 200000, 262144, 400000, 524288, 1 << 20, 1500000, 2 << 20])
    def geo(self):
        r = self.r
        a = self.amount
        x = r.random()
        if x < .15: q = (-1, 0, -1, -1, -1)                       # as small as possible
        elif x < .3: q = (0, 0, r.choice([-1, 1 << 20, 2 << 20]), r.choice([4096, 16384, 65536]), r.choice([4096, 16384]))
        elif x < .4: q = (-1, r.choice([200000, 524288, 1 << 20]), -1, -1, -1)
        elif x < .5: q = (-1, -1, r.choice([1, 100000, 262144, 524288, 1 << 20, 2 << 20, 3 << 20]), -1, -1)
        elif x < .6: q = (-1, -1, -1, r.choice([0, 1, 4096, 16384, 65536, 100000]), r.choice([-1, 0, 1, 4096, 16384, 65536]))
        elif x < .63: q = (-1, 1 << 20, -1, 0, 0)
        else: q = (a(), a(), a(), r.choice([-1, -1, 0, 1, 4096, 16384, 65536, 70000]), r.choice([-1, -1, 0, 1, 4096, 16384, 65536]))
        self.o('egeo', *q, r.choice([-1, -1, 0, self.ps, self.ps, 65536 if self.ps < 65536 else 4096] if r.random() < .2 else [-1, self.ps]))
    def op_geo(self, t, i): self.geo()
    def op_wipe(self, t, i):
        """much is deleted, and the pages freed come back in the transactions that follow"""
        r = self.r
        if r.random() < .3: self.o('drop', t, i, 0); self.shadow[i] = {}
        else:
            ks = [k for k in list(self.shadow[i]) if r.random() < .8]
            for k in ks: self.o('del', t, i, k, 0); self.shadow[i].pop(k, None)
        if len(self.txs) > 1 and r.random() < .7: return
        while self.txs: self.end(True)
        for _ in range(r.randint(1, 4)):
            self.begin()
            for _ in range(r.randint(0, 3)): self.op_put(self.w(), r.randrange(len(self.tabs)))
            x = r.random()
            if x < .3: self.o('egeo', -1, r.choice([0, 0, 65536]), -1, -1, -1, -1)
            elif x < .45: self.geo()
            self.end(r.random() < .75)
    def op_shrink(self, t, i):
        """pages at the end of the file become free in a committed state; it may be read on while the
        transactions that follow give them back"""
        r = self.r
        while self.txs: self.end(True)
        n = len(self.rd)
        for u in list(self.rd):
            for c in self.my_cursors(u): self.o('cclose', c); del self.cur[c]
            self.o('abort', u); del self.rd[u]
        self.begin()
        for _ in range(r.randint(1, 3)): self.op_fill(self.w(), r.randrange(len(self.tabs)))
        if r.random() < .7: self.end(True); self.begin()
        if self.p['readers'] and r.random() < .07: self.begin_reader()
        for j in range(len(self.tabs)):
            if r.random() < .9: self.o('drop', self.w(), j, 0); self.shadow[j] = {}
        self.end(True)
        if self.p['readers'] and r.random() < .7: self.begin_reader()
        for k in range(r.randint(3, 12)):
            self.begin()
            for _ in range(r.randint(1, 3)): self.op_put(self.w(), r.randrange(len(self.tabs)))
            if r.random() < .1: self.geo()
            while self.txs: self.end(r.random() < .95)
            if self.p['readers'] and r.random() < .1: self.begin_reader()
            for u in list(self.rd):
                if r.random() < .3: self.o('dump', u, r.randrange(len(self.tabs)))
    def op_fill(self, t, i):
        r, T = self.r, self.tabs[i]
        for _ in range(r.randint(5, 40)): k, v = r.randint(1, T.K), r.randint(1, T.V); self.o('put', t, i, k, v, 0); self.note_put(i, k, v)
    def step(self):
        r, p = self.r, self.p
        if not self.txs and r.random() < p.get('geop', .3): return self.geo()
        if not self.txs and r.random() < .02: return self.o('esync', 1, 0)
        super().step()
    def reopen(self):
        if self.r.random() < .5: return super().reopen()
        n = len(self.s)
        super().reopen()
        k = next(i for i in range(n, len(self.s)) if ' eopen ' in self.s[i])
        r = self.r
        up = r.choice([524288, 1 << 20, 2 << 20])
        self.s.insert(k, '0 egeo %d %d %d %d %d %d' % (r.choice([0, 65536]), r.choice([0, 65536, 262144]), up, r.choice([0, 4096, 16384, 65536]), r.choice([0, 4096, 16384]), self.ps))

class Pages(Dur):
    """An observer of the file looks after every call which pages have changed."""
    def setup(self):
        self.p['rate'] = 0
        super().setup()
        self.s.insert(1, '0 watch 1'); self.p['kills'] = 0

class PagesGeo(Geo, Pages):
    """... with changes of the geometry"""

class PagesDfg(Pages, Defrag):
    """... with defragmentation"""
    def setup(self):
        self.p['cpio'] = 0
        super().setup()

class Fault(Dur):
    """Storage calls fail at random moments; afterwards the environment is used
    further, closed and opened again, or the process is taken to have died."""
    def setup(self):
        self.p.setdefault('rate', 0)
        self.p['kills'] = 0
        super().setup()
        r = self.r
        r.seed(r.random())
        if self.p.get('rate', 0) == 0: self.o('images', 0, 0, r.randint(1, 1 << 30))
        self.armed = 0; self.hit = 0
    def clear(self):
        self.o('fault', 0, 0, 0, 0)
        self.armed = 0
    def wipe(self):
        """abandon what is open and start over"""
        r = self.r
        for c in list(self.cur): self.o('cclose', c)
        self.cur.clear()
        for t in list(self.rd): self.o('abort', t)
        self.rd.clear()
        while self.txs: self.o('abort', self.txs.pop()); self.saved.pop()
        x = r.random()
        if x < .3: self.o('imgkill')
        if x > .9 and r.random() < .5:     # opening with a fault
            self.o('eclose', 0)
            self.o('ecreate'); self.o('eopt', 'max_db', 16); self.arm(4); self.o('eopen', self.ef); self.clear()
        self.o('eclose', r.choice([0, 0, 1]))
        self.o('ecreate'); self.o('eopt', 'max_db', 16); self.o('eopen', self.ef)
        for n, v in self.opts: self.o('eopt', n, v)
        t = 0
        self.o('begin', t, -1, RDONLY)
        for i, T in enumerate(self.tabs): self.o('dopen', t, i, T.n, T.flags, T.ks, T.vs); self.o('dump', t, i)
        self.o('canget', t); self.o('enum', t)
        self.o('commit', t)
        self.o('chk')
        if r.random() < .5: self.o('imgkill')
    def arm(self, n=None):
        r = self.r
        m = r.choice(self.p.get('fm') or [1, 1, 2, 2, 4, 8, 3, 15, 15])
        self.o('fault', m, r.choice([0, 0, 0, 1, 1, 2, 3, 5, 8] if n is None else range(n)), r.choice([5, 28, 28, -1, 12]), r.choice([1, 1, 2, -1]))
        self.armed = 1
    def end(self, commit):
        r = self.r
        if commit and r.random() < self.p.get('farm', .3) and len(self.txs) == 1 and not self.armed: self.arm()
        was = self.armed
        top = len(self.txs) == 1
        n = len(self.s)
        super().end(commit)
        if was and top:
            if any(' checkpoint ' in x for x in self.s[n:]): self.txs.pop(); self.saved.pop(); self.o('abort', int(self.s[n].split()[2]))
            if r.random() < .15: self.o('esync', 1, 0)
            if r.random() < .15:
                t = self.slot(); self.o('begin', t, -1, RDONLY); self.o('dump', t, 0); self.o('abort', t)
            self.clear()
            self.wipe()
    def step(self):
        r = self.r
        if not self.armed and self.txs and r.random() < self.p.get('arms', .01): self.arm()
        super().step()

class Life(Gen):
    """Histories of transaction lifecycle calls, legal and illegal, on a few
    slots, with just enough data traffic to tell snapshots apart."""
    def params(self):
        return dict(super().params(), oust=1)   # a parked reader may be ousted whenever pages run short
    def setup(self):
        super().setup()
        self.ns = self.p.get('slots', 6)
        self.t_hint = []
        self.free_cur = set(range(self.p['ncur']))
    def begin(self, parent=-1):
        return super().begin(parent)
    def anyslot(self):
        return self.r.randrange(self.ns)
    LW = dict(begin_rw=8, begin_ro=8, nested=6, commit=5, abort=3, brk=1.2, reset=3, renew=3, refresh=4, park=4, unpark=5, checkpoint=5, embark=3, amend=4, rollback=4, clone=4,
              put=22, dele=4, get=14, seq=3, can=4, tinfo=4, dump=3, copen=5, cget=10, cput=3, cclose=2, cbind=3, crenew=3, cunbind=2, creset=1, drop=0.7, ceof=1, dopen=0, esync=0.5, enum=0.3)
    def step(self):
        r, o = self.r, self.o
        wts = dict(self.LW); wts.update(self.p.get('lw', {}))
        a = r.choices(list(wts), list(wts.values()))[0]
        t = self.anyslot(); i = r.randrange(len(self.tabs)); T = self.tabs[i]; c = r.randrange(self.p['ncur'])
        # prefer slots used lately
        if self.t_hint and r.random() < 0.6: t = r.choice(self.t_hint[-3:])
        h = lambda: self.t_hint.append(t)
        if a == 'begin_rw': o('begin', t, -1, r.choice([0, 0, TRY])); h()
        elif a == 'begin_ro': o('begin', t, -1, r.choice([RDONLY] * 4 + [RDONLY | PREP])); h()
        elif a == 'nested':
            p = t; t = self.anyslot(); o('begin', t, p, r.choice([0, 0, 0, RDONLY])); h()
        elif a in ('commit', 'abort', 'reset', 'renew', 'refresh', 'embark', 'rollback'): o(a, t)
        elif a == 'brk': o('break', t)
        elif a in ('park', 'unpark'): o(a, t, r.choice([0, 1]))
        elif a == 'checkpoint': o('checkpoint', t, r.choice([0, 0, 0, SAFENOSYNC, NOMETASYNC]))
        elif a == 'amend':
            t2 = self.anyslot(); o('amend', t, t2, r.choice([0, 0, TRY, PREP | RDONLY]))
            self.t_hint.append(t2)
        elif a == 'clone': t2 = self.anyslot(); o('clone', t, t2); self.t_hint.append(t2)
        elif a == 'put': o('put', t, i, self.key(T), self.val(T), r.choice([0, 0, 0, NOOVER]))
        elif a == 'dele': o('del', t, i, self.key(T), 0)
        elif a == 'get': o(r.choice(['get', 'getex', 'getge']), t, i, self.key(T), 0)
        elif a == 'seq': o('seq', t, i, r.choice([0, 1, 3]))
        elif a == 'can': o(*r.choice([('canget', t), ('canput', t, 0, r.randint(0, 99), r.randint(0, 99), r.randint(0, 99))]))
        elif a == 'tinfo': o('tinfo', t, r.choice([0, 1]))
        elif a == 'dump': o('dump', t, i)
        elif a == 'copen': o('copen', c, t, i)
        elif a == 'cget': o('cget', c, r.choice([0, 4, 6, 8, 8, 12, 16, 17]), self.key(T), 0)
        elif a == 'cput': o('cput', c, self.key(T), self.val(T), 0)
        elif a == 'cclose': o('cclose', c)
        elif a == 'cbind': o('cbind', c, t, i)
        elif a == 'crenew': o('crenew', c, t)
        elif a == 'cunbind': o('cunbind', c)
        elif a == 'creset': o('creset', c)
        elif a == 'drop': o('drop', t, i, 0)
        elif a == 'ceof': o('ceof', c)
        elif a == 'esync': o('esync', 1, 0)
        elif a == 'enum': o('enum', t)
        if len(self.s) % 50 == 0: self.t_hint = self.t_hint[-6:]
    def finish(self):
        for t in range(self.ns): self.o('dump', t, 0)
        for t in range(self.ns - 1, -1, -1): self.o('abort', t)
        self.o('begin', 0, -1, RDONLY)
        for i in range(len(self.tabs)): self.o('dump', 0, i)
        self.o('abort', 0); self.o('chk')
        self.o('eclose', 0)
        self.o('chkro')

class Cat(Gen):
    """The catalogue of tables: creating, opening, renaming, emptying, dropping
    and closing, in nested and aborted transactions, beside readers."""
    KINDS = [0, 0, 2, 4, 4, 8, 12, 20, 52, 68]
    def setup(self):
        r = self.r
        self.p.update(ntab=(1, 2), maindb=0)
        self.p['K'] = self.p['K'] or 6; self.p['V'] = self.p['V'] or 4
        super().setup()
        self.kind = {}
        for i, x in enumerate(self.s):
            w = x.split()
            if w[1] == 'dopen': self.s[i] = ' '.join(w[:6] + ['0', '0']); self.kind[int(w[4])] = int(w[5]) & 126
        self.names = self.p.get('names', 6)
        self.nd = 8
        self.hot = list(range(len(self.tabs)))
        self.renamed = False; self.pin = -1; self.reflag = r.random() < 0.4; self.everren = False
    CW = dict(open=14, create=14, drop=6, empty=3, rename=7, enum=10, dstat=6, dflags=5, put=30, dele=5, get=14, dump=6, seq=5, copen=3, cget=6, cput=3, cclose=2)
    def step(self):
        r, o = self.r, self.o
        if not self.txs:
            x = r.random()
            if x < 0.12 and len(self.rd) < 2 and not self.reflag: return self.begin_reader()
            if x < 0.2 and not self.rd:
                o('eclose', 0); o('ecreate'); o('eopt', 'max_db', 16); o('eopen', self.ef); return
            if x < 0.3 and not self.rd: o('dclose', r.randrange(self.nd)); return
            if x < 0.4 and self.rd: return self.use(r.choice(list(self.rd)), False)
            self.begin(); return
        x = r.random()
        if x < 0.05 and len(self.txs) < 4 and not self.wm: self.close_all(); return self.begin(self.txs[-1])
        if x > (0.94 if len(self.txs) == 1 else 0.88):
            self.end1(r.random() > 0.4)
            return
        if self.rd and r.random() < 0.12: return self.use(r.choice(list(self.rd)), False)
        if not self.renamed and not self.reflag and len(self.rd) < 2 and r.random() < 0.02: return self.begin_reader()
        self.use(self.txs[-1], True)
    def close_all(self):
        for c in list(self.cur): self.o('cclose', c)
        self.cur.clear()
    def end1(self, commit):
        # undoing a rename, or undoing in a nested transaction what was done to a
        # handle, is a known finding (see KNOWN_FINDINGS.txt): not tried here
        lvl = len(self.txs) - 1
        if self.pin >= lvl: commit = True
        self.pin = min(self.pin, lvl - 1) if lvl else -1
        t = self.txs.pop(); self.saved.pop()
        self.o('commit' if commit else 'abort', t)
        if not self.txs: self.renamed = False
        for c in [c for c, (tt, d) in self.cur.items() if tt == t]:
            self.o('cclose', c); del self.cur[c]
    def use(self, t, rw):
        r, o = self.r, self.o
        if not rw and r.random() < 0.12:
            for c in self.my_cursors(t): o('cclose', c); del self.cur[c]
            o(r.choice(['abort', 'commit']), t); del self.rd[t]; return
        wts = dict(self.CW); wts.update(self.p.get('cw', {}))
        a = r.choices(list(wts), list(wts.values()))[0]
        d = r.choice(self.hot[-4:]) if self.hot and r.random() < 0.8 else r.randrange(self.nd)
        n = r.randint(1, self.names)
        k, v = r.randint(1, self.K), r.randint(1, self.V)
        c = r.randrange(self.p['ncur'])
        if a in ('open', 'create') and (rw or a == 'open'):
            d = r.randrange(self.nd)
            for c in [c for c, (tt, dd) in self.cur.items() if dd == d]: o('cclose', c); del self.cur[c]
            f = self.kind.get(n, 0) if r.random() < 0.7 else r.choice(self.KINDS)
            if a == 'create':
                if self.reflag or self.everren:   # may give another kind to an empty table
                    if self.reflag and r.random() < 0.4: self.kind[n] = r.choice(self.KINDS)
                    self.close_all()
                    if len(self.txs) > 1: self.pin = max(self.pin, len(self.txs) - 1)
                f = self.kind.setdefault(n, r.choice(self.KINDS))
                f |= CREATE
            elif r.random() < 0.4: f = ACCEDE
            o('dopen', t, d, n, f, 0, 0); self.hot.append(d)
        elif a == 'drop' and rw:
            self.close_all(); o('drop', t, d, 1)
            if len(self.txs) > 1: self.pin = max(self.pin, len(self.txs) - 1)
        elif a == 'empty': o('drop', t, d, 0)
        elif a == 'rename' and (not self.rd): o('drename', t, d, n); self.renamed = self.everren = True; self.pin = max(self.pin, len(self.txs) - 1)
        elif a == 'enum': o('enum', t)
        elif a == 'dstat' and r.random() < .4: o('estat', t)
        elif a in ('dstat', 'dflags', 'dump'): o(a, t, d)
        elif a == 'put': o('put', t, d, k, v, r.choice([0, 0, 0, NOOVER]))
        elif a == 'dele': o('del', t, d, k, 0)
        elif a == 'get': o(r.choice(['get', 'getex']), t, d, k, 0)
        elif a == 'seq': o('seq', t, d, r.choice([0, 1, 2]) if rw else 0)
        elif a == 'copen' and c not in self.cur and rw: o('copen', c, t, d); self.cur[c] = (t, d)
        elif self.cur and a in ('cget', 'cput', 'cclose'):
            c = r.choice(list(self.cur))
            if a == 'cget': o('cget', c, r.choice([0, 4, 6, 8, 12, 17]), k, 0)
            elif a == 'cput': o('cput', c, k, v, 0)
            else: o('cclose', c); del self.cur[c]
    def finish(self):
        for c in list(self.cur): self.o('cclose', c)
        while self.txs: self.o('commit', self.txs.pop())
        for t in list(self.rd): self.o('enum', t); self.o('abort', t)
        self.rd.clear()
        self.o('begin', 0, -1, RDONLY); self.o('enum', 0)
        for n in range(1, self.names + 1):
            self.o('dopen', 0, n % self.nd, n, ACCEDE, 0, 0); self.o('dump', 0, n % self.nd); self.o('dflags', 0, n % self.nd)
        self.o('abort', 0); self.o('chk')
        self.o('eclose', 0)
        self.o('chkro')

# which arguments of a call are slots of transactions, handles and cursors
SLOTARGS = dict(begin='tt', commit='t', abort='t', reset='t', renew='t', refresh='t', clone='tt', park='t', unpark='t', checkpoint='t', embark='t', amend='tt', rollback='t',
                dopen='td', dclose='d', drop='td', dstat='td', dflags='td', seq='td', enum='t', canput='t', canget='t', tinfo='t', get='td', getex='td', getge='td', put='td', putm='c', replace='td',
                copen='ctd', cclose='c', creset='c', ccopy='cc', ccmp='cc', cget='c', cput='c', cdel='c', ccount='c', ceof='c', cscan='c', cscanf='c', batch='c', cdist='cc', cscroll='c', cdelr='cc',
                cbunch='c', estm='cc', dump='td', estat='t', gcinfo='t', racew='d', racer='d')
SLOTARGS['del'] = 'td'

class Sub(Gen):
    """One of several processes or threads: its own slots, the database in common."""
    def __init__(self, M, w, **p):
        self.M, self.wk = M, w
        super().__init__('%s/%d' % (M.seed, w), **p)
        self.r = M.r
    def setup(self):
        M = self.M
        self.s = M.s
        self.ps, self.K, self.V, self.tabs = M.ps, M.K, M.V, M.tabs
        self.nt = self.nd = self.nc = 8
        self.wm = M.wm
        self.opts = []
        self.fresh()
    def fresh(self):
        self.txs, self.rd, self.cur, self.saved, self.parked = [], {}, {}, [], {}
        self.fill = 0
        self.ro = False
        self.open = self.alive = False
    shadow = property(lambda s: s.M.shadow, lambda s, x: setattr(s.M, 'shadow', x))
    def fmt(self, op, *a):
        a = list(a); k = 8 * (self.wk - 1)
        for i, c in enumerate(SLOTARGS.get(op, '')):
            if a[i] >= 0: a[i] += k
        return ' '.join(str(x) for x in [op] + a)
    def o(self, op, *a):
        self.s.append('%d %s' % (self.wk, self.fmt(op, *a)))
    def begin(self, parent=-1):
        M, r = self.M, self.r
        if parent == -1:
            if self.ro or (M.writer and M.writer is not self):
                if r.random() < .3: self.o('begin', 7, -1, TRY); self.o('abort', 7)
                return
            M.writer = self
        super().begin(parent)
    def end(self, commit):
        super().end(commit)
        if not self.txs: self.M.writer = None
    def step(self):
        if self.ro or (self.M.writer and self.M.writer is not self):
            if self.rd and self.r.random() < .8: return self.reader_step()
            if len(self.rd) < 4 and self.r.random() < .6: return self.begin_reader()
            return self.begin()
        super().step()
    def reader_step(self):
        r = self.r
        t = r.choice(list(self.rd))
        if r.random() < self.p.get('parks', .12):
            a = r.choice(['park', 'park', 'unpark', 'unpark', 'tinfo', 'reset'])
            if a == 'reset':
                for c in self.my_cursors(t): self.o('cclose', c); del self.cur[c]
                self.o('reset', t); self.o('renew', t); return
            if a == 'tinfo': return self.o('tinfo', t, r.choice([0, 1]))
            return self.o(a, t, r.choice([0, 1]))
        super().reader_step()
    def quit(self):
        while self.txs: self.end(self.r.random() < .7)
        for c in list(self.cur): self.o('cclose', c); del self.cur[c]
        for t in list(self.rd): self.o('abort', t)
        self.rd.clear()
        if self.fill: self.o('rdrain'); self.fill = 0
    def dopen(self, ro=True):
        t = self.slot()
        self.o('begin', t, -1, RDONLY)
        for i, T in enumerate(self.tabs): self.o('dopen', t, i, T.n, T.flags, T.ks, T.vs)
        self.o('commit', t)

class Multi:
    """Several processes, or threads of one, on the same database."""
    def __init__(self, seed, **p):
        self.seed, self.r = seed, random.Random(seed)
        self.p = dict(k=3, threads=0.0, ops=500, kill=.01, killin=.012, exit=.002, close=.006, registry=.02, fill=.004, race=.008, hsr=.01, hash=.01, quiet=.004, probe=.008, ro=.15, modes=None,
                      full=0, geo=None, nst=1, K=None, V=None, ps=None, readers=.15, wm=0.0, ntab=(1, 2), maxr=0, rops=(3, 40))
        sub = {k: p.pop(k) for k in list(p) if k not in self.p}
        self.p.update(p)
        r, p = self.r, self.p
        self.s = []
        self.ps = p['ps'] or r.choice([256, 256, 512, 1024, 4096])
        self.K = p['K'] or r.choice([6, 12, 30, 60]); self.V = p['V'] or r.choice([5, 8, 20])
        self.shadow = {}
        self.writer = None
        self.threads = r.random() < p['threads']
        self.mode = r.choice(p['modes']) if p['modes'] is not None else SAFENOSYNC
        self.wm = r.random() < p['wm'] and not self.threads
        self.wm0 = WRITEMAP if r.random() < .3 else 0
        self.nst = p['nst'] if p['nst'] in (0, 1) else int(r.random() < .7)
        tmp = Gen.__new__(Gen); tmp.r, tmp.K, tmp.V = r, self.K, self.V
        tmp.p = dict(kinds=sub.get('kinds'), dupprob=sub.get('dupprob', .4))
        names = r.sample(range(1, 10), 9)
        self.tabs = [tmp.pick_table(names[i]) for i in range(r.randint(*p['ntab']))]
        self.maxr = p['maxr']
        self.subs = [Sub(self, w + 1, **dict(dict(nested=.02, chk=0, reopen=0, room=0, maindb=0, weights=dict(drop=.2), abort=.2, endp=.08, ncur=6, readers=p['readers']), **sub)) for w in range(p['k'])]
        for i in range(len(self.tabs)): self.shadow[i] = {}
        self.start()
    def flags(self):
        r = self.r
        f = NOSTICKY if self.nst else 0
        f |= self.mode
        if self.wm and r.random() < .5: f |= WRITEMAP
        elif not self.wm: f |= self.wm0
        if r.random() < .2: f |= LIFO
        if r.random() < .2: f |= 0x800000      # no readahead
        return f
    def env(self, w, f, geo=False):
        """worker w opens the environment"""
        p = self.p
        self.s.append('%d ecreate' % w); self.s.append('%d eopt max_db 16' % w)
        if self.maxr: self.s.append('%d eopt max_readers %d' % (w, self.maxr))
        if geo: self.s.append('%d egeo %s' % (w, ' '.join(str(x) for x in (self.p['geo'] or (-1, -1, 64 << 20, self.r.choice([-1, 1 << 16]), -1)) + (self.ps,))))
        self.s.append('%d eopen %d' % (w, f))
    def start(self):
        r = self.r
        if self.threads:
            self.env(0, self.flags(), True)
            for x in self.subs: self.s.append('%d spawn t' % x.wk); x.alive = x.open = True
        else:
            x = self.subs[0]; self.s.append('1 spawn p'); x.alive = x.open = True
            self.env(1, self.flags(), True)
        x = self.subs[0]
        x.begin()
        for i, t in enumerate(self.tabs): x.o('dopen', x.txs[-1], i, t.n, t.flags | CREATE, t.ks, t.vs)
        x.o('commit', x.txs.pop()); x.saved = []; self.writer = None
        if self.threads:
            for y in self.subs[1:]: y.dopen()
        else:
            for y in self.subs[1:]: self.join(y)
    def join(self, x):
        if not x.alive: self.s.append('%d spawn p' % x.wk); x.alive = True
        ro = self.r.random() < self.p['ro'] and any(y.open and not y.ro for y in self.subs)
        self.env(x.wk, (RDONLY | (NOSTICKY if self.nst else 0)) if ro else self.flags())
        x.open = True; x.ro = ro
        x.dopen()
    def gone(self, x):
        if self.writer is x:
            self.writer = None
            if x.saved: self.shadow = x.saved[0]
        x.fresh()
    def opened(self): return [x for x in self.subs if x.open]
    def look(self):
        """someone reads what is there"""
        a = self.opened()
        if not a: x = self.r.choice(self.subs); self.join(x)
        else: x = self.r.choice(a)
        t = x.slot()
        if t is None: return
        x.o('begin', t, -1, RDONLY)
        for i in range(len(self.tabs)): x.o('dump', t, i)
        if self.r.random() < .3: x.o('canget', t)
        x.o('abort', t)
    def kill(self, x):
        self.s.append('%d kill' % x.wk); self.gone(x); self.look()
    def killin(self, x):
        r = self.r
        us = int(r.choice([r.uniform(0, 60), r.uniform(0, 250), r.uniform(0, 1500)]))
        i = r.randrange(len(self.tabs)); T = self.tabs[i]
        if x.txs and len(x.txs) > 1: x.end(True)
        if len(x.txs) == 1: a = r.choice(['commit'] * 5 + ['put', 'abort', 'checkpoint', 'drop'])
        elif x.rd: a = r.choice(['renew', 'abort', 'park', 'begin', 'rcheck', 'eclose'] + (['wbegin', 'wbegin'] if not self.writer and not x.ro else []))
        else: a = r.choice(['begin', 'rcheck', 'eclose'] + (['wbegin', 'wbegin'] if not self.writer and not x.ro else []))
        t = x.txs[0] if x.txs else r.choice(list(x.rd)) if x.rd else 0
        cmd = {'commit': ('commit', t), 'put': ('put', t, i, x.key(T), x.val(T), 0), 'abort': ('abort', t), 'checkpoint': ('checkpoint', t, 0), 'drop': ('drop', t, i, 0), 'renew': ('renew', t), 'park': ('park', t, 0),
               'begin': ('begin', 7, -1, RDONLY), 'wbegin': ('begin', 7, -1, 0), 'rcheck': ('rcheck',), 'eclose': ('eclose', 0)}[a]
        self.s.append('%d killin %d %s' % (x.wk, us, x.fmt(*cmd)))
        sh = self.shadow
        self.gone(x)
        if a in ('commit', 'checkpoint'): self.shadow = sh
        self.look()
    def close(self, x):
        x.quit(); x.o('eclose', self.r.choice([0, 0, 0, 1])); x.open = False; a = x.alive; x.fresh(); x.alive = a
        if self.writer is x: self.writer = None
    def probe(self):
        """attempts to open in all kinds of modes"""
        r = self.r
        c = [x for x in self.subs if not x.open]
        if not c:
            x = r.choice(self.subs); self.close(x)
        else: x = r.choice(c)
        if not x.alive: self.s.append('%d spawn p' % x.wk); x.alive = True
        f = NOSTICKY if self.nst else 0
        f |= r.choice([EXCL, EXCL, RDONLY, RDONLY | EXCL, 0, SAFENOSYNC, NOMETASYNC, 0x110000, WRITEMAP, WRITEMAP | SAFENOSYNC, WRITEMAP | NOMETASYNC, ACCEDE, ACCEDE | WRITEMAP, ACCEDE | SAFENOSYNC, RDONLY | ACCEDE, RDONLY | SAFENOSYNC, RDONLY | 0x110000, RDONLY | 0x800000, RDONLY | LIFO, RDONLY | WRITEMAP, 0x800000])
        self.env(x.wk, f)
        x.o('begin', 7, -1, RDONLY)
        for i, T in enumerate(self.tabs): x.o('dopen', 7, i, T.n, T.flags, T.ks, T.vs); x.o('dump', 7, i)
        x.o('abort', 7)
        if f & RDONLY and r.random() < .5: x.o('begin', 7, -1, TRY)
        # somebody else tries meanwhile
        if r.random() < .3:
            c = [y for y in self.subs if not y.open and y is not x]
            if c:
                y = r.choice(c)
                if not y.alive: self.s.append('%d spawn p' % y.wk); y.alive = True
                self.env(y.wk, (NOSTICKY if self.nst else 0) | r.choice([0, RDONLY, EXCL, self.mode, SAFENOSYNC, ACCEDE])); y.o('eclose', 0)
        x.o('eclose', 0)
        x.open = False
    def race(self):
        r = self.r
        for x in self.opened():
            while x.txs: x.end(r.random() < .7)
        a = self.opened()
        if self.writer or not a: return
        for x in a:
            if not self.nst: x.quit()
            if x.fill: x.o('rdrain'); x.fill = 0
        n = min(len(a), r.choice([2, 3, 3]))
        i = r.randrange(len(self.tabs))
        part, wr = [], 0
        m = r.choice([0, r.randint(1, self.K), self.K]) if not self.tabs[i].dup else 0
        for x in r.sample(a, n):
            k = r.randint(*self.p['rops'])
            if x.ro or (wr and r.random() < .4): part.append('%d %s' % (x.wk, x.fmt('racer', i, k * 4, r.randint(1, 1 << 20), m)))
            else: part.append('%d %s' % (x.wk, x.fmt('racew', i, k, r.randint(1, 1 << 20), m, self.V))); wr += 1
        self.s.append('0 race ' + ' ; '.join(part))
        self.look()
    def quiet(self):
        r = self.r
        for x in self.opened():
            while x.txs: x.end(r.random() < .7)
        if self.writer or not self.opened(): return
        self.s.append('0 filehash')
        for _ in range(r.randint(3, 15)):
            x = r.choice(self.opened())
            if r.random() < .1 and not self.threads and len(self.opened()) > 1 and x.ro: self.close(x)
            elif x.rd: x.reader_step()
            else: x.begin_reader()
        c = [x for x in self.subs if not x.open]
        if c and not self.threads:
            x = r.choice(c)
            if not x.alive: self.s.append('%d spawn p' % x.wk); x.alive = True
            self.env(x.wk, RDONLY | (NOSTICKY if self.nst else 0) | r.choice([0, 0, EXCL])); x.dopen(); x.o('begin', 7, -1, 0); x.o('eclose', 0)
        self.s.append('0 filehash')
    def step(self):
        r, p = self.r, self.p
        a = self.opened()
        if not self.threads and (not a or (len(a) < len(self.subs) and r.random() < .04)):
            return self.join(r.choice([x for x in self.subs if not x.open]))
        x = r.choice(a)
        if self.writer and r.random() < .4: x = self.writer
        if not self.threads:
            if r.random() < p['kill']: return self.kill(x)
            if r.random() < p['killin']: return self.killin(x)
            if r.random() < p['exit']: self.s.append('%d exit' % x.wk); self.gone(x); return
            if r.random() < p['close']: return self.close(x)
            if r.random() < p['probe']: return self.probe()
        if r.random() < p['registry']: return x.o(r.choice(['rlist', 'rlist', 'rcheck']))
        if self.nst and r.random() < p['fill'] and not self.threads:
            if x.fill: x.o('rdrain'); x.fill = 0
            else: x.o('rfill', r.choice([3, 20, 60, 80, 120])); x.fill = 1
            return
        if x.fill and r.random() < .1: x.o('rdrain'); x.fill = 0; return
        if r.random() < p['race']: return self.race()
        if r.random() < p['hsr']: return x.o('hsr', r.choice([0, 1, 3]))
        if r.random() < p['quiet']: return self.quiet()
        x.step()
    def finish(self):
        for x in self.opened(): x.quit()
        self.look()
        a = self.opened()
        if self.threads:
            for i in range(len(self.tabs)): pass
            for x in self.subs: self.s.append('%d join' % x.wk)
            self.s.append('0 eclose 0')
        else:
            for x in a: x.o('rlist')
            for x in a[::-1]: self.close(x)
            # everything is there after all have left
            x = self.subs[0]
            if not x.alive: self.s.append('%d spawn p' % x.wk)
            self.env(x.wk, self.flags()); x.dopen(); x.open = True; self.look(); x.o('chk'); x.o('eclose', 0)
    def run(self):
        while len(self.s) < self.p['ops']: self.step()
        self.finish()
        return self.s
    def params(self):
        return dict(K=self.K, V=self.V, T=24, D=24, C=24, E=1, nst=self.nst, full=1, oust=1, bump=1, fault=0, wm=1, id=0)
def incarnations(lines):
    """numbers the processes in the order of their start, in place of their ids"""
    import json
    ev = []
    for x in lines:
        try: ev.append(json.loads(x))
        except ValueError: break              # cut off by a crash
    uid, n, nxt = {}, 0, -1
    for e in ev:
        if e['e'] == 'spawn':
            if e['kind'] == 2: n += 1; uid[e['pid']] = e['uid'] = n
            else: uid[e['pid']] = e['uid'] = 0
            e.pop('pid')
        elif e['e'] == 'rlist': e['l'] = [[uid.get(x[0], -1), x[1], x[2]] for x in e['l']]
    amb = 0
    for e in reversed(ev):
        if e['e'] == 'killin': e['nid'] = nxt; e['amb'] = amb     # amb: an opening, which may take the next number to fit the size of the file
        elif e['e'] == 'eopen' and e['r'] == 0: amb = 1
        elif e['e'] == 'begin' and e['r'] == 0 and e['f'] & RDONLY and not e['f'] & PREP: nxt = e['id']; amb = 0
    return [json.dumps(e, separators=(',', ':')) for e in ev]
