"""Joins, widening and state reduction."""
from dom import *
import dom
HEAP = 1 << 40
THR = sorted({0, 1, -1, 2, 31, 32, 63, 64, 255, 256, 0xffff, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33), 1 << 60, (1 << 60) + 1, 1 << 61, 1 << 62, (1 << 63) - 1, 1 << 63,
              (1 << 64) - 1, 1 << 64, (1 << 65), (1 << 127) - 1, (1 << 128) - 1, -(1 << 31), -(1 << 32), -(1 << 63), -(1 << 64), -(1 << 127), POS, NEG, -32, -64, 0x10ffff, 1<<66, -(1<<66)})

def widen_hi(x):
    for t in THR:
        if t >= x: return t
    return POS
def widen_lo(x):
    for t in reversed(THR):
        if t <= x: return t
    return NEG

def part_key(I, s):
    out = []
    for k, v in s.mem.items():
        if type(k) is int and k < HEAP and k > 0:
            if v is True or v is False: out.append((k, v))
            elif type(v) is tuple and v and v[0] == 'E' and type(v[1]) is int: out.append((k, v[1]))
    out.sort()
    return tuple(out)

def refs_of(v, out):
    if type(v) is not tuple or not v: return
    k = v[0]
    if k == 'P':
        if type(v[1]) is int: out.append(v[1])
        # index atoms need no traversal
    elif k == 'Q':
        for q in v[1]: refs_of(q, out)
    elif k == 'A':
        for x in v[1]: refs_of(x, out)
    elif k == 'E':
        for pl in v[2]:
            if pl:
                for x in pl: refs_of(x, out)
    elif k == 'S':
        for x in v[1].values(): refs_of(x, out)
        if v[2] is not None and v[2][0] == 'V': refs_of(v[2][1], out)

def reach(I, st):
    seen = set(); work = [k for k in st.mem if type(k) is int and (k < HEAP or k in I.pinned)]
    while work:
        o = work.pop()
        if o in seen: continue
        seen.add(o)
        v = st.mem.get(o)
        if v is not None:
            out = []
            refs_of(v, out)
            for x in out:
                if x not in seen: work.append(x)
    return seen

class Joiner:
    def __init__(self, I, A, B, prev=None, loop=None, rounds=0):
        self.I = I; self.A = A; self.B = B; self.H = prev; self.loop = loop; self.rounds = rounds
        self.R = State()
        self.pm = {}            # (a,b) -> lin
        self.bases = []         # (a,b,phi)
        self.usedphi = set()
        self.om = {}            # (oa,ob) -> oc
        self.oa = {}; self.ob = {}
        self.queue = []
        self.cells = []
        self.done = set()
        self._ra = self._rb = None

    def run(self):
        A, B, R = self.A, self.B, self.R
        R.imp = A.imp | B.imp
        R.tr = A.tr if A.tr == B.tr else (None, ('join', 0), None)
        R.ev = A.ev if A.ev == B.ev else A.ev + tuple(e for e in B.ev if e not in A.ev)
        I = self.I
        keys = [k for k in A.mem if k in B.mem and (type(k) is int) and (k < HEAP or k in I.pinned)]
        # identical heap objects get identity mapping first
        for k in keys:
            h = self.H.mem.get(k) if self.H else None
            if k >= HEAP: self.pairobj(k, k, k)
            else: R.mem[k] = self.val(A.mem[k], B.mem[k], h)
            self.drain()
        self.drain()
        n = 0
        while self.cells:
            cs, self.cells = self.cells, []
            bases = list(self.bases)
            for c in cs: self.fill(c, bases)
            self.drain()
            n += 1
        self.facts()
        if self.I.templates:
            import templ
            templ.apply(self)
        if not self.exact_hull(): R.flag('join')
        return R
    def exact_hull(self):
        """the joined state describes exactly the two given ones (no correlation lost)"""
        if self.bases or self.loop is not None: return False
        A, B = self.A, self.B
        if A.ne != B.ne: return False
        diff = []
        for x, y, df in ((A.facts, B.facts, lambda a: (A_lo[a], A_hi[a])), (A.rel, B.rel, lambda k: (NEG, POS))):
            for k in set(x) | set(y):
                u, v = x.get(k) or df(k), y.get(k) or df(k)
                if u != v: diff.append((u, v))
        if not diff: return True
        if len(diff) > 1: return False
        (a, b), (c, d) = sorted(diff[0])
        return c <= b + 1
    def drain(self):
        while self.queue:
            oa, ob, oc, ho = self.queue.pop()
            h = self.H.mem.get(ho) if self.H and ho is not None else None
            va, vb = self.A.mem.get(oa), self.B.mem.get(ob)
            if va is None or vb is None:
                self.R.mem[oc] = va if va is not None else vb
                continue
            self.R.mem[oc] = self.val(va, vb, h)
    def ra(self):
        if self._ra is None: self._ra = reach(self.I, self.A)
        return self._ra
    def rb(self):
        if self._rb is None: self._rb = reach(self.I, self.B)
        return self._rb
    def pairobj(self, oa, ob, ho):
        if oa == ob:
            if type(oa) is tuple: return oa
            if (oa, oa) in self.om: return oa
            if oa in self.oa or oa in self.ob: return None
            self.om[(oa, oa)] = oa; self.oa[oa] = oa; self.ob[oa] = oa
            if oa >= HEAP: self.queue.append((oa, oa, oa, ho if ho == oa else oa))
            return oa
        if type(oa) is tuple or type(ob) is tuple or oa < HEAP or ob < HEAP: return None
        c = self.om.get((oa, ob))
        if c is not None: return c
        if oa in self.oa or ob in self.ob: return None
        P = self.I.pinned
        if oa in P or ob in P: return None
        # pair only objects that do not exist on the other side
        if self.loop is None or not (self.H and ho in self.loop.merged):
            if oa in self.rb() or ob in self.ra():
                return None
        ta, tb = self.A.mem.get(oa), self.B.mem.get(ob)
        if ta is None or tb is None: return None
        if ta[0] != tb[0] and 'T' not in (ta[0], tb[0]): return None
        if self.loop is not None and ho in self.loop.merged and ho not in self.loop.usedobj:
            c = ho; self.loop.usedobj.add(ho)
        else:
            self.I.nheap += 1
            c = self.I.nheap
            self.I.oinfo[c] = self.I.oinfo.get(oa)
            if self.loop is not None: self.loop.merged.add(c); self.loop.usedobj.add(c)
        self.om[(oa, ob)] = c; self.oa[oa] = ob; self.ob[ob] = oa
        self.queue.append((oa, ob, c, c))
        return c
    def keep(self, st, v):
        """retain objects reachable from a value that exists on one side only"""
        work = []; refs_of(v, work)
        while work:
            o = work.pop()
            if o in self.done or o < HEAP: continue
            self.done.add(o)
            if o in self.A.mem and o in self.B.mem:
                self.pairobj(o, o, o); continue
            c = st.mem.get(o)
            if c is None: continue
            if o not in self.R.mem: self.R.mem[o] = c
            refs_of(c, work)

    # ---- values
    def ival(self, a, b, h):
        if a == b: return a
        r = self.pm.get((a, b))
        if r is not None: return r
        d = sub(b, a)
        for a0, b0, phi in self.bases:
            d0 = sub(b0, a0)
            k = None
            if type(d) is int and type(d0) is int:
                if d0 != 0 and d % d0 == 0: k = d // d0
            elif type(d) is tuple and type(d0) is tuple and len(d[2]) == len(d0[2]):
                if d[2][0][0] == d0[2][0][0] and d[2][0][1] % d0[2][0][1] == 0:
                    k = d[2][0][1] // d0[2][0][1]
                    if scale(d0, k) != d: k = None
            if k is not None and abs(k) <= 64 and k != 0:
                al = sub(a, scale(a0, k))
                # the invariant part must not mention this loop's own symbols
                if self.loop is not None and any(x in self.loop.phis for x in atoms_of(al)): continue
                r = add(al, scale(phi, k))
                self.pm[(a, b)] = r
                return r
        la, ha = self.A.bounds(a); lb, hb = self.B.bounds(b)
        lo, hi = min(la, lb), max(ha, hb)
        phi = None
        L = self.loop
        if L is not None and is_lin(h) and h[1] == 0 and len(h[2]) == 1 and h[2][0][1] == 1 and h[2][0][0] in L.phis and h[2][0][0] not in self.usedphi:
            phi = h
            pl, ph = self.H.bounds(h)
            if self.rounds >= 3:
                if lo < pl: lo = widen_lo(lo)
                if hi > ph: hi = widen_hi(hi)
                if self.rounds > 14:
                    if lo < pl: lo = NEG
                    if hi > ph: hi = POS
            lo, hi = min(lo, pl), max(hi, ph)
        if phi is None:
            phi = fresh(NEG, POS, 'phi')
            if L is not None:
                L.phis.add(phi[2][0][0]); L.newphi = True
        self.usedphi.add(phi[2][0][0])
        self.R.facts[phi[2][0][0]] = (lo, hi)
        self.pm[(a, b)] = phi
        self.bases.append((a, b, phi))
        # small excluded values (enum tags)
        if 1 < hi - lo <= 6:
            ex = [v for v in range(lo + 1, hi) if self.A.evalc(c_ne(sub(a, v))) is True and self.B.evalc(c_ne(sub(b, v))) is True]
            if ex: self.R.ne[phi[2]] = frozenset(ex)
        elif lo < 0 < hi or lo < 1 < hi:
            ex = [v for v in (0, 1) if lo < v < hi and self.A.evalc(c_ne(sub(a, v))) is True and self.B.evalc(c_ne(sub(b, v))) is True]
            if ex: self.R.ne[phi[2]] = frozenset(ex)
        return phi
    def val(self, a, b, h=None):
        ta, tb = type(a), type(b)
        if ta is bool or tb is bool or (ta is tuple and a and a[0] == 'C') or (tb is tuple and b and b[0] == 'C'):
            if a is b or a == b and type(a) == type(b): return a
            if (ta is tuple and a[0] == 'T') or (tb is tuple and b[0] == 'T'): return fresh_bool()
            ea, eb = self.A.evalc(a), self.B.evalc(b)
            if ea is not None and ea == eb: return ea
            ia = self.I.b2i(self.A, a); ib = self.I.b2i(self.B, b)
            hh = h[2] if type(h) is tuple and h and h[0] == 'C' and h[1] == 'ne' else None
            r = self.ival(ia, ib, hh)
            return c_ne(r)
        ia, ib = is_int(a), is_int(b)
        if ia and ib: return self.ival(a, b, h)
        if not (ta is tuple and tb is tuple):
            return self.mixed(a, b, h)
        ka, kb = a[0], b[0]
        if ka == kb:
            if ka == 'A':
                if len(a[1]) != len(b[1]): return self.mixed(a, b, h)
                hs = h[1] if type(h) is tuple and h and h[0] == 'A' and len(h[1]) == len(a[1]) else [None] * len(a[1])
                return ('A', tuple(self.val(x, y, z) for x, y, z in zip(a[1], b[1], hs)))
            if ka == 'E':
                n = max(len(a[2]), len(b[2]))
                hb = h if type(h) is tuple and h and h[0] == 'E' else None
                tag = self.ival(a[1], b[1], hb[1] if hb else None)
                pl = []
                for i in range(n):
                    x = a[2][i] if i < len(a[2]) and (type(a[1]) is not int or a[1] == i) else None
                    y = b[2][i] if i < len(b[2]) and (type(b[1]) is not int or b[1] == i) else None
                    if x is not None and type(a[1]) is tuple and self.A.evalc(c_eq(sub(a[1], i))) is False: x = None
                    if y is not None and type(b[1]) is tuple and self.B.evalc(c_eq(sub(b[1], i))) is False: y = None
                    if x is None and y is None: pl.append(None)
                    elif x is None:
                        for v in y: self.keep(self.B, v)
                        pl.append(y)
                    elif y is None:
                        for v in x: self.keep(self.A, v)
                        pl.append(x)
                    else:
                        hp = hb[2][i] if hb and i < len(hb[2]) and hb[2][i] and len(hb[2][i]) == len(x) else [None] * len(x)
                        pl.append(tuple(self.val(u, v, w) for u, v, w in zip(x, y, hp)))
                return ('E', tag, tuple(pl))
            if ka == 'P': return self.ptr(a, b, h)
            if ka == 'S': return self.seq(a, b, h)
            if ka == 'T': return a if a == b else b
            if ka == 'F': return a if a == b else ('Fs', frozenset([a, b]))
            if ka == 'D':
                if a == b: return a
                if type(h) is tuple and h and h[0] == 'D' and self.loop is not None and h[1] in self.loop.dphi: return h
                d = fresh(NEG, POS, 'fphi')
                if self.loop is not None: self.loop.dphi.add(d); self.loop.newphi = True
                return ('D', d)
            if ka == 'Q':
                return self.mkq(list(a[1]) + list(b[1]))
            if a == b: return a
        return self.mixed(a, b, h)
    def mkq(self, ps):
        out = []
        for p in ps:
            if p not in out: out.append(p)
        for p in out:
            o = p[1]
            if type(o) is int and o >= HEAP:
                if o in self.A.mem and o in self.B.mem and o not in self.oa and o not in self.ob: self.pairobj(o, o, o)
                else: self.keep(self.A if o in self.A.mem else self.B, p)
        if len(out) == 1: return out[0]
        if len(out) > 6:
            self.R.flag('too many pointer targets'); return ('U',)
        return ('Q', tuple(out))
    def mixed(self, a, b, h):
        if a == b: return a
        for x, y in ((a, b), (b, a)):
            if type(x) is tuple and x and x[0] == 'T':
                return x
        qa = list(a[1]) if type(a) is tuple and a and a[0] == 'Q' else [a]
        qb = list(b[1]) if type(b) is tuple and b and b[0] == 'Q' else [b]
        if all(type(p) is tuple and p and p[0] == 'P' for p in qa + qb): return self.mkq(qa + qb)
        if type(a) is tuple and a and a[0] == 'P' or type(b) is tuple and b and b[0] == 'P':
            # pointer vs dangling integer: the dangling one is never dereferenced with a nonzero extent
            for st, x in ((self.A, a), (self.B, b)):
                if type(x) is tuple and x and x[0] == 'P':
                    self.keep(st, x)
                    return x
        self.R.flag('join of unlike values')
        return ('U',)
    def ptr(self, a, b, h):
        ho = h[1] if type(h) is tuple and h and h[0] == 'P' else None
        if len(a[2]) == len(b[2]) and all(x == y or (type(x) is tuple and type(y) is tuple and x[0] == 'i' and y[0] == 'i') for x, y in zip(a[2], b[2])):
            oc = self.pairobj(a[1], b[1], ho)
            if oc is not None:
                hp = h[2] if type(h) is tuple and h and h[0] == 'P' and len(h[2]) == len(a[2]) else [None] * len(a[2])
                path = tuple(x if x == y else ('i', self.ival(x[1], y[1], z[1] if type(z) is tuple and z[0] == 'i' else None)) for x, y, z in zip(a[2], b[2], hp))
                if a[3] == b[3]: m = a[3]
                elif is_int(a[3]) and is_int(b[3]):
                    m = self.ival(a[3], b[3], h[3] if type(h) is tuple and h and h[0] == 'P' and is_int(h[3]) else None)
                else: m = ('dyn', None)
                return ('P', oc, path, m)
        return self.mkq([a, b])
    def summ(self, x, y, h):
        if x is None or y is None: return None
        if x[0] == 'N': return y
        if y[0] == 'N': return x
        if x[0] == 'R' and y[0] == 'R':
            lo, hi = min(x[1], y[1]), max(x[2], y[2])
            if self.loop is not None and self.rounds >= 3 and h is not None and h[0] == 'R':
                if lo < h[1]: lo = widen_lo(lo)
                if hi > h[2]: hi = widen_hi(hi)
            return ('R', lo, hi)
        if x == y: return x
        return None
    def seq(self, a, b, h):
        hs = h if type(h) is tuple and h and h[0] == 'S' else None
        nc = {}
        if a[4] == b[4]: ver = a[4]
        elif self.loop is not None and hs and hs[4] in self.loop.vers: ver = hs[4]
        else:
            ver = self.I.newver()
            self.I.versite[ver] = self.I.versite.get(b[4]) if b[4] != 0 else self.I.versite.get(a[4])
            if self.loop is not None: self.loop.vers.add(ver)
        summ = self.summ(a[2], b[2], hs[2] if hs else None)
        if summ is None and a[2] is not None and b[2] is not None and a[5] is not None and self.I.T[a[5]]['k'] in ('int', 'char'):
            summ = self.I.top_summ(a[5])
        val = None
        if a[3] is not None and b[3] is not None:
            hv = hs[3] if hs and hs[3] else ('N', None, None)
            val = ('N', self.ival(a[3][1], b[3][1], hv[1]), self.ival(a[3][2], b[3][2], hv[2]))
        self.cells.append((a, b, hs, nc))
        return ('S', nc, summ, val, ver, a[5] if a[5] is not None else b[5])
    def look(self, st, cells, k):
        v = cells.get(k)
        if v is not None: return v
        if type(k) is tuple or any(type(x) is tuple for x in cells):
            for kk, v in cells.items():
                if type(kk) is int and type(k) is int: continue
                if st.same(kk, k): return v
        return None
    def fill(self, c, bases):
        a, b, hs, nc = c
        if not a[1] or not b[1]: return
        hc = hs[1] if hs else {}
        phis = self.loop.phis if self.loop else ()
        cand = {}
        for ka, va in a[1].items():
            vb = self.look(self.B, b[1], ka)
            if vb is not None: cand[ka] = (va, vb)
            for a0, b0, phi in bases:
                d = sub(ka, a0)
                if type(d) is int and abs(d) <= 4:
                    vb = self.look(self.B, b[1], add(b0, d))
                    if vb is not None:
                        cand[add(phi, d)] = (va, vb)
        n = 0
        for k, (va, vb) in cand.items():
            nc[k] = self.val(va, vb, hc.get(k))
            n += 1
            if n > 600: break
    def subst(self, form, which):
        """replace phis by their value on one side"""
        r = form[1] if type(form) is tuple else form
        if type(form) is int: return form
        for a, k in form[2]:
            v = self.smap[which].get(a)
            if v is None: r = add(r, ('L', 0, ((a, k),)))
            else: r = add(r, scale(v, k))
        return r
    def facts(self):
        A, B, R = self.A, self.B, self.R
        phis = self.loop.phis if self.loop else set()
        for a, (l, h) in A.facts.items():
            if a in phis: continue
            f = B.facts.get(a)
            if f is None: f = (A_lo[a], A_hi[a])
            lo, hi = min(l, f[0]), max(h, f[1])
            if (lo > A_lo[a] or hi < A_hi[a]) and a not in R.facts: R.facts[a] = (lo, hi)
        self.smap = ({p[2][0][0]: a for a, b, p in self.bases}, {p[2][0][0]: b for a, b, p in self.bases})
        def consider(key, limit=None):
            if key in R.rel: return
            form = ('L', 0, key)
            fa = self.subst(form, 0); fb = self.subst(form, 1)
            la, ha = A.bounds(fa); lb, hb = B.bounds(fb)
            lo, hi = min(la, lb), max(ha, hb)
            rl, rh = R.bounds(form)
            nl = lo if lo > rl else NEG
            nh = hi if hi < rh else POS
            if self.loop is not None and self.H is not None and self.rounds >= 4:
                # widen: an established bound may only be kept or dropped
                p = self.H.rel.get(key)
                if p is None and self.rounds > 9: return
                if p is not None:
                    if nl < p[0]: nl = NEG if self.rounds > 5 else nl
                    if nh > p[1]: nh = POS if self.rounds > 5 else nh
            if nl > NEG or nh < POS: R.rel[key] = (nl, nh)
        keys = []
        if self.I.templates:
            import templ
            phib = {a: templ.deps(a, phis) and a not in phis for st in (A, B, self.H) if st is not None for key in st.rel for a, _ in key}
            phis = set(phis) | {a for a, d in phib.items() if d}
        for key in A.rel:
            if not any(x in phis and x not in self.smap[0] for x, _ in key): keys.append(key)
        for key in B.rel:
            if key not in A.rel and not any(x in phis and x not in self.smap[0] for x, _ in key): keys.append(key)
        if self.H is not None:
            for key in self.H.rel:
                if not any(x in phis and x not in self.smap[0] for x, _ in key): keys.append(key)
        # rename bare atoms to phis (plain joins)
        ren = {}
        if self.loop is None:
            for w, st in ((0, A), (1, B)):
                for t in self.bases:
                    v = t[w]
                    if is_lin(v) and len(v[2]) == 1 and v[2][0][1] == 1:
                        ren.setdefault(v[2][0][0], []).append(sub(t[2], v[1]))
                if ren:
                    for key in list(st.rel):
                        for x, k in key:
                            for nv in ren.get(x, ())[:2]:
                                f = add(sub(('L', 0, key), ('L', 0, ((x, k),))), scale(nv, k))
                                if type(f) is tuple and len(f[2]) > 1: keys.append(norm_key(f[2])[0])
                ren = {}
        # phi against phi / phi against the entry value
        seen = set()
        for key in keys[:400]:
            if key in seen: continue
            seen.add(key); consider(key)
        for key, ex in A.ne.items():
            if any(x in phis for x, _ in key): continue
            e2 = B.ne.get(key)
            keepv = set()
            for v in ex:
                if (e2 and v in e2) or B.evalc(('C', 'ne', ('L', -v, key))) is True: keepv.add(v)
            if keepv: R.ne[key] = R.ne.get(key, frozenset()) | frozenset(keepv)
        for key, ex in B.ne.items():
            if key in A.ne or any(x in phis for x, _ in key): continue
            keepv = {v for v in ex if A.evalc(('C', 'ne', ('L', -v, key))) is True}
            if keepv: R.ne[key] = R.ne.get(key, frozenset()) | frozenset(keepv)

def join2(I, A, B):
    return Joiner(I, A, B).run()

def join_all(I, ss):
    r = ss[0]
    for s in ss[1:]: r = join2(I, r, s)
    return r

def same_facts(a, b):
    return a.facts == b.facts and a.rel == b.rel and a.ne == b.ne

class NoIte(Exception): pass
def ite_val(t, x, y):
    if x is y or x == y: return x
    if is_int(x) and is_int(y):
        d = sub(x, y)
        if type(d) is int: return add(y, scale(t, d))
        for p, q in ((x, y), (y, x)):        # q ^ c on one side: q ^ (c*t)
            k = A_key[p[2][0][0]] if type(p) is tuple and p[1] == 0 and len(p[2]) == 1 and p[2][0][1] == 1 else ()
            if k and k[0] == 'xor':
                for u, v in ((k[1], k[2]), (k[2], k[1])):
                    if u == q and type(v) is int:
                        z = scale(t if p is x else sub(1, t), v)
                        u, z = sorted((u, z), key=repr)
                        return intern(('xor', u, z), A_lo[p[2][0][0]], A_hi[p[2][0][0]])
        return intern(('ite', t, x, y), min(ite_bound(x)[0], ite_bound(y)[0]), max(ite_bound(x)[1], ite_bound(y)[1]))
    if type(x) is tuple and type(y) is tuple and len(x) == len(y) and x[:1] == y[:1]:
        if x and x[0] == 'C': raise NoIte()
        return tuple(ite_val(t, a, b) for a, b in zip(x, y))
    if type(x) is dict and type(y) is dict and x.keys() == y.keys(): return {k: ite_val(t, x[k], y[k]) for k in x}
    raise NoIte()
def ite_bound(x):
    if type(x) is int: return (x, x)
    lo = hi = x[1]
    for a, k in x[2]:
        l, h = A_lo[a], A_hi[a]
        if k < 0: l, h = h, l
        lo += k * l; hi += k * h
    return max(lo, NEG), min(hi, POS)
def live_ne(S):
    """disequalities not already implied by the range of a single atom"""
    out = {}
    for k, v in S.ne.items():
        if len(k) == 1 and k[0][1] == 1:
            lo, hi = S.ab(k[0][0]); v = frozenset(x for x in v if lo <= x <= hi)
            if not v: continue
        out[k] = v
    return out
def implied(S, a):
    """the range of a shifted word follows from that of the word in any state"""
    k = A_key[a]; f = S.facts.get(a)
    if k[0] == 'shr' and type(k[2]) is int and is_int(k[1]):
        lo, hi = S.bounds(k[1])
        if lo < 0 or hi >= POS: return None
        r = (lo >> k[2], hi >> k[2])
    elif k[0] in ('xor', 'or'):
        (al, ah), (bl, bh) = S.bounds(k[1]), S.bounds(k[2])
        if al < 0 or bl < 0 or max(ah, bh) >= POS: return None
        r = (0 if k[0] == 'xor' else max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1)
    else: return None
    r = max(r[0], A_lo[a]), min(r[1], A_hi[a])
    return r if f is None or f == r else None
def ite_join(A, B):
    """two states that differ by the value of one 0/1 atom only, as one state (exact)"""
    if A.rel != B.rel or A.ev != B.ev or A.mem.keys() != B.mem.keys(): return None
    if A.ne != B.ne and live_ne(A) != live_ne(B): return None
    df = [a for a in set(A.facts) | set(B.facts) if A.ab(a) != B.ab(a)]
    keep = {}
    if len(df) > 1:
        for a in df:
            f = implied(A, a), implied(B, a)
            if None not in f and f[0] == f[1]: keep[a] = f[0]
        df = [a for a in df if a not in keep]
    if len(df) != 1: return None
    a = df[0]
    if {A.ab(a), B.ab(a)} != {(0, 0), (1, 1)} or (A_lo[a], A_hi[a]) != (0, 1): return None
    if A.ab(a) == (0, 0): A, B = B, A
    t = ('L', 0, ((a, 1),))
    R = A.copy(); R.imp = A.imp | B.imp
    R.facts.pop(a, None); R.facts.update(keep)
    if A.ne != B.ne: R.ne = live_ne(A)
    try:
        for k in A.mem:
            if A.mem[k] is not B.mem[k]: R.mem[k] = ite_val(t, A.mem[k], B.mem[k])
    except NoIte: return None
    return R
def reduce_ite(ss):
    out = list(ss); again = True
    while again:
        again = False; new = []
        for s in out:
            for i, o in enumerate(new):
                m = ite_join(o, s)
                if m is not None: new[i] = m; again = True; break
            else: new.append(s)
        out = new
    return out

def reduce_states(I, ss, K):
    if len(ss) == 1: return ss
    if I.ite:
        ss = reduce_ite(ss)
        if len(ss) == 1: return ss
    out = []
    for s in ss:
        for o in out:
            if o.mem == s.mem and same_facts(o, s) and o.ev == s.ev:
                o.imp = o.imp | s.imp
                break
        else: out.append(s)
    if len(out) <= K: return out
    # merge states with equal memory first
    res = []
    for s in out:
        for i, o in enumerate(res):
            if o.mem == s.mem and o.ev == s.ev:
                res[i] = join2(I, o, s); break
        else: res.append(s)
    if len(res) <= K: return res
    groups = {}
    for s in res: groups.setdefault((part_key(I, s), s.ev), []).append(s)
    while sum(len(g) for g in groups.values()) > K and any(len(g) > 1 for g in groups.values()):
        k = max(groups, key=lambda k: len(groups[k]))
        g = groups[k]
        b = g.pop(); a = g.pop()
        g.append(join2(I, a, b))
    res = [s for g in groups.values() for s in g]
    while len(res) > K:
        b = res.pop(); a = res.pop()
        res.insert(0, join2(I, a, b))
    return res

class LoopJoin:
    def __init__(self, I):
        self.I = I; self.phis = set(); self.merged = set(); self.vers = set(); self.dphi = set()
        self.E = None; self.stable = False; self.force = False; self.usedobj = set(); self.ghosts = {}
    def join(self, entry, backs, H, rounds):
        I = self.I
        if self.E is None:
            self.E = join_all(I, entry if entry else backs)
            if not entry: backs = []
        if not backs:
            if H is not None and not backs and self.last_back is False:
                self.stable = True
                return H
            self.last_back = False
            self.stable = False
            return self.E.copy()
        self.last_back = True
        B = join_all(I, backs)
        self.newphi = False
        self.usedobj = set()
        R = Joiner(I, self.E, B, H, self, rounds).run()
        if H is not None and R.mem == H.mem and R.facts == H.facts and R.rel == H.rel and R.ne == H.ne:
            self.stable = True
            R.imp = R.imp | H.imp
            return H
        self.stable = False
        return R
