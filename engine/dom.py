"""Abstract domain: mathematical-integer linear forms over value-numbered atoms,
interval / difference facts per state, structured values and memory."""
from math import gcd
POS = 1 << 1500
NEG = -POS

# ---------------------------------------------------------------- atoms
A_key = [None]; A_lo = [0]; A_hi = [0]
_intern = {}

def reset_atoms():
    del A_key[1:]; del A_lo[1:]; del A_hi[1:]
    _intern.clear(); A_input.clear()

def fresh(lo, hi, name='s'):
    A_key.append((name,)); A_lo.append(lo); A_hi.append(hi)
    return ('L', 0, ((len(A_key) - 1, 1),))

A_input = set()
def fresh_in(lo, hi, name):
    """an atom standing for an input of the analysed function"""
    r = fresh(lo, hi, name)
    A_input.add(r[2][0][0])
    return r

def intern(key, lo, hi):
    """value-numbered atom for a deterministic operation"""
    x = _intern.get(key)
    if x is None:
        A_key.append(key); A_lo.append(lo); A_hi.append(hi)
        x = _intern[key] = ('L', 0, ((len(A_key) - 1, 1),))
    return x

def mk(c, d):
    if not d: return c
    return ('L', c, tuple(sorted(d.items())))

def add(a, b):
    if type(a) is int:
        if type(b) is int: return a + b
        return b if a == 0 else ('L', b[1] + a, b[2])
    if type(b) is int:
        return a if b == 0 else ('L', a[1] + b, a[2])
    d = dict(a[2])
    for k, v in b[2]:
        n = d.get(k, 0) + v
        if n: d[k] = n
        else: del d[k]
    return mk(a[1] + b[1], d)

def scale(a, k):
    if type(a) is int: return a * k
    if k == 1: return a
    if k == 0: return 0
    return ('L', a[1] * k, tuple((x, c * k) for x, c in a[2]))

def neg(a): return scale(a, -1)
def sub(a, b):
    if type(b) is int: return add(a, -b)
    return add(a, neg(b))

def atoms_of(a):
    return () if type(a) is int else [x for x, _ in a[2]]

def is_int(v): return type(v) is int or (type(v) is tuple and v and v[0] == 'L')
def is_lin(v): return type(v) is tuple and v and v[0] == 'L'

# ---------------------------------------------------------------- conditions
def c_ge(l):
    if type(l) is int: return l >= 0
    return ('C', 'ge', l)
def c_eq(l):
    if type(l) is int: return l == 0
    if l[2][0][1] < 0: l = scale(l, -1)
    return ('C', 'eq', l)
def c_ne(l):
    if type(l) is int: return l != 0
    if l[2][0][1] < 0: l = scale(l, -1)
    return ('C', 'ne', l)
def c_not(c):
    if c is True: return False
    if c is False: return True
    k = c[1]
    if k == 'ge': return ('C', 'ge', sub(-1, c[2]))
    if k == 'eq': return ('C', 'ne', c[2])
    if k == 'ne': return ('C', 'eq', c[2])
    if k == 'and': return c_or(c_not(c[2]), c_not(c[3]))
    if k == 'or': return c_and(c_not(c[2]), c_not(c[3]))
    raise ValueError(c)
def c_and(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    if a == b: return a
    return ('C', 'and', a, b)
def c_or(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    if a == b: return a
    return ('C', 'or', a, b)

def fresh_bool(name='b'):
    return ('C', 'ne', fresh(0, 1, name))

def norm_key(terms):
    """(key, s): terms == s * key, key primitive with a positive leading coefficient"""
    g = 0
    for _, k in terms:
        g = gcd(g, k)
        if g == 1: break
    if terms[0][1] < 0: g = -g
    if g == 1: return terms, 1
    return tuple((a, k // g) for a, k in terms), g

class State:
    __slots__ = ('mem', 'facts', 'rel', 'ne', 'imp', 'tr', 'ev')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.rel = {}; self.ne = {}
        self.imp = frozenset(); self.tr = None; self.ev = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy(); s.facts = self.facts.copy(); s.rel = self.rel.copy(); s.ne = self.ne.copy()
        s.imp = self.imp; s.tr = self.tr; s.ev = self.ev
        return s
    def flag(self, why):
        if why not in self.imp: self.imp = self.imp | {why}
    # ---- bounds
    def ab(self, a):
        f = self.facts.get(a)
        if f is not None: return f
        return (A_lo[a], A_hi[a])
    def bounds(self, x, deep=True):
        if type(x) is int: return (x, x)
        c, terms = x[1], x[2]
        if len(terms) == 1:
            a, k = terms[0]
            f = self.facts.get(a)
            if f is None: lo, hi = A_lo[a], A_hi[a]
            else: lo, hi = f
            if k >= 0: return (c + k * lo, c + k * hi)
            return (c + k * hi, c + k * lo)
        lo = hi = c
        for a, k in terms:
            l, h = self.ab(a)
            if k >= 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        if self.rel:
            key, s = norm_key(terms)
            f = self.rel.get(key)
            if f is not None:
                l, h = f
                if s != 1: l, h = (l * s, h * s) if s > 0 else (h * s, l * s)
                if c + l > lo: lo = c + l
                if c + h < hi: hi = c + h
            if deep and lo < hi:
                td = dict(terms)
                for fk, (l, h) in self.rel.items():
                    for fa, k0 in fk:
                        if fa in td: break
                    else: continue
                    q = td[fa] // k0 if td[fa] % k0 == 0 else 1
                    for s in ((q,) if q in (1, -1) else (q, 1, -1)):
                        # rest = x - s*f
                        d = dict(td)
                        for fa, k in fk:
                            n = d.get(fa, 0) - s * k
                            if n: d[fa] = n
                            elif fa in d: del d[fa]
                        if len(d) >= len(td): 
                            if len(d) > len(td) or len(td) > 2: continue
                        rl, rh = self.bounds(mk(c, d), False) if d else (c, c)
                        if s > 0: nl, nh = s * l + rl, s * h + rh
                        else: nl, nh = s * h + rl, s * l + rh
                        if nl > lo: lo = nl
                        if nh < hi: hi = nh
        return (max(lo, NEG), min(hi, POS))
    # ---- evaluate conditions: True/False/None
    def evalc(self, c):
        if c is True or c is False: return c
        k = c[1]
        if k == 'ge':
            lo, hi = self.bounds(c[2])
            if lo >= 0: return True
            if hi < 0: return False
            return None
        if k in ('eq', 'ne'):
            l = c[2]
            lo, hi = self.bounds(l)
            r = None
            if lo == hi == 0: r = True
            elif lo > 0 or hi < 0: r = False
            else:
                e = self.ne.get(l[2])
                if e is not None and -l[1] in e: r = False
            if r is None: return None
            return r if k == 'eq' else not r
        a = self.evalc(c[2]); b = self.evalc(c[3])
        if k == 'and':
            if a is False or b is False: return False
            if a and b: return True
            return None
        if a or b: return True
        if a is False and b is False: return False
        return None
    # ---- assume; returns False if infeasible
    def set_lo_hi(self, terms, lo, hi):
        if len(terms) == 1:
            a, k = terms[0]
            if k < 0: lo, hi, k = -hi, -lo, -k
            if k != 1: lo, hi = -((-lo) // k), hi // k
            l, h = self.ab(a)
            nl, nh = max(l, lo), min(h, hi)
            e = self.ne.get(((a, 1),))
            if e:
                while nl in e and nl <= nh: nl += 1
                while nh in e and nl <= nh: nh -= 1
            if nl > nh: return False
            if (nl, nh) != (l, h):
                self.facts[a] = (nl, nh)
                return self.back(a, nl, nh)
            return True
        key, s = norm_key(terms)
        if s < 0: lo, hi, s = -hi, -lo, -s
        if s != 1:
            lo = -((-lo) // s) if lo > NEG else NEG
            hi = hi // s if hi < POS else POS
        l, h = self.rel.get(key, (NEG, POS))
        nl, nh = max(l, lo), min(h, hi)
        bl, bh = self.bounds(('L', 0, key))
        e = self.ne.get(key)
        if e:
            l2, h2 = max(nl, bl), min(nh, bh)
            while l2 in e and l2 <= h2: l2 += 1
            while h2 in e and l2 <= h2: h2 -= 1
            nl, nh = max(nl, l2), min(nh, h2)
        if max(nl, bl) > min(nh, bh): return False
        if (nl, nh) != (l, h): self.rel[key] = (nl, nh)
        # propagate to atoms
        for a, k in key:
            rest = mk(0, {x: c for x, c in key if x != a})
            rl, rh = self.bounds(rest, False)
            # nl <= k*a + rest <= nh
            al, ah = nl - rh, nh - rl
            if k < 0: al, ah, kk = -ah, -al, -k
            else: kk = k
            if kk != 1: al, ah = -((-al) // kk), ah // kk
            l, h = self.ab(a)
            if al > l or ah < h:
                if not self.set_lo_hi(((a, 1),), max(al, NEG), min(ah, POS)): return False
        return True
    def back(self, a, lo, hi):
        """structural refinement of an atom's operands"""
        key = A_key[a]
        if key[0] == 'b2i' and lo == hi:
            return self.assume(key[1] if lo == 1 else c_not(key[1]))
        if key[0] == 'nlen':   # limb count of a canonical natural
            v = key[1]
            if hi < (1 << 20) and not self.assume(c_ge(sub((1 << (32 * hi)) - 1, v)) if 32 * hi < 190 else True): return False
            if lo >= 2 and not self.assume(c_ge(sub(v, 1 << min(32 * (lo - 1), 180)))): return False
            return True
        return True
    def assume(self, c, truth=True):
        if not truth: c = c_not(c)
        if c is True: return True
        if c is False: return False
        k = c[1]
        if k == 'ge':
            l = c[2]
            return self.set_lo_hi(l[2], -l[1], POS)
        if k == 'eq':
            l = c[2]
            v = -l[1]
            e = self.ne.get(l[2])
            if e is not None and v in e: return False
            return self.set_lo_hi(l[2], v, v)
        if k == 'ne':
            l = c[2]; v = -l[1]
            lo, hi = self.bounds(('L', 0, l[2]))
            if v < lo or v > hi: return True
            if lo == hi == v: return False
            self.ne[l[2]] = self.ne.get(l[2], frozenset()) | {v}
            if v == lo: return self.set_lo_hi(l[2], lo + 1, POS)
            if v == hi: return self.set_lo_hi(l[2], NEG, hi - 1)
            return True
        if k == 'and':
            return self.assume(c[2]) and self.assume(c[3])
        if k == 'or':
            a = self.evalc(c[2]); b = self.evalc(c[3])
            if a is False: return self.assume(c[3]) if b is not False else False
            if b is False: return self.assume(c[2])
            return True
        raise ValueError(c)
    def same(self, x, y):
        """provably equal ints?"""
        if x == y: return True
        lo, hi = self.bounds(sub(x, y))
        return lo == hi == 0
    def cst(self, x):
        """constant value if determined"""
        if type(x) is int: return x
        lo, hi = self.bounds(x)
        return lo if lo == hi else None

# memory values
# int | Lin | bool | Cond
# ('A',(fields..)) | ('E',tag,(payload|None..)) | ('P',obj,path,meta) | ('Q',(P..)) | ('S',cells,summary,val)
# ('T',ty) | ('F',inst) | ('D',id) float | ('U',) unknown pointer
UNIT = ('A', ())
