"""Canonical form of machine words: every bit as a polynomial over GF(2) in the bits of the inputs
(algebraic normal form); sums that are not bitwise are value-numbered by their canonical operands."""
from dom import *
ZERO = frozenset(); ONE = frozenset([frozenset()])
MAXANF = 4096

class TooBig(Exception): pass

def anf_mul(p, q):
    if not p or not q: return ZERO
    if p == ONE: return q
    if q == ONE: return p
    if len(p) * len(q) > MAXANF: raise TooBig()
    out = set()
    for x in p:
        for y in q: out ^= {x | y}
    return frozenset(out)

def const(v, w): return tuple(ONE if (v >> i) & 1 else ZERO for i in range(w))
def cval(bits):
    r = 0
    for i, b in enumerate(bits):
        if b == ONE: r |= 1 << i
        elif b: return None
    return r
def xor(x, y): return tuple(a ^ b for a, b in zip(x, y))
def land(x, y): return tuple(anf_mul(a, b) for a, b in zip(x, y))
def lor(x, y): return tuple(a ^ b ^ anf_mul(a, b) for a, b in zip(x, y))
def shl(x, k): return (ZERO,) * min(k, len(x)) + x[:max(len(x) - k, 0)]
def shr(x, k): return x[k:] + (ZERO,) * min(k, len(x))
def ext(x, w): return x[:w] + (ZERO,) * (w - len(x))

class Canon:
    def __init__(self, st):
        self.st = st; self.memo = {}; self.ids = {}; self.sub = {}
        self.learn()
    # ---- facts of the path as affine equations between bits
    def learn(self):
        st = self.st
        fs = [(a, lo) for a, (lo, hi) in list(st.facts.items()) if lo == hi and lo >= 0 and len(A_key[a]) > 1]
        for _ in range(4):           # a learnt bit may be part of the name of a later sum
            got = False
            for a, v in fs:
                try:
                    w = max(A_hi[a].bit_length(), v.bit_length(), 1)
                    eqs = list(zip(self.atom(a, w), const(v, w))) if w <= 128 else []
                except TooBig: continue
                n = len(self.sub)
                for p, c in eqs: self.learn1(p, c)
                if len(self.sub) != n: self.memo = {}; got = True
            if not got: break
    def learn1(self, p, c):
        e = self.apply(p ^ c)
        vs = [m for m in e if len(m) == 1]
        if not e or any(len(m) > 1 for m in e) or not vs: return
        v = max(vs, key=lambda m: sorted(m)); (var,) = v
        rest = e ^ frozenset([v])
        for k in list(self.sub): self.sub[k] = self.sub1(self.sub[k], var, rest)
        self.sub[var] = rest
    def sub1(self, p, var, rest):
        out = p
        for m in p:
            if var in m:
                q = anf_mul(frozenset([m - {var}]), rest)
                out = out ^ frozenset([m]) ^ q
        return out
    def apply(self, p):
        if not self.sub: return p
        for _ in range(8):
            hit = {v for m in p for v in m if v in self.sub}
            if not hit: break
            for v in hit: p = self.sub1(p, v, self.sub[v])
        return p
    def fin(self, bits): return tuple(self.apply(b) for b in bits)
    # ---- opaque words
    def opaque(self, key, w, nb=None):
        i = self.ids.setdefault(key, len(self.ids))
        nb = w if nb is None else min(nb, w)
        return tuple(frozenset([frozenset([('o', i, b)])]) for b in range(nb)) + (ZERO,) * (w - nb)
    def full(self, x):
        """canonical bits of a non-negative term at its full width, or a raw key"""
        if type(x) is int: return x
        lo, hi = self.st.bounds(x)
        if lo < 0 or hi.bit_length() > 256: return ('raw', x)
        return self.word(x, hi.bit_length())
    # ---- linear forms modulo 2^w
    def mksum(self, terms, c, w):
        """terms: list of (bits, coefficient); canonical bits of c + sum mod 2^w"""
        acc = {}
        for b, k in terms:
            k %= 1 << w
            if not k: continue
            t = (k & -k).bit_length() - 1
            nz = [q for q in b if q]
            if len(nz) == 1:         # k copies of one bit: the bit at every position set in k
                p = next(i for i, q in enumerate(b) if q)
                m = (k << p) % (1 << w)
                if not m: continue
                b = tuple(nz[0] if (m >> i) & 1 else ZERO for i in range(w)); k = 1; t = 0
            b = shl(ext(b, w), t); k >>= t
            v = cval(b)
            if v is not None: c += k * v; continue
            z = next(i for i, q in enumerate(b) if q)
            k %= 1 << (w - z)
            acc[b] = acc.get(b, 0) + k
        out = {}
        for b, k in acc.items():
            z = next(i for i, q in enumerate(b) if q)
            k %= 1 << (w - z)
            if k: out.setdefault(k, []).append(b)
        c %= 1 << w
        # bitwise-disjoint words with the same coefficient are one word
        res = []
        for k in sorted(out):
            ws = sorted(out[k], key=lambda b: repr([sorted(map(sorted, q)) if False else len(q) for q in b]))
            merged = []
            for b in ws:
                for j, m in enumerate(merged):
                    if all(not (p and q) for p, q in zip(b, m)): merged[j] = xor(b, m); break
                else: merged.append(b)
            res += [(k, b) for b in merged]
        if not res: return const(c, w)
        cb = const(c, w)
        for j, (k, b) in enumerate(res):
            if k == 1 and c and all(not (p and q) for p, q in zip(b, cb)):
                res[j] = (1, xor(b, cb)); c = 0; break
        if len(res) == 1 and c == 0:
            k, b = res[0]
            if k == 1: return b
        key = ('sum', w, c, frozenset((k, b) for k, b in res))
        return self.opaque(key, w)
    def collect(self, x, k, w, terms):
        """add k*x mod 2^w; returns the constant part"""
        if type(x) is int: return k * x
        c = k * x[1]
        d = dict(x[2])
        # x - 2^s*(x >> s) is the low part of x
        for a, q in list(d.items()):
            if a not in d: continue
            ak = A_key[a]
            if ak[0] == 'shr' and type(ak[2]) is int and type(ak[1]) is tuple and len(ak[1][2]) == 1 and ak[1][1] == 0 and ak[1][2][0][1] == 1:
                b = ak[1][2][0][0]
                if b in d and d[a] == -(d[b] << ak[2]):
                    lw = self.atom(b, max(ak[2], 1))[:ak[2]]
                    terms.append((ext(lw, w), k * d[b])); del d[a]; del d[b]
        for a, q in d.items():
            ak = A_key[a]; q *= k
            if ak[0] == 'wrap' and ak[3] - ak[2] + 1 >= 1 << w: c += self.collect(ak[1], q, w, terms)
            elif ak[0] == 'shl' and type(ak[2]) is int and ak[4] - ak[3] + 1 >= 1 << w: c += self.collect(ak[1], q << ak[2], w, terms)
            else: terms.append((self.atom(a, w), q))
        return c
    def word(self, x, w):
        """bits of the integer x, the low w of them; sums are numbered at a machine width"""
        if type(x) is int: return const(x % (1 << w), w)
        one = len(x[2]) == 1 and x[1] == 0 and x[2][0][1] == 1
        if not one or A_key[x[2][0][0]][0] in ('wrap', 'shl'):
            lo, hi = self.st.bounds(x) if not one else (A_lo[x[2][0][0]], A_hi[x[2][0][0]])
            if lo >= 0:
                for m in (32, 64, 128):
                    if hi < 1 << m: return ext(self.modw(x, m), w)
        return self.modw(x, w)
    def modw(self, x, w):
        if type(x) is int: return const(x % (1 << w), w)
        terms = []
        c = self.collect(x, 1, w, terms)
        return self.mksum(terms, c, w)
    def atom(self, a, w):
        r = self.memo.get((a, w))
        if r is None:
            r = self.memo[(a, w)] = self.fin(self.atom0(a, w))
        return r
    def atom0(self, a, w):
        k = A_key[a]; n = k[0]
        lo, hi = self.st.ab(a)
        nb = w if lo < 0 else min(w, hi.bit_length())
        if lo < 0: return self.opaque(('neg', a), w)
        if len(k) == 1:
            return tuple(frozenset([frozenset([('a', a, i)])]) for i in range(nb)) + (ZERO,) * (w - nb)
        try:
            if n == 'xor': return xor(self.word(k[1], w), self.word(k[2], w))
            if n == 'and': return land(self.word(k[1], w), self.word(k[2], w))
            if n == 'or': return lor(self.word(k[1], w), self.word(k[2], w))
            if n == 'ite':
                t = self.word(k[1], 1)[0]; y = self.word(k[3], w)
                return tuple(q ^ anf_mul(t, p ^ q) for p, q in zip(self.word(k[2], w), y))
            if n == 'shr' and type(k[2]) is int:
                return shr(self.word(k[1], w + k[2]), k[2])[:w]
            if n == 'shl' and type(k[2]) is int and k[3] == 0:
                m = (k[4] + 1).bit_length() - 1
                return ext(shl(self.modw(k[1], m), k[2]), w)
            if n == 'wrap' and k[2] == 0:
                m = (k[3] + 1).bit_length() - 1
                if k[3] + 1 == 1 << m:
                    M = next((x for x in (32, 64, 128) if m <= x), m)
                    return ext((self.modw(k[1], m) if m == M else self.word(k[1], M))[:m], w)
            if n == 'b2i' and type(k[1]) is tuple and k[1][1] in ('ne', 'eq'):
                b = self.full(k[1][2])
                if type(b) is tuple and b[0] != 'raw':
                    nz = [q for q in b if q]
                    if len(nz) == 1: return ext(((nz[0] if k[1][1] == 'ne' else nz[0] ^ ONE),), w)
            if n in ('rem', 'nrem', 'div', 'ndiv'): return self.opaque((n, self.full(k[1]), self.full(k[2])), w, nb)
            if n == 'mul': return self.opaque((n, tuple(sorted((repr(self.full(('L', 0, ((f, 1),)))) for f in k[1])))), w, nb)
        except TooBig: pass
        return self.opaque(('atom', a), w, nb)

def canon_eq(st, x, y, w):
    c = Canon(st)
    try: return c.fin(c.word(x, w)) == c.fin(c.word(y, w))
    except TooBig: return False
