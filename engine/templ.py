"""Loop-invariant templates over number values, tried at loop heads when the interpreter asks for exact values:
   p + m*q = T      (quotient accumulation)
   p - m*2^s = 0    (shifted divisor)
   p = T - m*g      (remainder: g is a ghost counter)
where p, q, s are values that change in the loop, m and T loop-invariant terms. A template becomes part of the loop
invariant only if it holds on entry and is re-established by the loop body, modulo the equalities of each state."""
from dom import *
from fractions import Fraction as F

def rows_of(st, avoid=()):
    """equalities of the state as {pivot atom: (coeffs, const)} with pivots outside `avoid`"""
    out = []
    for key, (lo, hi) in st.rel.items():
        if lo == hi: out.append(({a: F(k) for a, k in key}, F(-lo)))
    piv = []
    for d, c in out:
        d, c = elim(st, d, c, piv)
        if not d: continue
        cand = [a for a in d if a not in avoid and A_key[a][0] != 'mul'] or [a for a in d if a not in avoid] or list(d)
        p = max(cand); k = d[p]
        d = {a: v / k for a, v in d.items()}; c = c / k
        piv = [(q,) + elim1(dq, cq, p, d, c) for q, dq, cq in piv] + [(p, d, c)]
    return piv
def elim1(d, c, p, dp, cp):
    f = d.get(p)
    if not f: return d, c
    d = dict(d)
    for a, k in dp.items():
        n = d.get(a, 0) - f * k
        if n: d[a] = n
        else: d.pop(a, None)
    return d, c - f * cp
def elim(st, d, c, piv):
    d = dict(d)
    for a in list(d):
        l, h = st.ab(a)
        if l == h: c += d.pop(a) * l
    for p, dp, cp in piv: d, c = elim1(d, c, p, dp, cp)
    return d, c
def reduce(st, x, piv):
    """x modulo the equalities, or None when coefficients are not integers"""
    if type(x) is int: return x
    d, c = elim(st, {a: F(k) for a, k in x[2]}, F(x[1]), piv)
    if c.denominator != 1 or any(v.denominator != 1 for v in d.values()): return None
    return mk(int(c), {a: int(v) for a, v in d.items()})

def divide(I, st, x, m):
    """x / m if every monomial of x has the factor m (an atom), else None"""
    if type(x) is int: return 0 if x == 0 else None
    if x[1] != 0: return None
    ma = m[2][0][0]
    out = 0
    for a, c in x[2]:
        fs = list(I.factors(a))
        if ma not in fs: return None
        fs.remove(ma)
        t = 1
        for f in fs: t = I.mul(st, t, ('L', 0, ((f, 1),)))
        out = add(out, scale(t, c))
    return out

def simple(x):
    """a plain atom with coefficient 1"""
    return type(x) is tuple and x[0] == 'L' and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1

def deps(a, phis, seen=None):
    k = A_key[a]
    if a in phis: return True
    for y in k[1:]:
        if type(y) is tuple and y and y[0] == 'L':
            if any(deps(b, phis) for b, _ in y[2]): return True
        elif k[0] == 'mul' and type(y) is tuple:
            if any(deps(b, phis) for b in y): return True
    return False

def apply(J):
    I = J.I; A, B, R, L = J.A, J.B, J.R, J.loop
    phis = L.phis if L is not None else ()
    ms = []
    for inf in I.inputs:
        for v in (inf['val'],):
            if simple(v) and v not in ms: ms.append(v)
    ms += [m for m in I.templ_extra if m not in ms]
    bases = [(a, b, p) for a, b, p in J.bases if simple(p)]
    if len(bases) > 24 or not ms: return
    import contracts as C
    mats = {m[2][0][0] for m in ms}
    pa, pb, pb0 = rows_of(A, mats), rows_of(B, mats), rows_of(B)
    def eq0(st, x, piv):
        r = reduce(st, x, piv)
        return type(r) is int and r == 0
    small = [t for t in bases if R.bounds(t[2])[1] <= 1 << 70]
    # p = m * 2^s
    for a, b, p in bases:
        for a2, b2, s in small:
            if s == p: continue
            for m in ms:
                if eq0(A, sub(a, I.mul(A, m, C.pow2(I, A, a2))), pa) and eq0(B, sub(b, I.mul(B, m, C.pow2(I, B, b2))), pb):
                    f = sub(p, I.mul(R, m, C.pow2(I, R, s)))
                    R.set_lo_hi(f[2], -f[1], -f[1])
    # p + m*q = T (also m = 1)
    for a, b, p in bases:
        for a2, b2, q in bases:
            if p == q: continue
            for m in ms:
                T = reduce(A, add(a, I.mul(A, m, a2)), pa)
                if T is None or type(T) is int or any(deps(x, phis) for x in atoms_of(T)): continue
                if eq0(B, sub(add(b, I.mul(B, m, b2)), T), pb):
                    f = sub(add(p, I.mul(R, m, q)), T)
                    R.set_lo_hi(f[2], -f[1], -f[1])
    # p = T - m*g
    for a, b, p in bases:
        for m in ms:
            T = reduce(A, a, pa)
            if T is None or type(T) is int or simple(m) and m[2] == T[2] or any(deps(x, phis) for x in atoms_of(T)): continue
            g1 = None
            for rows in (pb, pb0, rows_of(B, {m[2][0][0]})):
                d = reduce(B, sub(T, b), rows)
                if d is not None: g1 = divide(I, B, d, m)
                if g1 is not None: break
            if g1 is None: continue
            k = (p[2][0][0], m)
            g = L.ghosts.get(k) if L is not None else None
            if g is None:
                g = fresh(NEG, POS, 'ghost')
                if L is not None:
                    L.ghosts[k] = g
                    L.phis.add(g[2][0][0])
            lo = min(0, B.bounds(g1)[0])
            old = J.H.facts.get(g[2][0][0]) if J.H is not None else None
            if old is not None and lo < old[0]: lo = NEG
            R.facts[g[2][0][0]] = (lo, POS)
            f = sub(add(p, I.mul(R, m, g)), T)
            R.set_lo_hi(f[2], -f[1], -f[1])
