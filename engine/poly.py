"""Entailment in the polyhedral domain: are the linear relations of a state together with one more inequality contradictory?
Exact rational arithmetic (bounded-variable simplex on the relations, Bland's rule); 'True' is a proof, 'False' means unknown."""
from fractions import Fraction as F
from math import gcd

def infeasible(cons, bnds, limit=400):
    """cons: [(dict var -> int, lo, hi)], bnds: dict var -> (lo, hi); None = unbounded.  True when no rational point exists."""
    xs = {}
    for d, lo, hi in cons:
        for v in d: xs.setdefault(v, bnds.get(v, (None, None)))
    lo, hi, val = {}, {}, {}
    for v, (l, h) in xs.items():
        if l is not None and h is not None and l > h: return True
        lo[v], hi[v] = l, h
        val[v] = F(l if l is not None else h if h is not None else 0)
    rows = {}
    for i, (d, l, h) in enumerate(cons):
        s = ('s', i)
        rows[s] = {v: F(c) for v, c in d.items() if c}
        lo[s], hi[s] = l, h
        if l is not None and h is not None and l > h: return True
        val[s] = sum((c * val[v] for v, c in rows[s].items()), F(0))
    order = {v: i for i, v in enumerate(list(xs) + list(rows))}
    for it in range(limit):
        bad = None
        for b in rows:
            if lo[b] is not None and val[b] < lo[b] or hi[b] is not None and val[b] > hi[b]:
                if bad is None or order[b] < order[bad]: bad = b
        if bad is None: return False
        b = bad; row = rows[b]
        up = lo[b] is not None and val[b] < lo[b]
        piv = None
        for v, c in row.items():
            inc = (c > 0) == up
            if inc and (hi[v] is None or val[v] < hi[v]) or not inc and (lo[v] is None or val[v] > lo[v]):
                if piv is None or order[v] < order[piv]: piv = v
        if piv is None: return True
        target = F(lo[b] if up else hi[b])
        a = row[piv]; th = (target - val[b]) / a
        val[b] = target; val[piv] += th
        for r, rw in rows.items():
            if r != b and piv in rw: val[r] += rw[piv] * th
        # pivot: piv becomes basic
        del rows[b]
        nr = {v: -c / a for v, c in row.items() if v != piv}; nr[b] = 1 / a
        for r, rw in rows.items():
            k = rw.pop(piv, None)
            if k:
                for v, c in nr.items():
                    n = rw.get(v, 0) + k * c
                    if n: rw[v] = n
                    else: rw.pop(v, None)
        rows[piv] = nr
    return False

def relevant(cons, seed):
    """constraints transitively sharing variables with the seed"""
    seen = set(seed); out = []; left = list(cons); ch = True
    while ch:
        ch = False; nl = []
        for c in left:
            if not seen.isdisjoint(c[0]): seen.update(c[0]); out.append(c); ch = True
            else: nl.append(c)
        left = nl
    return out

def cuts(cons, bnds=None, cap=60):
    """integer rounding: eliminating y between  l <= c*y + ... <= h  and  0 <= y - 2^k a <= 2^k - 1  may leave coefficients
    with a common divisor, whose bounds round inwards.  With bnds, variables whose coefficient spoils the common divisor
    (low digits) are replaced by their bounds first."""
    defs = []
    for d, l, h in cons:
        if len(d) != 2 or l is None or h is None: continue
        for y, a in (tuple(d), tuple(d)[::-1]):
            if abs(d[y]) == 1 and (abs(d[a]) > 1 or bnds is not None and l == h): defs.append((y, d[y], d, l, h))
    out = []; seen = set()
    def emit(n, nl, nh):
        g = 0
        for c in n.values(): g = gcd(g, c)
        if g <= 1 and bnds is not None and len(n) > 1:
            M = max(abs(c) for c in n.values()); n2 = {}
            if M == 1: return
            for v, c in n.items():
                if c % M == 0: n2[v] = c; continue
                bl, bh = bnds.get(v, (None, None))
                if bl is None or bh is None: return
                if nl is not None: nl -= c * (bh if c > 0 else bl)
                if nh is not None: nh -= c * (bl if c > 0 else bh)
            n = n2; g = M
        if g <= 1 or not n: return
        nl = None if nl is None else -((-nl) // g)
        nh = None if nh is None else nh // g
        k = (tuple(sorted((v, c // g) for v, c in n.items())), nl, nh)
        if k in seen: return
        seen.add(k); out.append((dict(k[0]), nl, nh))
    if bnds is not None:
        for d, l, h in cons: emit(d, l, h)
    for d, l, h in cons:
        for y, s, e, el, eh in defs:
            if d is e or y not in d: continue
            f = d[y] * s                          # d - f*e has no y
            n = dict(d)
            for v, c in e.items():
                x = n.get(v, 0) - f * c
                if x: n[v] = x
                else: n.pop(v, None)
            a, b = (f * el, f * eh) if f > 0 else (f * eh, f * el)
            emit(n, None if l is None else l - b, None if h is None else h - a)
            if len(out) >= cap: return out
    return out

def subst_eqs(cons, bnds):
    """eliminate variables that an equality with a unit coefficient determines (their bounds become rows)"""
    cons = [(dict(d), l, h) for d, l, h in cons]; b = dict(bnds); n = 0
    while True:
        e = next(((i, v) for i, (d, l, h) in enumerate(cons) if l is not None and l == h for v in d if abs(d[v]) == 1), None)
        if e is None or n > 200: return cons, b, n
        i, v = e; d, k, _ = cons.pop(i); n += 1
        s = d[v]; ex = {a: -c * s for a, c in d.items() if a != v}; c0 = k * s      # v = c0 + ex
        l, h = b.pop(v, (None, None))
        if l is not None or h is not None: cons.append(({v: 1}, l, h))
        out = []
        for q, l, h in cons:
            f = q.get(v)
            if f:
                q = dict(q); del q[v]
                for a, c in ex.items():
                    x = q.get(a, 0) + f * c
                    if x: q[a] = x
                    else: q.pop(a, None)
                l = None if l is None else l - f * c0; h = None if h is None else h - f * c0
            if q: out.append((q, l, h))
            elif l is not None and l > 0 or h is not None and h < 0: out.append(({}, 1, 0))
        cons = out
        if any(not q for q, l, h in cons): return [({}, 1, 0)], b, n
