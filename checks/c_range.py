"""Products of integer ranges and binomial coefficients at digit level: all positions of the range, fixed numbers of factors."""
from lib import *
import math
import lib, contracts as C, inputs as X
from c_float import div_hook
from c_big import mkarg
from c_nat import mkexact, vec_limbs, rc_of, mathv, dec, dec_eq, dead, check_nat
QLIM = 90
B = 'bigint::bigint::BigInt'
MIN, MAX = -(1 << 63), (1 << 63) - 1

def big_parts(I, st, v):
    """BigInt value -> (nat value, sign is negative: bool or None)"""
    if v[0] == 'T': v = I.materialize(st, v[1])
    t = I.p.tyname[B]
    fs = [n for n, _ in I.T[t]['variants'][0]['fields']]
    nat, sg = v[1][fs.index('nat')], v[1][fs.index('sign')]
    return nat, sg

def negative(I, sg):
    if not (type(sg) is tuple and sg[0] == 'E'): return None
    t = I.p.tyname[B]; ty = dict(I.T[t]['variants'][0]['fields'])['sign']
    return I.T[ty]['variants'][sg[1]]['name'] == 'Negative'

def run_range(lo, hi, k, name):
    """mul_range(a, a + k) for all a in [lo, hi] (k None: b is any value of its own class)"""
    path = B + '::mul_range'
    r = root(path); I = mkexact(); st = State(); f = lib.P.fns[r['inst']]
    if type(lo) is tuple:        # two digits: sign * (l + 2^32 h)
        sg_, (l0, l1), (h0, h1) = lo
        a = scale(add(l0 if l0 == l1 else fresh_in(l0, l1, 'l'), scale(h0 if h0 == h1 else fresh_in(h0, h1, 'h'), 1 << 32)), sg_)
        lo, hi = (1, MAX) if sg_ > 0 else (MIN, -1)
    else: a = lo if lo == hi else fresh_in(lo, hi, 'a')
    if type(k) is tuple: b = fresh_in(k[0], k[1], 'b') if k[0] < k[1] else k[0]
    else: b = add(a, k)
    key = '%s|%s' % (path, name)
    if type(k) is tuple and k[2] == 'empty' and not st.assume(c_ge(sub(sub(a, b), 1))): return []
    try: outs = run(I, st, r, [a, b])
    except Budget: return [(key, 'undecided', 'budget')]
    if type(k) is tuple: exp = [1] if k[2] == 'empty' else [0]; ng = False
    else: exp = None; ng = lo < 0 and k % 2 == 0
    res = reslist()
    for o in outs:
        if o.kind == 'panic':
            if dead(I, o.st): continue
            w = None if o.st.imp else witness(o.st, False, tries=1500)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w)))
            continue
        s = o.st; p = exp
        if p is None:
            v = 1
            for j in range(k + 1): v = I.mul(s, v, add(a, j) if hi > 0 else neg(add(a, j)))
            p = [v]
        nat, sg = big_parts(I, s, o.val)
        isneg = negative(I, sg)
        if isneg is None: res.append((key + '|sign', 'undecided', 'sign %s' % (sg,)))
        else:
            res.append((key + '|sign', 'proved' if isneg == ng else 'undecided' if s.imp or dead(I, s) else 'violated', 'the sign of the product is %s' % ('-' if isneg else '+')))
        for s2, rc in split_read(rc_of, I, s, nat):
            for what, z, d in check_nat(I, s2, rc, p): res.append((key + '|' + what, z, d))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res
def run_binom(lo, hi, k, fromtop, name):
    """binomial(n, k) (fromtop: binomial(n, n - k)) for all n in [lo, hi]"""
    path = B + '::binomial'
    r = root(path); I = mkexact(); st = State()
    div_hook(I)
    if type(lo) is tuple: n = add(fresh_in(lo[0], lo[1], 'l') if lo[0] < lo[1] else lo[0], scale(fresh_in(hi[0], hi[1], 'h'), 1 << 32))
    else: n = lo if lo == hi else fresh_in(lo, hi, 'n')
    key = '%s|%s' % (path, name)
    try: outs = run(I, st, r, [n, sub(n, k) if fromtop else k])
    except Budget: return [(key, 'undecided', 'budget')]
    res = reslist()
    for o in outs:
        s = o.st
        if o.kind == 'panic':
            if dead(I, s): continue
            w = None if s.imp else witness(s, False, tries=1500)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w)))
            continue
        p = 1
        for j in range(k): p = I.mul(s, p, sub(n, j))
        ks = {e[1] for e in s.ev if e[0] in ('div', 'rem')}
        if type(p) is int: exp = [p // math.factorial(k)]
        elif len(ks) == 1 and len([e for e in s.ev if e[0] == 'div']) == 1:
            d = I.divmemo[next(iter(ks))]; e = next(e for e in s.ev if e[0] == 'div')
            # floor(X / Y) == floor(p / k!): X = c * p and Y = c * k!
            Y = s.cst(d['Y'])
            if Y is None or Y % math.factorial(k): res.append((key, 'undecided', 'divisor')); continue
            z = dec_eq(I, s, d['X'], scale(p, Y // math.factorial(k)))
            if z[0] != 'proved': res.append((key + '|dividend', z[0], 'the dividend is not the product of the factors, e.g. %s' % (z[1],) if z[0] == 'violated' else z[1])); continue
            exp = [mathv(d['q'][e[2]])]
        elif not ks: exp = [p] if k < 2 else None
        else: exp = None
        if exp is None: res.append((key, 'undecided', 'division not recognised')); continue
        nat, sg = big_parts(I, s, o.val)
        ng = negative(I, sg)
        res.append((key + '|sign', 'undecided' if ng is None or ng and (s.imp or dead(I, s)) else 'violated' if ng else 'proved', 'a negative coefficient'))
        for s2, rc in split_read(rc_of, I, s, nat):
            for what, z, d in check_nat(I, s2, rc, exp): res.append((key + '|' + what, z, d))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res
def specs(which):
    out = []; th = lib.TIER == 'thorough'
    if which == 'range':
        for k in range(0, 5 if not th else 8):
            for nm, lo, hi in (('small', 1, (1 << 32) - 1 - k), ('neg small', -(1 << 32) + 1, -1 - k), ('min', MIN, MIN)):
                out.append(('range', lo, hi, k, '%s,%d factors' % (nm, k + 1)))
            if k > (1 if not th else 3): continue
            T = (1 << 32) - 1; H = (1 << 31) - 1
            for nm, l, h in [('', (0, T - k), (1, H))] + [(',carry %d' % c, (T - c + 1, T - c + 1), (1, H - 1)) for c in range(1, k + 1)]:
                out.append(('range', (1, l, h), None, k, 'large%s,%d factors' % (nm, k + 1)))
            for nm, l, h in [('', (k, T), (1, H))] + [(',carry %d' % c, (c, c), (2, H)) for c in range(k)]:
                out.append(('range', (-1, l, h), None, k, 'neg large%s,%d factors' % (nm, k + 1)))
        # partial products on either side of a power of 2^32: the sum of the two halves carries out of the top digit
        for k, e in ((2, 128), (4, 224), (5, 256)) if th else ((2, 128),):
            x = int(round(2.0 ** (e / (k + 1))))
            h, l = x >> 32, x & ((1 << 32) - 1)
            w = 1 << 16
            out.append(('range', (1, (l + 64, l + w), (h, h)), None, k, 'at 2^%d,above,%d factors' % (e, k + 1)))
            out.append(('range', (1, (l - w, l - 64), (h, h)), None, k, 'at 2^%d,below,%d factors' % (e, k + 1)))
            out.append(('range', (-1, (l + 64, l + w), (h, h)), None, k, 'neg at 2^%d,above,%d factors' % (e, k + 1)))
        out.append(('range', MIN + 1, 0, (0, MAX, 'zero'), 'around zero'))
        out.append(('range', MIN, MIN, (0, MAX, 'zero'), 'around zero from the minimum'))
        out.append(('range', MIN, MAX, (MIN, MAX, 'empty'), 'empty'))
    if which == 'binom':
        for k in range(0, 5 if not th else 8):
            for top in (False, True): out.append(('binom', 2 * k + 2, (1 << 32) - 1, k, top, 'n,%s%d' % ('n-' if top else '', k)))
            T = (1 << 32) - 1; H = (1 << 31) - 1
            if k < 3:
                for top in (False, True):
                    out.append(('binom', (max(k - 1, 0), T), (1, H), k, top, 'large n,%s%d' % ('n-' if top else '', k)))
                    for c in range(k - 1): out.append(('binom', (c, c), (1, H), k, top, 'large n,carry %d,%s%d' % (c, 'n-' if top else '', k)))
                    out.append(('binom', MAX, MAX, k, top, 'max,%s%d' % ('n-' if top else '', k)))
            for n in range(0, 2 * k + 2):
                out.append(('binom', n, n, k, False, '%d,%d' % (n, k)))
                if n >= k: out.append(('binom', n, n, k, True, '%d,%d-%d' % (n, n, k)))
    return out
RUN = {'range': run_range, 'binom': run_binom}
def job(spec): return RUN[spec[0]](*spec[1:])
