"""Number theory over the signed layer: gcd with Bezout coefficients (induction over the recursive call), modular inverse,
linear congruences, powers for small exponents, squares, ranges and binomials for small arguments."""
import itertools, math
from lib import *
import lib, contracts as C, inputs as X, templ
from c_big import mkarg, cn
from c_nat import dead
import c_rat
B = 'bigint::bigint::BigInt'; N = 'bigint::nat::Nat'

def sval(I, st, v):
    """BigInt value -> 'nan' | signed term"""
    if v[0] == 'T': v = I.materialize(st, v[1])
    o = I.newobj(st, v, 'res', I.p.tyname[B])
    return C.big_val(I, st, ('P', o, (), None))

def read3(I, st, v):
    if v[0] == 'T': v = I.materialize(st, v[1])
    return [sval(I, st, x) for x in v[1]]

def mag(x, st): return x if type(x) is int and x >= 0 or type(x) is not int and st.bounds(x)[0] >= 0 else neg(x)

def hyp_gcd(I, st, inst, f, a):
    """induction hypothesis: the recursive call returns (g, x, y), g = gcd(u, v), u*x + v*y = g"""
    if len(a) != 2 or len(I.T[f['locals'][0]].get('variants', [{}])[0].get('fields', [])) != 3: return None
    return C.h_gcd(I, st, inst, f, a)

def is_gcd(I, s, d, a, b):
    """d (a term) is gcd(a, b), a, b >= 0 terms: follow the remainders computed on this path"""
    seen = 0
    u, v = a, b
    for _ in range(12):
        if s.same(v, 0): return s.same(d, u)
        if s.same(u, 0): return s.same(d, v)
        g = C.ngcd(I, s.copy(), u, v)
        if s.same(d, g): return True
        nx = None
        for r, (x, y) in I.remof.items():
            if s.same(x, u) and s.same(y, v): nx = (v, r); break
        if nx is None:
            for r, (x, y) in I.remof.items():
                if s.same(x, v) and s.same(y, u): nx = (u, r); break
        if nx is None: return False
        u, v = nx
    return False

def exp_gcd(I, s, u, v):
    for _ in range(12):
        if s.same(v, 0): return u
        if s.same(u, 0): return v
        nx = [(v, r) for r, (x, y) in I.remof.items() if s.same(x, u) and s.same(y, v)] + [(u, r) for r, (x, y) in I.remof.items() if s.same(x, v) and s.same(y, u)]
        if not nx: return C.ngcd(I, s, u, v)
        if not s.same(nx[0][1], 0): return C.ngcd(I, s, u, v)
        u, v = nx[0]
def run_gcd(path, shapes):
    r = root(path)
    I = mkI(budget=300000, K=64, big=True)
    I.bezout = True; I.induct = (2, hyp_gcd)
    st = State(); f = lib.P.fns[r['inst']]
    key = '%s|%s' % (path, ','.join(map(cn, shapes)))
    args, vals, first = [], [], None
    for i, t in enumerate(f['locals'][1:1 + f['argc']]):
        if shapes[i] == 'alias': v, val = first
        else:
            v, info = X.big_obj(I, st, shapes[i], 'ab'[i]); val = info['val']
            if i == 0: first = v, val
        a_, h = mkarg(I, st, t, v, 'ab'[i]); args.append(a_); vals.append(val)
    outs = run(I, st, r, args)
    res = reslist()
    a, b = vals
    def put(s, w, z, msg): res.append(('%s|%s' % (key, w), z if not (z == 'violated' and (s.imp or dead(I, s))) else 'undecided', msg))
    for o in outs:
        if o.kind == 'panic':
            s0 = o.st
            if s0.imp or dead(I, s0): res.append((key, 'proved' if dead(I, s0) else 'undecided', 'panic? %s' % (o.panic.where,))); continue
            w = witness(s0, False)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w))); continue
        for s, (d, x, y) in split_read(read3, I, o.st, o.val):
            if 'nan' in (a, b):
                put(s, 'nan', 'proved' if (d, x, y) == ('nan',) * 3 else 'violated', 'a NaN operand gives %s' % (show(d),)); continue
            if 'nan' in (d, x, y): put(s, 'nan', 'violated', 'NaN result for numbers'); continue
            A_, B_ = mag(a, s), mag(b, s)
            if is_gcd(I, s, d, A_, B_): put(s, 'gcd', 'proved', '')
            elif infeasible(I, s): put(s, 'gcd', 'proved', 'unreachable')
            else:
                g = C.ngcd(I, s.copy(), A_, B_) if not (s.same(A_, 0) or s.same(B_, 0)) else B_ if s.same(A_, 0) else A_
                if s.cst(A_) == 0 and s.cst(B_) == 0: g = 0
                z, w = decide(I, s, c_eq(sub(d, g)))
                put(s, 'gcd', z, 'returns %s as gcd, e.g. %s' % (show(d)[:100], w) if z == 'violated' else w)
            e = sub(add(I.mul(s, a, x), I.mul(s, b, y)), d)
            if c_rat.poly_zero(I, s, e): put(s, 'bezout', 'proved', '')
            else:
                z, w = decide(I, s, c_eq(e))
                put(s, 'bezout', z, 'a*x + b*y differs from d, e.g. %s' % (w,) if z == 'violated' else w)
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

def congruent(I, s, e, n):
    """e is a multiple of the atom n, modulo the remainders and the equalities known on this path"""
    if type(n) is int: return type(e) is int and n and e % n == 0
    if len(n[2]) != 1 or n[1] or n[2][0][1] != 1: return False
    if s.cst(n) == 1: return True
    na = n[2][0][0]
    sub1 = {}
    for r, (x, y) in I.remof.items():
        if s.same(y, n) and type(r) is tuple and len(r[2]) == 1 and r[1] == 0 and r[2][0][1] == 1 and len(I.factors(r[2][0][0])) == 1: sub1[r[2][0][0]] = x
    for key, (lo, hi) in s.rel.items():
        if lo == hi:
            for f, k in key:
                if A_key[f][0] == 'bezout' and abs(k) == 1 and f not in sub1:
                    sub1[f] = scale(sub(lo, ('L', 0, tuple(p for p in key if p[0] != f))), k); break
    def red(e):
        for _ in range(200):
            if type(e) is int: return e
            ch = False; out = e[1]
            for a, c in e[2]:
                fs = []
                for f in I.factors(a):
                    l, h = s.ab(f)
                    if l == h: c *= l
                    else: fs.append(f)
                if len(fs) != len(list(I.factors(a))): ch = True
                if c == 0: continue
                if na in fs: ch = True; continue
                hit = next((f for f in fs if f in sub1), None)
                t = 1
                for f in fs:
                    t = I.mul(s, t, sub1[f] if f == hit else ('L', 0, ((f, 1),)))
                    if f == hit: hit = None; ch = True
                out = add(out, scale(t, c))
            e = out
            if not ch: return e
        return e
    e = red(e)
    if s.same(e, 0): return True
    rows = []
    for key, (lo, hi) in s.rel.items():
        if lo == hi: rows.append(red(sub(('L', 0, key), lo)))
    for r in rows:
        for k in (1, -1):
            if s.same(add(e, scale(r, k)), 0): return True
    return False

def read1(I, st, v):
    if v[0] == 'T': v = I.materialize(st, v[1])
    return v

def harness(path, shapes, setup=None):
    r = root(path)
    I = mkI(budget=300000, K=64, big=True)
    if setup: setup(I)
    st = State(); f = lib.P.fns[r['inst']]
    key = '%s|%s' % (path, ','.join(map(cn2, shapes)))
    args, vals, objs = [], [], []
    nt = I.p.tyname[N]
    for i, t in enumerate(f['locals'][1:1 + f['argc']]):
        x = I.T[t]; u = x['elem'] if x['k'] == 'ref' else t
        c = shapes[i]
        if type(c) is str and c.startswith('alias'): v, val = objs[int(c[5:] or 0)]
        elif u == nt:
            v, info = X.nat_obj(I, st, 'val' if type(c) is int else c, 'abc'[i], c); val = info['val']
        else:
            v, info = X.big_obj(I, st, c, 'abc'[i]); val = info['val']
        objs.append((v, val))
        a_, h = mkarg(I, st, t, v, 'abc'[i]); args.append(a_); vals.append(val)
    return I, st, key, vals, run(I, st, r, args)
def cn2(c): return str(c) if type(c) is int else cn(c)

def run_inv(path, shapes):
    def setup(I): I.bezout = True
    I, st, key, (a, n), outs = harness(path, shapes, setup)
    res = reslist()
    for o in outs:
        s0 = o.st
        if o.kind == 'panic':
            if dead(I, s0): res.append((key, 'proved', '')); continue
            if type(n) is int and n == 0: res.append((key, 'proved', 'modulus 0 is outside the property')); continue
            w = None if s0.imp else witness(s0, False)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w))); continue
        for s, x in split_read(sval, I, o.st, o.val):
            if 'nan' in (a, n):
                res.append((key + '|nan', 'proved' if x == 'nan' else 'undecided' if s.imp else 'violated', 'a NaN operand gives a number')); continue
            if type(n) is int and n == 0: continue
            A_, M = mag(a, s), mag(n, s)
            g = exp_gcd(I, s, A_, M)
            if not s.assume(c_eq(sub(g, 1))) : continue
            if x == 'nan': res.append((key + '|nan', 'undecided' if s.imp or dead(I, s) else 'violated', 'NaN although the inverse exists')); continue
            e = sub(I.mul(s, a, x), 1)
            if congruent(I, s, e, M): res.append((key + '|inverse', 'proved', '')); continue
            if dead(I, s): res.append((key + '|inverse', 'proved', 'unreachable')); continue
            z, w = decide(I, s, c_eq(sub(e, I.mul(s, M, intern(('div', e, M), NEG, POS)))))
            res.append((key + '|inverse', z, 'self * x is not 1 modulo n, e.g. %s' % (w,) if z == 'violated' else w))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

def run_pow(path, op, shapes):
    def setup(I):
        I.oprem = op != 'pow'; I.maxdeg = 200
        if all(type(x) is int for x in shapes[:2]): I.K = 1500; I.PEEL = 500
    I, st, key, vals, outs = harness(path, shapes, setup)
    a, b = vals[:2]; n = vals[2] if op == 'pow_mod' else 0
    res = reslist()
    for o in outs:
        s0 = o.st
        if o.kind == 'panic':
            if dead(I, s0): res.append((key, 'proved', '')); continue
            w = None if s0.imp else witness(s0, False)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w))); continue
        for s, m in split_read(rdnat, I, o.st, o.val):
            if 'nan' in vals:
                res.append((key + '|nan', 'proved' if m == 'nan' else 'undecided' if s.imp else 'violated', 'a NaN operand gives %s' % (show(m),))); continue
            if m == 'nan': res.append((key + '|nan', 'undecided' if s.imp or dead(I, s) else 'violated', 'NaN result for numbers')); continue
            if type(a) is int: p = pow(a, b, n) if type(n) is int and n and b > 999 else a ** b if a > 1 else int(a == 1 or b == 0)
            else:
                p = 1
                for _ in range(b): p = I.mul(s, p, a)
            if s.cst(n) == 0: z, w = decide_eq(I, s, m, p)
            elif s.cst(n) is not None and type(n) is not int: z, w = decide_eq(I, s, m, p % s.cst(n)) if type(p) is int else ('proved', '') if s.cst(n) == 1 and s.same(m, 0) else decide(I, s, c_eq(m))
            else:
                z, w = decide(I, s, c_and(c_ge(m), c_ge(sub(sub(n, m), 1))))
                if z == 'proved' and not congruent(I, s, sub(m, p), n):
                    e = sub(m, p)
                    z, w = decide(I, s, c_eq(sub(e, I.mul(s, n, intern(('div', e, n), NEG, POS)))))
            res.append((key + '|value', z, 'returns %s, e.g. %s' % (show(m)[:120], w) if z == 'violated' else w))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res
def rdnat(I, st, v):
    if v[0] == 'T': v = I.materialize(st, v[1])
    m, rc = X.read_nat(I, st, v)
    return m

LARGE = [2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 2 ** 64 + 2 ** 32, 2 ** 96 + 1]
def specs(which):
    out = []
    th = lib.TIER == 'thorough'
    CL = ['nan', 'zero', ('+', 'pos'), ('-', 'pos')]
    if which == 'gcd':
        for c in itertools.product(CL, CL + ['alias']):
            out.append(('gcd', B + '::gcd', c))
        for p in (B + '::gcd_extend',):
            if has(p):
                for c in itertools.product([('+', 'pos')], ['zero', ('+', 'pos')]): out.append(('gcd', p, c))
        for c in itertools.product(CL, CL): out.append(('inv', B + '::mod_inverse', c))
    if which == 'pow':
        es = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 15, 16, 17, 31, 32, 33] + (list(range(34, 130)) if th else [])
        for b in ['nan'] + es:
            for a in ('nan', 'zero', 'pos'):
                out.append(('pow', N + '::pow', 'pow', (a, b)))
        for b in LARGE:
            for a in (0, 1): out.append(('pow', N + '::pow', 'pow', (a, b)))
            for a in (0, 1, 3, 2 ** 40 + 1):
                for n in (1, 2, 7, 2 ** 32, 2 ** 64 - 59): out.append(('pow', N + '::pow_mod', 'pow_mod', (a, b, n)))
        for b in ['nan'] + es[:14]:
            for a in ('nan', 'zero', 'pos'):
                for n in ('nan', 'zero', 'pos') + (('alias0',) if a != 'nan' else ()):
                    out.append(('pow', N + '::pow_mod', 'pow_mod', (a, b, n)))
    return out
def job(spec):
    if spec[0] == 'gcd': return run_gcd(*spec[1:])
    if spec[0] == 'inv': return run_inv(*spec[1:])
    if spec[0] == 'pow': return run_pow(*spec[1:])
