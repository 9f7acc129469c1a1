"""Rational numbers over BigInt contracts: exact value, lowest terms, positive denominator, NaN, comparisons."""
import itertools, math
from lib import *
import lib, contracts as C, inputs as X, templ
from c_big import mkarg
from c_nat import dead
B = 'bigint::bigint::BigInt'; R = 'bigint::rat::Rat'

def rat_obj(I, st, cls, name):
    """cls: 'nan' | 'zero' | (sign, 'int') | (sign, 'frac')  -- every canonical rational; -> (value, (num, den))"""
    t = I.p.tyname[R]
    if cls == 'nan': a, ia = X.big_obj(I, st, 'nan', name + '.a'); b, ib = X.big_obj(I, st, ('+', 'one'), name + '.b')
    elif cls == 'zero': a, ia = X.big_obj(I, st, 'zero', name + '.a'); b, ib = X.big_obj(I, st, ('+', 'one'), name + '.b')
    else:
        a, ia = X.big_obj(I, st, (cls[0], 'pos'), name + '.a')
        b, ib = X.big_obj(I, st, ('+', 'one' if cls[1] == 'int' else 'pos'), name + '.b')
        if cls[1] == 'frac':
            st.assume(c_ge(sub(ib['val'], 2)))
            st.assume(c_eq(sub(C.ngcd(I, st, ia['nat']['val'], ib['val']), 1)))
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    return ('A', tuple(a if fn == 'a' else b for fn in fs)), (ia['val'], ib['val'])

def read_rat(I, st, v):
    t = I.p.tyname[R]
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    if v[0] == 'T': v = I.materialize(st, v[1])
    out = []
    for fn in ('a', 'b'):
        m, sg, rc = X.read_big(I, st, v[1][fs.index(fn)])
        if type(sg) is not int:
            outs = []
            raise Unknown('sign')
        out += [m, sg == X.sign_idx(I, 'Negative')]
    return out
class Unknown(Exception): pass

def undiv(I, st, x, out):
    """x = X / g where g = gcd(.., X, ..): record g, return (X, arguments of the gcd)"""
    if type(x) is int or x[1] != 0: return None
    if len(x[2]) == 1 and A_key[x[2][0][0]][0] == 'ndiv':
        a, k = x[2][0]
        key = A_key[a]; g = key[2]; X_ = key[1]
        if type(g) is not tuple or len(g[2]) != 1 or g[1]: return None
        ga = g[2][0][0]
        if A_key[ga][0] != 'gcd' or X_ not in A_key[ga][1]: return None
        out.append(ga)
        return scale(X_, k), A_key[ga][1]
    ga = None; r = 0
    for a, c in x[2]:
        fs = list(I.factors(a))
        iv = [f for f in fs if A_key[f][0] == 'inv']
        if len(iv) != 1: return None
        g = A_key[iv[0]][1]
        if ga is not None and g != ga: return None
        ga = g; fs.remove(iv[0])
        t = 1
        for f in fs: t = I.mul(st, t, ('L', 0, ((f, 1),)))
        r = add(r, scale(t, c))
    if ga is None or A_key[ga][0] != 'gcd': return None
    if r not in A_key[ga][1] and neg(r) not in A_key[ga][1]: return None
    out.append(ga)
    return r, A_key[ga][1]

def gcd1(I, st, p, q):
    """p and q (magnitudes) are provably coprime"""
    if p == 1 or q == 1: return True
    if type(p) is int and type(q) is int: return math.gcd(p, q) == 1
    o = []
    x, y = undiv(I, st, p, o), undiv(I, st, q, o)
    if x and y and o[0] == o[1]:
        n = lambda t: t if t in x[1] else neg(t)
        if sorted((n(x[0]), n(y[0])), key=repr) == sorted(x[1], key=repr): return True
    g = C.ngcd(I, st.copy(), p, q)
    if type(g) is int: return g == 1
    l, h = st.bounds(g)
    if l == h == 1: return True
    # gcd atoms of equal arguments
    for a, (lo, hi) in st.facts.items():
        k = A_key[a]
        if k[0] == 'gcd' and lo == hi == 1:
            x, y = k[1]
            if st.same(x, p) and st.same(y, q) or st.same(x, q) and st.same(y, p): return True
    return False

def noinv(I, st, x):
    """c * x with the factors 1/g, g a constant under the path condition, cleared"""
    if type(x) is int: return x
    gs = {f for a, _ in x[2] for f in I.factors(a) if A_key[f][0] == 'inv'}
    for f in gs:
        c = st.cst(('L', 0, ((A_key[f][1], 1),)))
        if c is None: continue
        r = scale(x[1], c)
        for a, k in x[2]:
            fs = list(I.factors(a))
            if f in fs: fs.remove(f)
            else: k *= c
            t = 1
            for q in fs: t = I.mul(st, t, ('L', 0, ((q, 1),)))
            r = add(r, scale(t, k))
        x = r
        if type(x) is int: return x
    return x

def poly_zero(I, st, x):
    """x == 0 modulo the equalities of the state, equalities between products used as rewrite rules"""
    x = noinv(I, st, x)
    if st.same(x, 0): return True
    x = simp(I, st, x)
    for piv in (templ.rows_of(st), ):
        r = templ.reduce(st, x, piv)
        if r is not None and type(r) is int and r == 0: return True
    rules = []
    for key, (lo, hi) in st.rel.items():
        if lo == hi == 0 and len(key) == 2 and all(A_key[a][0] == 'mul' or True for a, _ in key) and abs(key[0][1]) == abs(key[1][1]) == 1:
            rules.append((key[0][0], key[1][0], -key[1][1] * key[0][1]))
    for _ in range(4):
        if type(x) is int: return x == 0
        ch = False
        for l, r, s in rules:
            for l, r in ((l, r), (r, l)):
                y = 0
                hit = False
                for a, c in x[2]:
                    fs = list(I.factors(a)); need = list(I.factors(l)); ok = True
                    for n in need:
                        if n in fs: fs.remove(n)
                        else: ok = False
                    if ok:
                        t = 1
                        for q in fs + list(I.factors(r)): t = I.mul(st, t, ('L', 0, ((q, 1),)))
                        y = add(y, scale(t, c * s)); hit = True
                    else: y = add(y, scale(('L', 0, ((a, 1),)), c))
                y = add(y, x[1])
                if hit and (type(y) is int and y == 0): return True
                if hit and type(y) is not int and len(y[2]) < len(x[2]): x = y; ch = True; break
            if type(x) is int: break
        if not ch: break
    return type(x) is int and x == 0

def judge(I, s, r, exp):
    """r = [|num|, num negative, |den|, den negative]; exp = 'nan' | (N, D)"""
    m, mn, d, dn = r
    imp = lambda z, w: ('undecided', 'imprecise: ' + w) if s.imp or dead(I, s) else (z, w)
    if exp == 'nan':
        if m == 'nan': return [('nan', 'proved', '')]
        return [('nan',) + imp('violated', 'a NaN operand gives the number %s/%s' % (show(m), show(d)))]
    if m == 'nan' or d == 'nan': return [('nan',) + imp('violated', 'NaN result for numbers')]
    out = []
    p = neg(m) if mn else m; q = neg(d) if dn else d
    z, w = decide(I, s, c_ge(sub(q, 1)))
    out.append(('denominator positive', z, 'denominator %s, e.g. %s' % (show(q), w) if z == 'violated' else w))
    if mn:
        z, w = decide(I, s, c_ge(sub(m, 1)))
        out.append(('no negative zero', z, w))
    N, D = exp
    o = []
    x, y = undiv(I, s, p, o), undiv(I, s, q, o)
    if x and y and o[0] == o[1]: P_, Q_ = x[0], y[0]
    else: P_, Q_ = p, q
    e1 = sub(I.mul(s, P_, D), I.mul(s, Q_, N))
    if poly_zero(I, s, e1): out.append(('value', 'proved', ''))
    else:
        z, w = decide(I, s, c_eq(sub(I.mul(s, p, D), I.mul(s, q, N))))
        out.append(('value', z, 'result %s/%s, expected %s/%s, e.g. %s' % (show(p)[:80], show(q)[:80], show(N)[:60], show(D)[:60], w) if z == 'violated' else w))
    if gcd1(I, s, m, d) or type(m) is int and m == 0 and s.same(d, 1): out.append(('lowest terms', 'proved', ''))
    else:
        s2 = s.copy()
        if type(m) is int and m == 0: z, w = decide(I, s2, c_eq(sub(d, 1)))
        else: z, w = decide(I, s2, c_eq(sub(('L', 0, ((gcd_atom(m, d), 1),)), 1)))
        out.append(('lowest terms', z, '%s/%s is not in lowest terms, e.g. %s' % (show(m)[:80], show(d)[:80], w) if z == 'violated' else w))
    return out
def gcd_atom(a, b): return intern(('gcd', tuple(sorted((a, b), key=repr))), 1, POS)[2][0][0]

CL = ['nan', 'zero', ('+', 'int'), ('-', 'int'), ('+', 'frac'), ('-', 'frac')]
CL2 = ['nan', 'zero', ('+', 'frac'), ('-', 'frac'), ('+', 'int')]

def oracle(I, st, op, a, b):
    na = a[0] == 'nan'; nb = b is not None and b[0] == 'nan'
    if op == 'cmp': return None
    if na or nb: return 'nan'
    m = lambda x, y: I.mul(st, x, y)
    if op == 'add': return add(m(a[0], b[1]), m(b[0], a[1])), m(a[1], b[1])
    if op == 'sub': return sub(m(a[0], b[1]), m(b[0], a[1])), m(a[1], b[1])
    if op == 'mul': return m(a[0], b[0]), m(a[1], b[1])
    if op == 'div': return 'panic' if b[0] == 0 else (m(a[0], b[1]), m(a[1], b[0]))
    if op == 'neg': return neg(a[0]), a[1]
    if op == 'id': return a
    if op == 'abs': return (a[0] if type(a[0]) is int or st.bounds(a[0])[0] >= 0 else neg(a[0])), a[1]
    if op == 'inv': return 'err' if a[0] == 0 else (a[1], a[0])
    raise KeyError(op)

def cn(c): return c if type(c) is str else ''.join(map(str, c)) if type(c) is tuple else str(c)

def float_arg(I, st, c, n, nm):
    """('f', sign, biased exponent, top bit or None): every float of that class; -> (value, 'nan' | (N, D))"""
    _, sg, e, k = c
    P, B, S = (52, 1023, 63) if n == 8 else (23, 127, 31)
    full = 2047 if n == 8 else 255
    if k == 'zero': m = 0
    elif k is None: m = fresh_in(1 if e == full else 0, (1 << P) - 1, nm)
    else: m = fresh_in(1 << k, (2 << k) - 1, nm)
    bits = add(m, (sg << S) + (e << P))
    v = ('D', ('c', bits, n) if type(bits) is int else ('bits', bits))
    if e == full: return v, 'nan'
    s = -1 if sg else 1
    mant = add(m, 1 << P) if e else m
    sh = (e or 1) - B - P
    return v, (scale(mant, s << max(sh, 0)), 1 << max(-sh, 0))

def mkargs(I, st, f, shapes):
    args, infos, homes = [], [], []
    rt = I.p.tyname[R]; bt = I.p.tyname[B]; nt = I.p.tyname['bigint::nat::Nat']
    first = None
    for i, t in enumerate(f['locals'][1:1 + f['argc']]):
        c = shapes[i]; nm = 'abc'[i]
        x = I.T[t]; u = x['elem'] if x['k'] == 'ref' else t
        if I.T[u]['k'] == 'int':
            lo, hi = I.trange(u)
            if c == 'neg': v = fresh_in(lo, -1, nm)
            elif c == 'pos': v = fresh_in(1, hi, nm)
            elif c == 'min': v = lo
            else: v = 0 if c == 'zero' else c
            inf = (v, 1)
        elif I.T[u]['k'] == 'float':
            v, inf = float_arg(I, st, c, I.T[u]['size'], nm)
            if inf == 'nan': inf = ('nan', 1)
        elif u == rt:
            if c == 'alias': v, inf = first
            else: v, inf = rat_obj(I, st, c, nm)
        elif u == bt:
            v, info = X.big_obj(I, st, c, nm); inf = (info['val'], 1)
        elif u == nt:
            v, info = X.nat_obj(I, st, c, nm); inf = (info['val'], 1)
        else: raise KeyError('parameter')
        if i == 0: first = v, inf
        a, h = mkarg(I, st, t, v, nm)
        args.append(a); homes.append(h); infos.append(inf)
    return args, infos, homes

def unwrap(I, st, v):
    """Result<Rat, _> / Rat -> ('ok', rat) | ('err', None)"""
    if type(v) is tuple and v[0] == 'T': v = I.materialize(st, v[1])
    if type(v) is tuple and v[0] == 'E':
        if type(v[1]) is not int: raise Unknown('variant')
        return ('ok', v[2][0][0]) if v[1] == 0 else ('err', None)
    return 'ok', v

def run_rat(path, op, shapes, targs=None, budget=300000, K=64):
    r = root(path, targs)
    I = mkI(budget=budget, K=K, big=True)
    if type(shapes[0]) is tuple and shapes[0][0] == 'f': I.PEEL = 90; I.K = 3000; I.exact = True
    st = State(); f = lib.P.fns[r['inst']]
    key = '%s|%s' % (path, ','.join(map(cn, shapes)))
    args, infos, homes = mkargs(I, st, f, shapes)
    assign = I.T[f['locals'][0]].get('size') == 0
    try: outs = run(I, st, r, args)
    except Budget: return [(key, 'undecided', 'budget')]
    res = reslist()
    a, b = infos[0], infos[1] if len(infos) > 1 else None
    for o in outs:
        s0 = o.st
        if op == 'frac':
            na = a[0] == 'nan' or b[0] == 'nan'
            exp = 'err' if b[0] == 0 else 'nan' if na else (a[0], b[0])
        elif op in ('cmp', 'eq', 'sign', 'isint', 'isnan'): exp = None
        else: exp = oracle(I, s0, op, a, b)
        if o.kind == 'panic':
            if exp == 'panic': res.append((key, 'proved', 'panics on a zero divisor')); continue
            if s0.imp or dead(I, s0): res.append((key, 'proved' if dead(I, s0) else 'undecided', 'panic? %s' % (o.panic.where,))); continue
            w = witness(s0, False)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w)))
            continue
        if exp == 'panic':
            res.append((key, 'undecided' if s0.imp or dead(I, s0) else 'violated', 'returns although the divisor is zero')); continue
        if op in ('cmp', 'eq', 'sign', 'isint', 'isnan'):
            res += [(key + '|' + x[0],) + x[1:] for x in judge_q(I, s0, op, o.val, a, b)]; continue
        v = s0.mem.get(homes[0]) if assign else o.val
        try:
            for s, (tag, rv) in split_read(unwrap, I, s0, v):
                if exp == 'err' or tag == 'err':
                    ok = exp == 'err' and tag == 'err'
                    res.append((key + '|result', 'proved' if ok or dead(I, s) else 'undecided' if s.imp else 'violated', '' if ok else 'returns %s, expected %s' % (tag, 'an error' if exp == 'err' else 'a value')))
                    continue
                for s2, rr in split_read(read_rat, I, s, rv):
                    for x in judge(I, s2, rr, exp): res.append((key + '|' + x[0],) + x[1:])
        except Unknown as e: res.append((key, 'undecided', 'unknown %s' % e))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

def implied(I, s, c, what):
    z, w = decide(I, s, c)
    return (what, z, '%s, e.g. %s' % (what, w) if z == 'violated' else w)

def judge_q(I, s, op, v, a, b):
    na = a[0] == 'nan'; nb = b is not None and b[0] == 'nan'
    if dead(I, s): return [('x', 'proved', 'unreachable')]
    if type(v) is tuple and v and v[0] == 'T': v = I.materialize(s, v[1])
    def bad(c, msg): return ('x', 'proved', '') if c else ('x', 'undecided' if s.imp else 'violated', msg)
    if op == 'isnan':
        out = []
        for s2, e in bools(s, v): out.append(bad(e == na, 'is_nan is %s' % e))
        return out
    if op == 'eq':
        d = None if na or nb else sub(I.mul(s, a[0], b[1]), I.mul(s, b[0], a[1]))
        out = []
        for s2, e in bools(s, v):
            if d is None: out.append(bad(not e, 'NaN equals something'))
            else: out.append(implied(I, s2, c_eq(d) if e else c_ne(d), 'eq is %s' % e))
        return out
    if op == 'sign':
        return opt_cmp(I, s, v, None if na else a[0], lambda e: e)
    if op == 'cmp':
        d = None if na or nb else sub(I.mul(s, a[0], b[1]), I.mul(s, b[0], a[1]))
        return opt_cmp(I, s, v, d, None)
    if op == 'isint':
        if type(v) is not tuple or v[0] != 'E' or type(v[1]) is not int: return [('x', 'undecided', 'unknown')]
        if v[1] == 0: return [bad(na, 'None for a number')]
        if na: return [bad(False, 'Some for NaN')]
        return [implied(I, s2, c_eq(sub(a[1], 1)) if e else c_ge(sub(a[1], 2)), 'is_integer is %s' % e) for s2, e in bools(s, v[2][1][0])]
def bools(s, v):
    if type(v) is bool: return [(s, v)]
    if type(v) is int: return [(s, bool(v))]
    c = v if type(v) is tuple and v and v[0] == 'C' else c_ne(v)
    e = s.evalc(c)
    if e is not None: return [(s, e)]
    out = []
    for t in (True, False):
        s2 = s.copy()
        if s2.assume(c, t): out.append((s2, t))
    return out
def opt_cmp(I, s, v, d, _):
    if type(v) is not tuple or v[0] != 'E' or type(v[1]) is not int: return [('x', 'undecided', 'unknown variant')]
    if v[1] == 0:
        return [('x', 'proved', '') if d is None else ('x', 'undecided' if s.imp else 'violated', 'None for numbers')]
    if d is None: return [('x', 'undecided' if s.imp else 'violated', 'Some for NaN')]
    e = v[2][1][0]
    outs = []
    if type(e) is tuple and e[0] == 'E': e = e[1] if type(e[1]) is not int else e[1] - 1
    elif type(e) is tuple and e[0] not in ('L',): return [('x', 'undecided', 'unknown value')]
    for k, c in ((-1, c_ge(sub(-1, d))), (0, c_eq(d)), (1, c_ge(sub(d, 1)))):
        s2 = s.copy()
        if s2.assume(c_eq(sub(e, k))): outs.append(implied(I, s2, c, 'compares as %d' % k))
    return outs

INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
def specs(which):
    out = []
    if which == 'arith':
        for T_, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div')):
            for c in itertools.product(CL, CL2 + ['alias']):
                out.append(('<%s as std::ops::%s>::%s' % (R, T_, op), op, c))
                out.append(('<%s as std::ops::%sAssign>::%s_assign' % (R, T_, op), op, c))
        for c in CL:
            out.append(('<%s as std::ops::Neg>::neg' % R, 'neg', (c,)))
            for m in ('abs', 'inv'): out.append(('%s::%s' % (R, m), m, (c,)))
            out.append(('%s::deep_clone' % R, 'id', (c,)))
            out.append(('<%s as std::clone::Clone>::clone' % R, 'id', (c,)))
    if which == 'make':
        for a in ('neg', 'zero', 'pos', 'min'):
            for b in ('neg', 'zero', 'pos', 'min'): out.append((R + '::from_frac', 'frac', (a, b)))
        for a in ('nan', 'zero', ('+', 'pos'), ('-', 'pos')):
            for b in ('nan', 'zero', ('+', 'pos'), ('-', 'pos')): out.append((R + '::from_frac_bigint', 'frac', (a, b)))
        for t in INTS:
            for c in ('zero', 'pos') + (('neg', 'min') if t[0] == 'i' else ()):
                out.append(('<%s as std::convert::From<%s>>::from' % (R, t), 'id', (c,)))
        for c in ('nan', 'zero', 'pos'): out.append(('<%s as std::convert::From<bigint::nat::Nat>>::from' % R, 'id', (c,)))
        for c in ('nan', 'zero', ('+', 'pos'), ('-', 'pos')): out.append(('<%s as std::convert::From<bigint::bigint::BigInt>>::from' % R, 'id', (c,)))
    if which == 'float':
        th = lib.TIER == 'thorough'
        for ty, path, P, E in (('f64', R + '::from_f64', 52, 2047), ('f64', '<%s as std::convert::From<f64>>::from' % R, 52, 2047), ('f32', '<%s as std::convert::From<f32>>::from' % R, 23, 255)):
            B_ = E >> 1
            es = [1, B_, B_ + 20, B_ + P - 1, B_ + P, B_ + P + 1, B_ + P + 12, E - 1, E]
            if th: es = range(1, E + 1)
            for sg in (0, 1):
                for e in es: out.append((path, 'id', (('f', sg, e, None),)))
                out.append((path, 'id', (('f', sg, E, 'zero'),)))
                out.append((path, 'id', (('f', sg, 0, 'zero'),)))
                for k in (range(P) if th else (0, 3, P - 1)): out.append((path, 'id', (('f', sg, 0, k),)))
    if which == 'cmp':
        for c in itertools.product(CL, CL + ['alias']):
            out.append(('<%s as std::cmp::PartialEq>::eq' % R, 'eq', c))
            out.append(('<%s as std::cmp::PartialOrd>::partial_cmp' % R, 'cmp', c))
        for c in CL:
            out.append((R + '::signnum', 'sign', (c,))); out.append((R + '::is_integer', 'isint', (c,))); out.append((R + '::is_nan', 'isnan', (c,)))
    return out
def job(spec): return run_rat(*spec)
