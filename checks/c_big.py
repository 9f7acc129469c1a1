"""BigInt algebra: signed arithmetic, division, shifts, bitwise operations, comparisons."""
import itertools
from lib import *
import lib, contracts as C, inputs as X

B = 'bigint::bigint::BigInt'
CL = ['nan', 'zero', ('+', 'pos'), ('-', 'pos')]

def cn(c): return c if type(c) is str else ''.join(map(str, c))
def sgn_cls(c): return 0 if c == 'zero' else 1 if c[0] == '+' else -1

def tcomp(I, st, tt, a, b, ca, cb):
    """two's complement bitwise function of signed a, b (index = a | b<<1)"""
    xs = []; inv = []
    for v, c in ((a, ca), (b, cb)):
        if sgn_cls(c) < 0: xs.append(sub(neg(v), 1)); inv.append(1)
        else: xs.append(v); inv.append(0)
    t2 = tuple(tt[k ^ (inv[0] | inv[1] << 1)] for k in range(4))
    if t2[0] == 0: return C.bf(I, st, t2, xs)
    t3 = tuple(1 - x for x in t2)
    return neg(add(C.bf(I, st, t3, xs), 1))

def choose(I, st, c):
    e = st.evalc(c)
    if e is None:
        out = []
        for t in (True, False):
            s = st.copy()
            if s.assume(c, t): out.append(s)
        raise Split(out)
    return e

def oracle(op):
    def f(I, st, a, b, ca, cb):
        if op in ('shl', 'shr'):
            if a == 'nan': return 'nan'
            p = C.pow2(I, st, b)
            if op == 'shl': return I.mul(st, a, p)
            if sgn_cls(ca) >= 0: return C.ndiv(I, st, a, p)
            return neg(add(C.ndiv(I, st, sub(neg(a), 1), p), 1))
        if op in ('neg', 'abs', 'not', 'sqr', 'id'):
            if a == 'nan': return 'nan'
            if op == 'neg': return neg(a)
            if op == 'abs': return a if sgn_cls(ca) >= 0 else neg(a)
            if op == 'not': return sub(-1, a)
            if op == 'sqr': return I.mul(st, a, a)
            return a
        if b == 0 and op in ('div', 'rem', 'div_euclid', 'rem_euclid'): return 'panic'
        if a == 'nan' or b == 'nan': return 'nan'
        if op == 'add': return add(a, b)
        if op == 'sub': return sub(a, b)
        if op == 'mul': return I.mul(st, a, b)
        if op in ('div', 'rem', 'div_euclid', 'rem_euclid'):
            sa, sb = sgn_cls(ca), sgn_cls(cb)
            A = a if sa >= 0 else neg(a); Bm = b if sb >= 0 else neg(b)
            q = C.ndiv(I, st, A, Bm); r = C.nrem(I, st, A, Bm)
            if op == 'div': return q if sa * sb >= 0 else neg(q)
            if op == 'rem': return r if sa >= 0 else neg(r)
            if sa >= 0: return scale(q, sb) if op == 'div_euclid' else r
            if type(r) is int and r == 0 or choose(I, st, c_eq(r)):
                return scale(q, -sb) if op == 'div_euclid' else 0
            return scale(add(q, 1), -sb) if op == 'div_euclid' else sub(Bm, r)
        tt = {'bitand': C.AND, 'bitor': C.OR, 'bitxor': C.XOR, 'and_not': C.ANDN}[op]
        return tcomp(I, st, tt, a, b, ca, cb)
    return f

def mkarg(I, st, t, v, name):
    """wrap a value as the parameter type requires; returns (arg, home object or None)"""
    x = I.T[t]
    if x['k'] == 'ref':
        o = I.newobj(st, v, name, x['elem']); I.pinned.add(o)
        return ('P', o, (), None), o
    return v, None

def flip(I, v, sg):
    t = I.p.tyname[B]
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    e = ('E', X.sign_idx(I, 'Natural' if sg > 0 else 'Negative'), ((), ()))
    return ('A', tuple(e if fn == 'sign' else x for fn, x in zip(fs, v[1])))

def run_big(path, op, classes, rhs='big', budget=400000, K=8):
    """-> list of (key, status, detail)"""
    r = root(path)
    I = mkI(budget=budget, K=K)
    st = State(); f = lib.P.fns[r['inst']]
    ts = f['locals'][1:1 + f['argc']]
    args = []; homes = []; vals = []
    for i, t in enumerate(ts):
        if I.T[t]['k'] == 'int':
            lo, hi = I.trange(t)
            c = classes[i]
            v = c if type(c) is int else fresh_in(0, min(hi, (1 << 40)), 'ab'[i])
            args.append(v); homes.append(None); vals.append(v)
        else:
            if classes[i] == 'alias': v, info = first     # a clone: the same storage
            elif classes[i] == 'alias-':                  # a clone whose sign was flipped with set_negative / set_natural
                v, info = flip(I, first[0], -sgn_cls(classes[0])), dict(first[1], val=neg(first[1]['val']))
            else: v, info = X.big_obj(I, st, classes[i], 'ab'[i])
            if i == 0: first = v, info
            a, h = mkarg(I, st, t, v, 'ab'[i]); args.append(a); homes.append(h); vals.append(info['val'])
    while len(vals) < 2: vals.append(None)
    assign = I.T[f['locals'][0]].get('size') == 0
    orc = oracle(op)
    key = '%s|%s' % (path, ','.join(map(cn, classes)))
    res = reslist()
    try: outs = run(I, st, r, args)
    except Budget: return [(key, 'undecided', 'budget')]
    ca, cb = classes[0], classes[1] if len(classes) > 1 else None
    if cb == 'alias': cb = ca
    elif cb == 'alias-': cb = ('-' if ca[0] == '+' else '+', 'pos')
    rets = 0
    for o in outs:
        if o.kind == 'panic':
            exp = orc(I, o.st.copy(), vals[0], vals[1], ca, cb)
            if exp == 'panic': res.append((key, 'proved', 'panics on a zero divisor'))
            elif o.st.imp: res.append((key, 'undecided', 'panic? imprecise ' + str(o.panic.where)))
            else:
                w = witness(o.st, False)
                res.append((key, 'violated' if w is not None or not (o.st.facts or o.st.rel) else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w)))
            continue
        rets += 1
        v = o.val if not assign else o.st.mem.get(homes[0])
        for s, (m, sg, rc) in split_read(X.read_big, I, o.st, v):
            for s2, exp in split_read(lambda I, s: orc(I, s, vals[0], vals[1], ca, cb), I, s):
                res.append((key,) + judge(I, s2, m, sg, exp))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

def judge(I, s, m, sg, exp):
    if exp == 'panic':
        if s.imp: return 'undecided', 'returns on a zero divisor? imprecise'
        return 'violated', 'returns a value although the divisor is zero'
    if exp == 'nan':
        if m == 'nan': return 'proved', 'NaN'
        if s.imp: return 'undecided', 'imprecise'
        return 'violated', 'a NaN operand gives the number %s' % show(m)
    if m == 'nan':
        if s.imp: return 'undecided', 'imprecise'
        return 'violated', 'NaN result for numbers'
    if type(sg) is not int: return 'undecided', 'sign unknown'
    negs = sg == X.sign_idx(I, 'Negative')
    val = neg(m) if negs else m
    st, w = decide_eq(I, s, val, exp)
    if st == 'violated': return st, 'value %s, expected %s, e.g. %s' % (show(val), show(exp), w)
    if negs:
        z, w = decide(I, s, c_ge(sub(m, 1)))
        if z == 'violated': return 'violated', 'negative zero, e.g. %s' % w
        if z != 'proved' and st == 'proved': return 'undecided', 'negative zero?'
    return st, w or 'value %s' % show(val)

ARITH = [('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')]
BITS = [('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor')]

def specs(which):
    out = []
    if which == 'alias': return alias_specs()
    if which == 'arith':
        for T_, o in ARITH:
            for c in itertools.product(CL, CL):
                out.append(('<%s as std::ops::%s>::%s' % (B, T_, o), o, c))
                out.append(('<%s as std::ops::%sAssign>::%s_assign' % (B, T_, o), o, c))
        for o in ('div_euclid', 'rem_euclid'):
            for c in itertools.product(CL, CL):
                out.append(('%s::%s' % (B, o), o, c)); out.append(('%s::%s_assign' % (B, o), o, c))
        for c in CL:
            out.append(('<%s as std::ops::Neg>::neg' % B, 'neg', (c,)))
            out.append(('%s::abs' % B, 'abs', (c,)))
            out.append(('%s::deep_clone' % B, 'id', (c,)))
    if which == 'bits':
        for T_, o in BITS:
            for c in itertools.product(CL, CL):
                out.append(('<%s as std::ops::%s>::%s' % (B, T_, o), o, c))
                out.append(('<%s as std::ops::%sAssign>::%s_assign' % (B, T_, o), o, c))
        for c in itertools.product(CL, CL):
            out.append(('%s::and_not' % B, 'and_not', c)); out.append(('%s::and_not_assign' % B, 'and_not', c))
        for c in CL:
            out.append(('<%s as std::ops::Not>::not' % B, 'not', (c,)))
            for T_, o in (('Shl', 'shl'), ('Shr', 'shr')):
                out.append(('<%s as std::ops::%s<usize>>::%s' % (B, T_, o), o, (c, 's')))
                out.append(('<%s as std::ops::%sAssign<usize>>::%s_assign' % (B, T_, o), o, (c, 's')))
    return out

ALIAS = [('div_euclid', 'div_euclid'), ('rem_euclid', 'rem_euclid'), ('and_not', 'and_not')]
def alias_specs():
    out = []
    for T_, o in ARITH + BITS:
        for c in CL[2:]:
            out.append(('<%s as std::ops::%s>::%s' % (B, T_, o), o, (c, 'alias-')))
            out.append(('<%s as std::ops::%sAssign>::%s_assign' % (B, T_, o), o, (c, 'alias-')))
    for m, o in ALIAS:
        for c in CL[2:]:
            out.append(('%s::%s' % (B, m), o, (c, 'alias-'))); out.append(('%s::%s_assign' % (B, m), o, (c, 'alias-')))
    for T_, o in ARITH + BITS:
        for c in CL:
            out.append(('<%s as std::ops::%s>::%s' % (B, T_, o), o, (c, 'alias')))
            out.append(('<%s as std::ops::%sAssign>::%s_assign' % (B, T_, o), o, (c, 'alias')))
    for m, o in ALIAS:
        for c in CL:
            out.append(('%s::%s' % (B, m), o, (c, 'alias'))); out.append(('%s::%s_assign' % (B, m), o, (c, 'alias')))
    return out

def job(spec):
    for K in (8, 64, 1000):
        r = run_big(*spec, K=K)
        if not any(x[1] == 'undecided' and ('join' in str(x[2]) or 'imprecise' in str(x[2])) for x in r): break
    return r
