"""Float at digit level: correctly rounded arithmetic, special values, conversions, queries, for all mantissa digits of a
class (fixed digit counts, concrete precision and rounding mode) and all exponents."""
from lib import *
import lib, contracts as C, inputs as X
import c_rat
from c_big import mkarg
from c_nat import mkexact, vec_limbs, rc_of, mathv, dec, dec_eq, same_mod, dead, Red, poly_proves, trial

from c_natq import branches, tag_states, dec_ne

FL = 'bigint::float::Float'
QLIM = 90
EMIN, EMAX = -(1 << 31), (1 << 31) - 1
MODES = ('ToNearestEven', 'ToNearestAway', 'ToZero', 'AwayFromZero', 'ToNegativeInf', 'ToPositiveInf')

# ---------------------------------------------------------------- inputs
def fields(I):
    t = I.p.tyname[FL]
    return dict(I.T[t]['variants'][0]['fields'])

def digits(m, prec, nm):
    """normalised mantissa of m digits with at most prec significant bits (32m - prec low bits are zero)"""
    z = max(32 * m - prec, 0)
    assert z < 32
    out = []
    for i in range(m):
        zz = z if i == 0 else 0
        lo = 1 << (31 - zz) if i == m - 1 else 0
        out.append(scale(fresh_in(lo, (1 << (32 - zz)) - 1, '%s%d' % (nm, i)), 1 << zz))
    return out

def mkfloat(I, st, c, nm, mode='ToNearestEven', prec=None, exp=None, acc=None):
    """c: 'nan' | ('zero', sign) | ('inf', sign) | ('fin', sign, digits, prec); -> (value, info)"""
    ft = fields(I)
    kind = c if type(c) is str else c[0]
    sg = 1 if type(c) is tuple and c[1] == '-' else 0
    if kind == 'fin':
        m, prec = c[2], c[3]
        ds = digits(m, prec, nm) if type(m) is int else list(m)
        m = len(ds)
        mant, im = X.nat_obj(I, st, ('cells', ds), nm)
        if exp is None: exp = fresh_in(EMIN, EMAX, nm + '.exp')
    else:
        ds = []; m = 0
        mant, im = X.nat_obj(I, st, 'nan', nm)
        exp = fresh_in(EMIN, EMAX, nm + '.exp')
        if prec is None: prec = 64
    form = {'nan': 'Nan', 'zero': 'Zero', 'inf': 'Inf', 'fin': 'Finite'}[kind]
    v = X._adt(I, FL, mode=X.enum(I, ft['mode'], mode), acc=X.enum(I, ft['acc'], acc), form=X.enum(I, ft['form'], form),
               neg=X.enum(I, ft['neg'], 'Negative' if sg else 'Natural'), prec=prec, exp=exp, mant=mant)
    info = {'kind': kind, 'neg': sg, 'W': mathv(ds), 'm': m, 'exp': exp, 'prec': prec, 'mode': mode, 'digits': ds,
            't': sub(exp, 32 * m) if kind == 'fin' else 0}
    return v, info

class NoRead(Exception): pass
def variant(I, st, t, v):
    if type(v) is tuple and v[0] == 'T': v = I.materialize(st, v[1])
    if not (type(v) is tuple and v[0] == 'E'): raise NoRead('enum')
    n = [x['name'] for x in I.T[t]['variants']]
    g = v[1]
    if not is_int(g): raise NoRead('tag')
    c = st.cst(g)
    if c is not None: return n[c]
    outs = []
    for k in range(len(n)):
        s2 = st.copy()
        if s2.assume(c_eq(sub(g, k))): outs.append(s2)
    raise Split(outs)

def readfloat(I, st, v):
    """every field of a Float value; may Split"""
    if type(v) is tuple and v[0] == 'T': v = I.materialize(st, v[1])
    if not (type(v) is tuple and v[0] == 'A'): raise NoRead('float')
    t = I.p.tyname[FL]
    fs = [n for n, _ in I.T[t]['variants'][0]['fields']]
    d = dict(zip(fs, v[1])); ft = fields(I)
    r = {k: variant(I, st, ft[k], d[k]) for k in ('mode', 'acc', 'form', 'neg')}
    r['prec'] = d['prec']; r['exp'] = d['exp']
    r['neg'] = 1 if r['neg'] == 'Negative' else 0
    if r['form'] == 'Finite':
        rc = rc_of(I, st, d['mant'])
        c, ls = vec_limbs(I, st, rc)
        if c is None or not all(is_int(x) for x in ls): raise NoRead('digits')
        r['ls'] = ls
    return r

# ---------------------------------------------------------------- the rounding oracle
def bitlen_split(I, s, W):
    """[(state, B)] with 2^(B-1) <= W < 2^B in each state (W > 0)"""
    R = Red(I, s, (W,) if is_int(W) and type(W) is not int else ())
    lo, hi = R.bounds(W)
    lo = max(lo, 1)
    if hi >= POS: raise NoRead('unbounded')
    if lo.bit_length() == hi.bit_length(): return [(s, lo.bit_length())]
    out = []
    for B in range(lo.bit_length(), hi.bit_length() + 1):
        s2 = s.copy()
        if s2.assume(c_ge(sub(W, 1 << (B - 1)))) and s2.assume(c_ge(sub((1 << B) - 1, W))) and not poly_proves(I, s2, None): out.append((s2, B))
    return out

OK = ('proved', None)
def conj(*thunks):
    for t in thunks:
        r = t() if callable(t) else t
        if r[0] != 'proved': return r
    return OK

def rounded(I, s, W, neg, R, B, p, mode, acc):
    """R (magnitude, same unit as W, 2^(B-1) <= W < 2^B) is W correctly rounded to p bits; W exact"""
    sg = -1 if neg else 1
    D = sub(R, W)
    if B <= p:
        return conj(lambda: (dec_eq(I, s, R, W)), lambda: acc_ok(I, s, acc, D, sg))
    U = 1 << (B - p)
    def mult(m):
        low = I.lowhigh(s, R, m.bit_length() - 1)[0]
        return dec_eq(I, s, low, 0)
    md = mode
    if md == 'ToNegativeInf': md = 'AwayFromZero' if neg else 'ToZero'
    elif md == 'ToPositiveInf': md = 'ToZero' if neg else 'AwayFromZero'
    ge = lambda x: dec(I, s, c_ge(x))
    if md == 'ToZero': rs = [lambda: ge(neg_(D)), lambda: ge(add(D, U - 1))]
    elif md == 'AwayFromZero': rs = [lambda: ge(D), lambda: ge(sub(U - 1, D))]
    elif md == 'ToNearestAway': rs = [lambda: ge(sub(U, scale(D, 2))), lambda: ge(add(scale(D, 2), U - 1))]
    else:
        def ties():
            if trial(mult, 2 * U)[0] == 'proved': return OK
            for d in (scale(D, 2), scale(D, -2)):
                s2 = s.copy()
                if not s2.assume(c_eq(sub(d, U))): continue
                low = I.lowhigh(s2, R, (2 * U).bit_length() - 1)[0]
                r = dec_eq(I, s2, low, 0)
                if r[0] != 'proved': return r
            return OK
        rs = [lambda: ge(sub(U, scale(D, 2))), lambda: ge(add(scale(D, 2), U)), ties]
    return conj(lambda: mult(U), *rs, lambda: acc_ok(I, s, acc, D, sg))

def neg_(x): return scale(x, -1)
def acc_ok(I, s, acc, D, sg):
    d = scale(D, sg)
    if acc == 'Exact': return dec_eq(I, s, D, 0)
    if acc == 'Above': return dec(I, s, c_ge(sub(d, 1)))
    return dec(I, s, c_ge(sub(-1, d)))

def fmt(r):
    return '%s %s %s prec %s exp %s digits %s' % ('-' if r['neg'] else '+', r['form'], r['acc'], show(r['prec']), show(r['exp']), [show(x)[:40] for x in r.get('ls', [])])

def fail(what, s, r, I):
    if s.imp: return 'undecided', 'imprecise: ' + ', '.join(sorted(s.imp)[:3])
    if dead(I, s): return OK
    w = witness(s, False, tries=1500)
    return ('violated', '%s: %s, e.g. %s' % (what, fmt(r), w)) if w is not None else ('undecided', what + ': no witness')

def value_ok(I, s, r, W, t, neg, p, mode):
    """the float r is the number (-1)^neg * W * 2^t, W > 0, correctly rounded; -> (status, detail)"""
    def chk():
        if r['form'] == 'Nan': return fail('NaN result', s, r, I)
        if r['neg'] != neg: return fail('wrong sign', s, r, I)
        if r['form'] == 'Finite':
            M = mathv(r['ls']); m = len(r['ls'])
            z = conj(lambda: dec(I, s, c_ge(sub(r['ls'][-1], 1 << 31))), lambda: dec(I, s, c_ge(sub(EMAX, r['exp']))), lambda: dec(I, s, c_ge(sub(r['exp'], EMIN))))
            if z[0] != 'proved': return z[0], 'not normalised or exponent out of range: %s' % (z[1],)
            k = sub(sub(r['exp'], 32 * m), t)
            if type(k) is not int:
                k = Red(I, s, (k,)).red(k)
                if type(k) is not int: raise NoRead('exponent')
            W2, R = (W, scale(M, 1 << k)) if k >= 0 else (scale(W, 1 << -k), M)
            if abs(k) > 4096: return fail('exponent off', s, r, I)
            E = 32 * m + max(k, 0)
            s1, s2 = s.copy(), s.copy()
            if s1.assume(c_ge(sub(W2, 1 << (E - 1)))):
                z = conj(lambda: dec(I, s1, c_ge(sub((1 << E) - 1, W2))), lambda: rounded(I, s1, W2, neg, R, E, p, mode, r['acc']))
                if z[0] != 'proved': return z[0], 'digits/accuracy differ from the exact value rounded to %d bits (%s): %s, e.g. %s' % (p, mode, fmt(r), z[1])
            if s2.assume(c_ge(sub((1 << (E - 1)) - 1, W2))) and not dead(I, s2):
                z = conj(lambda: dec(I, s2, c_ge(sub(W2, 1 << (E - 2)))), lambda: rounded(I, s2, W2, neg, R, E - 1, p, mode, r['acc']))
                if z[0] != 'proved': return z[0], 'digits/accuracy differ from the exact value rounded to %d bits (%s): %s, e.g. %s' % (p, mode, fmt(r), z[1])
            return OK
        want = {'Zero': ('Below', 'Above'), 'Inf': ('Above', 'Below')}[r['form']][neg]
        if r['acc'] != want: return fail('accuracy of an underflow/overflow', s, r, I)
        for s2, B in bitlen_split(I, s, W):
            e = add(t, B)
            if r['form'] == 'Zero': z = dec(I, s2, c_ge(sub(EMIN - 1, e)))
            else:
                z = trial(dec, I, s2, c_ge(sub(e, EMAX + 1)))
                if z[0] != 'proved':
                    z = conj(lambda: dec(I, s2, c_ge(sub(e, EMAX))), lambda: OK if B > p else ('undecided', 'x'), lambda: rounded(I, s2, W, neg, 1 << B, B, p, mode, want))
            if z[0] != 'proved': return z[0], '%s although the exponent is in range: e.g. %s' % (r['form'], z[1])
        return OK
    try: return chk()
    except NoRead as e: return 'undecided', str(e)

def zero_ok(I, s, r, neg):
    """an exact zero of the given sign"""
    if r['form'] != 'Zero' or r['neg'] != neg: return fail('expected %s0' % '+-'[neg], s, r, I)
    if r['acc'] != 'Exact': return fail('an exact zero with another accuracy', s, r, I)
    return OK

def meta_ok(I, s, r, p, mode):
    if r['mode'] != mode: return fail('rounding mode of the result', s, r, I)
    z = dec_eq(I, s, r['prec'], p)
    return z if z[0] != 'violated' else (z[0], 'precision %s instead of %s' % (show(r['prec']), p))

# ---------------------------------------------------------------- division hook
def div_hook(I):
    """Nat / and % at digit level: fresh quotient and remainder digits within their bounds, recorded on the state's path"""
    memo = {}
    def limbs_of(st, p, byval):
        if byval: p = C.nat_of_value(I, st, p)
        rc = C.nat_loc(I, st, p)[0]
        c, ls = vec_limbs(I, st, rc)
        if not c or not all(is_int(x) for x in ls): raise NoRead('operand')
        return ls
    def hook(I_, st, inst, f, args):
        nm = C.cname(f['name'])
        op = 'div' if nm in ('<%s as std::ops::Div>::div' % C.NAT,) else 'rem' if nm in ('<%s as std::ops::Rem>::rem' % C.NAT,) else None
        asg = nm in ('<%s as std::ops::DivAssign>::div_assign' % C.NAT, '<%s as std::ops::RemAssign>::rem_assign' % C.NAT)
        if asg: op = 'div' if 'Div' in nm else 'rem'
        if op is None: return None
        work = [st]; outs = []
        while work:
            s = work.pop()
            try:
                tr = [I.T[t]['k'] == 'ref' for t in f['locals'][1:3]]
                x = limbs_of(s, args[0], not tr[0]); y = limbs_of(s, args[1], not tr[1])
            except Split as e: work.extend(e.states); continue
            except NoRead: return None
            vx, vy = mathv(x), mathv(y)
            key = (vx, vy)
            xl, xh = s.bounds(vx); yl, yh = s.bounds(vy)
            if yl < 1: return None
            d = memo.get(key)
            if d is None:
                ql, qh = xl // yh, xh // yl
                d = memo[key] = {'X': vx, 'Y': vy, 'q': {}, 'r': {}}
                for n in range(max((ql.bit_length() + 31) // 32, 1), max((qh.bit_length() + 31) // 32, 1) + 1):
                    lo, hi = max(ql, 1 << 32 * (n - 1) if n > 1 else 0), min(qh, (1 << 32 * n) - 1)
                    tl, th = lo >> 32 * (n - 1), hi >> 32 * (n - 1)
                    d['q'][n] = [fresh_in(0, (1 << 32) - 1, 'q%d' % i) for i in range(n - 1)] + [fresh_in(tl, th, 'q%d' % (n - 1))]
                for n in range(0, len(y) + 1):
                    d['r'][n] = [fresh_in(0, (1 << 32) - 1, 'r%d' % i) for i in range(n - 1)] + [fresh_in(1, (1 << 32) - 1, 'r%d' % (n - 1))] if n else [0]
            for n, ds in d['q' if op == 'div' else 'r'].items():
                s2 = s.copy()
                if op == 'div':
                    v = mathv(ds)
                    if not s2.assume(c_ge(sub(v, xl // yh))) or not s2.assume(c_ge(sub(xh // yl, v))): continue
                nv = X.nat_obj(I, s2, ('cells', ds), op)[0]
                s2.ev = s2.ev + ((op, key, n),)
                if asg: I.store(s2, args[0][1], args[0][2], nv); nv = UNIT
                outs.append((s2, nv))
        return outs
    def derive(st, env):
        ks = {e[1] for e in st.ev if e[0] in ('div', 'rem')}
        if env is None:
            o = set()
            for k in ks: leaves_of(memo[k]['X'], o); leaves_of(memo[k]['Y'], o)
            return o
        for e in st.ev:
            if e[0] not in ('div', 'rem'): continue
            d = memo[e[1]]; X_, Y_ = (ev_lin(z, dict(env)) for z in (d['X'], d['Y']))
            if Y_ <= 0: return False
            v = X_ // Y_ if e[0] == 'div' else X_ % Y_
            if max((v.bit_length() + 31) // 32, e[0] == 'div') != e[2]: return False
            for i, x in enumerate(d['q' if e[0] == 'div' else 'r'][e[2]]):
                if type(x) is not int: env[x[2][0][0]] = v >> 32 * i & 0xffffffff
        return True
    lib.DERIVE[0] = derive
    I.divmemo = memo
    I.hooks = hook

def leaves_of(x, o):
    if type(x) is not int: lib.leaves(c_ge(x), o, set())

def quotients(I, s, a, b):
    """the exact quotient a/b as [(state, W, t)] with W = 2*floor + sticky, from the recorded divisions"""
    ks = {e[1] for e in s.ev if e[0] in ('div', 'rem')}
    if len(ks) != 1: raise NoRead('division not recognised')
    k = ks.pop(); d = I.divmemo[k]
    jb = s.bounds(d['Y'])[0].bit_length() - s.bounds(b['W'])[0].bit_length()
    if jb < 0 or not same_mod(I, s, d['Y'], scale(b['W'], 1 << jb)): raise NoRead('divisor')
    lo = s.bounds(a['W'])[0]; x0 = s.bounds(d['X'])[0]
    jj = x0.bit_length() - lo.bit_length()
    if jj >= 0:
        if not same_mod(I, s, d['X'], scale(a['W'], 1 << jj)): raise NoRead('dividend')
    elif not same_mod(I, s, scale(d['X'], 1 << -jj), a['W']): raise NoRead('dividend')
    qn = {e[2] for e in s.ev if e[0] == 'div'}; rn = {e[2] for e in s.ev if e[0] == 'rem'}
    if len(qn) != 1: raise NoRead('quotient')
    q = mathv(d['q'][qn.pop()]); t = add(sub(sub(sub(a['t'], b['t']), jj), 1), jb)
    st = {min(n, 1) for n in rn} or {0, 1}
    if len(st) == 2 and rn: return []
    return [(s.copy(), add(scale(q, 2), x), t) for x in st]

def counterexample(I, s, r, a, b, neg, p, mode):
    """the path's result is not recognised as a function of a/b: look for input digits for which it is not the correctly
    rounded quotient (only terms over the inputs and the recorded quotient digits are evaluated)"""
    if s.imp or r['form'] != 'Finite' or not is_int(r['exp']): return None
    R = mathv(r['ls']); sh = sub(sub(r['exp'], 32 * len(r['ls'])), sub(a['t'], b['t']))
    def pred(env):
        A, B, V, k, q = (ev_lin(x, env) if type(x) is not int else x for x in (a['W'], b['W'], R, sh, r['prec']))
        if not A or not B: return True
        if q != p or r['mode'] != mode or r['neg'] != neg or V.bit_length() != 32 * len(r['ls']): return False
        if abs(k) > 5000: return False
        N = V * B << max(k, 0); D = A << max(-k, 0)          # result / exact = N / D
        if {'Exact': N == D, 'Above': N < D if neg else N > D, 'Below': N > D if neg else N < D}[r['acc']] is False: return False
        u = 1 << max(V.bit_length() - p, 0)
        if V % u: return False
        U = u * B << max(k, 0)
        md = mode
        if md == 'ToNegativeInf': md = 'AwayFromZero' if neg else 'ToZero'
        elif md == 'ToPositiveInf': md = 'ToZero' if neg else 'AwayFromZero'
        d = N - D
        if md == 'ToZero': return -U < d <= 0
        if md == 'AwayFromZero': return 0 <= d <= U
        return 2 * abs(d) <= U
    pred.terms = [x for x in (a['W'], b['W'], R, sh, r['prec']) if is_int(x)]
    w = witness(s, pred, tries=600)
    return None if w is None else ('violated', 'not the correctly rounded quotient: %s, e.g. %s' % (fmt(r), w))

# ---------------------------------------------------------------- binary operators
def expected(I, s, op, x, y):
    """[(state, expectation)]: ('nan',) ('zero', sign|None) ('inf', sign) ('num', sign, W, t)"""
    if op == 'sub': y = dict(y); y['neg'] ^= 1
    xk, yk = x['kind'], y['kind']
    if 'nan' in (xk, yk): return [(s, ('nan',))]
    sx, sy = x['neg'], y['neg']
    if op in ('add', 'sub'):
        if xk == 'inf' or yk == 'inf':
            if xk == yk: return [(s, ('inf', sx) if sx == sy else ('nan',))]
            return [(s, ('inf', sx if xk == 'inf' else sy))]
        if xk == 'zero' and yk == 'zero': return [(s, ('zero', 1 if sx and sy else 0 if x['mode'] != 'ToNegativeInf' or not (sx or sy) else None))]
        if yk == 'zero': return [(s, ('num', sx, x['W'], x['t']))]
        if xk == 'zero': return [(s, ('num', sy, y['W'], y['t']))]
        d = sub(y['t'], x['t'])
        t = x['t'] if d >= 0 else y['t']
        S = add(scale(x['W'], (-1 if sx else 1) << max(-d, 0)), scale(y['W'], (-1 if sy else 1) << max(d, 0)))
        out = []
        for c, e in ((c_ge(sub(S, 1)), ('num', 0, S, t)), (c_ge(sub(-1, S)), ('num', 1, scale(S, -1), t)), (c_eq(S), ('zero', 1 if x['mode'] == 'ToNegativeInf' else 0))):
            s2 = s.copy()
            if s2.assume(c) and not dead(I, s2): out.append((s2, e))
        return out
    sg = sx ^ sy
    if op == 'mul':
        if {xk, yk} == {'zero', 'inf'}: return [(s, ('nan',))]
        if 'inf' in (xk, yk): return [(s, ('inf', sg))]
        if 'zero' in (xk, yk): return [(s, ('zero', sg))]
        return [(s, ('num', sg, I.mul(s, x['W'], y['W']), add(x['t'], y['t'])))]
    if xk == yk and xk != 'fin': return [(s, ('nan',))]
    if xk == 'zero' or yk == 'inf': return [(s, ('zero', sg))]
    if xk == 'inf' or yk == 'zero': return [(s, ('inf', sg))]
    return [(s2, ('num', sg, W, t)) for s2, W, t in quotients(I, s, x, y)]

def judge(I, s, r, e, p, mode):
    try:
        if e[0] == 'nan': return OK if r['form'] == 'Nan' else fail('expected NaN', s, r, I)
        z = meta_ok(I, s, r, p, mode)
        if z[0] != 'proved': return z
        if e[0] == 'zero':
            if e[1] is None: return OK if r['form'] == 'Zero' else fail('expected a zero', s, r, I)
            return zero_ok(I, s, r, e[1])
        if e[0] == 'inf':
            if r['form'] != 'Inf' or r['neg'] != e[1]: return fail('expected %sInf' % '+-'[e[1]], s, r, I)
            return OK if r['acc'] == 'Exact' else fail('an exact infinity with another accuracy', s, r, I)
        return value_ok(I, s, r, e[2], e[3], e[1], p, mode)
    except NoRead as x: return 'undecided', str(x)

def shp(c):
    if type(c) is str: return c
    return c[1] + c[0] + (''.join(':%s' % (len(x) if type(x) is tuple else x) for x in c[2:]))

def panics(I, o, key):
    if o.st.imp or dead(I, o.st): return (key, 'undecided', 'panic? ' + str(o.panic.where))
    w = witness(o.st, False, tries=1500)
    return (key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w))

def results(I, outs, key, get, judge_):
    res = reslist()
    for o in outs:
        if o.kind == 'panic': res.append(panics(I, o, key)); continue
        try: rd = split_read(get, I, o.st, o)
        except NoRead as e: res.append((key, 'undecided', str(e))); continue
        for s, r in rd:
            for z in judge_(s, r): res.append((key, z[0], z[1]))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

TR = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div'}
def run_bin(op, assign, cx, cy, mode, delta=None, px=64, py=64, alias=False):
    path = '<%s as std::ops::%s%s>::%s%s' % (FL, TR[op], 'Assign' if assign else '', op, '_assign' if assign else '')
    r = root(path)
    I = mkexact(budget=1500000); I.splitlz = True; I.poly = True
    if op == 'div': div_hook(I)
    st = State(); f = lib.P.fns[r['inst']]
    ex = ey = None
    d = delta or 0
    fx, fy = cx[0] == 'fin', cy[0] == 'fin'
    if fx and fy and delta is not None:
        ex = fresh_in(max(EMIN, EMIN - d), min(EMAX, EMAX - d), 'x.exp'); ey = add(ex, d)
    x, ix = mkfloat(I, st, cx, 'x', mode, px, ex)
    if alias: y, iy = x, ix
    else: y, iy = mkfloat(I, st, cy, 'y', 'ToZero' if mode != 'ToZero' else 'AwayFromZero', py, ey)
    args = []; homes = []
    for t, v, n in zip(f['locals'][1:3], (x, y), 'xy'):
        a, h = mkarg(I, st, t, v, n); args.append(a); homes.append(h)
    key = '%s|%s,%s%s|%s%s' % (path, shp(cx), 'clone' if alias else shp(cy), ' exp%+d' % d if delta is not None else '', mode, '' if px and py else ' prec %d,%d' % (px, py))
    p = ix['prec'] or iy['prec']
    try: outs = run(I, st, r, args)
    except Budget: return [(key, 'undecided', 'budget')]
    get = lambda I, s, o: readfloat(I, s, s.mem.get(homes[0]) if assign else o.val)
    def jd(s, r):
        try: ex = expected(I, s, op, ix, iy)
        except NoRead as e:
            z = counterexample(I, s, r, ix, iy, ix['neg'] ^ iy['neg'], p, mode) if op == 'div' and fx and fy else None
            return [z or ('undecided', str(e))]
        return [judge(I, s2, r, e, p, mode) for s2, e in ex] or [OK]
    return results(I, outs, key, get, jd)

# ---------------------------------------------------------------- one operand
def mkI2():
    I = mkexact(budget=1500000); I.splitlz = True; I.poly = True
    return I
def call(I, st, path, vals, targs=None):
    """run a public function on values of its parameter types -> (outcomes, homes)"""
    r = root(path, targs); f = lib.P.fns[r['inst']]
    args = []; homes = []
    for t, v, n in zip(f['locals'][1:1 + f['argc']], vals, 'xyz'):
        if is_int(v) or type(v) in (bool,) or type(v) is tuple and v[0] == 'D': args.append(v); homes.append(None); continue
        a, h = mkarg(I, st, t, v, n); args.append(a); homes.append(h)
    return run(I, st, r, args), homes

def enumv(I, st, e, n):
    """[(state, variant index)]"""
    if type(e) is tuple and e and e[0] == 'T': e = I.materialize(st, e[1])
    ts = tag_states(I, st, e, n)
    if ts is None: raise NoRead('enum')
    return [(s, k, e) for s, k in ts]
def payload(e, k, i=0):
    return e[2][k][i]
def accname(I, st, v):
    t = fields(I)['acc']
    return [(s, [x['name'] for x in I.T[t]['variants']][k]) for s, k, _ in enumv(I, st, v, 3)]

def same_float(I, s, r, info, prec=None, mode=None, acc='Exact', neg=None, exp=None):
    """r has exactly the value (form, sign, digits, exponent) of the input, with the given settings"""
    form = {'nan': 'Nan', 'zero': 'Zero', 'inf': 'Inf', 'fin': 'Finite'}[info['kind']]
    if r['form'] != form: return fail('form', s, r, I)
    if form != 'Nan' and r['neg'] != (info['neg'] if neg is None else neg): return fail('sign', s, r, I)
    if acc is not None and r['acc'] != acc: return fail('accuracy %s instead of %s' % (r['acc'], acc), s, r, I)
    if mode is not None and r['mode'] != mode: return fail('rounding mode', s, r, I)
    if prec is not None:
        z = dec_eq(I, s, r['prec'], prec)
        if z[0] != 'proved': return z
    if form == 'Finite':
        m = len(r['ls']); d = 32 * (m - info['m'])
        z = dec_eq(I, s, r['exp'], info['exp'] if exp is None else exp)
        if z[0] != 'proved': return z
        return dec_eq(I, s, scale(mathv(r['ls']), 1 << max(-d, 0)), scale(info['W'], 1 << max(d, 0)))
    return OK

def run_prec(c, mode, p, px=64):
    path = FL + '::set_precision'; I = mkI2(); st = State()
    x, ix = mkfloat(I, st, c, 'x', mode, px)
    key = '%s|%s|%s|%s' % (path, shp(c), mode, p)
    outs, homes = call(I, st, path, [x, p])
    def jd(s, r):
        if ix['kind'] == 'nan': return [OK if r['form'] == 'Nan' else fail('NaN changed', s, r, I)]
        if p == 0:
            if r['mode'] != mode or r['neg'] != ix['neg']: return [fail('mode or sign changed', s, r, I)]
            if ix['kind'] != 'fin': return [same_float(I, s, r, ix, 0, mode)]
            return [fail('expected a zero', s, r, I) if r['form'] != 'Zero' else fail('accuracy of a value cut to zero', s, r, I) if r['acc'] != ('Above' if ix['neg'] else 'Below') else dec_eq(I, s, r['prec'], 0)]
        pp = min(p, (1 << 32) - 1)
        if ix['kind'] != 'fin': return [same_float(I, s, r, ix, pp, mode)]
        return [conj(lambda: meta_ok(I, s, r, pp, mode), lambda: value_ok(I, s, r, ix['W'], ix['t'], ix['neg'], pp, mode))]
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, s.mem.get(homes[0])), jd)

def run_same(name, c, extra=(), px=64):
    """operations whose result (or receiver) is the operand itself with a field changed"""
    path = FL + '::' + name if not name.startswith('<') else name
    I = mkI2(); st = State()
    x, ix = mkfloat(I, st, c, 'x', 'ToZero', px, acc=None if name == 'set_mode' else 'Exact')
    key = '%s|%s%s' % (path, shp(c), ''.join('|%s' % (e,) for e in extra))
    vals = [x]
    mode = 'ToZero'; neg = None; recv = False; accw = 'Exact'
    if name == 'set_mode': mode = extra[0]; accw = 'Exact'; vals.append(X.enum(I, fields(I)['mode'], mode)); recv = True
    if name.endswith('Neg>::neg'): neg = ix['neg'] ^ 1; accw = None
    if name == 'abs': neg = 0; accw = None
    outs, homes = call(I, st, path, vals)
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, s.mem.get(homes[0]) if recv else o.val),
                   lambda s, r: [same_float(I, s, r, ix, ix['prec'], mode, accw, neg)])

def run_mantexp(c, px=64):
    """mant_exp: 0.5 <= |mant| < 1 and x = mant * 2^exp; set_mant_exp is the inverse"""
    path = FL + '::mant_exp'; I = mkI2(); st = State()
    x, ix = mkfloat(I, st, c, 'x', 'ToZero', px, acc='Exact')
    key = '%s|%s' % (path, shp(c))
    outs, homes = call(I, st, path, [x])
    def get(I, s, o):
        r = readfloat(I, s, o.val[1][0]); r['e2'] = o.val[1][1]
        return r
    def jd(s, r):
        fin = ix['kind'] == 'fin'
        return [conj(lambda: same_float(I, s, r, ix, ix['prec'], 'ToZero', 'Exact', exp=0 if fin else None), lambda: dec_eq(I, s, r['e2'], ix['exp'] if fin else 0))]
    return results(I, outs, key, get, jd)

def run_setmantexp(c, px=64):
    path = FL + '::set_mant_exp'; I = mkI2(); st = State()
    z, iz = mkfloat(I, st, F('-', 1, 30), 'z', 'ToNearestEven', 30)
    x, ix = mkfloat(I, st, c, 'x', 'ToZero', px, acc='Exact')
    e = fresh_in(-(1 << 63), (1 << 63) - 1, 'e')
    key = '%s|%s' % (path, shp(c))
    outs, homes = call(I, st, path, [z, x, e])
    def jd(s, r):
        if ix['kind'] != 'fin': return [same_float(I, s, r, ix, ix['prec'], 'ToZero')]
        n = add(ix['exp'], e)
        if r['form'] == 'Finite': return [same_float(I, s, r, ix, ix['prec'], 'ToZero', exp=n)]
        if r['form'] == 'Nan' or r['neg'] != ix['neg']: return [fail('form or sign', s, r, I)]
        if r['acc'] != {'Zero': ('Below', 'Above'), 'Inf': ('Above', 'Below')}[r['form']][ix['neg']]: return [fail('accuracy', s, r, I)]
        return [dec(I, s, c_ge(sub(EMIN - 1, n)) if r['form'] == 'Zero' else c_ge(sub(n, EMAX + 1)))]
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, s.mem.get(homes[0])), jd)

# ---------------------------------------------------------------- conversions to Float
def fromty(t): return '<%s as std::convert::From<%s>>::from' % (FL, t)
def value_jd(I, W, t, neg, p, mode='ToNearestEven'):
    def jd(s, r):
        try: pp = p(s) if callable(p) else p
        except NoRead as e: return [('undecided', str(e))]
        return [conj(lambda: meta_ok(I, s, r, pp, mode), lambda: value_ok(I, s, r, W, t, neg, pp, mode))]
    return jd
def spec_jd(I, kind, neg, p):
    def jd(s, r):
        if kind == 'nan': return [OK if r['form'] == 'Nan' else fail('expected NaN', s, r, I)]
        if r['form'] != {'zero': 'Zero', 'inf': 'Inf'}[kind] or r['neg'] != neg or r['acc'] != 'Exact' or r['mode'] != 'ToNearestEven': return [fail('expected exactly %s%s' % ('+-'[neg], kind), s, r, I)]
        return [OK if p is None else dec_eq(I, s, r['prec'], p)]
    return jd

def run_fromint(ty, cls):
    path = fromty(ty); I = mkI2(); st = State()
    lo, hi = I.trange(I.p.tyname[ty])
    v = {'zero': 0, 'min': lo}.get(cls)
    if v is None: v = fresh_in(1, hi, 'x') if cls == 'pos' else fresh_in(lo + 1, -1, 'x')
    outs, _ = call(I, st, path, [v])
    key = '%s|%s' % (path, cls)
    ng = 1 if cls in ('neg', 'min') else 0
    jd = spec_jd(I, 'zero', 0, 64) if v == 0 else value_jd(I, neg_(v) if ng else v, 0, ng, 64)
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, o.val), jd)

def run_fromfloat(ty, c):
    """c: ('f', sign, biased exponent, top fraction bit | 'zero' | None)"""
    path = fromty(ty); I = mkI2(); I.PEEL = 90; I.K = 3000; st = State()
    n = 8 if ty == 'f64' else 4
    v, inf = c_rat.float_arg(I, st, c, n, 'x')
    P, Bs = (52, 1023) if n == 8 else (23, 127)
    full = 2 * Bs + 1
    outs, _ = call(I, st, path, [v])
    key = '%s|%s' % (path, ','.join(map(str, c)))
    _, sg, e, k = c
    if e == full: jd = spec_jd(I, 'inf' if k == 'zero' else 'nan', sg, 53 if k == 'zero' else None)
    elif e == 0 and k == 'zero': jd = spec_jd(I, 'zero', sg, 53)
    else:
        num, den = inf
        z = (num & -num).bit_length() - 1 if type(num) is int else 0
        jd = value_jd(I, neg_(num) if sg else num, 1 - den.bit_length(), sg, 53)
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, o.val), jd)

def natv(I, st, n, nm):
    """natural number of n digits (top digit non-zero); ('bits', k): of exactly k bits"""
    if type(n) is tuple:
        m, k = divmod(n[1] - 1, 32)
        return X.nat_obj(I, st, ('cells', [fresh_in(0, (1 << 32) - 1, '%s%d' % (nm, i)) for i in range(m)] + [fresh_in(1 << k, (2 << k) - 1, '%s%d' % (nm, m))]), nm)
    return X.nat_obj(I, st, ('limbs', n) if n else 'zero', nm)
def bigv(I, st, sg, n, nm):
    nv, info = natv(I, st, n, nm)
    t = I.p.tyname[BIGT]
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    sv = ('E', X.sign_idx(I, 'Negative' if sg == '-' else 'Natural'), ((), ()))
    return ('A', tuple(nv if x == 'nat' else sv for x in fs)), info
BIGT = 'bigint::bigint::BigInt'; NATT = 'bigint::nat::Nat'; RATT = 'bigint::rat::Rat'

def bitlen_of(I, W):
    """precision max(bits, 64) of a digit-level value on a path"""
    def f(s):
        l, h = Red(I, s, (W,)).bounds(W)
        if h >= POS: raise NoRead('bits')
        if max(l.bit_length(), 64) != max(h.bit_length(), 64): raise NoRead('bits')
        return max(h.bit_length(), 64)
    return f

def run_fromnat(ty, sg, n):
    path = fromty(ty); I = mkI2(); st = State()
    if n == 'nan': v, info = X.nat_obj(I, st, 'nan', 'x') if ty == NATT else X.big_obj(I, st, 'nan', 'x')
    elif ty == NATT: v, info = natv(I, st, n, 'x')
    else: v, info = bigv(I, st, sg, n, 'x')
    if n == 1: st.assume(c_ge(sub(info['val'], 1)))
    outs, _ = call(I, st, path, [v])
    key = '%s|%s%s' % (path, sg, n)
    if n == 'nan': jd = spec_jd(I, 'nan', 0, None)
    elif n == 0: jd = spec_jd(I, 'zero', 0, 64)
    else:
        W = info['val']
        jd = value_jd(I, W, 0, int(sg == '-'), bitlen_of(I, W))
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, o.val), jd)

def run_fromrat(sg, n, m):
    """numerator of n digits or bits (0: zero), denominator of m (0: the integer case, denominator 1)"""
    path = fromty(RATT); I = mkI2(); div_hook(I); st = State()
    t = I.p.tyname[RATT]
    a, ia = bigv(I, st, sg if n else '+', n, 'n')
    if m: b, ib = bigv(I, st, '+', m, 'd')
    else: b, ib = X.big_obj(I, st, ('+', 'one'), 'd')
    if n == 1: st.assume(c_ge(sub(ia['val'], 1)))
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    v = ('A', tuple(a if fn == 'a' else b for fn in fs))
    outs, _ = call(I, st, path, [v])
    key = '%s|%s%s/%s' % (path, sg, n if type(n) is int else 'b%d' % n[1], 'b%d' % m[1] if m else 1)
    W = ia['val'] if n else 0; ng = int(sg == '-')
    if n == 0: jd = spec_jd(I, 'zero', 0, 64)
    elif m == 0: jd = value_jd(I, W, 0, ng, bitlen_of(I, W))
    else:
        pa, pb = bitlen_of(I, W), bitlen_of(I, ib['val'])
        def jd(s, r):
            out = []
            try:
                p = max(pa(s), pb(s))
                for s2, Q, t2 in quotients(I, s, {'W': W, 't': 0}, {'W': ib['val'], 't': 0}):
                    out.append(conj(lambda: meta_ok(I, s2, r, p, 'ToNearestEven'), lambda: value_ok(I, s2, r, Q, t2, ng, p, 'ToNearestEven')))
            except NoRead as e:
                z = counterexample(I, s, r, {'W': W, 't': 0}, {'W': ib['val'], 't': 0}, ng, p, 'ToNearestEven')
                return [z or ('undecided', str(e))]
            return out
    return results(I, outs, key, lambda I, s, o: readfloat(I, s, o.val), jd)

# ---------------------------------------------------------------- conversions from Float
def run_trunc(ty, c, exp):
    """exp: an integer or ('le', n) / ('ge', n)"""
    path = FL + '::truncate_to_' + ty; I = mkI2(); st = State()
    lo, hi = I.trange(I.p.tyname[ty])
    e = exp if exp is None or type(exp) is int else fresh_in(EMIN, exp[1], 'x.exp') if exp[0] == 'le' else fresh_in(exp[1], EMAX, 'x.exp')
    x, ix = mkfloat(I, st, c, 'x', 'AwayFromZero', exp=e)
    outs, _ = call(I, st, path, [x])
    key = '%s|%s|%s' % (path, shp(c), exp)
    def get(I, s, o): return enumv(I, s, o.val, 2)
    def one(s, k, e):
        if ix['kind'] == 'nan': return [OK if k == 0 else ('violated', 'Some for NaN')]
        if k == 0: return [('undecided' if s.imp or dead(I, s) else 'violated', 'None for a number')]
        tup = payload(e, 1)
        if type(tup) is tuple and tup[0] == 'T': tup = I.materialize(s, tup[1])
        u = tup[1][0]; out = []
        for s2, acc in accname(I, s, tup[1][1]):
            out.append(trunc_ok(I, s2, u, acc, ix, lo, hi))
        return out
    def jd(s, r):
        out = []
        for s2, k, e in r: out += one(s2, k, e)
        return out
    return results(I, outs, key, get, jd)

def trunc_ok(I, s, u, acc, ix, lo, hi):
    ng = ix['neg']
    A = 'Above' if ng else 'Below'
    def bad(w): return ('undecided' if s.imp or dead(I, s) else 'violated', w)
    def const(c, a): return conj(lambda: OK if acc == a else bad('accuracy %s instead of %s' % (acc, a)), lambda: dec_eq(I, s, u, c))
    if ix['kind'] == 'zero': return const(0, 'Exact')
    if ix['kind'] == 'inf': return const(lo if ng else hi, A)
    W, t = ix['W'], ix['t']
    if ng and lo == 0: return const(0, 'Above')
    el, eh = s.bounds(ix['exp'])
    if eh <= 0: return const(0, A)
    if el > 64: return const(lo if ng else hi, A)
    if type(t) is not int: return 'undecided', 'exponent'
    lim = -lo if ng else hi           # |x| truncated towards zero, saturated at lim
    k = max(-t, 0); V = scale(W, 1 << max(t, 0))
    fl = I.lowhigh(s, V, k); frac, whole = (fl[0], fl[1]) if k else (0, V)
    out = []
    for cnd, want, over in ((c_ge(sub(lim, whole)), whole, False), (c_ge(sub(whole, lim + 1)), lim, True)):
        s2 = s.copy()
        if not s2.assume(cnd) or dead(I, s2): continue
        z = dec_eq(I, s2, neg_(u) if ng else u, want)
        if z[0] != 'proved': return z
        if over: z = OK if acc == A else bad('accuracy %s of a saturated value' % acc)
        elif acc == 'Exact': z = dec_eq(I, s2, frac, 0)
        elif acc != A: z = bad('accuracy %s' % acc)
        else: z = dec(I, s2, c_ge(sub(frac, 1)))
        if z[0] != 'proved': return z
    return OK

def run_tof(ty, c, exp):
    path = FL + '::to_' + ty; I = mkI2(); st = State()
    n = 8 if ty == 'f64' else 4
    P, Bs = (52, 1023) if n == 8 else (23, 127)
    e = exp if exp is None or type(exp) is int else fresh_in(exp[0], exp[1], 'x.exp')
    x, ix = mkfloat(I, st, c, 'x', 'AwayFromZero', exp=e)
    outs, _ = call(I, st, path, [x])
    key = '%s|%s|%s' % (path, shp(c), exp)
    SB = 1 << (8 * n - 1); INF = (2 * Bs + 1) << P
    def get(I, s, o): return o.val
    def one(s, v, acc):
        b = I.fbits(v, n)
        def bad(w): return ('undecided' if s.imp or dead(I, s) or b is None else 'violated', w)
        if b is None: return 'undecided', 'float result %s' % (v,)
        if ix['kind'] == 'nan':
            m = b % SB if type(b) is int else None
            return OK if m is not None and m > INF else bad('expected NaN')
        bm = sub(b, SB if ix['neg'] else 0)
        l, h = Red(I, s, (bm,) if type(bm) is not int else ()).bounds(bm)
        if l < 0 or h >= SB: return bad('sign bit')
        if ix['kind'] != 'fin':
            if acc != 'Exact': return bad('accuracy %s' % acc)
            return dec_eq(I, s, bm, 0 if ix['kind'] == 'zero' else INF)
        sg = -1 if ix['neg'] else 1
        el, eh = s.bounds(ix['exp'])
        up, dn = ('Below', 'Above') if ix['neg'] else ('Above', 'Below')
        if el - 1 > Bs: return conj(lambda: OK if acc == up else bad('accuracy %s of an overflow' % acc), lambda: dec_eq(I, s, bm, INF))
        emin = 1 - Bs
        if eh - 1 < emin - P - 1: return conj(lambda: OK if acc == dn else bad('accuracy %s of an underflow' % acc), lambda: dec_eq(I, s, bm, 0))
        W = ix['W']; B = 32 * ix['m']          # 2^(B-1) <= W < 2^B, value W * 2^(exp - B)
        if el - 1 >= emin: off = scale(add(ix['exp'], Bs - 2), 1 << P); q = P + 1 - B
        elif el == eh: off = 0; q = ix['exp'] - B - (emin - P)
        else: return 'undecided', 'exponent'
        K = sub(bm, off)                      # the value in units of the last place: W * 2^q
        K2, W2 = scale(K, 1 << max(-q, 0)), scale(W, 1 << max(q, 0))
        return rounded_unit(I, s, W2, K2, max(-q, 0), K, acc, sg)
    def jd(s, v):
        if type(v) is tuple and v[0] == 'T': v = I.materialize(s, v[1])
        return [one(s2, v[1][0], a) for s2, a in accname(I, s, v[1][1])]
    return results(I, outs, key, get, jd)

def rounded_unit(I, s, W, R, k, K, acc, sg):
    """R = K * 2^k is W rounded to a multiple of 2^k, ties to even"""
    D = sub(R, W)
    if k == 0: return conj(lambda: dec_eq(I, s, D, 0), lambda: acc_ok(I, s, acc, D, sg))
    U = 1 << k
    def ties():
        for d in (scale(D, 2), scale(D, -2)):
            s2 = s.copy()
            if not s2.assume(c_eq(sub(d, U))): continue
            r = dec_eq(I, s2, I.lowhigh(s2, R, k + 1)[0], 0)
            if r[0] != 'proved': return r
        return OK
    return conj(lambda: dec(I, s, c_ge(sub(U, scale(D, 2)))), lambda: dec(I, s, c_ge(add(scale(D, 2), U))), ties, lambda: acc_ok(I, s, acc, D, sg))

def never0(I, s, D):
    """the term D is never zero: by its bounds, or because its lowest digit that is not always zero is odd"""
    if type(D) is int: return dec(I, s, c_ne(D))
    if poly_proves(I, s, sub(D, 1)) or poly_proves(I, s, sub(-1, D)): return OK
    E, s2 = D, s.copy()
    try:
        for _ in range(8):
            if type(E) is int: break
            j = min([I.tz(('L', 0, E[2]))] + ([(E[1] & -E[1]).bit_length() - 1] if E[1] else []))
            E = mk(E[1] >> j, {a: k >> j for a, k in E[2]})
            x, E = I.lowhigh(s2, E, 1)
            b = Red(I, s2, (x,)).bounds(x) if type(x) is not int else (x, x)
            if b == (1, 1): return OK
            if b != (0, 0): break
    except Split as e: pass
    return dec(I, s, c_ne(D))

def run_rattof(ty, sg, na, nb):
    """Rat::to_f32 / to_f64: numerator of exactly na bits, denominator of nb bits (0: the denominator 1)"""
    path = RATT + '::to_' + ty; I = mkI2(); div_hook(I); st = State()
    n = 8 if ty == 'f64' else 4
    P, Bs = (52, 1023) if n == 8 else (23, 127)
    t = I.p.tyname[RATT]; special = na == 'nan' or na == 0
    if special: a, ia = X.big_obj(I, st, ('+', 'zero') if na == 0 else 'nan', 'n')
    else: a, ia = bigv(I, st, sg, ('bits', na), 'n')
    if nb: b, ib = bigv(I, st, '+', ('bits', nb), 'd')
    else: b, ib = X.big_obj(I, st, ('+', 'one'), 'd')
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    outs, _ = call(I, st, path, [('A', tuple(a if fn == 'a' else b for fn in fs))])
    key = '%s|%s%s/%s' % (path, sg, na, nb or 1)
    SB = 1 << (8 * n - 1); INF = (2 * Bs + 1) << P; ng = sg == '-'
    def get(I, s, o):
        v = o.val
        return I.materialize(s, v[1]) if v[0] == 'T' else v
    def exactly(s, ex, want):
        if ex is True or ex is False: z = ex
        else:
            z = s.evalc(ex) if type(ex) is tuple and ex[0] == 'C' else None
            if z is None: return 'undecided', 'exactness flag'
        return OK if z == want else ('undecided' if s.imp or dead(I, s) else 'violated', 'the result is reported as %s' % ('exact' if z else 'inexact'))
    def one(s, v, ex):
        b = I.fbits(v, n)
        def bad(w): return ('undecided' if s.imp or dead(I, s) or b is None else 'violated', w)
        if b is None: return 'undecided', 'float result %s' % (v,)
        if na == 'nan': return conj(lambda: OK if type(b) is int and b % SB > INF else bad('expected NaN'), lambda: exactly(s, ex, False))
        bm = sub(b, SB if ng else 0)
        l, h = Red(I, s, (bm,) if type(bm) is not int else ()).bounds(bm)
        if l < 0 or h >= SB: return bad('sign bit')
        if na == 0: return conj(lambda: dec_eq(I, s, bm, 0), lambda: exactly(s, ex, True))
        out = []
        ws = [(s, scale(ia['val'], 1 << P + 70), -(P + 70))] if not nb and not any(e[0] in ('div', 'rem') for e in s.ev) else \
            [(s2, scale(q, 1 << 2), tt - 2) for s2, q, tt in quotients(I, s, {'W': ia['val'], 't': 0}, {'W': ib['val'] if nb else 1, 't': 0})]
        for s2, W, tt in ws:
            for s3, L in bitlen_split(I, s2, W):
                e = L + tt; emin = 1 - Bs          # 2^(e-1) <= value < 2^e
                if e - 1 > Bs: out.append(conj(lambda: dec_eq(I, s3, bm, INF), lambda: exactly(s3, ex, False))); continue
                if e - 1 < emin - P - 1: out.append(conj(lambda: dec_eq(I, s3, bm, 0), lambda: exactly(s3, ex, False))); continue
                if e - 1 >= emin: off = (e + Bs - 2) << P; k = L - 1 - P
                else: off = 0; k = emin - P - tt
                if k < 2: out.append(('undecided', 'few quotient bits')); continue
                K = sub(bm, off); R = scale(K, 1 << k); D = sub(R, W); U = 1 << k
                def ties():
                    for d in (scale(D, 2), scale(D, -2)):
                        s4 = s3.copy()
                        if not s4.assume(c_eq(sub(d, U))): continue
                        r = dec_eq(I, s4, I.lowhigh(s4, R, k + 1)[0], 0)
                        if r[0] != 'proved': return r
                    return OK
                def flag():
                    if ex is True: return dec_eq(I, s3, D, 0)
                    if ex is False:
                        return never0(I, s3, D)
                    return 'undecided', 'exactness flag'
                out.append(conj(lambda: dec(I, s3, c_ge(sub(U, scale(D, 2)))), lambda: dec(I, s3, c_ge(add(scale(D, 2), U))), ties, flag))
        return next((z for z in out if z[0] == 'violated'), next((z for z in out if z[0] != 'proved'), OK)) if out else ('proved', 'unreachable')
    def jd(s, v):
        ex = v[1][1]
        if is_int(ex) : return [('undecided', 'flag')]
        st_ = [(s, ex)]
        if type(ex) is tuple and ex[0] == 'C' and s.evalc(ex) is None:
            st_ = []
            for tr in (True, False):
                s2 = s.copy()
                if s2.assume(ex, tr): st_.append((s2, tr))
        elif type(ex) is tuple and ex[0] == 'C': st_ = [(s, s.evalc(ex))]
        try: return [one(s2, v[1][0], e2) for s2, e2 in st_]
        except NoRead as e: return [('undecided', str(e))]
    return results(I, outs, key, get, jd)

# ---------------------------------------------------------------- comparisons and queries
ORD = {'-inf': -2, '-fin': -1, '+zero': 0, '-zero': 0, '+fin': 1, '+inf': 2}
def run_fcmp(meth, c, d, alias=False):
    path = '<%s as std::cmp::%s>::%s' % (FL, 'PartialEq' if meth == 'eq' else 'PartialOrd', meth)
    I = mkI2(); st = State()
    x, ix = mkfloat(I, st, c, 'x', 'ToZero')
    y, iy = (x, ix) if alias else mkfloat(I, st, d, 'y', 'AwayFromZero')
    outs, _ = call(I, st, path, [x, y])
    key = '%s|%s,%s' % (path, shp(c), 'clone' if alias else shp(d))
    nan = 'nan' in (ix['kind'], iy['kind'])
    def rel(s):
        """[(state, sign of x - y or a term with that sign)]"""
        o = lambda i: ORD['+-'[i['neg']] + i['kind']]
        a, b = o(ix), o(iy)
        if a != b or abs(a) != 1: return [(s, (a > b) - (a < b))]
        out = []
        df = sub(ix['exp'], iy['exp'])
        for cnd, sgn in ((c_ge(sub(df, 1)), 1), (c_ge(sub(-1, df)), -1), (c_eq(df), 0)):
            s2 = s.copy()
            if not s2.assume(cnd): continue
            if sgn: out.append((s2, sgn * a)); continue
            k = 32 * (ix['m'] - iy['m'])
            out.append((s2, scale(sub(scale(ix['W'], 1 << max(-k, 0)), scale(iy['W'], 1 << max(k, 0))), a)))
        return out
    def settle(s, want):      # want: -1, 0, 1 or None (not equal)
        out = []
        for s2, r in rel(s):
            if want is None: out.append(dec_ne(I, s2, r))
            elif want == 0: out.append(dec_eq(I, s2, r, 0))
            else: out.append(dec(I, s2, c_ge(sub(scale(r, want), 1))))
        return out
    def jd(s, v):
        bad = lambda s, w: ('undecided' if s.imp or dead(I, s) else 'violated', w)
        out = []
        if meth == 'eq':
            for b in (True, False):
                for s2 in branches(I, s.copy(), v, b):
                    if nan: out.append(bad(s2, 'NaN equals something') if b else OK)
                    else: out += settle(s2, 0 if b else None)
            return out
        for s2, k, e in enumv(I, s, v, 2):
            if nan or k == 0: out.append(OK if nan == (k == 0) else bad(s2, 'ordered with a NaN' if nan else 'unordered numbers')); continue
            for s3, j, _ in enumv(I, s2, payload(e, 1), 3): out += settle(s3, (-1, 0, 1)[j])
        return out
    return results(I, outs, key, lambda I, s, o: o.val, jd)

def run_q(q, c, exp=None, px=64):
    path = FL + '::' + q; I = mkI2(); st = State()
    e = exp if exp is None or type(exp) is int else fresh_in(EMIN, exp[1], 'x.exp') if exp[0] == 'le' else fresh_in(exp[1], EMAX, 'x.exp')
    x, ix = mkfloat(I, st, c, 'x', 'AwayFromZero', px, exp=e, acc='Below')
    outs, _ = call(I, st, path, [x])
    key = '%s|%s%s' % (path, shp(c), '' if exp is None else '|%s' % (exp,))
    kind, ng = ix['kind'], ix['neg']
    def bad(s, w): return ('undecided' if s.imp or dead(I, s) else 'violated', w)
    def boolean(s, v, want):
        return [OK if b == want else bad(s2, 'answers %s' % b) for b in (True, False) for s2 in branches(I, s.copy(), v, b)]
    def jd(s, v):
        if q == 'is_nan': return boolean(s, v, kind == 'nan')
        if q == 'get_precision': return [dec_eq(I, s, v, ix['prec'])]
        if q in ('get_mode', 'get_accuracy'):
            t = fields(I)['mode' if q == 'get_mode' else 'acc']; n = [z['name'] for z in I.T[t]['variants']]
            want = 'AwayFromZero' if q == 'get_mode' else 'Below'
            return [OK if n[k] == want else bad(s2, n[k]) for s2, k, _ in enumv(I, s, v, len(n))]
        if q == 'required_min_precision':
            if kind != 'fin': return [dec_eq(I, s, v, 0)]
            c_ = s.cst(v)
            if c_ is None: return [('undecided', 'precision')]
            z = 32 * ix['m'] - c_
            if z < 0: return [bad(s, 'more bits than the mantissa has')]
            lo, hi = I.lowhigh(s, ix['W'], z)
            return [conj(lambda: dec_eq(I, s, lo, 0), lambda: dec_eq(I, s, I.lowhigh(s, hi, 1)[0], 1))]
        out = []
        for s2, k, e in enumv(I, s, v, 2):
            if kind == 'nan' or k == 0: out.append(OK if (kind == 'nan') == (k == 0) else bad(s2, 'None for a number' if k == 0 else 'Some for NaN')); continue
            p = payload(e, 1)
            if q == 'signnum': out.append(dec_eq(I, s2, p, 0 if kind == 'zero' else -1 if ng else 1))
            elif q == 'is_negative': out += boolean(s2, p, ng == 1)
            elif q == 'is_infinite': out += boolean(s2, p, kind == 'inf')
            elif q == 'is_integer':
                if kind != 'fin': out += boolean(s2, p, kind == 'zero'); continue
                for b in (True, False):
                    for s3 in branches(I, s2.copy(), p, b):
                        t = ix['t']
                        el, eh = s3.bounds(ix['exp'])
                        if eh <= 0: out.append(OK if not b else bad(s3, 'a proper fraction counts as integer')); continue
                        if el >= 32 * ix['m']: out.append(OK if b else bad(s3, 'an integer does not count as one')); continue
                        if type(t) is not int: out.append(('undecided', 'exponent')); continue
                        lo = I.lowhigh(s3, ix['W'], -t)[0] if t < 0 else 0
                        out.append(dec_eq(I, s3, lo, 0) if b else dec(I, s3, c_ge(sub(lo, 1))))
        return out
    return results(I, outs, key, lambda I, s, o: o.val, jd)

def run_const(name, arg=None):
    path = FL + '::' + name if name != 'default' else '<%s as std::default::Default>::default' % FL
    I = mkI2(); st = State()
    outs, _ = call(I, st, path, [] if arg is None else [arg])
    return results(I, outs, '%s|%s' % (path, arg), lambda I, s, o: readfloat(I, s, o.val),
                   lambda s, r: [OK if r['form'] == ('Zero' if name == 'default' else 'Inf') and r['neg'] == int(arg is True) and r['acc'] == 'Exact' and r['mode'] == 'ToNearestEven' else fail('wrong constant', s, r, I)])

RUN = {'bin': run_bin, 'prec': run_prec, 'same': run_same, 'mantexp': run_mantexp, 'setmantexp': run_setmantexp, 'fromint': run_fromint,
       'fromfloat': run_fromfloat, 'fromnat': run_fromnat, 'fromrat': run_fromrat, 'trunc': run_trunc, 'tof': run_tof, 'rattof': run_rattof, 'fcmp': run_fcmp,
       'q': run_q, 'const': run_const}
def job(spec): return RUN[spec[0]](*spec[1:])
CLS = [('zero', '+'), ('zero', '-'), ('inf', '+'), ('inf', '-'), 'nan']
def specs1(which):
    out = []; Q = lib.TIER != 'thorough'
    fin = [F('+', 1, 24), F('-', 1, 32), F('+', 2, 53), F('-', 2, 64)] + ([] if Q else [F('+', 3, 80), F('-', 3, 96), F('+', 1, 2)])
    if which == 'prec':
        for c in CLS:
            for p in (0, 1, 24, 64, 100, 1 << 40): out.append(('prec', c, 'ToZero', p))
        for mode in MODES:
            for sg in '+-':
                for (m, p0) in ((1, 24), (1, 32), (2, 53), (2, 64)) + (() if Q else ((3, 80), (3, 96), (4, 128))):
                    for p in (0, 1, 2, 11, 23, 24, 31, 32, 33, 40, 52, 53, 63, 64, 65, 96, 200, 1 << 40):
                        if p < p0 or p in (0, 53, 64, 200, 1 << 40): out.append(('prec', F(sg, m, p0), mode, p))
    if which == 'conv':
        for ty in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
            for cl in ('zero', 'pos') + (('neg', 'min') if ty[0] == 'i' else ()): out.append(('fromint', ty, cl))
        for ty, P, Bs in (('f64', 52, 1023), ('f32', 23, 127)):
            for sg in (0, 1):
                for e in (1, 2, Bs - 1, Bs, Bs + 1, Bs + 31, 2 * Bs) + (() if Q else (3, Bs - 60, Bs + 60, 2 * Bs - 1)): out.append(('fromfloat', ty, ('f', sg, e, None)))
                for k in range(0, P, 1 if not Q or ty == 'f32' else 3): out.append(('fromfloat', ty, ('f', sg, 0, k)))
                for e in (0, 1, Bs, 2 * Bs + 1): out.append(('fromfloat', ty, ('f', sg, e, 'zero')))
                out.append(('fromfloat', ty, ('f', sg, 2 * Bs + 1, None)))
        for n in ('nan', 0, 1, 2, 3, 4) + (() if Q else (5, 6, 8)):
            for ty, sgs in ((NATT, '+'), (BIGT, '+-')):
                for sg in sgs if n and n != 'nan' else '+': out.append(('fromnat', ty, sg, n))
        out.append(('fromrat', '+', 0, 0))
        for sg in '+-':
            for n in (1, 2, 3): out.append(('fromrat', sg, n, 0))
            for n, m in ((1, 2), (5, 3), (32, 2), (32, 32), (20, 31), (33, 7), (50, 10), (64, 64), (7, 40), (70, 40), (3, 70), (64, 66), (66, 64)) + (() if Q else ((1, 64), (64, 33), (65, 96), (96, 5), (96, 96))): out.append(('fromrat', sg, ('bits', n), ('bits', m)))
    if which == 'to':
        for c in CLS:
            for ty in ('u64', 'i64'): out.append(('trunc', ty, c, None))
            for ty in ('f32', 'f64'): out.append(('tof', ty, c, None))
        for c in fin + [F('+', 2, 40), F('-', 1, 24), F('+', 2, 64), F('-', 2, 53), F('+', 3, 90), F('-', 3, 90)]:
            for e in (('le', 0), 1, 2, 7, 23, 24, 31, 32, 33, 40, 53, 62, 63, 64, ('ge', 65)):
                for ty in ('u64', 'i64'): out.append(('trunc', ty, c, e))
        for c in [F(sg, m, p) for sg in '+-' for m, p in ((1, 10), (1, 24), (1, 32), (2, 53), (2, 64)) + (() if Q else ((3, 80), (3, 96)))]:
            for ty, P, Bs in (('f32', 23, 127), ('f64', 52, 1023)):
                lo = 2 - Bs - P       # exponent of the smallest denormal
                es = [(EMIN, lo - 3), lo - 2, lo - 1, lo, lo + 1, lo + 2, lo + 9, 1 - Bs, 2 - Bs, 3 - Bs, (4 - Bs, Bs - 1), Bs, Bs + 1, Bs + 2, (Bs + 3, EMAX)]
                if not Q: es += list(range(lo + 3, 1 - Bs, 2))
                for e in es: out.append(('tof', ty, c, e))
    if which == 'cmp':
        cl = CLS + [F(sg, m, p) for sg in '+-' for m, p in ((1, 24), (1, 32), (2, 53), (2, 64)) + (() if Q else ((3, 96), (4, 100)))]
        for meth in ('eq', 'partial_cmp'):
            for a in cl:
                for b in cl: out.append(('fcmp', meth, a, b))
                out.append(('fcmp', meth, a, a, True))
    if which == 'query':
        for q in ('is_nan', 'get_precision', 'get_mode', 'get_accuracy', 'required_min_precision', 'signnum', 'is_negative', 'is_infinite', 'is_integer'):
            for c in CLS: out.append(('q', q, c, None, 40))
            for c in fin:
                if q != 'is_integer': out.append(('q', q, c))
                else:
                    for e in (('le', 0), 1, 2, 9, 23, 24, 31, 32, 33, 45, 53, 63, 64, ('ge', 65), ('ge', 100)): out.append(('q', q, c, e))
        for name in ('abs', 'deep_clone', '<%s as std::ops::Neg>::neg' % FL):
            for c in CLS + fin: out.append(('same', name, c))
        for c in CLS + fin:
            for mode in MODES: out.append(('same', 'set_mode', c, (mode,)))
            out.append(('mantexp', c)); out.append(('setmantexp', c))
        out += [('const', 'default'), ('const', 'get_inf', False), ('const', 'get_inf', True)]
    return out
def F(sg, m, p): return ('fin', sg, m, p)
def specs(which):
    out = []
    Q = lib.TIER != 'thorough'
    if which in ('prec', 'conv', 'to', 'cmp', 'query'): return specs1(which)
    if which == 'rattof':
        for ty in ('f64', 'f32'):
            P, Bs = (52, 1023) if ty == 'f64' else (23, 127)
            out += [('rattof', ty, '+', 'nan', 0), ('rattof', ty, '+', 0, 0)]
            for d in (0, 1, -1, 5, P + 1, P + 2, P + 3, P + 4, -P, -70, 100, Bs - 1, Bs, Bs + 1, Bs + 2, -Bs + 2, -Bs + 1, -Bs, -Bs - 1, -Bs - 5, -Bs - P + 3, -Bs - P + 2, -Bs - P + 1, -Bs - P, -Bs - P - 1, -Bs - P - 2, -Bs - P - 3, -Bs - P - 4, -Bs - P - 60):
                for m in (1, 33, 64) if Q else (1, 2, 31, 32, 33, 53, 64, 65, 97):
                    na, nb = (m + d, m) if d >= 0 else (m, m - d)
                    out.append(('rattof', ty, '+-'[len(out) % 2], na, nb))
            for na in (1, 8, 24, 53, 54, 55, 64, 65, 128, 129, Bs, Bs + 1, Bs + 2): out.append(('rattof', ty, '+-'[len(out) % 2], na, 0))
    if which == 'special':
        cl = [('zero', '+'), ('zero', '-'), ('inf', '+'), ('inf', '-'), F('+', 2, 64), F('-', 2, 64), 'nan']
        for op in TR:
            for asg in (False, True):
                for a in cl:
                    for b in cl:
                        if a[0] == b[0] == 'fin': continue
                        for mode in ('ToNearestEven', 'ToNegativeInf') + (() if Q else ('ToZero', 'AwayFromZero', 'ToPositiveInf', 'ToNearestAway')): out.append(('bin', op, asg, a, b, mode))
                        if a[0] == 'zero' and b[0] == 'zero' or a[0] == 'inf' and b != 'nan': out.append(('bin', op, asg, a, b, 'ToNearestEven', None, 0, 0))
                        if a[0] in ('zero', 'inf') and b != 'nan': out.append(('bin', op, asg, a, b, 'ToZero', None, 0, 40))
    if which == 'add':
        for op in ('add', 'sub'):
            for sg in ('++', '+-', '-+', '--'):
                for mode in MODES:
                    sh = [(1, 24, 1, 24), (1, 32, 1, 32), (2, 53, 2, 53), (1, 20, 2, 50), (2, 64, 1, 31)] + ([] if Q else [(2, 64, 2, 64), (2, 33, 2, 40), (3, 96, 1, 32), (2, 50, 3, 80), (3, 96, 3, 96)])
                    for (m, p, m2, p2) in sh:
                        cancel = (op == 'add') == (sg[0] != sg[1])
                        ds = (0, 1, -1, 9, 40) if m == m2 else (9, -9, 40, -40) if cancel else (0, 9, -40)
                        if not Q: ds = (0, 1, -1, 2, 9, -9, 31, 32, 33, 40, -40, 70)
                        if (m, p) == (1, 24) and mode in ('ToNearestEven', 'ToNegativeInf'): ds += (150, -150, 1000, -1000) if Q else (65, -65, 130, -130, 150, -150, 700, -700, 5000, -5000)
                        for d in ds:
                            out.append(('bin', op, len(out) % 2 == 0, F(sg[0], m, p), F(sg[1], m2, p2), mode, d))
    if which == 'alias':      # x op x.clone(): both operands share one digit vector
        for op in TR:
            for asg in (False, True):
                for c in (F('+', 1, 24), F('-', 1, 32), F('+', 2, 53), F('-', 2, 64)):
                    for mode in ('ToNearestEven', 'ToNegativeInf', 'AwayFromZero') if Q else MODES: out.append(('bin', op, asg, c, c, mode, None, 64, 64, True))
    if which == 'mul':
        for sg in ('++', '+-'):
            for mode in MODES:
                for (m, p, m2, p2) in ((1, 24, 1, 24), (1, 32, 1, 32), (2, 53, 2, 53), (1, 20, 2, 50), (2, 64, 1, 32)):
                    out.append(('bin', 'mul', len(out) % 2 == 0, F(sg[0], m, p), F(sg[1], m2, p2), mode))
    if which == 'div':
        for sg in ('++', '-+'):
            for mode in MODES:
                for (m, p, m2, p2) in ((1, 24, 1, 24), (1, 32, 1, 32), (2, 53, 2, 53), (1, 20, 2, 50), (2, 64, 1, 32)):
                    out.append(('bin', 'div', len(out) % 2 == 0, F(sg[0], m, p), F(sg[1], m2, p2), mode))
    return out
