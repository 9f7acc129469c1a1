"""Nat at limb level: exact results and canonical form, for fixed limb counts, all limb values."""
import itertools
from lib import *
import lib, poly, contracts as C, inputs as X
from c_big import mkarg

N = 'bigint::nat::Nat'
QLIM = 25
M32 = (1 << 32) - 1

def vec_limbs(I, st, rc):
    """(length, [limb terms]) of the digit vector in an Rc box; may Split"""
    s = C.shape(I)
    return vec_read(I, st, rc, s.vpath + s.pp['len'], s.vpath + s.pp['ptr'], s.elem)

def vec_read(I, st, o, lenp, ptrp, elem):
    ln = I.load(st, o, lenp)
    c = st.cst(ln) if is_int(ln) else None
    if c is None:
        if not is_int(ln): return None, None
        lo, hi = st.bounds(ln)
        if hi - lo > 12: return None, None
        outs = []
        for k in range(lo, hi + 1):
            s2 = st.copy()
            if s2.assume(c_eq(sub(ln, k))): outs.append(s2)
        raise Split(outs)
    if c == 0: return 0, []
    bp = I.load(st, o, ptrp)
    bo, bq, _ = I.deref(st, bp, o, ptrp, elem) if bp[0] != 'P' else (bp[1], bp[2], None)
    if bq and type(bq[-1]) is tuple and bq[-1][0] == 'i': sq, off = bq[:-1], bq[-1][1]
    else: sq, off = bq, 0
    out = []
    for i in range(c):
        S = I.load(st, bo, sq)
        if not (type(S) is tuple and S[0] == 'S'): return None, None
        out.append(I.seqload(st, bo, sq, S, add(off, i)))
    return c, out

def rc_of(I, st, v):
    p = C.nat_of_value(I, st, v)
    return C.nat_loc(I, st, p)[0]

def mathv(ls, w=32):
    r = 0
    for i, x in enumerate(ls): r = add(r, scale(x, 1 << (w * i)))
    return r

# ---------------------------------------------------------------- linear algebra over the state's equalities
def subst_consts(st, x):
    if type(x) is int: return x
    c = x[1]; d = {}
    for a, k in x[2]:
        lo, hi = st.ab(a)
        if lo == hi: c += k * lo
        else: d[a] = d.get(a, 0) + k
    return mk(c, d)

class Red:
    """the linear equalities a path established, in echelon form; also its inequalities modulo them"""
    def __init__(self, I, st, extra=()):
        from fractions import Fraction as F
        self.I = I; self.st = st; self.basis = []
        atoms = set(); eqs = []
        for key, (lo, hi) in st.rel.items():
            atoms.update(a for a, _ in key)
            if lo == hi: eqs.append(sub(('L', 0, key), lo))
        for x in extra: atoms.update(atoms_of(x))
        for a in atoms:
            if A_key[a][0] in ('mul', 'ndiv', 'bf') and st.ab(a)[0] != st.ab(a)[1]:
                y = simp_atom(I, st, a)
                z = ('L', 0, ((a, 1),))
                if y != z: eqs.append(sub(z, y))
        for e in eqs: self.addeq(e)
        if getattr(I, 'poly', False):        # integer rounding of the reduced inequalities may give further equalities
            for _ in range(4):
                self._ineq = None
                new = [sub(('L', 0, k), l) for k, (l, h) in self.ineqs().items() if l == h]
                n = len(self.basis)
                for e in new: self.addeq(e)
                if len(self.basis) == n: break
        self._ineq = None
    def addeq(self, e):
        from fractions import Fraction as F
        e = subst_consts(self.st, e)
        if type(e) is int: return
        r = ({a: F(k) for a, k in e[2]}, F(e[1]))
        for p, row in self.basis: r = self.elim(r, p, row)
        if not r[0]: return
        m = min(abs(v) for v in r[0].values())
        p = max(a for a, v in r[0].items() if abs(v) == m); k = r[0][p]
        r = ({a: v / k for a, v in r[0].items()}, r[1] / k)
        self.basis = [(q, self.elim(row, p, r)) for q, row in self.basis] + [(p, r)]
    @staticmethod
    def elim(r, p, row):
        f = r[0].get(p)
        if not f: return r
        d = dict(r[0])
        for a, k in row[0].items():
            n = d.get(a, 0) - f * k
            if n: d[a] = n
            else: d.pop(a, None)
        return d, r[1] - f * row[1]
    def redq(self, x):
        """(y, d): d*x == y in this state, y reduced modulo the equalities, d > 0"""
        from fractions import Fraction as F
        from math import lcm
        x = subst_consts(self.st, x)
        if type(x) is int or not self.basis: return x, 1
        t = ({a: F(k) for a, k in x[2]}, F(x[1]))
        for p, row in self.basis: t = self.elim(t, p, row)
        d = lcm(t[1].denominator, *(v.denominator for v in t[0].values()))
        return mk(int(t[1] * d), {a: int(v * d) for a, v in t[0].items()}), d
    def red(self, x):
        y, d = self.redq(x)
        return y if d == 1 else subst_consts(self.st, x)
    def ineqs(self):
        if self._ineq is None:
            self._ineq = {}
            for key, (lo, hi) in self.st.rel.items():
                y, d = self.redq(('L', 0, key))
                if type(y) is int: continue
                k2, s = norm_key(y[2])
                l, h = lo * d - y[1], hi * d - y[1]
                if s < 0: l, h, s = -h, -l, -s
                l, h = -((-l) // s), h // s
                o = self._ineq.get(k2, (NEG, POS))
                self._ineq[k2] = (max(o[0], l), min(o[1], h))
        return self._ineq
    def bounds(self, x):
        x0 = x
        x, d = self.redq(x)
        if type(x) is int: return (x // d, x // d) if x % d == 0 else (1, 0)
        lo, hi = self.st.bounds(x)
        k2, s = norm_key(x[2])
        f = self.ineqs().get(k2)
        if f:
            l, h = (f[0] * s, f[1] * s) if s > 0 else (f[1] * s, f[0] * s)
            lo, hi = max(lo, l + x[1]), min(hi, h + x[1])
        if d > 1:
            l0, h0 = self.st.bounds(x0)
            lo, hi = max(l0, -(-lo // d)), min(h0, hi // d)
        return lo, hi
    def dead(self):
        if infeasible(self.I, self.st): return True
        st = self.st
        for key, (lo, hi) in st.rel.items():
            l, h = self.bounds(('L', 0, key))
            if l > hi or h < lo: return True
        for a, (lo, hi) in st.facts.items():
            l, h = self.bounds(('L', 0, ((a, 1),)))
            if l > hi or h < lo: return True
        for key, vs in st.ne.items():
            x = self.red(('L', 0, key))
            if type(x) is int and x in vs: return True
        return False

def same_mod(I, st, x, y):
    d = sub(x, y)
    if type(d) is int: return d == 0
    lo, hi = Red(I, st, (d,)).bounds(d)
    return lo == hi == 0

def dead(I, st): return Red(I, st).dead()
TRIAL = []
def trial(f, *a):
    """attempt a proof without looking for a counterexample"""
    TRIAL.append(1)
    try: return f(*a)
    finally: TRIAL.pop()
def settle_cond(I, st, cond, R, tries=1500):
    if R.dead(): return 'proved', 'unreachable'
    if TRIAL: return 'undecided', 'trial'
    if st.imp: return 'undecided', 'imprecise: ' + ', '.join(sorted(st.imp)[:3])
    w = witness(st, cond, tries=tries)
    if w is not None: return 'violated', w
    return 'undecided', 'no witness'
def saturate(st, rounds=4):
    """bound propagation through the relations of the state (and between a number and its bit length);
    False if the state is contradictory"""
    for _ in range(rounds):
        ch = False
        for a, (lo, hi) in list(st.facts.items()):
            if lo > hi: return False
            k = A_key[a]
            if k[0] == 'bitlen' and type(k[1]) is tuple:
                l0, h0 = st.bounds(k[1])
                if hi < 4096 and h0 >= 1 << hi:
                    ch = True
                    if not st.assume(c_ge(sub((1 << hi) - 1, k[1]))): return False
                if lo >= 1 and l0 < 1 << (lo - 1):
                    ch = True
                    if not st.assume(c_ge(sub(k[1], 1 << (lo - 1)))): return False
                l, h = max(l0, 0).bit_length(), (h0.bit_length() if h0 < POS else POS)
                if l > lo or h < hi: st.set_lo_hi(((a, 1),), l, h); ch = True
        for key, (lo, hi) in list(st.rel.items()):
            if len(key) > 12: continue
            bs = [(a, k) + st.ab(a) for a, k in key]
            tl = sum(k * l if k > 0 else k * h for a, k, l, h in bs)
            th = sum(k * h if k > 0 else k * l for a, k, l, h in bs)
            if tl > hi or th < lo: return False
            for a, k, l, h in bs:
                ol = tl - (k * l if k > 0 else k * h); oh = th - (k * h if k > 0 else k * l)
                x, y = lo - oh, hi - ol            # x <= k*a <= y
                if k < 0: x, y, kk = -y, -x, -k
                else: kk = k
                nl, nh = -((-x) // kk), y // kk
                if nl > l or nh < h:
                    if max(nl, l) > min(nh, h): return False
                    st.set_lo_hi(((a, 1),), max(nl, l), min(nh, h)); ch = True
                    l2, h2 = st.ab(a)
                    tl += (k * l2 if k > 0 else k * h2) - (k * l if k > 0 else k * h)
                    th += (k * h2 if k > 0 else k * l2) - (k * h if k > 0 else k * l)
        if not ch: break
    return True
def retry(fn):
    def g(I, st, *a):
        r = fn(I, st, *a)
        if r[0] == 'proved': return r
        s2 = st.copy()
        if not saturate(s2): return 'proved', 'unreachable'
        if s2.facts == st.facts: return r
        r2 = fn(I, s2, *a)
        return r2 if r2[0] == 'proved' or r[0] != 'violated' else r
    return g
HUGE = 1 << 4000
def cut(lo, hi): return (lo if lo > -HUGE else None, hi if hi < HUGE else None)
def tighten(cons, b):
    """integer tightening of the digit quotients at their ends, then one more try"""
    nc = poly.cuts(cons)
    if nc:
        cons = cons + nc
        if poly.infeasible(cons, b): return True
    c2, b2 = cons, b
    for rnd in range(3):                 # the same with low digits replaced by their bounds, and on the result
        nc = [c for c in poly.cuts(c2, b2) if c not in c2]
        if len(c2) + len(nc) > 150: break
        c2, b2, n = poly.subst_eqs(c2 + nc, b2)
        if any(not q for q, l, h in c2): return True
        if poly.infeasible(c2, b2): return True
        if not n: break
    qs = [a for a in b if A_key[a][0] == 'shr' and None not in b[a] and b[a][0] < b[a][1]]
    if not 0 < len(qs) <= 16: return False
    ch = False
    for a in sorted(qs):
        l, h = b[a]
        if poly.infeasible(cons, {**b, a: (l, h - 1)}): b[a] = (h, h); ch = True
        elif h - l > 1 and poly.infeasible(cons, {**b, a: (l + 1, h)}): b[a] = (l, l); ch = True
    return ch and poly.infeasible(cons, b)
def raw_system(st, x):
    cons = [(dict(key),) + cut(lo, hi) for key, (lo, hi) in st.rel.items()]
    if x is not None: cons = poly.relevant(cons, [a for a, _ in x[2]]) + [(dict(x[2]), None, -1 - x[1])]
    return cons, {a: cut(*st.ab(a)) for c in cons for a in c[0]}
def poly_proves(I, st, x, R=None):
    """x >= 0 (None: the state is contradictory) follows from the linear relations of the state (polyhedral entailment
    after elimination of the equalities, with integer tightening of the digit quotients)"""
    if x is not None: x = subst_consts(st, x)
    if type(x) is int: return x >= 0
    c0, b0 = raw_system(st, x)
    if len(c0) > 120: return False
    if poly.infeasible(c0, b0): return True
    R = R or Red(I, st, () if x is None else (x,))
    d = 1
    if x is not None:
        x, d = R.redq(x)
        if type(x) is int: return x >= 0
    cons = [(dict(k),) + cut(l, h) for k, (l, h) in R.ineqs().items() if len(k) > 1]
    b = {}
    for k, (l, h) in R.ineqs().items():
        if len(k) == 1: b[k[0][0]] = (l, h)
    for p, row in R.basis:
        e, m = R.redq(('L', 0, ((p, 1),)))
        if type(e) is int: continue
        l, h = st.ab(p); cons.append((dict(e[2]),) + cut(l * m - e[1], h * m - e[1]))
    if x is not None: cons = poly.relevant(cons, [a for a, _ in x[2]]) + [(dict(x[2]), None, -d - x[1])]
    if len(cons) > 120: return False
    def bd(a):
        l, h = st.ab(a)
        if a in b: l, h = max(l, b[a][0]), min(h, b[a][1])
        return cut(l, h)
    b = {a: bd(a) for c in cons for a in c[0]}
    if any(l is not None and h is not None and l > h for l, h in b.values()): return True
    if poly.infeasible(cons, b): return True
    return tighten(cons, b) or tighten(c0, b0)
@retry
def dec_eq(I, st, x, y):
    """decide x == y at a limb-level exit state"""
    d = sub(x, y)
    R = Red(I, st, (d,))
    if R.bounds(d) == (0, 0): return 'proved', None
    if getattr(I, 'poly', False) and poly_proves(I, st, d) and poly_proves(I, st, scale(d, -1)): return 'proved', None
    return settle_cond(I, st, c_eq(d), R)
@retry
def dec(I, st, cond):
    if cond is True or st.evalc(cond) is True: return 'proved', None
    R = Red(I, st, (cond[2],) if cond is not False and is_int(cond[2]) else ())
    if cond is not False and cond[1] == 'ge' and R.bounds(cond[2])[0] >= 0: return 'proved', None
    if getattr(I, 'poly', False) and poly_proves(I, st, cond[2] if cond is not False and cond[1] == 'ge' else None): return 'proved', None
    return settle_cond(I, st, cond, R)

# ---------------------------------------------------------------- oracles
# an oracle returns a list of acceptable closed forms (the value must equal one of them), 'nan', 'panic'
# or a function (value -> (status, detail))
def bitop(op):
    def f(I, st, a, b):
        x, y = a['limbs'], b['limbs']
        n = max(len(x), len(y)); r = 0
        u32 = I.p.tyname['u32']
        for i in range(n):
            u = x[i] if i < len(x) else 0; v = y[i] if i < len(y) else 0
            if op == 'andn': z = I.binop(st, 'BitAnd', u, sub(M32, v), u32, u32)
            else: z = I.binop(st, op, u, v, u32, u32)
            r = add(r, scale(z, 1 << (32 * i)))
        return [r]
    return f
def o_add(I, st, a, b): return [add(a['val'], b['val'])]
def o_sub(I, st, a, b): return [sub(a['val'], b['val']), sub(b['val'], a['val'])]
def o_mul(I, st, a, b): return [I.mul(st, a['val'], b['val'])]
def o_id(I, st, a, b=None): return [a['val']]
def o_sqr(I, st, a, b=None): return [I.mul(st, a['val'], a['val'])]
def o_shl(I, st, a, b): return [scale(a['val'], 1 << b['val'])]
def o_shr(I, st, a, b):
    k = b['val']
    def chk(s, q):
        if same_mod(I, s, q, I.lowhigh(s, a['val'], k)[1]): return 'proved', None
        r = sub(a['val'], scale(q, 1 << k))
        for c in (c_ge(r), c_ge(sub((1 << k) - 1, r))):
            z, w = dec(I, s, c)
            if z != 'proved': return z, w
        return 'proved', None
    return chk
def o_not(I, st, a, b=None):
    return 'not'
def zero_panics(o):
    def f(I, st, a, b):
        if b['val'] == 0: return 'panic'
        return o(I, st, a, b)
    return f
def o_div(I, st, a, b):
    """q with 0 <= a - q*b < b"""
    def chk(s, q):
        r = sub(a['val'], I.mul(s, q, b['val']))
        for c in (c_ge(r), c_ge(sub(sub(b['val'], r), 1))):
            z, w = dec(I, s, c)
            if z != 'proved': return z, w
        return 'proved', None
    return chk
def o_rem(I, st, a, b):
    def chk(s, r):
        for c in (c_ge(r), c_ge(sub(sub(b['val'], r), 1))):
            z, w = dec(I, s, c)
            if z != 'proved': return z, w
        # congruence: a - r is a combination of multiples of b that the code subtracted
        d = sub(a['val'], r); d = Red(I, s, (d,)).red(d)
        if multiple_of(I, s, d, b['val']): return 'proved', None
        # refute only
        if s.imp: return 'undecided', 'imprecise'
        w = witness(s, ('C', 'eq', I_rem(I, s, a['val'], b['val'], r)), tries=800)
        return ('violated', w) if w is not None else ('undecided', 'congruence')
    return chk
def I_rem(I, st, a, b, r):
    """term a mod b - r (for the witness search only)"""
    return sub(intern(('rem', a, b), NEG, POS), r)
def multiple_of(I, st, d, b):
    if type(d) is int: return type(b) is int and b != 0 and d % b == 0 or d == 0
    if type(b) is int: return d[1] % b == 0 and all(k % b == 0 for _, k in d[2])
    if len(b[2]) == 1 and b[1] == 0:
        a0, k0 = b[2][0]
        if k0 not in (1, -1): return False
        return d[1] == 0 and all(a0 in I.factors(a) for a, _ in d[2])
    return False

ORACLE = {'add': o_add, 'sub': o_sub, 'mul': o_mul, 'id': o_id, 'sqr': o_sqr, 'shl': o_shl, 'shr': o_shr,
          'and': bitop('BitAnd'), 'or': bitop('BitOr'), 'xor': bitop('BitXor'), 'andn': bitop('andn'),
          'div': zero_panics(o_div), 'rem': zero_panics(o_rem)}

# ---------------------------------------------------------------- running
def shape_name(c):
    if type(c) is tuple: return '%dlimbs' % c[1]
    return str(c)

def mkexact(budget=600000, K=400):
    I = mkI(budget=budget, K=K, contracts=False); I.PEEL = 70; I.exact = True; I.recmax = 3
    return I

def mkargs(I, st, f, shapes):
    args, infos, homes = [], [], []
    for i, t in enumerate(f['locals'][1:1 + f['argc']]):
        c = shapes[i]
        x = I.T[t]
        if x['k'] == 'int' or (x['k'] == 'ref' and I.T[x['elem']]['k'] == 'int'):
            u = t if x['k'] == 'int' else x['elem']
            lo, hi = I.trange(u)
            v = c if type(c) is int else fresh_in(lo if c != 'nz' else max(lo, 1), hi, 'abcd'[i])
            a, h = mkarg(I, st, t, v, 'abcd'[i])
            args.append(a); homes.append(h); infos.append({'val': v, 'limbs': [v]})
        elif x['k'] == 'bool':
            args.append(c); homes.append(None); infos.append({'val': c})
        elif c == 'alias':        # a clone of the first operand: the same Rc storage
            v = first
            a, h = mkarg(I, st, t, v, 'b')
            args.append(a); homes.append(h); infos.append(infos[0])
        else:
            v, info = X.nat_obj(I, st, c, 'abcd'[i])
            a, h = mkarg(I, st, t, v, 'abcd'[i])
            n = c[1] if type(c) is tuple else 0
            if i == 0: first = v
            info = dict(info)
            info['limbs'] = [] if c == 'nan' else ([0] if c == 'zero' else lin_limbs(info['val'], n))
            args.append(a); homes.append(h); infos.append(info)
    return args, infos, homes

def lin_limbs(v, n):
    """the atoms of a limb-shaped input, least significant first"""
    by = {k.bit_length() - 1: a for a, k in (v[2] if type(v) is tuple else ())}
    return [('L', 0, ((by[32 * i], 1),)) if 32 * i in by else 0 for i in range(n)]

def check_nat(I, s, rc, exp):
    """obligations for one Nat result -> [(what, status, detail)]"""
    out = []
    for s2, (c, ls) in split_read(vec_limbs, I, s, rc):
        if c is None: out.append(('value', 'undecided', 'digits unknown')); continue
        if exp == 'nan':
            if c == 0: out.append(('value', 'proved', 'NaN'))
            else: out.append(('value',) + (('undecided', 'imprecise') if s2.imp or dead(I, s2) else ('violated', 'a NaN operand gives a number of %d digits' % c)))
            continue
        if c == 0:
            if dead(I, s2): out.append(('value', 'proved', 'unreachable'))
            else:
                w = None if s2.imp else witness(s2, False, tries=1500)
                out.append(('value', 'violated' if w is not None else 'undecided', 'NaN result for numbers, e.g. %s' % w))
            continue
        if not all(is_int(x) for x in ls): out.append(('value', 'undecided', 'digits unknown')); continue
        if c > 1:
            z, w = dec(I, s2, c_ge(sub(ls[-1], 1)))
            out.append(('canonical', z, 'the top digit of %d may be zero, e.g. %s' % (c, w) if z == 'violated' else w))
        v = mathv(ls)
        if callable(exp): z, w = exp(s2, v)
        else:
            z = w = None
            for e in exp:
                if same_mod(I, s2, v, e): z = 'proved'; break
            if z is None:
                rs = [dec_eq(I, s2, v, e) for e in exp]
                if any(r[0] == 'proved' for r in rs): z = 'proved'
                elif all(r[0] == 'violated' for r in rs):
                    if len(exp) == 1: z, w = rs[0]
                    else: z, w = both_differ(s2, v, exp)
                else: z, w = next(r for r in rs if r[0] != 'violated')
        out.append(('value', z, 'digits %s, e.g. %s' % ([show(x)[:80] for x in ls], w) if z == 'violated' else w))
    return out

def both_differ(s, v, exp):
    """violated only if one input makes the value differ from every alternative (the larger one is the true value)"""
    a, b = exp
    w = witness(s, ('C', 'or', c_eq(sub(v, a)), c_eq(sub(v, b))), tries=1500)
    return ('violated', w) if w is not None else ('undecided', 'no witness')

def run_op(path, op, shapes, targs=None, ret=None):
    r = root(path, targs)
    I = mkexact()
    st = State(); f = lib.P.fns[r['inst']]
    args, infos, homes = mkargs(I, st, f, shapes)
    key = '%s|%s' % (path, ','.join(map(shape_name, shapes)))
    nan = any(i['val'] == 'nan' for i in infos)
    assign = I.T[f['locals'][0]].get('size') == 0
    try: outs = run(I, st, r, args)
    except Budget: return [(key, 'undecided', 'budget')]
    res = reslist()
    a = infos[0]; b = infos[1] if len(infos) > 1 else None
    for o in outs:
        exp = 'nan' if nan else [1 << shapes[2]] if op == 'pow2' else ORACLE[op](I, o.st, a, b)
        if o.kind == 'panic':
            if exp == 'panic' or b is not None and b['val'] == 0 and op in ('div', 'rem'): res.append((key, 'proved', 'panics on a zero divisor'))
            elif o.st.imp or dead(I, o.st): res.append((key, 'undecided', 'panic? ' + str(o.panic.where)))
            else:
                w = witness(o.st, False, tries=1500)
                res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w)))
            continue
        if exp == 'panic':
            res.append((key, 'undecided' if o.st.imp else 'violated', 'returns although the divisor is zero')); continue
        v = o.st.mem.get(homes[0]) if assign else o.val
        if type(v) is tuple and v[0] == 'A' and op == 'sub' and I.T[f['locals'][0]]['k'] == 'tuple': v = v[1][0]
        for s, rc in split_read(rc_of, I, o.st, v):
            for what, z, d in check_nat(I, s, rc, exp):
                res.append((key + '|' + what, z, d))
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

def L(n): return ('limbs', n)
ARR = [('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('BitAnd', 'and'), ('BitOr', 'or'), ('BitXor', 'xor')]
def both(T_, m, sh, op):
    t = '<%s as std::ops::%s>::%s' % (N, T_, m)
    g = ''
    if '<' in T_: base, g = T_.split('<', 1); g = '<' + g
    else: base = T_
    t2 = '<%s as std::ops::%sAssign%s>::%s_assign' % (N, base, g, m)
    return [('op', t, op, sh), ('op', t2, op, sh)]

PAIRS = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (4, 4)]
BIG = [(5, 5), (6, 3), (3, 6), (8, 8), (8, 1), (1, 8), (7, 6), (6, 7), (5, 4), (4, 5), (4, 1), (1, 4), (4, 3), (3, 4), (9, 9), (9, 4), (4, 9)]
def pairs():
    if lib.TIER != 'thorough': return PAIRS + BIG
    return sorted({(n, m) for n in range(1, 13) for m in range(1, 13)}) + [(16, 16), (17, 4), (16, 1), (3, 16), (20, 20)]
def specs(which):
    out = []
    if which in ('arith', 'bits'):
        for T_, op in ARR:
            if (which == 'bits') != T_.startswith('Bit'): continue
            for n, m in pairs():
                if op == 'mul' and n * m > (49 if lib.TIER == 'thorough' else 42): continue
                out += both(T_, T_.lower(), (L(n), L(m)), op)
            for sh in (('nan', L(2)), (L(2), 'nan'), ('nan', 'nan'), ('zero', L(2)), (L(2), 'zero'), ('zero', 'zero')):
                out += both(T_, T_.lower(), sh, op)
        for n, m in pairs():
            if which != 'bits': break
            out.append(('op', N + '::and_not', 'andn', (L(n), L(m)))); out.append(('op', N + '::and_not_assign', 'andn', (L(n), L(m))))
        for T_, op in (('Add<u32>', 'add'), ('Sub<u32>', 'sub'), ('Mul<u32>', 'mul'), ('Div<u32>', 'div'), ('Rem<u32>', 'rem')):
            if which != 'arith': break
            for n in (1, 2, 3, 4, 5, 8) + ((6, 7, 9, 12) if lib.TIER == 'thorough' else ()):
                out += both(T_, op, (L(n), 'nz'), op)
            for sh in (('nan', 'nz'), ('zero', 'nz'), (L(2), 0), (L(1), 0), (L(2), 1), (L(2), M32)):
                out += both(T_, op, sh, op)
    if which == 'shift':
        for n in (1, 2, 3, 4, 5, 8) + ((6, 7, 9, 12) if lib.TIER == 'thorough' else ()):
            for s in (0, 1, 5, 31, 32, 33, 63, 64, 65, 96, 100):
                out += both('Shl<usize>', 'shl', (L(n), s), 'shl')
                out += both('Shr<usize>', 'shr', (L(n), s), 'shr')
        for sh in (('nan', 3), ('zero', 3), ('zero', 32), ('zero', 40)):
            out += both('Shl<usize>', 'shl', sh, 'shl') + both('Shr<usize>', 'shr', sh, 'shr')
        if lib.has(N + '::u32_shl'):
            for c in ('zero', L(1), L(3)):
                for s in (0, 1, 31, 32, 63, 64, 70, 100): out.append(('op', N + '::u32_shl', 'pow2', (c, 1, s)))
    if which == 'alias':
        for T_, op in ARR:
            for n in (1, 2, 3, 4, 5, 8) + ((6, 7, 9, 12, 16) if lib.TIER == 'thorough' else ()):
                if op == 'mul' and n > 7: continue
                out += both(T_, T_.lower(), (L(n), 'alias'), op)
            for c in ('nan', 'zero'): out += both(T_, T_.lower(), (c, 'alias'), op)
        for c in (L(1), L(2), L(3), L(4), 'nan', 'zero'):
            out.append(('op', N + '::and_not', 'andn', (c, 'alias'))); out.append(('op', N + '::and_not_assign', 'andn', (c, 'alias')))
    return out

def job(spec):
    return {'op': run_op}[spec[0]](*spec[1:])
