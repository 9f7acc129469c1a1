"""Contracts of the Nat / BigInt public operations over mathematical integers.

A Nat's storage carries (in the sequence's `val` slot) the integer it denotes as a linear form,
valid while its vector length equals the recorded one.  Contract calls compute on those forms;
everything else in the crate is analysed from its MIR."""
from dom import *
from interp import Bottom, Split, VLEN_MAX
W = 1 << 32

NAT = 'rmath::bigint::nat::Nat'
BIG = 'rmath::bigint::bigint::BigInt'

class Shape:
    def __init__(s, I, name=NAT):
        T = I.T
        s.nat = I.p.tyname[name.replace('rmath::', '', 1)]
        s.path, lt = I.leaf(s.nat)
        s.box = T[lt]['elem']
        pth = []; c = s.box
        # RcBox -> value field -> ... -> Vec
        i = [k for k, (n, _) in enumerate(T[c]['variants'][0]['fields']) if n == 'value'][0]
        pth.append(i); c = T[c]['variants'][0]['fields'][i][1]
        while T[c].get('adt') != 'std::vec::Vec':
            fs = I.field_tys(c)
            nz = [k for k, f in enumerate(fs) if T[f].get('size', 1) != 0]
            if len(nz) != 1: raise KeyError('Nat storage shape')
            pth.append(nz[0]); c = fs[nz[0]]
        s.vpath = tuple(pth); s.vec = c
        s.elem = T[c]['args'][0]
        import models
        s.pp = models.paths_of(I, c)

def shape(I):
    s = getattr(I, '_shape', None)
    if s is None: s = I._shape = Shape(I)
    return s

def follow(I, st, obj, path):
    """load a pointer stored at (obj,path), splitting on alternatives"""
    v = I.load(st, obj, path)
    o, p, m = I.deref(st, v, obj, path, None if not (type(v) is tuple and v[0] == 'U') else None)
    return o, p

def nat_loc(I, st, p):
    """pointer to a Nat -> RcBox object"""
    s = shape(I)
    v = I.load(st, p[1], p[2] + s.path)
    if type(v) is tuple and v[0] in ('T', 'Q'):
        o, q, m = I.deref(st, v, p[1], p[2] + s.path, s.box)
    elif type(v) is tuple and v[0] == 'P': o, q = v[1], v[2]
    else:
        st.flag('unknown Nat storage'); o, q, m = I.deref(st, v, p[1], p[2] + s.path, s.box)
    if type(o) is tuple: return o, q
    b = st.mem.get(o)
    if b == ('RAW',): st.mem[o] = ('T', s.box)
    return o, q

def nat_of_value(I, st, v):
    """temporarily home a by-value Nat so that it can be inspected"""
    o = I.newobj(st, v, 'arg', shape(I).nat)
    return ('P', o, (), None)

def vec_parts(I, st, loc):
    s = shape(I); o, q = loc
    base = q + s.vpath
    ln = I.load(st, o, base + s.pp['len'])
    if not is_int(ln):
        ln = fresh(0, VLEN_MAX, 'len'); I.rawstore(st, o, base + s.pp['len'], ln)
    return base, ln

def is_nan(I, st, loc):
    base, ln = vec_parts(I, st, loc)
    e = st.evalc(c_eq(ln))
    if e is None:
        s1 = st.copy(); s2 = st.copy(); out = []
        if s1.assume(c_eq(ln)): out.append(s1)
        if s2.assume(c_ne(ln)): out.append(s2)
        raise Split(out)
    return e

def val_bounds(st, lo, hi):
    return lo, hi

def nat_val(I, st, loc):
    """'nan' or the linear form denoted"""
    s = shape(I); o, q = loc
    if is_nan(I, st, loc): return 'nan'
    base, ln = vec_parts(I, st, loc)
    bp = I.load(st, o, base + s.pp['ptr'])
    if type(bp) is tuple and bp[0] in ('T', 'Q', 'U'):
        bo, bq, _ = I.deref(st, bp, o, base + s.pp['ptr'], s.elem)
    elif type(bp) is tuple and bp[0] == 'P': bo, bq = bp[1], bp[2]
    else:
        st.flag('Nat without buffer'); return fresh(0, POS, 'val')
    if bq and type(bq[-1]) is tuple and bq[-1][0] == 'i':
        sq, off = bq[:-1], bq[-1][1]
    else: sq, off = bq, 0
    S = I.load(st, bo, sq)
    if not (type(S) is tuple and S[0] == 'S'):
        st.flag('Nat buffer'); return fresh(0, POS, 'val')
    if S[3] is not None and S[3][0] == 'N' and off == 0:
        if st.same(S[3][2], ln): return S[3][1]
    c = st.cst(ln)
    if c is not None and c <= 6 and off == 0:
        r = 0
        for i in range(c):
            S = I.load(st, bo, sq)
            d = I.seqload(st, bo, sq, S, i)
            r = add(r, scale(d, 1 << (32 * i)))
        S = I.load(st, bo, sq)
    else:
        lo, hi = st.bounds(ln)
        r = fresh(W if lo >= 2 else 0, POS, 'val')
    if type(bo) is not tuple:
        I.rawstore(st, bo, sq, ('S', S[1], S[2], ('N', r, ln), S[4], S[5]))
    return r

def nlen(I, st, v):
    """length of the canonical representation of v"""
    lo, hi = st.bounds(v)
    if hi < W: return 1
    k1 = max((lo.bit_length() + 31) // 32, 1)
    if hi < (1 << 190):
        k2 = max((hi.bit_length() + 31) // 32, 1)
        if k1 == k2: return k1
    else: k2 = VLEN_MAX
    r = intern(('nlen', v), 1, VLEN_MAX)
    st.set_lo_hi(r[2], k1, k2)
    return r

def seq_for(I, st, v):
    s = shape(I)
    if v == 'nan': return ('S', {}, ('R', 0, W - 1), None, I.newver(), s.elem), 0
    ln = nlen(I, st, v)
    cells = {}
    if ln == 1: cells[0] = v
    return ('S', cells, ('R', 0, W - 1), ('N', v, ln), I.newver(), s.elem), ln

def nat_new(I, st, v):
    """a Nat with fresh storage"""
    s = shape(I)
    S, ln = seq_for(I, st, v)
    bo = I.newobj(st, S, 'nat-buf', s.elem)
    vec = I.mkvec(s.vec, ('P', bo, (('i', 0),), None), fresh(0, VLEN_MAX, 'cap'), ln)
    cell = vec
    # wrap from Vec up to the RcBox
    def build(t, path):
        if not path: return vec
        fs = I.field_tys(t)
        return ('A', tuple(build(f, path[1:]) if i == path[0] else I.havoc(st, f) for i, f in enumerate(fs)))
    o = I.newobj(st, build(s.box, s.vpath), 'nat', s.box)
    return I.build(st, s.nat, s.path, ('P', o, (), None))

def nat_set(I, st, loc, v):
    """overwrite the storage in place"""
    s = shape(I); o, q = loc
    S, ln = seq_for(I, st, v)
    base, _ = vec_parts(I, st, loc)
    bp = I.load(st, o, base + s.pp['ptr'])
    if type(bp) is tuple and bp[0] in ('T', 'Q', 'U'):
        bo, bq, _ = I.deref(st, bp, o, base + s.pp['ptr'], s.elem)
    elif type(bp) is tuple and bp[0] == 'P': bo, bq = bp[1], bp[2]
    else:
        bo = I.newobj(st, S, 'nat-buf', s.elem); bq = (('i', 0),)
        I.rawstore(st, o, base + s.pp['ptr'], ('P', bo, bq, None))
    if v != 'nan':
        if bq and type(bq[-1]) is tuple and bq[-1][0] == 'i': sq = bq[:-1]
        else: sq = bq
        if type(bo) is not tuple: I.rawstore(st, bo, sq, S)
    I.rawstore(st, o, base + s.pp['len'], ln); I.rawstore(st, o, base + s.pp['cap'], fresh(1, VLEN_MAX, 'cap'))

# ---------------------------------------------------------------- integer ops
def nabs(I, st, d):
    """|d| by splitting on the sign"""
    e = st.evalc(c_ge(d))
    if e is True: return d
    if e is False: return neg(d)
    s1 = st.copy(); s2 = st.copy(); out = []
    if s1.assume(c_ge(d)): out.append(s1)
    if s2.assume(c_ge(sub(-1, d))): out.append(s2)
    raise Split(out)

def ndiv(I, st, a, b):
    """floor quotient of naturals, b >= 1"""
    ca, cb = st.cst(a), st.cst(b)
    if cb == 1: return a
    if ca == 0: return 0
    if ca is not None and cb: return ca // cb
    x = exact_quot(I, st, a, b)
    if x is None and I.templates: x = shift_quot(I, st, a, b)
    if x is not None: return x
    if st.bounds(sub(b, a))[0] >= 1: return 0
    if st.same(a, b): return 1
    r = intern(('ndiv', a, b), 0, POS)
    al, ah = st.bounds(a); bl, bh = st.bounds(b)
    lo = 0
    if st.bounds(sub(a, b))[0] >= 0: lo = 1
    if bh < POS and al > 0: lo = max(lo, al // max(bh, 1))
    st.set_lo_hi(r[2], lo, ah // max(bl, 1) if ah < POS else POS)
    st.assume(c_ge(sub(a, r)))
    return r
def nrem(I, st, a, b):
    """a mod b, kept as a - b*(a div b) so that division identities are canonical"""
    ca, cb = st.cst(a), st.cst(b)
    if cb == 1 or ca == 0 or a == b: return 0
    if ca is not None and cb: return ca % cb
    if exact_quot(I, st, a, b) is not None: return 0
    if st.bounds(sub(b, a))[0] >= 1: return a
    if I.oprem:              # opaque remainder (congruences are read off I.remof)
        r = intern(('nrem', a, b), 0, POS)
        I.remof.setdefault(r, (a, b))
        st.assume(c_ge(sub(sub(b, r), 1))); st.assume(c_ge(sub(a, r)))
        return r
    q = ndiv(I, st, a, b)
    r = sub(a, I.mul(st, b, q))
    if type(r) is int: return r
    I.remof.setdefault(r, (a, b))
    st.set_lo_hi(r[2], -r[1], POS)
    st.assume(c_ge(sub(sub(b, r), 1)))
    st.assume(c_ge(sub(a, r)))
    return r

def exact_quot(I, st, a, b):
    """a/b when b is known to divide a (b a product factor, or b = gcd(..a..))"""
    if a == b: return 1
    if type(b) is not tuple or b[1] != 0 or len(b[2]) != 1: return None
    ba, k = b[2][0]
    if type(a) is int: return 0 if a == 0 else None
    # every monomial of a contains ba
    if k == 1:
        out = 0; ok = a[1] == 0
        if ok:
            for x, c in a[2]:
                fs = list(I.factors(x))
                bf = I.factors(ba)
                for f in bf:
                    if f in fs: fs.remove(f)
                    else: ok = False; break
                if not ok: break
                t = prod_atoms(I, st, fs)
                out = add(out, scale(t, c))
        if ok: return out
        key = A_key[ba]
        if key[0] == 'gcd' and (a in key[1] or neg(a) in key[1]):
            g = ('L', 0, ((ba, 1),))
            inv = intern(('inv', ba), NEG, POS)
            return I.mul(st, a, inv)
    return None

def shift_quot(I, st, a, b):
    """(m * 2^s) / 2^k, splitting on s >= k"""
    cb = st.cst(b)
    if not cb or cb & (cb - 1): return None
    k = cb.bit_length() - 1
    import templ
    a2 = templ.reduce(st, a, templ.rows_of(st))
    if type(a2) is not tuple or len(a2[2]) != 1 or a2[1]: return None
    at, c = a2[2][0]
    fs = list(I.factors(at))
    p = [f for f in fs if A_key[f][0] == 'pow2']
    if len(p) != 1: return None
    s = A_key[p[0]][1]
    e = st.evalc(c_ge(sub(s, k)))
    if e is None:
        s1, s2, out = st.copy(), st.copy(), []
        if s1.assume(c_ge(sub(s, k))): out.append(s1)
        if s2.assume(c_ge(sub(k - 1, s))):
            if k == 1 and s2.bounds(s)[0] >= 0: s2.set_lo_hi(((p[0], 1),), 1, 1)
            import lib
            if not lib.infeasible(I, s2) and not contradictory(I, s2): out.append(s2)
        raise Split(out)
    if e is not True: return None
    fs.remove(p[0])
    q = scale(I.mul(st, prod_atoms(I, st, fs), pow2(I, st, sub(s, k))), c)
    # what is known about m * 2^s holds for 2^k * (m * 2^(s-k))
    for key, (lo, hi) in list(st.rel.items()):
        kk = dict(key)
        if at in kk and kk[at] % c == 0:
            d = add(sub(('L', 0, key), ('L', 0, ((at, kk[at]),))), scale(q, (kk[at] // c) << k))
            if type(d) is tuple: st.set_lo_hi(d[2], lo - d[1], hi - d[1])
    return q
def bitlen_axioms(I, st):
    """bitlen(x) <= bitlen(y)  =>  x < 2y"""
    for x, rx in I.blens.items():
        for y, ry in I.blens.items():
            if x != y and st.bounds(y)[0] >= 1 and st.bounds(sub(rx, ry))[1] <= 0: st.assume(c_ge(sub(sub(scale(y, 2), x), 1)))
def contradictory(I, st):
    """the equalities, with products by known factors evaluated, contradict a bound"""
    import templ, lib
    s = st.copy()
    for a in list(s.facts) + [a for key in s.rel for a, _ in key]:
        for b in I.factors(a):
            if A_key[b][0] == 'pow2':
                c = s.cst(A_key[b][1])
                if c is not None and c < 4096:
                    if c < 0: return True
                    s.set_lo_hi(((b, 1),), 1 << c, 1 << c)
    for key, (lo, hi) in list(s.rel.items()):
        for a, _ in key:
            if A_key[a][0] == 'mul':
                y = lib.simp_atom(I, s, a)
                if y != ('L', 0, ((a, 1),)):
                    d = sub(('L', 0, ((a, 1),)), y)
                    s.set_lo_hi(d[2], -d[1], -d[1])
    piv = templ.rows_of(s)
    for key, (lo, hi) in list(s.rel.items()):
        x = templ.reduce(s, ('L', 0, key), piv)
        if x is None: continue
        l, h = s.bounds(x)
        if l > hi or h < lo: return True
    return False

def prod_atoms(I, st, fs):
    if not fs: return 1
    r = ('L', 0, ((fs[0], 1),))
    for f in fs[1:]: r = I.mul(st, r, ('L', 0, ((f, 1),)))
    return r

def pow2(I, st, s):
    c = st.cst(s)
    if c is not None and c <= 1100: return 1 << c
    return intern(('pow2', s), 1, POS)

# bitwise boolean functions of naturals ------------------------------------------------
def bf(I, st, tt, args):
    """canonical atom for a bitwise function given by a truth table over args (tt[0]==0)"""
    args = list(args)
    # evaluate constants when all constant
    n = len(args)
    # merge equal / constant zero arguments
    i = 0
    while i < len(args):
        a = args[i]
        c = st.cst(a)
        if c == 0:
            nt = tuple(tt[k] for k in range(len(tt)) if not (k >> i) & 1)
            tt = nt; args.pop(i); continue
        j = next((x for x in range(i) if args[x] == a), None)
        if j is not None:
            nt = []
            for k in range(1 << (len(args) - 1)):
                low = k & ((1 << i) - 1); high = k >> i
                bit = (k >> j) & 1
                nt.append(tt[low | (bit << i) | (high << (i + 1))])
            tt = tuple(nt); args.pop(i); continue
        i += 1
    # drop irrelevant arguments
    i = 0
    while i < len(args):
        if all(tt[k] == tt[k ^ (1 << i)] for k in range(len(tt))):
            tt = tuple(tt[k] for k in range(len(tt)) if not (k >> i) & 1); args.pop(i)
        else: i += 1
    if not args: return 0
    if len(args) == 1 and tt == (0, 1): return args[0]
    # flatten nested functions
    for i, a in enumerate(args):
        if type(a) is tuple and a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1 and A_key[a[2][0][0]][0] == 'bf':
            _, t2, a2 = A_key[a[2][0][0]]
            rest = args[:i] + args[i + 1:]
            if len(rest) + len(a2) <= 5:
                new = rest + list(a2); nr = len(rest)
                nt = []
                for k in range(1 << len(new)):
                    r = k & ((1 << nr) - 1); inner = t2[k >> nr]
                    idx = (r & ((1 << i) - 1)) | (inner << i) | ((r >> i) << (i + 1))
                    nt.append(tt[idx])
                return bf(I, st, tuple(nt), new)
    order = sorted(range(len(args)), key=lambda i: repr(args[i]))
    nt = []
    for k in range(len(tt)):
        idx = 0
        for pos, i in enumerate(order):
            if (k >> pos) & 1: idx |= 1 << i
        nt.append(tt[idx])
    args = tuple(args[i] for i in order)
    if tt[0] != 0: st.flag('negative bit function'); return fresh(0, POS)
    cs = [st.cst(a) for a in args]
    if all(c is not None for c in cs):
        r = 0
        for b in range(max(c.bit_length() for c in cs)):
            k = sum(((c >> b) & 1) << i for i, c in enumerate(cs))
            r |= nt[k] << b
        return r
    r = intern(('bf', tuple(nt), args), 0, POS)
    his = [st.bounds(a)[1] for a in args]
    if max(his) < (1 << 190): st.set_lo_hi(r[2], 0, (1 << max(his).bit_length()) - 1)
    return r
AND = (0, 0, 0, 1); OR = (0, 1, 1, 1); XOR = (0, 1, 1, 0); ANDN = (0, 1, 0, 0)   # index = a | b<<1

# ---------------------------------------------------------------- hook table
H = {}
def hook(*names):
    def d(fn):
        for n in names: H[n] = fn
        return fn
    return d

def panic_if_zero(I, st, b, msg):
    e = st.evalc(c_eq(b))
    if e is True:
        I.panic(st, 'panic', msg); raise Bottom()
    if e is None:
        s1 = st.copy(); s2 = st.copy(); out = []
        if s1.assume(c_eq(b)): out.append(s1)
        if s2.assume(c_ne(b)): out.append(s2)
        raise Split(out)

def arith(I, st, op, a, b):
    """a,b: 'nan' or Lin"""
    if a == 'nan' or b == 'nan': return 'nan'
    if I.coarse:
        if op in ('div', 'rem'): panic_if_zero(I, st, b, 'zero divisor')
        return fresh(0, POS, 'val')
    if op == 'add': return add(a, b)
    if op == 'sub': return nabs(I, st, sub(a, b))
    if op == 'mul': return I.mul(st, a, b)
    if op == 'div':
        panic_if_zero(I, st, b, 'zero divisor'); return ndiv(I, st, a, b)
    if op == 'rem':
        panic_if_zero(I, st, b, 'zero modulus'); return nrem(I, st, a, b)
    if op == 'bitand': return bf(I, st, AND, (a, b))
    if op == 'bitor': return bf(I, st, OR, (a, b))
    if op == 'bitxor': return bf(I, st, XOR, (a, b))
    if op == 'andnot': return bf(I, st, ANDN, (a, b))
    if op == 'shl':
        if st.cst(a) == 0: return 0
        p = pow2(I, st, b)
        r = I.mul(st, a, p)
        if I.templates and a in I.blens:
            # bitlen(x) <= bitlen(a) + b  =>  x < 2 * a * 2^b, and the other way round
            for x, rx in I.blens.items():
                l, h = st.bounds(sub(sub(rx, I.blens[a]), b))
                if h <= 0: st.assume(c_ge(sub(sub(scale(r, 2), x), 1)))
                if l >= 0: st.assume(c_ge(sub(sub(scale(x, 2), r), 1)))
        return r
    if op == 'shr': return ndiv(I, st, a, pow2(I, st, b))
    raise KeyError(op)

OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'bitand', 'BitOr': 'bitor', 'BitXor': 'bitxor'}

def argval(I, st, f, i, v):
    """value of argument i (Nat by value, &Nat or primitive)"""
    t = f['locals'][1 + i]
    x = I.T[t]
    if x['k'] == 'int': return v
    if x['k'] in ('ref', 'ptr'):
        e = x['elem']
        if type(v) is not tuple or v[0] != 'P': raise KeyError('arg')
        if I.T[e]['k'] == 'int':
            return I.load(st, v[1], v[2])
        if I.T[e]['k'] == 'ref': v = I.load(st, v[1], v[2])
        return nat_val(I, st, nat_loc(I, st, v))
    p = nat_of_value(I, st, v)
    r = nat_val(I, st, nat_loc(I, st, p))
    del st.mem[p[1]]
    return r

def run_split(fn):
    """re-run fn on each of the states a Split produces"""
    def g(I, st, inst, f, args):
        out = []; work = [st]
        while work:
            s = work.pop()
            snap = s.copy()
            try: r = fn(I, s, inst, f, args)
            except Split as e:
                # Split states derive from s, which may hold temporaries: keep only refinements
                for s2 in e.states: work.append(s2)
                continue
            except Bottom: continue
            if r is None: r = I.run_fn(s, inst, args)
            out.extend(r)
        return out
    return g

def any_len(): return fresh(0, VLEN_MAX, 'len')
def nat_any(I, st):
    """fresh storage with unknown contents (possibly NaN)"""
    s = shape(I); ln = any_len()
    S = ('S', {}, ('R', 0, W - 1), None, I.newver(), s.elem)
    bo = I.newobj(st, S, 'nat-buf', s.elem)
    vec = I.mkvec(s.vec, ('P', bo, (('i', 0),), None), fresh(0, VLEN_MAX, 'cap'), ln)
    def build(t, path):
        if not path: return vec
        fs = I.field_tys(t)
        return ('A', tuple(build(f, path[1:]) if i == path[0] else I.havoc(st, f) for i, f in enumerate(fs)))
    o = I.newobj(st, build(s.box, s.vpath), 'nat', s.box)
    return I.build(st, s.nat, s.path, ('P', o, (), None))
def nat_set_any(I, st, loc):
    vec_set_any(I, st, loc[0], loc[1] + shape(I).vpath)
def vec_set_any(I, st, o, base):
    s = shape(I)
    bp = I.load(st, o, base + s.pp['ptr'])
    S = ('S', {}, ('R', 0, W - 1), None, I.newver(), s.elem)
    if type(bp) is tuple and bp[0] in ('T', 'Q', 'U'):
        bo, bq, _ = I.deref(st, bp, o, base + s.pp['ptr'], s.elem)
    elif type(bp) is tuple and bp[0] == 'P': bo, bq = bp[1], bp[2]
    else:
        bo = I.newobj(st, S, 'nat-buf', s.elem); bq = (('i', 0),)
        I.rawstore(st, o, base + s.pp['ptr'], ('P', bo, bq, None))
    sq = bq[:-1] if bq and type(bq[-1]) is tuple and bq[-1][0] == 'i' else bq
    if type(bo) is not tuple: I.rawstore(st, bo, sq, S)
    I.rawstore(st, o, base + s.pp['len'], any_len()); I.rawstore(st, o, base + s.pp['cap'], fresh(1, VLEN_MAX, 'cap'))
def is_eff(I): return I.coarse == 2

def mk_bin(op):
    @run_split
    def h(I, st, inst, f, a):
        if is_eff(I): return [(st, nat_any(I, st))]
        x = argval(I, st, f, 0, a[0]); y = argval(I, st, f, 1, a[1])
        return [(st, nat_new(I, st, arith(I, st, op, x, y)))]
    return h
def mk_assign(op):
    @run_split
    def h(I, st, inst, f, a):
        p = a[0]
        if type(p) is not tuple or p[0] != 'P': raise KeyError('self')
        loc = nat_loc(I, st, p)
        if is_eff(I):
            nat_set_any(I, st, loc); return [(st, UNIT)]
        x = nat_val(I, st, loc); y = argval(I, st, f, 1, a[1])
        r = arith(I, st, op, x, y)
        nat_set(I, st, loc, r)
        return [(st, UNIT)]
    return h
for T_, op in OPS.items():
    for rhs in ('', '<u32>'):
        H['<%s as std::ops::%s%s>::%s' % (NAT, T_, rhs, T_.lower() if op not in ('bitand', 'bitor', 'bitxor') else op)] = mk_bin(op)
        H['<%s as std::ops::%sAssign%s>::%s_assign' % (NAT, T_, rhs, op)] = mk_assign(op)
for T_, op in (('Shl', 'shl'), ('Shr', 'shr')):
    H['<%s as std::ops::%s<usize>>::%s' % (NAT, T_, op)] = mk_bin(op)
    H['<%s as std::ops::%sAssign<usize>>::%s_assign' % (NAT, T_, op)] = mk_assign(op)
H['rmath::bigint::nat::Nat::and_not'] = mk_bin('andnot')
H['rmath::bigint::nat::Nat::and_not_assign'] = mk_assign('andnot')

@hook('rmath::bigint::nat::Nat::deep_clone')
@run_split
def h_dc(I, st, inst, f, a):
    if is_eff(I): return [(st, nat_any(I, st))]
    return [(st, nat_new(I, st, argval(I, st, f, 0, a[0])))]

def h_from(I, st, inst, f, a):
    if not is_int(a[0]): return None
    return [(st, nat_new(I, st, a[0]))]
for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
    H['<%s as std::convert::From<%s>>::from' % (NAT, t)] = h_from

@run_split
def h_eq(I, st, inst, f, a):
    if is_eff(I): return [(st, c_ne(fresh(0, 1, 'eq')))]
    x = argval(I, st, f, 0, a[0]); y = argval(I, st, f, 1, a[1])
    if x == 'nan' or y == 'nan': return [(st, False)]
    return [(st, c_eq(sub(x, y)))]
def any_cmp(I, st, f):
    return I.materialize(st, f['locals'][0])
def ordering(I, st, d):
    for v, c in ((0, c_ge(sub(-1, d))), (1, c_eq(d)), (2, c_ge(sub(d, 1)))):
        if st.evalc(c) is True: return ('E', v, ((), (), ()))
    outs = []
    for c in (c_ge(sub(-1, d)), c_eq(d), c_ge(sub(d, 1))):
        s2 = st.copy()
        if s2.assume(c): outs.append(s2)
    raise Split(outs)
@run_split
def h_cmp(I, st, inst, f, a):
    if is_eff(I): return [(st, any_cmp(I, st, f))]
    x = argval(I, st, f, 0, a[0]); y = argval(I, st, f, 1, a[1])
    if x == 'nan' or y == 'nan': return [(st, ('E', 0, ((), None)))]
    return [(st, ('E', 1, ((), (ordering(I, st, sub(x, y)),))))]
for t in ('', '<u8>', '<u16>', '<u32>', '<u64>', '<u128>', '<usize>'):
    H['<%s as std::cmp::PartialEq%s>::eq' % (NAT, t)] = h_eq
    H['<%s as std::cmp::PartialOrd%s>::partial_cmp' % (NAT, t)] = h_cmp

@hook('rmath::bigint::nat::Nat::bits_len')
@run_split
def h_bits(I, st, inst, f, a):
    if is_eff(I): return [(st, fresh(0, 1 << 62))]
    x = argval(I, st, f, 0, a[0])
    if x == 'nan': return None
    c = st.cst(x)
    if c is not None: return None
    lo, hi = st.bounds(x)
    r = intern(('bitlen', x), 0, 1 << 62)
    st.set_lo_hi(r[2], max(lo.bit_length(), 1), hi.bit_length() if hi < POS else 1 << 62)
    if I.templates:
        # a monotone function of the value
        for y, ry in I.blens.items():
            if y == x: continue
            l, h = st.bounds(sub(x, y))
            if l >= 0: st.assume(c_ge(sub(r, ry)))
            if h <= 0: st.assume(c_ge(sub(ry, r)))
        I.blens[x] = r
    return [(st, r)]


# ---------------------------------------------------------------- signed layer (used above BigInt only)
HB = {}
def big_fields(I):
    c = getattr(I, '_bigf', None)
    if c is None:
        t = I.p.tyname[BIG.replace('rmath::', '', 1)]
        fs = [n for n, _ in I.T[t]['variants'][0]['fields']]
        st = dict(I.T[t]['variants'][0]['fields'])['sign']
        names = [v['name'] for v in I.T[st]['variants']]
        c = I._bigf = (t, fs.index('nat'), fs.index('sign'), names.index('Negative'), names.index('Natural'), len(names))
    return c

def pick(I, st, c):
    e = st.evalc(c)
    if e is None:
        out = []
        for t in (True, False):
            s = st.copy()
            if s.assume(c, t): out.append(s)
        raise Split(out)
    return e

def big_val(I, st, p):
    """pointer to a BigInt -> 'nan' | signed Lin"""
    t, fn, fsg, NEGI, NATI, n = big_fields(I)
    loc = nat_loc(I, st, ('P', p[1], p[2] + (fn,), None))
    m = nat_val(I, st, loc)
    if m == 'nan': return 'nan'
    sg = I.load(st, p[1], p[2] + (fsg,))
    if type(sg) is tuple and sg[0] == 'T':
        sg = I.materialize(st, sg[1]); I.rawstore(st, p[1], p[2] + (fsg,), sg)
    tag = sg[1]
    if type(tag) is not int:
        outs = []
        for k in range(n):
            s2 = st.copy()
            if s2.assume(c_eq(sub(tag, k))):
                I.rawstore(s2, p[1], p[2] + (fsg,), ('E', k, sg[2])); outs.append(s2)
        raise Split(outs)
    return neg(m) if tag == NEGI else m

def barg(I, st, f, i, v):
    x = I.T[f['locals'][1 + i]]
    if x['k'] == 'int': return v
    if x['k'] in ('ref', 'ptr'):
        if type(v) is not tuple or v[0] != 'P': raise KeyError('arg')
        if I.T[x['elem']]['k'] == 'int': return I.load(st, v[1], v[2])
        return big_val(I, st, v)
    o = I.newobj(st, v, 'arg', f['locals'][1 + i])
    return big_val(I, st, ('P', o, (), None))

def any_sign(I, n): return ('E', fresh(0, n - 1, 'sign'), ((),) * n)
def big_any(I, st):
    t, fn, fsg, NEGI, NATI, n = big_fields(I)
    fs = [None, None]
    fs[fn] = nat_any(I, st); fs[fsg] = any_sign(I, n)
    return ('A', tuple(fs))
def big_set_any(I, st, p):
    t, fn, fsg, NEGI, NATI, n = big_fields(I)
    nat_set_any(I, st, nat_loc(I, st, ('P', p[1], p[2] + (fn,), None)))
    I.rawstore(st, p[1], p[2] + (fsg,), any_sign(I, n))
def big_new(I, st, v):
    t, fn, fsg, NEGI, NATI, n = big_fields(I)
    if v == 'nan': m, k = 'nan', NATI
    elif pick(I, st, c_ge(v)): m, k = v, NATI
    else: m, k = neg(v), NEGI
    fs = [None, None]
    fs[fn] = nat_new(I, st, m); fs[fsg] = ('E', k, ((),) * n)
    return ('A', tuple(fs))
def big_set(I, st, p, v):
    t, fn, fsg, NEGI, NATI, n = big_fields(I)
    if v == 'nan': m, k = 'nan', NATI
    elif pick(I, st, c_ge(v)): m, k = v, NATI
    else: m, k = neg(v), NEGI
    nat_set(I, st, nat_loc(I, st, ('P', p[1], p[2] + (fn,), None)), m)
    I.rawstore(st, p[1], p[2] + (fsg,), ('E', k, ((),) * n))

def sdiv(I, st, a, b, rem):
    """truncated quotient / remainder"""
    panic_if_zero(I, st, b, 'zero divisor')
    sa = pick(I, st, c_ge(a)); sb = pick(I, st, c_ge(b))
    A = a if sa else neg(a); B = b if sb else neg(b)
    if rem:
        r = nrem(I, st, A, B)
        return r if sa else neg(r)
    q = ndiv(I, st, A, B)
    return q if sa == sb else neg(q)

def bop(I, st, op, a, b):
    if a == 'nan' or b == 'nan': return 'nan'
    if I.coarse:
        if op in ('div', 'rem'): panic_if_zero(I, st, b, 'zero divisor')
        return fresh(NEG, POS, 'val')
    if op == 'add': return add(a, b)
    if op == 'sub': return sub(a, b)
    if op == 'mul': return I.mul(st, a, b)
    if op == 'div': return sdiv(I, st, a, b, False)
    if op == 'rem': return sdiv(I, st, a, b, True)
    if op == 'shl': return I.mul(st, a, pow2(I, st, b))
    raise KeyError(op)
def mk_bbin(op):
    @run_split
    def h(I, st, inst, f, a):
        if is_eff(I): return [(st, big_any(I, st))]
        x = barg(I, st, f, 0, a[0]); y = barg(I, st, f, 1, a[1])
        return [(st, big_new(I, st, bop(I, st, op, x, y)))]
    return h
def mk_bassign(op):
    @run_split
    def h(I, st, inst, f, a):
        if is_eff(I):
            big_set_any(I, st, a[0]); return [(st, UNIT)]
        x = big_val(I, st, a[0]); y = barg(I, st, f, 1, a[1])
        big_set(I, st, a[0], bop(I, st, op, x, y))
        return [(st, UNIT)]
    return h
for T_, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    HB['<%s as std::ops::%s>::%s' % (BIG, T_, op)] = mk_bbin(op)
    HB['<%s as std::ops::%sAssign>::%s_assign' % (BIG, T_, op)] = mk_bassign(op)
HB['<%s as std::ops::Shl<usize>>::shl' % BIG] = mk_bbin('shl')
HB['<%s as std::ops::ShlAssign<usize>>::shl_assign' % BIG] = mk_bassign('shl')
def mk_bun(fn):
    @run_split
    def h(I, st, inst, f, a):
        if is_eff(I): return [(st, big_any(I, st))]
        x = barg(I, st, f, 0, a[0])
        return [(st, big_new(I, st, 'nan' if x == 'nan' else fn(I, st, x)))]
    return h
HB['<%s as std::ops::Neg>::neg' % BIG] = mk_bun(lambda I, st, x: neg(x))
HB[BIG + '::sqr'] = mk_bun(lambda I, st, x: bop(I, st, 'mul', x, x))
HB[BIG + '::abs'] = mk_bun(lambda I, st, x: x if pick(I, st, c_ge(x)) else neg(x))
HB[BIG + '::deep_clone'] = mk_bun(lambda I, st, x: x)

def ngcd(I, st, a, b):
    """gcd of naturals (not both zero handled by caller)"""
    ca, cb = st.cst(a), st.cst(b)
    if ca == 0: return b
    if cb == 0: return a
    if ca == 1 or cb == 1: return 1
    if ca is not None and cb is not None:
        import math
        return math.gcd(ca, cb)
    if a == b: return a
    for x, y in ((a, b), (b, a)):          # gcd(u mod y, y) = gcd(u, y)
        u = I.remof.get(x)
        if u is not None and st.same(u[1], y): return ngcd(I, st, u[0], y)
    if I.bezout:
        for x, y in ((a, b), (b, a)):      # gcd(u + y*k, y) = gcd(u, y)
            if type(x) is tuple and type(y) is tuple and y[1] == 0 and len(y[2]) == 1 and y[2][0][1] == 1:
                ks = [t for t in x[2] if y[2][0][0] not in I.factors(t[0])]
                if len(ks) == len(x[2]): continue
                u = mk(x[1], dict(ks)) if ks else x[1]
                l, h = st.bounds(u)
                if l < 0 < h: continue
                return ngcd(I, st, u if l >= 0 else neg(u), y)
    xs = tuple(sorted((a, b), key=repr))
    r = intern(('gcd', xs), 1, POS)
    for x in (a, b):
        if st.bounds(x)[0] >= 1: st.assume(c_ge(sub(x, r)))
    return r

@run_split
def h_gcd(I, st, inst, f, a):
    if is_eff(I): return [(st, ('A', tuple(big_any(I, st) for _ in range(3))))]
    x = barg(I, st, f, 0, a[0]); y = barg(I, st, f, 1, a[1])
    if x == 'nan' or y == 'nan': return [(st, ('A', tuple(big_new(I, st, 'nan') for _ in range(3))))]
    ax = x if pick(I, st, c_ge(x)) else neg(x); ay = y if pick(I, st, c_ge(y)) else neg(y)
    zx = pick(I, st, c_eq(ax)); zy = pick(I, st, c_eq(ay))
    if zx and zy: return [(st, ('A', tuple(big_new(I, st, 0) for _ in range(3))))]
    g = ay if zx else ax if zy else ngcd(I, st, ax, ay)
    bt = big_fields(I)[0]
    d = big_new(I, st, g)
    outs = []
    co = []
    for k in range(2):
        v = intern(('bezout', k, x, y), NEG, POS)
        if not st.evalc(c_ge(v)) is True: pick(I, st, c_ge(v))
        co.append(v)
    if I.bezout and not st.assume(c_eq(sub(add(I.mul(st, x, co[0]), I.mul(st, y, co[1])), g))): return []
    return [(st, ('A', (d, big_new(I, st, co[0]), big_new(I, st, co[1]))))]
HB[BIG + '::gcd'] = h_gcd

@run_split
def h_beq(I, st, inst, f, a):
    if is_eff(I): return [(st, c_ne(fresh(0, 1, 'eq')))]
    x = barg(I, st, f, 0, a[0]); y = barg(I, st, f, 1, a[1])
    if x == 'nan' or y == 'nan': return [(st, False)]
    return [(st, c_eq(sub(x, y)))]
@run_split
def h_bcmp(I, st, inst, f, a):
    if is_eff(I): return [(st, any_cmp(I, st, f))]
    x = barg(I, st, f, 0, a[0]); y = barg(I, st, f, 1, a[1])
    if x == 'nan' or y == 'nan': return [(st, ('E', 0, ((), None)))]
    return [(st, ('E', 1, ((), (ordering(I, st, sub(x, y)),))))]
HB['<%s as std::cmp::PartialEq>::eq' % BIG] = h_beq
HB['<%s as std::cmp::PartialEq<u32>>::eq' % BIG] = h_beq
HB['<%s as std::cmp::PartialOrd>::partial_cmp' % BIG] = h_bcmp
# crate-internal in-place forms the upper layers call
for op in ('add', 'sub', 'mul', 'div', 'rem', 'shl', 'shr'):
    HB[NAT + '::%s_inner' % op] = mk_assign(op)
    if op in ('add', 'sub', 'mul', 'div', 'rem'): HB[NAT + '::%s_inner_basic' % op] = mk_assign(op)
for op in ('bitand', 'bitor', 'bitxor'): HB[NAT + '::%s_inner' % op] = mk_assign(op)
@run_split
def h_nsqr(I, st, inst, f, a):
    if is_eff(I): return [(st, nat_any(I, st))]
    x = argval(I, st, f, 0, a[0])
    return [(st, nat_new(I, st, arith(I, st, 'mul', x, x)))]
HB[NAT + '::sqr'] = h_nsqr

@run_split
def h_u32_shl(I, st, inst, f, a):
    if is_eff(I) or a[1] != 1: return None
    loc = nat_loc(I, st, a[0])
    nat_set(I, st, loc, I.mul(st, a[1], pow2(I, st, a[2])))
    return [(st, UNIT)]
HB[NAT + '::u32_shl'] = h_u32_shl
@run_split
def h_trim(I, st, inst, f, a):
    if is_eff(I) or not I.templates: return None
    loc = nat_loc(I, st, a[0])
    x = nat_val(I, st, loc)
    if x == 'nan': return None
    nat_set(I, st, loc, x)
    return [(st, UNIT)]
HB[NAT + '::trim_head_zero'] = h_trim
@run_split
def h_cmp_inner(I, st, inst, f, a):
    if is_eff(I): return None
    x = argval(I, st, f, 0, a[0]); y = argval(I, st, f, 1, a[1])
    if x == 'nan' or y == 'nan': return None
    return [(st, ordering(I, st, sub(x, y)))]
HB[NAT + '::partial_cmp_inner'] = h_cmp_inner
def num_of(I, t):
    n = I.T[t].get('adt')
    if n is None: return None
    n = n if n.startswith('rmath::') else 'rmath::' + n
    return 'nat' if n == NAT else 'big' if n == BIG else None
def any_of(I, st, t):
    """a fresh value of a result type built from numbers and scalars, or None"""
    k = num_of(I, t)
    if k == 'nat': return nat_any(I, st)
    if k == 'big': return big_any(I, st)
    x = I.T[t]
    if x['k'] == 'tuple' and x['elems']:
        vs = [any_of(I, st, e) for e in x['elems']]
        return None if any(v is None for v in vs) else ('A', tuple(vs))
    return None

def auto_effect(I, st, inst, f, args):
    """effect-only summary of a public operation that is itself decided by the same rule:
    results are fresh, &mut operands get unknown contents, & operands are left alone"""
    r = I.pubroots.get(inst)
    if r is None or inst in I.nocontract: return None
    muts = []
    for i in range(f['argc']):
        t = f['locals'][1 + i]; x = I.T[t]
        if x['k'] == 'int': continue
        if x['k'] == 'ref':
            k = num_of(I, x['elem'])
            if k is None:
                if I.T[x['elem']]['k'] == 'int' and not x.get('mut'): continue
                return None
            if x.get('mut'): muts.append((k, args[i]))
            continue
        if num_of(I, t): continue
        return None
    rt = f['locals'][0]
    if I.T[rt].get('size') == 0 and muts: v = UNIT
    elif muts: return None
    else:
        v = any_of(I, st, rt)
        if v is None: return None
    for k, p in muts:
        if type(p) is not tuple or p[0] != 'P': return None
        if k == 'nat': nat_set_any(I, st, nat_loc(I, st, p))
        else: big_set_any(I, st, p)
    return [(st, v)]
auto_effect = run_split(auto_effect)
SHARING = ('std::clone::Clone>::clone', '::new', '::nan', '::from')

def h_sqr_v(I, st, inst, f, a):
    if not is_eff(I) or type(a[0]) is not tuple or a[0][0] != 'P': return None
    vec_set_any(I, st, a[0][1], a[0][2])
    return [(st, UNIT)]
HB[NAT + '::sqr_v'] = h_sqr_v
HB[NAT + '::mul_by_karatsuba'] = h_sqr_v
HB[NAT + '::mul_add_ww'] = h_sqr_v
HB[NAT + '::montgomery'] = h_sqr_v
def h_subsign(I, st, inst, f, a):
    if not is_eff(I): return None
    nat_set_any(I, st, nat_loc(I, st, a[0]))
    return [(st, c_ne(fresh(0, 1, 'sgn')))]
HB[NAT + '::sub_inner_with_sign'] = run_split(h_subsign)

_cn = {}
def cname(n):
    """drop the module an inherent impl happens to live in"""
    r = _cn.get(n)
    if r is None:
        i = n.find('<impl ')
        r = n
        if i > 0 and '>::' in n[i:]: r = n[i + 6:].replace('>::', '::', 1)
        _cn[n] = r
    return r
def hooks(I, st, inst, f, args):
    nm = cname(f['name'])
    h = H.get(nm)
    if h is None and getattr(I, 'bigc', False): h = HB.get(nm)
    if h is None and I.coarse == 2 and nm.startswith('<rmath::rand::iter::Iter<') and nm.endswith('as std::iter::Iterator>::next'):
        return [(st, I.materialize(st, f['locals'][0]))]
    if h is None and I.coarse == 2 and inst in I.pubroots and not f['name'].endswith(SHARING): h = auto_effect
    if h is None or inst in I.nocontract: return None
    r = h(I, st, inst, f, args)
    if r is not None: I.contract_used.add(f['name'])
    return r
