"""Models of std primitives (allocation, Vec, Rc, slices, intrinsics)."""
from dom import *
from interp import VLEN_MAX, Bottom, Split, HEAP

M = {}
def model(*names):
    def d(fn):
        for n in names: M[n] = fn
        return fn
    return d

def rty(f): return f['locals'][0]
def elem(I, t): return I.T[t]['elem']

def raw_seq(I, ety=None): return ('S', {}, ('N',), None, I.newver(), ety)

def new_buf(I, st, ety=None, label='buf'):
    o = I.newobj(st, raw_seq(I, ety), label, ety)
    return ('P', o, (('i', 0),), None)

# ---- raw vec parts through a pointer -------------------------------------
def paths_of(I, t):
    """paths of (data pointer, capacity, len) inside a Vec / RawVec / RawVecInner type"""
    r = {'ptr': None, 'cap': None, 'len': None}
    def walk(ty, path):
        x = I.T[ty]
        if x['k'] == 'pat': return walk(x['elem'], path)
        if x['k'] == 'ptr':
            r['ptr'] = path
        elif x['k'] == 'int':
            if r['cap'] is None and r['ptr'] is not None or 'RawVec' in '': r['cap'] = path
        elif x['k'] == 'adt' and x['akind'] == 'Struct':
            for i, (n, ft) in enumerate(x['variants'][0]['fields']):
                if n == 'len' and x['adt'] == 'std::vec::Vec': r['len'] = path + (i,)
                elif n == 'cap': r['cap'] = path + (i,) + I.leaf(ft)[0]
                else: walk(ft, path + (i,))
    walk(t, ())
    return r

def ensure_buf(I, st, p, t, ety=None):
    """p: pointer to a Vec/RawVec; make sure it has a buffer object"""
    pp = paths_of(I, t)
    ptr = I.load(st, p[1], p[2] + pp['ptr'])
    if type(ptr) is tuple and ptr[0] == 'T':
        ptr = I.materialize(st, ptr[1]); I.rawstore(st, p[1], p[2] + pp['ptr'], ptr)
    if type(ptr) is int:
        b = new_buf(I, st, ety)
        I.rawstore(st, p[1], p[2] + pp['ptr'], b)
        I.rawstore(st, p[1], p[2] + pp['cap'], fresh(1, VLEN_MAX, 'cap'))
        ptr = b
    return ptr, pp

def widen_cap(I, st, p, pp):
    """the buffer may have been reallocated: nothing but cap >= len is known of the capacity"""
    c = I.load(st, p[1], p[2] + pp['cap'])
    if not is_int(c) or st.bounds(c)[1] < VLEN_MAX: I.rawstore(st, p[1], p[2] + pp['cap'], fresh(1, VLEN_MAX, 'cap'))

def vec_t(I, f, i=1):
    return I.T[f['locals'][i]]['elem']

def getP(I, st, v):
    if type(v) is tuple and v[0] == 'P': return v
    if type(v) is tuple and v[0] == 'T':
        return I.materialize(st, v[1])
    return None

@model('std::vec::Vec::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(I, st, inst, f, a):
    t = rty(f)
    return [(st, I.mkvec(t, 4, 0, 0))]

@model('std::vec::Vec::<T>::with_capacity')
def vec_wc(I, st, inst, f, a):
    t = rty(f); e = I.T[t]['args'][0]
    return [(st, I.mkvec(t, new_buf(I, st, e), a[0], 0))]

@model('alloc::raw_vec::RawVecInner::<A>::with_capacity_in')
def rvi_wc(I, st, inst, f, a):
    t = rty(f)
    return [(st, build_raw(I, st, t, new_buf(I, st), a[0]))]

def build_raw(I, st, t, ptr, cap):
    x = I.T[t]
    if x['k'] == 'ptr': return ptr
    if x['k'] == 'pat': return build_raw(I, st, x['elem'], ptr, cap)
    if x['k'] == 'int': return cap
    if x.get('size') == 0: return UNIT
    return ('A', tuple(build_raw(I, st, ft, ptr, cap) for ft in I.field_tys(t)))

@model('alloc::raw_vec::RawVecInner::<A>::try_allocate_in')
def rvi_try(I, st, inst, f, a):
    t = rty(f)
    inner = I.field_tys(t, 0)[0]
    n = len(I.T[t]['variants'])
    pl = [None] * n; pl[0] = (build_raw(I, st, inner, new_buf(I, st), a[0]),)
    return [(st, ('E', 0, tuple(pl)))]

@model('alloc::raw_vec::RawVec::<T, A>::grow_one', 'alloc::raw_vec::RawVecInner::<A>::grow_one', 'alloc::raw_vec::RawVecInner::<A>::reserve::do_reserve_and_handle',
       'alloc::raw_vec::RawVecInner::<A>::reserve', 'alloc::raw_vec::RawVec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact',
       'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::shrink_to')
def rv_grow(I, st, inst, f, a):
    p = getP(I, st, a[0])
    if p is None: return None
    ensure_buf(I, st, p, vec_t(I, f))
    pp = paths_of(I, vec_t(I, f))
    I.rawstore(st, p[1], p[2] + pp['cap'], fresh(1, VLEN_MAX, 'cap'))
    return [(st, UNIT)]

@model('alloc::raw_vec::RawVecInner::<A>::grow_amortized', 'alloc::raw_vec::RawVecInner::<A>::grow_exact')
def rv_grow_r(I, st, inst, f, a):
    p = getP(I, st, a[0])
    if p is None: return None
    ensure_buf(I, st, p, vec_t(I, f))
    pp = paths_of(I, vec_t(I, f))
    I.rawstore(st, p[1], p[2] + pp['cap'], fresh(1, VLEN_MAX, 'cap'))
    return [(st, ('E', 0, ((UNIT,), None)))]

@model('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut')
def vec_push(I, st, inst, f, a):
    p = getP(I, st, a[0])
    if p is None or p[0] != 'P': return None
    t = vec_t(I, f)
    ptr, pp = ensure_buf(I, st, p, t, I.T[t]['args'][0])
    if not (type(ptr) is tuple and ptr[0] == 'P'):
        if type(ptr) is tuple and ptr[0] == 'Q': raise_q(I, st, p, pp, ptr)
        return None
    ln = I.load(st, p[1], p[2] + pp['len'])
    if not is_int(ln): ln = fresh(0, VLEN_MAX, 'len')
    ep = I.pstep(ptr, ln)
    I.store(st, ep[1], ep[2], a[1])
    n = add(ln, 1)
    if not st.assume(c_ge(sub(VLEN_MAX, n))): raise Bottom()
    I.store(st, p[1], p[2] + pp['len'], n); widen_cap(I, st, p, pp)
    return [(st, ep if f['def'].endswith('push_mut') else UNIT)]

def raise_q(I, st, p, pp, ptr):
    outs = []
    for q in ptr[1]:
        s2 = st.copy(); I.rawstore(s2, p[1], p[2] + pp['ptr'], q); outs.append(s2)
    raise Split(outs)

@model('std::vec::Vec::<T, A>::resize')
def vec_resize(I, st, inst, f, a):
    p = getP(I, st, a[0])
    if p is None or p[0] != 'P': return None
    t = vec_t(I, f)
    ptr, pp = ensure_buf(I, st, p, t, I.T[t]['args'][0])
    if type(ptr) is tuple and ptr[0] == 'Q': raise_q(I, st, p, pp, ptr)
    if not (type(ptr) is tuple and ptr[0] == 'P'): return None
    ln = I.load(st, p[1], p[2] + pp['len'])
    n, v = a[1], a[2]
    outs = []
    s1 = st.copy()
    if s1.assume(c_ge(sub(ln, n))):
        I.store(s1, p[1], p[2] + pp['len'], n)
        outs.append((s1, UNIT))
    s2 = st
    if s2.assume(c_ge(sub(sub(n, ln), 1))) and s2.assume(c_ge(sub(VLEN_MAX, n))):
        bp, b0 = I.pidx_of(ptr)
        s = I.load(s2, ptr[1], bp)
        nc = {}
        for k, cv in s[1].items():
            if s2.bounds(sub(sub(ln, k), 1))[0] >= 0: nc[k] = cv
        c = s2.cst(ln)
        summ = s[2]
        vs = ('R',) + s2.bounds(v) if is_int(v) else ('V', v)
        if c == 0 or summ is None and False: summ = vs
        elif summ is not None and summ[0] == 'N': summ = vs
        elif summ is not None and summ[0] == 'R' and vs[0] == 'R': summ = ('R', min(summ[1], vs[1]), max(summ[2], vs[2]))
        elif summ != vs: summ = None
        cn = s2.cst(n)
        if c is not None and cn is not None and cn - c <= 64:
            for i in range(c, cn): nc[i] = v
        else:
            nc[ln] = v; nc[sub(n, 1)] = v
        I.rawstore(s2, ptr[1], bp, ('S', nc, summ, None, I.newver(), s[5]))
        I.store(s2, p[1], p[2] + pp['len'], n); widen_cap(I, s2, p, pp)
        outs.append((s2, UNIT))
    return outs

def from_elem(I, st, inst, f, a):
    t = rty(f); e = I.T[t]['args'][0]
    v, n = a[0], a[1]
    b = new_buf(I, st, e)
    summ = ('R',) + st.bounds(v) if is_int(v) else ('V', v)
    cells = {}
    c = st.cst(n)
    if c is not None and c <= 64: cells = {i: v for i in range(c)}
    elif type(n) is tuple: cells = {sub(n, 1): v, 0: v}
    st.mem[b[1]] = ('S', cells, summ, None, I.newver(), e)
    if not st.assume(c_ge(sub(VLEN_MAX, n))): raise Bottom()
    return [(st, I.mkvec(t, b, n, n))]
M['std::vec::from_elem'] = from_elem

# ---- Rc / Box --------------------------------------------------------------
@model('std::rc::Rc::<T>::new')
def rc_new(I, st, inst, f, a):
    t = rty(f)
    path, lt = I.leaf(t)
    inner = I.T[lt]['elem']
    fs = I.T[inner]['variants'][0]['fields']
    val = ('A', tuple(a[0] if n == 'value' else I.havoc(st, ft) for n, ft in fs))
    o = I.newobj(st, val, 'rc', inner)
    return [(st, I.build(st, t, path, ('P', o, (), None)))]

@model('<std::rc::Rc<T, A> as std::clone::Clone>::clone')
def rc_clone(I, st, inst, f, a):
    p = getP(I, st, a[0])
    if p is None or p[0] != 'P': return None
    v = I.load(st, p[1], p[2])
    if type(v) is tuple and v[0] == 'T': v = I.materialize(st, v[1]); I.rawstore(st, p[1], p[2], v)
    # make sure the shared object exists before it is duplicated
    t = I.T[f['locals'][1]]['elem']
    path, lt = I.leaf(t)
    x = I.load(st, p[1], p[2] + path)
    if type(x) is tuple and x[0] == 'T':
        I.rawstore(st, p[1], p[2] + path, I.materialize(st, x[1]))
    return [(st, I.load(st, p[1], p[2]))]

@model('std::boxed::Box::<T>::new')
def box_new(I, st, inst, f, a):
    t = rty(f); path, lt = I.leaf(t)
    o = I.newobj(st, a[0], 'box', f['locals'][1])
    return [(st, I.build(st, t, path, ('P', o, (), None)))]

@model('std::boxed::Box::<T>::new_uninit')
def box_uninit(I, st, inst, f, a):
    t = rty(f); path, lt = I.leaf(t)
    e = I.T[lt]['elem']
    o = I.newobj(st, ('T', e), 'box', e)
    return [(st, I.build(st, t, path, ('P', o, (), None)))]

def raw_alloc(I, st, inst, f, a):
    o = I.newobj(st, ('RAW',), 'raw', None)
    return [(st, ('P', o, (), None))]
for n in ('alloc::alloc::__rust_alloc', 'alloc::alloc::__rust_alloc_zeroed', 'std::boxed::box_new_uninit', 'alloc::alloc::exchange_malloc'): M[n] = raw_alloc

def noop(I, st, inst, f, a): return [(st, UNIT)]
for n in ('std::ptr::drop_in_place', 'alloc::alloc::__rust_dealloc', 'alloc::alloc::__rust_no_alloc_shim_is_unstable_v2', 'std::mem::drop', 'std::mem::forget'): M[n] = noop

@model('<std::boxed::Box<T, A> as std::ops::Drop>::drop')
def box_drop(I, st, inst, f, a): return [(st, UNIT)]

# ---- errors and formatting ---------------------------------------------------
def opaque(I, st, inst, f, a):
    return [(st, ('?',))]
for n in ('std::fmt::format', 'std::fmt::format::format_inner', 'alloc::fmt::format', 'std::fmt::write', "std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'_>::write_fmt",
          'alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', "std::fmt::Formatter::<'_>::debug_struct_field2_finish", 'core::num::float_parse::<impl std::str::FromStr for f64>::from_str'):
    M[n] = opaque

def strarg(I, st, v):
    """constant string behind a pointer, if known"""
    if type(v) is tuple and v[0] == 'P' and type(v[1]) is tuple and v[1][0] == 'str':
        p, i = I.pidx_of(v)
        if type(i) is int and type(v[3]) is int: return v[1][1][i:i + v[3]].decode('utf8', 'replace')
    return None

def boxerr(I, st, inst, f, a):
    """Box<dyn Error> from a message: opaque"""
    t = rty(f); path, lt = I.leaf(t)
    e = I.T[lt]['elem']
    o = I.newobj(st, ('T', e), 'err', e)
    return [(st, I.build(st, t, path, ('P', o, (), ('dyn', None))))]

# ---- slices ------------------------------------------------------------------
def slice_eq(I, st, inst, f, a):
    x, y = a[0], a[1]
    if not (type(x) is tuple and x[0] == 'P' and type(y) is tuple and y[0] == 'P'): return None
    lx, ly = x[3], y[3]
    if not is_int(lx) or not is_int(ly): return None
    if x == y: return [(st, True)]
    outs = []
    d = sub(lx, ly)
    s1 = st.copy()
    if s1.assume(c_ne(d)): outs.append((s1, False))
    if st.assume(c_eq(d)):
        c = st.cst(lx)
        if c is None: c = st.cst(ly)
        if c is not None and c <= 16:
            cond = True
            ok = True
            for i in range(c):
                u = I.load(st, x[1], I.pstep(x, i)[2]); v = I.load(st, y[1], I.pstep(y, i)[2])
                if is_int(u) and is_int(v): cond = c_and(cond, c_eq(sub(u, v)))
                elif type(u) is bool or (type(u) is tuple and u[0] == 'C'): cond = c_and(cond, I.boolop(st, 'Eq', u, v))
                else: ok = False
            if ok:
                outs.append((st, cond)); return outs
        px, ix = I.pidx_of(x); py, iy = I.pidx_of(y)
        if x[1] == y[1] and px == py and st.same(ix, iy):
            outs.append((st, True)); return outs
        # a provable difference at a position known on both sides?
        sx, sy = I.load(st, x[1], px), I.load(st, y[1], py)
        if type(sx) is tuple and sx[0] == 'S' and type(sy) is tuple and sy[0] == 'S' and ix == 0 and iy == 0:
            for k, u in sx[1].items():
                if st.bounds(k)[0] >= 0 and st.bounds(sub(sub(lx, k), 1))[0] >= 0:
                    for k2, v in sy[1].items():
                        if (k2 == k or st.same(k, k2)) and is_int(u) and is_int(v):
                            if st.evalc(c_ne(sub(u, v))) is True:
                                outs.append((st, False)); return outs
            if sx[4] == sy[4] == 0 and False: pass
        outs.append((st, ('C', 'ne', fresh(0, 1, 'sliceeq'))))
    return outs
SLICE_EQ = ('<[A] as core::slice::cmp::SlicePartialEq<B>>::equal', '<[A] as std::slice::cmp::SlicePartialEq<B>>::equal')
for n in SLICE_EQ: M[n] = slice_eq

def permute(I, st, inst, f, a):
    p = a[0]
    if type(p) is tuple and p[0] == 'P' and type(p[1]) is not tuple:
        bp, i = I.pidx_of(p)
        s = I.load(st, p[1], bp)
        if type(s) is tuple and s[0] == 'S':
            k = a[1] if len(a) > 1 else None
            n = st.cst(p[3]) if is_int(p[3]) else None
            kc = st.cst(k) if k is not None and is_int(k) else None
            nm = f['def'].rsplit('::', 1)[-1]
            op = 'rotate_right' if 'rotate_right' in nm else 'rotate_left' if 'rotate_left' in nm else 'reverse' if 'reverse' in nm else None
            if n is not None and n <= 64 and op and (op == 'reverse' or kc is not None and 0 <= kc <= n):
                vals = [I.load(st, p[1], I.pstep(p, j)[2]) for j in range(n)]
                if op == 'reverse': vals = vals[::-1]
                elif op == 'rotate_left': vals = vals[kc:] + vals[:kc]
                else: vals = vals[n - kc:] + vals[:n - kc]
                for j, v in enumerate(vals): I.store(st, p[1], I.pstep(p, j)[2], v)
                return [(st, UNIT)]
            if k is not None and is_int(k) and st.cst(k) == 0: return [(st, UNIT)]
            I.rawstore(st, p[1], bp, ('S', {}, s[2], None, I.newver(), s[5]))
            return [(st, UNIT)]
    return None
for n in ('core::slice::<impl [T]>::rotate_right', 'core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::reverse', 'std::slice::<impl [T]>::rotate_right',
          'std::slice::<impl [T]>::rotate_left', 'std::slice::<impl [T]>::reverse', 'core::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable'):
    M[n] = permute

# ---- intrinsics ----------------------------------------------------------------
def ty0(I, f):
    """type argument guessed from the instance name"""
    return None

def intr(name):
    def d(fn): M['@' + name] = fn; return fn
    return d

for n in ('cold_path', 'assert_inhabited', 'black_box'): M['@' + n] = lambda I, st, inst, f, a: [(st, a[0] if a else UNIT)]
M['@caller_location'] = lambda I, st, inst, f, a: [(st, ('?',))]
M['@is_val_statically_known'] = lambda I, st, inst, f, a: [(st, False)]
M['@abort_immediate'] = lambda I, st, inst, f, a: []

def tname_arg(f):
    # "...::<u32>"
    n = f['name']
    i = n.rfind('::<')
    return n[i + 3:-1] if i >= 0 else None

def bitsof(I, f):
    t = I.p.tyname.get(tname_arg(f))
    return I.T[t]['bits'], t

def ctz_model(I, st, inst, f, a):
    bits, t = bitsof(I, f); x = a[0]
    c = st.cst(x) if is_int(x) else None
    if c is not None:
        c &= (1 << bits) - 1
        return [(st, bits if c == 0 else (c & -c).bit_length() - 1)]
    lo, hi = st.bounds(x) if is_int(x) else (0, 0)
    if I.exact and getattr(I, 'splitlz', False) and is_int(x) and st.bounds(x)[0] >= 0:      # one state per number of trailing zeros
        out = []; s = st
        for k in range(bits):
            bit = I.lowhigh(s, I.lowhigh(s, x, k)[1], 1)[0]
            s2 = s.copy()
            if s2.assume(c_eq(sub(bit, 1))): out.append((s2, k))
            s = s.copy()
            if not s.assume(c_eq(bit)): break
        else:
            if s.assume(c_eq(x)): out.append((s, bits))
        return out
    r = intern(('cttz', x, bits), 0, bits)
    if lo > 0: I.setb(st, r, 0, bits - 1)
    return [(st, r)]
M['@cttz'] = ctz_model; M['@cttz_nonzero'] = ctz_model
def clz_model(I, st, inst, f, a):
    bits, t = bitsof(I, f); x = a[0]
    c = st.cst(x) if is_int(x) else None
    if c is not None:
        c &= (1 << bits) - 1
        return [(st, bits - c.bit_length())]
    if I.exact and is_int(x) and st.bounds(x)[0] >= 0:
        lo, hi = st.bounds(x)
        if getattr(I, 'splitlz', False):      # one state per bit length
            out = []
            for B in range(lo.bit_length(), min(hi.bit_length(), bits) + 1):
                s2 = st.copy()
                if s2.assume(c_ge(sub(x, 1 << (B - 1) if B else 0))) and s2.assume(c_ge(sub((1 << B) - 1, x))): out.append((s2, bits - B))
            return out
        r = intern(('bitlen', x), 0, 1 << 62)
        I.setb(st, r, lo.bit_length(), min(hi.bit_length(), bits))
        return [(st, sub(bits, r))]
    r = intern(('ctlz', x, bits), 0, bits)
    if is_int(x):
        lo, hi = st.bounds(x)
        if lo >= 0: I.setb(st, r, bits - hi.bit_length(), bits - lo.bit_length())
    return [(st, r)]
M['@ctlz'] = clz_model; M['@ctlz_nonzero'] = clz_model
@intr('ctpop')
def _ctpop(I, st, inst, f, a):
    bits, t = bitsof(I, f)
    c = st.cst(a[0]) if is_int(a[0]) else None
    if c is not None: return [(st, bin(c & ((1 << bits) - 1)).count('1'))]
    return [(st, intern(('ctpop', a[0], bits), 0, bits))]
@intr('bswap')
def _bswap(I, st, inst, f, a):
    bits, t = bitsof(I, f)
    lo, hi = I.trange(t)
    c = st.cst(a[0])
    if c is not None: return [(st, int.from_bytes((c & hi).to_bytes(bits // 8, 'little'), 'big'))]
    if I.exact and is_int(a[0]) and st.bounds(a[0])[0] >= 0:
        r = 0; x = a[0]
        for i in range(bits // 8):
            r = add(r, scale(byte_of(I, st, x, i), 1 << (bits - 8 - 8 * i)))
        return [(st, r)]
    return [(st, intern(('bswap', a[0], bits), lo, hi))]
def byte_of(I, st, x, i):
    h = I.lowhigh(st, x, 8 * i)[1]
    return I.lowhigh(st, h, 8)[0]
@intr('saturating_add')
def _sadd(I, st, inst, f, a):
    t = I.p.tyname.get(tname_arg(f)); lo, hi = I.trange(t)
    return sat(I, st, add(a[0], a[1]), lo, hi)
@intr('saturating_sub')
def _ssub(I, st, inst, f, a):
    t = I.p.tyname.get(tname_arg(f)); lo, hi = I.trange(t)
    return sat(I, st, sub(a[0], a[1]), lo, hi)
def sat(I, st, r, lo, hi):
    outs = []
    s1 = st.copy()
    if s1.assume(c_ge(sub(r, lo))) and s1.assume(c_ge(sub(hi, r))): outs.append((s1, r))
    s2 = st.copy()
    if s2.assume(c_ge(sub(r, hi + 1))): outs.append((s2, hi))
    s3 = st
    if s3.assume(c_ge(sub(lo - 1, r))): outs.append((s3, lo))
    return outs
def _ovf(op):
    def m(I, st, inst, f, a):
        t = I.p.tyname.get(tname_arg(f))
        if I.lazyov:
            return [(st, I.lazy_ov(st, op, a[0], a[1], t))]
        return [(st, I.binop(st, op, a[0], a[1], t, t, True))]
    return m
M['@add_with_overflow'] = _ovf('Add'); M['@sub_with_overflow'] = _ovf('Sub'); M['@mul_with_overflow'] = _ovf('Mul')
def _wrap(op):
    def m(I, st, inst, f, a):
        t = I.p.tyname.get(tname_arg(f))
        return [(st, I.binop(st, op, a[0], a[1], t, t))]
    return m
for o, n in (('Add', 'wrapping_add'), ('Sub', 'wrapping_sub'), ('Mul', 'wrapping_mul'), ('AddUnchecked', 'unchecked_add'), ('SubUnchecked', 'unchecked_sub'), ('MulUnchecked', 'unchecked_mul'),
             ('Div', 'unchecked_div'), ('Rem', 'unchecked_rem'), ('Div', 'exact_div'), ('Shl', 'unchecked_shl'), ('Shr', 'unchecked_shr')): M['@' + n] = _wrap(o)
@intr('rotate_right')
def _ror(I, st, inst, f, a):
    t = I.p.tyname.get(tname_arg(f)); lo, hi = I.trange(t)
    n = st.cst(a[1])
    if I.exact and n is not None and lo == 0:
        bits = hi.bit_length(); n = n % bits
        if n == 0: return [(st, a[0])]
        l, h = I.lowhigh(st, a[0], n)
        return [(st, add(h, scale(l, 1 << (bits - n))))]
    return [(st, intern(('ror', a[0], a[1], hi), lo, hi))]
@intr('rotate_left')
def _rol(I, st, inst, f, a):
    t = I.p.tyname.get(tname_arg(f)); lo, hi = I.trange(t)
    n = st.cst(a[1])
    if I.exact and n is not None and lo == 0:
        bits = hi.bit_length(); n = (bits - n) % bits
        if n == 0: return [(st, a[0])]
        l, h = I.lowhigh(st, a[0], n)
        return [(st, add(h, scale(l, 1 << (bits - n))))]
    return [(st, intern(('rol', a[0], a[1], hi), lo, hi))]
def _pofs(I, st, inst, f, a):
    x, y = a
    while type(x) is tuple and x[0] == 'A' and len(x[1]) == 1: x = x[1][0]
    while type(y) is tuple and y[0] == 'A' and len(y[1]) == 1: y = y[1][0]
    if type(x) is tuple and x[0] == 'P' and type(y) is tuple and y[0] == 'P' and x[1] == y[1]:
        px, ix = I.pidx_of(x); py, iy = I.pidx_of(y)
        if px == py: return [(st, sub(ix, iy))]
    if type(x) is int and type(y) is int: return [(st, 0)]
    return [(st, fresh(0, VLEN_MAX, 'ptrdiff'))]
M['@ptr_offset_from_unsigned'] = _pofs; M['@ptr_offset_from'] = _pofs
@intr('copy')
def _copy(I, st, inst, f, a):
    I.memcopy(st, a[0], a[1], a[2]); return [(st, UNIT)]
M['@copy_nonoverlapping'] = _copy
M['std::ptr::copy_nonoverlapping'] = _copy; M['std::intrinsics::copy_nonoverlapping'] = _copy
@intr('write_bytes')
def _wb(I, st, inst, f, a):
    p, v, n = a
    if type(p) is tuple and p[0] == 'P':
        bp, i = I.pidx_of(p)
        s = I.load(st, p[1], bp)
        if type(s) is tuple and s[0] == 'S' and type(p[1]) is not tuple:
            c = st.cst(n) if is_int(n) else None
            if v == 0 and c is not None and c <= 64 and s[5] is not None and I.T[s[5]]['k'] == 'int':
                for j in range(c): I.store(st, p[1], I.pstep(p, j)[2], 0)
                return [(st, UNIT)]
            if v == 0:
                summ = s[2]
                if summ is None or summ[0] == 'N': summ = ('R', 0, 0)
                elif summ[0] == 'R': summ = ('R', min(0, summ[1]), max(0, summ[2]))
                else: summ = None
            else: summ = I.top_summ(s[5])
            I.rawstore(st, p[1], bp, ('S', {}, summ, None, I.newver(), s[5]))
    return [(st, UNIT)]
def cmp_exact(I, st, x, y, n):
    """memcmp of element sequences of known length: equal, or first difference at a known element"""
    c = st.cst(n) if is_int(n) else None
    if c is None: return None
    out = []; els = []; ss = []
    for p in (x, y):
        while type(p) is tuple and p[0] == 'A' and len(p[1]) == 1: p = p[1][0]
        if c == 0: return [(st, 0)]
        if type(p) is not tuple or p[0] != 'P': return None
        sq, i = I.pidx_of(p)
        S = I.load(st, p[1], sq)
        if not (type(S) is tuple and S[0] == 'S'): return None
        ss.append((p, sq, i, S))
    et = next((z[3][5] for z in ss if z[3][5] is not None), None)
    if et is None or I.T[et]['k'] != 'int': return None
    sz = I.T[et].get('size') or 0
    if sz == 0 or c % sz: return None
    for p, sq, i, S in ss:
        els.append([I.seqload(st, p[1], sq, S, add(i, j)) for j in range(c // sz)])
    if len(els[0]) != len(els[1]) or not all(is_int(v) for e in els for v in e): return None
    bytewise = sz == 1
    for u, v in zip(*els):
        d = sub(u, v)
        for cond, r in ((c_ge(sub(-1, d)), -1), (c_ge(sub(d, 1)), 1)):
            s2 = st.copy()
            if s2.assume(cond):
                out.append((s2, r if bytewise else fresh(-1, 1, 'memcmp')))
                if not bytewise and not s2.assume(c_ne(out[-1][1])): out.pop()
        if not st.assume(c_eq(d)): return out
    out.append((st, 0))
    return out
@intr('compare_bytes')
def _cmpb(I, st, inst, f, a):
    x, y, n = a
    if x == y: return [(st, 0)]
    if I.exact:
        r = cmp_exact(I, st, x, y, n)
        if r is not None: return r
    return [(st, intern(('memcmp', I.newver()), -(1 << 31), (1 << 31) - 1))]
@intr('typed_swap_nonoverlapping')
def _swap(I, st, inst, f, a):
    x, y = a
    if not all(type(v) is tuple and v[0] == 'P' for v in a):
        st.flag('swap'); return [(st, UNIT)]
    u = I.load(st, x[1], x[2]); v = I.load(st, y[1], y[2])
    I.store(st, x[1], x[2], v); I.store(st, y[1], y[2], u)
    return [(st, UNIT)]
M['std::mem::swap'] = _swap
@intr('size_of_val')
def _sov(I, st, inst, f, a):
    return [(st, fresh(0, VLEN_MAX, 'size'))]
@intr('fabs')
def _fabs(I, st, inst, f, a):
    n = 4 if 'f32' in f['name'] else 8
    x = I.fsplit(st, a[0], n) if a[0][0] == 'D' else None
    if x is not None: return [(st, ('D', ('c', x[1], n) if type(x[1]) is int else ('bits', x[1])))]
    return [(st, ('D', intern(('fabs', a[0]), NEG, POS)))]
M['@fabsf64'] = _fabs; M['@fabsf32'] = _fabs
@intr('copysignf64')
def _cps(I, st, inst, f, a):
    n = 4 if 'f32' in f['name'] else 8
    x, y = I.fsplit(st, a[0], n), I.fsplit(st, a[1], n)
    if x is not None and y is not None:
        v = add(x[1], (1 << (8 * n - 1)) * y[0])
        return [(st, ('D', ('c', v, n) if type(v) is int else ('bits', v)))]
    return [(st, ('D', intern(('copysign', a[0], a[1]), NEG, POS)))]
def _imm(mx):
    def m(I, st, inst, f, a):
        x, y = a
        if not (is_int(x) and is_int(y)): return [(st, ('?',))]
        d = sub(x, y)
        lo, hi = st.bounds(d)
        if lo >= 0: return [(st, x if mx else y)]
        if hi <= 0: return [(st, y if mx else x)]
        out = []
        s2 = st.copy()
        if st.assume(c_ge(d)): out.append((st, x if mx else y))
        if s2.assume(c_ge(sub(-1, d))): out.append((s2, y if mx else x))
        return out
    return m
M['@integer_max'] = _imm(True); M['@integer_min'] = _imm(False)

# vector intrinsics: values opaque
def _simd(I, st, inst, f, a): return [(st, ('?',))]
for n in ('simd_and', 'simd_mul', 'simd_shr', 'simd_splat', 'simd_add', 'simd_sub', 'simd_or', 'simd_xor', 'simd_shl', 'simd_shuffle', 'simd_extract', 'simd_insert', 'simd_cast'): M['@' + n] = _simd
@intr('simd_masked_store')
def _sms(I, st, inst, f, a):
    p = a[1]
    if type(p) is tuple and p[0] == 'P': I.clob_seq(st, p)
    else: st.flag('masked store')
    return [(st, UNIT)]

def addcarry(bits):
    def m(I, st, inst, f, a):
        c, x, y = a
        hi = (1 << bits) - 1
        if I.exact:
            out = []
            for s, cv in carry_cases(I, st, c):
                l, h = I.lowhigh(s, add(add(x, y), cv), bits)
                out.append((s, ('A', (h, l))))
            return out
        s1 = st.copy()
        # carry-in is any non-zero byte
        outs = []
        for s, cv in carry_cases(I, st, c):
            r = add(add(x, y), cv)
            t1 = s.copy()
            if t1.assume(c_ge(sub(hi, r))): outs.append((t1, ('A', (0, r))))
            if s.assume(c_ge(sub(r, hi + 1))): outs.append((s, ('A', (1, sub(r, hi + 1)))))
        return outs
    return m
def carry_cases(I, st, c):
    lo, hi = st.bounds(c)
    if lo >= 0 and hi <= 1: return [(st, c)]
    s2 = st.copy(); out = []
    if st.assume(c_eq(c)): out.append((st, 0))
    if s2.assume(c_ne(c)): out.append((s2, 1))
    return out
def subborrow(bits):
    def m(I, st, inst, f, a):
        c, x, y = a
        n = 1 << bits
        if I.exact:
            out = []
            for s, cv in carry_cases(I, st, c):
                l, h = I.lowhigh(s, sub(sub(x, y), cv), bits)
                out.append((s, ('A', (neg(h), l))))
            return out
        outs = []
        for s, cv in carry_cases(I, st, c):
            r = sub(sub(x, y), cv)
            t1 = s.copy()
            if t1.assume(c_ge(r)): outs.append((t1, ('A', (0, r))))
            if s.assume(c_ge(sub(-1, r))): outs.append((s, ('A', (1, add(r, n)))))
        return outs
    return m
M['core::core_arch::x86::adx::llvm_addcarry_u32'] = addcarry(32)
M['core::core_arch::x86_64::adx::llvm_addcarry_u64'] = addcarry(64)
M['core::core_arch::x86::adx::llvm_subborrow_u32'] = subborrow(32)
M['core::core_arch::x86_64::adx::llvm_subborrow_u64'] = subborrow(64)
def rdr(bits):
    def m(I, st, inst, f, a):
        if getattr(I, 'hwtrace', False):      # every hardware read is an input of its own, in order
            ok = fresh_in(0, 1, 'hwok'); v = fresh_in(0, (1 << bits) - 1, 'hw%d' % len(st.ev))
            st.ev = st.ev + ((f['def'].split('::')[-1], v, ok),)
            return [(st, ('A', (v, ok)))]
        ok = fresh(0, 1, 'hwok')
        st.ev = st.ev + (('hw', f['def'].split('::')[-1]),) if len(st.ev) < 8 else st.ev
        v = fresh(0, (1 << bits) - 1, 'hw')
        return [(st, ('A', (v, ok)))]
    return m
M['core::core_arch::x86::rdrand::x86_rdseed32_step'] = rdr(32)
M['core::core_arch::x86_64::rdrand::x86_rdseed64_step'] = rdr(64)
M['core::core_arch::x86::rdrand::x86_rdrand32_step'] = rdr(32)
M['core::core_arch::x86_64::rdrand::x86_rdrand64_step'] = rdr(64)

# 256-bit vectors of four 64-bit lanes (only interpreted in exact mode)
def v4(v): return type(v) is tuple and v and v[0] == 'V'
def _u32(I, st, x): return I.lowhigh(st, x, 32)[0]
def _lanes(I, st, xs):
    return ('V', tuple(add(_u32(I, st, xs[2 * i]), scale(_u32(I, st, xs[2 * i + 1]), 1 << 32)) for i in range(4)))
def vec(name):
    def d(fn):
        def m(I, st, inst, f, a):
            if not I.exact: return I.run_fn(st, inst, a)
            return fn(I, st, inst, f, a)
        M['std::arch::x86_64::' + name] = m
        return m
    return d
@vec('_mm256_set1_epi32')
def _set1(I, st, inst, f, a):
    if not is_int(a[0]): return [(st, ('?',))]
    return [(st, _lanes(I, st, [a[0]] * 8))]
@vec('_mm256_setr_epi32')
def _setr(I, st, inst, f, a):
    if not all(is_int(x) for x in a): return [(st, ('?',))]
    return [(st, _lanes(I, st, list(a)))]
@vec('_mm256_mul_epu32')
def _mulepu(I, st, inst, f, a):
    if not (v4(a[0]) and v4(a[1])): return [(st, ('?',))]
    return [(st, ('V', tuple(I.mul(st, _u32(I, st, x), _u32(I, st, y)) for x, y in zip(a[0][1], a[1][1]))))]
@vec('_mm256_maskstore_epi64')
def _mstore(I, st, inst, f, a):
    p, m, v = a
    if not (v4(m) and v4(v)) or type(p) is not tuple or p[0] != 'P':
        st.flag('masked store'); return I.run_fn(st, inst, a)
    for i in range(4):
        top = st.cst(I.lowhigh(st, m[1][i], 63)[1])
        if top is None: st.flag('masked store'); return I.run_fn(st, inst, a)
        if top == 0: continue
        pp = p[2]
        if pp and type(pp[-1]) is tuple and pp[-1][0] == 'i': q = pp[:-1] + (('i', add(pp[-1][1], i)),)
        else: q = pp + (('i', i),)
        I.store(st, p[1], q, v[1][i])
    return [(st, UNIT)]
