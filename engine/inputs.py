"""Partitioned abstract inputs for the number types."""
from dom import *
from interp import *
import contracts as C
from contracts import W

def pin(I, st, objs):
    for o in objs: I.pinned.add(o)

def nat_obj(I, st, cls, name='n', val=None):
    """a Nat value whose storage is an input (version 0, pinned). Returns (value, info)"""
    s = C.shape(I)
    if cls == 'nan': v = 'nan'; ln = 0; cells = {}
    elif cls == 'zero': v = 0; ln = 1; cells = {0: 0}
    elif cls == 'one': v = 1; ln = 1; cells = {0: 1}
    elif cls == 'small': v = fresh_in(1, W - 1, name); ln = 1; cells = {0: v}
    elif cls == 'digit': v = fresh_in(2, W - 1, name); ln = 1; cells = {0: v}
    elif cls == 'big':
        ln = fresh_in(2, VLEN_MAX, name + '.len'); v = fresh_in(W, POS, name); cells = {sub(ln, 1): fresh_in(1, W - 1, name + '.top')}
    elif cls == 'pos':
        v = fresh_in(1, POS, name); ln = C.nlen(I, st, v); cells = {}
    elif cls == 'any':
        v = fresh_in(0, POS, name); ln = C.nlen(I, st, v); cells = {}
    elif cls == 'val':
        v = val; ln = C.nlen(I, st, v); cells = {i: v >> 32 * i & W - 1 for i in range(ln)} if type(v) is int and type(ln) is int else {0: v} if ln == 1 else {}
    elif cls[0] == 'cells':          # given digit terms, least significant first
        ln = len(cls[1]); cells = dict(enumerate(cls[1])); v = 0
        for i in range(ln): v = add(v, scale(cells[i], 1 << (32 * i)))
    elif cls[0] == 'limbs':
        n = cls[1]; ln = n; cells = {i: fresh_in(0, W - 1, '%s%d' % (name, i)) for i in range(n - 1)}
        cells[n - 1] = fresh_in(1 if n > 1 else 0, W - 1, '%s%d' % (name, n - 1))
        v = 0
        for i in range(n): v = add(v, scale(cells[i], 1 << (32 * i)))
    else: raise KeyError(cls)
    S = ('S', cells, ('R', 0, W - 1), None if v == 'nan' else ('N', v, ln), 0, s.elem)
    bo = I.newobj(st, S, name + '.buf', s.elem)
    cap = fresh(1, VLEN_MAX, 'cap')
    st.assume(c_ge(sub(cap, ln)))
    vec = I.mkvec(s.vec, ('P', bo, (('i', 0),), None), cap, ln)
    def build(t, path):
        if not path: return vec
        fs = I.field_tys(t)
        return ('A', tuple(build(f, path[1:]) if i == path[0] else I.havoc(st, f) for i, f in enumerate(fs)))
    o = I.newobj(st, build(s.box, s.vpath), name, s.box)
    I.pinned.add(o); I.pinned.add(bo)
    info = {'kind': 'nat', 'rc': o, 'buf': bo, 'len': ln, 'val': v, 'name': name, 'cls': cls}
    I.inputs.append(info)
    return I.build(st, s.nat, s.path, ('P', o, (), None)), info

NEGV, NATV = 0, 1
def big_obj(I, st, cls, name='b'):
    """cls: 'nan' | 'zero' | ('+', natcls) | ('-', natcls)"""
    t = I.p.tyname['bigint::bigint::BigInt']
    if cls == 'nan': n, info = nat_obj(I, st, 'nan', name); sg = sign_idx(I, 'Natural'); v = 'nan'
    elif cls == 'zero': n, info = nat_obj(I, st, 'zero', name); sg = sign_idx(I, 'Natural'); v = 0
    else:
        n, info = nat_obj(I, st, cls[1], name)
        v = info['val'] if cls[0] == '+' else neg(info['val'])
        sg = sign_idx(I, 'Natural' if cls[0] == '+' else 'Negative')
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    sv = ('E', sg, ((), ()))
    out = ('A', tuple(n if x == 'nat' else sv for x in fs))
    return out, {'kind': 'big', 'nat': info, 'val': v, 'cls': cls}

def sign_ty(I):
    t = I.p.tyname['bigint::bigint::BigInt']
    for n, ft in I.T[t]['variants'][0]['fields']:
        if n == 'sign': return ft
def sign_idx(I, name):
    t = sign_ty(I)
    return [v['name'] for v in I.T[t]['variants']].index(name)

def read_nat(I, st, v):
    """('nan'|Lin, rc object) of a by-value Nat"""
    p = C.nat_of_value(I, st, v)
    loc = C.nat_loc(I, st, p)
    return C.nat_val(I, st, loc), loc[0]

def read_big(I, st, v):
    t = I.p.tyname['bigint::bigint::BigInt']
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    if v[0] == 'T': v = I.materialize(st, v[1])
    n = v[1][fs.index('nat')]; sg = v[1][fs.index('sign')]
    m, rc = read_nat(I, st, n)
    s = sg[1] if type(sg) is tuple and sg[0] == 'E' else None
    return m, s, rc

def _adt(I, name, **kw):
    t = I.p.tyname[name]
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    return ('A', tuple(kw[f] for f in fs))

def rat_obj(I, st, cls, name='r', canon=False):
    """cls nan|zero|'+'|'-': numerator of that sign over a positive denominator"""
    if cls == 'nan': a, ia = big_obj(I, st, 'nan', name + '.n')
    elif cls == 'zero': a, ia = big_obj(I, st, 'zero', name + '.n')
    else: a, ia = big_obj(I, st, (cls[0], 'pos'), name + '.n')
    b, ib = big_obj(I, st, 'nan' if cls == 'nan' else ('+', 'one') if cls == 'zero' else ('+', 'pos'), name + '.d')
    return _adt(I, 'bigint::rat::Rat', a=a, b=b), {'kind': 'rat', 'num': ia, 'den': ib, 'cls': cls}

def variant(I, t, name):
    return [v['name'] for v in I.T[t]['variants']].index(name)
def enum(I, t, name=None, st=None):
    """a variant of a field-less enum, or an arbitrary one"""
    n = len(I.T[t]['variants'])
    tag = variant(I, t, name) if name is not None else fresh_in(0, n - 1, 'tag')
    return ('E', tag, ((),) * n)

def float_obj(I, st, cls, name='f', neg=None, mode=None, prec=None, acc=None):
    """cls nan|zero|inf|fin"""
    t = I.p.tyname['bigint::float::Float']
    ft = dict((n, x) for n, x in I.T[t]['variants'][0]['fields'])
    mant, im = nat_obj(I, st, 'pos' if cls == 'fin' else 'zero', name + '.m')
    form = {'nan': 'Nan', 'zero': 'Zero', 'inf': 'Inf', 'fin': 'Finite'}[cls]
    p = prec if prec is not None else fresh_in(1, (1 << 32) - 1, name + '.prec')
    e = fresh_in(-(1 << 31), (1 << 31) - 1, name + '.exp') if cls == 'fin' else 0
    n = enum(I, ft['neg'], neg)
    m = enum(I, ft['mode'], mode); ac = enum(I, ft['acc'], acc)
    v = _adt(I, 'bigint::float::Float', mode=m, acc=ac, form=enum(I, ft['form'], form), neg=n, prec=p, exp=e, mant=mant)
    return v, {'kind': 'float', 'mant': im, 'prec': p, 'exp': e, 'neg': n, 'mode': m, 'acc': ac, 'cls': cls}
