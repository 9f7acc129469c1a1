"""Signed integers at digit level: comparisons, conversions, sign predicates, bit tests (all digit values)."""
from lib import *
import lib, contracts as C, inputs as X
from c_nat import check_nat, dec, dec_eq, dead as _dead
from c_natq import *
import c_natq
B = BIGP
QLIM = 25

def bcls(s, n): return ('big', (s, L(n)))
ALLB = [('big', 'nan'), ('big', 'zero')] + [bcls(s, n) for n in (1, 2) for s in '+-']

def bstart(path, shapes):
    """start, with the magnitude of negative operands non-zero"""
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    return I, st, f, infos, homes, outs, acc

def big_parts(I, st, v):
    t = I.p.tyname[B]
    fs = [fn for fn, _ in I.T[t]['variants'][0]['fields']]
    if v[0] == 'T': v = I.materialize(st, v[1])
    return v[1][fs.index('nat')], v[1][fs.index('sign')]

def check_big(I, st, v, exps, acc):
    """exps: 'nan' or [signed terms]; also no negative zero"""
    n, sg = big_parts(I, st, v)
    for s0, k in tag_states(I, st, sg, 2) or [(None, None)]:
        if s0 is None: acc.und('sign unknown'); return
        negs = k == X.sign_idx(I, 'Negative')
        for s, rc in split_read(rc_of, I, s0, n):
            if exps == 'nan':
                for what, z, d in check_nat(I, s, rc, 'nan'): acc.put(what, z, d)
                if negs: acc.put('sign', 'undecided' if s.imp or _dead(I, s) else 'violated', 'a NaN with a negative sign')
                continue
            e = [neg(x) if negs else x for x in exps]
            for what, z, d in check_nat(I, s, rc, e): acc.put(what, z, d)
            if negs:
                for s2, (c, ls) in split_read(c_natq.vec_limbs, I, s, rc):
                    if c is None or not all(is_int(x) for x in ls): acc.und('digits unknown'); continue
                    if c: acc.put('sign', *dec(I, s2, c_ge(sub(c_nat.mathv(ls), 1))))

def infos_of(i):
    if i.get('kind') == 'big': return i['val'], i['nat']
    return i['val'], i

def run_bconv(path, shapes, kind):
    I, st, f, infos, homes, outs, acc = bstart(path, shapes)
    i = infos[0]
    if kind in ('int', 'id', 'keep'): exp = 'nan' if i['val'] == 'nan' else [i['val']]
    elif kind in ('setneg', 'setnat', 'abs', 'neg'):
        v = i['val']
        if v == 'nan': exp = 'nan'
        else:
            negs = shapes[0][1] != 'zero' and shapes[0][1][0] == '-'
            m = neg(v) if negs else v
            exp = [neg(m) if kind == 'setneg' else neg(v) if kind == 'neg' else m]
    else:
        w = 8 if kind in ('le8', 'be8') else 32
        exp = [expect_of_seq(i['limbs'], w, kind == 'be8')] if i['limbs'] else 'nan'
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        v = o.val if kind not in ('setneg', 'setnat') else o.st.mem.get(homes[0])
        check_big(I, o.st, v, exp, acc)
    return acc

def run_pred(path, shapes, q):
    """sign predicates"""
    I, st, f, infos, homes, outs, acc = bstart(path, shapes)
    v = infos[0]['val']
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        s, x = o.st, o.val
        if q == 'sgn':
            ts = tag_states(I, s, x, 2)
            if ts is None: acc.und('unknown'); continue
            for s2, t in ts:
                if v == 'nan' or t == 0:
                    acc.put('', 'proved' if (v == 'nan') == (t == 0) else 'undecided' if s2.imp or _dead(I, s2) else 'violated', 'answers %s' % ('None' if t == 0 else 'Some'))
                    continue
                r = x[2][1][0]
                if not is_int(r): acc.und('unknown'); continue
                for k in (-1, 0, 1):
                    s3 = s2.copy()
                    if not s3.assume(c_eq(sub(r, k))): continue
                    acc.put('', *(dec_lt(I, s3, v, 0) if k < 0 else dec_eq(I, s3, v, 0) if k == 0 else dec_lt(I, s3, 0, v)))
                acc.put('range', *dec(I, s2, c_ge(add(r, 1)))); acc.put('range', *dec(I, s2, c_ge(sub(1, r))))
            continue
        if not (x is True or x is False or type(x) is tuple and x[0] == 'C'): acc.und('unknown'); continue
        for b_ in (True, False):
            for s2 in branches(I, s.copy(), x, b_):
                if v == 'nan' or q == 'nan':
                    ok = b_ == (v == 'nan' if q == 'nan' else False)
                    acc.put('', 'proved' if ok else 'undecided' if s2.imp or _dead(I, s2) else 'violated', 'answers %s' % b_)
                elif q == 'neg': acc.put('', *(dec_lt(I, s2, v, 0) if b_ else dec_le(I, s2, 0, v)))
                elif q == 'pos': acc.put('', *(dec_lt(I, s2, 0, v) if b_ else dec_le(I, s2, v, 0)))
                elif q == 'natural': acc.put('', *(dec_le(I, s2, 0, v) if b_ else dec_lt(I, s2, v, 0)))
    return acc

def run_bbit(path, shapes):
    """is_set_bit: bit k of the infinite two's complement representation; None at or beyond the bit length of |x|"""
    negs = shapes[0][1][0] == '-'
    if not negs: return bbit(path, shapes, None)
    out = []       # one run per position of the lowest non-zero digit (the borrow chain of m - 1)
    for z in range(shapes[0][1][1][1]): out += bbit(path, shapes, z)
    return out
def bbit(path, shapes, z):
    def pre(I, st, infos):
        if z is None: return
        ls = c_nat.lin_limbs(neg(infos[0]['val']), shapes[0][1][1][1])
        for x in ls[:z]: st.assume(c_eq(x))
        st.assume(c_ge(sub(ls[z], 1)))
    I, st, f, infos, homes, outs, acc = start(path, shapes, pre=pre)
    I.poly = True
    v = infos[0]['val']; k = shapes[1]
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        s, x = o.st, o.val
        ts = tag_states(I, s, x, 2)
        if ts is None: acc.und('unknown'); continue
        for s2, t in ts:
            if v == 'nan':
                acc.put('', 'proved' if t == 0 else 'violated', 'bit of NaN'); continue
            m = v if shapes[0][1] == 'zero' or shapes[0][1][0] == '+' else neg(v)
            if t == 0:
                acc.put('none', *dec(I, s2, c_ge(sub((1 << max(k, 0)) - 1, m))) if k else ('undecided' if s2.imp or _dead(I, s2) else 'violated', 'None for bit 0'))
                continue
            if not (type(m) is int and m == 0): acc.put('some', *dec(I, s2, c_ge(sub(m, 1 << k))) if k else ('proved', ''))
            r = x[2][1][0]
            if not (type(r) is bool or type(r) is tuple): acc.und('bit unknown'); continue
            for b_ in (True, False):
                for s3 in branches(I, s2.copy(), r, b_):
                    if _dead(I, s3): acc.put('', 'proved', 'unreachable'); continue
                    negs = shapes[0][1] != 'zero' and shapes[0][1][0] == '-'
                    m4 = c_nat.subst_consts(s3, sub(m, 1)) if z is not None else m     # -m == !(m - 1)
                    bit = I.lowhigh(s3, I.lowhigh(s3, m4, k)[1], 1)[0]
                    if z is not None: bit = sub(1, bit)
                    acc.put('', *dec_eq(I, s3, bit, int(b_)))
    return acc

SINTS = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize')
def specs(which):
    out = []
    th = lib.TIER == 'thorough'
    if which == 'cmp':
        B3 = ALLB + [bcls(s, 3) for s in '+-'] + ([bcls(s, n) for n in (4, 6) for s in '+-'] if th else [])
        for m, tr in (('eq', 'PartialEq'), ('partial_cmp', 'PartialOrd')):
            p = '<%s as std::cmp::%s>::%s' % (B, tr, m)
            for c in B3:
                for d in B3: out.append(('cmp', p, (c, d)))
        for c in B3: out.append(('cmp', '<%s as std::cmp::PartialEq<u32>>::eq' % B, (c, 'int')))
    if which == 'conv':
        for t in INTS + SINTS: out.append(('conv', '<%s as std::convert::From<%s>>::from' % (B, t), ('int',), 'int'))
        for c in (L(1), L(2), L(3), 'zero', 'nan'): out.append(('conv', '<%s as std::convert::From<%s>>::from' % (B, N), (c,), 'id'))
        V = 'std::vec::Vec'
        for n in (0, 1, 2, 3) + ((6, 9) if th else ()):
            for t in ('&[u32]', V + '<u32>', '&' + V + '<u32>'):
                out.append(('conv', '<%s as std::convert::From<%s>>::from' % (B, t), (('seq', n),), 'w32'))
        for n in (0, 1, 3, 4, 5, 8, 9) + ((16, 17, 21) if th else ()):
            for t in ('&[u8]', V + '<u8>', '&' + V + '<u8>'):
                out.append(('conv', '<%s as std::convert::From<%s>>::from' % (B, t), (('seq', n),), 'le8'))
            out.append(('conv', B + '::from_le_bytes', (('seq', n),), 'le8'))
            out.append(('conv', B + '::from_be_bytes', (('seq', n),), 'be8'))
    if which == 'query':
        for c in ALLB:
            for m, q in (('signnum', 'sgn'), ('is_negative', 'neg'), ('is_positive', 'pos'), ('is_natural', 'natural'), ('is_nan', 'nan')):
                out.append(('pred', '%s::%s' % (B, m), (c,), q))
            out.append(('conv', B + '::set_negative', (c,), 'setneg')); out.append(('conv', B + '::set_natural', (c,), 'setnat'))
            out.append(('conv', B + '::abs', (c,), 'abs')); out.append(('conv', '<%s as std::ops::Neg>::neg' % B, (c,), 'neg'))
            out.append(('conv', B + '::deep_clone', (c,), 'id'))
    if which == 'bits':
        for c in ALLB + [bcls('-', 3)]:
            for k in (0, 1, 5, 31, 32, 33, 63, 64, 70): out.append(('bbit', B + '::is_set_bit', (c, k)))
    return out

def run_bcmp(path, shapes): return run_cmp(path, shapes)
RUN = {'cmp': run_bcmp, 'conv': run_bconv, 'pred': run_pred, 'bbit': run_bbit}
def job(spec): return list(RUN[spec[0]](*spec[1:]))
