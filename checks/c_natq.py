"""Comparisons, conversions and queries of Nat (and BigInt where noted) at digit level, all digit values."""
from lib import *
import lib, contracts as C, inputs as X
from c_nat import *
from c_nat import dead as _dead
import c_nat
from c_big import mkarg
QLIM = 25
BIGP = 'bigint::bigint::BigInt'

# ---------------------------------------------------------------- decisions
def branches(I, st, c, want=True):
    """states in which condition c has the given truth value (disjunctions are split)"""
    if c is True or c is False: return [st] if c is want else []
    k = c[1]
    if k in ('and', 'or'):
        both_ = (k == 'and') == want
        if both_:
            return [s2 for s in branches(I, st, c[2], want) for s2 in branches(I, s, c[3], want)]
        out = branches(I, st.copy(), c[2], want)
        for s in branches(I, st.copy(), c[2], not want): out += branches(I, s, c[3], want)
        return out
    s = st.copy()
    if want: ok = s.assume(c)
    else: ok = s.assume(c_not(c))
    return [s] if ok else []

@retry
def dec_ne(I, st, x):
    """x != 0"""
    R = Red(I, st, (x,) if type(x) is not int else ())
    lo, hi = R.bounds(x)
    if lo > 0 or hi < 0: return 'proved', None
    if R.dead(): return 'proved', 'unreachable'
    # modulo a power of two: a low part that is smaller than the modulus and not zero
    y = R.red(x)
    if type(y) is tuple:
        for k in sorted({(c & -c).bit_length() - 1 for _, c in y[2]} - {0}):
            low = mk(y[1], {a: c for a, c in y[2] if c % (1 << k)})
            l, h = R.bounds(low)
            if -(1 << k) < l and h < (1 << k):
                if l > 0 or h < 0: return 'proved', None
                if type(low) is tuple and low != y and dec_ne(I, st, low)[0] == 'proved': return 'proved', None
    # the same with a machine word split at a digit boundary: a = low + 2^k * shr(a, k)
    if type(x) is tuple:
        for a, c in x[2]:
            for k, q in I.shrs.get(('L', 0, ((a, 1),)), {}).items():
                if k % 32 or type(q) is int: continue
                y = sub(x, scale(q, c << k))
                low = mk(y[1], {b: d for b, d in y[2] if d % (1 << k) or b in dict(q[2])})
                l, h = R.bounds(low)
                if -(1 << k) < l and h < (1 << k):
                    if l > 0 or h < 0: return 'proved', None
                    if type(low) is tuple and low != x:
                        s = st.copy()
                        if not (s.assume(c_eq(low)) and not Red(I, s, (low,)).dead()): return 'proved', None
                    # both halves agree only if the low and the high half agree
    # case split on the digits known to differ
    for key, vs in list(st.ne.items()):
        ok = True
        for v in sorted(vs)[:1]:
            y = ('L', -v, key)
            for c in (c_ge(sub(y, 1)), c_ge(sub(-1, y))):
                s = st.copy()
                if not s.assume(c): continue
                R2 = Red(I, s, (x,) if type(x) is not int else ())
                l, h = R2.bounds(x)
                if l > 0 or h < 0 or R2.dead(): continue
                ok = False
        if ok: return 'proved', None
    return settle_cond(I, st, c_ne(x), R)
def dec_le(I, st, x, y): return dec(I, st, c_ge(sub(y, x)))
def dec_lt(I, st, x, y): return dec(I, st, c_ge(sub(sub(y, x), 1)))

def tag_states(I, st, e, n):
    """(state, variant) for an enum value"""
    if not (type(e) is tuple and e and e[0] == 'E'): return None
    t = e[1]
    if type(t) is int: return [(st, t)]
    out = []
    if type(t) is tuple and t[0] == 'C':
        for b in (False, True):
            out += [(s, int(b)) for s in branches(I, st, t, b)]
        return out
    if not is_int(t): return None
    lo, hi = st.bounds(t)
    for k in range(max(lo, 0), min(hi, n - 1) + 1):
        s = st.copy()
        if s.assume(c_eq(sub(t, k))): out.append((s, k))
    return out

class Acc(list):
    def __init__(self, key): self.key = key; lib.PARTIAL.append(self)
    def put(self, what, z, d=None): self.append((self.key + ('|' + what if what else ''), z, d))
    def und(self, d): self.put('', 'undecided', d)

def setup(path, shapes, targs=None):
    r = root(path, targs); I = mkexact(); st = State(); f = lib.P.fns[r['inst']]
    args, infos, homes = mkargs2(I, st, f, shapes)
    return r, I, st, f, args, infos, homes

def byte_seq(I, st, n, ety, name):
    """a fresh buffer of n symbolic elements -> (object, cells)"""
    lo, hi = I.trange(ety)
    cells = {i: fresh_in(lo, hi, '%s%d' % (name, i)) for i in range(n)}
    o = I.newobj(st, ('S', cells, ('R', lo, hi), None, 0, ety), name + '.buf', ety); I.pinned.add(o)
    return o, [cells[i] for i in range(n)]

def mkargs2(I, st, f, shapes):
    """like c_nat.mkargs, plus slices and vectors ('seq', n), big integers ('big', sign, n) and ('top', n, bits)"""
    args, infos, homes = [], [], []
    for i, t in enumerate(f['locals'][1:1 + f['argc']]):
        c = shapes[i]; x = I.T[t]; name = 'abc'[i]
        u = x['elem'] if x['k'] == 'ref' else t
        ux = I.T[u]
        if type(c) is tuple and c[0] == 'seq':
            if ux['k'] == 'slice':
                o, cells = byte_seq(I, st, c[1], ux['elem'], name)
                args.append(('P', o, (('i', 0),), c[1])); homes.append(None)
            else:
                pp = M_paths(I, u)
                ety = next(lib.P.tyname[n] for n in ('u8', 'u32') if n in I.T[u]['name'])
                o, cells = byte_seq(I, st, c[1], ety, name)
                cap = fresh(max(1, c[1]), 1 << 40, 'cap')
                v = I.mkvec(u, ('P', o, (('i', 0),), None), cap, c[1])
                a, h = mkarg(I, st, t, v, name); args.append(a); homes.append(h)
            infos.append({'val': None, 'limbs': cells, 'cls': c})
        elif type(c) is tuple and c[0] == 'big':
            v, info = X.big_obj(I, st, c[1], name)
            if type(c[1]) is tuple and c[1][0] == "-": st.assume(c_ge(sub(neg(info["val"]), 1)))
            a, h = mkarg(I, st, t, v, name); args.append(a); homes.append(h)
            infos.append(dict(info))
        elif type(c) is tuple and c[0] == 'top':
            v, info = X.nat_obj(I, st, ('limbs', c[1]), name)
            info = dict(info); info['limbs'] = lin_limbs(info['val'], c[1])
            top = info['limbs'][-1]
            st.assume(c_ge(sub(top, (1 << (c[2] - 1))))); st.assume(c_ge(sub((1 << c[2]) - 1, top)))
            a, h = mkarg(I, st, t, v, name); args.append(a); homes.append(h); infos.append(info)
        elif c == 'int' and I.trange(u)[0] == 0 and I.trange(u)[1] >= 1 << 32:
            # a machine word of several digits is a sum of digits
            n = I.trange(u)[1].bit_length() // 32
            ds = [fresh_in(0, 0xffffffff, '%s%d' % (name, j)) for j in range(n)]
            v = 0
            for j, d in enumerate(ds): v = add(v, scale(d, 1 << (32 * j)))
            a, h = mkarg(I, st, t, v, name); args.append(a); homes.append(h)
            infos.append({'val': v, 'limbs': ds, 'cls': c})
        else:
            sub_f = {'locals': [f['locals'][0], t], 'argc': 1}
            a, inf, h = mkargs(I, st, sub_f, (c,))
            args += a; infos += inf; homes += h
            if inf and i == 1 and is_int(inf[0].get('val')): pass
    return args, infos, homes

def M_paths(I, u): return None

def shape_names(shapes):
    out = []
    for c in shapes:
        if type(c) is tuple and c[0] == 'limbs': out.append('%dlimbs' % c[1])
        elif type(c) is tuple: out.append('.'.join(map(str, c)))
        else: out.append(str(c))
    return ','.join(out)

def start(path, shapes, targs=None, pre=None):
    r, I, st, f, args, infos, homes = setup(path, shapes, targs)
    if pre: pre(I, st, infos)
    acc = Acc('%s|%s' % (path, shape_names(shapes)))
    try: outs = run(I, st, r, args)
    except Budget: acc.und('budget'); outs = []
    if not outs and not acc: acc.und('no outcome')
    return I, st, f, infos, homes, outs, acc

def panic_out(I, o, acc):
    if o.st.imp or _dead(I, o.st): acc.und('panic? ' + str(o.panic.where)); return
    w = witness(o.st, False, tries=1500)
    acc.put('', 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w))

# ---------------------------------------------------------------- comparisons
def run_cmp(path, shapes):
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    nan = any(i['val'] == 'nan' for i in infos)
    a, b = infos[0]['val'], infos[1]['val']
    meth = path.rsplit('::', 1)[-1]
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        if meth in ('partial_cmp',):
            ts = tag_states(I, o.st, o.val, 2)
            if ts is None: acc.und('result unknown'); continue
            for s, t in ts:
                if nan or t == 0:
                    if nan == (t == 0): acc.put('', 'proved')
                    elif _dead(I, s) or s.imp: acc.und('imprecise')
                    else: acc.put('', 'violated', 'compares %s with NaN operand=%s' % ('as unordered' if t == 0 else 'as ordered', nan))
                    continue
                e = o.val[2][1]
                e = e[0] if type(e) is tuple and e and e[0] != 'E' else e
                ts2 = tag_states(I, s, e, 3)
                if ts2 is None: acc.und('ordering unknown'); continue
                for s2, k in ts2:
                    z, w = (dec_lt(I, s2, a, b), dec_eq(I, s2, a, b), dec_lt(I, s2, b, a))[k]
                    acc.put('', z, 'answers %s, e.g. for %s' % (('Less', 'Equal', 'Greater')[k], w) if z == 'violated' else w)
            continue
        # bool results
        neg = meth == 'ne'
        if not (o.val is True or o.val is False or type(o.val) is tuple and o.val[0] == 'C'): acc.und('result unknown'); continue
        for b_ in (True, False):
            for s in branches(I, o.st.copy(), o.val, b_):
                if nan:
                    exp = meth == 'ne'
                    if b_ == exp: acc.put('', 'proved')
                    elif s.imp or _dead(I, s): acc.und('imprecise')
                    else: acc.put('', 'violated', '%s with a NaN operand answers %s' % (meth, b_))
                    continue
                if meth in ('eq', 'ne'):
                    z, w = dec_eq(I, s, a, b) if b_ != neg else dec_ne(I, s, sub(a, b))
                else:
                    lt = {'lt': (a, b, 1), 'le': (a, b, 0), 'gt': (b, a, 1), 'ge': (b, a, 0)}[meth]
                    x, y, strict = lt
                    if b_: z, w = (dec_lt if strict else dec_le)(I, s, x, y)
                    else: z, w = (dec_le if strict else dec_lt)(I, s, y, x)
                acc.put('', z, 'answers %s, e.g. for %s' % (b_, w) if z == 'violated' else w)
    return acc

# ---------------------------------------------------------------- construction
def int_limbs(v): return [v]
def expect_of_seq(cells, w, be=False):
    if be: cells = cells[::-1]
    r = 0
    for i, x in enumerate(cells): r = add(r, scale(x, 1 << (w * i)))
    return r
def run_from(path, shapes, kind):
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    i = infos[0]
    if kind == 'int': exp = [i['val']]
    elif kind == 'id': exp = [i['val']] if i['val'] != 'nan' else 'nan'
    else:
        w = 8 if kind in ('le8', 'be8') else 32
        exp = [expect_of_seq(i['limbs'], w, kind == 'be8')] if i['limbs'] else 'nan'
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        for s, rc in split_read(rc_of, I, o.st, o.val):
            for what, z, d in check_nat(I, s, rc, exp): acc.put(what, z, d)
    return acc

def vec_of(I, st, v, ety, tv):
    """elements of a Vec value"""
    o = I.newobj(st, v, 'res', tv)
    import models
    pp = models.paths_of(I, tv)
    return vec_read(I, st, o, pp['len'], pp['ptr'], ety)

def run_bytes(path, shapes, order):
    """to_le_bytes/to_be_bytes/copy_to_*: the bytes are the base-256 digits, no leading zero byte"""
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    v = infos[0]['val']; u8 = lib.P.tyname['u8']
    tv = lib.P.tyname['std::vec::Vec<u8>']
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        val = o.val if 'copy' not in path else o.st.mem.get(homes[1])
        for s, (n, bs) in split_read(vec_of, I, o.st, val, u8, tv):
            if n is None or not all(is_int(x) for x in bs): acc.und('bytes unknown'); continue
            if v == 'nan' or n == 0:
                if (v == 'nan') == (n == 0): acc.put('', 'proved')
                elif s.imp or _dead(I, s): acc.und('imprecise')
                else: acc.put('', 'violated', '%d bytes for %s' % (n, v if v == 'nan' else 'a number'))
                continue
            z, w = dec_eq(I, s, expect_of_seq(bs, 8, order == 'be'), v)
            acc.put('value', z, w)
            if n > 1:
                z, w = dec(I, s, c_ge(sub(bs[-1] if order == 'le' else bs[0], 1)))
                acc.put('minimal', z, w)
    return acc

# ---------------------------------------------------------------- queries
def run_query(path, shapes, q):
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    a = infos[0]; v = a['val']
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        s = o.st; x = o.val
        if q == 'bits':
            if not is_int(x): acc.und('unknown'); continue
            if v == 'nan': z, w = dec_eq(I, s, x, 0)
            else:
                top = a['limbs'][-1]; n = len(a['limbs'])
                for s2 in branches(I, s.copy(), c_ge(sub(top, 1))) or []:
                    acc.put('', *dec_eq(I, s2, x, add(32 * (n - 1), intern(('bitlen', top), 0, 1 << 62))))
                for s2 in branches(I, s.copy(), c_eq(top)) if n == 1 else []:
                    acc.put('zero', *dec_eq(I, s2, x, 1))
                continue
            acc.put('', z, w)
        elif q == 'tz':
            if not is_int(x): acc.und('unknown'); continue
            for s2, i in first_nonzero(I, s, a['limbs']):
                acc.put('', *dec_eq(I, s2, x, add(32 * i, intern(('cttz', a['limbs'][i], 32), 0, 32))))
        elif q == 'nan':
            for b_ in (True, False):
                for s2 in branches(I, s.copy(), x, b_):
                    acc.put('', 'proved' if b_ == (v == 'nan') else 'undecided' if s2.imp else 'violated', 'is_nan answers %s' % b_)
        elif q == 'bit':
            k = shapes[1]; ts = tag_states(I, s, x, 2)
            if ts is None: acc.und('unknown'); continue
            n = len(a['limbs'])
            for s2, t in ts:
                if v == 'nan':
                    acc.put('', 'proved' if t == 0 else 'violated', 'bit of NaN'); continue
                h = I.lowhigh(s2, a['limbs'][k >> 5], k & 31)[1] if k < 32 * n else 0
                if t == 0:      # None: bit index at or beyond the bit length (1 for zero)
                    if k >= 32 * n: acc.put('', 'proved')
                    elif k == 0: acc.put('', 'violated' if not s2.imp and not _dead(I, s2) else 'undecided', 'None for bit 0')
                    elif (k >> 5) < n - 1: acc.put('', 'proved' if _dead(I, s2) else 'undecided' if s2.imp else 'violated', 'None for a bit of a lower digit')
                    else: acc.put('', *dec_eq(I, s2, h, 0))
                    continue
                r = x[2][1]; r = r[0] if type(r) is tuple and r and r[0] != 'C' else r
                if not (type(r) is bool or type(r) is tuple): acc.und('bit unknown'); continue
                if k >= 32 * n: acc.put('', 'proved' if _dead(I, s2) else 'undecided' if s2.imp else 'violated', 'Some for a bit beyond the number'); continue
                bit = I.lowhigh(s2, h, 1)[0]
                for b_ in (True, False):
                    for s3 in branches(I, s2.copy(), r, b_):
                        acc.put('', *dec_eq(I, s3, bit, int(b_)))
    return acc

def first_nonzero(I, st, ls):
    out = []; s = st
    for i, x in enumerate(ls):
        t = s.copy()
        if t.assume(c_ge(sub(x, 1))): out.append((t, i))
        s = s.copy()
        if not s.assume(c_eq(x)): break
    return out

def run_not(path, shapes):
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    a = infos[0]; v = a['val']
    if v == 'nan': exp = 'nan'
    elif v == 0: exp = [1]
    else:
        c = shapes[0]; bits = 32 * (c[1] - 1) + c[2]
        exp = [sub((1 << bits) - 1, v)]
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        for s, rc in split_read(rc_of, I, o.st, o.val):
            for what, z, d in check_nat(I, s, rc, exp): acc.put(what, z, d)
    return acc

def run_subsign(path, shapes):
    """(|a - b|, a >= b)"""
    I, st, f, infos, homes, outs, acc = start(path, shapes)
    a, b = infos[0]['val'], infos[1]['val']
    nan = 'nan' in (a, b)
    assign = 'assign' in path
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        if assign: nv, flag = o.st.mem.get(homes[0]), o.val
        else: nv, flag = o.val[1]
        for b_ in (True, False):
            for s0 in branches(I, o.st.copy(), flag, b_):
                for s, rc in split_read(rc_of, I, s0, nv):
                    if nan: exp = 'nan'
                    else:
                        exp = [sub(a, b)] if b_ else [sub(b, a)]
                        acc.put('sign', *(dec_le(I, s, b, a) if b_ else dec_lt(I, s, a, b)))
                    for what, z, d in check_nat(I, s, rc, exp): acc.put(what, z, d)
    return acc

INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize')
def specs(which):
    out = []
    th = lib.TIER == 'thorough'
    NS = (1, 2, 3, 4) + ((6, 8) if th else ())
    if which == 'cmp':
        for m, tr in (('eq', 'PartialEq'), ('partial_cmp', 'PartialOrd')):
            p = '<%s as std::cmp::%s>::%s' % (N, tr, m)
            for n in NS:
                for k in NS: out.append(('cmp', p, (L(n), L(k))))
            for sh in (('nan', L(2)), (L(2), 'nan'), ('nan', 'nan'), ('zero', 'zero'), ('zero', L(1)), (L(1), 'zero'), (L(2), 'zero'), ('zero', L(2))):
                out.append(('cmp', p, sh))
            for t in INTS:
                p = '<%s as std::cmp::%s<%s>>::%s' % (N, tr, t, m)
                for n in (1, 2, 3, 4) + ((5,) if th else ()): out.append(('cmp', p, (L(n), 'int')))
                out.append(('cmp', p, ('nan', 'int'))); out.append(('cmp', p, ('zero', 'int')))
    if which == 'conv':
        for t in INTS: out.append(('from', '<%s as std::convert::From<%s>>::from' % (N, t), ('int',), 'int'))
        V = 'std::vec::Vec'
        for n in (0, 1, 2, 3, 4) + ((6, 9) if th else ()):
            for t in ('&[u32]', V + '<u32>', '&' + V + '<u32>'):
                out.append(('from', '<%s as std::convert::From<%s>>::from' % (N, t), (('seq', n),), 'w32'))
        for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13) + ((16, 17, 21) if th else ()):
            for t in ('&[u8]', V + '<u8>', '&' + V + '<u8>'):
                out.append(('from', '<%s as std::convert::From<%s>>::from' % (N, t), (('seq', n),), 'le8'))
            out.append(('from', N + '::from_le_bytes', (('seq', n),), 'le8'))
            out.append(('from', N + '::from_be_bytes', (('seq', n),), 'be8'))
        for sh in (L(1), L(2), L(3), 'zero', 'nan') + ((L(5),) if th else ()):
            out.append(('bytes', N + '::to_le_bytes', (sh,), 'le')); out.append(('bytes', N + '::to_be_bytes', (sh,), 'be'))
            out.append(('bytes', N + '::copy_to_le', (sh, ('seq', 3)), 'le')); out.append(('bytes', N + '::copy_to_be', (sh, ('seq', 3)), 'be'))
            out.append(('from', N + '::deep_clone', (sh,), 'id'))
    if which == 'query':
        for sh in (L(1), L(2), L(3), L(4), 'zero', 'nan'):
            out.append(('query', N + '::bits_len', (sh,), 'bits')); out.append(('query', N + '::is_nan', (sh,), 'nan'))
            if sh not in ('zero', 'nan'): out.append(('query', N + '::trailling_zeros', (sh,), 'tz'))
            for k in (0, 1, 5, 31, 32, 33, 63, 64, 95, 96, 130): out.append(('query', N + '::is_set_bit', (sh, k), 'bit'))
        for sh in ['zero', 'nan'] + [('top', n, k) for n in (1, 2, 3) for k in ((1, 2, 7, 16, 31, 32) if not th else range(1, 33))]:
            out.append(('not', '<%s as std::ops::Not>::not' % N, (sh,)))
        for n in NS:
            for k in NS:
                out.append(('subsign', N + '::sub_with_sign', (L(n), L(k)))); out.append(('subsign', N + '::sub_assign_with_sign', (L(n), L(k))))
        for sh in (('nan', L(2)), (L(2), 'nan'), ('zero', L(1)), (L(2), 'zero'), ('zero', 'zero')):
            out.append(('subsign', N + '::sub_with_sign', sh)); out.append(('subsign', N + '::sub_assign_with_sign', sh))
    return out

RUN = {'cmp': run_cmp, 'from': run_from, 'bytes': run_bytes, 'query': run_query, 'not': run_not, 'subsign': run_subsign}
def job(spec): return list(RUN[spec[0]](*spec[1:]))
