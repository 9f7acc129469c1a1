"""Random integers below a bound: Nat::random and BigInt::random over an arbitrary source, and the primality test's bases."""
import itertools
from lib import *
import lib, contracts as C, inputs as X
from c_nat import *
from c_natq import Acc, shape_names, panic_out, dec_lt, mkargs2
from c_big import mkarg
import c_nat
NATT = 'bigint::nat::Nat'; BIGT = 'bigint::bigint::BigInt'
GENS = ('linear_congruential_rand::LinearCongruentialRand', 'mersenne_twister_rand::MersenneTwisterRand', 'lagged_fibonacci_rand::LaggedFibonacciRand',
        'default_rand_amd64::DefaultRand', 'crypto_rand_amd64::CryptoRand')

def source_hook(I, maxw, maxe):
    """every Source<u32>::gen gives an arbitrary word or fails; sequences of at most maxw words and maxe failures are followed"""
    def hook(I_, st, inst, f, args):
        nm = f['name']
        if not (nm.endswith('>>::gen') and 'Source<u32>' in nm): return None
        t = f['locals'][0]
        nw = sum(1 for e in st.ev if e[0] == 'word'); ne = sum(1 for e in st.ev if e[0] == 'err')
        outs = []
        vs = [v['name'] for v in I.T[t]['variants']]
        ok, er = vs.index('Ok'), vs.index('Err')
        et = I.T[t]['variants'][er]['fields'][0][1]
        def mk_(i, v): return ('E', i, tuple((v,) if j == i else (('T', I.T[t]['variants'][j]['fields'][0][1]),) for j in range(len(vs))))
        if nw < maxw:
            s = st.copy(); w = fresh_in(0, 0xffffffff, 'w%d' % nw)
            s.ev = s.ev + (('word', w),); outs.append((s, mk_(ok, w)))
        if ne < maxe:
            s = st.copy(); s.ev = s.ev + (('err',),); outs.append((s, mk_(er, I.materialize(s, et))))
        return outs
    I.hooks = hook

def words(s): return [e[1] for e in s.ev if e[0] == 'word']

def cand(I, s, ws, k, how):
    """the value of k bits made of a block of words in some order, the top word cut to its low or high bits"""
    ls = [ws[i] for i in how[0]]; r = k & 31
    if r: ls[-1] = I.lowhigh(s, ls[-1], r)[0] if how[1] == 'low' else I.lowhigh(s, ls[-1], 32 - r)[1]
    return mathv(ls)

def run_random(ty, gen, sg, n, bits, errs=0, rounds=2):
    path = (NATT if ty == 'nat' else BIGT) + '::random'
    r = next((x for x in lib.P.api['roots'] if x['path'] == path and any(gen in t for t in x['targs'])), None)
    if r is None: raise Missing(path)
    I = mkexact(); I.splitlz = True; I.poly = True; st = State(); f = lib.P.fns[r['inst']]
    key = '%s<%s>|%s' % (path, gen.rsplit('::')[-1], '%s%s' % (sg, n if type(n) is str else '%d.%d' % (n, bits)))
    cells = None
    if type(n) is int:
        cells = [fresh_in(0, 0xffffffff, 'a%d' % i) for i in range(n - 1)] + [fresh_in(1 << bits - 1, (1 << bits) - 1, 'a%d' % (n - 1))]
        if n == 1 and bits == 32: pass
    if ty == 'nat': v, _ = X.nat_obj(I, st, ('cells', cells) if cells else n, 'a')
    elif cells: v, _ = X.big_obj(I, st, (sg, ('cells', cells)), 'a')
    else: v, _ = X.big_obj(I, st, n, 'a')
    A = mathv(cells) if cells else 0
    a0, _ = mkarg(I, st, f['locals'][1], v, 'a')
    gt = I.T[f['locals'][2]]['elem']
    g = I.newobj(st, I.materialize(st, gt), 'rng', gt); I.pinned.add(g)
    nn = len(cells) if cells else 0
    source_hook(I, nn * rounds, errs)
    acc = Acc(key)
    try: outs = run(I, st, r, [a0, ('P', g, (), None)])
    except Budget: acc.und('budget'); return acc
    k = 32 * (nn - 1) + bits if cells else 0
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        if not cells:
            for s, rc in split_read(rc_of, I, o.st, o.val if ty == 'nat' else field(I, o.val, 'nat')):
                for what, z, d in check_nat(I, s, rc, 'nan'): acc.put(what, z, d)
            continue
        ws0 = words(o.st)
        def val(s, v):
            z = dec_lt(I, s, v, A)
            if z[0] != 'proved': return z[0], 'not below the bound: %s' % (z[1],)
            ws = words(s)
            if 32 * len(ws) < k and not s.imp:      # fewer source bits than values below the bound
                w = witness(s, c_ge(sub((1 << 32 * len(ws)), A)))
                if w is not None: return 'violated', 'only %d source bits decide the result for the bound %s' % (32 * len(ws), w)
            if len(ws) % nn: return 'undecided', 'words left over'
            blocks = [ws[i:i + nn] for i in range(0, len(ws), nn)]
            def attempt(how):
                for b in blocks[:-1]:
                    z = dec(I, s, c_ge(sub(cand(I, s, b, k, how), A)))
                    if z[0] != 'proved': return z[0], 'a candidate below the bound is passed over: %s' % (z[1],)
                return dec_eq(I, s, v, cand(I, s, blocks[-1], k, how))
            first = None
            for order in itertools.permutations(range(nn)):
                for part in ('low', 'high') if k & 31 else ('low',):
                    z = attempt((order, part))
                    if z[0] == 'proved': return z
                    first = first or z
            return first
        for s, rc in split_read(rc_of, I, o.st, o.val if ty == 'nat' else field(I, o.val, 'nat')):
            for what, z, d in check_nat(I, s, rc, val): acc.put(what, z, d)
            if ty == 'big':
                for s2, (c, ls) in split_read(vec_limbs, I, s, rc):
                    if c is None or not all(is_int(x) for x in ls): acc.put('sign', 'undecided', 'digits'); continue
                    V = mathv(ls)
                    for s3, ng in signs(I, s2, o.val):
                        if ng and sg == '+': acc.put('sign', *never(I, s3, 'negative although the bound is positive'))
                        elif ng: acc.put('sign', *dec(I, s3, c_ge(sub(V, 1))))
                        elif sg == '-': acc.put('sign', *dec_eq(I, s3, V, 0))
                        else: acc.put('sign', 'proved')
    if not outs: acc.und('no outcome')
    return acc

def never(I, s, msg):
    if s.imp or dead(I, s): return 'undecided', msg
    w = witness(s, False, tries=1500)
    return ('violated' if w is not None else 'undecided', '%s, e.g. %s' % (msg, w))

def field(I, v, name):
    t = I.p.tyname[BIGT]
    return dict(zip([fn for fn, _ in I.T[t]['variants'][0]['fields']], v[1]))[name]
def signs(I, s, v):
    from c_natq import tag_states
    t = tag_states(I, s, field(I, v, 'sign'), 2)
    if t is None: raise NoRead('sign')
    ni = X.sign_idx(I, 'Negative')
    return [(s2, k == ni) for s2, k in t]


# ---------------------------------------------------------------- primality
ODDP = (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53)
def isprime(n): return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))
def run_prime(what, arg=None, gen=GENS[0], errs=0):
    path = NATT + '::probably_prime_test'
    r = next((x for x in lib.P.api['roots'] if x['path'] == path and any(gen in t for t in x['targs'])), None)
    if r is None: raise Missing(path)
    I = mkexact(); I.splitlz = True; st = State(); f = lib.P.fns[r['inst']]
    key = '%s<%s>|%s%s' % (path, gen.rsplit('::')[-1], what, '' if arg is None else ':%s' % (arg,))
    acc = Acc(key); want = False
    if what == 'small':
        v, _ = X.nat_obj(I, st, ('cells', [arg]), 'a'); want = isprime(arg)
        if arg == 0: v, _ = X.nat_obj(I, st, 'zero', 'a')
    elif what == 'nan': v, _ = X.nat_obj(I, st, 'nan', 'a')
    else:
        p, n = arg
        if n == 1: cells = [scale(fresh_in((128 + p - 1) // p, ((1 << 32) - 1) // p, 'k'), p)]
        elif p == 2: cells = [scale(fresh_in(0, (1 << 31) - 1, 'k'), 2)] + [fresh_in(0, (1 << 32) - 1, 'a%d' % i) for i in range(1, n - 1)] + [fresh_in(1, (1 << 32) - 1, 'a%d' % (n - 1))]
        else:       # the lowest digit completes a multiple of p: a0 = p*k - 2^32*(a1 + ...) mod p
            hi = [fresh_in(0, (1 << 32) - 1, 'a%d' % i) for i in range(1, n - 1)] + [fresh_in(1, (1 << 32) - 1, 'a%d' % (n - 1))]
            kk = fresh_in(0, 1 << 32 * n, 'k')
            a0 = sub(scale(kk, p), scale(mathv(hi), 1 << 32))
            st.assume(c_ge(a0)); st.assume(c_ge(sub((1 << 32) - 1, a0)))
            cells = [a0] + hi
        v, _ = X.nat_obj(I, st, ('cells', cells), 'a')
    a0, _ = mkarg(I, st, f['locals'][1], v, 'a')
    gt = I.T[f['locals'][3]]['elem']
    g = I.newobj(st, I.materialize(st, gt), 'rng', gt); I.pinned.add(g)
    source_hook(I, 3, errs)
    hk = I.hooks; reached = []
    def hook(I_, st, inst, f, args):
        if C.cname(f['name']).endswith('Nat::exp') or 'miller_rabin' in f['name']: reached.append(st); return []
        return hk(I_, st, inst, f, args)
    I.hooks = hook
    try: outs = run(I, st, r, [a0, fresh_in(0, 1 << 20, 'n'), ('P', g, (), None)])
    except Budget: acc.und('budget'); return acc
    for s in reached:
        if s.imp or dead(I, s): acc.und('reaches the probabilistic test')
        else:
            w = witness(s, False, tries=1500)
            acc.put('', 'violated' if w is not None else 'undecided', 'a composite with a small factor reaches the probabilistic test, e.g. %s' % w) if what != 'small' else acc.und('probabilistic')
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        b = o.val
        for c in (True, False):
            for s in ([o.st] if b is c else [] if type(b) is bool else split_c(I, o.st, b, c)):
                if c == want: acc.put('', 'proved')
                else: acc.put('', *never(I, s, 'reported %s' % ('prime' if c else 'composite')))
    if not outs and not reached: acc.und('no outcome')
    return acc
def divisible(s, x, p):
    """x = 0 mod p follows from the equalities of the state, read over GF(p)"""
    rows = []
    for key, (lo, hi) in s.rel.items():
        if lo == hi: rows.append(({a: c % p for a, c in key if c % p}, lo % p))
    x0 = ({a: c % p for a, c in x[2] if c % p}, -x[1] % p) if type(x) is not int else ({}, -x % p)
    atoms = {a for r, _ in rows for a in r} | set(x0[0])
    for a in atoms:
        l, h = s.ab(a)
        if l == h: rows.append(({a: 1}, l % p))
    basis = []
    def red(row):
        r, k = dict(row[0]), row[1]
        for v, (br, bk) in basis:
            f = r.get(v)
            if f:
                for a, c in br.items():
                    t = (r.get(a, 0) - f * c) % p
                    if t: r[a] = t
                    else: r.pop(a, None)
                k = (k - f * bk) % p
        return r, k
    for row in rows:
        r, k = red(row)
        if not r: continue
        v = next(iter(r)); i = pow(r[v], -1, p)
        basis.append((v, ({a: c * i % p for a, c in r.items()}, k * i % p)))
    # the basis is triangular in insertion order: reduce repeatedly
    r, k = x0
    for _ in range(len(basis) + 1):
        r2, k2 = red((r, k))
        if (r2, k2) == (r, k): break
        r, k = r2, k2
    return not r and k == 0
def run_accept(n, gen=GENS[0]):
    """trial division rejects no number without a prime factor up to 53 (hence no prime)"""
    path = NATT + '::probably_prime_test'
    r = next((x for x in lib.P.api['roots'] if x['path'] == path and any(gen in t for t in x['targs'])), None)
    if r is None: raise Missing(path)
    I = mkexact(); I.splitlz = True; st = State(); f = lib.P.fns[r['inst']]
    key = '%s<%s>|rejected numbers of %d digits' % (path, gen.rsplit('::')[-1], n); acc = Acc(key)
    cells = [fresh_in(0 if n > 1 else 128, (1 << 32) - 1, 'a0')] + [fresh_in(0, (1 << 32) - 1, 'a%d' % i) for i in range(1, n - 1)] + ([fresh_in(1, (1 << 32) - 1, 'a%d' % (n - 1))] if n > 1 else [])
    v, _ = X.nat_obj(I, st, ('cells', cells), 'a')
    a0, _ = mkarg(I, st, f['locals'][1], v, 'a')
    gt = I.T[f['locals'][3]]['elem']
    g = I.newobj(st, I.materialize(st, gt), 'rng', gt); I.pinned.add(g)
    source_hook(I, 3, 0)
    hk = I.hooks; reached = []
    def hook(I_, st, inst, f, args):
        if C.cname(f['name']).endswith('Nat::exp') or 'miller_rabin' in f['name']: reached.append(st); return []
        return hk(I_, st, inst, f, args)
    I.hooks = hook
    try: outs = run(I, st, r, [a0, fresh_in(0, 1 << 20, 'n'), ('P', g, (), None)])
    except Budget: acc.und('budget'); return acc
    A = mathv(cells)
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        for s in ([] if o.val is True else [o.st] if o.val is False else split_c(I, o.st, o.val, False)):
            if dead(I, s): acc.put('', 'proved', 'unreachable'); continue
            p = next((p for p in (2,) + ODDP if divisible(s, A, p)), None)
            if p: acc.put('', 'proved', 'divisible by %d' % p); continue
            if s.imp: acc.und('rejected, no small factor derived'); continue
            # a number on this path without a small factor: choose the residues one class at a time
            hit = None
            for _ in range(40):
                w = witness(s, False, tries=300)
                if w is None: break
                x = sum(int(w.get('a%d' % i, 0)) << 32 * i for i in range(n)) if isinstance(w, dict) else 0
                if x and all(x % q for q in (2,) + ODDP): hit = x; break
            acc.put('', 'violated' if hit else 'undecided', 'rejects %s, which has no prime factor up to 53, before the probabilistic rounds' % hit)
    if not reached: acc.und('the probabilistic rounds are never reached')
    return acc
def split_c(I, s, b, v):
    from c_natq import branches
    return branches(I, s, b, v)

def run_base(n, gen=GENS[0]):
    """the bases of the probabilistic rounds are drawn from 1 .. n-1"""
    path = NATT + '::probably_prime_test'
    r = next((x for x in lib.P.api['roots'] if x['path'] == path and any(gen in t for t in x['targs'])), None)
    if r is None: raise Missing(path)
    I = mkexact(); I.poly = True; st = State(); f = lib.P.fns[r['inst']]
    key = '%s<%s>|bases of %d digits' % (path, gen.rsplit('::')[-1], n); acc = Acc(key)
    cells = [fresh_in(0 if n > 1 else 128, (1 << 32) - 1, 'a0')] + [fresh_in(0, (1 << 32) - 1, 'a%d' % i) for i in range(1, n - 1)] + ([fresh_in(1, (1 << 32) - 1, 'a%d' % (n - 1))] if n > 1 else [])
    v, _ = X.nat_obj(I, st, ('cells', cells), 'a')
    a0, _ = mkarg(I, st, f['locals'][1], v, 'a')
    gt = I.T[f['locals'][3]]['elem']
    g = I.newobj(st, I.materialize(st, gt), 'rng', gt); I.pinned.add(g)
    source_hook(I, 2 * n, 0)
    hk = I.hooks; reached = []
    def hook(I_, st, inst, f, args):
        if C.cname(f['name']).endswith('Nat::exp'): reached.append((st, args)); return []
        return hk(I_, st, inst, f, args)
    I.hooks = hook
    try: run(I, st, r, [a0, fresh_in(0, 1 << 20, 'n'), ('P', g, (), None)])
    except Budget: acc.und('budget'); return acc
    if not reached: acc.und('no base'); return acc
    A = mathv(cells)
    for s, args in reached:
        for s2, rc in split_read(lambda I, s, v: C.nat_loc(I, s, v)[0], I, s, args[0]):
            for s3, (c, ls) in split_read(vec_limbs, I, s2, rc):
                if c is None or not all(is_int(x) for x in ls): acc.und('base unknown'); continue
                b = mathv(ls)
                if dead(I, s3): acc.put('', 'proved'); continue
                z = dec(I, s3, c_ge(sub(b, 1)))
                if z[0] == 'proved': z = dec_lt(I, s3, b, A)
                acc.put('', z[0], 'base outside 1 .. n-1: %s' % (z[1],))
    return acc

def specs(which):
    Q = lib.TIER == 'quick'; out = []
    if which == 'random':
        for gen in GENS:
            for ty in ('nat', 'big'):
                for sg in ('+', '-') if ty == 'big' else ('+',):
                    for n in (1, 2) + (() if Q and gen != GENS[0] else (3,)):
                        for b in (1, 8, 31, 32) + (() if Q else (2, 17, 24, 30)):
                            if (n, b) == (1, 1) : pass
                            out.append(('random', ty, gen, sg, n, b))
                            if n <= 2: out.append(('random', ty, gen, sg, n, b, 1))
                out.append(('random', ty, gen, '', 'nan', 0)); out.append(('random', ty, gen, '', 'zero', 0))
    if which == 'prime':
        out += [('prime', 'nan')] + [('prime', 'small', k) for k in range(128)]
        for n in (1, 2) if Q else (1, 2, 3):
            out += [('prime', 'multiple', (p, n)) for p in (2,) + ODDP]
        for n in (1, 2) if Q else (1, 2, 3): out += [('base', n), ('accept', n)]
    return out
def job(spec): return {'random': run_random, 'prime': run_prime, 'base': run_base, 'accept': run_accept}[spec[0]](*spec[1:])
