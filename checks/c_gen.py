"""Nat::generate_prime over an arbitrary source: what it returns was accepted by the primality test and has the requested length."""
from lib import *
import lib, contracts as C, inputs as X
from c_nat import *
from c_natq import Acc, panic_out, branches, tag_states
import c_rnd
from c_rnd import NATT, GENS, source_hook, never
QLIM = 60

def parity(x):
    """the lowest bit of a term where its structure determines it"""
    if type(x) is int: return x & 1
    if type(x) is not tuple or x[0] != 'L': return None
    p = x[1] & 1
    for a, c in x[2]:
        if c & 1 == 0: continue
        k = A_key[a]; b = None
        if k[0] in ('or', 'and', 'xor') and len(k) == 3:
            u, v = parity(k[1]), parity(k[2])
            if k[0] == 'or': b = 1 if 1 in (u, v) else 0 if (u, v) == (0, 0) else None
            elif k[0] == 'and': b = 0 if 0 in (u, v) else 1 if (u, v) == (1, 1) else None
            elif None not in (u, v): b = u ^ v
        if b is None: return None
        p ^= b
    return p
def run_gen(k, gen=GENS[0], rounds=1, deltas=2):
    path = NATT + '::generate_prime'
    r = next((x for x in lib.P.api['roots'] if x['path'] == path and any(gen in t for t in x['targs'])), None)
    if r is None: raise Missing(path)
    I = mkexact(); I.splitlz = True; I.poly = True; st = State(); f = lib.P.fns[r['inst']]
    key = '%s<%s>|%d bits' % (path, gen.rsplit('::')[-1], k); acc = Acc(key)
    gt = I.T[f['locals'][3]]['elem']
    g = I.newobj(st, I.materialize(st, gt), 'rng', gt); I.pinned.add(g)
    nn = (k + 31) // 32
    source_hook(I, nn * rounds, 0)
    hk = I.hooks
    def hook(I_, st, inst, f, args):
        if C.cname(f['name']).endswith('Nat::probably_prime_test') or 'Nat::probably_prime_test' in f['name']:
            outs = []
            for s, rc in split_read(lambda I, s, v: C.nat_loc(I, s, v)[0], I, st, args[0]):
                for s2, (c, ls) in split_read(vec_limbs, I, s, rc):
                    ok = c is not None and all(is_int(x) for x in ls)
                    s2.ev = s2.ev + (('tested', tuple(ls) if ok else None, args[1]),)
                    s3 = s2.copy(); s3.ev = s3.ev[:-1]
                    outs += [(s2, True)] + ([(s3, False)] if rounds > 1 else [])
            return outs
        if 'StepBy<' in f['name'] and f['name'].endswith('Range<u64>> as std::iter::Iterator>::next'):   # search for a number without small factors
            if sum(1 for e in st.ev if e[0] == 'delta') >= deltas: return []
            st.ev = st.ev + (('delta',),)
            return None
        return hk(I_, st, inst, f, args)
    I.hooks = hook
    nr = fresh_in(0, 1 << 20, 'n')
    try: outs = run(I, st, r, [k, nr, ('P', g, (), None)])
    except Budget: acc.und('budget'); return acc
    rt = f['locals'][0]; vs = [v['name'] for v in I.T[rt]['variants']]
    for o in outs:
        if o.kind == 'panic': panic_out(I, o, acc); continue
        ts = tag_states(I, o.st, o.val, len(vs))
        if ts is None: acc.und('unknown result'); continue
        for s, t in ts:
            if vs[t] == 'Err': acc.put('', *(('proved', '') if k < 2 else never(I, s, 'an error for %d bits' % k))); continue
            if k < 2: acc.put('', *never(I, s, 'a number of less than two bits')); continue
            x = o.val[2][t][0]
            tested = [e[1:] for e in s.ev if e[0] == 'tested']
            for s2, rc in split_read(rc_of, I, s, x):
                for s3, (c, ls) in split_read(vec_limbs, I, s2, rc):
                    if c is None or not all(is_int(y) for y in ls): acc.und('digits'); continue
                    V = mathv(ls)
                    if not tested: acc.put('tested', *never(I, s3, 'returned without a primality test')); continue
                    if tested[-1][0] is None: acc.und('tested value unknown')
                    else: acc.put('tested', *dec_eq(I, s3, V, mathv(list(tested[-1][0]))))
                    acc.put('rounds', *dec_eq(I, s3, tested[-1][1], nr))
                    acc.put('long', *dec(I, s3, c_ge(sub(V, 3 << (k - 2)))))
                    acc.put('short', *dec(I, s3, c_ge(sub((1 << k) - 1, V))))
                    if parity(ls[0]) == 1: acc.put('odd', 'proved'); continue
                    if c_rnd.divisible(s3, sub(ls[0], 1), 2): acc.put('odd', 'proved'); continue
                    low = I.lowhigh(s3, ls[0], 1)[0]
                    acc.put('odd', *dec_eq(I, s3, low, 1))
    if not outs: acc.und('no outcome')
    return acc
def specs(which):
    Q = lib.TIER == 'quick'
    ks = (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 34, 48, 63, 64, 65, 66) + (() if Q else (9, 12, 24, 30, 95, 96, 97))
    return [('gen', k) for k in ks] + [('gen', k, GENS[0], 2, 2) for k in ((5, 8, 33) if Q else ks)] + ([] if Q else [('gen', k, g) for k in (8, 33, 64) for g in GENS[1:]] + [('gen', k, GENS[0], 1, 3) for k in (8, 31, 32, 33, 64)])
def job(spec): return run_gen(*spec[1:])
