"""Division and remainder of natural numbers of any size, by loop invariants over contract values."""
from lib import *
import lib, contracts as C, inputs as X, templ
from c_big import mkarg
from c_nat import dec, dec_eq, dead, Red
N = 'bigint::nat::Nat'
QLIM = 60

def mkdiv(budget=400000, K=30, refute=False):
    """refute: follow at most three loop iterations without joining paths (exact paths, counterexamples only)"""
    I = mkI(budget=budget, K=400 if refute else K, big=True)
    if refute: I.refute = True; I.PEEL = 3
    else: I.templates = True; I.PEEL = 1
    for nm in ('div_inner', 'rem_inner'):
        for i, f in enumerate(lib.P.fns):
            if C.cname(f['name']) == C.NAT + '::' + nm: I.nocontract = set(I.nocontract) | {i}
    return I

def run_div(path, op, shapes):
    """prove with loop invariants; where that fails, look for a counterexample on the first iterations"""
    res = run_mode(path, op, shapes, False)
    if any(x[1] == 'undecided' for x in res):
        bad = [x for x in run_mode(path, op, shapes, True) if x[1] == 'violated']
        res += bad
    return res

def run_mode(path, op, shapes, refute):
    r = root(path); I = mkdiv(refute=refute); st = State(); f = lib.P.fns[r['inst']]
    args, infos, homes = [], [], []
    for i, t in enumerate(f['locals'][1:1 + f['argc']]):
        c = shapes[i]
        if c == 'alias': v, info = first, infos[0]
        else: v, info = X.nat_obj(I, st, c, 'ab'[i])
        if i == 0: first = v
        a, h = mkarg(I, st, t, v, 'ab'[i])
        args.append(a); homes.append(h); infos.append(info)
    key = '%s|%s' % (path, ','.join(map(str, shapes)))
    a, b = infos[0]['val'], infos[1]['val']
    nan = 'nan' in (a, b)
    assign = I.T[f['locals'][0]].get('size') == 0
    try: outs = run(I, st, r, args)
    except Budget: return [(key, 'undecided', 'budget')]
    res = reslist()
    t0 = time.time()
    for o in outs:
        if refute and (time.time() - t0 > 60 or any(x[1] == 'violated' for x in res)): break
        if o.kind == 'panic':
            if b == 0: res.append((key, 'proved', 'panics on a zero divisor')); continue
            if dead(I, o.st) or C.contradictory(I, o.st): res.append((key, 'proved', 'unreachable panic')); continue
            w = None if o.st.imp else witness(o.st, False)
            res.append((key, 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (o.panic.where[0], o.panic.msg or o.panic.kind, w)))
            continue
        if b == 0 and not nan:
            res.append((key, 'undecided' if o.st.imp else 'violated', 'returns although the divisor is zero')); continue
        v = o.st.mem.get(homes[0]) if assign else o.val
        for s, (m, rc) in split_read(X.read_nat, I, o.st, v):
            C.bitlen_axioms(I, s)
            for x in judge(I, s, op, a, b, m, nan): res.append((key + '|' + x[0],) + x[1:])
    if not outs: res.append((key, 'undecided', 'no outcome'))
    return res

def judge(I, s, op, a, b, m, nan):
    if nan:
        if m == 'nan': return [('nan', 'proved', '')]
        return [('nan', 'undecided' if s.imp or dead(I, s) else 'violated', 'a NaN operand gives the number %s' % show(m))]
    if m == 'nan': return [('nan', 'undecided' if s.imp or dead(I, s) else 'violated', 'NaN result for numbers')]
    if op == 'div':
        r = sub(a, I.mul(s, b, m))
        z1, w1 = dec(I, s, c_ge(r)); z2, w2 = dec(I, s, c_ge(sub(sub(b, r), 1)))
        return [('quotient not too large', z1, w1), ('quotient not too small', z2, w2)]
    z1, w1 = dec(I, s, c_ge(m)); z2, w2 = dec(I, s, c_ge(sub(sub(b, m), 1)))
    d = templ.reduce(s, sub(a, m), templ.rows_of(s, set(atoms_of(b))))
    if d is not None and (type(d) is int and d == 0 or d == b or templ.simple(b) and templ.divide(I, s, d, b) is not None): z3, w3 = 'proved', ''
    elif type(b) is int and type(d) is int: z3, w3 = ('proved' if d % b == 0 else 'undecided' if s.imp else 'violated'), show(d)
    elif dead(I, s): z3, w3 = 'proved', 'unreachable'
    else:
        z3, w3 = 'undecided', 'dividend minus remainder is %s' % (show(d) if d is not None else '?')
        w = None if s.imp else witness(s, c_eq(sub(m, sub(a, I.mul(s, b, C.ndiv(I, s, a, b))))))
        if w is not None: z3, w3 = 'violated', 'not the remainder on %s' % w
    return [('remainder below the divisor', z2, w2), ('remainder congruent', z3, w3)]

def specs(which):
    out = []
    T = [('Div', 'div'), ('Rem', 'rem')]
    cl = ['nan', 'zero', 'pos']; al = cl + [('limbs', 2), ('limbs', 3)]
    if which == 'alias':
        return [(p, op, (a, 'alias')) for T_, op in T for p in ('<%s as std::ops::%s>::%s' % (N, T_, op), '<%s as std::ops::%sAssign>::%s_assign' % (N, T_, op)) for a in al]
    for T_, op in T:
        for p in ('<%s as std::ops::%s>::%s' % (N, T_, op), '<%s as std::ops::%sAssign>::%s_assign' % (N, T_, op)):
            for a in cl:
                for b in cl: out.append((p, op, (a, b)))
            for a in al: out.append((p, op, (a, 'alias')))
    return out
def job(spec): return run_div(*spec)
