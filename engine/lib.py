"""Shared checking layer: running roots on partitioned inputs, deciding obligations, witnesses."""
import random, itertools, time
from dom import *
import dom
from interp import *
import models, contracts as C, inputs as X
from contracts import W

P = None          # program under analysis, set by the runner
_roots = None
TIER = 'quick'

def setprog(p):
    global P, _roots
    P = p; _roots = {}
    for r in P.api['roots']: _roots.setdefault(r['path'], []).append(r)

class Missing(Exception): pass

def root(path, targs=None):
    rs = _roots.get(path, [])
    for r in rs:
        if targs is None or r['targs'] == targs: return r
    raise Missing(path)
def has(path): return path in _roots

def pubroots():
    return {r['inst']: r for r in P.api['roots'] if r['pub'] or r['trait']}

def mkI(contracts=True, budget=400000, K=8, big=False, coarse=False):
    I = Interp(P, K=K, budget=budget)
    I.models = models.M
    if contracts: I.hooks = C.hooks
    I.bigc = big; I.coarse = coarse; I.pubroots = pubroots() if coarse == 2 else {}
    return I

# ---------------------------------------------------------------- term evaluation
def is_input(a): return a in dom.A_input

class Uneval(Exception): pass

def egcd(a, b):
    if a < 0: g, x, y = egcd(-a, b); return g, -x, y
    if b < 0: g, x, y = egcd(a, -b); return g, x, -y
    x0, y0, x1, y1 = 1, 0, 0, 1
    while b:
        q, r = divmod(a, b)
        a, b, x0, x1, y0, y1 = b, r, x1, x0 - q * x1, y1, y0 - q * y1
    return a, x0, y0

def ev_lin(x, env):
    if type(x) is int: return x
    r = x[1]
    for a, c in x[2]: r += c * ev_atom(a, env)
    if type(r) is not int:
        if r.denominator != 1: raise Uneval(None)
        r = int(r)
    return r
def ev_cond(c, env):
    if c is True or c is False: return c
    k = c[1]
    if k == 'ge': return ev_lin(c[2], env) >= 0
    if k == 'eq': return ev_lin(c[2], env) == 0
    if k == 'ne': return ev_lin(c[2], env) != 0
    if k == 'and': return ev_cond(c[2], env) and ev_cond(c[3], env)
    return ev_cond(c[2], env) or ev_cond(c[3], env)
def ev_atom(a, env):
    v = env.get(a)
    if v is not None: return v
    k = A_key[a]; n = k[0]
    if len(k) == 1: raise Uneval(a)
    if n == 'mul':
        r = 1
        for f in k[1]: r *= ev_atom(f, env)
    elif n == 'mulx': r = ev_lin(k[1], env) * ev_lin(k[2], env)
    elif n in ('ndiv', 'div'):
        x, y = ev_lin(k[1], env), ev_lin(k[2], env)
        if y == 0: raise Uneval(a)
        r = abs(x) // abs(y)
        if (x < 0) != (y < 0): r = -r
    elif n in ('rem', 'nrem'):
        x, y = ev_lin(k[1], env), ev_lin(k[2], env)
        if y == 0: raise Uneval(a)
        r = abs(x) % abs(y)
        if x < 0: r = -r
    elif n == 'bf':
        xs = [ev_lin(x, env) for x in k[2]]
        if any(x < 0 for x in xs): raise Uneval(a)
        r = 0
        for b in range(max(x.bit_length() for x in xs)):
            i = 0
            for j, x in enumerate(xs): i |= ((x >> b) & 1) << j
            r |= k[1][i] << b
    elif n == 'pow2':
        s = ev_lin(k[1], env)
        if not 0 <= s <= 4096: raise Uneval(a)
        r = 1 << s
    elif n == 'bitlen': r = ev_lin(k[1], env).bit_length()
    elif n == 'nlen': r = max((ev_lin(k[1], env).bit_length() + 31) // 32, 1)
    elif n == 'b2i': r = 1 if ev_cond(k[1], env) else 0
    elif n in ('wrap', 'cast'):
        x = ev_lin(k[1], env); lo, hi = k[2], k[3]
        r = (x - lo) % (hi - lo + 1) + lo
    elif n == 'shl':
        x = ev_lin(k[1], env); s = ev_lin(k[2], env); lo, hi = k[3], k[4]
        if not 0 <= s < 256: raise Uneval(a)
        r = ((x << s) - lo) % (hi - lo + 1) + lo
    elif n == 'shr':
        s = ev_lin(k[2], env)
        if not 0 <= s < 256: raise Uneval(a)
        r = ev_lin(k[1], env) >> s
    elif n in ('and', 'or', 'xor'):
        x, y = ev_lin(k[1], env), ev_lin(k[2], env)
        r = x & y if n == 'and' else x | y if n == 'or' else x ^ y
    elif n == 'ite': r = ev_lin(k[2], env) if ev_lin(k[1], env) else ev_lin(k[3], env)
    elif n == 'gcd':
        import math
        r = 0
        for x in k[1]: r = math.gcd(r, abs(ev_lin(x, env)))
    elif n == 'bezout':
        r = egcd(ev_lin(k[2], env), ev_lin(k[3], env))[1 + k[1]]
    elif n == 'inv':
        from fractions import Fraction
        d = ev_atom(k[1], env)
        if d == 0: raise Uneval(a)
        r = Fraction(1, d)
    elif n == 'tz':
        x = ev_lin(k[1], env)
        r = (x & -x).bit_length() - 1 if x else 0
    elif n == 'clz':
        r = k[2] - ev_lin(k[1], env).bit_length()
    elif n == 'ctz':
        x = ev_lin(k[1], env); r = (x & -x).bit_length() - 1 if x else k[2]
    elif n == 'ctlz': r = k[2] - ev_lin(k[1], env).bit_length()
    elif n == 'cttz':
        x = ev_lin(k[1], env); r = (x & -x).bit_length() - 1 if x else k[2]
    elif n == 'bswap': r = int.from_bytes(ev_lin(k[1], env).to_bytes(k[2] // 8, 'little'), 'big')
    elif n == 'popcnt': r = bin(ev_lin(k[1], env)).count('1')
    else: raise Uneval(a)
    env[a] = r
    return r

def leaves(x, out, seen):
    """leaf atoms a term depends on"""
    if type(x) is int or type(x) is bool or x is None or type(x) is str: return
    if type(x) is tuple:
        if x and x[0] == 'L':
            for a, _ in x[2]: leaf_atom(a, out, seen)
        else:
            for y in x: leaves(y, out, seen)
def leaf_atom(a, out, seen):
    if a in seen: return
    seen.add(a)
    k = A_key[a]
    if len(k) == 1 or k[0] == 'bezout' and 'bezout' in FREE: out.add(a); return
    if k[0] == 'mul':
        for f in k[1]: leaf_atom(f, out, seen)
    elif k[0] == 'inv': leaf_atom(k[1], out, seen)
    else:
        for y in k[1:]: leaves(y, out, seen)

def sample_inputs(st, ls, rng):
    env = {}
    for a in ls:
        lo, hi = st.ab(a)
        hi2 = min(hi, max(lo, 0) + (1 << rng.choice([1, 2, 3, 4, 8, 16, 31, 33, 40, 64, 70])))
        lo2 = max(lo, min(hi, 0) - (1 << rng.choice([1, 2, 3, 8, 33, 63]))) if lo < -(1 << 100) else lo
        m = rng.random()
        if m < 0.3: v = min(lo2 + rng.randrange(0, 4), hi)
        elif m < 0.4: v = max(min(hi, 1 << 70) - rng.randrange(0, 3), lo)
        else: v = rng.randint(lo2, max(hi2, lo2))
        if hi >= POS and rng.random() < 0.06:      # very long numbers
            v = max(lo, (1 << rng.choice([130, 300, 600, 1030, 1400])) + rng.randrange(-3, 4))
        env[a] = v
    if rng.random() < 0.25:          # numbers with few significant bits
        for a in ls:
            lo, hi = st.ab(a)
            if hi < 1 << 70 and hi > 16:
                k = rng.randrange(0, hi.bit_length()); v = env[a]
                v = (v >> k | (rng.random() < 0.7)) << k
                if lo <= v <= hi: env[a] = v
    # correlate: sometimes make two inputs equal / near
    ks = list(env)
    if len(ks) >= 2 and rng.random() < 0.4:
        x, y = rng.sample(ks, 2)
        env[x] = min(max(env[y] + rng.choice([-1, 0, 0, 0, 1]), st.ab(x)[0]), st.ab(x)[1])
    return env

FREE = {'cap', 'hwok', 'hw', 'bezout'}
def free_leaf(o):
    """buffer capacities: always large enough for some run, never constrain the values"""
    return all(A_key[a][0] in FREE for a in o)

def constraints(st, ls):
    """facts of the state that concern the input leaves; None if they mix with unknown leaves"""
    cons = []; bad = False
    for a, (lo, hi) in st.facts.items():
        out = set(); leaf_atom(a, out, set())
        if out <= ls: cons.append((('L', 0, ((a, 1),)), lo, hi))
        elif not free_leaf(out - ls) and (lo > A_lo[a] or hi < A_hi[a]): bad = True
    for key, (lo, hi) in st.rel.items():
        out = set()
        for a, _ in key: leaf_atom(a, out, set())
        if out <= ls: cons.append((('L', 0, key), lo, hi))
        elif not free_leaf(out - ls): bad = True
    nes = []
    for key, vs in st.ne.items():
        out = set()
        for a, _ in key: leaf_atom(a, out, set())
        if out <= ls: nes.append((('L', 0, key), vs))
    return cons, nes, bad

def steer(x, v, env, st, rng, depth=0):
    """change one leaf so that the term x takes (about) the value v; env holds leaves only"""
    if type(x) is int or depth > 12: return False
    cur = ev_lin(x, dict(env)); v = int(v)
    if cur == v: return True
    at = list(x[2]); rng.shuffle(at)
    at.sort(key=lambda t: len(A_key[t[0]]) != 1 and rng.random() < 0.7)
    for a, c in at[:4]:
        d, r = divmod(v - cur, c)
        if r and rng.random() < 0.5: d += 1
        if d == 0: continue
        if steer_atom(a, ev_atom(a, dict(env)) + d, env, st, rng, depth + 1): return True
    return False

def steer_atom(a, v, env, st, rng, depth):
    k = A_key[a]; n = k[0]; v = int(v)
    if len(k) == 1:
        lo, hi = st.ab(a)
        nv = min(max(v, lo), hi)
        if nv == env.get(a): return False
        env[a] = nv
        return True
    if n == 'mul':
        fs = list(k[1]); rng.shuffle(fs)
        for f in fs:
            o = 1
            e = dict(env)
            rest = list(k[1]); rest.remove(f)
            for g in rest: o *= ev_atom(g, e)
            if o == 0:
                g = rng.choice(rest)
                if steer_atom(g, rng.choice([1, 1, 2, -1]), env, st, rng, depth + 1): return True
                continue
            if steer_atom(f, v // o, env, st, rng, depth + 1): return True
        return False
    if n == 'mulx':
        y = ev_lin(k[2], dict(env))
        return y != 0 and steer(k[1], v // y, env, st, rng, depth + 1)
    if n in ('ndiv', 'div'):
        y = ev_lin(k[2], dict(env))
        if rng.random() < 0.3 and v > 0: return steer(k[2], abs(ev_lin(k[1], dict(env))) // v, env, st, rng, depth + 1)
        return steer(k[1], v * y + rng.choice([0, 0, max(abs(y) - 1, 0), rng.randrange(0, max(abs(y), 1))]), env, st, rng, depth + 1)
    if n in ('rem', 'nrem'):
        x, y = ev_lin(k[1], dict(env)), ev_lin(k[2], dict(env))
        return steer(k[1], x - x % max(abs(y), 1) + v, env, st, rng, depth + 1)
    if n == 'shr':
        s = ev_lin(k[2], dict(env))
        if not 0 <= s < 256: return False
        x = ev_lin(k[1], dict(env))
        return steer(k[1], (v << s) + rng.choice([0, (1 << s) - 1, x & ((1 << s) - 1), rng.randrange(0, 1 << s)]), env, st, rng, depth + 1)
    if n == 'shl':
        s = ev_lin(k[2], dict(env))
        if not 0 <= s < 256: return False
        return steer(k[1], v >> s, env, st, rng, depth + 1)
    if n in ('wrap', 'cast'):
        x = ev_lin(k[1], dict(env)); m = k[3] - k[2] + 1
        r = (x - k[2]) % m + k[2]
        return steer(k[1], x + (v - r) + rng.choice([0, 0, m, -m]), env, st, rng, depth + 1)
    if n == 'pow2':
        return v > 0 and steer(k[1], v.bit_length() - 1, env, st, rng, depth + 1)
    if n in ('bitlen', 'ctlz', 'clz', 'nlen'):
        b = v if n == 'bitlen' else 32 * v if n == 'nlen' else k[2] - v
        if not 0 <= b <= 400: return False
        return steer(k[1], 0 if b == 0 else rng.choice([1 << (b - 1), (1 << b) - 1, rng.randrange(1 << (b - 1), 1 << b)]), env, st, rng, depth + 1)
    if n in ('tz', 'cttz', 'ctz'):
        if not 0 <= v <= 400: return False
        x = ev_lin(k[1], dict(env))
        return steer(k[1], ((x >> (v + 1) << 1) | 1) << v, env, st, rng, depth + 1)
    if n in ('and', 'or', 'xor'):
        x, y = ev_lin(k[1], dict(env)), ev_lin(k[2], dict(env))
        if min(x, y, v) < 0: return False
        j = 1 if (rng.random() < 0.5 or type(k[2]) is int) and type(k[1]) is not int else 2
        o = y if j == 1 else x; me = x if j == 1 else y
        t = v ^ o if n == 'xor' else (v | (me & ~o)) if n == 'and' else (v & ~o) | (me & o & v)
        return steer(k[j], t, env, st, rng, depth + 1)
    if n == 'bf':
        xs = [ev_lin(x, dict(env)) for x in k[2]]
        if min(xs) < 0 or v < 0: return False
        j = rng.randrange(len(xs))
        t = 0
        for b in range(max([v.bit_length()] + [x.bit_length() for x in xs])):
            i = 0
            for q, x in enumerate(xs): i |= ((x >> b) & 1) << q
            if k[1][i] != (v >> b) & 1: i ^= 1 << j
            t |= ((i >> j) & 1) << b
        return steer(k[2][j], t, env, st, rng, depth + 1)
    if n == 'bswap':
        m = (1 << k[2]) - 1
        return steer(k[1], int.from_bytes((v & m).to_bytes(k[2] // 8, 'little'), 'big'), env, st, rng, depth + 1)
    if n == 'gcd':
        if v < 1: return False
        xs = [x for x in k[1] if type(x) is tuple]; ok = False
        for x in xs:
            if v == 1 and rng.random() < 0.5: continue
            y = ev_lin(x, dict(env))
            ok |= steer(x, v * rng.choice([1, 2, 3, 5, max(int(y) // v, 1), max(int(y) // v, 1) + 1]), env, st, rng, depth + 1)
        return ok
    if n == 'b2i':
        return steer_cond(k[1] if v else c_not(k[1]), env, st, rng, depth + 1)
    xs = [y for y in k[1:] if type(y) is tuple and y and y[0] == 'L']
    if not xs: return False
    x = rng.choice(xs)
    return steer(x, ev_lin(x, dict(env)) + rng.choice([1, -1, 2, rng.randrange(-1 << 32, 1 << 32)]), env, st, rng, depth + 1)

def steer_cond(c, env, st, rng, depth=0):
    if c is True or c is False or depth > 12: return False
    k = c[1]
    if k in ('and', 'or'):
        for x in rng.sample([c[2], c[3]], 2):
            if not ev_cond(x, dict(env)): return steer_cond(x, env, st, rng, depth + 1)
        return True
    v = ev_lin(c[2], dict(env))
    if k == 'eq': return steer(c[2], 0, env, st, rng, depth + 1)
    if k == 'ne': return steer(c[2], v + rng.choice([1, -1, 5]), env, st, rng, depth + 1)
    return steer(c[2], rng.choice([0, 0, 1, rng.randrange(0, 1 << 20)]), env, st, rng, depth + 1)

def witness(st, cond, extra=(), tries=300, need=None):
    """an assignment of the input atoms that satisfies the path and falsifies cond, or None.
    Only terms over inputs are used: nothing of the analysed program is executed."""
    if WT[0] > 25: return None
    t0 = time.time()
    try: return witness_(st, cond, tries)
    finally: WT[0] += time.time() - t0
PARTIAL = []
def reslist():
    """a result list whose violations survive a time limit"""
    r = []; PARTIAL.append(r)
    return r
DERIVE = [None]      # (state, environment): sets the atoms that are functions of the inputs; (state, None): the inputs they need
WT = [0]      # seconds spent on counterexample searches in this work item
def witness_(st, cond, tries):
    pred = None
    if callable(cond):      # a predicate over the environment, with the terms it reads
        pred = cond; cond = True; ls0 = set()
        for x in pred.terms:
            if type(x) is not int: leaves(c_ge(x), ls0, set())
    else: ls0 = set()
    FREE.add('bezout')
    ls = set(ls0); leaves(cond, ls, set())
    if any(A_key[a][0] == 'bezout' for a in ls) or any(A_key[a][0] == 'mul' and any(A_key[f][0] == 'bezout' for f in A_key[a][1]) for k in st.rel for a, _ in k): FREE.discard('bezout')
    ls = set(ls0); leaves(cond, ls, set())
    if any(not is_input(a) for a in ls): return None
    # close over inputs linked by facts
    allin = set()
    for a in list(st.facts):
        o = set(); leaf_atom(a, o, set()); allin |= o
    for key in list(st.rel) + list(st.ne):
        o = set()
        for a, _ in key: leaf_atom(a, o, set())
        allin |= o
    allin = {a for a in allin if is_input(a)} | ls
    if DERIVE[0]: allin |= DERIVE[0](st, None)
    cons, nes, bad = constraints(st, allin)
    if bad: return None
    cons = [(l, lo, hi) for l, lo, hi in cons if not (len(l[2]) == 1 and l[1] == 0 and l[2][0][1] == 1 and len(A_key[l[2][0][0]]) == 1)]
    goal = c_not(cond) if pred is None else True
    rng = random.Random(12345)
    t0 = time.time()
    for t in range(tries):
        env = sample_inputs(st, allin, rng)
        try:
            for step in range(1 if t < tries // 3 else 40):
                if DERIVE[0] and not DERIVE[0](st, env): break
                e = dict(env)
                failed = []
                for l, lo, hi in cons:
                    v = ev_lin(l, e)
                    if v < lo: failed.append((l, lo, hi))
                    elif v > hi: failed.append((l, lo, hi))
                for l, vs in nes:
                    if ev_lin(l, e) in vs: failed.append((l, None, None))
                g = ev_cond(goal, e) if goal is not True else pred is None or failed or not pred(e)
                if not failed and g: return {A_key[a][0]: v for a, v in env.items()}
                if t < tries // 3: break
                if not g and (not failed or rng.random() < 0.3):
                    if pred: break
                    if not steer_cond(goal, env, st, rng): break
                    continue
                l, lo, hi = rng.choice(failed)
                v = ev_lin(l, e)
                if lo is None: v += rng.choice([1, -1, 3])
                elif lo == hi: v = lo
                else:
                    w = min(hi - lo, 1 << 33)
                    if v < lo: v = lo + rng.choice([0, 0, 1, rng.randrange(0, w + 1)]) if w else lo
                    else: v = hi - (rng.choice([0, 0, 1, rng.randrange(0, w + 1)]) if w else 0)
                    v = min(max(v, lo), hi)
                if not steer(l, v, env, st, rng): 
                    if rng.random() < 0.2: break
        except (Uneval, OverflowError): continue
        if time.time() - t0 > 3: break
    return None

def simp(I, st, x):
    """rewrite a term with what the state knows"""
    if type(x) is int: return x
    if type(x) is not tuple or x[0] != 'L': return x
    r = x[1]
    for a, c in x[2]:
        r = add(r, scale(simp_atom(I, st, a), c))
    return r
def simp_atom(I, st, a, deep=False):
    l, h = st.ab(a)
    if l == h and not deep: return l
    k = A_key[a]
    if k[0] == 'mul':
        t = 1
        for f in k[1]: t = I.mul(st, t, simp_atom(I, st, f))
        return t
    if k[0] == 'ndiv': return C.ndiv(I, st, simp(I, st, k[1]), simp(I, st, k[2]))
    if k[0] == 'bf': return C.bf(I, st, k[1], [simp(I, st, y) for y in k[2]])
    return ('L', 0, ((a, 1),))

def infeasible(I, st):
    """the relations of the state contradict each other once known values are substituted"""
    for key, (lo, hi) in list(st.rel.items()):
        x = simp(I, st, ('L', 0, key))
        l, h = st.bounds(x)
        if l > hi or h < lo: return True
    for a, (lo, hi) in list(st.facts.items()):
        if len(A_key[a]) > 1:
            l, h = st.bounds(simp_atom(I, st, a, True))
            if l > hi or h < lo: return True
    for key, vs in list(st.ne.items()):
        x = simp(I, st, ('L', 0, key))
        if type(x) is int and x in vs: return True
    return False

def decide(I, st, cond):
    """'proved' | ('violated', witness) | 'undecided' for a condition at an exit state"""
    if cond is True or st.evalc(cond) is True: return 'proved', None
    if infeasible(I, st): return 'proved', 'unreachable'
    if st.imp: return 'undecided', 'imprecise: ' + ', '.join(sorted(st.imp)[:3])
    w = witness(st, cond)
    if w is not None: return 'violated', w
    return 'undecided', 'no witness'
def decide_eq(I, st, x, y):
    if st.same(x, y): return 'proved', None
    x2, y2 = simp(I, st, x), simp(I, st, y)
    if st.same(x2, y2): return 'proved', None
    return decide(I, st, c_eq(sub(x2, y2)))

# ---------------------------------------------------------------- running
class Out:
    __slots__ = ('kind', 'st', 'val', 'panic')
    def __init__(s, kind, st, val=None, panic=None): s.kind = kind; s.st = st; s.val = val; s.panic = panic

def run(I, st, r, args):
    """all outcomes of calling root r"""
    I.nocontract = set(I.nocontract) | {r['inst']}
    res = I.call(st, r['inst'], args)
    outs = [Out('ret', s, v) for s, v in res]
    outs += [Out('panic', p.st, None, p) for p in I.panics]
    return outs

def split_read(fn, I, st, *a):
    """evaluate a reader that may Split; yields (state, value)"""
    work = [st.copy()]; out = []
    n = 0
    while work:
        s = work.pop(); n += 1
        if n > 64: break
        s0 = s.copy()
        try: out.append((s, fn(I, s, *a)))
        except Split as e: work.extend(e.states)
        except Bottom: pass
    return out

def show(x, depth=0):
    if x is None or type(x) in (int, bool, str): return str(x)
    if type(x) is tuple and x and x[0] == 'L':
        ts = []
        for a, c in x[2]:
            n = show_atom(a, depth)
            ts.append(n if c == 1 else '-' + n if c == -1 else '%d*%s' % (c, n))
        if x[1]: ts.append(str(x[1]))
        return ' + '.join(ts)
    return str(x)[:80]
def show_atom(a, depth=0):
    k = A_key[a]
    if len(k) == 1: return k[0]
    if depth > 3: return k[0] + '(..)'
    if k[0] == 'mul': return '*'.join(show_atom(f, depth + 1) for f in k[1])
    return k[0] + '(' + ','.join(show(y, depth + 1) if not (type(y) is tuple and y and y[0] != 'L') else '..' for y in k[1:]) + ')'
