"""Pseudo-random generators against their defining recurrences, for every seed (and every parameter where stated),
driven through the public interface: new / gen / reset are interpreted in sequence over a symbolic seed."""
import itertools, re
from lib import *
import lib, gf2
from c_nat import dead
TB = {'u32': 32, 'u64': 64, 'usize': 64}

def find(pat, targs=()):
    """the public root whose path matches, whatever module it lives in"""
    for r in lib.P.api['roots']:
        if re.search(pat, r['path']) and all(any(re.search(t, x) for x in r['targs']) for t in targs): return r
    raise Missing(pat)
def gen_root(name, T): return find(r'^<.*\b%s<%s> as .*Source<%s>>::gen$' % (name, T, T))
def reset_root(name, T): return find(r'^<.*\b%s<%s> as .*Source<%s>>::reset$' % (name, T, T), [r'\bDefaultSeed<%s>' % T])
def new_root(name, T): return find(r'\b%s::<T>::new$' % name, [r'^%s$' % T, r'\bDefaultSeed<%s>' % T])

def mk(**kw):
    I = mkI(budget=600000, K=256); I.PEEL = 100; I.ite = True; I.lazyov = True
    I.hwtrace = True
    for k, v in kw.items(): setattr(I, k, v)
    return I
def seedobj(I, st, r, idx):
    t = lib.P.fns[r['inst']]['locals'][1 + idx]
    sd = I.T[t]['elem']
    o = I.newobj(st, I.materialize(st, sd), 'seed', sd); I.pinned.add(o)
    return ('P', o, (), None)

class Run:
    bad = 0
    """a set of paths through a sequence of calls on one generator"""
    def __init__(self, name, T, params, key, **kw):
        self.name, self.T, self.key = name, T, key
        self.I = mk(**kw); I = self.I
        self.n = 0; self.cap = 400
        self.res = []; self.paths = []
        st = State(); r = new_root(name, T)
        args = [seedobj(I, st, r, 0)] + params(I, st)
        self.gen = gen_root(name, T); self.rst = reset_root(name, T)
        I.nocontract = set(I.nocontract) | {r['inst'], self.gen['inst'], self.rst['inst']}
        self.note(r, I.call(st, r['inst'], args), self.new)
        self.panics(st)
    def put(self, st, what, z, msg):
        if z != 'proved': self.bad += 1
        if z == 'violated' and (st.imp or dead(self.I, st)): z = 'undecided' if st.imp else 'proved'
        self.res.append(('%s|%s' % (self.key, what), z, msg))
    def panics(self, st0):
        for p in self.I.panics:
            s = p.st
            if s.imp or dead(self.I, s): self.res.append((self.key, 'proved' if dead(self.I, s) else 'undecided', 'panic? %s' % (p.where,))); continue
            w = witness(s, False)
            self.res.append((self.key + '|panic', 'violated' if w is not None else 'undecided', 'panics in %s (%s) on %s' % (p.where[0], p.msg or p.kind, w)))
        del self.I.panics[:]
    def tagged(self, s, v, t):
        """(state, variant name, fields) of an enum value"""
        if v[0] == 'T': v = self.I.materialize(s, v[1])
        vs = self.I.T[t]['variants']
        out = []
        tags = [v[1]] if type(v[1]) is int else range(len(vs))
        for i in tags:
            s2 = s.copy()
            if type(v[1]) is not int and not s2.assume(c_eq(sub(v[1], i))): continue
            if v[2][i] is None: continue
            out.append((s2, vs[i]['name'], v[2][i]))
        return out
    def note(self, r, outs, k):
        rt = lib.P.fns[r['inst']]['locals'][0]
        for s, v in outs:
            for s2, n, fs in self.tagged(s, v, rt): k(s2, n, fs, rt)
    def new(self, s, n, fs, rt):
        ev = [e for e in s.ev if 'seed' in e[0]]
        if n == 'Err':
            self.err = getattr(self, 'err', []) + [(s, fs)]; return
        if len(ev) != 1: self.put(s, 'seed', 'undecided', 'the seed is read %d times' % len(ev)); return
        tt = [ft for nm, ft in self.I.T[rt]['variants'][[v['name'] for v in self.I.T[rt]['variants']].index('Ok')]['fields']][0]
        o = self.I.newobj(s, fs[0], 'rng', tt)
        self.paths.append((s, o, self.ref(s, ev[0][1])))
    def ref(self, s, seed): return None
    def step(self, what='gen'):
        """one more output on every path"""
        I = self.I; new = []
        for s, o, ref in self.paths[:self.cap]:
            n0 = len(s.ev)
            outs = I.call(s, self.gen['inst'], [('P', o, (), None)])
            def k(s2, n, fs, rt):
                if len(s2.ev) != n0: self.put(s2, what + '|effects', 'violated', 'the generator reads hardware randomness')
                if n == 'Err': self.put(s2, what, 'violated', 'an output of the generator is an error'); return
                for s3, rf, exp in self.next(s2, ref):
                    z, w = self.same(s3, fs[0], exp)
                    self.put(s3, what, z, 'output %d differs from the recurrence on %s' % (self.n, w) if z == 'violated' else '%s' % (w,))
                    new.append((s3, o, rf))
            self.note(self.gen, outs, k)
        self.n += 1; self.paths = new
        self.panics(None)
    def reseed(self):
        I = self.I; new = []
        for s, o, ref in self.paths[:self.cap]:
            n0 = len(s.ev); r = self.rst
            sd = seedobj(I, s, r, 1)
            outs = I.call(s, r['inst'], [('P', o, (), None), sd])
            def k(s2, n, fs, rt):
                ev = [e for e in s2.ev[n0:] if 'seed' in e[0]]
                if n == 'Ok' and len(ev) == 1:
                    ok = s2.copy()
                    if ok.assume(c_eq(ev[0][2])): self.put(ok, 'reseed', 'violated', 'reset reports success although the seed source failed')
                    if s2.assume(c_ge(sub(ev[0][2], 1))): new.append((s2, o, self.ref(s2, ev[0][1])))
                elif n == 'Err': new.append((s2, o, ref))      # a failed reseed leaves the generator as it was
                else: self.put(s2, 'reseed', 'undecided', 'the seed is read %d times' % len(ev))
            self.note(r, outs, k)
        self.paths = new
        self.panics(None)
    def same(self, s, x, y):
        if not is_int(x): return 'undecided', 'not a term'
        if s.same(x, y): return 'proved', None
        if self.bad >= 3: return 'undecided', 'not tried after earlier failures'
        if gf2.canon_eq(s, x, y, TB[self.T]): return 'proved', None
        return decide_eq(self.I, s, x, y)
    def finish(self):
        if not self.paths and not self.res: self.res.append((self.key, 'undecided', 'no outcome'))
        return self.res

def word(I, st, op, a, b, T): return I.binop(st, op, a, b, I.tid(T), I.tid(T))
def low(I, st, x, w):
    """x mod 2^w as a term"""
    l, h = st.bounds(x)
    if type(x) is int: return x % (1 << w)
    if l >= 0 and h < 1 << w: return x
    return intern(('wrap', x, 0, (1 << w) - 1), 0, (1 << w) - 1)

# ---------------------------------------------------------------- Mersenne Twister
class MT(Run):
    def __init__(self, T, w, n, m, r, a, u, d, s, b, t, c, l, f, key, **kw):
        self.p = (w, n, m, r, a, u, d, s, b, t, c, l, f)
        Run.__init__(self, 'MersenneTwisterRand', T, lambda I, st: [w, n, m, r, a, ('A', (u, d)), ('A', (s, b)), ('A', (t, c)), l, f], key, **kw)
    def ref(self, st, seed):
        I, T = self.I, self.T; w, n, m, r, a, u, d, s, b, t, c, l, f = self.p
        B = TB[T]; M = (1 << w) - 1
        x = [word(I, st, 'BitAnd', seed, M, T)]
        for i in range(1, n):
            p = x[-1]
            q = word(I, st, 'BitXor', p, word(I, st, 'Shr', p, w - 2, T), T)
            q = low(I, st, add(scale(q, f), i), B)
            x.append(word(I, st, 'BitAnd', q, M, T) if w < B else q)
        return (x, n)
    def next(self, st, ref):
        I, T = self.I, self.T; w, n, m, r, a, u, d, s, b, t, c, l, f = self.p
        B = TB[T]; M = (1 << w) - 1
        x, idx = ref
        if idx >= n:
            x = list(x)
            for i in range(n):
                y = word(I, st, 'BitOr', word(I, st, 'BitAnd', x[i], M >> r << r, T), word(I, st, 'BitAnd', x[(i + 1) % n], (1 << r) - 1, T), T)
                z = word(I, st, 'BitXor', x[(i + m) % n], word(I, st, 'Shr', y, 1, T), T)
                x[i] = word(I, st, 'BitXor', z, scale(word(I, st, 'BitAnd', y, 1, T), a), T)
            idx = 0
        z = x[idx]
        def tw(z, op, k, mask):
            v = word(I, st, op, z, k, T)
            if mask is not None: v = word(I, st, 'BitAnd', v, mask, T)
            return word(I, st, 'BitXor', z, v, T)
        z = tw(z, 'Shr', u, d); z = tw(z, 'Shl', s, b); z = tw(z, 'Shl', t, c); z = tw(z, 'Shr', l, None)
        return [(st, (x, idx + 1), z)]

MT32 = (31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253)
MT64 = (31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005)
MT24 = (17, 0x9908b0, 5, 0xfffff1, 3, 0x2c5680, 9, 0xc60000, 11, 1812433)
def run_mt(T, w, n, m, extra, mode):
    key = 'MersenneTwister<%s> w=%d n=%d m=%d %s' % (T, w, n, m, mode)
    x = MT(T, w, n, m, *extra, key)
    if mode == 'gen':
        x.I.PEEL = max(100, n + 8); x.I.budget = 10 ** 7
        for _ in range(2 * n + 2):
            x.step()
            if x.bad >= 3: break
    else:
        k = int(mode[5:])
        for _ in range(k): x.step()
        if mode[:5] == 'reset':
            x.reseed()
            for _ in range(n + 1): x.step('after reset')
    return x.finish()

# ---------------------------------------------------------------- linear congruential
class LCG(Run):
    def __init__(self, T, key, par=None, **kw):
        B = TB[T]
        def params(I, st):
            if par: self.p = par
            else: self.p = [fresh_in(0, (1 << B) - 1, n) for n in 'ac'] + [fresh_in(1, (1 << B) - 1, 'm')]
            return list(self.p)
        Run.__init__(self, 'LinearCongruentialRand', T, params, key, **kw)
    def ref(self, st, seed): return seed
    def next(self, st, x):
        I = self.I; a, c, m = self.p
        y = I.irem(st, add(I.mul(st, a, x), c), m, I.tid('u128'))
        return [(st, y, y)]
def run_lcg(T, par, mode):
    key = 'LinearCongruential<%s> %s %s' % (T, 'symbolic a,c,m' if par is None else 'a=%d c=%d m=%d' % par, mode)
    x = LCG(T, key, par)
    if mode == 'gen':
        for _ in range(3): x.step()
    else:
        for _ in range(int(mode[5:])): x.step()
        x.reseed()
        for _ in range(2): x.step('after reset')
    return x.finish()

# ---------------------------------------------------------------- subtract with carry
class LFR(Run):
    def __init__(self, T, w, s, r, key, **kw):
        self.p = (w, s, r)
        Run.__init__(self, 'LaggedFibonacciRand', T, lambda I, st: [w, s, r], key, **kw)
    def ref(self, st, seed):
        I, T = self.I, self.T; w, s, r = self.p
        x = seed; words = []
        for i in range(r):
            acc = 0
            for j in range((w + 31) // 32):
                x = I.irem(st, I.mul(st, 40014, x), 2147483563, I.tid('u128'))
                acc = add(acc, scale(x, 1 << (32 * j)))
            words.append(low(I, st, acc, w))
        return (words, None, 0)
    def next(self, st, ref):
        I, T = self.I, self.T; w, s, r = self.p
        words, carry, idx = ref
        out = []
        if carry is None:
            alts = []
            for c, cond in ((1, c_eq(words[-1])), (0, c_not(c_eq(words[-1])))):
                s2 = st.copy()
                if s2.assume(cond) and not infeasible(I, s2): alts.append((s2, c))
        else: alts = [(st, carry)]
        for s1, c in alts:
            d = sub(sub(words[(idx - s) % r], words[idx]), c)
            for b, cond in ((0, c_ge(d)), (1, c_not(c_ge(d)))):
                s2 = s1.copy()
                if not s2.assume(cond): continue
                v = add(d, b << w)
                nw = list(words); nw[idx] = v
                out.append((s2, (nw, b, (idx + 1) % r), v))
        return out
def run_lfr(T, w, s, r, mode):
    key = 'LaggedFibonacci<%s> w=%d s=%d r=%d %s' % (T, w, s, r, mode)
    x = LFR(T, w, s, r, key)
    if mode == 'gen':
        for _ in range(2 * r + 1 if r <= 3 else 5): x.step()
    else:
        for _ in range(int(mode[5:])): x.step()
        x.reseed()
        for _ in range(2): x.step('after reset')
    return x.finish()

# ---------------------------------------------------------------- results, errors, hardware
def simple(T='u32', **kw):
    x = object.__new__(Run)
    x.T = T; x.I = mk(**kw); x.res = []; x.paths = []; x.n = 0; x.cap = 400; x.key = ''
    return x
def kind_of(x, s, err, t):
    """[(state, RandErrKind variant name)] through RandError::kind"""
    r = find(r'\bRandError::kind$')
    o = x.I.newobj(s, err, 'err', t)
    kt = lib.P.fns[r['inst']]['locals'][0]
    out = []
    for s2, v in x.I.call(s, r['inst'], [('P', o, (), None)]): out += [(s3, n) for s3, n, _ in x.tagged(s2, v, kt)]
    return out
def vtype(I, rt, name):
    vs = I.T[rt]['variants']
    return [ft for nm, ft in vs[[v['name'] for v in vs].index(name)]['fields']][0]
def delivered(s, ev, val, B):
    """the value is one the hardware reported as valid on this path"""
    for e in ev:
        if s.bounds(e[2])[0] >= 1 and s.same(e[1], val): return True
    return False

def run_hw(path, T, key, want):
    """a hardware source: Ok only with a value the hardware reported valid, Err only after a reported failure"""
    r = path()
    x = simple(T); I = x.I; x.key = key
    I.nocontract = set(I.nocontract) | {r['inst']}
    st = State()
    outs = I.call(st, r['inst'], [seedobj(I, st, r, 0)])
    rt = lib.P.fns[r['inst']]['locals'][0]
    def k(s, n, fs, rt):
        ev = s.ev
        if n == 'Ok':
            if not is_int(fs[0]): x.put(s, 'value', 'undecided', 'no term'); return
            if delivered(s, ev, fs[0], TB[T]):
                full = A_hi[fs[0][2][0][0]] >= (1 << TB[T]) - 1
                x.put(s, 'value', 'proved' if full else 'violated', 'only the low %d of %d bits are ever set' % (A_hi[fs[0][2][0][0]].bit_length(), TB[T])); return
            why = 'no hardware read' if not ev else 'the hardware may have reported failure' if all(s.bounds(e[2])[0] < 1 for e in ev) else 'another value than the hardware delivered'
            z = 'violated'
            ok = [e for e in ev if s.bounds(e[2])[0] >= 1]
            if ok:
                c = c_eq(sub(fs[0], ok[-1][1]))
                if len(ok) > 1: z, _ = 'undecided', None
                else: z, _ = decide(I, s, c)
            x.put(s, 'value', z, 'returns Ok(%s): %s' % (show(fs[0])[:60], why))
        else:
            if any(s.bounds(e[2])[1] <= 0 for e in ev): x.put(s, 'failure', 'proved', '')
            else: x.put(s, 'failure', 'violated', 'reports an error although every hardware read succeeded')
            for s2, kn in kind_of(x, s, fs[0], vtype(I, rt, 'Err')):
                x.put(s2, 'kind', 'proved' if kn == want else 'violated', 'error kind %s, expected %s' % (kn, want))
    x.note(r, outs, k)
    x.panics(st)
    if not x.res: x.res.append((key, 'undecided', 'no outcome'))
    return x.res

def optname(x, s, v, t): return x.tagged(s, v, t)
def run_iter(name, T, script):
    """next / last_error / clear_error in sequence over a hardware source"""
    key = 'Iter<%s<%s>> %s' % (name, T, script)
    x = simple(T); I = x.I; x.key = key
    P_ = r'\b%s<%s>' % (name, T)
    im = find(r'^<.*%s as .*IterSource<%s>>::iter_mut$' % (P_, T)); nx = find(r'Iter<.*> as .*Iterator>::next$', [P_])
    le = find(r'\bIter::<.*>::last_error$', [P_]); ce = find(r'\bIter::<.*>::clear_error$', [P_]); nw = find(r'\bIter::<.*>::new$', [P_])
    I.nocontract = set(I.nocontract) | {im['inst'], nx['inst'], le['inst'], ce['inst'], nw['inst']}
    st = State()
    mkr = im if script[0] != 'N' else nw
    it = lib.P.fns[mkr['inst']]['locals'][0]
    src = seedobj(I, st, mkr, 0)
    paths = []
    for s, v in I.call(st, mkr['inst'], [src]):
        o = I.newobj(s, v, 'iter', it); paths.append((s, o, False))
    for ch in script[1:]:
        new = []
        for s, o, lat in paths:
            n0 = len(s.ev); a = [('P', o, (), None)]
            if ch == 'n':
                rt = lib.P.fns[nx['inst']]['locals'][0]
                for s1, v in I.call(s, nx['inst'], a):
                    for s2, n, fs in x.tagged(s1, v, rt):
                        ev = s2.ev[n0:]
                        if lat:
                            x.put(s2, 'latched', 'proved' if n == 'None' and not ev else 'violated', 'after an error the iterator still %s' % ('yields a value' if n == 'Some' else 'draws from the generator'))
                            new.append((s2, o, True)); continue
                        if len(ev) != 1: x.put(s2, 'draw', 'violated' if not ev else 'undecided', 'next draws %d values' % len(ev)); continue
                        good = s2.bounds(ev[0][2])[0] >= 1; failed = s2.bounds(ev[0][2])[1] <= 0
                        if n == 'Some':
                            x.put(s2, 'value', 'proved' if good and s2.same(fs[0], ev[0][1]) else 'violated', 'yields a value the generator did not return')
                        else: x.put(s2, 'end', 'proved' if failed else 'violated', 'ends although the generator returned a value')
                        new.append((s2, o, n == 'None'))
            elif ch == 'e':
                rt = lib.P.fns[le['inst']]['locals'][0]
                for s1, v in I.call(s, le['inst'], a):
                    for s2, n, fs in x.tagged(s1, v, rt):
                        x.put(s2, 'last_error', 'proved' if (n == 'Some') == lat else 'violated', 'last_error is %s %s an error' % (n, 'after' if lat else 'without'))
                        if n == 'Some' and lat:
                            kr = find(r'\bRandError::kind$')
                            for s3, kv in I.call(s2, kr['inst'], [fs[0]]):
                                for s4, kn, _ in x.tagged(s3, kv, lib.P.fns[kr['inst']]['locals'][0]):
                                    x.put(s4, 'last_error kind', 'proved' if kn == 'NoNewRandNumberGen' else 'violated', 'last_error reports %s' % kn)
                                    new.append((s4, o, lat))
                        else: new.append((s2, o, lat))
            elif ch == 'c':
                for s1, v in I.call(s, ce['inst'], a): new.append((s1, o, False))
        paths = new
        x.panics(st)
    if not x.res: x.res.append((key, 'undecided', 'no outcome'))
    return x.res

# ---------------------------------------------------------------- parameter validation
def run_valid(name, T, w):
    """new() accepts exactly the documented parameters"""
    B = TB[T]; MAX = (1 << B) - 1
    key = '%s<%s>::new%s' % (name, T, '' if w is None else ' w=%s' % w)
    x = simple(T); I = x.I; x.key = key; x.err = []
    r = new_root(name, T)
    I.nocontract = set(I.nocontract) | {r['inst']}
    st = State()
    V = lambda n: fresh_in(0, MAX, n)
    if name == 'LinearCongruentialRand':
        a, c, m = V('a'), V('c'), V('m')
        args = [a, c, m]; conds = [('m >= 1', c_ge(sub(m, 1)))]; kind = 'DivisorIsZero'
    elif name == 'LaggedFibonacciRand':
        W_, s_, r_ = V('w'), V('s'), V('r')
        args = [W_, s_, r_]; kind = 'InvalidRngPara'
        conds = [('w >= 1', c_ge(sub(W_, 1))), ('w <= %d' % B, c_ge(sub(B, W_))), ('s >= 1', c_ge(sub(s_, 1))), ('s < r', c_ge(sub(sub(r_, s_), 1)))]
    else:
        n, m, rr, a, u, d, s_, b, t, c, l, f = [V(q) for q in 'n m r a u d s b t c l f'.split()]
        args = [w, n, m, rr, a, ('A', (u, d)), ('A', (s_, b)), ('A', (t, c)), l, f]; kind = 'InvalidRngPara'
        M = (1 << w) - 1
        conds = [('0 < w <= %d' % B, 1 <= w <= B), ('1 <= m', c_ge(sub(m, 1))), ('m <= n', c_ge(sub(n, m)))]
        for q, v in (('r', rr), ('u', u), ('s', s_), ('t', t)): conds += [('0 < %s' % q, c_ge(sub(v, 1))), ('%s < w' % q, c_ge(sub(w - 1, v)))]
        conds.append(('l < w', c_ge(sub(w - 1, l))))
        for q, v in (('a', a), ('d', d), ('b', b), ('c', c), ('f', f)): conds += [('0 < %s' % q, c_ge(sub(v, 1))), ('%s <= 2^w - 1' % q, c_ge(sub(M, v)))]
    outs = I.call(st, r['inst'], [seedobj(I, st, r, 0)] + args)
    def k(s, n, fs, rt):
        if n == 'Ok':
            for nm, cd in conds:
                z, wt = decide(I, s, cd)
                x.put(s, nm, z, 'accepts parameters with not(%s), e.g. %s' % (nm, wt))
            return
        for s2, kn in kind_of(x, s, fs[0], vtype(I, rt, 'Err')):
            if kn == 'NoNewRandSeedGen':
                x.put(s2, 'seed error', 'proved' if any(s2.bounds(e[2])[1] <= 0 for e in s2.ev) else 'violated', 'seed error without a failed seed'); continue
            if kn != kind: x.put(s2, 'kind', 'violated', 'error kind %s' % kn); continue
            allc = True
            for nm, cd in conds: allc = c_and(allc, cd)
            z, wt = decide(I, s2, c_not(allc))
            x.put(s2, 'rejects', z, 'rejects documented parameters, e.g. %s' % (wt,))
    x.note(r, outs, k)
    x.panics(st)
    if not x.res: x.res.append((key, 'undecided', 'no outcome'))
    return x.res

# ---------------------------------------------------------------- named engines
NAMED = {'minstd_rand0': [16807, 0, 2147483647], 'minstd_rand': [48271, 0, 2147483647],
  'mt19937': [32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253],
  'mt19937_64': [64, 312, 156, 31, 0xb5026f5aa96619e9, 29, 0x5555555555555555, 17, 0x71d67fffeda60000, 37, 0xfff7eee000000000, 43, 6364136223846793005],
  'ranlux24_base': [24, 10, 24], 'ranlux48_base': [48, 5, 12]}
ENGINE = {'minstd_rand0': 'LinearCongruentialRand', 'minstd_rand': 'LinearCongruentialRand', 'mt19937': 'MersenneTwisterRand', 'mt19937_64': 'MersenneTwisterRand',
  'ranlux24_base': 'LaggedFibonacciRand', 'ranlux48_base': 'LaggedFibonacciRand'}
def run_named(nm):
    """the exported macro hands the published parameters to the engine (read from the macro's tokens)"""
    import os
    key = '%s! parameters' % nm
    for d, _, fs in os.walk(os.path.join(lib.REPO, 'src')):
        for fn in fs:
            if not fn.endswith('.rs'): continue
            t = open(os.path.join(d, fn), encoding='utf-8', errors='replace').read()
            t = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', t, flags=re.S))
            mm = re.search(r'macro_rules!\s*%s\s*\{(.*?)=>\s*\{(.*?)\}\s*;?\s*\}' % nm, t, re.S)
            if not mm: continue
            b = mm.group(2)
            cl = re.search(r'(\w+)\s*(?:::\s*<[^>]*>)?\s*::\s*new\s*\((.*)\)\s*;?\s*$', b.strip(), re.S)
            if not cl: return [(key, 'undecided', 'not a single constructor call')]
            a = cl.group(2).split(',', 1)
            if len(a) != 2: return [(key, 'undecided', 'no arguments')]
            toks = [x.strip() for x in re.sub(r'[()]', ' ', a[1]).split(',')]
            vals = []
            for x in toks:
                if not x: continue
                q = re.fullmatch(r'(0x[0-9a-fA-F_]+?|0b[01_]+?|[0-9][0-9_]*?)(?:_?(?:u32|u64|usize))?', x)
                if not q: return [(key, 'undecided', 'argument %s is not a literal' % x)]
                vals.append(int(q.group(1).replace('_', ''), 0))
            if cl.group(1) != ENGINE[nm]: return [(key, 'undecided', 'built with %s' % cl.group(1))]
            if vals == NAMED[nm]: return [(key, 'proved', fn)]
            bad = [(i, v, w) for i, (v, w) in enumerate(zip(vals, NAMED[nm])) if v != w]
            return [(key, 'violated', '%s: parameters %s, published %s' % (fn, [v for _, v, _ in bad] or vals, [w for _, _, w in bad] or NAMED[nm]))]
    return [(key, 'violated', 'the macro does not exist')]

def specs(which):
    th = lib.TIER == 'thorough'
    out = []
    if which == 'lcg':
        for nm in ('minstd_rand0', 'minstd_rand'): out.append(('named', nm))
        for T in TB:
            for par in (None, (16807, 0, 2147483647), (48271, 0, 2147483647), (40014, 0, 2147483563)):
                out.append(('lcg', T, par, 'gen'))
    if which == 'mt':
        for nm in ('mt19937', 'mt19937_64'): out.append(('named', nm))
        for T in TB:
            ex = MT32 if TB[T] == 32 else MT64
            for n, m in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (5, 3), (624, 397) if TB[T] == 32 else (312, 156)] + ([(4, 1), (4, 3), (5, 2), (6, 4), (17, 9), (100, 99), (100, 1)] if th else []):
                out.append(('mt', T, TB[T], n, m, ex, 'gen'))
            for n, m in [(3, 2), (7, 3)]: out.append(('mt', T, 24, n, m, MT24, 'gen'))
    if which == 'lfr':
        for nm in ('ranlux24_base', 'ranlux48_base'): out.append(('named', nm))
        for T in TB:
            for w, s, r in [(24, 1, 2), (24, 1, 3), (24, 2, 3), (32, 1, 2), (24, 10, 24)] + ([(48, 1, 2), (64, 1, 2), (48, 5, 12), (48, 1, 3), (64, 2, 3)] if TB[T] == 64 else []):
                out.append(('lfr', T, w, s, r, 'gen'))
    if which == 'reset':
        for T in TB:
            for k in (0, 1, 2): out.append(('lcg', T, None, 'reset%d' % k))
            for k in (0, 1, 2, 3, 4, 7): out.append(('mt', T, TB[T], 3, 2, MT32 if TB[T] == 32 else MT64, 'reset%d' % k))
            for k in (0, 1, 2, 3): out.append(('lfr', T, 24, 1, 2, 'reset%d' % k))
    if which == 'hw':
        for T in TB:
            out.append(('hw', 'DefaultSeed', T)); out.append(('hw', 'DefaultRand', T)); out.append(('hw', 'CryptoRand', T))
    if which == 'iter':
        for nm in ('DefaultRand', 'CryptoRand'):
            for T in TB:
                for sc in ('Inenecn', 'Innnecen', 'Nnenecn', 'Iecnnen'): out.append(('iter', nm, T, sc))
    if which == 'valid':
        for T in TB:
            out.append(('valid', 'LinearCongruentialRand', T, None)); out.append(('valid', 'LaggedFibonacciRand', T, None))
            for w in [0, 1, 2, 3, 16, 24, 31, 32, 33, 48, 63, 64, 65, 1 << 20] + (list(range(4, 70)) if th else []):
                out.append(('valid', 'MersenneTwisterRand', T, w))
    return out
def run_hws(name, T):
    if name == 'DefaultSeed': return run_hw(lambda: find(r'^<.*\bDefaultSeed<%s> as .*Seed<%s>>::seed$' % (T, T)), T, 'DefaultSeed<%s>::seed' % T, 'NoNewRandSeedGen')
    return run_hw(lambda: gen_root(name, T), T, '%s<%s>::gen' % (name, T), 'NoNewRandNumberGen')
def job(spec):
    return {'named': run_named, 'hw': run_hws, 'iter': run_iter, 'valid': run_valid, 'mt': run_mt, 'lcg': run_lcg, 'lfr': run_lfr}[spec[0]](*spec[1:])
