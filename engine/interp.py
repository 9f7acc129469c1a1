"""Abstract interpreter over monomorphised MIR."""
import sys, time
from dom import *
import dom
from mir import Prog
HEAP = 1 << 40
VLEN_MAX = 1 << 60
class Split(Exception):
    def __init__(self, states): self.states = states
class Bottom(Exception): pass
class Budget(Exception): pass
class Panic:
    __slots__ = ('st', 'kind', 'where', 'msg', 'stack')
    def __init__(self, st, kind, where, msg, stack):
        self.st = st; self.kind = kind; self.where = where; self.msg = msg; self.stack = stack
class Interp:
    def __init__(self, prog, K=8, budget=400000):
        self.exact = False
        self.remof = {}          # remainders by the term that denotes them
        self.recmax = 1; self.oprem = False; self.maxdeg = 9
        self.bezout = False      # record a*x + b*y == gcd(a, b) where the gcd contract is applied
        self.induct = None       # (levels, contract): hypothesis for a recursive call
        self.p = prog; self.T = prog.types; self.F = prog.fns
        self.K = K
        self.budget0 = budget
        self.models = {}
        self.contracts = {}
        self.loc_types = {}
        self.leafc = {}
        self.reset()
    def reset(self):
        reset_atoms()
        self.stack = []          # (inst, line)
        self.nheap = HEAP
        self.shrs = {}
        self.vern = 0
        self.versite = {}
        self.oinfo = {}          # heap obj -> (label, ty)
        self.cmem = {}           # constant objects
        self.ccache = {}
        self.panics = []; self.remof = {}
        self.steps = 0
        self.budget = self.budget0
        self.unmod = {}
        self.called = set()
        self.line = 0
        self.pinned = set()
        self.inl = 0
        self.hooks = None; self.coarse = False; self.templates = False; self.refute = False; self.templ_extra = []; self.blens = {}; self.nocontract = set(); self.contract_used = set(); self.inputs = []
        self.stats = {'blocks': 0, 'loops': 0, 'calls': 0}
    # ------------------------------------------------------------ types
    def ty(self, t): return self.T[t]
    def trange(self, t):
        x = self.T[t]; k = x['k']
        if k == 'int':
            b = x['bits']
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if x['signed'] else (0, (1 << b) - 1)
        if k == 'char': return (0, 0x10FFFF)
        if k == 'bool': return (0, 1)
        if k == 'pat': return self.trange(x['elem'])
        return (NEG, POS)
    def leaf(self, t):
        """path of single-nonzst-field descents and the leaf type"""
        r = self.leafc.get(t)
        if r is not None: return r
        path = []; c = t
        while True:
            x = self.T[c]
            if x['k'] == 'pat': c = x['elem']; continue
            fs = None
            if x['k'] == 'adt' and x['akind'] == 'Struct': fs = [f[1] for f in x['variants'][0]['fields']]
            elif x['k'] == 'adt' and x['akind'] == 'Union':
                fs = None
            elif x['k'] == 'tuple': fs = x['elems']
            if not fs: break
            nz = [i for i, f in enumerate(fs) if self.T[f].get('size', 1) != 0]
            if len(nz) != 1: break
            path.append(nz[0]); c = fs[nz[0]]
        r = self.leafc[t] = (tuple(path), c)
        return r
    def field_tys(self, t, v=0):
        x = self.T[t]
        if x['k'] == 'adt': return [f[1] for f in x['variants'][v]['fields']]
        if x['k'] == 'tuple': return x['elems']
        if x['k'] == 'closure': return x.get('upvars', [])
        return []
    # ------------------------------------------------------------ values
    def newver(self):
        self.vern += 1
        self.versite[self.vern] = self.where()
        return self.vern
    def where(self):
        """innermost frame in the analysed crate"""
        for inst, line in reversed([(s[0], s[2]) for s in self.stack]):
            f = self.F[inst]
            if f['crate'] == 'rmath': return (f['def'], line)
        return ('?', 0)
    def newobj(self, st, val, label=None, ty=None):
        self.nheap += 1
        o = self.nheap
        st.mem[o] = val
        self.oinfo[o] = (label, ty, self.where() if self.stack else None)
        return o
    def seq(self, ety, summ=None, cells=None, val=None, ver=None):
        if summ is None: summ = self.top_summ(ety)
        return ('S', cells or {}, summ, val, self.newver() if ver is None else ver, ety)
    def top_summ(self, ety):
        if ety is None: return None
        x = self.T[ety]
        if x['k'] in ('int', 'char'): return ('R',) + self.trange(ety)
        return None
    def havoc(self, st, t, depth=0):
        """an arbitrary value of type t"""
        x = self.T[t]; k = x['k']
        if k in ('int', 'char'):
            lo, hi = self.trange(t); return fresh(lo, hi)
        if k == 'bool': return fresh_bool()
        if k == 'float': return ('D', fresh(NEG, POS, 'float'))
        if k == 'pat': return self.havoc(st, x['elem'], depth)
        if k in ('fndef',): return ('F', x.get('inst'))
        if x.get('size') == 0 and k in ('adt', 'tuple', 'closure'): 
            if k == 'adt' and x['akind'] == 'Enum': return ('E', 0, (tuple(('T', f) for f in self.field_tys(t, 0)),))
            return ('A', tuple(self.havoc(st, f, depth + 1) for f in self.field_tys(t)))
        if k in ('adt', 'tuple', 'closure', 'array', 'ref', 'ptr', 'dyn', 'other', 'fnptr', 'never', 'str', 'slice'):
            return ('T', t)
        return ('T', t)
    def materialize(self, st, t, label='unk'):
        """one level of structure for a lazily unknown value"""
        x = self.T[t]; k = x['k']
        if k in ('int', 'char', 'bool', 'float', 'pat', 'fndef'): return self.havoc(st, t)
        if k == 'adt':
            n = x['adt']
            if n == 'std::vec::Vec' and x['args']:
                o = self.newobj(st, self.seq(x['args'][0], ver=0), label, x['args'][0])
                ln = fresh(0, VLEN_MAX, 'len')
                return self.mkvec(t, ('P', o, (('i', 0),), None), fresh(0, VLEN_MAX, 'cap'), ln)
            if x['akind'] == 'Struct':
                return ('A', tuple(self.havoc(st, f) for f in self.field_tys(t)))
            if x['akind'] == 'Enum':
                n = len(x['variants'])
                pl = tuple(tuple(self.havoc(st, f) for f in self.field_tys(t, i)) for i in range(n))
                if n == 1 or x.get('size') == 0: return ('E', 0, pl)
                tag = fresh(0, n - 1, 'tag')
                return ('E', tag, pl)
            if x['akind'] == 'Union':
                fs = [f for f in self.field_tys(t) if self.T[f].get('size', 0)]
                if fs: return self.materialize(st, fs[0])
            return ('T', t)
        if k in ('tuple', 'closure'):
            return ('A', tuple(self.havoc(st, f) for f in self.field_tys(t)))
        if k == 'array':
            return self.seq(x['elem'], ver=0)
        if k in ('ref', 'ptr'):
            e = x['elem']; ek = self.T[e]['k']
            if ek == 'slice':
                o = self.newobj(st, self.seq(self.T[e]['elem'], ver=0), label, e)
                return ('P', o, (('i', 0),), fresh(0, VLEN_MAX, 'len'))
            if ek == 'str':
                o = self.newobj(st, self.seq(self.u8(), ver=0), label, e)
                return ('P', o, (('i', 0),), fresh(0, VLEN_MAX, 'len'))
            if ek == 'dyn':
                o = self.newobj(st, ('T', e), label, e)
                return ('P', o, (), ('dyn', None))
            if k == 'ptr' and ek == 'int':
                o = self.newobj(st, self.seq(e, ver=0), label, e)
                return ('P', o, (('i', 0),), None)
            o = self.newobj(st, ('T', e), label, e)
            return ('P', o, (), None)
        return ('T', t)
    def u8(self): return self.p.tyname['u8']
    def tid(self, n): return self.p.tyname[n]
    def mkvec(self, t, ptr, cap, ln):
        """build a Vec<T> value following the type's actual layout"""
        x = self.T[t]
        def build(ty):
            y = self.T[ty]
            if y['k'] in ('ptr',): return ptr
            if y['k'] == 'pat': return build(y['elem'])
            if y['k'] == 'int': return cap
            if y.get('size') == 0: return UNIT
            return ('A', tuple(build(f) for f in self.field_tys(ty)))
        fs = x['variants'][0]['fields']
        vals = []
        for n, ty in fs:
            vals.append(ln if n == 'len' else build(ty))
        return ('A', tuple(vals))
    # ------------------------------------------------------------ constants
    def cval(self, t, v):
        x = self.T[t]
        if 'i' in v:
            if x['k'] == 'bool': return v['i'] != 0
            return v['i']
        if 'ibig' in v: return int(v['ibig'])
        if 'fbits' in v: return ('D', ('c', v['fbits'], v['fsize']))
        if 'str' in v:
            s = v['str'].encode('utf8')
            return ('P', ('str', s), (('i', 0),), len(s))
        if 'zst' in v:
            if x['k'] == 'fndef': return ('F', x.get('inst'))
            if x['k'] == 'adt' and x['akind'] == 'Enum': return ('E', 0, ((),))
            return ('A', tuple(self.cval(f, {'zst': None}) for f in self.field_tys(t)))
        if 'agg' in v:
            if x['k'] == 'adt' and x['akind'] == 'Enum':
                n = len(x['variants'])
                vi = v.get('var', 0)
                fs = self.field_tys(t, vi)
                pl = [None] * n
                pl[vi] = tuple(self.cval(f, a) for f, a in zip(fs, v['agg']))
                return ('E', vi, tuple(pl))
            fs = self.field_tys(t)
            return ('A', tuple(self.cval(f, a) for f, a in zip(fs, v['agg'])))
        if 'arr' in v:
            e = x['elem'] if x['k'] in ('array', 'slice') else x['elem']
            cells = {i: self.cval(e, a) for i, a in enumerate(v['arr'])}
            summ = None
            if self.T[e]['k'] in ('int', 'char') and cells and all(type(c) is int for c in cells.values()):
                summ = ('R', min(cells.values()), max(cells.values()))
            return ('S', cells, summ or self.top_summ(e), None, 0, e)
        if 'ref' in v:
            e = x['elem']
            o = ('cst', t, repr(v))
            if o not in self.cmem: self.cmem[o] = self.cval(e, v['ref'])
            if v.get('slice'):
                return ('P', o, (('i', 0),), len(v['ref']['arr']))
            return ('P', o, (), None)
        if 'fnref' in v: return ('F', v['fnref'])
        if 'addr' in v: return int(v['addr'])
        if 'static' in v:
            o = ('static', v['static'])
            if o not in self.cmem: self.cmem[o] = ('T', x.get('elem', t))
            return ('P', o, (), None)
        return ('T', t)
    def const(self, op):
        k = id(op)
        r = self.ccache.get(k)
        if r is None:
            r = self.ccache[k] = self.cval(op[1], op[2])
        return r
    def cobj(self, o):
        v = self.cmem.get(o)
        if v is None:
            if o[0] == 'str':
                s = o[1]
                b = list(s)
                v = ('S', dict(enumerate(b)) if len(b) <= 512 else {}, ('R', min(b), max(b)) if b else ('R', 0, 255), None, 0, self.u8())
                self.cmem[o] = v
            else: raise KeyError(o)
        return v
    # ------------------------------------------------------------ memory
    def getobj(self, st, o):
        v = st.mem.get(o)
        if v is None:
            if type(o) is tuple: return self.cobj(o)
            return None
        return v
    def load(self, st, obj, path):
        v = self.getobj(st, obj)
        if v is None:
            # uninitialised / dropped local
            f = self.loc_types.get(obj)
            if f is None: raise Bottom()
            v = ('T', f)
            st.mem[obj] = v
        if not path:
            if type(v) is tuple and v and v[0] == 'T' and self.T[v[1]]['k'] in ('int', 'char', 'bool', 'float', 'pat'):
                v = self.havoc(st, v[1])
                if type(obj) is not tuple: st.mem[obj] = v
            return v
        for i, p in enumerate(path):
            if type(v) is tuple and v[0] == 'T':
                v = self.materialize(st, v[1])
                self.rawstore(st, obj, path[:i], v)
            while type(p) is tuple and p[0] == 'i' and v[0] == 'A' and len(v[1]) == 1: v = v[1][0]
            if type(p) is int:
                if v[0] == 'A':
                    v = v[1][p]
                elif v[0] == 'S' and p == 0: pass
                else: raise Bottom()
            elif p[0] == 'v':
                if v[0] != 'E': raise Bottom()
                if p[1] >= len(v[2]) or v[2][p[1]] is None: raise Bottom()
                v = ('A', v[2][p[1]])
            else:
                if v[0] != 'S':
                    if p[1] == 0: continue
                    st.flag('index into non-sequence')
                    raise Bottom()
                v = self.seqload(st, obj, path[:i], v, p[1])
        if type(v) is tuple and v and v[0] == 'T' and self.T[v[1]]['k'] in ('int', 'char', 'bool', 'float', 'pat'):
            v = self.havoc(st, v[1])
            if type(obj) is not tuple: self.rawstore(st, obj, path, v)
        return v
    def seqload(self, st, obj, spath, s, idx):
        cells = s[1]
        v = cells.get(idx)
        if v is not None: return v
        c = st.cst(idx)
        if c is not None and c in cells: return cells[c]
        if type(idx) is not int or len(cells):
            for k, cv in cells.items():
                if type(k) is int and type(idx) is int: continue
                if st.same(k, idx): return cv
        summ = s[2]
        if summ is not None and summ[0] == 'R':
            if summ[1] == summ[2]: return summ[1]
            v = fresh(summ[1], summ[2], 'elem')
        elif summ is not None and summ[0] == 'V':
            v = summ[1]
        elif s[5] is None:
            v = fresh(0, (1 << 64) - 1, 'uninit')
        else:
            v = self.havoc(st, s[5])
        if type(obj) is tuple: return v
        nc = dict(cells); nc[idx] = v
        self.rawstore(st, obj, spath, ('S', nc, s[2], s[3], s[4], s[5]))
        return v
    def rawstore(self, st, obj, path, val):
        if not path:
            st.mem[obj] = val; return
        st.mem[obj] = self.upd(st, st.mem[obj], path, 0, val, raw=True)
    def upd(self, st, v, path, i, val, raw=False):
        if i == len(path): return val
        p = path[i]
        if type(v) is tuple and v[0] == 'T': v = self.materialize(st, v[1])
        if type(p) is tuple and p[0] == 'i' and v[0] == 'A' and len(v[1]) == 1:
            return ('A', (self.upd(st, v[1][0], path, i, val, raw),))
        if type(p) is int:
            if v[0] == 'S': return self.upd(st, v, path, i + 1, val, raw)
            f = list(v[1])
            f[p] = self.upd(st, f[p], path, i + 1, val, raw)
            return ('A', tuple(f))
        if p[0] == 'v':
            pl = list(v[2])
            cur = pl[p[1]]
            if cur is None: raise Bottom()
            pl[p[1]] = self.upd(st, ('A', cur), path, i + 1, val, raw)[1]
            return ('E', v[1], tuple(pl))
        if v[0] != 'S':
            if p[1] == 0: return self.upd(st, v, path, i + 1, val, raw)
            st.flag('store into non-sequence'); raise Bottom()
        idx = p[1]
        c = st.cst(idx)
        if c is not None: idx = c
        if i + 1 < len(path):
            old = v[1].get(idx)
            if old is None:
                for k, cv in v[1].items():
                    if st.same(k, idx): old = cv; break
            if old is None: old = ('T', v[5])
            val = self.upd(st, old, path, i + 1, val, raw)
        return self.seqstore(st, v, idx, val, raw)
    def seqstore(self, st, s, idx, val, raw=False):
        cells = s[1]
        if raw:
            nc = dict(cells); nc[idx] = val
            return ('S', nc, s[2], s[3], s[4], s[5])
        nc = {}
        same = False
        for k, cv in cells.items():
            if k == idx:
                same = (cv == val); continue
            if type(k) is int and type(idx) is int: nc[k] = cv; continue
            lo, hi = st.bounds(sub(k, idx))
            if lo > 0 or hi < 0: nc[k] = cv; continue
            if lo == hi == 0:
                same = (cv == val); continue
            e = st.ne.get(c_eq(sub(k, idx))[2][2]) if not (type(sub(k, idx)) is int) else None
            if e is not None:
                l = c_eq(sub(k, idx))[2]
                if -l[1] in e: nc[k] = cv; continue
            # may alias: drop
        if same:
            return s
        nc[idx] = val
        summ = s[2]
        if summ is not None and summ[0] == 'R':
            if is_int(val):
                lo, hi = st.bounds(val)
                summ = ('R', min(summ[1], lo), max(summ[2], hi))
            else: summ = None
        elif summ is not None and summ[0] == 'N':
            summ = ('R',) + st.bounds(val) if is_int(val) else ('V', val)
        elif summ is not None and summ[0] == 'V' and summ[1] != val: summ = None
        return ('S', nc, summ, None, self.newver(), s[5])
    def store(self, st, obj, path, val):
        if type(obj) is tuple:
            st.flag('write to constant'); return
        if not path:
            st.mem[obj] = val; return
        v = st.mem.get(obj)
        if v is None:
            t = self.loc_types.get(obj)
            if t is None: raise Bottom()
            v = ('T', t)
        st.mem[obj] = self.upd(st, v, path, 0, val)
    # ------------------------------------------------------------ places
    def deref(self, st, v, obj, path, ety):
        """pointer value -> (obj,path,meta); v was loaded from (obj,path)"""
        while type(v) is tuple and v[0] == 'A':
            # Box / NonNull wrappers
            nz = [i for i, x in enumerate(v[1]) if not (type(x) is tuple and x and x[0] == 'A' and self.iszst(x))]
            if not nz: raise Bottom()
            path = path + (nz[0],)
            v = v[1][nz[0]]
        if type(v) is tuple:
            if v[0] == 'P': return v[1], v[2], v[3]
            if v[0] == 'T':
                n = self.materialize(st, v[1])
                if n[0] in ('P', 'A'):
                    self.rawstore(st, obj, path, n)
                    return self.deref(st, n, obj, path, ety)
            if v[0] == 'Q':
                out = []
                for q in v[1]:
                    s2 = st.copy(); s2.flag('merged pointer')
                    self.rawstore(s2, obj, path, q)
                    out.append(s2)
                raise Split(out)
        # unknown pointer
        st.flag('unknown pointer')
        if ety is None: raise Bottom()
        k = self.T[ety]['k']
        if k in ('slice', 'str'):
            et = self.T[ety]['elem'] if k == 'slice' else self.u8()
            o = self.newobj(st, self.seq(et), 'unk', ety); p = ('P', o, (('i', 0),), fresh(0, VLEN_MAX, 'len'))
        else:
            o = self.newobj(st, ('T', ety), 'unk', ety); p = ('P', o, (), None)
        self.rawstore(st, obj, path, p)
        return p[1], p[2], p[3]
    def iszst(self, v):
        if v[0] != 'A': return False
        return all(type(x) is tuple and x and (x[0] == 'A' and self.iszst(x) or x[0] == 'F') for x in v[1])
    def resolve(self, st, fr, place):
        obj = fr.base + place[0]; path = (); meta = None
        if len(place) == 1: return obj, path, meta
        tys = fr.ptys(place)
        for n, e in enumerate(place[1:]):
            if e == '*':
                v = self.load(st, obj, path)
                obj, path, meta = self.deref(st, v, obj, path, tys[n + 1])
            elif e == 'ocast': pass
            else:
                k = e[0]
                if k == 'f':
                    pt = self.T[tys[n]] if tys[n] is not None else None
                    if not (pt is not None and pt['k'] == 'adt' and pt['akind'] == 'Union'): path = path + (e[1],)
                    meta = None
                elif k == 'as': path = path + (('v', e[1]),); meta = None
                else:
                    slicem = meta is not None
                    if k == 'idx':
                        i = st.mem[fr.base + e[1]]
                        path = self.pidx(path, i, slicem); meta = None
                    elif k == 'cidx':
                        ln = meta if slicem else self.T[tys[n]].get('n', 0)
                        i = sub(ln, e[1]) if e[3] else e[1]
                        path = self.pidx(path, i, slicem); meta = None
                    elif k == 'sub':
                        ln = meta if slicem else self.T[tys[n]].get('n', 0)
                        path = self.pidx(path, e[1], slicem)
                        meta = sub(sub(ln, e[2]), e[1]) if e[3] else e[2] - e[1]
                    else: raise Bottom()
        return obj, path, meta
    def pidx(self, path, i, slicem):
        if slicem and path and type(path[-1]) is tuple and path[-1][0] == 'i':
            return path[:-1] + (('i', add(path[-1][1], i)),)
        return path + (('i', i),)
    def operand(self, st, fr, o):
        k = o[0]
        if k == 'const': return self.const(o)
        if k == 'rtcheck': return False if o[1] == 'ub' else True
        p = o[1]
        if len(p) == 1:
            v = st.mem.get(fr.base + p[0])
            if v is None:
                v = self.zst_or_bottom(st, fr, p[0])
            return self.settle(st, fr.base + p[0], (), v)
        obj, path, meta = self.resolve(st, fr, p)
        return self.settle(st, obj, path, self.load(st, obj, path))
    def settle(self, st, obj, path, v):
        """scalars hidden in a lazily unknown value become concrete atoms"""
        if type(v) is tuple and v and v[0] == 'T' and self.T[v[1]]['k'] in ('ref', 'ptr', 'adt', 'tuple', 'closure', 'array', 'int', 'bool', 'char', 'float', 'pat'):
            n = self.materialize(st, v[1])
            if n != v and type(obj) is not tuple:
                self.rawstore(st, obj, path, n)
            return n
        return v
    def zst_or_bottom(self, st, fr, l):
        t = fr.f['locals'][l]
        v = self.havoc(st, t)
        st.mem[fr.base + l] = v
        return v
    # ------------------------------------------------------------ ints
    def wrapint(self, st, x, t, tag='wrap'):
        lo, hi = self.trange(t)
        bl, bh = st.bounds(x)
        if bl >= lo and bh <= hi: return x
        n = hi - lo + 1
        if type(x) is int: return (x - lo) % n + lo
        if self.lazyov:
            for a, k in x[2]:
                ak = A_key[a]
                if ak[0] == tag and ak[2] == lo and ak[3] == hi: x = add(sub(x, ('L', 0, ((a, k),))), scale(ak[1], k))
                if type(x) is int: return (x - lo) % n + lo
            bl, bh = st.bounds(x)
        # whole interval in a single period
        q1, q2 = (bl - lo) // n, (bh - lo) // n
        if q1 == q2: return sub(x, q1 * n)
        if self.exact and lo == 0: return self.lowhigh(st, x, n.bit_length() - 1)[0]
        return intern((tag, x, lo, hi), lo, hi)
    def lazy_ov(self, st, op, x, y, t):
        lo, hi = self.trange(t)
        r = add(x, y) if op == 'Add' else sub(x, y) if op == 'Sub' else self.mul(st, x, y)
        return ('A', (self.wrapint(st, r, t), c_or(c_ge(sub(r, hi + 1)), c_ge(sub(lo - 1, r)))))
    def lowhigh(self, st, x, k):
        """x = low + 2^k * high with 0 <= low < 2^k, both linear over value-numbered atoms"""
        n = 1 << k
        if k == 0: return 0, x
        if type(x) is int: return x & (n - 1), x >> k
        # part divisible by 2^k contributes to high only
        sp = [(a, c, (c + n // 2 - 1) >> k) for a, c in x[2]]
        hi = ('L', x[1] >> k, tuple((a, q) for a, c, q in sp if q))
        rest = ('L', x[1] & (n - 1), tuple((a, c - q * n) for a, c, q in sp if c != q * n))
        if not hi[2]: hi = hi[1]
        if not rest[2]: return rest[1], hi
        t = self.tz(('L', 0, rest[2]))
        if 0 < t < k:
            l, h = self.lowhigh(st, ('L', rest[1] >> t, tuple((a, c >> t) for a, c in rest[2])), k - t)
            hi = add(hi, h)
            if self.exact and type(hi) is tuple and 1 < len(hi[2]) < 40:
                bl, bh = st.bounds(x)
                st.set_lo_hi(hi[2], (bl >> k) - hi[1], (bh >> k) - hi[1])
            return add(scale(l, 1 << t), rest[1] & ((1 << t) - 1)), hi
        bl, bh = st.bounds(rest)
        if bl >> k == bh >> k:
            hi = add(hi, bl >> k)
            if self.exact and type(hi) is tuple and 1 < len(hi[2]) < 40:
                l, h = st.bounds(x)
                st.set_lo_hi(hi[2], (l >> k) - hi[1], (h >> k) - hi[1])
            return sub(rest, (bl >> k) << k), hi
        y = rest; k2 = k
        if 2 <= len(rest[2]) <= 6:
            # c*a + small, c a power of two: the quotient is that of a alone when the parts do not overlap
            a, c = max(rest[2], key=lambda p: p[1])
            if 1 < c < n and c & (c - 1) == 0:
                e = c.bit_length() - 1
                oth = ('L', rest[1], tuple(p for p in rest[2] if p[0] != a))
                ol, oh = st.bounds(oth)
                if ol >= 0 and oh < c:
                    l1, h1 = self.lowhigh(st, ('L', 0, ((a, 1),)), k - e)
                    return add(scale(l1, c), oth), add(hi, h1)
        if rest[1] == 0 and len(rest[2]) == 1 and rest[2][0][1] == 1:
            ak = A_key[rest[2][0][0]]
            if ak[0] == 'shr' and type(ak[2]) is int: y = ak[1]; k2 = k + ak[2]
        q = intern(('shr', y, k2), NEG, POS)
        st.set_lo_hi(q[2], bl >> k, bh >> k)
        ks = self.shrs.setdefault(y, {})
        for k1, q1 in ks.items():
            if k1 == k2: continue
            d = sub(q1, scale(q, 1 << (k2 - k1))) if k1 < k2 else sub(q, scale(q1, 1 << (k1 - k2)))
            if type(d) is tuple and len(d[2]) < 40: st.set_lo_hi(d[2], -d[1], (1 << abs(k2 - k1)) - 1 - d[1])
        ks[k2] = q
        low = sub(rest, scale(q, n))
        if len(low[2]) < 40: st.set_lo_hi(low[2], -low[1], n - 1 - low[1])
        if y is not rest:
            d = sub(y, scale(q, 1 << k2))
            if len(d[2]) < 40: st.set_lo_hi(d[2], -d[1], (1 << k2) - 1 - d[1])
        hi = add(hi, q)
        if type(hi) is tuple and 1 < len(hi[2]) < 40:
            bl, bh = st.bounds(x)
            st.set_lo_hi(hi[2], (bl >> k) - hi[1], (bh >> k) - hi[1])
        return low, hi
    def setb(self, st, x, lo, hi):
        """record interval computed for a (value numbered) atom"""
        if type(x) is tuple:
            st.set_lo_hi(x[2], lo - x[1], hi - x[1])
        return x
    def mul(self, st, a, b):
        if type(a) is int: return scale(b, a)
        if type(b) is int: return scale(a, b)
        ca, cb = st.cst(a), st.cst(b)
        if ca is not None: return scale(b, ca)
        if cb is not None: return scale(a, cb)
        # distribute constants so that products are value-numbered on atoms
        al, ah = st.bounds(a); bl, bh = st.bounds(b)
        ps = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = max(min(ps), NEG), min(max(ps), POS)
        if len(a[2]) * len(b[2]) > 60 or max(len(self.factors(x)) for x, _ in a[2]) + max(len(self.factors(y)) for y, _ in b[2]) > self.maxdeg:
            if b < a: a, b = b, a
            r = intern(('mulx', a, b), NEG, POS)
            st.set_lo_hi(r[2], lo, hi)
            return r
        r = 0
        da = list(a[2]) + ([(0, a[1])] if a[1] else [])
        db = list(b[2]) + ([(0, b[1])] if b[1] else [])
        for x, cx in da:
            for y, cy in db:
                if x == 0 and y == 0: r = add(r, cx * cy)
                elif x == 0: r = add(r, ('L', 0, ((y, cx * cy),)))
                elif y == 0: r = add(r, ('L', 0, ((x, cx * cy),)))
                else: r = add(r, scale(self.prod(st, x, y), cx * cy))
        if type(r) is tuple:
            bl, bh = st.bounds(r)
            if lo > bl or hi < bh: st.set_lo_hi(r[2], lo - r[1], hi - r[1])
        return r
    def factors(self, x):
        k = A_key[x]
        return k[1] if k[0] == 'mul' else (x,)
    def prod(self, st, x, y):
        fs = tuple(sorted(self.factors(x) + self.factors(y)))
        (al, ah), (bl, bh) = st.ab(x), st.ab(y)
        ps = [al * bl, al * bh, ah * bl, ah * bh]
        r = intern(('mul', fs), NEG, POS)
        st.set_lo_hi(r[2], max(min(ps), NEG), min(max(ps), POS))
        return r
    def binop(self, st, op, a, b, ta, tb, checked=False):
        ka = self.T[ta]['k']
        if ka in ('ptr', 'ref', 'fnptr') or (type(a) is tuple and a and a[0] in ('P', 'Q', 'U')) or (type(b) is tuple and b and b[0] in ('P', 'Q', 'U')):
            return self.ptrop(st, op, a, b, ta, tb)
        if ka == 'bool':
            return self.boolop(st, op, a, b)
        if ka == 'float':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if a == b and a[0] == 'D' and type(a[1]) is tuple and a[1][0] == 'c':
                    pass
                key = ('fcmp', op, a, b)
                r = self.fcmp(op, a, b)
                if r is None: r = self.fcmpb(st, op, a, b, self.T[ta]['size'])
                if r is not None: return r
                return ('C', 'ne', intern(key, 0, 1))
            if op == 'Mul' and self.T[ta]['size'] == 8:
                for x, y in ((a, b), (b, a)):
                    if type(y[1]) is tuple and y[1][0] == 'c' and y[1][1] % (1 << 63) == 1023 << 52:
                        u = self.fsplit(st, x, 8)            # times +1 or -1
                        if u and u[2] == 'num':
                            return x if y[1][1] == 1023 << 52 else self.fval(add(u[1], 0 if u[0] else 1 << 63), 8)
                    u, v = self.fnorm(st, x, 8), self.fnorm(st, y, 8)
                    if u and v and v[2] == 0:
                        r = self.fmake(st, u[0] ^ v[0], u[1] + v[1], u[2])
                        if r is not None: return r
            if op == 'Div' and self.T[ta]['size'] == 8:
                u, v = self.fnorm(st, a, 8), self.fnorm(st, b, 8)
                if u and v and v[2] == 0:
                    r = self.fmake(st, u[0] ^ v[0], u[1] - v[1], u[2])
                    if r is not None: return r
            return ('D', intern(('f' + op, a, b), NEG, POS))
        if not is_int(a) or not is_int(b):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return fresh_bool()
            lo, hi = self.trange(ta); return fresh(lo, hi)
        if op == 'Eq': return c_eq(sub(a, b))
        if op == 'Ne': return c_ne(sub(a, b))
        if op == 'Lt': return c_ge(sub(sub(b, a), 1))
        if op == 'Le': return c_ge(sub(b, a))
        if op == 'Gt': return c_ge(sub(sub(a, b), 1))
        if op == 'Ge': return c_ge(sub(a, b))
        if op == 'Cmp':
            d = sub(a, b)
            lo, hi = st.bounds(d)
            res = []
            for v, c in ((0, c_ge(sub(-1, d))), (1, c_eq(d)), (2, c_ge(sub(d, 1)))):
                e = st.evalc(c)
                if e is True: return ('E', v, ((), (), ()))
            # undetermined: tag atom tied to the difference by splitting
            outs = []
            for c in (c_ge(sub(-1, d)), c_eq(d), c_ge(sub(d, 1))):
                s2 = st.copy()
                if s2.assume(c): outs.append(s2)
            raise Split(outs)
        lo, hi = self.trange(ta)
        base = op.replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add': r = add(a, b)
            elif base == 'Sub': r = sub(a, b)
            else: r = self.mul(st, a, b)
            bl, bh = st.bounds(r)
            if checked:
                if bl >= lo and bh <= hi: return ('A', (r, False))
                if bl > hi or bh < lo:
                    return ('A', (self.wrapint(st, r, ta), True))
                outs = []
                s1 = st.copy()
                if s1.assume(c_ge(sub(r, lo))) and s1.assume(c_ge(sub(hi, r))): outs.append(s1)
                s2 = st.copy()
                if bh > hi and s2.assume(c_ge(sub(r, hi + 1))): outs.append(s2)
                s3 = st.copy()
                if bl < lo and s3.assume(c_ge(sub(lo - 1, r))): outs.append(s3)
                raise Split(outs)
            if 'Unchecked' in op:
                if bl < lo or bh > hi:
                    if not (st.assume(c_ge(sub(r, lo))) and st.assume(c_ge(sub(hi, r)))): raise Bottom()
                return r
            return self.wrapint(st, r, ta)
        if base in ('Div', 'Rem'):
            cb = st.cst(b)
            if cb is not None and cb > 1 and cb & (cb - 1) == 0 and type(a) is not int and st.bounds(a)[0] >= 0:
                if base == 'Div': return self.binop(st, 'Shr', a, cb.bit_length() - 1, ta, ta)
                return self.band(st, a, cb - 1, ta)
            return self.idiv(st, a, b, ta) if base == 'Div' else self.irem(st, a, b, ta)
        bits = self.T[ta]['bits'] if ka == 'int' else 32
        if base == 'Shl':
            cb = st.cst(b)
            if cb is not None:
                cb %= bits
                r = scale(a, 1 << cb)
                bl, bh = st.bounds(r)
                if bl >= lo and bh <= hi: return r
                if type(r) is int: return (r - lo) % (hi - lo + 1) + lo
                if self.exact and lo == 0: return self.lowhigh(st, r, bits)[0]
                return intern(('shl', a, cb, lo, hi), lo, hi)
            ca = st.cst(a)
            if ca is not None and ca == 0: return 0
            r = intern(('shl', a, b, lo, hi), lo, hi)
            bl, bh = st.bounds(b); al, ah = st.bounds(a)
            if al >= 0 and 0 <= bl and bh < bits and (ah << bh) <= hi:
                self.setb(st, r, al << bl, ah << bh)
            return r
        if base == 'Shr':
            al, ah = st.bounds(a)
            cb = st.cst(b)
            if cb is not None:
                cb %= bits
                if al >> cb == ah >> cb: return al >> cb
                if cb == 0: return a
                # exact division of a scaled linear form
                if type(a) is tuple and a[1] % (1 << cb) == 0 and all(k % (1 << cb) == 0 for _, k in a[2]):
                    return ('L', a[1] >> cb, tuple((x, k >> cb) for x, k in a[2]))
                if self.exact: return self.lowhigh(st, a, cb)[1]
                r = intern(('shr', a, cb), NEG, POS)
                return self.setb(st, r, al >> cb, ah >> cb)
            r = intern(('shr', a, b), lo, hi)
            if al >= 0: self.setb(st, r, 0, ah)
            return r
        if base == 'BitAnd': return self.band(st, a, b, ta)
        if base == 'BitOr':
            if a == b: return a
            if type(b) is int and type(a) is not int: a, b = b, a
            if a == 0: return b
            al, ah = st.bounds(a); bl, bh = st.bounds(b)
            if type(a) is int and type(b) is int: return a | b
            # disjoint bit ranges: sum
            dj = self.disjoint_sum(st, a, b)
            if dj is not None: return dj
            x, y = sorted((a, b), key=repr)
            r = intern(('or', x, y), lo, hi)
            if al >= 0 and bl >= 0:
                self.setb(st, r, max(al, bl), (1 << max(ah.bit_length(), bh.bit_length())) - 1)
            return r
        if base == 'BitXor':
            if a == b: return 0
            if type(a) is int and type(b) is int: return a ^ b
            if type(b) is int and type(a) is not int: a, b = b, a
            if a == 0: return b
            al, ah = st.bounds(a); bl, bh = st.bounds(b)
            x, y = sorted((a, b), key=repr)
            r = intern(('xor', x, y), lo, hi)
            if al >= 0 and bl >= 0:
                self.setb(st, r, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
            return r
        st.flag('binop ' + op)
        return fresh(lo, hi)
    def tz(self, l):
        """number of trailing zero bits guaranteed for a linear form"""
        if type(l) is int: return 200 if l == 0 else (l & -l).bit_length() - 1
        n = 200 if l[1] == 0 else (l[1] & -l[1]).bit_length() - 1
        for _, k in l[2]:
            k = abs(k); n = min(n, (k & -k).bit_length() - 1)
        return n
    def disjoint_sum(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            xl, xh = st.bounds(x)
            yl, yh = st.bounds(y)
            if xl >= 0 and yl >= 0 and xh.bit_length() <= self.tz(y): return add(a, b)
            if self.exact and type(x) is int and x >= 0 and yl >= 0:   # the bits above those that vary are known
                n = min(self.tz(x), 200)
                if yl >> n == yh >> n and yl >> n:
                    K = yl >> n << n
                    return add(sub(y, K), x | K)
        return None
    def band(self, st, a, b, ta):
        if a == b: return a
        if type(b) is int and type(a) is not int: a, b = b, a
        if type(a) is int:
            if type(b) is int: return a & b
            bl, bh = st.bounds(b)
            if a == 0: return 0
            if a > 0 and (a & (a + 1)) == 0 and bl >= 0 and bh <= a: return b
            if bl >= 0 and a >= 0 and self.tz(b) >= a.bit_length(): return 0
            if self.lazyov and bl >= 0 and a & (a + 1) == 0: return intern(('wrap', b, 0, a), 0, a)
            if self.exact and a > 0:
                i = (a & -a).bit_length() - 1
                if (a >> i) & ((a >> i) + 1) == 0:      # contiguous mask
                    return scale(self.lowhigh(st, self.lowhigh(st, b, a.bit_length())[0], i)[1], 1 << i)
                if bl >= 0:                             # a few runs of ones
                    runs = []; k = 0
                    while a >> k:
                        if not a >> k & 1: k += 1; continue
                        j = k
                        while a >> j & 1: j += 1
                        runs.append((k, j)); k = j
                    if len(runs) <= 3:
                        r = 0
                        for k, j in runs: r = add(r, scale(self.lowhigh(st, self.lowhigh(st, b, j)[0], k)[1], 1 << k))
                        return r
            lo, hi = self.trange(ta)
            r = intern(('and', a, b), 0 if a >= 0 or lo >= 0 else lo, a if a >= 0 else hi)
            if bl >= 0: self.setb(st, r, 0, min(bh, a) if a >= 0 else bh)
            return r
        al, ah = st.bounds(a); bl, bh = st.bounds(b)
        x, y = sorted((a, b), key=repr)
        lo, hi = self.trange(ta)
        r = intern(('and', x, y), lo, hi)
        if al >= 0 and bl >= 0: self.setb(st, r, 0, min(ah, bh))
        elif al >= 0: self.setb(st, r, 0, ah)
        elif bl >= 0: self.setb(st, r, 0, bh)
        return r
    def idiv(self, st, a, b, ta):
        lo, hi = self.trange(ta)
        ca, cb = st.cst(a), st.cst(b)
        if cb == 1: return a
        if ca is not None and cb is not None and cb != 0:
            q = abs(ca) // abs(cb)
            return q if (ca < 0) == (cb < 0) else -q
        al, ah = st.bounds(a); bl, bh = st.bounds(b)
        r = intern(('div', a, b), lo, hi)
        if al >= 0 and bl >= 0:
            self.setb(st, r, al // max(bh, 1), ah // max(bl, 1))
            if self.exact and bl >= 1:      # 0 <= a - b*q < b
                for k in (32, 64):
                    if (ah // max(bl, 1)) >> k and st.bounds(sub(scale(b, 1 << k), a))[0] >= 1:
                        self.setb(st, r, 0, (1 << k) - 1); break
                m = sub(a, self.mul(st, b, r))
                if type(m) is tuple: st.set_lo_hi(m[2], -m[1], max(min(ah, bh - 1), 0) - m[1])
                st.assume(c_ge(sub(sub(b, m), 1)))
        return r
    def irem(self, st, a, b, ta):
        if self.lazyov and type(b) is int and b > 1 and b & (b - 1) == 0 and type(a) is tuple:
            al, ah = st.bounds(a)
            if al >= 0 and ah >= b: return intern(('wrap', a, 0, b - 1), 0, b - 1)
        lo, hi = self.trange(ta)
        ca, cb = st.cst(a), st.cst(b)
        if cb == 1: return 0
        if ca is not None and cb is not None and cb != 0:
            m = abs(ca) % abs(cb)
            return m if ca >= 0 else -m
        al, ah = st.bounds(a); bl, bh = st.bounds(b)
        if al >= 0 and bl >= 1:
            if st.bounds(sub(b, a))[0] >= 1: return a
        if self.exact and al >= 0 and bl >= 1:
            r = sub(a, self.mul(st, b, self.idiv(st, a, b, ta)))
            if type(r) is tuple: st.set_lo_hi(r[2], -r[1], max(min(ah, bh - 1), 0) - r[1])
            st.assume(c_ge(sub(sub(b, r), 1)))
            return r
        r = intern(('rem', a, b), lo, hi)
        if al >= 0 and bl >= 0:
            self.setb(st, r, 0, max(min(ah, bh - 1), 0))
            if bl >= 1 and type(b) is tuple: st.assume(c_ge(sub(sub(b, r), 1)))
        return r
    def fcmp(self, op, a, b):
        import struct
        def val(x):
            if x[0] == 'D' and type(x[1]) is tuple and x[1][0] == 'c':
                n = x[1][2]
                return struct.unpack('<d' if n == 8 else '<f', x[1][1].to_bytes(n, 'little'))[0]
            return None
        x, y = val(a), val(b)
        if x is None or y is None: return None
        return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
    def fbits(self, a, n):
        """the bit pattern of a float value as a term, or None"""
        if a[0] == 'D' and type(a[1]) is tuple and a[1][0] in ('c', 'bits'): return a[1][1]
        return None
    def fsplit(self, st, a, n):
        """(sign, magnitude bits, 'nan' | 'num') or None"""
        x = self.fbits(a, n)
        if x is None: return None
        SB = 1 << (8 * n - 1); INF = (0x7ff << 52) if n == 8 else (0xff << 23)
        l, h = st.bounds(x)
        if h < SB: s, m = 0, x
        elif l >= SB: s, m = 1, sub(x, SB)
        else: return None
        l, h = st.bounds(m)
        if h <= INF: return s, m, 'num'
        if l > INF: return s, m, 'nan'
        return None
    def fnorm(self, st, a, n):
        """a non-zero finite float with a known exponent: (sign, exponent, fraction * 2^52)"""
        x = self.fsplit(st, a, n) if type(a) is tuple and a[0] == 'D' else None
        if x is None or x[2] != 'num': return None
        s, m, _ = x
        P = 52 if n == 8 else 23; B = 1023 if n == 8 else 127
        l, h = st.bounds(m)
        if l < 1 or h >= (2 * B + 1) << P: return None
        e = l >> P
        if e != h >> P: return None
        if e: return s, e - B, scale(sub(m, e << P), 1 << (52 - P))
        k = l.bit_length() - 1
        if k != h.bit_length() - 1: return None
        return s, k + 1 - B - P, scale(sub(m, 1 << k), 1 << (52 - k))
    def fmake(self, st, s, e, fr):
        """float64 of (-1)^s * (1 + fr / 2^52) * 2^e, or None if not normal"""
        if e > 1023: return ('D', ('c', (s << 63) + (0x7ff << 52), 8))
        if e < -1022:
            v = self.fsub(st, add(fr, 1 << 52), -1022 - e)
            return None if v is None else self.fval(add(v, s << 63), 8)
        v = add(fr, (s << 63) + ((e + 1023) << 52))
        return ('D', ('c', v, 8) if type(v) is int else ('bits', v))
    def fval(self, v, n): return ('D', ('c', v, n) if type(v) is int else ('bits', v))
    def fsub(self, st, m, d):
        """the significand m / 2^d, m in [2^52, 2^53), rounded to nearest even"""
        if d > 53: return 0
        if d == 0: return m
        if type(m) is int:
            q, r = m >> d, 2 * (m & (1 << d) - 1); return q + (r > 1 << d or r == 1 << d and q & 1)
        if not any(c & (1 << d) - 1 for c in [m[1]] + [k for _, k in m[2]]): return mk(m[1] >> d, {a: k >> d for a, k in m[2]})
        r, q = self.lowhigh(st, m, d); H = 1 << d - 1
        def cases(cs):
            outs = []
            for c in cs:
                s2 = st.copy()
                if s2.assume(c): outs.append(s2)
            if len(outs) == 1: return
            raise Split(outs)
        l, h = st.bounds(r)
        if h < H: return q
        if l > H: return add(q, 1)
        if l != h: cases([c_ge(sub(H - 1, r)), c_ge(sub(r, H + 1)), c_eq(sub(r, H))]); return None
        x = self.lowhigh(st, q, 1)[0]; l, h = st.bounds(x)
        if l != h: cases([c_eq(x), c_eq(sub(x, 1))]); return None
        return add(q, l)
    def fnarrow(self, st, v):
        """f64 -> f32 where no bits are lost, or the result is zero or infinite"""
        x = self.fnorm(st, v, 8)
        if x is None:
            x = self.fsplit(st, v, 8)
            if x is None: return None
            s, m, kind = x; l, h = st.bounds(m)
            if kind == 'num' and h < (1023 - 151) << 52: return ('D', ('c', s << 31, 4))
            if kind == 'num' and l >= 0x7ff << 52: return ('D', ('c', (s << 31) + (0xff << 23), 4))
            return None
        s, e, fr = x
        if e > 127: return ('D', ('c', (s << 31) + (0xff << 23), 4))
        m = self.fsub(st, add(fr, 1 << 52), 29 + max(0, -126 - e)) if -126 - e <= 24 else 0
        if m is None: return None
        return self.fval(add(add(m, (s << 31)), (e + 126) << 23 if e >= -126 else 0), 4)
    def fcvt(self, st, c, v, tf, tt):
        if self.T[tt]['size'] != 8:
            return self.fnarrow(st, v) if c == 'FloatToFloat' and self.T[tf]['size'] == 8 and type(v) is tuple and v[0] == 'D' else None
        if c == 'IntToFloat':
            if not is_int(v): return None
            l, h = st.bounds(v)
            if l == h == 0: return ('D', ('c', 0, 8))
            s = 0
            if h < 0: s = 1; v = neg(v); l, h = -h, -l
            if l < 1 or h > 1 << 53: return None
            if l.bit_length() != h.bit_length():
                if h.bit_length() - l.bit_length() > 2: return None
                outs = []
                for B in range(l.bit_length(), h.bit_length() + 1):
                    s2 = st.copy()
                    if s2.assume(c_ge(sub(v, 1 << B - 1))) and s2.assume(c_ge(sub((1 << B) - 1, v))): outs.append(s2)
                raise Split(outs)
            k = l.bit_length() - 1
            return self.fmake(st, s, k, scale(sub(v, 1 << k), 1 << (52 - k)) if k <= 52 else 0)
        n = self.T[tf]['size']
        if n == 8: return v
        x = self.fnorm(st, v, n)
        if x is not None: return self.fmake(st, *x)
        x = self.fsplit(st, v, n) if type(v) is tuple and v[0] == 'D' else None
        if x is None: return None
        s, m, _ = x
        l, h = st.bounds(m)
        if h == 0: return ('D', ('c', s << 63, 8))
        if l >= 0xff << 23: 
            y = add(scale(sub(m, 0xff << 23), 1 << 29), (s << 63) + (0x7ff << 52))
            return ('D', ('c', y, 8) if type(y) is int else ('bits', y))
        return None
    def fcmpb(self, st, op, a, b, n):
        x, y = self.fsplit(st, a, n), self.fsplit(st, b, n)
        if x is None or y is None: return None
        if 'nan' in (x[2], y[2]): return op == 'Ne'
        u = neg(x[1]) if x[0] else x[1]; v = neg(y[1]) if y[0] else y[1]
        d = sub(u, v)
        return {'Eq': c_eq(d), 'Ne': c_ne(d), 'Lt': c_ge(sub(-1, d)), 'Le': c_ge(neg(d)), 'Gt': c_ge(sub(d, 1)), 'Ge': c_ge(d)}[op]
    def boolop(self, st, op, a, b):
        if type(a) is tuple and a[0] == 'T': a = fresh_bool()
        if type(b) is tuple and b[0] == 'T': b = fresh_bool()
        if op == 'BitAnd': return c_and(a, b)
        if op == 'BitOr': return c_or(a, b)
        if op in ('BitXor', 'Ne', 'Eq'):
            if a == b: r = False
            elif a is True: r = c_not(b)
            elif a is False: r = b
            elif b is True: r = c_not(a)
            elif b is False: r = a
            else:
                ea, eb = st.evalc(a), st.evalc(b)
                if ea is not None: return self.boolop(st, op, ea, b)
                if eb is not None: return self.boolop(st, op, a, eb)
                s1 = st.copy(); s2 = st.copy()
                raise Split([s for s, t in ((s1, True), (s2, False)) if s.assume(a, t)])
            return r if op != 'Eq' else c_not(r)
        ia, ib = self.b2i(st, a), self.b2i(st, b)
        d = {'Lt': sub(sub(ib, ia), 1), 'Le': sub(ib, ia), 'Gt': sub(sub(ia, ib), 1), 'Ge': sub(ia, ib)}.get(op)
        if d is None: return fresh_bool()
        return c_ge(d)
    def b2i(self, st, c):
        e = st.evalc(c)
        if e is not None: return 1 if e else 0
        # ne0 of a 0/1 atom is the atom itself
        if c[1] == 'ne' and c[2][1] == 0 and len(c[2][2]) == 1 and c[2][2][0][1] == 1:
            a = c[2][2][0][0]
            if A_lo[a] >= 0 and A_hi[a] <= 1: return c[2]
        return intern(('b2i', c), 0, 1)
    def pstep(self, v, n):
        """pointer + n elements"""
        if v[0] != 'P': return v
        path = v[2]
        if path and type(path[-1]) is tuple and path[-1][0] == 'i':
            return ('P', v[1], path[:-1] + (('i', add(path[-1][1], n)),), v[3])
        if n == 0: return v
        return ('P', v[1], path + (('i', n),), v[3])
    def pidx_of(self, v):
        path = v[2]
        if path and type(path[-1]) is tuple and path[-1][0] == 'i':
            return path[:-1], path[-1][1]
        return path, 0
    def ptrop(self, st, op, a, b, ta, tb):
        while type(a) is tuple and a[0] == 'A' and len(a[1]) == 1: a = a[1][0]
        while type(b) is tuple and b[0] == 'A' and len(b[1]) == 1: b = b[1][0]
        if op == 'Offset':
            if type(a) is tuple and a[0] == 'P' and is_int(b): return self.pstep(a, b)
            if type(a) is tuple and a[0] == 'Q': 
                return ('Q', tuple(self.pstep(q, b) for q in a[1]))
            if type(a) is int and type(b) is int: return a
            return ('T', ta)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = None
            if type(a) is tuple and type(b) is tuple and a[0] == 'P' and b[0] == 'P':
                pa, ia = self.pidx_of(a); pb, ib = self.pidx_of(b)
                if a[1] == b[1] and pa == pb:
                    d = sub(ia, ib)
                    return {'Eq': c_eq(d), 'Ne': c_ne(d), 'Lt': c_ge(sub(-1, d)), 'Le': c_ge(neg(d)), 'Gt': c_ge(sub(d, 1)), 'Ge': c_ge(d)}[op]
                if a[1] != b[1] and op in ('Eq', 'Ne') and self.distinct(a[1], b[1]):
                    return op == 'Ne'
                x, y = sorted((a, b), key=repr)
                c = ('C', 'ne', intern(('ptreq', x, y), 0, 1))
                if op == 'Eq': return c
                if op == 'Ne': return c_not(c)
            if type(a) is int and type(b) is int:
                return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            if (type(a) is tuple and a[0] == 'P' and b == 0) or (type(b) is tuple and b[0] == 'P' and a == 0):
                if op in ('Eq', 'Ne'): return op == 'Ne'
            for x, y in ((a, b), (b, a)):
                if type(x) is tuple and x[0] == 'P' and type(y) is int and op in ('Eq', 'Ne'):
                    return op == 'Ne'
            for v in (a, b):
                if type(v) is tuple and v[0] == 'Q': pass
            return fresh_bool('ptrcmp')
        if op == 'Cmp': return ('T', self.tid('std::cmp::Ordering'))
        lo, hi = self.trange(self.tid('usize'))
        return fresh(lo, hi)
    def distinct(self, o1, o2): return True
    def unop(self, st, op, a, t):
        k = self.T[t]['k']
        if op == 'Not':
            if k == 'bool':
                if type(a) is tuple and a[0] == 'T': return fresh_bool()
                return c_not(a)
            if k == 'int' and is_int(a):
                lo, hi = self.trange(t)
                return sub(-1, a) if self.T[t]['signed'] else sub(hi, a)
        if op == 'Neg':
            if k == 'int' and is_int(a): return self.wrapint(st, neg(a), t)
            if k == 'float':
                if a[0] == 'D' and type(a[1]) is tuple and a[1][0] == 'c':
                    n = a[1][2]; return ('D', ('c', a[1][1] ^ (1 << (8 * n - 1)), n))
                n = self.T[t].get('size') or {'f32': 4, 'f64': 8}.get(self.T[t].get('name'))
                if n in (4, 8):
                    x = self.fbits(a, n)
                    if x is not None:
                        SB = 1 << (8 * n - 1); l, h = st.bounds(x)
                        if h < SB: return self.fval(add(x, SB), n)
                        if l >= SB: return self.fval(sub(x, SB), n)
                return ('D', intern(('fneg', a), NEG, POS))
        if op == 'PtrMetadata':
            if type(a) is tuple and a[0] == 'P':
                m = a[3]
                if is_int(m): return m
                return UNIT if m is None else None
        return None
    # ------------------------------------------------------------ casts
    def getp(self, v, path):
        for p in path:
            if not (type(v) is tuple and v[0] == 'A'): return None
            v = v[1][p]
        return v
    def build(self, st, t, path, leafv):
        if not path:
            return leafv
        fs = self.field_tys(t)
        out = []
        for i, f in enumerate(fs):
            if i == path[0]: out.append(self.build(st, f, path[1:], leafv))
            else: out.append(self.havoc(st, f))
        return ('A', tuple(out))
    def transmute(self, st, v, tf, tt):
        if tf == tt: return v
        pf, lf = self.leaf(tf); pt, lt = self.leaf(tt)
        if type(v) is tuple and v and v[0] == 'T':
            v = self.materialize(st, v[1])
        x = v
        for p in pf:
            if type(x) is tuple and x and x[0] == 'T': x = self.materialize(st, x[1])
            if type(x) is tuple and x and x[0] in ('P', 'Q'): break      # read through a pointer cast to a wrapper type
            x = x[1][p] if type(x) is tuple and x and x[0] == 'A' else None
            if x is None: break
        if x is None:
            st.flag('transmute'); return self.havoc(st, tt)
        kf, kt = self.T[lf]['k'], self.T[lt]['k']
        if type(x) is tuple and x and x[0] == 'T': x = self.materialize(st, x[1])
        if kf == kt or {kf, kt} <= {'ptr', 'ref', 'int', 'fnptr', 'char'}:
            if kf == 'int' and kt == 'int' and is_int(x): x = self.wrapint(st, x, lt)
            if kf == kt and kf in ('adt', 'tuple', 'array', 'slice') and lf != lt:
                # Option<..> style niche types of the same shape are kept
                if self.T[lf].get('adt') != self.T[lt].get('adt'):
                    st.flag('transmute %s' % self.T[lt]['name']); return self.havoc(st, tt)
            if kf in ('ptr', 'ref') and kt == 'int' and not is_int(x):
                r = intern(('addr', self.pkey(x)), 1, (1 << 64) - 1); x = r
            if kt in ('ptr', 'ref') and kf in ('ptr', 'ref'): x = self.ptrcast(st, x, lf, lt)
            return self.build(st, tt, pt, x)
        if {kf, kt} == {'float', 'int'}:
            if kf == 'int':
                if type(x) is int: return self.build(st, tt, pt, ('D', ('c', x, self.T[lt]['size'])))
                return self.build(st, tt, pt, ('D', ('bits', x)))
            if x[0] == 'D' and type(x[1]) is tuple and x[1][0] == 'c': return self.build(st, tt, pt, x[1][1])
            if x[0] == 'D' and type(x[1]) is tuple and x[1][0] == 'bits': return self.build(st, tt, pt, x[1][1])
            lo, hi = self.trange(lt)
            return self.build(st, tt, pt, intern(('tobits', x), lo, hi))
        if kf == 'int' and kt == 'bool': return self.build(st, tt, pt, c_ne(x))
        if kf == 'bool' and kt == 'int': return self.build(st, tt, pt, self.b2i(st, x))
        if kf == 'array' and kt == 'int':
            n = self.T[lf]['n']; es = self.T[self.T[lf]['elem']]['size']
            if type(x) is tuple and x[0] == 'S' and es == 1:
                cells = x[1]
                if all(i in cells for i in range(n)):
                    r = 0
                    for i in range(n): r = add(r, scale(cells[i], 1 << (8 * i)))
                    return self.build(st, tt, pt, self.wrapint(st, r, lt))
            return self.havoc(st, tt)
        if kf == 'int' and kt == 'array':
            n = self.T[lt]['n']; es = self.T[self.T[lt]['elem']]['size']
            if type(x) is int:
                cells = {i: (x >> (8 * es * i)) & ((1 << (8 * es)) - 1) for i in range(n)}
            else:
                lo, hi = self.trange(lf)
                cells = {}
                m = (1 << (8 * es)) - 1
                for i in range(n):
                    cells[i] = self.band(st, m, self.binop(st, 'Shr', x, 8 * es * i, lf, lf), lf)
            return self.build(st, tt, pt, ('S', cells, self.top_summ(self.T[lt]['elem']), None, self.newver(), self.T[lt]['elem']))
        if kf in ('int', 'ptr', 'ref') and kt == 'adt' and self.T[lt]['akind'] == 'Enum':
            vs = self.T[lt]['variants']
            if kf == 'int' and type(x) is int and all(not w['fields'] for w in vs):
                for i, w in enumerate(vs):
                    if w['discr'] == x: return self.build(st, tt, pt, ('E', i, tuple(() for _ in vs)))
            if kf == 'int' and all(not w['fields'] for w in vs) and is_int(x) and all(w['discr'] - vs[0]['discr'] == i for i, w in enumerate(vs)):
                return self.build(st, tt, pt, ('E', sub(x, vs[0]['discr']), tuple(() for _ in vs)))
            if kf == 'int' and self.T[lt]['adt'].endswith('option::Option') and is_int(x):
                # Option<NonZero<..>>: zero is None
                inner = vs[1]['fields'][0][1]; lo, hi = (x, x) if type(x) is int else st.bounds(x)
                if self.T[inner]['k'] == 'adt' and self.T[inner]['adt'].endswith('NonZero'):
                    if lo == hi == 0: return self.build(st, tt, pt, ('E', 0, ((), None)))
                    if lo > 0 or hi < 0: return self.build(st, tt, pt, ('E', 1, ((), (self.transmute(st, x, lf, inner),))))
            if kf in ('ptr', 'ref') and self.T[lt]['adt'].endswith('option::Option'):
                # niche: null is None
                inner = vs[1]['fields'][0][1]
                if type(x) is tuple and x[0] == 'P':
                    return self.build(st, tt, pt, ('E', 1, ((), (self.transmute(st, x, lf, inner),))))
                if x == 0: return self.build(st, tt, pt, ('E', 0, ((), None)))
                if type(x) is int:
                    return self.build(st, tt, pt, ('E', 1, ((), (self.transmute(st, x, lf, inner),))))
        if kt == 'int' and kf == 'adt' and self.T[lf]['akind'] == 'Enum' and type(x) is tuple and x[0] == 'E':
            return self.build(st, tt, pt, self.discr(st, x, lf))
        st.flag('transmute %s->%s' % (self.T[tf]['name'], self.T[tt]['name']))
        return self.havoc(st, tt)
    def pkey(self, x):
        return x if type(x) is tuple and x[0] == 'P' else ('?', id(x))
    def ptrcast(self, st, v, tf, tt):
        """pointer type change: adjust path for arrays and transparent wrappers"""
        if not (type(v) is tuple and v[0] == 'P'):
            if type(v) is tuple and v[0] == 'Q':
                return ('Q', tuple(self.ptrcast(st, q, tf, tt) for q in v[1]))
            if type(v) is tuple and v[0] == 'T': return ('T', tt)
            return v
        ef, et = self.T[tf].get('elem'), self.T[tt].get('elem')
        if ef is None or et is None or ef == et: return v
        kf, kt = self.T[ef]['k'], self.T[et]['k']
        obj, path, meta = v[1:]
        if kf in ('slice', 'str') and kt not in ('slice', 'str') and is_int(meta):
            if kt == 'array' : 
                if path and type(path[-1]) is tuple and path[-1] == ('i', 0): return ('P', obj, path[:-1], None)
            return ('P', obj, path, None)
        if kf == 'array' and kt not in ('array', 'slice') and (self.T[ef]['elem'] == et):
            return ('P', obj, path + (('i', 0),), None)
        if kf == 'array' and kt in ('slice',) : return ('P', obj, path + (('i', 0),), self.T[ef]['n'])
        if kt == 'array' and self.T[et]['elem'] == ef and path and type(path[-1]) is tuple and path[-1][0] == 'i':
            if path[-1][1] == 0: return ('P', obj, path[:-1], meta)
        # layout-transparent wrappers: descend from ef to et, or ascend
        d = self.descend(ef, et)
        if d is not None:
            if kt in ('slice', 'str') and d and d[-1] == ('i', 0) and meta is None: pass
            return ('P', obj, path + d, meta)
        d = self.descend(et, ef)
        if d:
            if path[-len(d):] == d: return ('P', obj, path[:-len(d)], meta)
        if kt == 'adt' and kf == 'int' and self.T[ef]['bits'] == 8 and st.mem.get(obj) == ('RAW',) and not path:
            st.mem[obj] = ('T', et)
            return v
        if st.mem.get(obj) == ('RAW',) and not path:
            if self.T[et].get('size', 0) and kt != 'dyn': st.mem[obj] = ('T', et)
        return v
    def descend(self, frm, to):
        """path of zero-offset projections leading from type frm to type to (None if there is none)"""
        pth = []; c = frm
        for _ in range(12):
            if c == to: return tuple(pth)
            x = self.T[c]
            if x['k'] == 'array':
                pth.append(('i', 0)); c = x['elem']
            elif x['k'] == 'adt' and x['akind'] in ('Struct', 'Union'):
                fs = self.field_tys(c)
                nz = [i for i, f in enumerate(fs) if self.T[f].get('size', 1) != 0]
                if len(nz) != 1: return None
                if x['akind'] == 'Struct': pth.append(nz[0])
                c = fs[nz[0]]
            else: return None
        return None
    def int2int(self, st, x, tf, tt):
        kf, kt = self.T[tf]['k'], self.T[tt]['k']
        if kf == 'bool':
            return self.b2i(st, x if not (type(x) is tuple and x[0] == 'T') else fresh_bool())
        if kf == 'adt':
            x = self.discr(st, x, tf)
        if not is_int(x):
            lo, hi = self.trange(tt); return fresh(lo, hi)
        return self.wrapint(st, x, tt, 'cast')
    def discr(self, st, v, t):
        if type(v) is tuple and v[0] == 'T': v = self.materialize(st, v[1])
        if type(v) is not tuple or v[0] != 'E':
            if type(v) is tuple and v[0] == 'A': return 0
            lo, hi = -(1 << 63), (1 << 64)
            return fresh(lo, hi)
        vs = self.T[t]['variants']
        if type(v[1]) is int: return vs[v[1]]['discr'] if v[1] < len(vs) else v[1]
        d0 = vs[0]['discr']
        if all(w['discr'] - d0 == i for i, w in enumerate(vs)):
            return add(v[1], d0)
        outs = []
        for i in range(len(vs)):
            s2 = st.copy()
            if s2.assume(c_eq(sub(v[1], i))): outs.append(s2)
        if len(outs) == 1:
            c = st.cst(v[1])
            if c is not None: return vs[c]['discr']
        raise Split(outs)
    def unsize(self, st, v, tf, tt):
        """&[T;N] -> &[T], &T -> &dyn"""
        while self.T[tf]['k'] == 'pat': tf = self.T[tf]['elem']
        while self.T[tt]['k'] == 'pat': tt = self.T[tt]['elem']
        kf = self.T[tf]['k']
        if kf in ('ref', 'ptr'):
            ef, et = self.T[tf]['elem'], self.T[tt]['elem']
            if type(v) is tuple and v[0] == 'T':
                v = self.materialize(st, v[1])
            if self.T[et]['k'] == 'slice' and self.T[ef]['k'] == 'array':
                if type(v) is tuple and v[0] == 'P': return ('P', v[1], v[2] + (('i', 0),), self.T[ef]['n'])
                if type(v) is tuple and v[0] == 'Q': return ('Q', tuple(self.unsize(st, q, tf, tt) for q in v[1]))
            if self.T[et]['k'] == 'dyn' and type(v) is tuple and v[0] == 'P':
                m = v[3] if type(v[3]) is tuple and v[3][0] == 'dyn' else ('dyn', ef)
                return ('P', v[1], v[2], m)
            return v
        # Box / Rc
        if type(v) is tuple and v[0] == 'T': v = self.materialize(st, v[1])
        ff, ft = self.field_tys(tf), self.field_tys(tt)
        if type(v) is tuple and v[0] == 'A':
            return ('A', tuple(self.unsize(st, x, a, b) if a != b else x for x, a, b in zip(v[1], ff, ft)))
        return v
    def rvalue(self, st, fr, rv, dt):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k in ('ref', 'addr'):
            o, p, m = self.resolve(st, fr, rv[2])
            return ('P', o, p, m)
        if k == 'bin' or k == 'cbin':
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            ta = fr.otype(rv[2]); tb = fr.otype(rv[3])
            if k == 'cbin' and self.lazyov and '::overflowing_' in fr.f['def'] and is_int(a) and is_int(b) and ta == tb: return self.lazy_ov(st, rv[1], a, b, ta)
            return self.binop(st, rv[1], a, b, ta, tb, k == 'cbin')
        if k == 'cast':
            v = self.operand(st, fr, rv[2]); tf = fr.otype(rv[2]); tt = rv[3]
            c = rv[1]
            if c == 'IntToInt': return self.int2int(st, v, tf, tt)
            if c == 'Transmute' or c == 'BoxDerefTransmute': return self.transmute(st, v, tf, tt)
            if c in ('PtrToPtr',) or 'MutToConst' in c: return self.ptrcast(st, v, tf, tt)
            if 'ArrayToPointer' in c: return ('P', v[1], v[2] + (('i', 0),), None) if type(v) is tuple and v[0] == 'P' else ('T', tt)
            if 'Unsize' in c: return self.unsize(st, v, tf, tt)
            if 'ReifyFnPointer' in c: return ('F', rv[4]) if len(rv) > 4 else v
            if 'ClosureFnPointer' in c: return v
            if c in ('IntToFloat', 'FloatToFloat'):
                r = self.fcvt(st, c, v, tf, tt)
                if r is not None: return r
                return ('D', intern(('cvt', c, v if not (type(v) is tuple and v[0] == 'T') else 0, tt), NEG, POS))
            if c == 'FloatToInt':
                lo, hi = self.trange(tt); return intern(('f2i', v, tt), lo, hi)
            if 'Expose' in c:
                return intern(('addr', self.pkey(v)), 1, (1 << 64) - 1) if not is_int(v) else v
            if 'WithExposed' in c: return v if is_int(v) else ('T', tt)
            return self.ptrcast(st, v, tf, tt)
        if k == 'agg':
            kk = rv[1]
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            if kk[0] == 'tuple' or kk[0] == 'closure': return ('A', ops)
            if kk[0] == 'adt':
                t = kk[1]; x = self.T[t]
                if x['akind'] == 'Enum':
                    pl = [None] * len(x['variants'])
                    pl[kk[2]] = ops
                    return ('E', kk[2], tuple(pl))
                if kk[3] is not None:
                    return ('T', t)
                return ('A', ops)
            if kk[0] == 'array':
                cells = dict(enumerate(ops))
                summ = self.top_summ(kk[1])
                if summ is not None and ops:
                    bs = [st.bounds(o) if is_int(o) else (summ[1], summ[2]) for o in ops]
                    summ = ('R', min(b[0] for b in bs), max(b[1] for b in bs))
                return ('S', cells, summ, None, self.newver(), kk[1])
            if kk[0] == 'rawptr':
                p, m = ops
                if type(p) is tuple and p[0] == 'P':
                    et = kk[1]
                    if self.T[et]['k'] in ('slice', 'str'):
                        path = p[2]
                        if not (path and type(path[-1]) is tuple and path[-1][0] == 'i'): path = path + (('i', 0),)
                        return ('P', p[1], path, m)
                    return ('P', p[1], p[2], None if m == UNIT else m)
                if type(p) is tuple and p[0] == 'Q' and is_int(m):
                    return ('Q', tuple(('P', q[1], q[2], m) for q in p[1]))
                if type(p) is int and is_int(m):
                    # dangling pointer with a length
                    et = kk[1]
                    ety = self.T[et]['elem'] if self.T[et]['k'] == 'slice' else self.u8()
                    o = ('dangling', ety)
                    if o not in self.cmem: self.cmem[o] = ('S', {}, self.top_summ(ety), None, 0, ety)
                    return ('P', o, (('i', 0),), m)
                return ('T', dt)
            return ('T', dt)
        if k == 'discr':
            o, p, m = self.resolve(st, fr, rv[1])
            v = self.load(st, o, p)
            t = fr.ptype(rv[1])
            if type(v) is tuple and v[0] == 'T':
                v = self.materialize(st, v[1]); self.rawstore(st, o, p, v) if type(o) is not tuple else None
            return self.discr(st, v, t)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            r = self.unop(st, rv[1], v, fr.otype(rv[2]))
            if r is None: return self.havoc(st, dt)
            return r
        if k == 'len':
            o, p, m = self.resolve(st, fr, rv[1])
            if m is not None: return m
            t = self.T[fr.ptype(rv[1])]
            return t.get('n', 0) if t['k'] == 'array' else fresh(0, VLEN_MAX)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1]); n = rv[2]
            e = self.T[dt]['elem']
            if n is not None and n <= 64:
                cells = {i: v for i in range(n)}
            else: cells = {}
            if is_int(v): summ = ('R',) + st.bounds(v)
            else: summ = ('V', v)
            return ('S', cells, summ, None, self.newver(), e)
        st.flag('rvalue ' + k)
        return self.havoc(st, dt)
    # ------------------------------------------------------------ execution
    def call(self, st, inst, args, cs=None):
        """abstract call; returns list of (state, value)"""
        self.stats['calls'] += 1
        f = self.F[inst]
        if self.hooks:
            r = self.hooks(self, st, inst, f, args)
            if r is not None: return r
        m = self.models.get(f['def'])
        if m is not None:
            r = m(self, st, inst, f, args)
            if r is not None: return r
        if f.get('intr'):
            m = self.models.get('@' + f['intr'])
            if m is not None:
                r = m(self, st, inst, f, args)
                if r is not None: return r
        if 'blocks' not in f:
            return self.unknown(st, inst, f, args)
        depth = sum(1 for s in self.stack if s[0] == inst)
        if self.induct and depth >= 1 and f['crate'] == 'rmath':
            if depth < self.induct[0]: return self.run_fn(st, inst, args)
            r = self.induct[1](self, st, inst, f, args)
            if r is not None: return r
        if depth >= self.recmax and f['crate'] == 'rmath' and '{closure' not in f['def'] or depth >= 3:
            return self.havoc_call(st, inst, f, args, 'recursion ' + f['def'])
        if len(self.stack) > 90:
            return self.havoc_call(st, inst, f, args, 'depth')
        return self.run_fn(st, inst, args)
    def unknown(self, st, inst, f, args):
        self.unmod[f['name']] = self.unmod.get(f['name'], 0) + 1
        st.flag('unmodelled ' + f['def'])
        return self.havoc_call(st, inst, f, args, None)
    def havoc_call(self, st, inst, f, args, why):
        if why: st.flag(why)
        # result type: local 0
        if 'locals' in f:
            at = f['locals'][1:1 + f['argc']]
            for v, t in zip(args, at): self.havoc_arg(st, v, t)
            return [(st, self.havoc(st, f['locals'][0]))]
        return [(st, ('?',))]
    def havoc_arg(self, st, v, t):
        x = self.T[t]
        if x['k'] in ('ref', 'ptr') and x['mut'] and type(v) is tuple and v[0] == 'P' and type(v[1]) is not tuple:
            self.clobber(st, v, x['elem'])
        elif type(v) is tuple and v[0] == 'A' and x['k'] in ('closure', 'tuple'):
            for a, b in zip(v[1], self.field_tys(t)): self.havoc_arg(st, a, b)
    def clobber(self, st, v, ety):
        """arbitrary change of what a mutable pointer refers to"""
        o, path = v[1], v[2]
        try: cur = self.load(st, o, path[:-1] if path and type(path[-1]) is tuple and path[-1][0] == 'i' else path)
        except Bottom: return
        if type(cur) is tuple and cur[0] == 'S':
            p2 = path[:-1] if path and type(path[-1]) is tuple and path[-1][0] == 'i' else path
            self.rawstore(st, o, p2, ('S', {}, self.top_summ(cur[5]), None, self.newver(), cur[5]))
            return
        self.rawstore(st, o, path, self.clob_val(st, cur, ety))
    def clob_val(self, st, v, t):
        """replace every scalar by an arbitrary one, keep ownership structure"""
        x = self.T[t]
        if x['k'] == 'adt' and x['adt'] == 'std::vec::Vec' and type(v) is tuple and v[0] == 'A':
            p = self.vec_parts(v, t)
            if p and type(p[0]) is tuple and p[0][0] == 'P' and type(p[0][1]) is not tuple:
                b = st.mem.get(p[0][1])
                if b and b[0] == 'S':
                    st.mem[p[0][1]] = ('S', {}, self.top_summ(b[5]), None, self.newver(), b[5])
                    return self.mkvec(t, p[0], fresh(0, VLEN_MAX), fresh(0, VLEN_MAX, 'len'))
            return ('T', t)
        if type(v) is tuple and v[0] == 'A' and x['k'] in ('adt', 'tuple', 'closure'):
            return ('A', tuple(self.clob_val(st, a, b) for a, b in zip(v[1], self.field_tys(t))))
        if type(v) is tuple and v[0] == 'P' and type(v[1]) is not tuple and v[1] >= HEAP:
            e = x.get('elem')
            if e is not None and self.T[e]['k'] not in ('slice', 'str', 'dyn'):
                cur = st.mem.get(v[1])
                if cur is not None and not v[2]:
                    st.mem[v[1]] = self.clob_val(st, cur, e)
            return v
        return self.havoc(st, t)
    def vec_parts(self, v, t):
        """(ptr, cap, len) of a Vec value"""
        x = self.T[t]
        names = [n for n, _ in x['variants'][0]['fields']]
        ln = v[1][names.index('len')]
        buf = v[1][names.index('buf')]
        bt = x['variants'][0]['fields'][names.index('buf')][1]
        ptr = cap = None
        def walk(val, ty):
            nonlocal ptr, cap
            y = self.T[ty]
            if y['k'] == 'ptr': ptr = val
            elif y['k'] == 'int': cap = val
            elif y['k'] == 'pat': walk(val, y['elem'])
            elif type(val) is tuple and val and val[0] == 'A':
                for a, b in zip(val[1], self.field_tys(ty)): walk(a, b)
        walk(buf, bt)
        return ptr, cap, ln
    def run_fn(self, st, inst, args):
        f = self.F[inst]
        info = self.p.fn_info(inst)
        fr = Frame(self, f, len(self.stack), inst)
        self.called.add(inst)
        base = fr.base
        nl = len(f['locals'])
        # spread argument (closure call ABI)
        argc = f['argc']
        if f.get('spread') is not None and len(args) == f['spread'] :
            pass
        if len(args) != argc or (len(args) == 2 and f['def'].endswith('}') and '{closure#' in f['def'].rsplit('::', 1)[-1]
                                 and type(args[1]) is tuple and args[1][0] == 'A' and len(args[1][1]) == argc - 1):
            # rust-call: last arg is a tuple to be spread
            if len(args) >= 1 and type(args[-1]) is tuple and args[-1][0] == 'A' and len(args) - 1 + len(args[-1][1]) == argc:
                args = list(args[:-1]) + list(args[-1][1])
            elif len(args) > argc and argc >= 1 and f.get('spread'):
                k = f['spread'] - 1
                args = list(args[:k]) + [('A', tuple(args[k:]))]
            else:
                st.flag('arity ' + f['def'])
        for i in range(nl): st.mem.pop(base + i, None)
        for i, a in enumerate(args[:argc]): st.mem[base + 1 + i] = a
        for i, t in enumerate(f['locals']): self.loc_types[base + i] = t
        self.stack.append([inst, base, 0])
        rets = []
        try:
            pend = {0: [st]}
            self.run_comps(fr, info, info.wto, pend, rets)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            rv = s.mem.get(base)
            if rv is None: rv = self.havoc(s, f['locals'][0])
            for i in range(nl): s.mem.pop(base + i, None)
            out.append((s, rv))
        if len(out) > self.K:
            out = self.merge_rets(out)
        return out
    def merge_rets(self, out):
        RV = -7
        ss = []
        for s, v in out:
            s.mem[RV] = v; ss.append(s)
        from join import reduce_states
        ss = reduce_states(self, ss, self.K)
        return [(s, s.mem.pop(RV)) for s in ss]
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget: raise Budget()
    def prune(self, fr, info, b, s):
        """drop dead non-address-taken locals of the current frame"""
        live = info.live[b]; addr = info.addr; base = fr.base
        mem = s.mem
        for i in range(len(fr.f['locals'])):
            if i not in live and i not in addr:
                k = base + i
                if k in mem: del mem[k]
    def run_comps(self, fr, info, comps, pend, rets):
        from join import reduce_states
        for c in comps:
            b = c if type(c) is int else c[0]
            ss = pend.pop(b, None)
            if not ss: continue
            if type(c) is int:
                if len(ss) > 1:
                    for s in ss: self.prune(fr, info, b, s)
                    ss = reduce_states(self, ss, self.K)
                for s in ss:
                    self.run_block(fr, info, b, s, pend, rets)
            else:
                self.run_loop(fr, info, c, ss, pend, rets)
    def run_loop(self, fr, info, c, ss, pend, rets):
        from join import reduce_states, LoopJoin
        self.stats['loops'] += 1
        head, body = c
        members = info.members[head]
        for s in ss: self.prune(fr, info, head, s)
        ss = reduce_states(self, ss, self.K)
        comps = [head] + list(body)
        def one_pass(states):
            lp = {head: states}; r2 = []
            self.run_body(fr, info, head, body, lp, r2)
            back = lp.pop(head, [])
            return back, lp, r2
        def emit(lp, r2):
            for k, v in lp.items(): pend.setdefault(k, []).extend(v)
            rets.extend(r2)
        cur = ss
        peel = 0; conc = 0
        npan = len(self.panics)
        while True:
            back, lp, r2 = one_pass([s.copy() for s in cur])
            ex = sum(len(v) for v in lp.values()) + len(r2)
            emit(lp, r2)
            if not back: return
            for s in back: self.prune(fr, info, head, s)
            back = reduce_states(self, back, self.K)
            cur = back
            if ex == 0 and len(back) == 1 and conc < 400:
                conc += 1
                if conc > 40 and conc % 40 == 0 and not self.progress_const(cur[0]): break
                continue
            if all(self.const_loop(s) for s in back) and conc < 80:
                conc += 1; continue
            peel += 1
            if peel >= self.PEEL:
                if self.refute: return      # looking for counterexamples only: longer runs are dropped
                break
        # invariant phase
        from join import part_key
        LJ = {}
        entry = {}
        for s in cur: entry.setdefault(part_key(self, s), []).append(s)
        if len(entry) > 5: entry = {None: cur}
        onekey = None in entry
        heads = {}
        rounds = 0
        backs = {}
        while True:
            rounds += 1
            newheads = {}
            for k in set(entry) | set(backs):
                L = LJ.get(k)
                if L is None: L = LJ[k] = LoopJoin(self)
                newheads[k] = L.join(entry.get(k, []), backs.get(k, []), heads.get(k), rounds)
            stable = set(newheads) == set(heads) and all(LJ[k].stable for k in newheads)
            if stable:
                break
            heads = newheads
            if rounds > 25:
                for l in lp.values():
                    for h in l: h.flag('loop not converged')
                for h in r2: (h[0] if type(h) is tuple else h).flag('loop not converged')
                emit(lp, r2)
                return
            pk = len(self.panics)
            back, lp, r2 = one_pass([h.copy() for h in heads.values()])
            new_panics = self.panics[pk:]
            del self.panics[pk:]
            for s in back: self.prune(fr, info, head, s)
            backs = {}
            for s in back:
                k = None if onekey else part_key(self, s)
                if k not in entry and k not in heads and len(heads) >= 6: k = sorted(heads, key=repr)[0]; LJ[k].force = True
                backs.setdefault(k, []).append(s)
        emit(lp, r2)
        self.panics.extend(new_panics)
    PEEL = 2
    lazyov = False   # overflowing arithmetic is a modular term, not a case split
    ite = False      # merge states that differ by one 0/1 atom into conditional values
    def progress_const(self, s): return True
    def const_loop(self, s): return False
    def run_body(self, fr, info, head, body, lp, r2):
        ss = lp.pop(head)
        for s in ss: self.run_block(fr, info, head, s, lp, r2)
        self.run_comps(fr, info, body, lp, r2)
    def run_block(self, fr, info, b, st, pend, rets):
        """execute one block from one state"""
        stmts, term = fr.f['blocks'][b]
        work = [(st, 0)]
        top = self.stack[-1]
        self.stats['blocks'] += 1
        while work:
            s, i = work.pop()
            n = len(stmts)
            try:
                while i < n:
                    x = stmts[i]
                    self.tick()
                    self.stmt(s, fr, x, top)
                    i += 1
                self.tick()
                self.term(s, fr, info, term, pend, rets, top)
            except Split as e:
                for s2 in e.states: work.append((s2, i))
            except Bottom:
                pass
    def stmt(self, s, fr, x, top):
        k = x[0]
        if k == '=':
            top[2] = x[3]
            pl = x[1]
            if len(pl) == 1:
                v = self.rvalue(s, fr, x[2], fr.f['locals'][pl[0]])
                s.mem[fr.base + pl[0]] = v
            else:
                v = self.rvalue(s, fr, x[2], fr.ptype(pl))
                o, p, m = self.resolve(s, fr, pl)
                self.store(s, o, p, v)
        elif k == 'live' or k == 'dead':
            s.mem.pop(fr.base + x[1], None)
        elif k == 'setd':
            o, p, m = self.resolve(s, fr, x[1])
            v = self.load(s, o, p)
            if type(v) is tuple and v[0] == 'T': v = self.materialize(s, v[1])
            if v[0] == 'E':
                self.store(s, o, p, ('E', x[2], v[2]))
        elif k == 'cpy':
            top[2] = x[4]
            src = self.operand(s, fr, x[1]); dst = self.operand(s, fr, x[2]); n = self.operand(s, fr, x[3])
            self.memcopy(s, src, dst, n)
        elif k == 'assume':
            c = self.operand(s, fr, x[1])
            if not (type(c) is tuple and c[0] == 'T'):
                if not s.assume(c): raise Bottom()
    def memcopy(self, st, src, dst, n):
        """copy n elements"""
        for v in (src, dst):
            if not (type(v) is tuple and v[0] == 'P'):
                if type(v) is int or (st.cst(n) == 0 if is_int(n) else False): return
                if type(v) is tuple and v[0] == 'Q':
                    st.flag('copy through several pointers')
                st.flag('copy via unknown pointer'); 
                if type(dst) is tuple and dst[0] == 'P': self.clob_seq(st, dst)
                return
        c = st.cst(n)
        if c == 0: return
        if c is not None and c <= 16:
            vals = [self.load(st, src[1], self.pstep(src, i)[2]) for i in range(c)]
            for i, v in enumerate(vals): self.store(st, dst[1], self.pstep(dst, i)[2], v)
            return
        sp, si = self.pidx_of(src); dp, di = self.pidx_of(dst)
        s = self.load(st, src[1], sp)
        d = self.load(st, dst[1], dp)
        if type(s) is not tuple or s[0] != 'S' or type(d) is not tuple or d[0] != 'S':
            st.flag('copy of non-sequence')
            if type(d) is tuple and d[0] == 'S': self.clob_seq(st, dst)
            return
        # cells of the source range shift by di-si
        sh = sub(di, si)
        nc = {}
        for k, v in s[1].items():
            # inside [si, si+n) ?
            if st.bounds(sub(k, si))[0] >= 0 and st.bounds(sub(sub(add(si, n), k), 1))[0] >= 0:
                nc[add(k, sh)] = v
        for k, v in d[1].items():
            if st.bounds(sub(sub(di, k), 1))[0] >= 0 or st.bounds(sub(k, add(di, n)))[0] >= 0:
                nc[k] = v
        def ju(a, b):
            if a and b and a[0] == 'R' and b[0] == 'R': return ('R', min(a[1], b[1]), max(a[2], b[2]))
            if a and a[0] == 'N': return b
            if b and b[0] == 'N': return a
            return a if a == b else None
        summ = ju(s[2], d[2])
        val = None
        if s[3] is not None and si == 0 and di == 0 and st.same(n, s[3][2]): val = s[3]
        self.rawstore(st, dst[1], dp, ('S', nc, summ, val, self.newver(), d[5] if d[5] is not None else s[5]))
    def clob_seq(self, st, v):
        p, i = self.pidx_of(v)
        try: d = self.load(st, v[1], p)
        except Bottom: return
        if type(d) is tuple and d[0] == 'S' and type(v[1]) is not tuple:
            self.rawstore(st, v[1], p, ('S', {}, self.top_summ(d[5]), None, self.newver(), d[5]))
    def term(self, s, fr, info, t, pend, rets, top):
        k = t[0]
        if k == 'goto':
            pend.setdefault(t[1], []).append(s)
        elif k == 'return':
            rets.append(s)
        elif k == 'switch':
            top[2] = t[4]
            v = self.operand(s, fr, t[1])
            self.switch(s, v, t, pend)
        elif k == 'call':
            top[2] = t[5]
            self.docall(s, fr, t, pend)
        elif k == 'drop':
            pl = t[1]
            pend.setdefault(t[2], []).append(s)
        elif k == 'assert':
            top[2] = t[6]
            c = self.operand(s, fr, t[1])
            if type(c) is tuple and c[0] == 'T': c = fresh_bool()
            exp = t[2]
            e = s.evalc(c)
            if e is None:
                s2 = s.copy()
                if s2.assume(c, not exp): self.panic(s2, t[3], '')
                if s.assume(c, exp): pend.setdefault(t[5], []).append(s)
            elif e == exp: pend.setdefault(t[5], []).append(s)
            else: self.panic(s, t[3], '')
        elif k in ('resume', 'abort', 'unreachable'):
            pass
        elif k == 'asm':
            s.flag('asm')
            if t[1] is not None: pend.setdefault(t[1], []).append(s)
    def panic(self, s, kind, msg):
        self.panics.append(Panic(s, kind, self.where(), msg, tuple(x[0] for x in self.stack)))
    def switch(self, s, v, t, pend):
        tg = t[2]; other = t[3]
        if type(v) is tuple and v[0] == 'T': v = self.havoc(s, v[1])
        if type(v) is bool or (type(v) is tuple and v[0] == 'C'):
            # bool switch
            e = s.evalc(v)
            fl = None; tr = other
            for val, b in tg:
                if val == 0: fl = b
                else: tr = b
            if fl is None: fl = other
            if e is True: pend.setdefault(tr, []).append(s); return
            if e is False: pend.setdefault(fl, []).append(s); return
            s2 = s.copy()
            if s.assume(v, True):
                s.tr = (s.tr, self.where(), True); pend.setdefault(tr, []).append(s)
            if s2.assume(v, False):
                s2.tr = (s2.tr, self.where(), False); pend.setdefault(fl, []).append(s2)
            return
        if not is_int(v):
            s.flag('switch on unknown')
            for b in set([b for _, b in tg] + [other]):
                pend.setdefault(b, []).append(s.copy())
            return
        lo, hi = s.bounds(v)
        rest = s
        for val, b in tg:
            if type(val) is str: val = int(val)
            # negative discriminants are given as unsigned bit patterns
            cand = val
            if val > hi and lo < 0:
                for bits in (8, 16, 32, 64, 128):
                    if val < (1 << bits) and lo <= val - (1 << bits) <= hi: cand = val - (1 << bits); break
            c = c_eq(sub(v, cand))
            e = rest.evalc(c)
            if e is False: continue
            if e is True:
                pend.setdefault(b, []).append(rest); rest = None; break
            s2 = rest.copy()
            if s2.assume(c):
                s2.tr = (s2.tr, self.where(), cand); pend.setdefault(b, []).append(s2)
            if not rest.assume(c, False): rest = None; break
        if rest is not None:
            pend.setdefault(other, []).append(rest)
    def docall(self, s, fr, t, pend):
        cal = t[1]
        args = [self.operand(s, fr, o) for o in t[2]]
        dest, tgt = t[3], t[4]
        inst = cal.get('inst')
        if inst is None:
            if 'dyn' in cal:
                fv = self.operand(s, fr, cal['dyn'])
                if type(fv) is tuple and fv[0] == 'F' and fv[1] is not None: inst = fv[1]
        if inst is None:
            s.flag('indirect call')
            res = [(s, ('?',))]
        else:
            f = self.F[inst]
            if tgt is None:
                # diverging: panics
                if self.is_panic(f):
                    self.panic(s, 'panic', self.panic_msg(s, f, args)); return
            depth = len(self.stack)
            res = self.call(s, inst, args, t)
            del self.stack[depth:]
        if tgt is None: return
        for s2, v in res:
            if v == ('?',):
                dt = fr.ptype(dest) if len(dest) > 1 else fr.f['locals'][dest[0]]
                v = self.havoc(s2, dt)
            if len(dest) == 1:
                s2.mem[fr.base + dest[0]] = v
                pend.setdefault(tgt, []).append(s2)
                continue
            work = [s2]
            while work:
                s3 = work.pop()
                try:
                    o, p, m = self.resolve(s3, fr, dest)
                    self.store(s3, o, p, v)
                except Bottom: continue
                except Split as e:
                    work.extend(e.states); continue
                pend.setdefault(tgt, []).append(s3)
    PANIC_DEFS = ('core::panicking', 'std::rt::begin_panic', 'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed',
                  'core::slice::index::slice_index_fail', 'alloc::raw_vec::handle_error', 'core::str::slice_error_fail', 'std::rt::panic_fmt',
                  'core::slice::copy_from_slice_impl', 'std::alloc::handle_alloc_error', 'core::option', 'core::result', 'std::panicking')
    def is_panic(self, f):
        if 'locals' in f:
            return self.T[f['locals'][0]]['k'] == 'never' or f['def'].startswith(self.PANIC_DEFS)
        return True
    def panic_msg(self, s, f, args):
        for a in args:
            if type(a) is tuple and a[0] == 'P' and type(a[1]) is tuple and a[1][0] == 'str':
                return f['def'] + ': ' + a[1][1].decode('utf8', 'replace')
        return f['def']
class Frame:
    __slots__ = ('I', 'f', 'base', 'inst', 'tc')
    def __init__(self, I, f, depth, inst):
        self.I = I; self.f = f; self.base = (depth + 1) << 16; self.inst = inst
        tc = f.get('_tc')
        if tc is None: tc = f['_tc'] = {}
        self.tc = tc
    def ptys(self, place):
        k = id(place)
        r = self.tc.get(k)
        if r is not None: return r
        I = self.I
        t = self.f['locals'][place[0]]
        r = [t]
        cur = t; var = 0
        for e in place[1:]:
            x = I.T[cur] if cur is not None else None
            if e == '*':
                if x is not None and x['k'] == 'adt' and x.get('args'): cur = x['args'][0]   # Box
                else: cur = x.get('elem') if x else None
            elif e == 'ocast': pass
            elif e[0] == 'f': cur = e[2]
            elif e[0] == 'as': pass
            elif e[0] in ('idx', 'cidx'): cur = x.get('elem') if x else None
            elif e[0] == 'sub': pass
            r.append(cur)
        self.tc[k] = r
        return r
    def ptype(self, place): return self.ptys(place)[-1]
    def otype(self, o):
        if o[0] == 'const': return o[1]
        if o[0] == 'rtcheck': return self.I.tid('bool')
        return self.ptype(o[1])
