"""Program model: loads the MIR dump, precomputes loop nesting (weak topological
order) and liveness per function."""
import json, sys

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.api = d['api']; self.auto = d['auto']
        self.fns = d['fns']; self.types = d['types']
        self.info = {}
        self.bydef = {}
        for i, f in enumerate(self.fns):
            self.bydef.setdefault(f['def'], []).append(i)
        self.tyname = {}
        for i, t in enumerate(self.types):
            self.tyname.setdefault(t['name'], i)
            if t['k'] == 'adt' and t.get('akind') == 'Enum':
                ds = [v['discr'] for v in t['variants']]
                for j in range(len(ds) - 1):
                    if ds[j] > ds[j + 1]:      # negative discriminant given as a bit pattern
                        for b in (8, 16, 32, 64, 128):
                            if ds[j] < (1 << b): t['variants'][j]['discr'] = ds[j] - (1 << b); break

    def fn_info(self, i):
        x = self.info.get(i)
        if x is None:
            x = self.info[i] = FnInfo(self, self.fns[i])
        return x

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[5]]
    if k == 'asm': return [t[1]] if t[1] is not None else []
    return []

def op_place(o):
    return o[1] if o[0] in ('copy', 'move') else None

class FnInfo:
    def __init__(self, prog, f):
        self.f = f
        B = f['blocks']
        self.succ = [succs(b[1]) for b in B]
        self.build_wto()
        self.liveness(B)

    # Bourdoncle's weak topological order
    def build_wto(self):
        succ = self.succ
        dfn = {}; stack = []; num = [0]
        sys.setrecursionlimit(100000)
        INF = 1 << 60
        def component(v):
            part = []
            for s in succ[v]:
                if dfn.get(s, 0) == 0:
                    visit(s, part)
            part.reverse()
            return (v, part)
        def visit(v, part):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = num[0]
            loop = False
            for s in succ[v]:
                m = visit(s, part) if dfn.get(s, 0) == 0 else dfn[s]
                if m <= head:
                    head = m; loop = True
            if head == dfn[v]:
                dfn[v] = INF
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    part.append(component(v))
                else:
                    part.append(v)
            return head
        part = []
        visit(0, part)
        part.reverse()
        self.wto = part
        self.members = {}
        def mem(c):
            if isinstance(c, int): return {c}
            s = {c[0]}
            for x in c[1]: s |= mem(x)
            self.members[c[0]] = s
            return s
        for c in part: mem(c)
        self.inloop = set()
        for s in self.members.values(): self.inloop |= s

    def liveness(self, B):
        addr = set()
        use = []; deff = []
        def rd(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'idx' and e[1] not in d: u.add(e[1])
        def rop(o, u, d):
            p = op_place(o)
            if p is not None: rd(p, u, d)
        def wr(p, u, d):
            if len(p) == 1: d.add(p[0])
            else: rd(p, u, d)
        for ss, t in B:
            u = set(); d = set()
            for s in ss:
                if s[0] == '=':
                    rv = s[2]; k = rv[0]
                    if k == 'use': rop(rv[1], u, d)
                    elif k in ('ref', 'addr'):
                        rd(rv[2], u, d)
                        if '*' not in rv[2][1:]: addr.add(rv[2][0])
                    elif k in ('bin', 'cbin'): rop(rv[2], u, d); rop(rv[3], u, d)
                    elif k == 'un': rop(rv[2], u, d)
                    elif k in ('discr', 'len'): rd(rv[1], u, d)
                    elif k == 'repeat': rop(rv[1], u, d)
                    elif k == 'cast': rop(rv[2], u, d)
                    elif k == 'agg':
                        for o in rv[2]: rop(o, u, d)
                    wr(s[1], u, d)
                elif s[0] == 'setd': rd(s[1], u, d)
                elif s[0] == 'cpy': rop(s[1], u, d); rop(s[2], u, d); rop(s[3], u, d)
                elif s[0] == 'assume': rop(s[1], u, d)
            k = t[0]
            if k == 'switch': rop(t[1], u, d)
            elif k == 'drop': rd(t[1], u, d)
            elif k == 'call':
                if 'dyn' in t[1]: rop(t[1]['dyn'], u, d)
                for o in t[2]: rop(o, u, d)
                wr(t[3], u, d)
            elif k == 'assert': rop(t[1], u, d)
            elif k == 'return': u.add(0) if 0 not in d else None
            use.append(u); deff.append(d)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for i in range(len(B) - 1, -1, -1):
                o = set()
                for s in self.succ[i]: o |= live[s]
                n = use[i] | (o - deff[i])
                if n != live[i]: live[i] = n; ch = True
        self.live = live
        self.addr = addr
