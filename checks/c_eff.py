"""Effects and ownership: no operation writes the storage of an operand it does not own,
and every result owns its storage."""
import itertools
from lib import *
import lib, contracts as C, inputs as X

QLIM = 12      # seconds per analysed operation and operand-class tuple, quick tier

NUM = {'bigint::nat::Nat': 'nat', 'bigint::bigint::BigInt': 'big', 'bigint::rat::Rat': 'rat', 'bigint::float::Float': 'float'}
CLS = {'nat': ['nan', 'zero', 'pos'], 'big': ['nan', 'zero', '+', '-'], 'rat': ['nan', 'zero', '+', '-'], 'float': ['nan', 'zero', 'fin', 'inf']}
SHORT = {'nat': ['pos'], 'big': ['+', '-'], 'rat': ['-'], 'float': ['fin']}

def tyname(t):
    x = lib.P.types[t]
    return x.get('adt') if x['k'] == 'adt' else None
def numkind(t):
    """(kind, mutability) of a parameter: 'val' | 'ref' | 'mut'"""
    x = lib.P.types[t]
    if x['k'] == 'ref':
        k = numk(x['elem'])
        return (k, 'mut' if x.get('mut') else 'ref') if k else None
    k = numk(t)
    return (k, 'val') if k else None
def numk(t):
    n = tyname(t)
    if n and n.startswith('rmath::'): n = n[7:]
    return NUM.get(n)

def mkval(I, st, kind, cls, name):
    if kind == 'nat': return X.nat_obj(I, st, cls, name)[0]
    if kind == 'big': return X.big_obj(I, st, cls if cls in ('nan', 'zero') else (cls, 'pos'), name)[0]
    if kind == 'rat': return X.rat_obj(I, st, cls, name)[0]
    return X.float_obj(I, st, cls, name)[0]

def params(r):
    f = lib.P.fns[r['inst']]
    return f['locals'][1:1 + f['argc']]

def build(I, st, r, classes):
    """-> args, owners: {rc object: (param index, mode)}"""
    args = []; own = {}; homes = []; k = 0
    for i, t in enumerate(params(r)):
        nk = numkind(t); n0 = len(I.inputs)
        if nk is None:
            x = I.T[t]
            args.append(I.materialize(st, t) if x['k'] not in ('int', 'bool') else I.havoc(st, t)); homes.append(None)
            continue
        v = mkval(I, st, nk[0], classes[k], 'abcdef'[k]); k += 1
        for inf in I.inputs[n0:]: own[inf['rc']] = (i, nk[1], inf)
        if nk[1] == 'val': args.append(v); homes.append(None)
        else:
            o = I.newobj(st, v, 'p%d' % i, I.T[t]['elem']); I.pinned.add(o)
            args.append(('P', o, (), None)); homes.append(o)
    return args, own, homes

def unchanged(I, st, inf):
    """None | description of how the input's storage was changed"""
    s = C.shape(I); o = inf['rc']
    b = st.mem.get(o)
    if b is None: return None
    try:
        ln = I.load(st, o, s.vpath + s.pp['len']); bp = I.load(st, o, s.vpath + s.pp['ptr'])
    except (Split, Bottom): return None
    if inf['val'] == 'nan':
        if is_int(ln) and st.bounds(ln)[0] > 0: return 'a NaN operand becomes a number'
        return None
    if not is_int(ln): return None
    if not st.same(ln, inf['len']):
        l, h = st.bounds(sub(ln, inf['len']))
        if l > 0 or h < 0: return 'its length changes'
    S = st.mem.get(inf['buf'])
    if type(S) is tuple and S[0] == 'S' and S[4] != 0:
        site = I.versite.get(S[4])
        return 'its digits are overwritten at %s' % (site[0] if site else '?')
    if type(bp) is tuple and bp[0] == 'P' and bp[1] != inf['buf']: return 'its buffer is replaced'
    return None

def rcs(I, st, v, t, out, depth=0, path=None):
    """Rc boxes of all numbers reachable from a value of type t"""
    if depth > 8: return
    k = numk(t)
    if k == 'nat':
        s = C.shape(I)
        try:
            o = I.newobj(st, v, 'tmp', t)
            p = I.load(st, o, s.path)
        except (Split, Bottom): return
        if type(p) is tuple and p[0] == 'P': out.append(p[1])
        elif type(p) is tuple and p[0] == 'Q': out.extend(q[1] for q in p[1])
        return
    x = I.T[t]
    if type(v) is not tuple: return
    if v[0] == 'A':
        for fv, ft in zip(v[1], I.field_tys(t)): rcs(I, st, fv, ft, out, depth + 1)
    elif v[0] == 'E':
        tags = [v[1]] if type(v[1]) is int else range(len(v[2]))
        for i in tags:
            if i < len(v[2]) and v[2][i] is not None:
                for fv, ft in zip(v[2][i], I.field_tys(t, i)): rcs(I, st, fv, ft, out, depth + 1)

def uses_num(t, d=0):
    x = lib.P.types[t]
    if numk(t): return True
    if d > 4: return False
    if x['k'] in ('tuple',): return any(uses_num(e, d + 1) for e in x['elems'])
    if x['k'] == 'adt': return any(uses_num(e, d + 1) for e in x.get('args', []) if type(e) is int)
    return False

# Operations that hand the operand's own storage back by design
SHARES = {
    '<bigint::nat::Nat as std::clone::Clone>::clone', '<bigint::bigint::BigInt as std::clone::Clone>::clone',
    '<bigint::rat::Rat as std::clone::Clone>::clone', '<bigint::float::Float as std::clone::Clone>::clone',
}
def relevant(r):
    ks = [numkind(t) for t in params(r)]
    return any(ks)

def specs(which):
    out = []
    for i, r in enumerate(lib.P.api['roots']):
        if not r['pub'] and not r['trait']: continue
        if not relevant(r): continue
        ks = [numkind(t) for t in params(r) if numkind(t)]
        tab = CLS if len(ks) <= 2 else SHORT
        for c in itertools.product(*[tab[k[0]] for k in ks]): out.append((i, c, which))
    return out

def job(spec):
    i, classes, which = spec
    r = lib.P.api['roots'][i]
    key = '%s%s' % (r['path'], '<%s>' % ','.join(r['targs']) if r.get('targs') else '')
    if r['path'] in SHARES and which == 'own': return []
    big = not (r['path'].startswith('bigint::nat::') or r['path'].startswith('<bigint::nat::'))
    lad = [(8, 40000, False), (1, 30000, 2), (1, 400000 if lib.TIER == 'quick' else 1500000, 2)]
    if len(classes) > 2: lad = lad[1:]
    for K, budget, coarse in lad:
        if coarse == 2: big = True
        I = mkI(budget=budget, K=K, big=big, coarse=coarse)
        st = State()
        args, own, homes = build(I, st, r, classes)
        k2 = key + '|' + ','.join(classes)
        try: outs = run(I, st, r, args); break
        except (Budget, MemoryError): outs = None
    if outs is None: return [(k2, 'undecided', 'step limit')]
    res = reslist(); rt = lib.P.fns[r['inst']]['locals'][0]
    for o in outs:
        if o.kind != 'ret': continue
        o.st.imp = o.st.imp - {'join'}     # a may-effect analysis: joins only merge paths
        if which == 'pure':
            for rc, (pi, mode, inf) in own.items():
                if mode == 'mut': continue
                w = unchanged(I, o.st, inf)
                if w is None: res.append((k2, 'proved', 'operand %d untouched' % pi))
                elif o.st.imp: res.append((k2, 'undecided', w + '? ' + str(sorted(o.st.imp)[:2])))
                else: res.append((k2, 'violated', 'operand %d (%s) is modified: %s' % (pi, inf['name'], w)))
        else:
            s2 = o.st.copy()
            got = []
            if uses_num(rt): rcs(I, s2, o.val, rt, got)
            nres = len(got)
            for h, t in zip(homes, params(r)):
                nk = numkind(t)
                if nk and nk[1] == 'mut': rcs(I, s2, s2.mem.get(h), I.T[t]['elem'], got)
            if not got: continue
            bad = None
            for g in got:
                if g in own and (own[g][1] != 'mut' or g in got[:nres]): bad = own[g]
            if bad is None: res.append((k2, 'proved', 'result owns its storage'))
            elif o.st.imp: res.append((k2, 'undecided', 'shares? ' + str(sorted(o.st.imp)[:2])))
            else: res.append((k2, 'violated', 'the result shares the storage of operand %d (%s)' % (bad[0], bad[2]['name'])))
    return res
