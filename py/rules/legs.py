"""Leg typing of the tensor networks.

Every tensor is typed by the list of its legs: the space each leg lives on (bond of the state at position i, bond of
the Hamiltonian at position i, local space of site i, or a space a decomposition introduced) and its orientation.
The types of the inputs are declared per function (SPEC); the type of every value is computed on the value graph of
the function; each contraction, sum and linear combination is an obligation: contracted legs must be the same space
with opposite orientation, added tensors must have the same legs.  Loop-carried tensors are typed inductively.
Nothing is executed and no sizes are fixed: positions are polynomials in the site variables."""
import re
import terms as TM
from terms import mk, C, add, sub, neg, subst, size, ite, TRUE, FALSE, B
import equiv
from rules.common import loc
from check import Ob, simple

FRESH = ('svd', 'qr', 'lq', 'new')

def inv(l): return (l[0], l[1], -l[2])
def lmap(l, g):
    if isinstance(l[1], tuple): return (l[0], tuple(lmap(x, g) for x in l[1]), l[2])
    return g(l)
def lsub(l, m): return lmap(l, lambda x: (x[0], subst(x[1], m), x[2]) if isinstance(x[1], TM.T) else x)
def shl(l):
    if isinstance(l[1], tuple): return ('-' if l[2] < 0 else '') + l[0] + '(' + ' '.join(shl(x) for x in l[1]) + ')'
    return ('-' if l[2] < 0 else '') + str(l[0]) + ('(%s)' % TM.show(l[1]) if l[1] is not None else '')
def shls(ls): return '[' + ' '.join(shl(x) for x in ls) + ']' if ls is not None else '?'

ACC = re.compile(r'(^|::)(FiniteMPS|FiniteMPO|TenVec|MPS|DuoVector)(<.*>)?::(operator\[\]|operator\(\)|front|back|at)$')
def slots(q): return bool(ACC.search(q))
def accname(n): return 'slot' if n == 'slot' else None
def within(t, sc):
    return all(x.h != 'bv' or x in sc for x in t.fv)
def qn(n):
    s = re.sub(r'<.*', '', str(n))
    return s.replace('qlten::', '')

def mname(n):
    s = str(n).split('|')[0]
    for _ in range(6):
        r = re.sub(r'<[^<>]*>', '', s)
        if r == s: break
        s = r
    return '::'.join(s.split('(')[0].split('::')[-2:])
def given(t, m):
    """the term under a choice for the outcome of some conditions"""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is None:
            if x.h == 'ite' and x.a[0] in m: r = go(x.a[1] if m[x.a[0]] is TRUE else x.a[2])
            elif x.h in ('ite', 'eq', 'le0', 'lt0') and x in m: r = m[x]
            else: r = TM.rebuild(x, go)
            memo[x] = r
        return r
    return go(t)
def solved(c, i):
    """the value an equation forces on the iteration variable"""
    if c.h != 'eq': return {}
    d = TM.poly(sub(c.a[0], c.a[1]))
    k = d.get((i,))
    if k not in (1, -1) or any(i in m and m != (i,) for m in d): return {}
    r = {m: -x // k for m, x in d.items() if m != (i,)}
    return {i: TM.unpoly(r)}
class Typer(object):
    """legs of value terms under a role assignment for the inputs"""
    def __init__(self, roles, name=''):
        self.roles = roles         # term -> role
        self.memo = {}
        self.obs = {}              # contraction term -> (ok, detail)
        self.lvc = {}              # loop variable that is a collection -> its initial value
        self.lv = {}               # loop variable term -> legs (assumed inductively)
        self.name = name
        self.conds = []
        self.busy = set()
        self.heap = {}
        self.canon = lambda l: l
        self.ctx = None
        self.spec = {}; self.env = {}; self.sym = None; self.assume = ()
    # ---------------------------------------------------------------- objects that are collections of tensors
    def role(self, t):
        if t in self.roles: return self.roles[t]
        if t.h in ('deref', 'pv', 'box'): return self.role(t.a[0])
        return None
    def cell(self, o, acc, idx):
        """legs of the element idx of collection o"""
        n = 0
        while True:
            n += 1
            if n > 200: return None
            if o in self.roles or (o.h in ('deref', 'pv') and o.a[0] in self.roles):
                r = self.roles.get(o) or self.roles.get(o.a[0])
                if acc == 'end' and self.heap:
                    for p, v in self.heap.items():
                        if p.h == 'opget' and p.a[0] == 'slot' and self.collection(p.a[1]) is r:
                            d = sub(self.position('slot', p.a[2]), idx)
                            if d is TM.ZERO: return self.legs(v)
                            if d.h != 'c': return None
                return r(idx) if callable(r) else None
            if o.h == 'out' and isinstance(o.a[1], int):
                k = o.a[2 + o.a[1]] if len(o.a) > 2 + o.a[1] else None
                nm = str(o.a[0])
                nm = mname(nm)
                if nm.endswith('::LoadTen') and o.a[1] == 0:
                    d = sub(o.a[3], idx)
                    if d is TM.ZERO:
                        r = self.collection(o.a[2]); return r(idx) if r else None
                    if d.h != 'c': return None
                    o = o.a[2]; continue
                if re.search(r'::(alloc|DumpTen|dealloc|clear)$', nm) and o.a[1] == 0: o = o.a[2]; continue
                if re.search(r'::(Centralize|(Left|Right)Canonicalize(Ten_?)?)$', nm) and o.a[1] == 0:
                    r = self.collection(o.a[2]); return r(idx) if r else None
                return None
            if o.h == 'opset' and accname(o.a[0]):
                j = self.position(accname(o.a[0]), o.a[2])
                d = sub(j, idx)
                if d is TM.ZERO: return self.legs(self.heap.get(o.a[3], o.a[3]) if acc == 'end' else o.a[3])
                if d.h == 'c': o = o.a[1]; continue
                return None
            if o.h in ('deref', 'pv', 'box', 'obj'): o = o.a[0]; continue
            if o.h == 'proj' or o.h == 'bv' or o.h == 'call':
                r = self.collection(o)
                return r(idx) if r else None
            if o.h == 'ite':
                d = self.orientation(o.a[0])
                if d is not None: o = o.a[1] if d else o.a[2]; continue
                return self.join(o.a[0], self.cell(o.a[1], acc, idx), self.cell(o.a[2], acc, idx))
            return None
    def sending(self, t):
        if 'sent' not in self.spec or t.h != 'out' or t.a[1] != 0 or not str(t.a[0]).startswith('qlten::BlockSparseDataTensor::MPI_Send') and 'BlockSparseDataTensor' not in str(t.a[0]): return
        if 'MPI_Send' not in str(t.a[0]): return
        o = t.a[2]
        while o.h in ('opget', 'pv', 'deref'): o = o.a[1] if o.h == 'opget' else o.a[0]
        x = self.legs(o)
        if x is None: return
        want = [None if q == '*' else self.canon(parse(q, self.env)[0]) for q in self.spec['sent'].split()]
        self.note(mk('sent', t), len(x) == len(want) and all(q is None or p == q for p, q in zip(x, want)), 'sends a tensor with legs %s where the master expects [%s]' % (shls(x), self.spec['sent']))
    def localchain(self, idx): return parse(self.spec['local'], dict(self.env, i=idx))
    def position(self, acc, args):
        i = args[0]
        if i.h == 's': return TM.ZERO if i.a[0] == 'front' else sub(self.env['N'], C(1))
        return i
    def collection(self, o):
        """the declared role of the collection a value is a later state of"""
        n = 0
        while n < 200:
            n += 1
            if o in self.roles: return self.roles[o] if callable(self.roles[o]) else None
            if o.h in ('deref', 'pv', 'box', 'obj'): o = o.a[0]
            elif o.h == 'call' and 'local' in self.spec and mname(o.a[0]) == 'FiniteMPS::FiniteMPS': return self.localchain
            elif o.h == 'opset' and accname(o.a[0]): o = o.a[1]
            elif o.h == 'out' and o.a[1] == 0 and len(o.a) > 2: o = o.a[2]
            elif o.h == 'proj' and o.a[0].h == 'loop' and isinstance(o.a[1], int):
                x = o.a[0].a[5][o.a[1]]
                if not isinstance(x, TM.T): return None
                o = x
            elif o.h == 'bv': 
                o = self.lvc.get(o)
                if o is None: return None
            elif o.h == 'ite':
                p, q = self.collection(o.a[1]), self.collection(o.a[2])
                return p if p is q else None
            else: return None
        return None
    def orientation(self, c):
        """a test on the direction of an index, decided by the declared orientation of the leg"""
        if c.h == 'not': 
            r = self.orientation(c.a[0]); return None if r is None else not r
        for w, v in self.assume:
            if w is c: return v
            im = TM.implied(w, v, c)
            if im is not None: return im is TRUE or im is True
        N = self.env.get('N')
        if N is not None and c.fv == frozenset([N]) and c.h in ('le0', 'lt0', 'eq'):      # a chain is long
            r = subst(c, {N: C(10**6)})
            if r is TRUE or r is FALSE: return r is TRUE
        if c.h != 'eq': return None
        for x, y in (c.a[:2], c.a[1::-1]):
            if x.h == 'call' and qn(x.a[0]) in ('Index::GetDir', 'Index::dir') and y.h == 'c':
                l = self.index(x.a[1])
                if l is not None: return (l[2] > 0) == (y.a[0] == 2)
        return None
    def join(self, c, x, y):
        if x is None or y is None: 
            if c not in self.conds: self.conds.append(c)
            return None
        if x == y: return x
        if c not in self.conds: self.conds.append(c)
        return None
    # ---------------------------------------------------------------- indices
    def index(self, t):
        if t.h == 'call':
            n = qn(t.a[0])
            if n == 'InverseIndex': 
                x = self.index(t.a[1]); return inv(x) if x else None
            if n == 'QLTensor::GetIndex':
                ls = self.legs(t.a[1]); k = t.a[2]
                return ls[k.a[0]] if ls and k.h == 'c' and 0 <= k.a[0] < len(ls) else None
            if n.startswith('ctor Index'): return ('new', t, 1)
        if t.h == 'at' and t.a[0].h == 'call' and qn(t.a[0].a[0]) == 'QLTensor::GetIndexes':
            ls = self.legs(t.a[0].a[1]); k = t.a[1]
            return ls[k.a[0]] if ls and k.h == 'c' and 0 <= k.a[0] < len(ls) else None
        if t.h == 'pv': return self.index(t.a[0])
        if t in self.roles and isinstance(self.roles[t], tuple): return self.roles[t]
        return None
    # ---------------------------------------------------------------- tensors
    def legs(self, t):
        if t in self.memo: return self.memo[t]
        if t in self.busy: return None
        self.busy.add(t)
        try: r = self.legs_(t)
        finally: self.busy.discard(t)
        if r is not None: r = [self.canon(l) for l in r]
        self.memo[t] = r
        return r
    def legs_(self, t):
        h, a = t.h, t.a
        if t in self.lv: return self.lv[t]
        if t in self.roles:
            r = self.roles[t]
            return r if isinstance(r, list) else None
        if h in ('pv', 'box', 'deref'): return self.legs(a[0])
        if h == 'new': return self.legs(a[1]) if len(a) > 1 else None
        if h == 'ite':
            d = self.orientation(a[0])
            if d is not None: return self.legs(a[1] if d else a[2])
            return self.join(a[0], self.legs(a[1]), self.legs(a[2]))
        if h == 'at':
            return self.cell(a[0], 'at', a[1])
        if h == 'opget':
            if accname(a[0]): return self.cell(a[1], accname(a[0]), self.position(accname(a[0]), a[2]))
            return None
        if h == 'opset' and 'QLTensor::operator()' in a[0]: return self.legs(a[1])
        if h == 'proj' and a[0].h == 'loop' and isinstance(a[1], int): return self.loop(a[0], a[1])
        if h == 'call':
            n = str(a[0])
            q = qn(n)
            if q.startswith('ctor TensorContraction1SectorExecutor') and len(a) in (7, 8):
                return self.product(t, a[1], a[4], self.axes(a[5]) if len(a) == 7 else [self.axes(a[5]), self.axes(a[6])])
            if q == 'Dag':
                x = self.legs(a[1]); return [inv(l) for l in x] if x is not None else None
            if q.startswith('ctor QLTensor') or n.startswith('ctor qlten::QLTensor'):
                if len(a) == 2 and a[1].h == 'cat':
                    out = []
                    for p in a[1].a[0]:
                        if p.h != 'lit1': return None
                        i = self.index(p.a[0])
                        if i is None: return None
                        out.append(i)
                    return out
                if len(a) == 2: return self.legs(a[1])
                return None
            if q in ('QLTensor::operator-', 'operator*', 'operator-') or 'QLTensor::operator-' in n:
                for x in a[1:]:
                    r = self.legs(x)
                    if r is not None: return r
                return None
            if 'QLTensor::operator+' in n:
                return self.same(t, a[1], a[2])
            if re.search(r'Lanczos\w*Solver|eff_ham|Lanczos', n): return None
            return None
        if h == 'fld':
            if a[1] in ('gs_vec', 'expmv') and a[0].h == 'call' and re.search(r'Lanczos', str(a[0].a[0])): return self.solver(a[0])
            return None
        if h == 'out': return self.out(t)
        return None
    def solver(self, t):
        """the state a Krylov solver returns lives where the initial one does; the operator must map that space to itself"""
        st = None
        for x in t.a[1:]:
            st = self.legs(x)
            if st is not None: break
        fn = [x.a[0] if x.h in ('pv', 'deref') else x for x in t.a[1:]]
        fn = [x for x in fn if x.h == 'fn']
        hm = [x for x in t.a[1:] if x.h == 'cat' and all(p.h == 'lit1' for p in x.a[0])]
        if st is not None and fn and hm and self.ctx:
            P, ops = self.ctx
            key = fn[0].a[0]
            if key in P.bykey and P.bykey[key].get('body'):
                es = [self.legs(p.a[0]) for p in hm[0].a[0]]
                if all(e is not None for e in es):
                    S = equiv.interpret(P, key, ops - {key, P.bykey[key]['f']}, slots=slots)
                    tag = key if len(key) < 60 else equiv.hash_any(key)[:10]
                    T2 = Typer({mk('sym', 0, tag): (lambda idx: es[idx.a[0]] if idx.h == 'c' and 0 <= idx.a[0] < len(es) else None), mk('sym', 1, tag): st}, self.name); T2.canon = self.canon
                    r = T2.legs(S.obs['ret']) if 'ret' in S.obs else None
                    for o, (ok, w) in T2.obs.items(): self.note(mk('pair', t, o), ok, 'in %s applied by the solver: %s' % (simple(P.bykey[key]['q']), w))
                    if r is not None: self.note(t, r == st, 'the effective Hamiltonian maps a state with legs %s to one with legs %s' % (shls(st), shls(r)))
        return st
    def axes(self, t):
        if t.h != 'cat': return None
        out = []
        for p in t.a[0]:
            if p.h != 'lit1': return None
            v = p.a[0]
            if v.h == 'c': out.append(int(v.a[0]))
            elif v.h == 'cat':
                w = self.axes(v)
                if w is None: return None
                out.append(w)
            else: return None
        return out
    def note(self, t, ok, why):
        if not ok and 'unk(' in why: return         # not understood is not wrong
        self.obs[t] = (ok, why)
    def same(self, t, x, y):
        p, q = self.legs(x), self.legs(y)
        if p is None or q is None:
            if p is None and q is None: return None
            return p if q is None else q
        self.note(t, p == q, 'adds tensors with legs %s and %s' % (shls(p), shls(q)))
        return p
    def out(self, t):
        n = qn(t.a[0]); k = t.a[1]; a = t.a[2:]
        if n == 'Contract': return self.contract(t, a)
        if n in ('TensorContraction1SectorExecutor::Execute', 'TensorContraction1SectorExecutor::SetSelectedQNSect'):
            return self.legs(a[0]) if k == 0 or n.endswith('Execute') else self.legs(a[k])
        if n == 'QLTensor::GetBlkSparDataTen' and k == 0: return self.legs(a[0])
        if re.search(r'(^|::)(MPI_Bcast|MPI_Recv|recv_qlten|MPI_Send)$', n):
            x = self.legs(a[k])
            if x is not None: return x
            if 'recv' in self.spec and re.search(r'(Bcast|Recv|recv_qlten)$', n) and self.blank(a[k]): return [self.canon(l) for l in parse(self.spec['recv'], self.env)]
            return None
        if n in ('QLTensor::Transpose',) and k == 0:
            x = self.legs(a[0]); p = self.axes(a[1])
            if x is None or p is None: return None
            ok = sorted(p) == list(range(len(x)))
            self.note(t, ok, 'transposes %s by %s' % (shls(x), p))
            return [x[i] for i in p] if ok else None
        if n in ('QLTensor::Normalize', 'QLTensor::QuasiNormalize', 'QLTensor::operator*=', 'QLTensor::ActFermionPOps', 'QLTensor::Random', 'QLTensor::MultiplyByScalar', 'QLTensor::GetBlkSparDataTen', 'QLTensor::operator()') and k == 0:
            return self.legs(a[0])
        if n == 'QLTensor::operator+=' and k == 0: return self.same(t, a[0], a[1])
        if n == 'QLTensor::FuseIndex' and k == 0:
            x = self.legs(a[0])
            if x is None or a[1].h != 'c' or a[2].h != 'c': return None
            i, j = int(a[1].a[0]), int(a[2].a[0])
            ok = i != j and max(i, j) < len(x) and x[i][2] == x[j][2]
            self.note(t, ok, 'fuses legs %d and %d of %s' % (i, j, shls(x)))
            if not ok: return None
            f = ('fuse', tuple((l[0], l[1], 1) for l in (x[i], x[j])), x[i][2])
            return [f] + [l for m, l in enumerate(x) if m not in (i, j)]
        if n == 'SVD' and len(a) == 11:
            x = self.legs(a[0])
            if x is None or a[1].h != 'c': return None
            d = int(a[1].a[0]); s = ('svd', mk('pair', a[0], a[1]), 1)
            self.note(mk('svdob', a[0], a[1]), 0 < d < len(x), 'splits %s after %d legs' % (shls(x), d))
            return {6: x[:d] + [s], 7: [inv(s), s], 8: [inv(s)] + x[d:]}.get(k)
        if n in ('QR', 'LQ') and len(a) == 5:
            x = self.legs(a[0])
            if x is None or a[1].h != 'c': return None
            d = int(a[1].a[0]); s = (n.lower(), mk('pair', a[0], a[1]), 1)
            self.note(mk('svdob', a[0], a[1]), 0 < d < len(x), 'splits %s after %d legs' % (shls(x), d))
            return {3: x[:d] + [s], 4: [inv(s)] + x[d:]}.get(k)
        if n in ('Expand', 'ExpandQNBlocks', 'ExpandMC', 'ExpandMCQNBlocks') and k == 3:
            x, y, ax = self.legs(a[0]), self.legs(a[1]), self.axes(a[2])
            if x is None or y is None or ax is None: return None
            ok = len(x) == len(y) and all(i < len(x) for i in ax) and all(p == q for i, (p, q) in enumerate(zip(x, y)) if i not in ax)
            self.note(t, ok, 'expands %s with %s along %s' % (shls(x), shls(y), ax))
            if not ok: return None
            return [('sum', tuple((l[0], l[1], 1) for l in (x[i], y[i])), x[i][2]) if i in ax else x[i] for i in range(len(x))]
        if n == 'LinearCombine' and len(a) in (4, 5):
            seqs = [p for p in a if p.h == 'cat' and any(self.legs(q.a[0]) is not None for q in p.a[0] if q.h == 'lit1')]
            r = None
            for s in seqs:
                for q in s.a[0]:
                    if q.h != 'lit1': continue
                    x = self.legs(q.a[0])
                    if x is None: continue
                    if r is not None: self.note(t, r == x, 'combines tensors with legs %s and %s' % (shls(r), shls(x)))
                    r = x
            return r
        if re.match(r'(qlmps::)?ReadQLTensorFromFile\b', str(t.a[0])):
            return self.file(a[1]) if k == 0 else None
        return None
    def file(self, name):
        m = re.match(r'^.*GenEnvTenName', str(name.a[0])) if name.h == 'call' else None
        if m:
            d, ln = name.a[1], name.a[2]
            r = self.roles.get('envfile')
            if d.h == 'cat' and len(d.a[0]) == 1 and d.a[0][0].h == 'lit1' and d.a[0][0].a[0].h == 'c': d = chr(int(d.a[0][0].a[0].a[0]))
            else: d = d.a[0] if d.h == 's' else None
            if r and d: return r(d, ln)
        m = re.match(r'^.*GenMPSTenName', str(name.a[0])) if name.h == 'call' else None
        if m and len(name.a) == 3:
            r = self.roles.get('envfile')
            if r: return r('m', name.a[2])
        return None
    def transfer(self, t):
        """a slot and the file it is exchanged with hold the same tensor, and so do a tensor and the file it is written to"""
        if 'files' not in self.spec: return
        if t.h == 'out' and t.a[1] == 0 and len(t.a) > 4: n, a = str(t.a[0]), t.a[2:]
        elif t.h == 'ev' and t.a[0] == 'file': n, a = str(t.a[1] if not isinstance(t.a[1], TM.T) else TM.show(t.a[1])), t.a[2:]
        else: return
        if re.search(r'TenVec[^|]*::(Load|Dump)Ten\b', n) and len(a) > 2:
            f = self.file(a[2]); r = self.collection(a[0])
            if f is None or r is None: return
            j = self.position('slot', (a[1],))
            x = self.cell(a[0], 'at', j) if 'DumpTen' in n else r(j)
            if x is None: x = r(j)
            if x is None: return
            x = [self.canon(l) for l in x]
            bad = len(x) != len(f) or any(l != m and not (l[0] in FRESH) for l, m in zip(x, f))
            self.note(t, not bad, '%s slot %s holding legs %s %s a file for legs %s' % ('dumps' if 'DumpTen' in n else 'loads', TM.show(j), shls(x), 'to' if 'DumpTen' in n else 'from', shls(f)))
        elif 'WriteQLTensorTOFile' in n and len(a) > 1:
            f = self.file(a[1]); x = self.legs(a[0])
            if f is None or x is None: return
            self.note(t, x == f, 'writes legs %s to a file for legs %s' % (shls(x), shls(f)))
    def blank(self, t):
        """a tensor nothing was put in yet"""
        while t.h in ('pv', 'box', 'deref') or t.h == 'new':
            t = t.a[0] if t.h != 'new' else t.a[1]
        return t.h == 'call' and qn(t.a[0]).startswith('ctor QLTensor') and len(t.a) == 1
    def product(self, t, A, B, ax):
        x, y = self.legs(A), self.legs(B)
        if x is None or y is None or ax is None or len(ax) != 2 or ax[0] is None or ax[1] is None: return None
        p, q = ax
        rest = [l for m, l in enumerate(x) if m not in p] + [l for m, l in enumerate(y) if m not in q]
        return self.pair(t, x, y, p, q, rest)
    def contract(self, t, a):
        k = t.a[1]
        if len(a) == 4 and k == 3: A, B, ax = a[0], a[1], self.axes(a[2])
        elif len(a) == 5 and k == 4: A, B = a[0], a[2]; ax = [self.axes(a[1]), self.axes(a[3])]
        elif len(a) == 6 and k == 5: A, B, ax = a[0], a[1], None
        else: return None
        x, y = self.legs(A), self.legs(B)
        if x is None or y is None: return None
        if len(a) == 6:
            if not all(v.h == 'c' for v in a[2:5]): return None
            i, j, n = (int(v.a[0]) for v in a[2:5])
            if not x or not y: return None
            p = [(i + m) % len(x) for m in range(n)]; q = [(j + m) % len(y) for m in range(n)]
            rest = [x[(i + n + m) % len(x)] for m in range(len(x) - n)] + [y[(j + n + m) % len(y)] for m in range(len(y) - n)]
        else:
            if ax is None or len(ax) != 2 or ax[0] is None or ax[1] is None: return None
            p, q = ax
            rest = [l for m, l in enumerate(x) if m not in p] + [l for m, l in enumerate(y) if m not in q]
        return self.pair(t, x, y, p, q, rest)
    def pair(self, t, x, y, p, q, rest):
        ok = len(p) == len(q) and len(set(p)) == len(p) and len(set(q)) == len(q) and all(0 <= m < len(x) for m in p) and all(0 <= m < len(y) for m in q)
        why = 'contracts legs %s of %s with legs %s of %s' % (p, shls(x), q, shls(y))
        if ok:
            for m, n in zip(p, q):
                if x[m] != inv(y[n]):
                    ok = False; why += ': leg %d is %s, leg %d is %s' % (m, shl(x[m]), n, shl(y[n]))
        self.note(t, ok, why)
        return rest if ok else None
    # ---------------------------------------------------------------- the state and the environments after the function
    def cells(self, o):
        """positions of the collection written by the function"""
        out = []
        while True:
            if o.h == 'opset' and accname(o.a[0]):
                j = self.position(accname(o.a[0]), o.a[2])
                if j not in out: out.append(j)
                o = o.a[1]
            elif o.h == 'out' and o.a[1] == 0 and len(o.a) > 2: o = o.a[2]
            elif o.h in ('deref', 'pv', 'obj'): o = o.a[0]
            else: return out
    def ends(self, obs, spec):
        for i, w in spec.get('refs', {}).items():
            o = obs.get('arg%s' % i)
            x = self.legs(o) if o is not None else None
            if x is None: continue
            want = [None if q == '*' else self.canon(parse(q, self.env)[0]) for q in w.split()]
            self.note(mk('end', mk('sym', i)), len(x) == len(want) and all(q is None or p == q for p, q in zip(x, want)), 'leaves argument %d with legs %s, declared [%s]' % (i, shls(x), w))
    def middle(self, tag, j, x, want):
        """the legs of a site between its bonds are the declared ones"""
        if x is None or want is None: return
        want = [self.canon(l) for l in want]
        self.note(mk('mid', *[t if isinstance(t, TM.T) else C(str(t)) for t in tag], j), len(x) == len(want) and x[1:-1] == want[1:-1], 'leaves site %s with legs %s, declared [%s]' % (TM.show(j), shls(x), shls(want)))
    def chainstate(self, obs, spec):
        N = self.env['N']
        for i, r in spec.items():
            if i in META: continue
            o = obs.get('this' if i == 'this' else 'arg%s' % i)
            if not isinstance(r, tuple) or o is None: continue
            if o.h == 'ite':
                if o.a[0] not in self.conds: self.conds.append(o.a[0])
                continue
            js = self.cells(o)
            if r[0] == 'chain':
                last = len(parse(r[1], dict(self.env, i=SITE))) - 1
                for j in js:
                    x = self.cell(o, 'end', j)
                    self.middle(('site', i), j, x, [self.canon(l) for l in parse(r[1], dict(self.env, i=j))])
                    for a, b in ((sub(j, C(1)), j), (j, add(j, C(1)))):
                        p, q = self.cell(o, 'end', a), self.cell(o, 'end', b)
                        if p is None or q is None: continue
                        self.note(mk('joined', mk('sym', i), a), len(p) == last + 1 and len(q) == last + 1 and p[last] == inv(q[0]),
                                  'leaves site %s with legs %s and site %s with legs %s' % (TM.show(a), shls(p), TM.show(b), shls(q)))
            elif r[0] == 'vec' and len(r) > 2:
                ch = obs.get('arg%s' % r[3]) if ('arg%s' % r[3]) in obs else self.sym(r[3])
                for j in js:
                    x = self.cell(o, 'end', j)
                    if x is None: continue
                    if r[2] == 'l': s = self.cell(ch, 'end', j); bond = inv(s[0]) if s else None; want = (-1, 1, 1); pos = j
                    else: s = self.cell(ch, 'end', sub(sub(N, j), C(1))); bond = s[-1] if s else None; want = (1, -1, -1); pos = sub(N, j)
                    if bond is None: continue
                    w = ('w', pos, 1)
                    exp = [bond if want[0] > 0 else inv(bond), w if want[1] > 0 else inv(w), bond if want[2] > 0 else inv(bond)]
                    self.note(mk('env', mk('sym', i), j), x == exp, 'leaves environment %s with legs %s where the neighbouring site needs %s' % (TM.show(j), shls(x), shls(exp)))
    # ---------------------------------------------------------------- loops
    def under(self, m):
        T2 = Typer(self.roles, self.name); T2.lv = dict(self.lv); T2.lv.update(m); T2.lvc = dict(self.lvc); T2.env = self.env; T2.sym = self.sym; T2.spec = self.spec; T2.assume = self.assume; T2.canon = self.canon; T2.ctx = self.ctx; T2.conds = self.conds
        return T2
    def loop(self, L, j):
        """tensors carried around a loop: the first two iterations are typed as they are; the types they show are then
        generalised to every iteration, and the generalisation is checked to be inductive"""
        k, N, hc, fe, ups, inits = L.a
        bv = TM.bvars(L); i, vs = bv[0], bv[1:]
        key = ('loop', L)
        if key not in self.memo:
            n = len(vs); self.memo[key] = [None] * n
            x0 = [self.legs(v) if isinstance(v, TM.T) else None for v in inits]
            self.memo[('hyp', L)] = [None] * n
            if not any(x is not None for x in x0): return None
            # a type is only needed for the next iteration, if there is one
            mm = {}
            if N.h != 'inf':
                c = TM.le0(add(sub(i, N), C(2)))
                up = True
                if c.h == 'ite': up = c.a[1] is TRUE; c = c.a[0]
                for w in set(t.a[0] for u in ups if isinstance(u, TM.T) for t in TM.subterms(u) if t.h == 'ite' and i in t.a[0].fv):
                    im = B(up) if w is c else TM.implied(c, up, w)
                    if im is not None: mm[w] = im if isinstance(im, TM.T) else B(im)
            ups0 = ups
            if mm: ups = tuple(given(u, mm) if isinstance(u, TM.T) else u for u in ups)
            def step(x, at_):
                T2 = self.under({v: y for v, y in zip(vs, x) if y is not None})
                for v, y in zip(vs, inits):
                    if isinstance(y, TM.T): T2.lvc[v] = y
                if at_ is not None:
                    m = {i: C(at_)}
                    nx = [T2.legs(subst(u, m)) if isinstance(u, TM.T) else None for u in ups]
                else: nx = [T2.legs(u) if isinstance(u, TM.T) else None for u in ups]
                ren = T2.renaming(vs, [subst(u, m) if at_ is not None and isinstance(u, TM.T) else u for u in ups])
                if ren: nx = [None if x is None else [ren.get((l[0], l[1]), l)[:2] + (l[2],) for l in x] for x in nx]
                return nx, T2
            x1, Ta = step(x0, 0)
            for t, (ok, w) in Ta.obs.items():
                if not ok: self.note(t, ok, 'first iteration: ' + w)
            x2, Tb = step(x1, 1)
            for t, (ok, w) in Tb.obs.items():
                if not ok: self.note(t, ok, 'second iteration: ' + w)
            def gen(p, q):
                """types at iterations 1 and 2 -> type at iteration i"""
                if p is None or q is None or len(p) != len(q): return None
                out = []
                for l, m in zip(p, q):
                    if l[0] != m[0] or l[2] != m[2] or (l[1] is None) != (m[1] is None): return None
                    if l[1] is None or l == m or l[0] in FRESH or isinstance(l[1], tuple): out.append(m); continue
                    d = sub(m[1], l[1])
                    if d.h != 'c': return None
                    out.append((l[0], add(l[1], TM.mul(d, sub(i, C(1)))), l[2]))
                return out
            hyp = [gen(p, q) for p, q in zip(x1, x2)]
            def sub_i(h, v): return None if h is None else [self.canon(lsub(l, {i: v})) for l in h]
            for m in range(n):
                if hyp[m] is not None and x0[m] is not None and sub_i(hyp[m], TM.ZERO) != x0[m]: hyp[m] = None
            while True:
                nx, Tc = step(hyp, None)
                drop = [m for m in range(n) if hyp[m] is not None and nx[m] != sub_i(hyp[m], add(i, C(1)))]
                if not drop: break
                for m in drop: hyp[m] = None
            for t, o in Tc.obs.items(): self.obs.setdefault(t, o)
            self.memo[('hyp', L)] = hyp
            end = N if N.h != 'inf' else mk('proj', L, 'n')
            self.memo[key] = [sub_i(h, end) if ups[m] is ups0[m] else None for m, h in enumerate(hyp)]
        r = self.memo[key]
        return r[j] if j < len(r) else None

    def bodies(self, roots, scope, depth=0):
        """types everything inside the loops reachable from the roots, for an arbitrary iteration"""
        tot = set()
        seen = set()
        for r in roots:
            for L in TM.subterms(r):
                if L.h not in TM.BINDERS or L in seen or not within(L, scope): continue
                seen.add(L)
                bv = TM.bvars(L); sc = scope | frozenset(bv)
                if L.h == 'loop':
                    self.loop(L, 0)
                    hyp = self.memo[('hyp', L)]
                    k, N, hc, fe, ups, inits = L.a
                    us = tuple(ups) + ((fe,) if isinstance(fe, TM.T) else ())
                else:
                    hyp = inits = ups = (); us = ()
                    for x in L.a: us += tuple(y for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, TM.T))
                cases = [(us, {})]
                n = 0
                while cases:
                    (us, at_) = cases.pop(0); n += 1
                    T2 = self.under({v: y for v, y in zip(bv[1:], hyp) if y is not None}); T2.conds = []
                    if at_: T2.canon = (lambda f, m: lambda l: f((l[0], subst(l[1], m), l[2]) if isinstance(l[1], TM.T) else l))(self.canon, at_)
                    for v, x in zip(bv[1:], inits):
                        if isinstance(x, TM.T): T2.lvc[v] = x
                    sub_ = set()
                    for u in us:
                        if not isinstance(u, TM.T): continue
                        for t in TM.subterms(u):
                            if not within(t, sc): continue
                            if t.h == 'out' and qn(t.a[0]) == 'Contract': sub_.add(t)
                            if t.h in ('out', 'proj', 'call', 'opget', 'fld'): T2.legs(t); T2.sending(t)
                            if t.h in ('out', 'ev'): T2.transfer(t)
                            if L.h != 'loop' and t.h == 'ev' and t.a[0] == 'hstore' and len(bv) == 1: T2.stored(t, bv[0])
                    if L.h == 'loop': T2.chainends([(v, u) for v, u in zip(bv[1:], us[:len(ups)])], bv[0])
                    cs = [c for c in T2.conds if within(c, sc)]
                    if not cs and any(o[0] is False for o in T2.obs.values()):
                        # an obligation that fails for an arbitrary iteration may hold in each of the cases the body distinguishes
                        cs = [c for c in {t.a[0]: 1 for u in us if isinstance(u, TM.T) for t in TM.subterms(u) if t.h == 'ite'} if within(c, sc) and solved(c, bv[0])]
                    if cs and n < 24:
                        c = min(cs, key=lambda c: (sum(1 for _ in TM.subterms(c)), c.n))
                        ats = set(t.a[0] for r in us if isinstance(r, TM.T) for t in TM.subterms(r) if t.h == 'ite')
                        for v in (TRUE, FALSE):
                            mm = {w: B(im) for w in ats for im in [TM.implied(c, v is TRUE, w)] if im is not None}
                            mm[c] = v
                            cases.append((tuple(given(x, mm) if isinstance(x, TM.T) else x for x in us), {**at_, **(solved(c, bv[0]) if v is TRUE else {})}))
                        continue
                    if depth < 3: sub_ |= T2.bodies([u for u in us if isinstance(u, TM.T)], sc, depth + 1)
                    for t, o in T2.obs.items(): self.obs.setdefault(t, o) if o[0] else self.obs.__setitem__(t, (False, 'in a loop: ' + o[1] if not o[1].startswith('in a loop') else o[1]))
                    tot |= sub_
        return tot
    def renaming(self, vs, ups):
        """the bonds a decomposition made in an iteration are the bonds of the chain the next iteration sees"""
        ren = {}
        for u in ups:
            if not isinstance(u, TM.T): continue
            for t in TM.subterms(u):
                if t.h != 'ev' or t.a[0] != 'hstore' or not isinstance(t.a[2], TM.T): continue
                p = t.a[1][0] if isinstance(t.a[1], tuple) else t.a[1]
                r = self.collection(p.a[1]) if p.h == 'opget' and p.a[0] == 'slot' else None
                if not r: continue
                x, y = self.legs(t.a[2]), r(self.position('slot', p.a[2]))
                if x is None or y is None or len(x) != len(y): continue
                for b, q in ((x[0], y[0]), (x[-1], y[-1])):
                    if b[0] in FRESH and b[2] == q[2]: ren[(b[0], b[1])] = q
        for v, u in zip(vs, ups):
            if not isinstance(u, TM.T) or not self.collection(v): continue
            r = self.collection(v)
            for j in self.cells(u):
                x, y = self.cell(u, 'end', j), r(j)
                if x is None or y is None or len(x) != len(y): continue
                for p, q in ((x[0], y[0]), (x[-1], y[-1])):
                    if p[0] in FRESH and p[2] == q[2]: ren[(p[0], p[1])] = q
        return ren
    def stored(self, t, i):
        """an element written through its pointer in every iteration fits the one written in the next"""
        p = t.a[1]
        p = p.a[0] if isinstance(p, tuple) else p
        if p.h != 'opget' or p.a[0] != 'slot' or self.position('slot', p.a[2]) is not i: return
        r = self.collection(p.a[1]); x = self.legs(t.a[2]) if isinstance(t.a[2], TM.T) else None
        probe = r(SITE) if r else None
        if x is None or not probe or probe[0][0] != probe[-1][0] or probe[0][2] != -probe[-1][2]: return
        self.middle(('store', t), i, x, r(i))
        n = [self.canon(lsub(l, {i: add(i, C(1))})) for l in x]
        self.note(mk('joined', t), len(x) == len(probe) and x[-1] == inv(n[0]), 'leaves site %s with legs %s and the next with %s' % (TM.show(i), shls(x), shls(n)))
    def chainends(self, vs, i):
        """the sites written by one iteration fit their neighbours; a collection written once per iteration is compared with the next iteration"""
        for v, u in vs:
            if not isinstance(u, TM.T) or not self.collection(v): continue
            r = self.collection(v)
            probe = r(SITE)
            if not probe or len(probe) < 3 or probe[0][0] != probe[-1][0] or probe[0][2] != -probe[-1][2] : continue      # not a chain
            last = len(probe) - 1
            js = self.cells(u)
            for j in js:
                self.middle(('loop', v), j, self.cell(u, 'end', j), r(j))
                for a, b in ((sub(j, C(1)), j), (j, add(j, C(1)))):
                    p, q = self.cell(u, 'end', a), self.cell(u, 'end', b)
                    if b is not j and b not in js and j is i and len(js) == 1 and p is not None: q = [self.canon(lsub(l, {i: add(i, C(1))})) for l in p] if p[-1][0] == 'fuse' else q
                    elif a is not j and a not in js and j is i and len(js) == 1 and q is not None and q[0][0] == 'fuse': continue
                    if p is None or q is None: continue
                    self.note(mk('joined', v, a), len(p) == last + 1 and len(q) == last + 1 and p[last] == inv(q[0]),
                              'leaves site %s with legs %s and site %s with legs %s' % (TM.show(a), shls(p), TM.show(b), shls(q)))

# ---------------------------------------------------------------------------------------------------------- declarations
def parse(s, env):
    """'-b(i) w(i+1)' -> legs"""
    out = []
    for w in s.split():
        g = 1
        if w[0] == '-': g = -1; w = w[1:]
        m = re.match(r'^(\w+)(?:\((.*)\))?$', w)
        ix = None
        if m.group(2) is not None:
            e = m.group(2)
            ix = TM.ZERO
            for sg, tok in re.findall(r'([+-]?)(\w+)', e):
                v = C(int(tok)) if tok.isdigit() else env[tok]
                ix = sub(ix, v) if sg == '-' else add(ix, v)
        out.append((m.group(1), ix, g))
    return out

SITE = mk('iv', 'site')
META = ('fields', 'uniform', 'ret', 'vars', 'refs', 'files', 'local', 'recv', 'sent')
CANON = lambda l: l
def chain(spec, env):
    return lambda idx: parse(spec, dict(env, i=idx))
A = '-b(i) p(i) b(i+1)'; W = '-w(i) -p(i) p(i) w(i+1)'; LE = '-b(i) w(i) b(i)'; RE = 'b(i) -w(i) -b(i)'
KEEP = re.compile(r'(^|::)FiniteMPS::FiniteMPS$|(FiniteMPS|FiniteMPO|TenVec|MPS|DuoVector|SiteVec)::(operator\[\]|operator\(\)|front|back|size|DumpTen|LoadTen|dealloc|alloc|empty|Centralize|(Left|Right)Canonicalize(Ten_?)?)$|^(qlmps::)?(ReadQLTensorFromFile|WriteQLTensorTOFile|GenEnvTenName|RemoveFile|IsPathExist|CreatPath|GenMPSTenName|MeasureEE|Lanczos\w*Solver|Master\w*Solver|TridiagGsSolver|IsQNCovered)$')
def opaque(P):
    return set(f['key'] for k, f in P.F.items() if not f.get('body') or '/qlmps/' not in str(f.get('file')) or KEEP.search(simple(f['q']))) | \
           set(k for k, f in P.F.items() if not f.get('body') or '/qlmps/' not in str(f.get('file')) or KEEP.search(simple(f['q'])))

# function -> {parameter position: role}; 'ret': declared legs of the result
U = '-u(i) -p(i) p(i) u(i+1)'; V = '-v(i) -p(i) p(i) v(i+1)'; X = '-x(i) -p(i) p(i) x(i+1)'
RN = 'b(N-i) -w(N-i) -b(N-i)'
MPSL = ('vec', LE, 'l', 0); MPSR = ('vec', RN, 'r', 0)
FILES = {'l': LE, 'r': RN, 'm': A}
SPEC = {
 # environments and effective Hamiltonians
 'UpdateSiteLenvs': {0: LE, 1: A, 2: W, 'ret': '-b(i+1) w(i+1) b(i+1)'},
 'UpdateSiteRenvs': {0: 'b(i+1) -w(i+1) -b(i+1)', 1: A, 2: W, 'ret': RE},
 'eff_ham_mul_two_site_state': {0: [LE, W, '-w(i+1) -p(i+1) p(i+1) w(i+2)', 'b(i+2) -w(i+2) -b(i+2)'], 1: '-b(i) p(i) p(i+1) b(i+2)', 'ret': '-b(i) p(i) p(i+1) b(i+2)'},
 'eff_ham_mul_single_site_state': {0: [LE, W, 'b(i+1) -w(i+1) -b(i+1)'], 1: A, 'ret': A},
 # sweeps
 'TwoSiteFiniteVMPSUpdate': {0: ('chain', A), 1: MPSL, 2: MPSR, 3: ('chain', W)},
 'SingleSiteFiniteVMPSUpdate': {0: ('chain', A), 1: MPSL, 2: MPSR, 3: ('chain', W)},
 'FiniteMPSInnerProd': {0: ('chain', A), 1: ('chain', '-c(i) p(i) c(i+1)')},
 # environments on disk
 'LoadRelatedTensTwoSiteAlg': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'DumpRelatedTensTwoSiteAlg': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'LoadRelatedTensSingleSiteAlg': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'DumpRelatedTensSingleSiteAlg': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'LoadRelatedTensOnTwoSiteAlgWhenNoisedRightMoving': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'LoadRelatedTensOnTwoSiteAlgWhenNoisedLeftMoving': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'DumpRelatedTensTwoSiteAlgNoiseCase': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'LoadRelatedTensOnTwoSiteAlgWhenRightMoving': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'LoadRelatedTensOnTwoSiteAlgWhenLeftMoving': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'DumpRelatedTensOnTwoSiteAlgWhenRightMoving': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'DumpRelatedTensOnTwoSiteAlgWhenLeftMoving': {0: ('chain', A), 1: ('vec', LE), 2: ('vec', RN), 'files': FILES},
 'InitEnvs': {0: ('chain', A), 1: ('chain', W), 'files': FILES},
 'InitEnvsMaster': {0: ('chain', A), 1: ('chain', W), 'files': FILES},
 'UpdateBoundaryEnvs': {0: ('chain', A), 1: ('chain', W), 'files': FILES},
 'CheckAndUpdateBoundaryMPSTensors': {0: ('chain', A), 'files': {'m': A}},
 'FiniteMPSAdd': {0: ('chain', A), 1: ('chain', '-c(i) p(i) c(i+1)'), 2: ('chain', '-x(i) p(i) x(i+1)')},
 # canonical forms
 'FiniteMPS::LeftCanonicalizeTen': {'this': ('chain', A)},
 'FiniteMPS::RightCanonicalizeTen': {'this': ('chain', A)},
 'FiniteMPO::LeftCanonicalizeTen': {'this': ('chain', W)},
 'FiniteMPO::RightCanonicalizeTen': {'this': ('chain', W)},
 'FiniteMPO::RightCanonicalizeTen_': {'this': ('chain', W)},
 'FiniteMPO::Trace': {'this': ('chain', W)},
 'TruncateMPS': {0: ('chain', A)},
 # operator algebra
 'MPOProductVariationalSingleStep': {0: '-x(i) u(i) v(i)', 1: 'x(i+2) -u(i+2) -v(i+2)', 2: U, 3: '-u(i+1) -p(i+1) p(i+1) u(i+2)', 4: V, 5: '-v(i+1) -p(i+1) p(i+1) v(i+2)',
                                     'refs': {9: '-x(i) -p(i) p(i) *', 10: '* -p(i+1) p(i+1) x(i+2)'}},
 'UpdateRenv': {0: 'x(i+1) -u(i+1) -v(i+1)', 1: X, 2: U, 3: V, 'ret': 'x(i) -u(i) -v(i)'},
 'UpdateLenv': {0: '-x(i) u(i) v(i)', 1: X, 2: U, 3: V, 'ret': '-x(i+1) u(i+1) v(i+1)'},
 'MpoProduct': {0: ('chain', U), 1: ('chain', V), 2: ('chain', X), 'files': {'l': '-x(i) u(i) v(i)', 'r': 'x(N-i) -u(N-i) -v(N-i)'}},
 'Generate3MPOEnvs': {0: ('chain', X), 1: ('chain', U), 2: ('chain', V), 'files': {'l': '-x(i) u(i) v(i)', 'r': 'x(N-i) -u(N-i) -v(N-i)'}},
 # time evolution
 'TwoSiteFiniteTDVPEvolution': {0: ('chain', A), 1: MPSL, 2: MPSR, 3: ('chain', W)},
 'SingleSiteFiniteTDVPBackwardEvolution': {0: ('chain', A), 1: MPSL, 2: MPSR, 3: ('chain', W)},
 'ActMpoOnMps': {0: ('chain', W), 1: ('chain', A)},
 'ActOperatorOnMps': {0: '-p(s) p(s)', 1: '-p(s) p(s)', 3: ('chain', A), 'vars': {'s': 2}, 'uniform': True},
 'CalPsi1OpPsi2': {'local': A, 'uniform': True, 'fields': {(1, 'local_op1'): '-p(s) p(s)', (1, 'inst1'): '-p(s) p(s)'}, 'files': {'l': '-b(i) b(i)', 'r': 'b(N-i) -b(N-i)'}},
 # parallel workers
 'SlaveGrowLeftEnvironment': {0: LE, 1: W, 'recv': A, 'sent': '-b(i+1) w(i+1) b(i+1)'},
 'SlaveGrowRightEnvironment': {0: 'b(i+1) -w(i+1) -b(i+1)', 1: W, 'recv': A, 'sent': RE},
 'slave_two_site_eff_ham_mul_state': {0: [LE, W, '-w(i+1) -p(i+1) p(i+1) w(i+2)', 'b(i+2) -w(i+2) -b(i+2)'], 'recv': '-b(i) p(i) p(i+1) b(i+2)', 'sent': '-b(i) p(i) p(i+1) b(i+2)'},
 'master_two_site_eff_ham_mul_state': {0: [LE, W, '-w(i+1) -p(i+1) p(i+1) w(i+2)', 'b(i+2) -w(i+2) -b(i+2)'], 1: '-b(i) p(i) p(i+1) b(i+2)', 'refs': {2: '-b(i) p(i) p(i+1) b(i+2)'}},
 'SlaveTwoSiteFiniteVMPSRightMovingExpand': {0: [LE, W, '-w(i+1) -p(i+1) p(i+1) w(i+2)', 'b(i+2) -w(i+2) -b(i+2)'], 'recv': '-b(i) p(i) p(i+1) b(i+2)', 'sent': '* -b(i) p(i) p(i+1)'},
 'SlaveTwoSiteFiniteVMPSLeftMovingExpand': {0: [LE, W, '-w(i+1) -p(i+1) p(i+1) w(i+2)', 'b(i+2) -w(i+2) -b(i+2)'], 'recv': '-b(i) p(i) p(i+1) b(i+2)', 'sent': '* p(i) p(i+1) b(i+2)'},
 'MasterTwoSiteFiniteVMPSUpdate': {0: ('chain', A), 1: MPSL, 2: MPSR, 3: ('chain', W)},
 'MasterTwoSiteFiniteTDVPEvolution': {0: ('chain', A), 1: MPSL, 2: MPSR, 3: ('chain', W)},
 # measurement
 'OneSiteOpAvg': {0: A, 1: '-p(i) p(i)'},
 'ContractHeadSite': {0: A, 1: '-p(i) p(i)', 'ret': 'b(i+1) -b(i+1)'},
 'ContractTailSite': {0: A, 1: '-p(i) p(i)', 2: 'b(i) -b(i)'},
 'CtrctMidTen': {0: ('chain', A), 2: '-p(s) p(s)', 4: 'b(s) -b(s)', 'vars': {'s': 1}, 'refs': {4: 'b(s+1) -b(s+1)'}},
}
def roles_of(f, key, spec, env):
    tag = key if len(key) < 60 else equiv.hash_any(key)[:10]
    R = {}
    for i, r in spec.items():
        if i in META: continue
        s = mk('sym', 'this', tag) if i == 'this' else mk('sym', i, tag)
        if isinstance(r, str): R[s] = parse(r, env)
        elif isinstance(r, list):
            ls = [parse(x, env) for x in r]
            R[s] = (lambda ls: lambda idx: ls[idx.a[0]] if idx.h == 'c' and 0 <= idx.a[0] < len(ls) else None)(ls)
        elif r[0] in ('chain', 'vec'): R[s] = chain(r[1], env)
    for (i, n), r in spec.get('fields', {}).items(): R[mk('fld', mk('sym', i, tag), n)] = parse(r, env)
    fs = spec.get('files')
    if fs: R['envfile'] = lambda d, ln: [CANON(l) for l in parse(fs[d], dict(env, i=ln))] if d in fs else None
    return R
def analyse(P, key, spec, ops):
    f = P.bykey[key]
    S = equiv.interpret(P, key, ops - {key, f['f']}, slots=slots)
    tag = key if len(key) < 60 else equiv.hash_any(key)[:10]
    sym = lambda i: mk('sym', i, tag)
    env = {'i': SITE, 's': SITE, 'N': mk('iv', 'N')}
    for w, i in spec.get('vars', {}).items(): env[w] = sym(i)
    roles = roles_of(f, key, spec, env)
    chains = set(sym(i) for i, r in spec.items() if isinstance(r, tuple) and r[0] == 'chain')
    def canon(l):
        if l[0] == 'p' and spec.get('uniform'): return ('p', TM.ZERO, l[2])
        if l[0] == 'c' and l[1] in (TM.ZERO, env['N']): return ('b', l[1], l[2])
        return l
    def peel(o):
        while True:
            if o in roles: return o
            if o.h == 'call' and 'local' in spec and mname(o.a[0]) == 'FiniteMPS::FiniteMPS': return True
            if o.h in ('out',) and o.a[1] == 0: o = o.a[2]
            elif o.h == 'opset': o = o.a[1]
            elif o.h in ('deref', 'pv'): o = o.a[0]
            else: return None
    m = {}
    for v in S.obs.values():
        if not isinstance(v, TM.T): continue
        for t in TM.subterms(v):
            if t.h == 'call' and len(t.a) == 2 and re.search(r'::size\b', str(t.a[0])):
                b = peel(t.a[1])
                if b is True or b is not None and b in chains: m[t] = env['N']
    def both(o, g): return {(k[0], g(k[1])) if isinstance(k, tuple) and k[0] == 'heap' else k: g(v) for k, v in o.items()}
    obs0 = both({k: v for k, v in S.obs.items() if isinstance(v, TM.T)}, lambda v: subst(v, m) if m else v)
    cases = [(obs0, (), ())]
    for i, p in enumerate(f['ps']):
        if re.sub(r'^const |[ &]*$', '', p['t']) == 'char':
            cases = [(both(o, lambda v: subst(v, {sym(i): C(ord(d))})), g + (d,), ()) for o, g, a in cases for d in 'lr']
    res = []; n = 0
    while cases:
        o, g, asm = cases.pop(0); n += 1
        T = Typer(roles, simple(f['q'])); T.canon = canon; T.chains = chains; T.ctx = (P, ops); T.sym = sym; T.env = env; T.spec = spec; T.assume = asm; T.heap = {k[1]: v for k, v in o.items() if isinstance(k, tuple) and k[0] == 'heap'}
        total = set()
        for r in o.values():
            for t in TM.subterms(r):
                if t.h == 'out' and qn(t.a[0]) == 'Contract': total.add(t)
                if t.h in ('out', 'proj', 'call', 'opget', 'fld') and not any(x.h == 'bv' for x in t.fv): T.legs(t); T.sending(t)
                if t.h in ('out', 'ev') and not any(x.h == 'bv' for x in t.fv): T.transfer(t)
        T.chainstate(o, spec)
        total |= T.bodies(list(o.values()), frozenset())
        T.ends(o, spec)
        cs = [c for c in T.conds if not any(x.h == 'bv' for x in c.fv)]
        if cs and n < 60 and len(g) < 11:
            c = min(cs, key=lambda c: (sum(1 for _ in TM.subterms(c)), c.n))
            ats = set(t.a[0] for r in o.values() for t in TM.subterms(r) if t.h == 'ite')
            for v in (TRUE, FALSE):
                mm = {w: B(im) for w in ats for im in [TM.implied(c, v is TRUE, w)] if im is not None}
                mm[c] = v
                cases.append((both(o, lambda x: given(x, mm)), g + (('' if v is TRUE else '!') + TM.show(c)[:60],), asm + ((c, v is TRUE),)))
            continue
        ret = (T.legs(o['ret']), parse(spec['ret'], env)) if 'ret' in spec and 'ret' in o else None
        res.append((g, T, total, ret))
    return res
def judge(P, names):
    out = []
    ops = opaque(P)
    for k, f in sorted(P.bykey.items()):
        n = simple(f['q'])
        if n not in names or not f.get('body') or f.get('islambda'): continue
        res = analyse(P, k, SPEC[n], ops)
        bad = []; tot = 0; typed = 0; nobs = 0; rets = []
        for g, T, total, ret in res:
            bad += [w for ok, w in T.obs.values() if not ok and w not in bad]
            nobs += len(T.obs); tot += len(total); typed += sum(1 for t in total if t in T.obs)
            if ret: rets.append(ret)
        sub_ = '%s@%s' % (n, equiv.hash_any(k)[:6])
        out.append(Ob('legs.paired', sub_, False if bad else True if nobs else None, '; '.join(bad)[:900] or '%d cases, %d of %d contractions typed, %d obligations' % (len(res), typed, tot, nobs), loc(f)))
        if rets:
            worst = [r for r in rets if r[0] is not None and r[0] != r[1]] or [r for r in rets if r[0] is None] or rets
            r = worst[0]
            out.append(Ob('legs.result', sub_, None if r[0] is None else r[0] == r[1], 'returns %s, declared %s' % (shls(r[0]), shls(r[1])), loc(f)))
    return out
DISK = {n for n in SPEC if re.match(r'(Load|Dump)RelatedTens|InitEnvs|UpdateBoundaryEnvs|CheckAndUpdateBoundary', n)}
PARALLEL = {n for n in SPEC if re.match(r'(?i)master|slave', n)}
CANONICAL = {n for n in SPEC if 'Canonicalize' in n or n == 'TruncateMPS'}
MPOALG = {'MPOProductVariationalSingleStep', 'UpdateRenv', 'UpdateLenv', 'MpoProduct', 'Generate3MPOEnvs', 'FiniteMPO::Trace'}
EVOLUTION = {'TwoSiteFiniteTDVPEvolution', 'SingleSiteFiniteTDVPBackwardEvolution', 'ActMpoOnMps', 'ActOperatorOnMps', 'CalPsi1OpPsi2'}
MEASURE = {'OneSiteOpAvg', 'ContractHeadSite', 'ContractTailSite', 'CtrctMidTen', 'FiniteMPSInnerProd', 'FiniteMPSAdd'}
SWEEP = set(SPEC) - DISK - PARALLEL - CANONICAL - MPOALG - EVOLUTION - MEASURE
def paired(P, PR): return judge(P, set(SPEC))
def parallel(P, PR): return judge(P, PARALLEL)
def canonical(P, PR): return judge(P, CANONICAL)
def sweeps(P, PR): return judge(P, SWEEP)
def algebra(P, PR): return judge(P, MPOALG)
def evolution(P, PR): return judge(P, EVOLUTION)
def states(P, PR): return judge(P, {'FiniteMPSInnerProd', 'FiniteMPSAdd'})
def disk(P, PR): return judge(P, DISK)
def measure(P, PR): return judge(P, MEASURE)
