"""Cross-checking through time: every function of the current tree against the confirmed reference instance.

Both programs are interpreted abstractly into the same value-number domain (terms.py/engine.py) with calls kept
uninterpreted; equal normal forms of every observable (outcome, result, final state, ordered effects) discharge the
obligation.  Otherwise a random model (evalt.py) has to separate the two value graphs, and has to keep separating
them when callees are expanded, before a difference is reported."""
import sys, json, hashlib, signal, time, os
sys.setrecursionlimit(200000)
from terms import *
import terms as TM
from engine import *
import evalt
from evalt import *

# ------------------------------------------------------------------ structural identity of two functions
SKIP = {'l', 'd', 'n', '$calls', '$heap', 'file', 'line', 'lc', 'lf'}
def canon(prog, f):
    ids = {}; gs = set()
    def go(x):
        if isinstance(x, dict):
            out = []
            if x.get('k') == 'ref' and x.get('dk') == 'global':
                g = prog.G.get(x.get('q'))
                if g is not None and g.get('init') is not None and x['q'] not in gs:
                    gs.add(x['q']); out.append(('ginit', go(g['init'])))
            for k in sorted(x):
                v = x[k]
                if k in ('l', '$calls', '$heap', 'noinst'): continue
                if k == 'd' or k == 'ds': out.append((k, ids.setdefault(str(v), len(ids)))); continue
                if k == 'f' and isinstance(v, str): out.append((k, prog.keyof.get(v) or x.get('q') or '')); continue
                if k == 'n' and 'd' in x: continue
                out.append((k, go(v)))
            return tuple(out)
        if isinstance(x, list): return tuple(go(y) for y in x)
        return LAMRE.sub('lambda', x) if isinstance(x, str) else x
    return hash_any((go([{'d': p['d'], 't': p['t']} for p in f['ps']]), [go(p.get('def')) for p in f['ps']], go(f.get('inits')), go(f.get('body')), f.get('ret')))
def hash_any(x): return hashlib.sha1(repr(x).encode()).hexdigest()

def nodes(x):
    if isinstance(x, dict): return 1 + sum(nodes(v) for k, v in x.items() if k not in ('$calls',))
    if isinstance(x, list): return sum(nodes(v) for v in x)
    return 0
def is_trivial(f):
    b = f.get('body')
    if not b or f.get('islambda') or f.get('kind') == 'ctor': return False
    if b['k'] != 'block': return False
    # memberwise assignment of a plain record
    if f.get('oo') == '=' and len(f['ps']) == 1 and nodes(b) <= 60 and not any(x in str(b) for x in ("'for'", "'while'", "'rfor'", "'new'", "'delete'")): return True
    ss = [s for s in b['b'] if s and s['k'] != 'null']
    if len(ss) > 1: return False
    if not ss: return False
    if ss[0]['k'] not in ('ret', 'expr'): return False
    return nodes(ss[0]) <= 30
class Pairing(object):
    def __init__(self, R, C):
        self.R, self.C = R, C
        # a function whose parameter types were respelled is still the same function
        idx = {}
        for side, p, o in ((0, R, C), (1, C, R)):
            for k, f in p.bykey.items():
                if k not in o.bykey and not f.get('islambda'):
                    idx.setdefault((f['q'], f.get('cls'), len(f['ps'])), ([], []))[side].append(k)
        for (a, b) in idx.values():
            if len(a) == 1 and len(b) == 1:
                f = C.bykey.pop(b[0])
                for i, k in C.keyof.items():
                    if k == b[0]: C.keyof[i] = a[0]; C.F[i]['key'] = a[0]
                C.bykey[a[0]] = f
        for p in (R, C):
            for k, f in p.F.items():
                if 'h' not in f: f['h'] = canon(p, f)
        self.common = [k for k in R.bykey if k in C.bykey]
        self.changed = [k for k in self.common if R.bykey[k]['h'] != C.bykey[k]['h']]
        self.removed = [k for k in R.bykey if k not in C.bykey]
        self.added = [k for k in C.bykey if k not in R.bykey]
        self.chset = set(self.changed) | set(self.removed) | set(self.added)
        self.layout = [c for c in R.R if c in C.R and [(x['n'], x['t']) for x in R.R[c]['fields']] != [(x['n'], x['t']) for x in C.R[c]['fields']]]
    def opset(self, prog, key, level):
        other = self.C if prog is self.R else self.R
        op = set(); body = prog.bykey[key]['f']
        depth = {prog.bykey[key]['f']: 0}
        if level >= 2:
            w = [prog.bykey[key]['f']]
            while w:
                x = w.pop(0)
                if depth[x] >= (level - 1 if level < 5 else 99): continue
                for c in prog.calls_of(x):
                    if c['f'] in prog.F and c['f'] not in depth: depth[c['f']] = depth[x] + 1; w.append(c['f'])
        heavy = self.heavy(key) if 2 <= level < 5 else ()
        for k, f in prog.F.items():
            if f.get('implicit') or f.get('islambda'): continue
            kk = f['key']
            if kk == key: continue
            if kk not in other.bykey: continue                 # helper present in one tree only
            if is_trivial(f) and is_trivial(other.bykey[kk]): continue
            if level >= 1 and kk in self.chset: continue
            if level >= 2 and k in depth and not (level < 5 and kk in heavy): continue
            op.add(k)
        return op

    def weight(self, P, k, memo={}):
        m = memo.setdefault(id(P), {})
        if k not in m:
            seen = {k}; w = [k]; n = 0
            while w:
                f = P.F.get(w.pop())
                if not f or not f.get('body'): continue
                n += nodes(f['body'])
                for c in P.calls_of(f['f']):
                    if c['f'] in P.F and c['f'] not in seen: seen.add(c['f']); w.append(c['f'])
            m[k] = n
        return m[k]
    def direct(self, P, other, key):
        """functions called by key itself or through helpers that changed or exist on one side only"""
        out = set(); seen = {key}; w = [key]
        while w:
            f = P.bykey.get(w.pop())
            if not f: continue
            for c in P.calls_of(f['f']):
                g = P.keyof.get(c['f'])
                if g is None or g in seen: continue
                seen.add(g); out.add(g)
                if g in self.chset or g not in other.bykey or is_trivial(P.bykey[g]): w.append(g)
        return out
    def heavy(self, key):
        """large unchanged procedures that both sides call: kept as uninterpreted operations unless everything is expanded"""
        m = self.__dict__.setdefault('_heavy', {})
        if key not in m:
            m[key] = {k for k in self.direct(self.R, self.C, key) & self.direct(self.C, self.R, key)
                      if k not in self.chset and self.R.bykey[k].get('body') and self.weight(self.R, self.R.bykey[k]['f']) > 500}
        return m[key]

class Summary(object): pass
def aliasable(f):
    """an operator whose operand may be the object itself"""
    return [i for i, p in enumerate(f['ps']) if is_ref_t(p['t']) and strip_t(p['t']) == strip_t(f.get('cls') or '')] if f.get('cls') and f.get('kind') != 'ctor' and not f.get('static') and f['q'].split('::')[-1].startswith('operator') else []
def interpret(prog, key, opset, asserts='noop', alias=False, slots=None):
    f = prog.bykey[key]
    E = Eng(prog, numtypes=['OpObj']); E.opset = opset; E.asserts = asserts; E.slots = slots; E.watch_out = 'MemoryMonitor' in key
    tag = key if len(key) < 60 else hash_any(key)[:10]
    st = St(); this = None
    if f.get('cls') and f.get('kind') != 'ctor' and not f.get('static'):
        r = ('this',); E.rt[r] = f['cls']; s = E.typed(mk('sym', 'this', tag), f['cls']); st.mem[r] = s; this = E.ref(r)
    av = []
    for i, p in enumerate(f['ps']):
        if alias and i in aliasable(f): av.append((True, this)); continue
        v = E.typed(mk('sym', i, tag), p['t']); r = ('arg', i); st.mem[r] = v; E.rt[r] = strip_t(p['t']); av.append((True, E.ref(r)))
    if f.get('kind') == 'ctor':
        l, res = False, E.construct(f, av, strip_t(f['cls']), st, 0)
    else: l, res = E.call_fn(f, this, av, st)
    S = Summary(); S.E = E; S.pc = st.pc; S.unks = list(E.unks)
    S.obs = {}
    def state(st, tag_):
        o = {}
        for r, v in list(st.mem.items()):
            if r[0] in ('this', 'arg', 'h'): v = E.seen(st, E.box(st, v), False)
            if r[0] == 'this': o['this'] = restrict(v, st.pc)
            elif r[0] == 'arg':
                pt = f['ps'][r[1]]['t']
                if is_ref_t(pt) and not pt.startswith('const '): o['arg%d' % r[1]] = restrict(v, st.pc)
            elif r[0] == 'h' and r[1].h not in ('new', 'box'): o[('heap', r[1])] = restrict(v, st.pc)
            elif r[0] == 'g' and r[1] in ('std::cout', 'std::cerr', 'std::clog'): continue
            elif r[0] == 'g': o[('glob', r[1])] = restrict(v, st.pc)
            elif r[0] == 'ev': o[('ev', r[1])] = restrict(v, st.pc)
            elif r[0] == 'wrap': o['wrap' if len(r) == 1 else 'wrapeq'] = restrict(v, st.pc)
        return o
    S.obs = state(st, 'norm')
    if f['ret'] not in ('void', None) or f.get('kind') == 'ctor':
        if l:
            S.obs['retplace'] = restrict(res, st.pc) if res.h == 'ite' else res
            v = E.read(st, res)
        else: v = res
        S.obs['ret'] = restrict(E.seen(st, E.box(st, v), False), st.pc)
    S.coll = []
    for kind, x in E.coll:
        if x.pc is FALSE: continue
        S.coll.append((kind, x.pc, x.mem.get(('exc',)), state(x, kind)))
    S.f = f
    return S

def nf_equal(a, b):
    if a.pc is not b.pc: return False, 'outcome'
    keys = (set(a.obs) | set(b.obs)) - {'wrapeq'}       # only restricts the models
    for k in keys:
        if a.pc is FALSE: break
        if a.obs.get(k) is not b.obs.get(k):
            if k in a.obs and k in b.obs or not noop_obs(a.obs.get(k), b.obs.get(k), k): return False, k
    ka = {}
    for S, d in ((a, 0), (b, 1)):
        for kind, pc, exc, obs in S.coll:
            e = ka.setdefault((kind, exckey(exc)), [FALSE, FALSE]); e[d] = or_(e[d], pc)
    for k, (x, y) in ka.items():
        if x is not y: return False, k
    # state and effects carried out by the exceptional exits
    xa = sorted((kind, pc.n, exckey(exc), obskey(obs)) for kind, pc, exc, obs in a.coll)
    xb = sorted((kind, pc.n, exckey(exc), obskey(obs)) for kind, pc, exc, obs in b.coll)
    if xa != xb: return False, 'exceptional state'
    return True, None
def obskey(o): return tuple(sorted((str(k), v.n) for k, v in o.items() if v is not EMPTY and k != 'wrapeq'))
def noop_obs(x, y, k):
    v = x if x is not None else y
    return v is EMPTY and isinstance(k, tuple) and k[0] == 'ev'
def exckey(e):
    if e is None: return ''
    while e.h == 'ite': e = e.a[1]
    if e.h == 'call': 
        n = str(e.a[0])
        if n.startswith('ctor '): return n
        return n if n in ('exit', 'abort') else n
    return e.h

def constants(*Ss):
    ints, strs = set(), set(); constants.syms = syms = {}
    for S in Ss:
        seen = set()
        ts = [S.pc] + list(S.obs.values()) + [c[1] for c in S.coll]
        for t in ts:
            st = [t]
            while st:
                x = st.pop()
                if isinstance(x, tuple): st.extend(x); continue
                if not isinstance(x, T) or x in seen: continue
                seen.add(x); st.extend(x.a)
                if x.h == 'sym': syms[repr(x.a)] = x
                if x.h == 'c' and isinstance(x.a[0], int): ints.add(x.a[0])
                if x.h == 'p':
                    for m, c in x.a[0]:
                        if isinstance(c, int) and m == (): ints.add(abs(c))
                if x.h == 's': strs.add(x.a[0])
                if x.h == 'cat' and 0 < len(x.a[0]) < 20 and all(p.h == 'lit1' and p.a[0].h == 'c' and isinstance(p.a[0].a[0], int) and 32 <= p.a[0].a[0] < 127 for p in x.a[0]):
                    strs.add(''.join(chr(p.a[0].a[0]) for p in x.a[0]))
    return sorted(i for i in ints if abs(i) < 10 ** 6), sorted(strs)

def ev_groups(v):
    """file events: projections on every path mentioned, and the multiset"""
    out = {}
    allv = []
    for e in v:
        d = digest(e); allv.append(d)
        for x in e[1:]:
            if isinstance(x, tuple) and x and all(isinstance(c, int) for c in x): out.setdefault(digest(x), []).append(d)
    return sorted(allv), out
def same_obs(k, x, y):
    if isinstance(k, tuple) and k[0] == 'ev':
        x = x if x is not None else (); y = y if y is not None else ()
        if x is POISON: return True
        if y is POISON: return False
        if same(x, y): return True
        try:
            if k[1] in ('heap', 'hstore'): return sorted(map(digest, x)) == sorted(map(digest, y))
            if k[1] == 'file': return ev_groups(x) == ev_groups(y)
        except Undef: return True
        return False
    if same(x, y): return True
    try: return same(canonv(x), canonv(y))
    except (Undef, Undecided): return False
def content(v, gone, m):
    """value of an object with the elements its pointers lead to in place of the pointers"""
    if isinstance(v, Ptr):
        if digest(v) in gone: return ('dangling',)
        if v.k in ('box', 'new', 'pv'): return content(v.a[-1], gone, m)
        if v.k == 'ptr' and v.a and isinstance(v.a[0], Tok): return m.gen(v.a[0].ty.rstrip().rstrip('*').strip() or '?', H(b'deref', digest(v)))
        return v
    if isinstance(v, Obj): return Obj(v.cls, {k: content(x, gone, m) for k, x in v.f.items()})
    if isinstance(v, tuple): return tuple(content(x, gone, m) for x in v)
    return v
def gone(ev, obs):
    t = obs.get(('ev', 'heap'))
    if t is None: return set()
    v = ev.sv(t, ev.root)
    if v is POISON: raise Undef('heap')
    return {digest(e[2]) for e in v if isinstance(e, tuple) and len(e) > 2 and e[1] == 'delete'}
def broken(v):
    """a value of the reference in which some member of an object came out undefined"""
    return v is POISON or (isinstance(v, Obj) and any(broken(x) for x in v.f.values())) or (isinstance(v, tuple) and any(broken(x) for x in v))

def run_model(S, ev):
    """outcome of the summary in a model: (kind, exc, observables)"""
    if ev.cond(S.pc, ev.root): return 'normal', None, S.obs
    for kind, pc, exc, obs in S.coll:
        if ev.cond(pc, ev.root): return kind, exc, obs
    return 'none', None, {}

def initial(k, S):
    """value of an observable location a side did not touch"""
    if k == 'this' or (isinstance(k, str) and k.startswith('arg')): return None
    if isinstance(k, tuple) and k[0] == 'ev': return EMPTY
    if isinstance(k, tuple) and k[0] == 'heap': return S.E.rootval(St(), ('h', k[1]))
    if isinstance(k, tuple) and k[0] == 'glob': return S.E.globalval(k[1])
    return None

class Result(object):
    def __init__(self, verdict, **kw): self.verdict = verdict; self.__dict__.update(kw)
    def __repr__(self): return 'Result(%s, %s)' % (self.verdict, {k: v for k, v in self.__dict__.items() if k != 'verdict'})

def wrapped(obs, ev, k='wrap'):
    t = obs.get(k)
    return t is not None and t is not FALSE and ev.cond(t, ev.root)

def separate(prog, A, B, n, tlimit, customs=None, eqfun=None, pre=None, deep=False):
    """look for a model in which the reference A and the current B differ"""
    ints, strs = constants(A, B)
    syms = sorted(constants.syms.items(), key=lambda kv: (TM.TYP.get(kv[1]) not in ('FSM', 'iFSM'), 'SparMat' not in str(TM.TYP.get(kv[1])) and 'SparOpReprMat' not in str(TM.TYP.get(kv[1])), kv[1].a[0] != 'this', kv[0]))
    t0 = time.time(); done = und = bud = undec = div = 0
    adm = 0; why = {}
    for seed in range(n):
        if time.time() - t0 > tlimit: break
        m = Model(prog, seed, ints, strs, customs, eqfun)
        ea, eb = Ev(m), Ev(m); ea.kleene = eb.kleene = True
        for _, x in syms: ea.sv(x, ea.root)
        try:
            ep = Ev(m); ep.kleene = True
            if pre is not None and run_model(pre, ep)[0] == 'none': und += 1; continue
            ka, xa, oa = run_model(A, ea)
            if ka == 'none' or wrapped(oa, ea) or wrapped(oa, ea, 'wrapeq'): und += 1; continue
        except Undef: und += 1; continue
        except Budget: bud += 1; continue
        except Undecided as e: undec += 1; why[str(e)[:60]] = why.get(str(e)[:60], 0) + 1; continue
        try:
            try: kb, xb, ob = run_model(B, eb)
            except Undef:
                if ea.lucky: raise
                kb, xb, ob = 'undefined', None, {}
            if ka != kb or exckey(xa) != exckey(xb):
                if kb == 'undefined' and ea.lams: undec += 1; continue
                return Result('DIFF', seed=seed, what='outcome', ref=(ka, exckey(xa)), new=(kb, exckey(xb)), model=m)
            try: w = wrapped(ob, eb)
            except Undef: w = False         # shows in the observables
            if w: return Result('DIFF', seed=seed, what='unsigned wrap-around', ref='no operand of an unsigned comparison is below zero', new='an unsigned comparison is reached with a difference below zero', model=m)
            pois = False
            for k in sorted((set(oa) | set(ob)) - {'wrap', 'wrapeq'}, key=str):
                if deep and k == ('ev', 'heap'): continue
                ta, tb = oa.get(k), ob.get(k)
                if ta is None: ta = initial(k, A)
                if tb is None: tb = initial(k, B)
                if ta is tb or ta is None or tb is None: continue
                va = ea.sv(ta, ea.root)
                if va is POISON: pois = True; continue
                vb = eb.sv(tb, eb.root)
                if broken(va): pois = True; continue
                if has_poison(vb) and ea.lucky: pois = True; continue       # the reference may have met the same undefined value
                if vb is POISON:
                    if eb.lams or ea.lams: undec += 1; why['lambda argument'] = 1; break
                    return Result('DIFF', seed=seed, what=str(k), ref=str(va)[:600], new='a value that depends on undefined behaviour', model=m)
                if deep: va, vb = content(va, gone(ea, oa), m), content(vb, gone(eb, ob), m)
                if not same_obs(k, va, vb):
                    if broken(va): pois = True; continue
                    if ea.lams != eb.lams: undec += 1; why['lambda argument'] = 1; break
                    return Result('DIFF', seed=seed, what=str(k), ref=str(va)[:600], new=str(vb)[:600], model=m)
            else:
                if pois: und += 1
                else: adm += 1
        except Undef: und += 1
        except Budget as e:
            bud += 1
            if e.args and ea.maxn < 20:
                div += 1
                if div >= 5 and div * 4 > adm: return Result('DIFF', seed=seed, what='outcome', ref='ends after at most %d rounds of any loop' % ea.maxn, new='a loop does not end within %d rounds' % Ev.LIMIT, model=m)
        except Undecided as e: undec += 1; why[str(e)[:60]] = why.get(str(e)[:60], 0) + 1
    if adm == 0: return Result('UNDEC', why='no admissible model', undef=und, budget=bud, undecided=undec, reasons=why)
    return Result('NODIFF', admissible=adm, undef=und, budget=bud, undecided=undec, reasons=why)

def eq_hook(prog):
    memo = {}
    def eqfun(ty, op='=='):
        t = strip_t(ty)
        if (t, op) in memo: return memo[t, op]
        r = None
        ks = [k for k, f in prog.F.items() if f.get('oo') == op and strip_t(f.get('cls') or '') == t and len(f['ps']) == 1 and f.get('body')]
        if ks:
            E = Eng(prog, numtypes=['OpObj']); st = St()
            a = E.typed(mk('sym', 'eqL', t), t); b = E.typed(mk('sym', 'eqR', t), t)
            st.mem[('this',)] = a; st.mem[('arg', 0)] = b
            l, v = E.call_fn(prog.F[ks[0]], E.ref(('this',)), [(True, E.ref(('arg', 0)))], st)
            if l: v = E.read(st, v)
            if not E.unks: r = (v, a, b)
        memo[t, op] = r
        return r
    return eqfun

def compare(PR, key, level, n=400, tlimit=20, customs=None):
    R, C = PR.R, PR.C
    r = compare_as(PR, key, level, n, tlimit, customs, False)
    if r.verdict in ('EQ', 'NODIFF') and aliasable(R.bykey[key]) and aliasable(C.bykey[key]):
        q = compare_as(PR, key, level, n, tlimit, customs, True)
        if q.verdict != 'EQ': return q
    return r
def compare_as(PR, key, level, n, tlimit, customs, alias):
    R, C = PR.R, PR.C
    A0 = interpret(R, key, PR.opset(R, key, level), alias=alias)
    B0 = interpret(C, key, PR.opset(C, key, level), alias=alias)
    if A0.unks or B0.unks: return Result('UNDEC', why='unknown ' + str((A0.unks + B0.unks)[:2]))
    ok, what = nf_equal(A0, B0)
    if ok: return Result('EQ')
    A = interpret(R, key, PR.opset(R, key, level), 'assume', alias)
    r = separate(R, A0, B0, n, tlimit, customs, eq_hook(R), A, alias)
    r.nf = str(what)
    return r
