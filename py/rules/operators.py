"""C22/C23: the operator tables and basis numberings, read off the value graphs of the default constructors.

Every element of a table is a constant of the program text, so the obligations are decided exactly, for every symmetry
setting the translation unit instantiates, by constant arithmetic on the normal forms.  The meaning of a table is fixed
by the particle content of the basis states (member names of the site classes), not by the reference tree."""
from fractions import Fraction
from rules.common import Ob, loc
from terms import field
import terms as TM
from equiv import interpret

CONTENT = {'empty': (0, 0), 'spin_up': (1, 0), 'spin_down': (0, 1), 'double_occupancy': (1, 1)}
SITES = {'HubbardSite': ('empty', 'spin_up', 'spin_down', 'double_occupancy'), 'tJSite': ('empty', 'spin_up', 'spin_down'), 'SpinOneHalfSite': ('spin_up', 'spin_down')}
MODELS = {'HubbardOperators': 'HubbardSite', 'tJOperators': 'tJSite', 'SpinOneHalfOperators': 'SpinOneHalfSite'}

def num(t):
    """exact complex value of a constant term, as (re, im); None when it is not constant"""
    if t.h == 'c': return (Fraction(t.a[0]), Fraction(0))
    if t.h == 'imag': return (Fraction(0), Fraction(1))
    if t.h == 'b': return (Fraction(int(t.a[0])), Fraction(0))
    if t.h == 'p':
        re = im = Fraction(0)
        for m, c in t.a[0]:
            x = (Fraction(c), Fraction(0))
            for f in m:
                y = num(f)
                if y is None: return None
                x = cmul(x, y)
            re += x[0]; im += x[1]
        return re, im
    return None
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def elems(t):
    """elements of a sequence literal"""
    if t.h == 'vec': return list(t.a[0]) if isinstance(t.a[0], tuple) else list(t.a)
    if t.h == 'cat':
        out = []
        for p in t.a[0]:
            if p.h != 'lit1': return None
            out.append(p.a[0])
        return out
    if t.h == 'lit1': return [t.a[0]]
    if t.h in ('eseq', 'nil', 'empty'): return []
    return None
def table(t):
    """(indices of the tensor, {(row, col): value}) of a chain of element stores on a constructed tensor"""
    while t.h in ('pv', 'box'): t = t.a[0]
    m = {}; seen = set()
    while t.h == 'opset':
        ix = elems(t.a[2][0]) if len(t.a[2]) == 1 else list(t.a[2])
        if ix is None or len(ix) != 2: return None
        c, r = num(ix[0]), num(ix[1]); v = num(t.a[3])
        if c is None or r is None or v is None or c[1] or r[1]: return None
        k = (int(r[0]), int(c[0]))
        if k not in seen: seen.add(k); m[k] = v
        t = t.a[1]
    if t.h != 'call' or not str(t.a[0]).startswith('ctor qlten::QLTensor'): return None
    a = t.a[1:] if not isinstance(t.a[1], tuple) else t.a[1]
    ind = elems(a[0]) if len(a) == 1 else None
    return ind, {k: v for k, v in m.items() if v != (0, 0)}
def args(t, name):
    if t is None or t.h != 'call' or not str(t.a[0]).startswith(name): return None
    a = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else t.a[1:]
    return list(a)
def sectors(t):
    """[(quantum numbers, degeneracy)] and direction of an index value"""
    a = args(t, 'ctor qlten::Index')
    if a is None or len(a) != 2: return None
    l = elems(a[0]); d = num(a[1])
    if l is None or d is None: return None
    out = []
    for s in l:
        b = args(s, 'ctor qlten::QNSector')
        if b is None or len(b) != 2: return None
        deg = num(b[1]); q = args(b[0], 'ctor qlten::special_qn::')
        if deg is None or q is None: return None
        cards = []
        for cd in (elems(q[0]) or [] if q else []):
            w = args(cd, 'ctor qlten::QNCard')
            if w is None or len(w) != 2: return None
            nm = elems(w[0]); v = args(w[1], 'ctor qlten::U1QNVal'); v = num(v[0]) if v else None
            if nm is None or v is None: return None
            cards.append((''.join(chr(int(num(x)[0])) for x in nm), v[0]))
        out.append((tuple(cards), int(deg[0])))
    return out, int(d[0])

class Mat(dict):
    def __mul__(a, b):
        r = Mat()
        for (i, k), x in a.items():
            for (l, j), y in b.items():
                if k == l: r[i, j] = cadd(r.get((i, j), (Fraction(0), Fraction(0))), cmul(x, y))
        return r.clean()
    def clean(a): return Mat({k: v for k, v in a.items() if v != (0, 0)})
    def lin(a, c, b, d):
        r = Mat()
        for m, f in ((a, c), (b, d)):
            f = f if isinstance(f, tuple) else (Fraction(f), Fraction(0))
            for k, v in m.items(): r[k] = cadd(r.get(k, (Fraction(0), Fraction(0))), cmul(v, f))
        return r.clean()
    def __add__(a, b): return a.lin(1, b, 1)
    def __sub__(a, b): return a.lin(1, b, -1)
    def scale(a, c): return a.lin(c, Mat(), 0)
    def dag(a): return Mat({(j, i): (v[0], -v[1]) for (i, j), v in a.items()})
    def tr(a): return Mat({(j, i): v for (i, j), v in a.items()})
    def __str__(a): return '{' + ', '.join('<%d|%d>=%s' % (i, j, v[0] if not v[1] else '%s%+si' % v) for (i, j), v in sorted(a.items())) + '}'

def lib(P): return {i for i, f in P.F.items() if f['q'].startswith('qlten::')}
def ctors(P, names):
    for k, f in sorted(P.bykey.items()):
        c = f.get('cls') or ''
        n = c.split('<')[0].split('::')[-1]
        if n in names and f.get('kind') == 'ctor' and not f['ps'] and f.get('body') is not None: yield n, c, k, f
def value(P, k):
    S = interpret(P, k, lib(P))
    return None if S.unks or S.coll else S.obs.get('ret')

def expected(n, states):
    """operators of the model on its basis, from the particle content of the states"""
    one = (Fraction(1), Fraction(0)); ix = {CONTENT[s]: i for s, i in states.items()}
    def op(fn):
        m = Mat()
        for (u, d), j in ix.items():
            r = fn(u, d)
            if r is None: continue
            (u2, d2), v = r
            if (u2, d2) in ix: m[ix[u2, d2], j] = (Fraction(v), Fraction(0))
        return m.clean()
    f = op(lambda u, d: ((u, d), (-1) ** (u + d)))
    e = {'id': op(lambda u, d: ((u, d), 1)), 'sz': op(lambda u, d: ((u, d), Fraction(u - d, 2))),
         'sp': op(lambda u, d: ((1, 0), 1) if (u, d) == (0, 1) else None), 'sm': op(lambda u, d: ((0, 1), 1) if (u, d) == (1, 0) else None)}
    e['sx'] = (e['sp'] + e['sm']).scale(Fraction(1, 2)); e['sy'] = (e['sp'] - e['sm']).scale((Fraction(0), Fraction(-1, 2)))
    if n == 'SpinOneHalfOperators': return e
    e['f'] = f
    e['bupc'] = op(lambda u, d: ((1, d), 1) if not u else None); e['bdnc'] = op(lambda u, d: ((u, 1), 1) if not d else None)
    e['bupa'] = e['bupc'].dag(); e['bdna'] = e['bdnc'].dag()
    e['nup'] = op(lambda u, d: ((u, d), u)); e['ndn'] = op(lambda u, d: ((u, d), d)); e['nf'] = e['nup'] + e['ndn']
    e['bdnc_multi_bupa'] = e['bdnc'] * e['bupa']; e['bupc_multi_bdna'] = e['bupc'] * e['bdna']
    e['nfsquare'] = e['nf'] * e['nf']; e['nupndn'] = e['Uterm'] = e['nup'] * e['ndn']
    e['bupcF'] = e['bupc'] * f; e['bupaF'] = e['bupa'] * f; e['Fbdnc'] = f * e['bdnc']; e['Fbdna'] = f * e['bdna']
    e['cupccdnc'] = e['bupc'] * e['bdnc']; e['cdnacupa'] = e['cupccdnc'].dag(); e['cupccdna'] = e['bupc'] * e['bdna']; e['cdnccupa'] = e['bdnc'] * e['bupa']
    return e
DEF = {'id': 'identity', 'sz': '(nup - ndn)/2', 'sp': '|up><dn|', 'sm': 'sp^dagger', 'sx': '(sp + sm)/2', 'sy': '(sp - sm)/2i', 'f': '(-1)^N', 'nf': 'nup + ndn', 'nfsquare': 'nf nf', 'nupndn': 'nup ndn',
       'bupcF': 'bupc f', 'bupaF': 'bupa f', 'Fbdnc': 'f bdnc', 'Fbdna': 'f bdna', 'cupccdnc': 'bupc bdnc', 'cdnacupa': 'cupccdnc^dagger', 'cupccdna': 'bupc bdna', 'cdnccupa': 'bdnc bupa', 'bdnc_multi_bupa': 'bdnc bupa', 'bupc_multi_bdna': 'bupc bdna'}
def basis(P, q):
    """members of the site class: state -> index, sectors, direction; per class instance"""
    for n, c, k, f in ctors(P, SITES):
        if q is not None and c != q: continue
        v = value(P, k)
        if v is None: yield n, c, f, None, None; continue
        st = {}
        for s in SITES[n]:
            x = num(field(v, s))
            st[s] = int(x[0]) if x is not None and not x[1] else None
        yield n, c, f, st, v
def spin_site(c): return c
def algebra(P, PR):
    obs = []
    bases = {c: st for n, c, f, st, v in basis(P, None)}
    for n, c, k, f in ctors(P, MODELS):
        targ = c[c.index('<') + 1:-1]; qn = targ.split(', ')[-1]
        sc = [b for b in bases if b.split('<')[0].endswith(MODELS[n]) and qn in b]
        short = '%s<%s>' % (n, targ.replace('qlten::special_qn::', '').replace('std::', ''))
        v = value(P, k); st = bases.get(sc[0]) if sc else None
        want = expected(n, st) if st and None not in st.values() else {}
        for name in [x['n'] for x in P.R[c]['fields']] if c in P.R else sorted(want):
            if name in ('sx', 'sy') and not ('TrivialRepQN' in qn and (name == 'sx' or 'complex' in targ)): continue
            if want and name not in want: obs.append(Ob('operators.algebra', '%s::%s' % (short, name), None, 'no defining relation known for this table', loc(f))); continue
            tb = table(field(v, name)) if v is not None and want else None
            if tb is None: obs.append(Ob('operators.algebra', '%s::%s' % (short, name), None, 'not a table of constants', loc(f))); continue
            m = Mat(tb[1]); ok = m == want[name]
            obs.append(Ob('operators.algebra', '%s::%s' % (short, name), ok, '%s = %s' % (name, DEF.get(name, 'definition on the particle content')) if ok else '%s has the elements %s, its definition %s gives %s' % (name, m, DEF.get(name, 'on the particle content'), want[name]), loc(f)))
    return obs
def charges(P, PR):
    """basis numbering, quantum numbers of the states, and definite charge of every table"""
    obs = []; info = {}
    for n, c, f, st, v in basis(P, None):
        targ = c[c.index('<') + 1:-1].replace('qlten::special_qn::', ''); short = '%s<%s>' % (n, targ); R = 'operators.charges'
        if st is None or None in st.values(): obs.append(Ob(R, short + ': numbering', None, 'not constants', loc(f))); continue
        sec = sectors(field(v, 'phys_bond_out'))
        if sec is None: obs.append(Ob(R, short + ': numbering', None, 'physical index not a literal', loc(f))); continue
        per = [q for q, d in sec[0] for _ in range(d)]; dim = len(per)
        obs.append(Ob(R, short + ': numbering', sorted(st.values()) == list(range(dim)), 'states %s on an index of dimension %d' % (st, dim), loc(f)))
        if any(i < 0 or i >= dim for i in st.values()): continue
        info[c] = (st, per)
        content = {i: CONTENT[s] for s, i in st.items()}
        ncards = {len(q) for q in per}
        if len(ncards) != 1: obs.append(Ob(R, short + ': quantum numbers', False, 'states carry different numbers of quantum numbers: %s' % per, loc(f))); continue
        if 'U1U1' in targ: obs.append(Ob(R, short + ': quantum numbers', ncards == {2}, '%s cards' % ncards, loc(f)))
        for j in range(ncards.pop()):
            names = {q[j][0] for q in per}; val = {i: q[j][1] for i, q in enumerate(per)}
            def prop(g):
                fs = {Fraction(val[i], g(*content[i])) for i in content if g(*content[i])}
                return len(fs) == 1 and 0 not in fs and all(val[i] == 0 for i in content if not g(*content[i]))
            isN, isS = prop(lambda u, d: u + d), prop(lambda u, d: u - d)
            ok = len(names) == 1 and (isN if names == {'N'} else isS if names == {'Sz'} else isN or isS)
            obs.append(Ob(R, '%s: quantum number %s' % (short, '/'.join(sorted(names))), ok, 'values %s' % {s: str(val[i]) for s, i in st.items()}, loc(f)))
        pin, pout = field(v, 'phys_bond_in'), field(v, 'phys_bond_out')
        a = args(pin, 'qlten::InverseIndex'); back = args(pout, 'qlten::InverseIndex')
        ok = True if (a and a[0] is pout) or (back and back[0] is pin) else None
        if ok is None:
            s2 = sectors(pin)
            if s2 is not None: ok = s2[0] == sec[0] and s2[1] == -sec[1]
            elif a is not None: ok = False
        obs.append(Ob(R, short + ': incoming index', ok, 'inverse of the outgoing one', loc(f)))
    for n, c, k, f in ctors(P, MODELS):
        targ = c[c.index('<') + 1:-1]; qn = targ.split(', ')[-1]; R = 'operators.charges'
        sc = [b for b in info if b.split('<')[0].endswith(MODELS[n]) and qn in b]
        short = '%s<%s>' % (n, targ.replace('qlten::special_qn::', '').replace('std::', ''))
        v = value(P, k)
        if v is None or not sc: obs.append(Ob(R, short, None, 'not interpreted', loc(f))); continue
        st, per = info[sc[0]]
        for x in P.R[c]['fields'] if c in P.R else ():
            tb = table(field(v, x['n']))
            if tb is None: obs.append(Ob(R, '%s::%s' % (short, x['n']), None, 'not a table of constants', loc(f))); continue
            inr = all(0 <= i < len(per) and 0 <= j < len(per) for i, j in tb[1])
            dq = {tuple(a[1] - b[1] for a, b in zip(per[i], per[j])) for i, j in tb[1]} if inr else None
            ok = inr and len(dq) <= 1
            ind = tb[0]
            if ok and ind is not None and len(ind) == 2:
                a = args(ind[0], 'qlten::InverseIndex'); s0, s1 = sectors(ind[0]), sectors(ind[1])
                if not ((a and a[0] is ind[1]) or (s0 and s1 and s0[0] == s1[0] and s0[1] == -s1[1])): ok = None if s1 is None else False
            obs.append(Ob(R, '%s::%s' % (short, x['n']), ok, 'changes of the quantum numbers: %s' % sorted(map(str, dq or ())), loc(f)))
    return obs

# ---------------------------------------------------------------- C24: the terms the helpers add, as operators
def coef(t, amp, real):
    """linear form in the amplitude and its conjugate: {'t'|'t*'|'1': complex rational}"""
    def at(x):
        if x is amp: return 't'
        if x.h == 'call' and str(x.a[0]).split('(')[0].lower().endswith('conj'):
            y = x.a[1] if not isinstance(x.a[1], tuple) else x.a[1][0]
            z = at(y)
            return 't' if real and z else {'t': 't*', 't*': 't'}.get(z)
        return None
    z = num(t)
    if z is not None: return {'1': z}
    if at(t): return {at(t): (Fraction(1), Fraction(0))}
    if t.h == 'call' and len(t.a) == 2 and isinstance(t.a[1], TM.T) and str(t.a[0]).split('(')[0].lower().endswith('conj'):
        d = coef(t.a[1], amp, real)
        return None if d is None else {('1' if k == '1' or real and k == '1' else k if real else {'t': 't*', 't*': 't'}[k]): (v[0], -v[1]) for k, v in d.items()}
    if t.h != 'p': return None
    out = {}
    for m, c in t.a[0]:
        k = '1'; x = (Fraction(c), Fraction(0))
        for g in m:
            y = num(g)
            if y is not None: x = cmul(x, y); continue
            z = at(g)
            if z is None or k != '1': return None
            k = z
        out[k] = cadd(out.get(k, (Fraction(0), Fraction(0))), x)
    return {k: v for k, v in out.items() if v != (0, 0)}
def added(t, root):
    """argument lists of the AddTerm calls that lead from the generator passed in to this state, in order"""
    out = []
    while t is not root:
        if t.h != 'out' or t.a[1] != 0 or '::AddTerm' not in str(t.a[0]): return None
        out.append(list(t.a[3:])); t = t.a[2]
    return out[::-1]
def tens(items):
    """sum of coefficient * (matrix on site 1) x (string on every site between) x (matrix on site 2)"""
    r = {}
    for cf, m1, s, m2 in items:
        ks = tuple(sorted(s.items()))
        for (a, b), x in m1.items():
            for (c, d), y in m2.items():
                for k, v in cf.items():
                    i = (ks, a, b, c, d, k); r[i] = cadd(r.get(i, (Fraction(0), Fraction(0))), cmul(v, cmul(x, y)))
    return {k: v for k, v in r.items() if v != (0, 0)}
def model_terms(P, PR):
    obs = []; bases = {c: st for n, c, f, st, v in basis(P, None)}
    for k, f in sorted(P.bykey.items()):
        nm = f['q'].split('<')[0].split('::')[-1]
        if nm not in ('AddHubbardHoppingTerms', 'AddTJHoppingTerms', 'AddHeisenbergCoupling') or f.get('body') is None or len(f['ps']) != 5: continue
        m = [c for c in P.R if c.split('<')[0].split('::')[-1] in MODELS and c in str(f['pt'])]
        m = [c for c in m if c in k]
        if not m: continue
        oc = m[0]; on = oc.split('<')[0].split('::')[-1]; targ = oc[oc.index('<') + 1:-1]; qn = targ.split(', ')[-1]
        real = 'complex' not in targ or nm != 'AddTJHoppingTerms'
        sc = [b for b in bases if b.split('<')[0].endswith(MODELS[on]) and qn in b]; st = bases.get(sc[0]) if sc else None
        S = interpret(P, k, {i for i, g in P.F.items() if '::AddTerm' in g['q'] or g['q'].startswith('qlten::')})
        subj = '%s<%s, %s>' % (nm, on, targ.replace('qlten::special_qn::', '').replace('std::', ''))
        def say(ok, d, s=''): obs.append(Ob('operators.model_terms', subj + s, ok, d, loc(f)))
        root = [x for x in TM.subterms(S.obs['arg0']) if x.h == 'sym' and x.a[0] == 0] if 'arg0' in S.obs else []
        if S.unks or not root or not st or None in st.values(): say(None, 'not interpreted'); continue
        tag = root[0].a[1:]; arg = lambda i: TM.mk('sym', i, *tag)
        E = expected(on, st); names = {TM.field(arg(4), x['n']): x['n'] for x in P.R[oc]['fields']}
        one = E['id']; up = Mat({(st[s], st[s]): ((Fraction(-1) ** CONTENT[s][0]), Fraction(0)) for s in st})
        for i, j in ((2, 3), (3, 2), (1, 6), (6, 1), (0, 9), (12, 0)):
            sub = {arg(2): TM.C(i), arg(3): TM.C(j)}; s1, s2 = min(i, j), max(i, j); w = ' with (i, j) = (%d, %d)' % (i, j)
            why = None
            for e in S.coll:
                pc = TM.subst(e[1], sub) if isinstance(e[1], TM.T) else None
                if pc is not TM.FALSE: why = pc
            if why is not None: say(False if why is TM.TRUE else None, 'rejected: %s' % TM.show(why), w); continue
            L = added(TM.subst(S.obs['arg0'], sub), root[0])
            if L is None: say(None, 'not a sequence of AddTerm calls', w); continue
            items = []; bad = None; val = None
            for a in L:
                ops = []; sites = []; ins = None; flat = []
                cf = coef(a[0], arg(1), real)
                for x in a[1:]:
                    l = elems(x) if x.h in ('cat', 'vec', 'lit1', 'nil', 'eseq', 'empty') else None
                    flat.append((l if l is not None else [x], l is not None))
                for l, isl in flat:
                    if l and all(x in names for x in l):
                        if len(ops) < 2: ops += [names[x] for x in l]
                        else: ins = [names[x] for x in l]
                    elif l and all(num(x) is not None for x in l): sites += [int(num(x)[0]) for x in l]
                    elif l: bad = 'an argument of AddTerm is not an operator table, a site or a list of them: %s' % TM.show(l[0])[:80]
                if cf is None: bad = 'coefficient %s' % TM.show(a[0])[:80]
                if bad is None and (len(ops) != 2 or len(sites) != 2 or (ins is not None and len(ins) != 1)): bad = 'a term of %d operators on %d sites' % (len(ops), len(sites))
                if bad: break
                if sites != [s1, s2]: val = 'the term %s acts on the sites %s' % (ops, sites)
                if any(o not in E for o in ops + (ins or [])): bad = 'no defining relation for %s' % (ops + (ins or [])); break
                items.append((cf, E[ops[0]], E[ins[0]] if ins else one, E[ops[1]]))
            if bad: say(None, bad, w); continue
            if val: say(False, val, w); continue
            u = (Fraction(1), Fraction(0)); half = (Fraction(1, 2), Fraction(0)); neg = (Fraction(-1), Fraction(0))
            if nm == 'AddHeisenbergCoupling': want = [({'t': u}, E['sz'], one, E['sz']), ({'t': half}, E['sp'], one, E['sm']), ({'t': half}, E['sm'], one, E['sp'])]
            else:
                want = []; F = E['f']
                for cc in (E['bupc'], up * E['bdnc']):
                    ca = cc.dag(); fw, bw = ('t', 't' if real else 't*') if i < j else ('t' if real else 't*', 't')
                    want.append(({fw: neg}, cc * F, F, ca))          # -t c+_1 c_2
                    want.append(({bw: u}, ca * F, F, cc))            # -t* c+_2 c_1 = +t* (c_1 F) .. c+_2
            g, h = tens(items), tens(want)
            d = sorted(x for x in set(g) | set(h) if g.get(x, (0, 0)) != h.get(x, (0, 0)))
            if not d: say(True, '%d terms sum to the stated operator' % len(L), w)
            else:
                ks, a, b, c, e, kk = d[0]; inv = {v: s for s, v in st.items()}
                f2 = lambda z: str(z[0]) if not z[1] else '%s%+si' % z
                say(False, 'element <%s,%s|H|%s,%s> (string %s): the added terms give %s %s, the stated operator %s' % (inv.get(a), inv.get(c), inv.get(b), inv.get(e), 'of fermion parity' if Mat(dict(ks)) == E.get('f') else 'of identities', f2(g.get(d[0], (Fraction(0), 0))), kk, f2(h.get(d[0], (Fraction(0), 0)))), w)
    return obs
