"""Hash-consed terms in normal form (the value-numbering domain).

Integers/reals: polynomials over atoms.  Booleans: ordered decision trees over atoms (canonical).
Conditional values: the same trees with value leaves.  Sequences: concatenations of literals, slices and
comprehensions.  Everything is interned, so equality of normal forms is object identity."""
from fractions import Fraction

class T(object):
    __slots__ = ('h', 'a', 'n', 'fv', 'hg', 'op')
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]
NONNEG = set()
_EMPTY = frozenset()

def _meta(t):
    fv = _EMPTY; hg = 0; op = False
    def go(x):
        nonlocal fv, hg, op
        if isinstance(x, T):
            if x.fv: fv = fv | x.fv
            if x.hg > hg: hg = x.hg
            op = op or x.op
        elif isinstance(x, tuple):
            for y in x: go(y)
    for x in t.a: go(x)
    if t.h in ('iv', 'mu', 'bv'): fv = fv | frozenset([t])
    if t.h in ('unk', 'loopval'): op = True
    if t.h in BINDERS:
        hg = hg + t.a[0]
        # bound variables are removed from fv
        k = t.a[0]
        bs = set(('bv', i) for i in range(hg - k + 1, hg + 1))
        fv = frozenset(x for x in fv if not (x.h == 'bv' and ('bv', x.a[0]) in bs))
    t.fv, t.hg, t.op = fv, hg, op

# binder terms: a[0] = number of bound variables; they are numbered hg-k+1..hg
BINDERS = {'comp', 'fcomp', 'rupd', 'sum', 'any', 'first', 'loop', 'rmap', 'prod'}
TYP = {}     # opaque leaf -> printed type

def mk(h, *a):
    k = (h, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.h = h; t.a = a
        _cnt[0] += 1; t.n = _cnt[0]
        _meta(t)
        _tab[k] = t
    return t

TRUE = mk('b', True)
FALSE = mk('b', False)
NULL = mk('null')
def C(v):
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, Fraction) and v.denominator == 1: v = int(v)
    return mk('c', v)
ZERO = C(0); ONE = C(1)
def B(x): return TRUE if x else FALSE
def S(s): return mk('s', s)

# ---------------------------------------------------------------- polynomials
NUMHEADS = ('c', 'p')
def poly(t):
    if t.h == 'c': return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.h == 'p': return dict(t.a[0])
    return {(t,): 1}
def unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return C(c)
        if c == 1 and len(m) == 1: return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(x.n for x in mc[0])))
    return mk('p', items)
def isnum(t): return t.h in NUMHEADS
def add(a, b):
    if a.h == 'ite' or b.h == 'ite': return lift2(add, a, b)
    if a.h == 's' or b.h == 's': return mk('strcat', a, b)
    d = poly(a)
    for m, c in poly(b).items(): d[m] = d.get(m, 0) + c
    return unpoly(d)
def neg(a):
    if a.h == 'ite': return lift1(neg, a)
    return unpoly({m: -c for m, c in poly(a).items()})
def sub(a, b): return add(a, neg(b))
def mul(a, b):
    if a.h == 'ite' or b.h == 'ite': return lift2(mul, a, b)
    d = {}
    pb = poly(b)
    for m1, c1 in poly(a).items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.n))
            d[m] = d.get(m, 0) + c1 * c2
    return unpoly(d)
def fdiv(a, b):
    if a.h == 'ite' or b.h == 'ite': return lift2(fdiv, a, b)
    if b.h == 'c' and b.a[0] != 0:
        return mul(a, C(Fraction(1) / Fraction(b.a[0]))) if not isinstance(b.a[0], float) else mul(a, C(Fraction(1) / Fraction(b.a[0])))
    if a is b: return ONE
    return mul(a, mk('inv', b))
def idiv(a, b):
    if a.h == 'c' and b.h == 'c' and b.a[0] != 0: return C(int(a.a[0] / b.a[0]) if isinstance(a.a[0], int) else a.a[0] // b.a[0])
    if b is ONE: return a
    return mk('idiv', a, b)
def imod(a, b):
    if a.h == 'ite': return lift1(lambda x: imod(x, b), a)
    if a.h == 'c' and b.h == 'c' and b.a[0] != 0: return C(a.a[0] % b.a[0])
    if b is ONE: return ZERO
    # flatten inner mods with the same modulus, drop multiples
    d = {}
    for m, c in poly(a).items():
        if len(m) == 1 and m[0].h == 'mod' and m[0].a[1] is b:
            for m2, c2 in poly(m[0].a[0]).items(): d[m2] = d.get(m2, 0) + c * c2
        else: d[m] = d.get(m, 0) + c
    if b.h == 'c': d = {m: (c % b.a[0] if isinstance(c, int) else c) for m, c in d.items()}
    else: d = {m: c for m, c in d.items() if b not in m}
    a = unpoly(d)
    if a.h == 'c' and b.h == 'c': return C(a.a[0] % b.a[0])
    if a is ZERO: return ZERO
    # value known smaller than modulus: x in [0,b) by bound
    ub = UPPER.get(a)
    if ub is not None and ub is b: return a
    return mk('mod', a, b)

UPPER = {}   # term -> exclusive upper bound term (iteration variables)

def is_nonneg(t):
    if t.h == 'c': return t.a[0] >= 0
    if t.h in ('size', 'iv', 'bv', 'first', 'mod', 'sizeof', 'count'): return True
    if t in NONNEG: return True
    if t.h == 'p':
        return all(c > 0 and all(is_nonneg(x) for x in m) for m, c in t.a[0])
    if t.h == 'sum': return is_nonneg(t.a[2])
    if t.h == 'idiv': return is_nonneg(t.a[0]) and is_nonneg(t.a[1])
    if t.h == 'ite': return is_nonneg(t.a[1]) and is_nonneg(t.a[2])
    if t.h in ('at', 'fld', 'mget', 'mapkey'): return t in NONNEG
    return False

# ---------------------------------------------------------------- booleans / decision trees
def is_bool(t): return t.h in ('b',) or (t.h == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2])) or t.h in BOOLATOMS
BOOLATOMS = {'le0', 'lt0', 'eq', 'any', 'mhas', 'perm', 'exc', 'bool', 'lessthan', 'strict', 'meq', 'lex'}

def atom(t):
    return mk('ite', t, TRUE, FALSE)

def boolify(t):
    """any term used as a condition -> canonical decision tree with boolean leaves"""
    if t.h == 'b': return t
    if t.h == 'c': return B(t.a[0] != 0)
    if t.h == 'null': return FALSE
    if t.h == 'ite':
        return ite(atom(t.a[0]), boolify(t.a[1]), boolify(t.a[2]))
    if t.h in BOOLATOMS: return atom(t)
    if t.h == 'p' : return not_(eq(t, ZERO))
    if t.h in ('new', 'ref'): return TRUE
    if t in BOOLTYPED: return atom(t)
    return not_(eq(t, NULL if t in PTRS else ZERO)) if (t in PTRS or t in NUMTYPED) else atom(t)
PTRS = set()
NUMTYPED = set()
BOOLTYPED = set()

_ite_memo = {}
def ite(c, a, b):
    """c: boolean tree; a,b: terms."""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.h != 'ite': c = boolify(c)
    if c is TRUE: return a
    if c is FALSE: return b
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is None:
        r = _ite(c, a, b)
        _ite_memo[k] = r
    return r
def _top(*ts):
    best = None
    for t in ts:
        if t.h == 'ite' and (best is None or t.a[0].n < best.n): best = t.a[0]
    return best
def _cof(t, v, val):
    if t.h == 'ite' and t.a[0] is v: return t.a[1] if val else t.a[2]
    return t
def _ite(c, a, b):
    v = _top(c, a, b)
    hi = ite(assume(_cof(c, v, True), v, True), _cof(a, v, True), _cof(b, v, True))
    lo = ite(assume(_cof(c, v, False), v, False), _cof(a, v, False), _cof(b, v, False))
    hi = assume(hi, v, True); lo = assume(lo, v, False)
    if hi is lo: return hi
    return mk('ite', v, hi, lo)

def implied(v, val, w):
    """truth of atom w given atom v == val, or None"""
    if v is w: return val
    if v.h == 'le0' and w.h == 'le0':
        d = sub(w.a[0], v.a[0])
        if d.h == 'c':
            if val and d.a[0] <= 0: return True
            if (not val) and d.a[0] >= 0: return False
        s = add(w.a[0], v.a[0])   # w = -v + c
        if s.h == 'c':
            # v: p<=0 ; w: c-p<=0 i.e. p>=c
            if val and s.a[0] > 0: return False
            if (not val) and s.a[0] <= 1: return True
    if v.h == 'eq' and w.h == 'le0' and v.a[1] is ZERO and val:
        d = sub(w.a[0], v.a[0])
        if d.h == 'c': return d.a[0] <= 0
        d = add(w.a[0], v.a[0])
        if d.h == 'c': return d.a[0] <= 0
    if v.h == 'le0' and w.h == 'eq' and w.a[1] is ZERO:
        for d in (sub(w.a[0], v.a[0]), neg(add(w.a[0], v.a[0]))):
            # w: v.p + d == 0  <=> p == -d
            if d.h == 'c':
                if val and -d.a[0] > 0: return False
                if (not val) and -d.a[0] <= 0: return False
    if v.h == 'eq' and w.h == 'eq' and val:
        if v.a[1].h in ('c', 'null', 's') and w.a[1].h in ('c', 'null', 's') and v.a[0] is w.a[0] and v.a[1] is not w.a[1]: return False
        if v.a[1] is ZERO and w.a[1] is ZERO:
            d = sub(v.a[0], w.a[0])
            if d.h == 'c' and d.a[0] != 0: return False
            d = add(v.a[0], w.a[0])
            if d.h == 'c' and d.a[0] != 0: return False
    return None

_as_memo = {}
def assume(t, v, val):
    """simplify tree t knowing atom v has value val"""
    if t.h != 'ite': return t
    k = (t, v, val)
    r = _as_memo.get(k)
    if r is not None: return r
    w = t.a[0]
    im = implied(v, val, w)
    if im is True: r = assume(t.a[1], v, val)
    elif im is False: r = assume(t.a[2], v, val)
    else:
        hi, lo = assume(t.a[1], v, val), assume(t.a[2], v, val)
        if hi is t.a[1] and lo is t.a[2]: r = t
        elif hi is lo: r = hi
        else: r = mk('ite', w, hi, lo)
    _as_memo[k] = r
    return r
def assume_all(t, c):
    """simplify t under boolean tree c when c is a conjunction of literals"""
    for v, val in literals(c): t = assume(t, v, val)
    return t
def literals(c):
    """literals implied by boolean tree c (walk while one branch is FALSE)"""
    out = []
    while c.h == 'ite':
        if c.a[2] is FALSE: out.append((c.a[0], True)); c = c.a[1]
        elif c.a[1] is FALSE: out.append((c.a[0], False)); c = c.a[2]
        else: break
    return out
def restrict(f, c):
    """simplify tree f where only the region c matters"""
    if c is TRUE or f.h != 'ite' or c is FALSE: return f
    k = (f, c, 'R')
    r = _as_memo.get(k)
    if r is not None: return r
    v = _top(f, c)
    ch, cl = _cof(c, v, True), _cof(c, v, False)
    if f.a[0] is not v:
        r = restrict(f, or_(ch, cl))
    elif ch is FALSE: r = restrict(f.a[2], cl)
    elif cl is FALSE: r = restrict(f.a[1], ch)
    else: r = ite(atom(v), restrict(f.a[1], ch), restrict(f.a[2], cl))
    _as_memo[k] = r
    return r
def not_(c): return ite(boolify(c), FALSE, TRUE)
def and_(*cs):
    r = TRUE
    for c in cs: r = ite(r, boolify(c), FALSE) if r is not TRUE else boolify(c)
    return r
def or_(*cs):
    r = FALSE
    for c in cs: r = ite(r, TRUE, boolify(c)) if r is not FALSE else boolify(c)
    return r
def lift1(f, a):
    if a.h == 'ite': return ite(atom(a.a[0]), lift1(f, a.a[1]), lift1(f, a.a[2]))
    return f(a)
def lift2(f, a, b):
    v = _top(a, b)
    if v is None: return f(a, b)
    return ite(atom(v), lift2(f, _cof(a, v, True), _cof(b, v, True)), lift2(f, _cof(a, v, False), _cof(b, v, False)))

def lead_sign(p):
    """sign of the coefficient of the first non-constant monomial"""
    for m, c in p.a[0]:
        if m != (): return 1 if c > 0 else -1
    return 1
def _aslead(p):
    return p if p.h == 'p' else mk('p', (((p,), 1),))

def le0(p):
    """integer p <= 0"""
    if p.h == 'ite': return lift1(le0, p)
    if p.h == 'c': return B(p.a[0] <= 0)
    d = poly(p)
    const = d.get((), 0)
    nonc = {m: c for m, c in d.items() if m != ()}
    allpos = all(c > 0 and all(is_nonneg(x) for x in m) for m, c in nonc.items())
    allneg = all(c < 0 and all(is_nonneg(x) for x in m) for m, c in nonc.items())
    if allpos and const > 0: return FALSE
    if allneg and const <= 0: return TRUE
    if allpos and const == 0 and len(nonc) == 1:
        return eq(unpoly({m: 1 for m in nonc}), ZERO)
    if allneg and const == 1 and len(nonc) == 1 and list(nonc.values())[0] == -1:
        return not_(eq(unpoly({m: 1 for m in nonc}), ZERO))
    # bounded iteration variables: iv - N + 1 <= 0 holds
    ub = _ubound(d)
    if ub: return TRUE
    if _lbound(d): return FALSE
    first = sorted(nonc.items(), key=lambda mc: tuple(x.n for x in mc[0]))[0]
    if first[1] < 0:
        q = sub(ONE, p)
        return not_(atom(mk('le0', q)))
    return atom(mk('le0', p))
def _ubound(d):
    """sum c*x + const <= 0 provable by replacing one bounded variable by its maximum"""
    for m, c in d.items():
        if len(m) == 1 and c > 0 and m[0] in UPPER:
            r = dict(d); del r[m]
            mx = sub(UPPER[m[0]], ONE)
            q = add(unpoly(r), mul(C(c), mx))
            dd = poly(q)
            k = dd.get((), 0)
            if k <= 0 and all(cc < 0 and all(is_nonneg(x) for x in mm) for mm, cc in dd.items() if mm != ()): return True
    return False
def _lbound(d):
    """expression provably > 0 : replace a bounded variable with negative coefficient by its maximum"""
    for m, c in d.items():
        if len(m) == 1 and c < 0 and m[0] in UPPER:
            r = dict(d); del r[m]
            q = add(unpoly(r), mul(C(c), sub(UPPER[m[0]], ONE)))
            dd = poly(q)
            k = dd.get((), 0)
            if k > 0 and all(cc > 0 and all(is_nonneg(x) for x in mm) for mm, cc in dd.items() if mm != ()): return True
    return False
def lt(a, b, isint=True):
    if isint: return le0(add(sub(a, b), ONE))
    return lt0(sub(a, b))
def le(a, b, isint=True):
    if isint: return le0(sub(a, b))
    return not_(lt0(sub(b, a)))
def lt0(p):
    if p.h == 'ite': return lift1(lt0, p)
    if p.h == 'c': return B(p.a[0] < 0)
    return atom(mk('lt0', p))

def eq(a, b):
    if a is b: return TRUE
    if a.h == 'ite' or b.h == 'ite': return lift2(eq, a, b)
    if a.h == 'b' and b.h == 'b': return B(a is b)
    if a.h == 'b': return boolify(b) if a is TRUE else not_(b)
    if b.h == 'b': return boolify(a) if b is TRUE else not_(a)
    na, nb = a.h in NUMHEADS, b.h in NUMHEADS
    if na or nb:
        if a.h in ('null', 's', 'new', 'ref', 'cat') or b.h in ('null', 's', 'new', 'ref', 'cat'):
            if 'null' in (a.h, b.h): 
                o = b if a.h == 'null' else a
                if o is ZERO: return TRUE
            return FALSE if (a.h in ('s', 'c', 'null') and b.h in ('s', 'c', 'null')) else atom(mk('eq', *sorted((a, b), key=lambda x: x.n)))
        d = sub(a, b)
        if d.h == 'c': return B(d.a[0] == 0)
        p = poly(d)
        # sum of nonneg with positive constant can not be zero
        const = p.get((), 0)
        nonc = {m: c for m, c in p.items() if m != ()}
        if const > 0 and all(c > 0 and all(is_nonneg(x) for x in m) for m, c in nonc.items()): return FALSE
        if const < 0 and all(c < 0 and all(is_nonneg(x) for x in m) for m, c in nonc.items()): return FALSE
        if _eqbound(p): return FALSE
        if len(p) == 2 and () in p and len(nonc) == 1:
            (m, c), = nonc.items()
            if c in (1, -1) and len(m) == 1: return atom(mk('eq', m[0], C(-const * c)))
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1: return atom(mk('eq', m[0], ZERO))
        first = sorted(nonc.items(), key=lambda mc: tuple(x.n for x in mc[0]))[0]
        if first[1] < 0: d = neg(d)
        return atom(mk('eq', d, ZERO))
    if a.h == 'null' or b.h == 'null':
        o = b if a.h == 'null' else a
        if o.h in ('new', 'ref', 's'): return FALSE
        return atom(mk('eq', o, NULL))
    if a.h == 's' and b.h == 's': return FALSE
    if a.h == 'it' and b.h == 'it' and a.a[0] is b.a[0]:
        return eq(a.a[1], b.a[1])
    if a.h == 'mit' and b.h == 'mit' and a.a[0] is b.a[0]:
        if a.a[1].h == 'ite': return lift1(lambda p: eq(mk('mit', a.a[0], p, a.a[2]), b), a.a[1])
        if b.a[1].h == 'ite': return lift1(lambda p: eq(a, mk('mit', b.a[0], p, b.a[2])), b.a[1])
        # iterator by key vs end
        for x, y in ((a, b), (b, a)):
            if y.a[1] is MEND and x.a[1].h == 'bykey':
                return not_(mhas(x.a[2], x.a[1].a[0]))
        if a.a[1] is MEND or b.a[1] is MEND:
            x = b if a.a[1] is MEND else a
            return eq(x.a[1], size(x.a[2]))
        return eq(a.a[1], b.a[1])
    if a.h == 'obj' and b.h == 'obj' and a.a[0] is b.a[0] and False: pass
    if a.h in SEQ and b.h in SEQ:
        ea, eb = a is EMPTY, b is EMPTY
        if ea or eb:
            o = b if ea else a
            sz = size(o)
            return eq(sz, ZERO)
    if a.h == 'ref' and b.h == 'ref': return FALSE if REFDISTINCT(a, b) else atom(mk('eq', *sorted((a, b), key=lambda x: x.n)))
    if not na and not nb and (a in NUMTYPED or b in NUMTYPED or a.h in NUMATOM or b.h in NUMATOM) and a.h not in ('null',) and b.h not in ('null',):
        d = sub(a, b)
        if d.h == 'c': return B(d.a[0] == 0)
        if d.h == 'p':
            first = sorted(((m, c) for m, c in d.a[0] if m != ()), key=lambda mc: tuple(x.n for x in mc[0]))[0]
            if first[1] < 0: d = neg(d)
        if _eqbound(poly(d)): return FALSE
        return atom(mk('eq', d, ZERO))
    if a.n > b.n: a, b = b, a
    return atom(mk('eq', a, b))
NUMATOM = {'size', 'iv', 'bv', 'mod', 'idiv', 'sum', 'first', 'inv', 'trunc', 'count'}
LOCALROOTS = ('v', 'tmp', 'this', 'arg')
def REFDISTINCT(a, b):
    """two places known to be different objects"""
    ra, rb = a.a[0], b.a[0]
    if ra != rb: return ra[0] in LOCALROOTS and rb[0] in LOCALROOTS or (ra[0] in ('v', 'tmp')) or (rb[0] in ('v', 'tmp'))
    for x, y in zip(a.a[1], b.a[1]):
        if x == y: continue
        if x[0] != y[0]: return False
        if x[0] == 'f': return True
        if x[0] == 'i': return eq(x[1], y[1]) is FALSE
        return False
    return len(a.a[1]) != len(b.a[1])
def _eqbound(p):
    """bounded variable makes equality impossible, e.g. iv == N"""
    d = unpoly(p)
    return (_ubound(poly(add(d, ONE))) or _ubound(poly(add(neg(d), ONE))))

MEND = mk('mend')

# ---------------------------------------------------------------- sequences
# sequence heads: cat(parts) with parts: lit(x) | comp | slice | arbitrary sequence term
SEQ = {'cat', 'comp', 'fcomp', 'upd', 'rupd', 'slice', 'sorted', 'mapvals'}
EMPTY = mk('cat', ())
def lit(*xs): return cat(*[mk('lit1', x) for x in xs])
def cat(*parts):
    out = []
    for p in parts:
        if p.h == 'cat': out.extend(p.a[0])
        elif p.h == 'comp' and p.a[1] and p.a[1][0] is ZERO: pass
        else: out.append(p)
    # merge  lit.. fills of constants are left alone
    if len(out) == 1 and out[0].h != 'lit1': return out[0]
    return mk('cat', tuple(out))
def append(s, x):
    if s.h == 'ite': return lift1(lambda y: append(y, x), s)
    return cat(s, mk('lit1', x))
def concat(a, b):
    if a.h == 'ite' or b.h == 'ite': return lift2(concat, a, b)
    return cat(a, b)

SIZEHOOK = [None]
def size(s):
    if s.h == 'ite': return lift1(size, s)
    if s.h == 'cat':
        r = ZERO
        for p in s.a[0]: r = add(r, ONE if p.h == 'lit1' else size(p))
        return r
    if s.h == 'comp':   # comp(k, bounds, cond, body)
        if s.a[2] is TRUE: return clip(s.a[1][0])
        return _count(s)
    if s.h == 'fcomp':
        iv = fresh_iv(); UPPER[iv] = s.a[1][0]
        return sum_(iv, s.a[1][0], size(inst(s, [iv], 2)))
    if s.h in ('upd', 'rupd'): return size(s.a[0] if s.h == 'upd' else s.a[1])
    if s.h == 'slice': return sub(s.a[2], s.a[1])
    if s.h == 'sorted': return size(s.a[0])
    if s.h == 'zero': return ZERO
    if s.h == 's': return C(len(s.a[0]))
    if s.h == 'mput':
        return ite(mhas(s.a[0], s.a[1]), size(s.a[0]), add(size(s.a[0]), ONE))
    if s.h == 'mins':
        return ite(mhas(s.a[0], s.a[1]), size(s.a[0]), add(size(s.a[0]), ONE))
    if s.h == 'rmap': return size(s.a[1])
    if s.h == 'map0': return ZERO
    if SIZEHOOK[0]:
        r = SIZEHOOK[0](s)
        if r is not None: return r
    return mk('size', s)

def slice_(s, a, b):
    if a is ZERO and b is size(s): return s
    if a is b: return EMPTY
    if s.h == 'cat' and all(p.h == 'lit1' for p in s.a[0]) and a.h == 'c' and b.h == 'c':
        return mk('cat', s.a[0][int(a.a[0]):int(b.a[0])]) if b.a[0] - a.a[0] != 1 else mk('cat', s.a[0][int(a.a[0]):int(b.a[0])])
    if s.h == 'slice': return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    return mk('slice', s, a, b)

def at(s, i):
    if s.h == 'ite' or i.h == 'ite': return lift2(at, s, i)
    if s.h == 'cat':
        pos = ZERO
        for p in s.a[0]:
            d = sub(i, pos)
            n = ONE if p.h == 'lit1' else size(p)
            if d.h == 'c' and d.a[0] == 0 and p.h == 'lit1': return p.a[0]
            if p.h == 'lit1':
                if d.h == 'c' or decided(le(ONE, d)): 
                    pos = add(pos, n); continue
                break
            ins = lt(d, n)
            if ins is TRUE and le(ZERO, d) is TRUE: return at(p, d)
            if lt(d, n) is FALSE: pos = add(pos, n); continue
            break
        return mk('at', s, i)
    if s.h == 'comp' and s.a[2] is TRUE:
        return inst(s, [i], 3)
    if s.h == 'upd':
        e = eq(s.a[1], i)
        if e is TRUE: return s.a[2]
        if e is FALSE: return at(s.a[0], i)
        return ite(e, s.a[2], at(s.a[0], i))
    if s.h == 'slice': return at(s.a[0], add(s.a[1], i))
    if s.h == 'rupd':   # rupd(k, base, bounds, cond, idx, val)
        k, base, bounds, cond, idx, val = s.a
        sol = solve_idx(s, i)
        if sol is not None:
            ok = TRUE
            for j, n in zip(sol, [inst_t(s, b, sol) for b in bounds]):
                ok = and_(ok, le(ZERO, j), lt(j, n))
            c = and_(ok, inst_t(s, cond, sol))
            v = inst_t(s, val, sol)
            return ite(c, v, at(base, i)) if c is not TRUE else v
        return mk('at', s, i)
    if s.h == 'zero': return mk('at', s, i)
    return mk('at', s, i)
def decided(c): return c is TRUE

def bvars(t):
    k = t.a[0]
    return [mk('bv', j) for j in range(t.hg - k + 1, t.hg + 1)]
def inst_t(binder, body, vals):
    return subst(body, dict(zip(bvars(binder), vals)))
def inst(binder, vals, pos): return inst_t(binder, binder.a[pos], vals)

def solve_idx(s, i):
    """solve idx(bv..) == i for the bound variables (affine, unit steps, mixed radix)"""
    k, base, bounds, cond, idx, val = s.a
    bs = bvars(s)
    if k == 1:
        c = sub(idx, bs[0])
        if bs[0] not in c.fv: return [sub(i, c)]
        c = add(idx, bs[0])
        if bs[0] not in c.fv: return [sub(c, i)]
        return None
    if k == 2:
        # idx = b0*w + b1 (w == bounds[1]) ; i = p*w + q with q an iteration variable bounded by w
        for hi, lo in ((0, 1), (1, 0)):
            w = bounds[lo]
            r = sub(idx, add(mul(bs[hi], w), bs[lo]))
            if any(b in r.fv for b in bs): continue
            t = sub(i, r)
            for m, c in poly(t).items():
                if c == 1 and len(m) == 1 and UPPER.get(m[0]) is w:
                    q = m[0]; rest = sub(t, q)
                    hi_v = div_exact(rest, w)
                    if hi_v is not None:
                        sol = [None, None]; sol[hi] = hi_v; sol[lo] = q
                        return sol
            q = div_exact(t, w)
            if q is not None:
                sol = [None, None]; sol[hi] = q; sol[lo] = ZERO
                return sol
        return None
    return None
def div_exact(p, w):
    """p / w when every monomial of p is divisible by the atom/const w"""
    if p is ZERO: return ZERO
    if w.h == 'c':
        if w.a[0] == 0: return None
        d = poly(p)
        if all((isinstance(c, int) and c % w.a[0] == 0) for c in d.values()): return unpoly({m: c // w.a[0] for m, c in d.items()})
        return None
    if w.h == 'p': return None
    out = {}
    for m, c in poly(p).items():
        if w not in m: return None
        l = list(m); l.remove(w); out[tuple(l)] = c
    return unpoly(out)

def upd(s, i, v):
    if s.h == 'cat' and i.h == 'c' and all(p.h == 'lit1' for p in s.a[0][:int(i.a[0]) + 1]) and 0 <= i.a[0] < len(s.a[0]):
        parts = list(s.a[0]); parts[int(i.a[0])] = mk('lit1', v)
        return mk('cat', tuple(parts))
    if s.h == 'upd' and s.a[1] is i: return upd(s.a[0], i, v)
    if s.h == 'ite': return lift1(lambda y: upd(y, i, v), s)
    if at(s, i) is v: return s
    return mk('upd', s, i, v)

def bind(ivs, *bodies):
    """rename iteration variables to canonical bound variables for a binder over the given bodies"""
    hg = 0
    def h(x):
        nonlocal hg
        if isinstance(x, T): hg = max(hg, x.hg)
        elif isinstance(x, tuple):
            for y in x: h(y)
    for b in bodies: h(b)
    m = {iv: mk('bv', hg + 1 + j) for j, iv in enumerate(ivs)}
    return [subst_any(b, m) for b in bodies]

def comp(iv, n, cond, body):
    """sequence of body(iv) for iv in [0,n) with cond(iv)"""
    if cond is FALSE or n is ZERO: return EMPTY
    (c2, b2, n2) = bind([iv], cond, body, n)
    if n.h == 'c' and isinstance(n.a[0], int) and 0 < n.a[0] <= 8 and cond is TRUE:
        return cat(*[mk('lit1', subst(body, {iv: C(j)})) for j in range(n.a[0])])
    if is_neg(n): return EMPTY
    # eta: comp(at(s, bv)) over the full length of s
    if c2 is TRUE and b2.h == 'at' and b2.a[1].h == 'bv' and b2.a[1] not in b2.a[0].fv and size(b2.a[0]) is n2: return b2.a[0]
    return _register_bounds(mk('comp', 1, (n2,), c2, b2))
def _count(s):
    iv = fresh_iv(); UPPER[iv] = s.a[1][0]
    return sum_(iv, s.a[1][0], ite(inst(s, [iv], 2), ONE, ZERO))
def clip(n):
    """max(n, 0)"""
    if is_nonneg(n): return n
    return ite(le0(n), ZERO, n)
def is_neg(n):
    return n.h == 'c' and n.a[0] <= 0
def fcomp(iv, n, body):
    """concatenation of the sequences body(iv)"""
    if n is ZERO or body is EMPTY or is_neg(n): return EMPTY
    if body.h == 'cat' and len(body.a[0]) == 1 and body.a[0][0].h == 'lit1': return comp(iv, n, TRUE, body.a[0][0].a[0])
    if body.h == 'ite':
        # conditional single element
        r = _condlit(body)
        if r is not None: return comp(iv, n, r[0], r[1])
    if n.h == 'c' and isinstance(n.a[0], int) and 0 < n.a[0] <= 8:
        return cat(*[subst(body, {iv: C(j)}) for j in range(n.a[0])])
    (b2, n2) = bind([iv], body, n)
    return mk('fcomp', 1, (n2,), b2)
def _condlit(b):
    if b is EMPTY: return FALSE, None
    if b.h == 'cat' and len(b.a[0]) == 1 and b.a[0][0].h == 'lit1': return TRUE, b.a[0][0].a[0]
    if b.h == 'ite':
        x, y = _condlit(b.a[1]), _condlit(b.a[2])
        if x is None or y is None: return None
        c = ite(atom(b.a[0]), x[0], y[0])
        if x[1] is None: v = y[1]
        elif y[1] is None: v = x[1]
        else: v = ite(atom(b.a[0]), x[1], y[1])
        return c, v
    return None
def fill(n, v):
    if n is ZERO or is_neg(n): return EMPTY
    if n.h == 'c' and isinstance(n.a[0], int) and n.a[0] <= 8: return cat(*[mk('lit1', v)] * n.a[0])
    return mk('comp', 1, (n,), TRUE, v)
def _register_bounds(t): return t
def rupd(base, ivs, bounds, cond, idx, val):
    if cond is FALSE: return base
    r = bind(ivs, tuple(bounds), cond, idx, val)
    b2, c2, i2, v2 = r
    hg = 0
    if len(ivs) == 1:
        n = bounds[0]
        if idx is ivs[0] and size(base) is n:
            return comp(ivs[0], n, TRUE, ite(cond, val, at(base, ivs[0])) if cond is not TRUE else val)
        # decreasing index n-1-iv covering the same range
        if sub(sub(n, ONE), ivs[0]) is idx and size(base) is n:
            k = ivs[0]
            m = {k: sub(sub(n, ONE), k)}
            v = subst(val, m); c = subst(cond, m)
            return comp(k, n, TRUE, ite(c, v, at(base, k)) if c is not TRUE else v)
        if n.h == 'c' and isinstance(n.a[0], int) and 0 < n.a[0] <= 8 and cond is TRUE:
            for j in range(n.a[0]): base = upd(base, subst(idx, {ivs[0]: C(j)}), subst(val, {ivs[0]: C(j)}))
            return base
    # heights: the binder height is computed from contents incl. base; keep base out by wrapping bounds
    return _mkrupd(base, len(ivs), b2, c2, i2, v2, ivs)
def _mkrupd(base, k, b2, c2, i2, v2, ivs):
    # rebind so that bound variable numbering accounts for the base's height too
    hg = max([base.hg] + [x.hg for x in (c2, i2, v2)] + [x.hg for x in b2])
    cur = max([x.hg for x in (c2, i2, v2)] + [x.hg for x in b2])
    if hg != cur:
        m = {mk('bv', cur + 1 + j): mk('bv', hg + 1 + j) for j in range(k)}
        b2, c2, i2, v2 = [subst_any(x, m) for x in (b2, c2, i2, v2)]
    sz = size(base)
    full = ONE
    for n in b2: full = mul(full, n)
    if c2 is TRUE and k == 2 and sz is full and base.h != 'junk' and not any(b.h == 'mu' for b in base.fv):
        # completely overwritten when idx enumerates the whole range
        bs = [mk('bv', hg + 1 + j) for j in range(k)]
        for hi, lo in ((0, 1), (1, 0)):
            if i2 is add(mul(bs[hi], b2[lo]), bs[lo]): 
                if (hi, lo) == (1, 0):  # canonical loop order: outer index first
                    m = {bs[0]: bs[1], bs[1]: bs[0]}
                    i2, v2 = subst(i2, m), subst(v2, m); b2 = (b2[1], b2[0])
                base = mk('junk', sz)
                hgn = max([x.hg for x in (c2, i2, v2)] + [x.hg for x in b2])
                if hgn != hg:
                    m = {mk('bv', hg + 1 + j): mk('bv', hgn + 1 + j) for j in range(k)}
                    b2, c2, i2, v2 = [subst_any(x, m) for x in (b2, c2, i2, v2)]
                break
    if k == 2:
        hg = max([base.hg] + [x.hg for x in (c2, i2, v2)] + [x.hg for x in b2])
        bs = [mk('bv', hg + 1 + j) for j in range(k)]
        # canonical order of independent bounds: by the coefficient of idx (outer first)
        w0, w1 = sub(subst(i2, {bs[0]: add(bs[0], ONE)}), i2), sub(subst(i2, {bs[1]: add(bs[1], ONE)}), i2)
        if w0 is ONE and w1 is not ONE and not any(b in x.fv for x in b2 for b in bs):
            m = {bs[0]: bs[1], bs[1]: bs[0]}
            i2, v2, c2 = subst(i2, m), subst(v2, m), subst(c2, m); b2 = (b2[1], b2[0])
    return mk('rupd', k, base, b2, c2, i2, v2)
# note: size() looks at a[1] for rupd

def sum_(iv, n, body):
    if body is ZERO or n is ZERO: return ZERO
    if iv not in body.fv: return mul(n, body)
    if n.h == 'c' and isinstance(n.a[0], int) and 0 < n.a[0] <= 8:
        r = ZERO
        for j in range(n.a[0]): r = add(r, subst(body, {iv: C(j)}))
        return r
    (b2, n2) = bind([iv], body, n)
    return mk('sum', 1, (n2,), b2)
def any_(iv, n, body):
    if body is FALSE or n is ZERO: return FALSE
    if body is TRUE: return not_(eq(n, ZERO))
    if iv not in body.fv: return and_(not_(le0(n)), body)
    (b2, n2) = bind([iv], body, n)
    return atom(mk('any', 1, (n2,), b2))
def first_(iv, n, body):
    if body is TRUE: return ZERO
    (b2, n2) = bind([iv], body, n)
    t = mk('first', 1, (n2,), b2)
    return t

# ---------------------------------------------------------------- maps
def mhas(m, k):
    if m.h == 'ite': return lift1(lambda x: mhas(x, k), m)
    if m.h in ('map0', 'zero'): return FALSE
    if m.h in ('mput', 'mins'):
        return or_(eq(m.a[1], k), mhas(m.a[0], k))
    if m.h == 'rmap': return mhas(m.a[1], k)
    if k.h == 'mkey' and k.a[0] is m: return TRUE
    return atom(mk('mhas', m, k))
def mget(m, k):
    if m.h == 'ite': return lift1(lambda x: mget(x, k), m)
    if m.h == 'mput':
        e = eq(m.a[1], k)
        if e is TRUE: return m.a[2]
        return ite(e, m.a[2], mget(m.a[0], k))
    if m.h == 'mins':
        e = eq(m.a[1], k)
        if e is TRUE: return ite(mhas(m.a[0], k), mget(m.a[0], k), m.a[2])
        return ite(and_(e, not_(mhas(m.a[0], k))), m.a[2], mget(m.a[0], k))
    if k.h == 'mkey' and k.a[0] is m: return mval(m, k.a[1])
    if m.h == 'rmap':  # all values mapped: rmap(1, base, body(bv key))
        return inst_t(m, m.a[2], [k])
    return mk('mget', m, k)
def mput(m, k, v):
    if m.h == 'ite': return lift1(lambda x: mput(x, k, v), m)
    if m.h == 'mput' and m.a[1] is k: return mput(m.a[0], k, v)
    return mk('mput', m, k, v)
def mins(m, k, v):
    if m.h == 'ite': return lift1(lambda x: mins(x, k, v), m)
    h = mhas(m, k)
    if h is TRUE: return m
    if h is FALSE: return mput(m, k, v)
    return ite(h, m, mput(m, k, v))
def mkey(m, i):
    if m.h == 'rmap': return mkey(m.a[1], i)
    if m.h == 'mput' and m.a[0].h in ('map0', 'zero') : return m.a[1]
    return mk('mkey', m, i)
def mval(m, i):
    if m.h == 'rmap': return mget(m, mkey(m.a[1], i))
    if m.h == 'mput' and m.a[0].h in ('map0', 'zero'): return m.a[2]
    return mk('mval', m, i)
MAP0 = mk('map0')

# ---------------------------------------------------------------- objects
FIELDS = {}     # class -> [field names]  (filled by the engine)
def obj(base, fields):
    """base term with overridden fields (dict)"""
    if not fields: return base
    d = {}
    if base.h == 'obj':
        d.update(dict(base.a[1])); base = base.a[0]
    d.update(fields)
    # collapse if every override equals the base's own field
    d2 = {f: v for f, v in d.items() if v is not rawfield(base, f)}
    if not d2: return base
    # complete override from one source object: equals that object
    cls = clsof(base)
    if cls in FIELDS:
        fs = FIELDS[cls]
        if fs and all(f in d for f in fs):
            src = None; ok = True
            for f in fs:
                v = d[f]
                if v.h == 'fld' and v.a[1] == f:
                    if src is None: src = v.a[0]
                    elif src is not v.a[0]: ok = False
                else: ok = False
            if ok and src is not None: return src
            base = mk('zero', cls)
            d2 = d
    return mk('obj', base, tuple(sorted(d2.items())))
CLS = {}
def clsof(t):
    if t.h == 'zero': return t.a[0]
    return CLS.get(t)
def rawfield(base, f):
    if base.h == 'zero': return mk('zf', base, f)
    return mk('fld', base, f)
def field(t, f):
    if t.h == 'ite': return lift1(lambda x: field(x, f), t)
    if t.h == 'obj':
        for k, v in t.a[1]:
            if k == f: return v
        return field(t.a[0], f)
    if t.h == 'pair':
        return t.a[0] if f == 'first' else t.a[1]
    return rawfield(t, f)
def setfield(t, f, v):
    if t.h == 'ite': return lift1(lambda x: setfield(x, f, v), t)
    if t.h == 'pair': return mk('pair', v, t.a[1]) if f == 'first' else mk('pair', t.a[0], v)
    return obj(t, {f: v})
def pair(a, b): return mk('pair', a, b)

# ---------------------------------------------------------------- substitution (re-normalising)
def subst_any(x, m):
    if isinstance(x, T): return subst(x, m)
    if isinstance(x, tuple): return tuple(subst_any(y, m) for y in x)
    return x
def subst(t, m, memo=None):
    if not m: return t
    if memo is None: memo = {}
    keys = set(m)
    simple = all(k.h in ('iv', 'mu', 'bv') for k in keys)
    def go(t):
        if t in m: return m[t]
        if simple and not (t.fv & keys if t.h not in BINDERS else True): return t
        if simple and t.h in BINDERS and not _deepfv(t, keys): return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go); memo[t] = r
        return r
    return go(t)
def _deepfv(t, keys):
    return bool(t.fv & keys)
def goany(x, go):
    if isinstance(x, T): return go(x)
    if isinstance(x, tuple): return tuple(goany(y, go) for y in x)
    return x
def rebuild(t, go):
    h, a = t.h, t.a
    if h == 'p':
        r = ZERO
        for mono, c in a[0]:
            x = C(c)
            for f in mono: x = mul(x, go(f))
            r = add(r, x)
        return r
    if h == 'ite': return ite(boolify(goatom(a[0], go)), go(a[1]), go(a[2]))
    if h in BINDERS:
        k = a[0]
        # open the binder with fresh iteration variables, substitute inside, close again
        bs = bvars(t)
        fresh = [fresh_iv() for _ in bs]
        mm = dict(zip(bs, fresh))
        rest = [subst_any(x, mm) for x in a[1:]]
        if h in ('comp', 'fcomp', 'sum', 'any', 'first'):
            bnds = rest[0]
            nb = tuple(goany(b, go) for b in bnds)
            for f, b in zip(fresh, nb): UPPER.setdefault(f, b)
            if h == 'comp': return comp(fresh[0], nb[0], goany(rest[1], go), goany(rest[2], go))
            if h == 'fcomp': return fcomp(fresh[0], nb[0], goany(rest[1], go))
            if h == 'sum': return sum_(fresh[0], nb[0], goany(rest[1], go))
            if h == 'any': 
                r = any_(fresh[0], nb[0], goany(rest[1], go)); return r
            if h == 'first': return first_(fresh[0], nb[0], goany(rest[1], go))
        if h == 'rupd':
            nb = tuple(goany(b, go) for b in rest[1])
            for f, b in zip(fresh, nb): UPPER.setdefault(f, b)
            return rupd(go(rest[0]), fresh, nb, go(rest[2]), go(rest[3]), go(rest[4]))
        rest = [goany(x, go) for x in rest]
        r2 = bind(fresh, *rest)
        return mk(h, k, *r2)
    if h == 'cat': return cat(*[mk('lit1', go(p.a[0])) if p.h == 'lit1' else go(p) for p in a[0]])
    na = tuple(goany(x, go) for x in a)
    f = CONS.get(h)
    if f: return f(*na)
    if h == 'eq': return eq(*na)
    r = mk(h, *na)
    if t in NONNEG: NONNEG.add(r)
    if t in NUMTYPED: NUMTYPED.add(r)
    if t in PTRS: PTRS.add(r)
    if t in BOOLTYPED: BOOLTYPED.add(r)
    if t in CLS: CLS[r] = CLS[t]
    if t in TYP: TYP.setdefault(r, TYP[t])
    return r
def goatom(at_, go):
    h, a = at_.h, at_.a
    if h == 'le0': return le0(go(a[0]))
    if h == 'lt0': return lt0(go(a[0]))
    if h == 'eq': return eq(go(a[0]), go(a[1]))
    if h == 'mhas': return mhas(go(a[0]), go(a[1]))
    return boolify(go(at_))
_iv = [0]
def fresh_iv():
    _iv[0] += 1
    return mk('iv', 'i%d' % _iv[0])
CONS = {'at': at, 'size': size, 'upd': upd, 'slice': slice_, 'mget': mget, 'mput': mput, 'mod': imod, 'idiv': idiv,
        'mkey': mkey, 'mval': mval}
def _fld(b, f): return field(b, f)
CONS['fld'] = _fld
CONS['le0'] = le0
CONS['lt0'] = lt0
CONS['mhas'] = mhas
CONS['obj'] = lambda base, fs: obj(base, dict(fs))

# ---------------------------------------------------------------- results of accessor methods, as places
def opget(name, r, args):
    if r.h == 'ite': return lift1(lambda x: opget(name, x, args), r)
    if r.h == 'opset' and r.a[0] == name:
        c = TRUE
        for x, y in zip(r.a[2], args): c = and_(c, eq(x, y))
        if c is TRUE: return r.a[3]
        return ite(c, r.a[3], opget(name, r.a[1], args))
    return mk('opget', name, r, args)
def opset(name, r, args, v):
    if r.h == 'ite': return lift1(lambda x: opset(name, x, args, v), r)
    if v.h == 'opget' and v.a == (name, r, args): return r
    if r.h == 'opset' and r.a[0] == name and r.a[2] == args: return opset(name, r.a[1], args, v)
    return mk('opset', name, r, args, v)
CONS['opget'] = opget
CONS['opset'] = opset

# ---------------------------------------------------------------- traversal / printing
def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); yield x
        st.extend(x.a)
def contains(t, pred): return any(pred(x) for x in subterms(t))

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 40: return '...'
    h, a = t.h, t.a
    s = lambda x: show(x, d + 1)
    if h == 'c': return str(a[0])
    if h == 'b': return 'true' if a[0] else 'false'
    if h == 's': return repr(a[0])
    if h == 'p':
        out = []
        for m, c in a[0]:
            ms = '*'.join(s(x) for x in m)
            out.append(ms if c == 1 and m else (str(c) + ('*' + ms if m else '')))
        return '(' + ' + '.join(out) + ')'
    if h == 'ite':
        if a[1] is TRUE and a[2] is FALSE: return s(a[0])
        if a[1] is FALSE and a[2] is TRUE: return '!' + s(a[0])
        return 'if(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if h == 'le0': return '[%s <= 0]' % s(a[0])
    if h == 'lt0': return '[%s < 0]' % s(a[0])
    if h == 'eq': return '[%s == %s]' % (s(a[0]), s(a[1]))
    if h == 'sym': return str(a[0])
    if h == 'iv': return str(a[0])
    if h == 'bv': return '#%d' % a[0]
    if h == 'fld': return '%s.%s' % (s(a[0]), a[1])
    if h == 'at': return '%s[%s]' % (s(a[0]), s(a[1]))
    if h == 'cat': return '<' + ', '.join(s(p.a[0]) if p.h == 'lit1' else '..' + s(p) for p in a[0]) + '>'
    if h == 'comp': return '<%s | %s < %s%s>' % (s(a[3]), ','.join(show(x) for x in bvars(t)), s(a[1][0]), '' if a[2] is TRUE else ', ' + s(a[2]))
    if h == 'null': return 'null'
    if h == 'obj': return '{%s%s}' % (s(a[0]), ''.join(', %s=%s' % (f, s(v)) for f, v in a[1]))
    return '%s(%s)' % (h, ', '.join(s(x) for x in a))
