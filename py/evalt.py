"""Random interpretation of value-graph terms (Gulwani & Necula, POPL 2003/04): the concretisation of the
value-number domain used to tell apart two normal forms that the rewriting could not identify.  It never runs the
program: it interprets terms of terms.py in a random model in which every opaque operation is an uninterpreted
function of its argument values.  Two terms that are equal under the theory of the domain agree in every model."""
import hashlib, random, functools, re
from fractions import Fraction
from terms import *
import terms as TM

COUNT = re.compile(r'::(GetQNSctNum|GetDegeneracy|dim|Rank|size|GetBlkIdxDataBlkMap|GetActualDataSize)$')     # library calls that count something

class Undef(Exception): pass
class Undecided(Exception): pass
class Budget(Exception): pass

class Poison(object):
    def __repr__(self): return 'POISON'
POISON = Poison()
class Uninit(object):
    def __repr__(self): return 'UNINIT'
UNINIT = Uninit()

class Tok(object):
    """opaque value of an unmodelled type"""
    __slots__ = ('ty', 'd')
    def __init__(self, ty, d): self.ty = ty; self.d = d
    def __repr__(self): return 'Tok(%s,%s)' % (self.ty.split('<')[0][-20:], self.d[:4].hex())
class Obj(object):
    __slots__ = ('cls', 'f', '_d')
    def __init__(self, cls, f): self.cls = cls; self.f = f; self._d = None
    def __repr__(self): return '%s%r' % (self.cls.split('<')[0], self.f)
class Map(object):
    __slots__ = ('d', '_d', '_k')
    def __init__(self, d): self.d = d; self._d = None; self._k = None      # digest(key) -> (key, value)
    def __repr__(self): return 'Map%r' % list(self.d.values())
    def keys(self):
        if self._k is None: self._k = sorted((k for k, v in self.d.values()), key=functools.cmp_to_key(cmpv))
        return self._k
class Ptr(object):
    __slots__ = ('k', 'a')
    def __init__(self, k, *a): self.k = k; self.a = a
    def __repr__(self): return '%s%r' % (self.k, self.a)

def cmpv(a, b):
    """total order used for keys and lexicographic comparison"""
    if a is b: return 0
    na, nb = isinstance(a, (int, Fraction)), isinstance(b, (int, Fraction))
    if na and nb: return (a > b) - (a < b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            c = cmpv(x, y)
            if c: return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        for f in sorted(a.f):
            c = cmpv(a.f[f], b.f.get(f))
            if c: return c
        return 0
    x, y = digest(a), digest(b)
    return (x > y) - (x < y)

def digest(v):
    if v is None: return b'N'
    if v is True: return b'i1'
    if v is False: return b'i0'
    if isinstance(v, int): return b'i%d' % v
    if isinstance(v, Fraction):
        if v.denominator == 1: return b'i%d' % v.numerator
        return b'q%d/%d' % (v.numerator, v.denominator)
    if isinstance(v, tuple): return H(b't', *[digest(x) for x in v])
    if isinstance(v, Tok): return b'k' + v.d
    if isinstance(v, Obj):
        if v._d is None: v._d = H(b'o', v.cls.encode(), *[x for f in sorted(v.f) for x in (f.encode(), digest(v.f[f]))])
        return v._d
    if isinstance(v, Map):
        if v._d is None: v._d = H(b'm', *sorted(H(k, digest(kv[1])) for k, kv in v.d.items()))
        return v._d
    if isinstance(v, Ptr): return H(b'p', v.k.encode(), *[digest(x) for x in v.a])
    if isinstance(v, str): return b's' + v.encode()
    if isinstance(v, bytes): return b'b' + v
    if isinstance(v, float): return b'f' + repr(v).encode()
    if v is UNINIT: return b'U'
    if v is POISON: raise Undef('poison')
    raise Undecided('digest %r' % (v,))
def H(*p):
    h = hashlib.blake2b(digest_size=12)
    for x in p: h.update(len(x).to_bytes(4, 'big')); h.update(x)
    return h.digest()

def has_poison(v, d=0):
    if v is POISON: return True
    if isinstance(v, tuple): return any(has_poison(x) for x in v)
    if isinstance(v, Obj): return any(has_poison(x) for x in v.f.values())
    if isinstance(v, Map): return any(has_poison(x[1]) for x in v.d.values())
    if isinstance(v, Ptr): return any(has_poison(x) for x in v.a)
    return False

def same(a, b):
    """a: reference value, b: new value.  Undefined parts of the reference match anything."""
    if a is POISON or a is UNINIT: return True
    if b is POISON or b is UNINIT: return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls == b.cls and all(same(a.f[f], b.f[f]) for f in a.f if f in b.f)
    if isinstance(a, Map) and isinstance(b, Map):
        return set(a.d) == set(b.d) and all(same(a.d[k][1], b.d[k][1]) for k in a.d)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.k == b.k and len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Uninit) or isinstance(b, Uninit): return a is b
    try: return digest(a) == digest(b)
    except Undef: return False

CANON = {}                      # class -> representative of a value among those the class itself calls equal
def canonv(v):
    """the value with every part replaced by its representative"""
    if isinstance(v, tuple): return tuple(canonv(x) for x in v)
    if isinstance(v, Obj):
        o = Obj(v.cls, {f: canonv(x) for f, x in v.f.items()})
        for k, fn in CANON.items():
            if v.cls == k or str(v.cls).startswith(k + '<'): return fn(o)
        return o
    if isinstance(v, Map):
        d = {}
        for k, x in v.d.values(): k = canonv(k); d[digest(k)] = (k, canonv(x))
        return Map(d)
    if isinstance(v, Ptr):
        return Ptr(v.k, *[canonv(x) for x in v.a])
    return v

class Frame(object):
    __slots__ = ('vars', 'vals', 'memo', 'up')
    def __init__(self, vars, vals, up): self.vars = vars; self.vals = vals; self.memo = {}; self.up = up

class Model(object):
    """one random model: deterministic function of (seed, knobs)"""
    def __init__(self, prog, seed, consts=(), strs=(), customs=None, eqfun=None):
        self.p = prog; self.seed = seed
        self.rng0 = random.Random(seed)
        self.consts = list(consts); self.strs = list(strs)
        self.customs = customs or {}
        self.eqfun = eqfun
        r = self.rng0
        self.small = r.choice([2, 3, 3, 4, 5])
        self.maxsz = r.choice([1, 2, 3, 4, 5])
        self.pconst = r.choice([0.05, 0.15, 0.4]) if self.consts else 0
        self.pneg = r.choice([0, 0.1, 0.3])
        self.pnull = r.choice([0.05, 0.3, 0.5])
        self.ptrue = r.choice([0.2, 0.5, 0.8])
        self.pool = r.choice([0, 0, 3, 7])                  # values of opaque types: all different, or few that repeat
        self.cache = {}; self.bytype = {}
        self.base = H(b'model', str(seed).encode())
    # ---------------------------------------------------------------- leaves
    def gen(self, ty, key):
        """value of type ty named by the bytes key"""
        # real and complex instances share terms, whose type is that of whichever was met last
        if ty and 'complex' in ty: ty = ty.replace('std::complex<double>', 'double')
        k = (ty, key)
        v = self.cache.get(k)
        if v is None and k not in self.cache:
            v = self.make(ty, random.Random(int.from_bytes(H(self.base, (ty or '?').encode(), key), 'big')), 0)
            self.cache[k] = v
        return v
    def jkind(self, d, elem):
        """kind of the JSON value with digest d: arrays of one or two kinds are the common case"""
        r = random.Random(int.from_bytes(H(self.base, b'jkind', d), 'big'))
        if not elem: return 6 if r.random() < 0.45 else r.randrange(8)
        f = random.Random(int.from_bytes(H(self.base, b'jfav'), 'big')).choice([(3,), (3,), (2,), (2, 3), (2, 3), (3, 4), (4,), (0, 1, 2, 3, 4, 5)])
        return r.choice(f) if r.random() < 0.93 else r.randrange(8)
    def gensym(self, ty, key):
        """value of an input: now and then a near copy of another input of the same type"""
        if ty and 'complex' in ty: ty = ty.replace('std::complex<double>', 'double')
        from engine import strip_t
        t = strip_t(ty); k = (ty, key)
        if k in self.cache: return self.cache[k]
        v = self.gen(ty, key)
        if isinstance(v, int) and not isinstance(v, bool) and 'relate int' in self.customs:
            w = self.customs['relate int'](self, t, v, random.Random(int.from_bytes(H(self.base, b'int', key), 'big')))
            if w is not None: v = self.cache[k] = w
        if isinstance(v, (Obj, tuple, Map)):
            prev = self.bytype.setdefault(t, [])
            r = random.Random(int.from_bytes(H(self.base, b'near', key), 'big')); x = r.random()
            cu = self.customs.get('relate ' + t.split('<')[0])
            if cu is not None and self.bytype and r.random() < (0.85 if 'FSM' in self.bytype else 0.6):
                w = cu(self, t, v, r)
                if w is not None: x = 1; v = self.cache[k] = w
            if prev and x < 0.55:
                o = r.choice(prev)
                if x >= 0.1: o = self.near(t, o, r, 0)
                v = self.cache[k] = o
            prev.append(v)
        return v
    def near(self, t, v, r, d):
        from engine import strip_t, is_vec, is_map, targs
        t = strip_t(t or '?')
        if d > 6: return v
        cu = self.customs.get('near ' + t.split('<')[0])
        if cu is not None: return cu(self, t, v, r, d)
        if isinstance(v, Obj):
            if t.split('<')[0] in self.customs and t.split('<')[0] not in ('CoefRepr', 'OpRepr'): return v
            fs = sorted(v.f)
            if not fs: return v
            f = r.choice(fs); w = dict(v.f); w[f] = self.near(self.p.fieldtype(t, f) if v.cls != 'std::pair' else targs(t)[f == 'second'], w[f], r, d + 1)
            return Obj(v.cls, w)
        if isinstance(v, tuple) and is_vec(t):
            et = (targs(t) or ['?'])[0]; l = list(v); x = r.random()
            if t.startswith('std::array<'): x = 0.9
            if x < 0.2 and l: l.pop(r.randrange(len(l)))
            elif x < 0.4: l.insert(r.randrange(len(l) + 1), self.make(et, r, d + 1))
            elif x < 0.6 and len(l) > 1: i, j = r.sample(range(len(l)), 2); l[i], l[j] = l[j], l[i]
            elif l: i = r.randrange(len(l)); l[i] = self.near(et, l[i], r, d + 1)
            return tuple(l)
        if isinstance(v, Map) and v.d and is_map(t):
            kt, vt = targs(t)[:2]; m = dict(v.d); k = r.choice(sorted(m)); x = r.random()
            if x < 0.25: del m[k]
            elif x < 0.5: a = self.make(kt, r, d + 1); m[digest(a)] = (a, self.make(vt, r, d + 1))
            else: m[k] = (m[k][0], self.near(vt, m[k][1], r, d + 1))
            return Map(m)
        return self.make(t, r, d)
    def make(self, ty, r, d):
        from engine import strip_t, INTS, UNS, FLTS, is_vec, is_str, is_map, is_set, is_pair, targs
        t = strip_t(ty or '?')
        if t == 'bool': return r.random() < self.ptrue
        if t == 'char' or t == 'unsigned char' or t == 'signed char':
            cs = [c for c in self.consts if 32 <= c < 127]
            if cs and r.random() < 0.7: return r.choice(cs)
            return r.choice([0, 65, 90, 97, 98, 122, 48]) if r.random() < 0.8 else r.randrange(32, 127)
        if t in INTS:
            if self.consts and r.random() < self.pconst:
                v = r.choice(self.consts) + r.choice([-1, 0, 0, 1])
                return v if t not in UNS or v >= 0 else 0
            if t not in UNS and r.random() < self.pneg: return -r.randrange(1, 4)
            if r.random() < 0.03: return r.randrange(0, 200)
            return r.randrange(0, self.small + 1)
        if t in FLTS or t.startswith('std::complex'):
            return r.choice([0, 0, 1, -1, 2, Fraction(1, 2), 3, Fraction(-3, 2), Fraction(1, 10 ** 6), 7])
        if t in self.p.P['enums']:
            vs = [x['v'] for x in self.p.P['enums'][t]]
            return r.choice(vs) if vs else r.randrange(0, 16)
        cu = self.customs.get(t.split('<')[0])
        if cu is not None and d < 6:
            v = cu(self, t, r, d)
            if v is not NotImplemented: return v
        if is_vec(t):
            et = (targs(t) or ['?'])[0]
            if t.startswith('std::array<'): n = int(targs(t)[1])
            else: n = r.randrange(0, self.maxsz + 1) if d < 5 else 0
            if strip_t(et) in ('int', 'long', 'unsigned long') and r.random() < 0.25: # permutation-like contents
                x = list(range(n)); r.shuffle(x); return tuple(x)
            return tuple(self.make(et, r, d + 1) for _ in range(n))
        if is_str(t):
            if self.strs and r.random() < 0.4: return tuple(ord(c) for c in r.choice(self.strs))
            return tuple(r.choice([97, 98, 99, 49]) for _ in range(r.randrange(0, 4)))
        if is_map(t):
            kt, vt = targs(t)[:2]
            m = {}
            for _ in range(r.randrange(0, self.maxsz + 1) if d < 5 else 0):
                k = self.make(kt, r, d + 1); m[digest(k)] = (k, self.make(vt, r, d + 1))
            return Map(m)
        if is_set(t):
            kt = targs(t)[0]; m = {}
            for _ in range(r.randrange(0, self.maxsz + 1) if d < 5 else 0):
                k = self.make(kt, r, d + 1); m[digest(k)] = (k, True)
            return Map(m)
        if is_pair(t):
            a = targs(t); return Obj('std::pair', {'first': self.make(a[0], r, d + 1), 'second': self.make(a[1], r, d + 1)})
        if t.endswith('*'):
            if t.startswith('const char') or t == 'char *': return self.make('std::string', r, d)
            if r.random() < self.pnull: return None
            return Ptr('ptr', Tok(t, H(str(r.random()).encode())))
        rec = self.p.R.get(t)
        if rec is not None and d < 6:
            fs = TM.FIELDS.get(t)
            if fs:
                return Obj(t, {f: self.make(self.p.fieldtype(t, f), r, d + 1) for f in fs})
        if self.pool: return Tok(t, H(t.encode(), b'pool', str(r.randrange(self.pool)).encode()))
        return Tok(t, H(t.encode(), str(r.random()).encode()))

class Ev(object):
    kleene = lucky = False
    LIMIT = 400
    def __init__(self, model, budget=400000):
        self.m = model
        self.root = Frame(frozenset(), {}, None)
        self.budget = budget
        self.lams = set()
        self.maxn = 0
        self.over = {}
    def num(self, v):
        if v is True: return 1
        if v is False: return 0
        if isinstance(v, (int, Fraction)): return v
        if v is POISON or v is UNINIT: raise Undef('num')
        if v is None: return 0
        if isinstance(v, float): return Fraction(v)
        if isinstance(v, Tok):    # unmodelled numeric type: a random field element
            return Fraction(int.from_bytes(v.d[:5], 'big') % 1000003, 1)
        if isinstance(v, tuple) and v and v[0] == 'it': return v[2]
        raise Undecided('num %r' % (v,))
    def ty(self, t):
        return TM.TYP.get(t) or TM.CLS.get(t)
    def ev(self, t, fr=None):
        """value of term t; raises Undef when it depends on an undefined value"""
        if fr is None: fr = self.root
        f = fr
        fv = t.fv
        while f.up is not None and not (fv & f.vars): f = f.up
        r = f.memo.get(t, self)
        if r is self:
            self.budget -= 1
            if self.budget < 0: raise Budget()
            if t in self.over: r = self.over[t]
            elif t.fv and f.up is None and not self.over: raise Undecided('free variable in ' + show(t)[:80])
            else:
                m = getattr(self, 'e_' + t.h, None)
                if m is None: raise Undecided('head ' + t.h)
                try: r = m(t, f)
                except Undef: r = POISON
            f.memo[t] = r
        if r is POISON: raise Undef(t.h)
        return r
    def sv(self, t, fr):
        """value that may be undefined as a whole"""
        try: return self.ev(t, fr)
        except Undef: return POISON
    def any(self, x, fr):
        if isinstance(x, T): return self.ev(x, fr)
        if isinstance(x, tuple): return tuple(self.any(y, fr) for y in x)
        return x
    def truth(self, v):
        if v is True or v is False: return v
        if v is None: return False
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, Ptr): return True
        if isinstance(v, Tok): return bool(v.d[0] & 1)
        if isinstance(v, tuple): return True
        if v is UNINIT: raise Undef()
        raise Undecided('truth %r' % (v,))
    def cond(self, t, fr): return self.truth(self.ev(t, fr))
    # ---------------------------------------------------------------- heads
    def e_c(self, t, fr): return t.a[0] if not isinstance(t.a[0], float) else Fraction(t.a[0])
    def e_b(self, t, fr): return t.a[0]
    def e_s(self, t, fr): return tuple(ord(c) for c in t.a[0])
    def e_null(self, t, fr): return None
    def e_void(self, t, fr): return 'void'
    def e_noreturn(self, t, fr): return 'noreturn'
    def e_manip(self, t, fr): return 'manip'
    def e_mend(self, t, fr): return 'mend'
    def e_imag(self, t, fr): return Fraction(1000003, 7)
    def e_p(self, t, fr):
        r = 0
        for m, c in t.a[0]:
            x = c if not isinstance(c, float) else Fraction(c)
            for f in m: x = x * self.num(self.ev(f, fr))
            r = r + x
        return r
    def e_ite(self, t, fr):
        try: c = self.cond(t.a[0], fr)
        except Undef:       # the order of the tests in the normal form is not that of the program
            if not self.kleene: raise
            a, b = self.ev(t.a[1], fr), self.ev(t.a[2], fr)
            if a is b or digest(a) == digest(b): self.lucky = True; return a
            raise
        return self.ev(t.a[1] if c else t.a[2], fr)
    def e_le0(self, t, fr): return self.num(self.ev(t.a[0], fr)) <= 0
    def e_lt0(self, t, fr): return self.num(self.ev(t.a[0], fr)) < 0
    def e_eq(self, t, fr):
        a, b = self.ev(t.a[0], fr), self.ev(t.a[1], fr)
        if a is UNINIT or b is UNINIT or has_poison(a) or has_poison(b): raise Undef()
        if isinstance(a, (Tok,)) != isinstance(b, (Tok,)) and (isinstance(a, (int, Fraction)) or isinstance(b, (int, Fraction))):
            return self.num(a) == self.num(b)
        if (a is None and b == 0 and not isinstance(b, tuple)) or (b is None and a == 0 and not isinstance(a, tuple)): return True
        return digest(a) == digest(b)
    def e_idiv(self, t, fr):
        a, b = self.num(self.ev(t.a[0], fr)), self.num(self.ev(t.a[1], fr))
        if b == 0: raise Undef()
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
        return Fraction(a) / b
    def e_mod(self, t, fr):
        a, b = self.num(self.ev(t.a[0], fr)), self.num(self.ev(t.a[1], fr))
        if b == 0: raise Undef()
        return a % b
    def e_inv(self, t, fr):
        a = self.num(self.ev(t.a[0], fr))
        if a == 0: raise Undef()
        return Fraction(1) / a
    def e_trunc(self, t, fr):
        a = self.num(self.ev(t.a[0], fr)); return int(a)
    def leaf(self, t, fr):
        return self.m.gen(self.ty(t) or '?', digest(repr(t.a)))
    def e_sym(self, t, fr): return self.m.gensym(self.ty(t) or '?', digest(repr(t.a)))
    e_glob = leaf
    def e_uninit(self, t, fr): return UNINIT
    def e_uninitobj(self, t, fr): return UNINIT
    def e_junk(self, t, fr): return tuple([POISON] * max(0, int(self.num(self.ev(t.a[0], fr)))))
    def e_badkey(self, t, fr): raise Undef('end position')
    def e_dflt(self, t, fr): return Tok(t.a[0], H(b'dflt', t.a[0].encode()))
    def e_zero(self, t, fr):
        fs = TM.FIELDS.get(t.a[0])
        if fs: return Obj(t.a[0], {f: UNINIT for f in fs})
        return Tok(t.a[0], H(b'zero', t.a[0].encode()))
    def e_zf(self, t, fr): return UNINIT
    def e_fld(self, t, fr):
        o = self.ev(t.a[0], fr); f = t.a[1]
        if isinstance(o, Obj):
            if f in o.f:
                v = o.f[f]
                return v
            return self.m.gen(self.ty(t) or '?', H(b'fld', digest(o), f.encode()))
        if isinstance(o, tuple) and len(o) == 2 and f in ('first', 'second'): return o[f == 'second']
        if o is UNINIT: return UNINIT
        return self.m.gen(self.ty(t) or '?', H(b'fld', digest(o), f.encode()))
    def e_obj(self, t, fr):
        b = t.a[0]
        over = {f: self.sv(v, fr) for f, v in t.a[1]}
        if b.h == 'zero':
            fs = TM.FIELDS.get(b.a[0]) or ()
            d = {f: UNINIT for f in fs}; d.update(over)
            return Obj(b.a[0], d)
        o = self.ev(b, fr)
        if isinstance(o, Obj):
            d = dict(o.f); d.update(over); return Obj(o.cls, d)
        if o is UNINIT: return Obj('?', over)
        return Obj('?', dict(over, **{'$base': o}))
    def e_pair(self, t, fr): return Obj('std::pair', {'first': self.sv(t.a[0], fr), 'second': self.sv(t.a[1], fr)})
    # sequences
    def seq(self, v):
        if isinstance(v, tuple): return v
        if v is UNINIT or v is POISON: raise Undef()
        if isinstance(v, Map): return tuple(v.keys())
        if isinstance(v, Obj) and '$base' in v.f: return self.seq(v.f['$base'])
        if isinstance(v, Tok): return v
        raise Undecided('seq %r' % (v,))
    def e_size(self, t, fr):
        v = self.ev(t.a[0], fr)
        if isinstance(v, Map): return len(v.d)
        v = self.seq(v)
        if isinstance(v, Tok): return self.m.gen('unsigned long', H(b'size', v.d))
        return len(v)
    def e_at(self, t, fr):
        s = self.seq(self.ev(t.a[0], fr)); i = self.num(self.ev(t.a[1], fr))
        if isinstance(s, Tok): return self.m.gen(self.ty(t) or '?', H(b'at', s.d, digest(i)))
        if not isinstance(i, int):
            if i.denominator != 1: raise Undef()
            i = int(i)
        if i < 0 or i >= len(s): raise Undef('range')
        return s[i]
    def e_cat(self, t, fr):
        out = []
        for p in t.a[0]:
            if p.h == 'lit1': out.append(self.sv(p.a[0], fr))
            else:
                v = self.seq(self.ev(p, fr))
                if isinstance(v, Tok): return Tok('cat', H(b'cat', *[digest(self.any(x, fr)) for x in t.a[0]]))
                out.extend(v)
        if len(out) > 5000: raise Budget()
        return tuple(out)
    def e_lit1(self, t, fr): return self.ev(t.a[0], fr)
    def e_slice(self, t, fr):
        s = self.seq(self.ev(t.a[0], fr)); a = self.num(self.ev(t.a[1], fr)); b = self.num(self.ev(t.a[2], fr))
        if isinstance(s, Tok): return Tok('slice', H(b'slice', s.d, digest(a), digest(b)))
        if a < 0 or b > len(s) or a > b: raise Undef('slice')
        return s[int(a):int(b)]
    def e_upd(self, t, fr):
        s = self.seq(self.ev(t.a[0], fr)); i = self.num(self.ev(t.a[1], fr))
        v = self.sv(t.a[2], fr)
        if isinstance(s, Tok): return Tok('upd', H(b'upd', s.d, digest(i), digest(v)))
        if i < 0 or i >= len(s): raise Undef('upd range')
        s = list(s); s[int(i)] = v
        return tuple(s)
    def e_mapvals(self, t, fr):
        m = self.ev(t.a[0], fr); return tuple(Obj('std::pair', {'first': k, 'second': m.d[digest(k)][1]}) for k in m.keys())
    def e_setof(self, t, fr):
        s = self.ev(t.a[0], fr); return Map({digest(x): (x, True) for x in s})
    def rng(self, n, what):
        n = self.num(n)
        if not isinstance(n, int): n = int(n)
        if n > self.LIMIT: raise Budget()
        if n > self.maxn: self.maxn = n
        return range(max(0, n))
    def frame(self, t, fr, vals):
        bs = bvars(t)
        return Frame(frozenset(bs), dict(zip(bs, vals)), fr)
    def e_bv(self, t, fr):
        f = fr
        while f is not None:
            if t in f.vals: 
                v = f.vals[t]
                if v is POISON: raise Undef()
                return v
            f = f.up
        raise Undecided('unbound')
    e_iv = e_bv
    def e_comp(self, t, fr):
        out = []
        for i in self.rng(self.ev(t.a[1][0], fr), 'comp'):
            f = self.frame(t, fr, [i])
            if t.a[2] is TRUE or self.cond(t.a[2], f): out.append(self.sv(t.a[3], f))
        return tuple(out)
    def e_fcomp(self, t, fr):
        out = []
        for i in self.rng(self.ev(t.a[1][0], fr), 'fcomp'):
            out.extend(self.seq(self.ev(t.a[2], self.frame(t, fr, [i]))))
        return tuple(out)
    def e_rupd(self, t, fr):
        k, base, bounds, cond, idx, val = t.a
        s = self.seq(self.ev(base, fr))
        if isinstance(s, Tok): raise Undecided('rupd token')
        s = list(s)
        def go(j, vals):
            if j == k:
                f = self.frame(t, fr, vals)
                if self.cond(cond, f):
                    i = self.num(self.ev(idx, f))
                    if i < 0 or i >= len(s): raise Undef('rupd')
                    s[int(i)] = self.sv(val, f)
                return
            f = self.frame(t, fr, vals + [0] * (k - j))
            for i in self.rng(self.ev(bounds[j], f), 'rupd'): go(j + 1, vals + [i])
        go(0, [])
        return tuple(s)
    def e_sum(self, t, fr):
        r = 0
        for i in self.rng(self.ev(t.a[1][0], fr), 'sum'): r = r + self.num(self.ev(t.a[2], self.frame(t, fr, [i])))
        return r
    def e_prod(self, t, fr):
        r = 1
        for i in self.rng(self.ev(t.a[1][0], fr), 'prod'): r = r * self.num(self.ev(t.a[2], self.frame(t, fr, [i])))
        return r
    def e_any(self, t, fr):
        for i in self.rng(self.ev(t.a[1][0], fr), 'any'):
            if self.cond(t.a[2], self.frame(t, fr, [i])): return True
        return False
    def e_first(self, t, fr):
        n = self.rng(self.ev(t.a[1][0], fr), 'first')
        for i in n:
            if self.cond(t.a[2], self.frame(t, fr, [i])): return i
        return len(n)
    def e_rmap(self, t, fr):
        m = self.ev(t.a[1], fr)
        return Map({d: (k, self.sv(t.a[2], self.frame(t, fr, [k]))) for d, (k, v) in m.d.items()})
    def e_loop(self, t, fr):
        k, N, hc, fe, ups, inits = t.a
        n = None if N.h == 'inf' else self.num(self.ev(N, fr))
        st = [self.sv(x, fr) for x in inits]
        i = 0
        while True:
            if n is not None and i >= n: x = False; break
            f = self.frame(t, fr, [i] + st)
            if hc is not TRUE and not self.cond(hc, f): x = False; break
            if fe is not FALSE and self.cond(fe, f): x = True; break
            st = [self.sv(u, f) for u in ups]
            i += 1
            if i > self.LIMIT: raise Budget('loop')
            if i > self.maxn: self.maxn = i
        return ('loop', i, x, tuple(st))
    def e_proj(self, t, fr):
        r = self.ev(t.a[0], fr)
        j = t.a[1]
        if j == 'n': return r[1]
        if j == 'x': return r[2]
        v = r[3][j]
        if v is POISON: raise Undef()
        return v
    # maps
    def e_map0(self, t, fr): return Map({})
    def mp(self, t, fr):
        m = self.ev(t, fr)
        if isinstance(m, Map): return m
        if isinstance(m, tuple) and not m: return Map({})
        if m is UNINIT: raise Undef()
        return m
    def e_mhas(self, t, fr):
        m = self.mp(t.a[0], fr); k = self.ev(t.a[1], fr)
        if not isinstance(m, Map): return self.m.gen('bool', H(b'mhas', digest(m), digest(k)))
        return digest(k) in m.d
    def e_mget(self, t, fr):
        m = self.mp(t.a[0], fr); k = self.ev(t.a[1], fr)
        if not isinstance(m, Map): return self.m.gen(self.ty(t) or '?', H(b'mget', digest(m), digest(k)))
        if digest(k) not in m.d: raise Undef('key')
        v = m.d[digest(k)][1]
        if v is POISON: raise Undef()
        return v
    def e_mput(self, t, fr):
        m = self.mp(t.a[0], fr); k = self.ev(t.a[1], fr); v = self.sv(t.a[2], fr)
        if not isinstance(m, Map): return Tok('map', H(b'mput', digest(m), digest(k), digest(v)))
        d = dict(m.d); d[digest(k)] = (k, v); return Map(d)
    def e_mins(self, t, fr):
        m = self.mp(t.a[0], fr); k = self.ev(t.a[1], fr)
        if isinstance(m, Map) and digest(k) in m.d: return m
        return self.e_mput(t, fr)
    def e_mdel(self, t, fr):
        m = self.mp(t.a[0], fr); k = self.ev(t.a[1], fr)
        d = dict(m.d); d.pop(digest(k), None); return Map(d)
    def e_mkey(self, t, fr):
        m = self.mp(t.a[0], fr); i = self.num(self.ev(t.a[1], fr))
        if not isinstance(m, Map): return self.m.gen(self.ty(t) or '?', H(b'mkey', digest(m), digest(i)))
        if i < 0 or i >= len(m.d): raise Undef()
        return m.keys()[int(i)]
    def e_mval(self, t, fr):
        m = self.mp(t.a[0], fr); i = self.num(self.ev(t.a[1], fr))
        if not isinstance(m, Map): return self.m.gen(self.ty(t) or '?', H(b'mval', digest(m), digest(i)))
        if i < 0 or i >= len(m.d): raise Undef()
        v = m.d[digest(m.keys()[int(i)])][1]
        if v is POISON: raise Undef()
        return v
    def e_meq(self, t, fr):
        a, b = self.mp(t.a[0], fr), self.mp(t.a[1], fr)
        if not isinstance(a, Map) or not isinstance(b, Map): return digest(a) == digest(b)
        if set(a.d) != set(b.d): return False
        return all(self.veq(a.d[k][1], b.d[k][1], t.a[2]) for k in a.d)
    def veq(self, x, y, ty):
        if has_poison(x) or has_poison(y): raise Undef()
        if digest(x) == digest(y): return True
        e = self.m.eqfun(ty) if self.m.eqfun else None
        if e is None: return False
        term, sa, sb = e
        s = Ev(self.m, self.budget); s.over = {sa: x, sb: y}
        return s.truth(s.ev(term))
    def e_perm(self, t, fr):
        a, b = self.ev(t.a[0], fr), self.ev(t.a[1], fr)
        if has_poison(a) or has_poison(b): raise Undef()
        if isinstance(a, Tok) or isinstance(b, Tok): return digest(a) == digest(b)
        return sorted(digest(x) for x in a) == sorted(digest(x) for x in b)
    def e_lex(self, t, fr):
        a, b = self.ev(t.a[0], fr), self.ev(t.a[1], fr)
        if has_poison(a) or has_poison(b) or UNINIT in (a, b): raise Undef()
        return self.ltv(a, b)
    def ltv(self, a, b):
        """the less-than of a library container: elementwise, with the elements' own less-than"""
        if isinstance(a, tuple) and isinstance(b, tuple) and not (a and a[0] == 'it'): return self.lexlt(a, b)
        if isinstance(a, Map) and isinstance(b, Map):
            ks = lambda m: [m.d[k] for k in sorted(m.d, key=functools.cmp_to_key(lambda x, y: cmpv(m.d[x][0], m.d[y][0])))]
            return self.lexlt([z for kv in ks(a) for z in kv], [z for kv in ks(b) for z in kv])
        if isinstance(a, Obj) and isinstance(b, Obj):
            e = self.m.eqfun(a.cls, '<') if self.m.eqfun else None
            if e is not None:
                term, sa, sb = e
                s = Ev(self.m, self.budget); s.over = {sa: a, sb: b}
                return s.truth(s.ev(term))
            if a.cls == 'std::pair': return self.lexlt([a.f['first'], a.f['second']], [b.f['first'], b.f['second']])
        return cmpv(a, b) < 0
    def lexlt(self, a, b):
        for x, y in zip(a, b):
            if self.ltv(x, y): return True
            if self.ltv(y, x): return False
        return len(a) < len(b)
    def e_exc(self, t, fr): return self.m.gen('bool', H(b'exc', digest(self.ev(t.a[0], fr)), t.a[1].encode()))
    def e_sorted(self, t, fr):
        s = self.seq(self.ev(t.a[0], fr)); key = t.a[1]
        if isinstance(s, Tok): return Tok('sorted', H(b'sorted', s.d))
        if has_poison(s): raise Undef()
        if key.h == 'null': return tuple(sorted(s, key=functools.cmp_to_key(cmpv)))
        body = key.a[0] if key.h == 'cmp' else key
        L, R_ = mk('sym', 'cmpL'), mk('sym', 'cmpR')
        def less(x, y):
            # evaluate the comparator on two elements in the current frame
            e = Ev(self.m, self.budget)
            e.root = Frame(frozenset(), {}, None); e.over = dict(self.over); e.over[L] = x; e.over[R_] = y
            g = Frame(fr.vars, fr.vals, fr.up)
            chain = []; z = fr
            while z is not None: chain.append(z); z = z.up
            up = None
            for z in reversed(chain): up = Frame(z.vars, z.vals, up)
            return e.truth(e.ev(body, up))
        return tuple(sorted(s, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else (1 if less(y, x) else 0))))
    # opaque operations: uninterpreted functions
    def args(self, xs, fr):
        out = []
        for x in xs:
            v = self.any(x, fr)
            if has_poison(v): raise Undef()
            out.append(digest(v))
        return out
    def e_call(self, t, fr):
        n = t.a[0]
        a = self.args(t.a[1:], fr)
        ty = self.ty(t) or '?'
        if n == 'qlten::QLTensor::operator==':
            if a[0] == a[1]: return True
        if len(t.a) == 2 and (n in ('abs', 'fabs') or n.startswith(('qlten::abs', 'std::abs'))):
            x = self.ev(t.a[1], fr)
            if isinstance(x, (int, Fraction)) and not isinstance(x, bool): return abs(x)    # the models hold real values
        if n == 'strcmp':
            x, y = self.ev(t.a[1], fr), self.ev(t.a[2], fr)
            return cmpv(x, y)
        if n == 'json::kind': return self.m.jkind(a[0], t.a[1].h == 'at')
        if n.startswith('json::get ') and isinstance(v := self.m.gen(ty, H(b'call', n.encode(), *a)), int) and not isinstance(v, bool):
            # numbers of a parsed document: only negative ones are signed
            k = self.m.jkind(a[0], t.a[1].h == 'at')
            x = self.m.gen('int', H(b'jsonnum', a[0]))
            if k == 2: return -abs(x) - 1 if not n.endswith('unsigned long') else 2 ** 64 - abs(x) - 1
            if k == 3: return abs(x)
            if k == 1: return abs(x) % 2
            return v
        v = self.m.gen(ty, H(b'call', n.encode(), *a))
        if isinstance(v, int) and not isinstance(v, bool) and v < 0 and COUNT.search(n): v = -v
        return v
    def e_out(self, t, fr):
        a = self.args(t.a[2:], fr)
        if t.a[0] in ('MPI_Comm_size', 'MPI_Comm_rank') and t.a[1] == 1:
            # a rank lies below the number of processes, of which there is at least one
            n = abs(self.m.gen('int', H(b'MPI_Comm_size', a[0]))) + 1
            return n if t.a[0] == 'MPI_Comm_size' else abs(self.m.gen('int', H(b'MPI_Comm_rank', a[0]))) % n
        return self.m.gen(self.ty(t) or '?', H(b'out', t.a[0].encode(), str(t.a[1]).encode(), *a))
    def e_opget(self, t, fr):
        a = self.args(t.a[2], fr); o = self.ev(t.a[1], fr)
        if isinstance(o, Ptr) and o.k == 'opset' and o.a[0] == t.a[0]:
            if o.a[2] == tuple(a): return o.a[3]
            o = o.a[1]
            while isinstance(o, Ptr) and o.k == 'opset' and o.a[0] == t.a[0]:
                if o.a[2] == tuple(a): return o.a[3]
                o = o.a[1]
        return self.m.gen(self.ty(t) or '?', H(b'opget', t.a[0].encode(), digest(o), *a))
    def e_opset(self, t, fr):
        a = tuple(self.args(t.a[2], fr)); o = self.ev(t.a[1], fr); v = self.sv(t.a[3], fr)
        # keep writes to distinct keys order independent
        ws = []
        while isinstance(o, Ptr) and o.k == 'opset' and o.a[0] == t.a[0]:
            if o.a[2] != a: ws.append((o.a[2], o.a[3]))
            o = o.a[1]
        ws.append((a, v)); ws.sort(key=lambda x: x[0])
        for k, x in ws: o = Ptr('opset', t.a[0], o, k, x)
        return o
    def e_deref(self, t, fr):
        p = self.ev(t.a[0], fr)
        if p is None: raise Undef('null')
        if isinstance(p, Ptr) and p.k in ('box', 'new', 'pv'): return p.a[-1]
        ty = self.ty(t)
        if not ty:
            tp = self.ty(t.a[0])
            if tp and tp.rstrip().endswith('*'): ty = tp.rstrip()[:-1].strip()
            elif isinstance(p, Ptr) and p.k == 'ptr' and p.a and isinstance(p.a[0], Tok): ty = p.a[0].ty.rstrip().rstrip('*').strip()
        return self.m.gen(ty or '?', H(b'deref', digest(p)))
    def e_new(self, t, fr): return Ptr('new', self.sv(t.a[0], fr), self.sv(t.a[1], fr))
    def e_box(self, t, fr): return Ptr('box', self.sv(t.a[0], fr))
    def e_pv(self, t, fr): return Ptr('pv', self.sv(t.a[0], fr))
    def e_ref(self, t, fr):
        root = t.a[0]
        rr = (root[0],) + tuple(self.any(x, fr) if isinstance(x, T) else str(x) for x in root[1:])
        return Ptr('ref', rr, self.any(t.a[1], fr))
    def e_it(self, t, fr): return ('it', self.any(t.a[0], fr), self.ev(t.a[1], fr))
    e_rit = e_it
    def e_mit(self, t, fr):
        pos = t.a[1]
        m = self.ev(t.a[2], fr)
        def go(pos):
            if pos.h == 'ite': return go(pos.a[1] if self.cond(pos.a[0], fr) else pos.a[2])
            if pos.h == 'mend': return 'mend'
            if pos.h == 'bykey': return self.ev(pos.a[0], fr)
            i = self.num(self.ev(pos, fr))
            if i >= len(m.d): return 'mend'
            return m.keys()[int(i)]
        return ('mit', self.any(t.a[0], fr), go(pos))
    def e_bykey(self, t, fr): return ('bykey', self.ev(t.a[0], fr))
    def e_fn(self, t, fr): return ('fn', t.a[0])
    def e_lam(self, t, fr): self.lams.add(t); return ('lam',)
    def e_tostr(self, t, fr):
        v = self.ev(t.a[0], fr); return tuple(ord(c) for c in str(self.num(v)))
    def text(self, v):
        if isinstance(v, tuple) and all(isinstance(c, int) for c in v): return ''.join(chr(c % 1114111) if c >= 0 else '?' for c in v)
        if isinstance(v, (int, Fraction)): return '\x01%s\x01' % v
        return '\x02%s\x02' % digest(v).hex()
    def e_sout(self, t, fr):
        b = self.ev(t.a[0], fr)
        toks = ''
        if isinstance(b, tuple) and b and b[0] == 'sout': toks = b[2]; b = b[1]
        for x in t.a[1:]:
            v = self.sv(x, fr)
            if v == 'manip': continue
            if v is POISON: raise Undef()
            toks += self.text(v)
        return ('sout', b, toks)
    def e_strcat(self, t, fr): return self.seq(self.ev(t.a[0], fr)) + self.seq(self.ev(t.a[1], fr))
    def e_bitop(self, t, fr):
        a, b = self.num(self.ev(t.a[1], fr)), self.num(self.ev(t.a[2], fr))
        if not isinstance(a, int) or not isinstance(b, int): return self.m.gen('int', H(b'bitop', digest(a), digest(b), t.a[0].encode()))
        if t.a[0] in ('<<', '>>') and not 0 <= b < 64: raise Undef()
        return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 64 else 0, '>>': a >> b if b < 64 else 0}[t.a[0]]
    def e_rethrow(self, t, fr): return 'rethrow'
    def e_exception(self, t, fr): return 'exception'
    def e_ev(self, t, fr):
        return ('ev',) + tuple(self.sv(x, fr) if isinstance(x, T) else x for x in t.a)
