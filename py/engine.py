"""Abstract interpretation of the type-checked AST in the value-number domain of terms.py.

Control-flow joins become gated values (decision trees over canonical atoms); loops become closed forms
(comprehensions, range updates, sums, searches) by recurrence analysis, with `loop` recurrences as the
fall back.  No path is enumerated and no input is chosen."""
import itertools, re, os
from fractions import Fraction as Fr
from terms import *
import terms as TM

INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char', '__int128'}
UNS = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short', 'unsigned char'}
FLTS = {'float', 'double', 'long double'}

def strip_t(t):
    t = (t or '').strip()
    ch = True
    while ch:
        ch = False
        if t.endswith('&&'): t = t[:-2].strip(); ch = True
        elif t.endswith('&'): t = t[:-1].strip(); ch = True
        if t.startswith('const ') and not t.endswith('*'): t = t[6:]; ch = True
        if t.startswith('volatile ') and not t.endswith('*'): t = t[9:]; ch = True
        if t.endswith(' const'): t = t[:-6].strip(); ch = True
        if t.endswith('restrict'): t = t[:-8].rstrip('_').strip(); ch = True
    return t
def is_ref_t(t): return (t or '').strip().endswith('&')
def targs(t):
    """template arguments of a printed type"""
    i = t.find('<')
    if i < 0: return []
    out = []; d = 0; cur = ''
    for c in t[i:]:
        if c in '<([': 
            d += 1
            if d == 1 and c == '<': continue
        elif c in '>)]':
            d -= 1
            if d == 0: break
        if c == ',' and d == 1: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def is_vec(t): return t.startswith('std::vector<') or t.startswith('std::deque<') or t.startswith('std::list<') or t.startswith('std::array<')
def is_str(t): return t.startswith('std::basic_string<') or t == 'std::string'
def is_map(t): return t.startswith('std::map<') or t.startswith('std::unordered_map<')
def is_set(t): return t.startswith('std::set<') or t.startswith('std::unordered_set<')
def is_pair(t): return t.startswith('std::pair<')
def is_viter(t): return '__normal_iterator<' in t.split('(')[0] and t.startswith('__gnu_cxx::')
def is_miter(t): return t.startswith('std::_Rb_tree_')
def is_ptr(t): return t.endswith('*')

class Unsupported(Exception): pass

def poskey(m, pos):
    """key an iterator position refers to (the end position has none)"""
    if pos.h == 'bykey': return pos.a[0]
    if pos is MEND: return mk('badkey')
    if pos.h == 'ite':
        x, y = poskey(m, pos.a[1]), poskey(m, pos.a[2])
        if x.h == 'badkey': return y
        if y.h == 'badkey': return x
        return ite(atom(pos.a[0]), x, y)
    return mkey(m, pos)
class St(object):
    __slots__ = ('mem', 'pc')
    def __init__(self, mem=None, pc=TRUE): self.mem = mem if mem is not None else {}; self.pc = pc
    def fork(self): return St(dict(self.mem), self.pc)

def common_prefix(x, y):
    px = list(x.a[0]) if x.h == 'cat' else [x]
    py = list(y.a[0]) if y.h == 'cat' else [y]
    k = 0
    while k < len(px) and k < len(py) and px[k] is py[k]: k += 1
    return px[:k], px[k:], py[k:]
def isseq(t): return t.h in SEQ
def gate(sel, a, b):
    """ite with factoring of common sequence prefixes / object structure"""
    if a is b: return a
    if sel is TRUE: return a
    if sel is FALSE: return b
    if a.h == 'obj' or b.h == 'obj':
        ba = a.a[0] if a.h == 'obj' else a
        bb = b.a[0] if b.h == 'obj' else b
        if ba is bb:
            da = dict(a.a[1]) if a.h == 'obj' else {}
            db = dict(b.a[1]) if b.h == 'obj' else {}
            out = {}
            for f in sorted(set(da) | set(db)):
                out[f] = gate(sel, da.get(f) or field(ba, f), db.get(f) or field(ba, f))
            return obj(ba, out)
    if a.h == 'pair' and b.h == 'pair': return pair(gate(sel, a.a[0], b.a[0]), gate(sel, a.a[1], b.a[1]))
    if a.h == 'it' and b.h == 'it' and a.a[0] is b.a[0]: return mk('it', a.a[0], gate(sel, a.a[1], b.a[1]))
    if isseq(a) or isseq(b):
        p, x, y = common_prefix(a, b)
        if p and (x or y) and a.h != 'ite' and b.h != 'ite':
            return cat(*(p + [ite(sel, cat(*x), cat(*y))]))
    return ite(sel, a, b)

CURENG = None
def merge(a, b):
    if a is None: return b
    if b is None: return a
    if a.pc is FALSE: return b
    if b.pc is FALSE: return a
    care = or_(a.pc, b.pc)
    sel = restrict(a.pc, care)
    mem = {}
    for r in a.mem.keys() | b.mem.keys():
        if r not in a.mem or r not in b.mem:
            if r[0] in ('ev', 'alloc', 'h', 'g', 'wrap'):       # persistent location untouched on one side: it keeps its initial value there
                x = a.mem[r] if r in a.mem else CURENG.rootval(a, r)
                y = b.mem[r] if r in b.mem else CURENG.rootval(b, r)
                mem[r] = x if x is y else gate(sel, x, y); continue
            mem[r] = b.mem[r] if r not in a.mem else a.mem[r]; continue
        x, y = a.mem[r], b.mem[r]
        mem[r] = x if x is y else gate(sel, x, y)
    return St(mem, care)

def topconst(t):
    return t[6:] if t.startswith('const ') and not t.rstrip().endswith(('&', '*')) else t
LAMRE = re.compile(r'lambda at [^)]*')
class Prog(object):
    def __init__(self, P):
        self.P = P
        self.F = P['functions']; self.R = P['records']; self.G = {}
        for g in P['globals'].values(): self.G.setdefault(g['q'], g)
        self.byq = {}
        for k, f in self.F.items(): self.byq.setdefault(f['q'], []).append(k)
        self.bykey = {}; self.keyof = {}
        seen = {}
        for k, f in sorted(self.F.items(), key=lambda kf: (bool(kf[1].get('const')), kf[1].get('file') or '', kf[1].get('line') or 0, int(kf[0][1:]))):
            b = '%s(%s)|%s|%s' % (LAMRE.sub('lambda', f['q']), ', '.join(topconst(LAMRE.sub('lambda', x)) for x in f['pt']), LAMRE.sub('lambda', f.get('cls') or ''), LAMRE.sub('lambda', str(f.get('ta') or '')))
            at = (f.get('file'), f.get('line'), f.get('const'))
            l = seen.setdefault(b, [])
            if at not in l: l.append(at)
            n = l.index(at)
            if n: b += '#%d' % n
            f['key'] = b; self.keyof[k] = b; self.bykey.setdefault(b, f)
        for c, r in self.R.items():
            fs = []
            def collect(c):
                rr = self.R.get(c)
                if not rr: return
                for b in rr['bases']: collect(b)
                for x in rr['fields']: fs.append(x['n'])
            collect(c)
            FIELDS[c] = fs
    def frozen(self, q):
        """a variable of static storage that no function of the program can modify"""
        if not hasattr(self, '_mut'):
            self._mut = mut = set()
            def use(x, par, f):
                for i in range(len(par) - 1, -1, -1):
                    p, c = par[i], (par[i + 1] if i + 1 < len(par) else x)
                    k = p.get('k')
                    if k == 'cast' and p.get('ck') == 'LValueToRValue': return
                    if k in ('cast', 'paren', 'member', 'cond', 'comma', 'index'): continue
                    if k == 'ret':
                        r = f.get('ret') or ''
                        if r.endswith('&') and not r.startswith('const '): mut.add(x['q'])
                        return
                    if k == 'call':
                        a = p.get('a') or []; pt = p.get('pt') or []
                        for t, y in zip(pt, a[len(a) - len(pt):] if len(a) >= len(pt) else a):
                            if y is c:
                                if t.endswith('&') and not t.startswith('const ') or t.endswith('*') and not t.startswith('const '): mut.add(x['q'])
                                return
                        if not p.get('mconst') and not (p.get('oo') in ('==', '!=', '<', '<=', '>', '>=')): mut.add(x['q'])
                        return
                    if k == 'ctor':
                        for t, y in zip(p.get('pt') or [], p.get('a') or []):
                            if y is c and t.endswith('&') and not t.startswith('const '): mut.add(x['q'])
                        return
                    if k == 'bin' and p.get('op') in ('==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '%', '&&', '||'): return
                    mut.add(x['q']); return
                mut.add(x['q'])
            def walk(x, par, f):
                if isinstance(x, dict):
                    if x.get('k') == 'ref' and x.get('dk') == 'global': use(x, par, f)
                    for k, v in x.items():
                        if k != '$calls': walk(v, par + [x], f)
                elif isinstance(x, list):
                    for v in x: walk(v, par, f)
            for f in self.F.values():
                walk(f.get('body'), [], f); walk(f.get('inits'), [], f)
        return q in self.G and 'init' in self.G[q] and q not in self._mut
    # ---- effect summaries (transitive over the resolved call graph)
    CH_MPI = ('MPI_',)
    def ext_channels(self, q, n):
        b = base_q(q)
        last = b.split('::')[-1]
        if last.startswith('MPI_') or last.startswith('MPISVD'): 
            return () if last in ('MPI_Comm_rank', 'MPI_Comm_size') else ('mpi',)
        if b in ('remove', 'mkdir', 'rename', 'unlink', 'fopen', 'fclose', 'fwrite', 'fread', 'fputs', 'system', 'access', 'stat'): return () if b in ('access', 'stat') else ('file',)
        if last == 'StreamWrite' or last == 'bfwrite': return ('file',)
        if b.startswith('std::filesystem::'): return ('file',)
        if b in ('raise', 'kill', 'sigaction', 'signal', 'std::atomic::store', 'write', 'abort', '_exit', 'exit'): return ('proc',)
        if last in ('Random', 'rand', 'srand'): return ('rng',)
        if b in ('malloc', 'calloc', 'free', 'realloc'): return ('heap',)
        return ()
    def calls_of(self, k):
        f = self.F[k]
        out = f.get('$calls')
        if out is None:
            out = []; new = [False]
            def walk(x):
                if isinstance(x, dict):
                    kk = x.get('k')
                    if kk in ('call', 'ctor') and x.get('f') or kk == 'ref' and x.get('dk') == 'func' and x.get('f'): out.append(x)
                    if kk in ('new', 'delete'): new[0] = True
                    for kx, v in x.items():
                        if isinstance(v, (dict, list)) and kx != '$calls': walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(f.get('body')); walk(f.get('inits'))
            f['$calls'] = out; f['$heap'] = new[0]
        return out
    def eff(self):
        if hasattr(self, '_eff'): return self._eff
        E = {}
        for k in self.F:
            s = set()
            for c in self.calls_of(k):
                if c['f'] not in self.F and c['k'] == 'call': s |= set(self.ext_channels(c.get('q') or '', c.get('n')))
                if c['k'] == 'ctor' and 'ofstream' in (c.get('t') or ''): s.add('file')
            E[k] = s
        ch = True
        while ch:
            ch = False
            for k in self.F:
                for c in self.calls_of(k):
                    if c['f'] in E and not E[c['f']] <= E[k]: E[k] |= E[c['f']]; ch = True
        self._eff = E
        return E
    def channels(self, e, f):
        if f is not None: return self.eff().get(f['f'], set())
        if e.get('k') == 'ctor': return {'file'} if 'ofstream' in (e.get('t') or '') else set()
        return set(self.ext_channels(e.get('q') or '', e.get('n')))
    # ---- does a method change its object?
    ACCESS = {'begin', 'end', 'data', 'operator[]', 'at', 'front', 'back', 'operator()', 'find', 'operator*', 'operator->', 'rbegin', 'rend', 'c_str'}
    def mutates(self, e, f):
        if f is None: return (e.get('n') not in self.ACCESS)
        return self.mut_this(f['f'])
    def mut_this(self, k, depth=0):
        m = self.__dict__.setdefault('_mutthis', {})
        if k in m: return m[k]
        m[k] = False
        f = self.F[k]
        def rooted(x):
            while isinstance(x, dict):
                kk = x.get('k')
                if kk == 'this': return True
                if kk == 'mem': x = x['b']
                elif kk == 'sub': x = x['b']
                elif kk == 'cast': x = x['e']
                elif kk == 'un' and x['op'] == '*': x = x['e']
                elif kk == 'call' and 'this' in x and x.get('lv'): x = x['this']
                else: return False
            return False
        def walk(x):
            if isinstance(x, dict):
                kk = x.get('k')
                if kk == 'asg' and rooted(x['a']): return True
                if kk == 'un' and x['op'] in ('++', '--') and rooted(x['e']): return True
                if kk == 'delete': return True
                if kk == 'call':
                    g = self.F.get(x.get('f'))
                    if 'this' in x and not x.get('mconst') and not x.get('static') and rooted(x['this']):
                        if g is not None:
                            if self.mut_this(g['f'], depth + 1): return True
                        elif x.get('n') not in self.ACCESS: return True
                    for a, pt in zip(x.get('a', []), x.get('pt', [])):
                        if a and is_ref_t(pt) and not pt.startswith('const ') and not pt.endswith('&&') and rooted(a): return True
                        if a and pt.endswith('*') and not pt.startswith('const ') and a.get('k') == 'un' and a.get('op') == '&' and rooted(a.get('e')): return True
                return any(walk(v) for kx, v in x.items() if isinstance(v, (dict, list)) and kx != '$calls')
            if isinstance(x, list): return any(walk(v) for v in x)
            return False
        r = walk(f.get('body'))
        m[k] = r
        return r
    def fieldtype(self, c, n):
        r = self.R.get(c)
        if not r: return None
        for x in r['fields']:
            if x['n'] == n: return x['t']
        for b in r['bases']:
            t = self.fieldtype(b, n)
            if t: return t
        return None
    def find(self, q, npar=None, pt=None):
        l = [k for k in self.byq.get(q, []) if (npar is None or len(self.F[k]['ps']) == npar) and (pt is None or self.F[k]['pt'] == pt)]
        return l

class Eng(object):
    def __init__(self, prog, opaque=(), numtypes=(), maxdepth=30, pure=(), models=None, noinline=None):
        global CURENG
        CURENG = self
        self.p = prog
        self.opaque = set(opaque)     # fully qualified names
        self.noinline = noinline      # predicate on the function record
        self.numtypes = set(numtypes)
        self.pure = set(pure)
        self.models = models or {}
        self.env = {}
        self.rt = {}                  # root -> type
        self.frames = itertools.count(1)
        self.uid = itertools.count(1)
        self.coll = []
        self.stack = []
        self.lams = {}; self.captured = {}; self.capplace = {}
        self.gmemo = {}
        self.loops = []               # loop records
        self.calls = []               # inlined / opaque calls seen
        self.unks = []
        self.maxdepth = maxdepth
        self.analysed = set()
        self.throwing = True
        self.watch_out = False        # values written to std::cout are observable
        self.asserts = 'noop'         # or 'assume'
        self.scopes = {}              # frame -> open blocks -> local objects with a destructor
        self.dtors = {}
        self.slots = None             # accessors of collections read as pure places
        self.opset = set()            # ids of functions kept opaque

    # ------------------------------------------------------------ typing of leaves
    def typed(self, t, ty):
        if not ty: return t
        h = t.h
        if h in ('c', 'p', 'b', 'ite', 'obj', 'cat', 'ref', 's', 'null', 'pair', 'it', 'mit'): return t
        ty = strip_t(ty)
        if t not in TYP: TYP[t] = ty
        if ty == 'bool': BOOLTYPED.add(t)
        elif ty in INTS:
            NUMTYPED.add(t)
            if ty in UNS and TYP[t] in UNS: NONNEG.add(t)
        elif ty in FLTS or ty in self.numtypes: NUMTYPED.add(t)
        elif ty.endswith('*'): PTRS.add(t)
        elif ty in self.p.R and t not in CLS: CLS[t] = ty
        elif ty in self.p.P['enums']: NUMTYPED.add(t)
        return t
    def unk(self, why):
        self.unks.append(why)
        return mk('unk', next(self.uid), why)

    # ------------------------------------------------------------ memory
    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is not None: return v
        if root[0] == 'h':
            p = root[1]
            if p.h in ('new', 'box'): return p.a[-1]
            return mk('deref', p)
        if root[0] == 'g': return self.globalval(root[1])
        if root[0] == 'ev': return EMPTY
        if root[0] == 'alloc': return ZERO
        if root[0] == 'wrap': return FALSE
        v = self.typed(mk('uninit', str(root)), self.rt.get(root))
        return v
    def read(self, st, pl):
        if pl.h == 'ite': return gate(atom(pl.a[0]), self.read(st, pl.a[1]), self.read(st, pl.a[2]))
        if pl.h != 'ref': return self.rootval(st, ('h', pl))
        v = self.rootval(st, pl.a[0])
        return self.rpath(v, pl.a[1])
    def rpath(self, v, path):
        i = 0
        while i < len(path):
            k, x = path[i]
            if k == 'f': v = field(v, x)
            elif k == 'i': v = at(v, x)
            elif k == 'k': v = mget(v, x)
            elif k == 'op': v = opget(x[0], v, x[1])
            elif k == 'mp':
                if i + 1 < len(path):
                    if path[i + 1] == ('f', 'first'): v = x
                    else: v = mget(v, x)
                    i += 1
                else: v = pair(x, mget(v, x))
            i += 1
        return v
    def wpath(self, v, path, nv):
        if not path: return nv
        k, x = path[0]
        rest = path[1:]
        if k == 'f': return setfield(v, x, self.wpath(field(v, x), rest, nv)) if rest else setfield(v, x, nv)
        if k == 'i': return upd(v, x, self.wpath(at(v, x), rest, nv)) if rest else upd(v, x, nv)
        if k == 'k': return mput(v, x, self.wpath(mget(v, x), rest, nv)) if rest else mput(v, x, nv)
        if k == 'op': return opset(x[0], v, x[1], self.wpath(opget(x[0], v, x[1]), rest, nv) if rest else nv)
        if k == 'mp':
            if rest and rest[0] == ('f', 'second'): rest = rest[1:]
            elif rest: return mk('unk', next(self.uid), 'write map key')
            else: nv = field(nv, 'second')
            return mput(v, x, self.wpath(mget(v, x), rest, nv)) if rest else mput(v, x, nv)
    def write(self, st, pl, v):
        if pl.h == 'ite':
            c = atom(pl.a[0])
            for q, cc in ((pl.a[1], c), (pl.a[2], not_(c))):
                self.write(st, q, gate(cc, v, self.read(st, q)))
            return
        if pl.h != 'ref': st.mem[('h', pl)] = v; return
        r = pl.a[0]
        if r[0] == 'g': v = self.box(st, v)
        if not pl.a[1]: st.mem[r] = v
        else: st.mem[r] = self.wpath(self.rootval(st, r), pl.a[1], v)
    def box(self, st, v):
        """a pointer to storage allocated here, seen from outside: a fresh object with that content"""
        for _ in range(4):
            ns = [x for x in subterms(v) if x.h == 'new']
            if not ns: return v
            v = subst(v, {x: mk('box', self.rootval(st, ('h', x))) for x in ns})
        memo = {}
        def go(t):                                   # what is left stands under the binder of a sequence
            if t not in memo: memo[t] = mk('box', go(self.rootval(st, ('h', t)))) if t.h == 'new' else rebuild(t, go)
            return memo[t]
        if any(x.h == 'new' for x in subterms(v)): v = go(v)
        return v
    def seen(self, st, v, every=True):
        """a value holding addresses, as its reader sees it: with what lies there (every=False: only where the place is local)"""
        for _ in range(3):
            if not any(x.h == 'ref' and (every or x.a[0][0] in ('v', 'tmp', 'ret')) for x in subterms(v)): return v
            memo = {}
            def go(t):
                if t in memo: return memo[t]
                if t.h == 'ref' and (every or t.a[0][0] in ('v', 'tmp', 'ret')): r = mk('pv', self.read(st, t))
                elif t.h in ('it', 'mit', 'rit', 'lam', 'binserter', 'ref'): r = t
                else: r = rebuild(t, go)
                memo[t] = r
                return r
            w = go(v)
            if w is v: return v
            v = w
        return v
    def ref(self, root, path=()): return mk('ref', root, tuple(path))
    def sub(self, pl, *el):
        if pl.h == 'ite': return ite(atom(pl.a[0]), self.sub(pl.a[1], *el), self.sub(pl.a[2], *el))
        if pl.h != 'ref': return self.ref(('h', pl), el)
        return self.ref(pl.a[0], pl.a[1] + tuple(el))
    def deref(self, p):
        """place designated by a pointer value"""
        if p.h == 'ite': return ite(atom(p.a[0]), self.deref(p.a[1]), self.deref(p.a[2]))
        if p.h == 'ref': return p
        return self.ref(('h', p))
    def temp(self, st, v, ty=None):
        r = ('tmp', next(self.uid))
        st.mem[r] = v
        if ty: self.rt[r] = ty
        return self.ref(r)
    def globalval(self, gid):
        if gid in self.gmemo: return self.gmemo[gid]
        g = self.p.G.get(gid)
        v = None
        if gid == 'qlten::kDoubleEpsilon': v = C(Fr(1, 10**15))           # the library's documented constant
        elif g is None: v = mk('glob', gid)
        elif 'init' in g and (g.get('const') or (g['t'] or '').startswith('const ') or self.p.frozen(gid)):
            if 'v' in g: v = C(g['v']) if strip_t(g['t']) != 'bool' else B(g['v'])
            else:
                st = St(); oc = self.coll; self.coll = []; op = getattr(self, 'opset', None)
                if op is not None: self.opset = set()
                try: v = self.init_value(g['init'], g['t'], st, 0)
                finally:
                    self.coll = oc
                    if op is not None: self.opset = op
        else: v = mk('glob', g['q'])
        self.typed(v, g and g.get('t'))
        self.gmemo[gid] = v
        return v
    def default(self, ty, st, depth=0):
        t = strip_t(ty)
        if t in INTS or t in FLTS or t in self.numtypes or t in self.p.P['enums']: return ZERO
        if t == 'bool': return FALSE
        if is_vec(t) or is_str(t):
            if t.startswith('std::array<'):
                a = targs(t); return fill(C(int(a[1])), self.default(a[0], st))
            return EMPTY
        if is_map(t) or is_set(t): return MAP0
        if is_pair(t):
            a = targs(t); return pair(self.default(a[0], st), self.default(a[1], st))
        if t.endswith('*'): return NULL
        if t in self.p.R:
            for k in self.p.byq.get(self.p.R[t]['q'] + '::' + self.p.R[t]['q'].split('::')[-1].split('<')[0], []) + self.ctors(t):
                f = self.p.F[k]
                if f['cls'] == t and f.get('kind') == 'ctor' and not f['ps']:
                    return self.construct(f, [], t, st, depth)
            v = mk('zero', t)
            d = {}
            for x in self.p.R[t]['fields']:
                ft = strip_t(x['t'])
                if 'init' in x: d[x['n']] = self.init_value(x['init'], x['t'], st, depth)
                elif not (ft in INTS or ft in FLTS or ft == 'bool' or ft.endswith('*')): d[x['n']] = self.default(ft, st)
            return obj(v, d)
        return mk('dflt', t)
    def ctors(self, t):
        return [k for k, f in self.p.F.items() if f.get('kind') == 'ctor' and f['cls'] == t]

    # ------------------------------------------------------------ frames
    def pl_of_var(self, fr, d):
        e = self.env.get((fr, d))
        if e is None:
            cl = self.env.get((fr, '$up'))
            if cl is not None: return self.pl_of_var(cl, d)
            return None
        return e

    # ------------------------------------------------------------ expressions
    def rv(self, e, st, fr):
        lvv, t = self.ev(e, st, fr)
        if lvv: t = self.read(st, t)
        if t.h == 'ite' and st.pc is not TRUE: t = restrict(t, st.pc)
        if e is not None and 't' in e and not (e.get('k') == 'cast' and e.get('ck') != 'NoOp'): self.typed(t, e['t'])   # a converted value keeps the type of its source
        return t
    def lv(self, e, st, fr):
        lvv, t = self.ev(e, st, fr)
        if lvv: return t
        return self.temp(st, t, e.get('t'))
    def cond(self, e, st, fr):
        c = boolify(self.rv(e, st, fr))
        return restrict(c, st.pc)

    def isfloat(self, t): 
        t = strip_t(t); return t in FLTS or t in self.numtypes or t.startswith('std::complex')
    def ev(self, e, st, fr):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: return False, self.unk('expr ' + k)
        return m(e, st, fr)
    def e_lit(self, e, st, fr):
        lk = e['lk']; v = e['v']
        if lk == 'int': return False, C(int(v))
        if lk == 'char': return False, C(v)
        if lk == 'float':
            f = Fr(str(v)) if abs(v) < 1e300 else None
            return False, (C(f) if f is not None else mk('big', str(v)))
        if lk == 'bool': return False, B(v)
        if lk == 'str': return False, S(v)
        return False, NULL
    def e_zero(self, e, st, fr): return False, self.default(e['t'], st)
    def e_ref(self, e, st, fr):
        dk = e['dk']
        if dk == 'enum': return False, C(e['v'])
        if dk == 'func': return False, mk('fn', self.p.keyof.get(e['f'], e['q']))
        p = self.pl_of_var(fr, e['d'])
        if p is not None: return True, p
        if dk == 'global':
            r = ('g', e['q']); self.rt[r] = e['t']
            return True, self.ref(r)
        r = ('v', fr, e['d']); self.rt[r] = e['t']
        p = self.ref(r); self.env[(fr, e['d'])] = p
        return True, p
    def e_mem(self, e, st, fr):
        b = e['b']
        if e.get('arrow'):
            p = self.deref(self.rv(b, st, fr))
            return True, self.fieldplace(p, e, st)
        lvv, t = self.ev(b, st, fr)
        if lvv: return True, self.fieldplace(t, e, st)
        return False, field(t, e['n'])
    def fieldplace(self, p, e, st):
        if e.get('fref'):   # reference member: holds a place
            v = self.read(st, self.sub(p, ('f', e['n'])))
            return self.deref(v)
        return self.sub(p, ('f', e['n']))
    def e_this(self, e, st, fr):
        p = self.pl_of_var(fr, 'this')
        return False, p if p is not None else self.typed(mk('sym', 'this'), e['t'])
    def e_sub(self, e, st, fr):
        lvb, tb = self.ev(e['b'], st, fr)
        i = self.rv(e['i'], st, fr)
        bt = e['b'].get('t', '')
        if '[' in bt and lvb: return True, self.sub(tb, ('i', i))
        p = self.read(st, tb) if lvb else tb
        if p.h == 'ref' and p.a[1] and p.a[1][-1][0] == 'i':
            q = p.a[1][:-1] + (('i', add(p.a[1][-1][1], i)),)
            return True, self.ref(p.a[0], q)
        return True, self.sub(self.deref(p), ('i', i))
    def e_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            return False, self.lv(e['e'], st, fr)
        if op == '*':
            p = self.rv(e['e'], st, fr)
            if p.h in ('it', 'mit'): return True, self.itplace(p)
            return True, self.deref(p)
        if op == '!': return False, not_(self.rv(e['e'], st, fr))
        if op == '-': return False, neg(self.num(self.rv(e['e'], st, fr)))
        if op == '+': return False, self.rv(e['e'], st, fr)
        if op in ('++', '--'):
            p = self.lv(e['e'], st, fr)
            v = self.num(self.read(st, p))
            n = self.advance(v, ONE if op == '++' else C(-1))
            self.write(st, p, n)
            if e.get('post'): return False, v
            return True, p
        if op == '~': return False, mk('bitnot', self.rv(e['e'], st, fr))
        return False, self.unk('un ' + op)
    def num(self, t):
        if t is TRUE: return ONE
        if t is FALSE: return ZERO
        if t.h == 'ite' and is_bool(t): return ite(t, ONE, ZERO)
        return t
    def advance(self, v, n):
        if v.h == 'it': return mk('it', v.a[0], add(v.a[1], n))
        if v.h == 'mit':
            if v.a[1].h == 'bykey' or v.a[1] is MEND: return self.unk('advance map iterator')
            return mk('mit', v.a[0], add(v.a[1], n), v.a[2])
        if v.h == 'ite' and not is_bool(v): return ite(atom(v.a[0]), self.advance(v.a[1], n), self.advance(v.a[2], n))
        if v.h == 'ref' and v.a[1] and v.a[1][-1][0] == 'i':
            return self.ref(v.a[0], v.a[1][:-1] + (('i', add(v.a[1][-1][1], n)),))
        return add(v, n)
    def itplace(self, it):
        if it.h == 'ite': return ite(atom(it.a[0]), self.itplace(it.a[1]), self.itplace(it.a[2]))
        if it.h == 'it': return self.sub(it.a[0], ('i', it.a[1]))
        if it.h == 'mit':
            pos, m = it.a[1], it.a[2]
            key = poskey(m, pos)
            return self.sub(it.a[0], ('mp', key))
        return self.deref(it)
    def arith(self, op, a, b, ty):
        a, b = self.num(a), self.num(b)
        if a.h in ('it', 'mit') and b.h in ('it', 'mit') and op == '-': return sub(a.a[1], b.a[1])
        if a.h in ('it', 'mit'): return self.advance(a, b if op == '+' else neg(b))
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/': return fdiv(a, b) if self.isfloat(ty) else idiv(a, b)
        if op == '%': return imod(a, b) if strip_t(ty) in UNS or is_nonneg(a) else sub(a, mul(b, idiv(a, b)))     # signed: truncated
        if op == '<<' and b.h == 'c': return mul(a, C(2 ** int(b.a[0])))
        if op == '>>' and b.h == 'c': return idiv(a, C(2 ** int(b.a[0])))
        return mk('bitop', op, a, b)
    def compare(self, op, a, b, flt):
        if a.h in ('it', 'mit') and b.h in ('it', 'mit') and op not in ('==', '!='): a, b = a.a[1], b.a[1]
        if op == '==': return eq(a, b)
        if op == '!=': return not_(eq(a, b))
        a, b = self.num(a), self.num(b)
        if op == '<': return lt(a, b, not flt)
        if op == '>': return lt(b, a, not flt)
        if op == '<=': return le(a, b, not flt)
        if op == '>=': return le(b, a, not flt)
    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'], st, fr)
            if (op == '&&' and a is FALSE) or (op == '||' and a is TRUE): return False, a
            s2 = st.fork(); s2.pc = and_(st.pc, a if op == '&&' else not_(a))
            s2.pc = s2.pc
            other = st.fork(); other.pc = and_(st.pc, not_(a) if op == '&&' else a)
            b = self.cond(e['b'], s2, fr)
            mm = merge(s2, other)
            st.mem = mm.mem; st.pc = mm.pc
            return False, (and_(a, b) if op == '&&' else or_(a, b))
        if op == ',':
            self.ev(e['a'], st, fr)
            return self.ev(e['b'], st, fr)
        a = self.rv(e['a'], st, fr); b = self.rv(e['b'], st, fr)
        ta, tb = e['a'].get('t', ''), e['b'].get('t', '')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if op in ('==', '!=') and (a.h == 'c' or b.h == 'c'): a, b = self.num(a), self.num(b)
            if strip_t(ta) in UNS and strip_t(tb) in UNS:
                if op not in ('==', '!='): self.wraps(st, a); self.wraps(st, b)
                else: self.wraps(st, a, ('wrap', 'eq')); self.wraps(st, b, ('wrap', 'eq'))
            return False, self.compare(op, a, b, self.isfloat(ta) or self.isfloat(tb))
        if op in ('&', '|') and strip_t(ta) == 'bool' and strip_t(tb) == 'bool':
            return False, (and_(a, b) if op == '&' else or_(a, b))
        if op in ('/', '%') and strip_t(e['t']) in UNS: self.wraps(st, a); self.wraps(st, b)
        return False, self.arith(op, a, b, e['t'])
    def wraps(self, st, t, key=('wrap',)):
        """an unsigned operand of an ordering is represented by a difference that may be below zero"""
        if t.h == 'ite': t = restrict(t, st.pc)
        if t.h not in ('p', 'ite', 'c') or is_nonneg(t): return
        if key != ('wrap',) and t.fv: return         # of equality tests only those outside of loops
        old = st.mem.get(key, FALSE)
        if old is TRUE: return
        w = restrict(or_(old, lt0(t)), st.pc)
        if w is not FALSE: st.mem[key] = w
    def e_asg(self, e, st, fr):
        op = e['op']
        if op == '=':
            v = self.rv(e['b'], st, fr)
            p = self.lv(e['a'], st, fr)
            self.write(st, p, v)
            return True, p
        v = self.rv(e['b'], st, fr)
        p = self.lv(e['a'], st, fr)
        old = self.read(st, p); self.typed(old, e['a'].get('t'))
        o = op[:-1]
        if strip_t(e['a'].get('t')) == 'bool' and o in ('&', '|'):
            n = and_(old, v) if o == '&' else or_(old, v)
        else: n = self.arith(o, old, v, e['a'].get('t') if not self.isfloat(e['b'].get('t')) else e['b'].get('t'))
        self.write(st, p, n)
        return True, p
    def branch(self, c, st):
        a = st.fork(); a.pc = and_(st.pc, c)
        b = st.fork(); b.pc = and_(st.pc, not_(c))
        return a, b
    def e_cond(self, e, st, fr):
        c = self.cond(e['c'], st, fr)
        if c is TRUE: return self.ev(e['a'], st, fr)
        if c is FALSE: return self.ev(e['b'], st, fr)
        s1, s2 = self.branch(c, st)
        l1, a = self.ev(e['a'], s1, fr)
        l2, b = self.ev(e['b'], s2, fr)
        if l1 and l2:
            t = ite(c, a, b); lvv = True
        else:
            if l1: a = self.read(s1, a)
            if l2: b = self.read(s2, b)
            t = gate(c, a, b); lvv = False
        mm = merge(s1, s2); st.mem = mm.mem; st.pc = mm.pc
        return lvv, t
    def e_cast(self, e, st, fr):
        ck = e['ck']
        x = e['e']
        if ck == 'BitCast' and x.get('k') == 'call' and x.get('n') in ('malloc', 'calloc') and strip_t(e.get('t', '')).endswith('*'):
            et = strip_t(e['t'])[:-1].strip(); n = None
            if x['n'] == 'malloc':
                fs = []
                def factors(y):
                    while y.get('k') == 'cast': y = y['e']
                    if y.get('k') == 'bin' and y.get('op') == '*': factors(y['a']); factors(y['b'])
                    else: fs.append(y)
                factors(x['a'][0])
                sz = [y for y in fs if y.get('sizeof')]
                if len(sz) == 1 and sz[0]['sizeof'] == et:
                    n = ONE
                    for y in fs:
                        if y is not sz[0]: n = mul(n, self.rv(y, st, fr))
            elif x['a'][1].get('sizeof') == et: n = self.rv(x['a'][0], st, fr)
            if n is not None:
                r = ('alloc',); c = st.mem.get(r, ZERO)
                st.mem[r] = add(c, ONE); self.rt[r] = 'unsigned long'
                ptr = mk('new', c, fill(n, self.default(et, st)))
                self.event(st, 'heap', S(x['n']), ptr)
                return False, ptr
        v = self.rv(x, st, fr)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'): return False, boolify(v)
        if ck == 'IntegralCast' or ck == 'IntegralToFloating': return False, self.num(v)
        if ck == 'FloatingToIntegral':
            if v.h == 'c': return False, C(int(v.a[0]))
            return False, mk('trunc', v)
        return False, v
    def e_il(self, e, st, fr):
        t = strip_t(e.get('t', ''))
        if t in self.p.R:
            d = {}
            for f, x in zip(FIELDS[t], e['a']): d[f] = self.init_value(x, self.p.fieldtype(t, f), st, fr)
            return False, obj(mk('zero', t), d)
        if is_pair(t) and len(e['a']) == 2: return False, pair(self.rv(e['a'][0], st, fr), self.rv(e['a'][1], st, fr))
        if len(e['a']) == 1 and (t in INTS or t in FLTS or t == 'bool' or t.endswith('*')): return False, self.rv(e['a'][0], st, fr)
        if not e['a'] and (t in INTS or t in FLTS or t == 'bool' or t.endswith('*')): return False, self.default(t, st)
        return False, lit(*[self.rv(x, st, fr) for x in e['a']])
    def e_new(self, e, st, fr):
        v = None
        if e.get('arr') is not None:
            n = self.rv(e['arr'], st, fr)
            v = fill(n, self.default(e['at'], st))
        elif e.get('init') is not None: v = self.init_value(e['init'], e['at'], st, fr)
        else: v = mk('uninitobj', e['at'])
        r = ('alloc',); n = st.mem.get(r, ZERO)
        st.mem[r] = add(n, ONE); self.rt[r] = 'unsigned long'
        ptr = mk('new', n, v)
        self.event(st, 'new', ptr)
        return False, ptr
    def e_delete(self, e, st, fr):
        p = self.rv(e['e'], st, fr)
        r = ('ev', 'heap'); s0 = st.mem.get(r, EMPTY)
        self.event(st, 'delete', p)
        c = eq(p, NULL)
        if c is not FALSE: st.mem[r] = gate(c, s0, st.mem[r])       # deleting null does nothing
        return False, NULL
    def event(self, st, kind, *args):
        r = ('ev', kind if kind not in ('new', 'delete') else 'heap')
        s = st.mem.get(r, EMPTY)
        st.mem[r] = append_ev(s, mk('ev', kind, *args))
    def e_throw(self, e, st, fr):
        v = self.rv(e['e'], st, fr) if e.get('e') else mk('rethrow')
        s = st.fork(); s.mem[('exc',)] = v
        self.coll.append(('throw', s))
        st.pc = FALSE
        return False, v
    def e_lambda(self, e, st, fr):
        i = next(self.uid)
        env = {}
        for c in e['caps']:
            if c.get('this'): env['this'] = self.pl_of_var(fr, 'this'); continue
            if 'init' in c: env[c['d']] = self.temp(st, self.rv(c['init'], st, fr)); continue
            p = self.pl_of_var(fr, c['d'])
            if p is None: _, p = self.e_ref({'dk': 'var', 'd': c['d'], 't': ''}, st, fr)
            if c.get('ref'): env[c['d']] = p
            else: env[c['d']] = self.temp(st, self.read(st, p))
        self.lams[i] = (e, env, fr)
        return False, mk('lam', i)
    def call_lam(self, lam, args, st, pts=None):
        """args: list of (lv, term)"""
        node, env, up = self.lams[lam.a[0]]
        f2 = next(self.frames)
        for k, v in env.items():
            if v is not None: self.env[(f2, k)] = v
        body, ps = node['body'], node['ps']
        if node.get('specs'):
            sp = node['specs'][0]; body, ps = sp['body'], sp['ps']
        return self.run_body(body, ps, args, st, f2, None, '?')
    def e_unk(self, e, st, fr): return False, self.unk(e.get('w', '?'))

    def init_value(self, e, ty, st, fr):
        if e is None: return self.default(ty, st)
        t = strip_t(ty)
        if e['k'] == 'il' and t not in self.p.R and not is_vec(t) and len(e['a']) == 0: return self.default(t, st)
        v = self.rv(e, st, fr)
        if v.h == 's' and is_str(t): v = strseq(v)
        return v

    def moved(self, ty):
        return self.typed(mk('call', 'moved-from', S(ty)), ty)

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e, st, fr):
        ty = strip_t(e['t'])
        args = e['a']
        f = self.p.F.get(e['f'])
        cls = strip_t(e.get('cls', ty))
        if (e.get('copy') or e.get('move')) and (f is None or f.get('implicit')):
            l, p = self.ev(args[0], st, fr)
            v = self.read(st, p) if l else p
            if l and f is None and e.get('move') and (is_vec(ty) or is_map(ty) or is_set(ty)) and not ty.startswith('std::array<'): self.write(st, p, self.default(ty, st))
            return False, v
        if f is not None and (f['f'] in self.opset):
            vals = [self.seen(st, self.box(st, self.rv(a, st, fr))) for a in args]
            v = mk('call', f['key'], *vals); self.typed(v, cls)
            for ch in sorted(self.p.channels(e, f)): self.event(st, ch, S(f['key']), *vals)
            return False, v
        if f is not None and f['q'] not in self.opaque:
            av = [self.ev(a, st, fr) for a in args]
            return False, self.construct(f, av, cls, st, fr)
        return False, self.std_ctor(e, ty, args, st, fr)
    def construct(self, f, av, cls, st, fr, this=None):
        if len(self.stack) > self.maxdepth: return self.unk('depth')
        fr2 = next(self.frames)
        self.analysed.add(f['f'])
        if this is None:
            root = ('tmp', next(self.uid)); st.mem[root] = mk('zero', cls); self.rt[root] = cls
            this = self.ref(root)
        self.env[(fr2, 'this')] = this
        self.bind_params(f['ps'], av, st, fr2)
        self.stack.append(f['q'])
        for i in f.get('inits', []):
            if i.get('delegate'):
                g = i['init']
                gf = self.p.F.get(g.get('f'))
                if gf: self.construct(gf, [self.ev(a, st, fr2) for a in g['a']], cls, st, fr2, this)
                else: self.unks.append('delegate')
            elif 'base' in i:
                g = i['init']
                gf = self.p.F.get(g.get('f'))
                if gf and g['k'] == 'ctor': self.construct(gf, [self.ev(a, st, fr2) for a in g['a']], cls, st, fr2, this)
                elif g['k'] == 'ctor' and g.get('copy'):
                    self.write(st, this, self.rv(g['a'][0], st, fr2))
                elif strip_t(i['base']) in self.p.R: self.unks.append('base init')
            else:
                ft = self.p.fieldtype(cls, i['field'])
                if ft and is_ref_t(ft):
                    v = self.lv(i['init'], st, fr2)
                else: v = self.init_value(i['init'], ft or i['init'].get('t'), st, fr2)
                self.write(st, self.sub(this, ('f', i['field'])), v)
        if f.get('body'):
            out = self.exec(f['body'], st, fr2)
            s = merge(out.get('norm'), out.get('ret'))
            if s is None: st.pc = FALSE
            else: st.mem, st.pc = s.mem, s.pc
        self.stack.pop()
        return self.read(st, this)
    def std_ctor(self, e, t, args, st, fr):
        al = [a for a in args if not strip_t(a.get('t', '')).startswith('std::allocator')]
        n = len(al)
        if is_str(t):
            if n == 0: return EMPTY
            v = self.rv(al[0], st, fr)
            if n == 2:
                c = self.rv(al[1], st, fr)
                if v.h == 'it' and c.h == 'it': return self.range_of(v, c, st)
                return fill(v, c)
            return strseq(v) if v.h == 's' else v
        if is_vec(t):
            et = targs(t)[0]
            if n == 0: return EMPTY
            lvv = [self.rv(a, st, fr) for a in al]
            if n == 1:
                at_ = strip_t(al[0].get('t', ''))
                if at_ in INTS: return fill(self.num(lvv[0]), self.default(et, st))
                if isseq(lvv[0]) or is_vec(at_) or at_.startswith('std::initializer_list'): return lvv[0]
                return lvv[0]
            if n == 2:
                if lvv[0].h in ('it', 'mit') : return self.range_of(lvv[0], lvv[1], st)
                v = lvv[1]
                if et == 'bool': v = boolify(v)
                return fill(self.num(lvv[0]), v)
        if is_map(t) or is_set(t):
            if n == 0 or (n == 1 and e.get('dflt')): return MAP0
            if n == 1: return self.rv(al[0], st, fr)
            if n >= 2:
                a, b = self.rv(al[0], st, fr), self.rv(al[1], st, fr)
                if is_set(t) and a.h == 'it': return mk('setof', self.range_of(a, b, st))
                return self.unk('map ctor')
        if is_pair(t):
            if n == 0: return self.default(t, st)
            if n == 2: return pair(self.rv(al[0], st, fr), self.rv(al[1], st, fr))
            if n == 1: return self.rv(al[0], st, fr)
        if (is_viter(t) or is_miter(t) or t.startswith('std::initializer_list')) and n >= 1: return self.rv(al[0], st, fr)
        if t.startswith('std::complex<'):
            if n == 0: return ZERO
            if n == 1: return self.rv(al[0], st, fr)
            a, b = self.rv(al[0], st, fr), self.rv(al[1], st, fr)
            return add(a, mul(b, mk('imag')))
        if t.startswith('std::function<') and n == 1: return self.rv(al[0], st, fr)
        if e.get('copy') or e.get('move'):
            l, src = self.ev(al[0], st, fr)
            v = self.read(st, src) if l else src
            if l and e.get('move') and t.startswith('qlten::QLTensor<'): self.write(st, src, self.moved(t))
            return v
        if n == 0 and t in self.numtypes: return ZERO
        m = self.models.get('ctor ' + t.split('<')[0])
        if m: return m(self, e, st, fr)
        if t in ('std::thread', 'std::jthread') and n >= 1: return self.thread(al, t, st, fr)
        vals = []; caps = []
        for a, pt in itertools.zip_longest(al, e.get('pt') or []):
            if a is None: continue
            v = self.rv(a, st, fr)
            if t.startswith('qlten::') and strip_t(a.get('t', '')).endswith('*') and v.h not in ('null', 's', 'cat'):
                # an object of the tensor library keeps the address and works on what lies there later
                if pt and strip_t(pt).endswith('*') and not pt.startswith('const '): caps.append(self.deref(v))
                v = self.pointee(st, v)
            vals.append(v)
        v = mk('call', 'ctor ' + t, *vals)
        self.typed(v, t)
        if caps: self.captured[v] = caps
        return v
    def thread(self, al, t, st, fr):
        """a thread: what it runs happens where it is started; start and end are ordered among the effects"""
        f = al[0]
        while f.get('k') == 'cast' or f.get('k') == 'un' and f.get('op') == '&': f = f['e']
        args = []
        for a in al[1:]:
            x = a
            while x.get('k') == 'cast': x = x['e']
            if x.get('k') == 'call' and x.get('n') in ('ref', 'cref') and len(x['a']) == 1: args.append(x['a'][0])
            else: args.append(a)
        for ch in ('file', 'mpi', 'proc'): self.event(st, ch, S('thread starts'))
        if f.get('k') == 'ref' and f.get('dk') == 'func':
            tf = self.p.F.get(f['f']) or {}
            self.e_call({'k': 'call', 'f': f['f'], 'q': f['q'], 'n': f['n'], 'a': args, 'pt': f.get('pt', []), 't': tf.get('ret') or 'void', 'l': f.get('l')}, st, fr)
        else:
            v = self.rv(f, st, fr)
            if v.h != 'lam': return self.unk('thread')
            self.call_lam(v, [self.ev(a, st, fr) for a in args], st)
        for ch in ('file', 'mpi', 'proc'): self.event(st, ch, S('thread runs'))
        v = mk('call', 'ctor ' + t); self.typed(v, t)
        return v
    def range_of(self, a, b, st):
        if a.h == 'it' and b.h == 'it' and a.a[0] is b.a[0]:
            s = self.read(st, a.a[0])
            return slice_(s, a.a[1], b.a[1])
        if a.h == 'mit' and b.h == 'mit': return mk('mapvals', a.a[2])
        return self.unk('range')

    # ------------------------------------------------------------ calls
    def bind_params(self, ps, av, st, fr2):
        for i, p in enumerate(ps):
            if i >= len(av): continue
            lvv, t = av[i]
            if is_ref_t(p['t']):
                pl = t if lvv else self.temp(st, t, p['t'])
                self.env[(fr2, p['d'])] = pl
            else:
                v = self.read(st, t) if lvv else t
                if v.h == 's' and is_str(strip_t(p['t'])): v = strseq(v)
                r = ('v', fr2, p['d']); self.rt[r] = p['t']
                st.mem[r] = v
                self.env[(fr2, p['d'])] = self.ref(r)
    def run_body(self, body, ps, av, st, fr2, this, ret):
        if this is not None: self.env[(fr2, 'this')] = this
        self.bind_params(ps, av, st, fr2)
        out = self.exec(body, st, fr2)
        s = merge(out.get('ret'), out.get('norm'))
        if s is None:
            st.pc = FALSE
            return False, mk('noreturn')
        st.mem, st.pc = s.mem, s.pc
        v = st.mem.pop(('ret', fr2), None)
        if v is None: return False, mk('void')
        if v.h == 'lvret' : pass
        if is_ref_t(ret): return True, v
        if ret == '?':
            if v.h == 'ref' and (('retlv', fr2) in self.env): return True, v
        return False, v
    def call_fn(self, f, this, av, st):
        """inline an in-repo function; this is a place or None"""
        fr2 = next(self.frames)
        self.analysed.add(f['f'])
        self.stack.append(f['q'])
        self.env[(fr2, '$ret')] = f['ret']
        try: return self.run_body(f['body'], f['ps'], av, st, fr2, this, f['ret'])
        finally: self.stack.pop()
    def e_call(self, e, st, fr):
        if 'q' not in e:
            c = e.get('callee')
            if c is not None:
                v = self.rv(c, st, fr)
                av = [self.ev(a, st, fr) for a in e['a']]
                if v.h == 'lam': return self.call_lam(v, av, st)
                if v.h == 'fn' and v.a[0] in self.p.bykey and self.p.bykey[v.a[0]]['f'] not in self.opset: return self.call_fn(self.p.bykey[v.a[0]], None, av, st)
                args = [self.read(st, t) if l else t for l, t in av]
                r = mk('call', 'indirect', v, *args); self.typed(r, e.get('t'))
                return False, r
            return False, self.unk('callee')
        q = e['q']; n = e['n']
        f = self.p.F.get(e['f'])
        if n == 'verif_assert_fail':
            if self.asserts == 'assume': st.pc = FALSE
            return False, mk('void')
        m = self.models.get(q) or self.models.get(base_q(q))
        if m:
            r = m(self, e, st, fr)
            if r is not None: return r
        if f is not None and f.get('body') is not None and q not in self.opaque and f['f'] not in self.opset and not (self.noinline and self.noinline(f)):
            if f.get('islambda') and 'this' in e:
                lamv = self.rv(e['this'], st, fr)
                if lamv.h == 'lam': return self.call_lam(lamv, [self.ev(a, st, fr) for a in e['a']], st)
            if f.get('implicit') and (f.get('copyasg') or f.get('moveasg')):
                v = self.rv(e['a'][0], st, fr); p = self.lv(e['this'], st, fr)
                self.write(st, p, v); return True, p
            if len(self.stack) > self.maxdepth or self.stack.count(q) > 2: return False, self.unk('recursion ' + q)
            this = None
            if 'this' in e and not e.get('static'):
                this = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
            av = [self.ev(a, st, fr) for a in e['a']]
            av = self.snapshot(f['ps'], av, st)
            return self.call_fn(f, this, av, st)
        if 'operator()' in n and 'this' in e:
            lamv = self.rv(e['this'], st, fr)
            if lamv.h == 'lam': return self.call_lam(lamv, [self.ev(a, st, fr) for a in e['a']], st)
        cls = strip_t(e.get('cls', ''))
        if q.startswith('nlohmann::'):
            r = self.json_call(e, q, n, cls, st, fr)
            if r is not None: return r
        r = self.std_call(e, q, n, cls, st, fr)
        if r is not None: return r
        if 'this' not in e and (q.startswith('std::')):                         # an algorithm without a meaning here
            for x in e['a']:
                v = self.rv(x, st.fork(), fr)
                if isinstance(v, T) and v.h in ('it', 'mit', 'rit', 'lam', 'binserter'): return False, self.unk('algorithm ' + q)
        return self.opaque_call(e, q, st, fr)
    # ------------------------------------------------------------ the JSON library
    # kinds of a JSON value: 0 null, 1 boolean, 2 negative integer, 3 unsigned integer, 4 floating, 5 string, 6 array, 7 object
    JKINDS = {'is_null': (0,), 'is_boolean': (1,), 'is_number': (2, 3, 4), 'is_number_integer': (2, 3), 'is_number_unsigned': (3,),
              'is_number_float': (4,), 'is_string': (5,), 'is_array': (6,), 'is_object': (7,), 'is_structured': (6, 7), 'is_primitive': (0, 1, 2, 3, 4, 5)}
    def jkind(self, v, ks):
        k = self.typed(mk('call', 'json::kind', v), 'int')
        r = FALSE
        for x in ks: r = or_(r, eq(k, C(x)))
        return r
    def jsize(self, v): return self.typed(mk('call', 'rangesize', v), 'unsigned long')
    def jthrows(self, v, t):
        """the conversion of a JSON value to type t fails"""
        if t == 'bool': return not_(self.jkind(v, (1,)))
        if t in INTS or t in FLTS: return not_(self.jkind(v, (1, 2, 3, 4)))
        if is_str(t): return not_(self.jkind(v, (5,)))
        if is_vec(t):
            iv = fresh_iv(); n = self.jsize(v); TM.UPPER[iv] = n
            return or_(not_(self.jkind(v, (6,))), any_(iv, n, self.jthrows(at(v, iv), strip_t(targs(t)[0]))))
        return atom(mk('call', 'json::throws ' + t, v))
    def jget(self, v, t):
        if is_vec(t):
            iv = fresh_iv(); n = self.jsize(v); TM.UPPER[iv] = n
            return comp(iv, n, TRUE, self.jget(at(v, iv), strip_t(targs(t)[0])))
        r = mk('call', 'json::get ' + {'long long': 'long', 'unsigned long long': 'unsigned long'}.get(t, t), v); self.typed(r, t)
        if t == 'bool': return boolify(r)
        return r
    def may_throw(self, st, c, what):
        c = restrict(c, st.pc)
        if c is FALSE: return
        s = st.fork(); s.pc = and_(st.pc, c); s.mem[('exc',)] = mk('call', what)
        if s.pc is not FALSE: self.coll.append(('throw', s))
        st.pc = and_(st.pc, not_(c))
    def json_call(self, e, q, n, cls, st, fr):
        a = e['a']
        if cls.startswith('nlohmann::basic_json') and 'this' in e:
            t = strip_t(e.get('ret') or e.get('t', ''))
            p = None
            if n in ('find', 'end', 'cend', 'contains', 'count', 'at', 'get', 'size', 'empty', 'operator[]') or n in self.JKINDS:
                p = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
                v = self.read(st, p)
            else: return None
            if n in self.JKINDS: return False, self.jkind(v, self.JKINDS[n])
            if n == 'size': return False, self.jsize(v)
            if n == 'empty': return False, eq(self.jsize(v), ZERO)
            if n in ('end', 'cend'): return False, mk('jend', v)
            if n == 'get' and not a:
                self.may_throw(st, self.jthrows(v, t), 'json::type_error')
                return False, self.jget(v, t)
            if len(a) != 1: return None
            if n in ('at', 'operator[]') and strip_t(a[0].get('t', '')) in INTS:
                if n == 'operator[]' and not e.get('mconst') and not (self.jkind(v, (6,)) is TRUE or restrict(self.jkind(v, (6,)), st.pc) is TRUE): return None
                i = self.num(self.rv(a[0], st, fr))
                self.may_throw(st, not_(self.jkind(v, (6,))), 'json::type_error')
                if n == 'at': self.may_throw(st, or_(lt0(i), not_(lt(i, self.jsize(v), True))), 'json::out_of_range')
                return True, self.sub(p, ('i', i))
            if n == 'operator[]':
                if not (is_str(strip_t(a[0].get('t', ''))) or 'char' in a[0].get('t', '')): return None
                k = self.rv(a[0], st, fr)
                if k.h == 's': k = strseq(k)
                if restrict(atom(mk('call', 'json::has', v, k)), st.pc) is not TRUE: return None      # may insert
                return True, self.temp(st, mk('call', 'json::at', v, k), t)
            k = self.rv(a[0], st, fr)
            if not (is_str(strip_t(a[0].get('t', ''))) or 'char' in a[0].get('t', '')): return None
            if k.h == 's': k = strseq(k)
            has = atom(mk('call', 'json::has', v, k))
            if n == 'find': return False, mk('jit', v, k)
            if n == 'contains': return False, has
            if n == 'count': return False, ite(has, ONE, ZERO)
            if n == 'at':
                self.may_throw(st, not_(has), 'json::out_of_range')
                return True, self.temp(st, mk('call', 'json::at', v, k), t)
        if cls.startswith('nlohmann::detail::iter_impl') and 'this' in e and n in ('operator==', 'operator!=') and len(a) == 1:
            x, y = self.rv(e['this'], st, fr), self.rv(a[0], st, fr)
            if y.h == 'jit': x, y = y, x
            if x.h == 'jit' and y.h == 'jend' and x.a[0] is y.a[0]:
                has = atom(mk('call', 'json::has', x.a[0], x.a[1]))
                return False, (not_(has) if n == 'operator==' else has)
            r = eq(x, y)
            return False, (r if n == 'operator==' else not_(r))
        if cls.startswith('nlohmann::detail::iter_impl') and 'this' in e and n in ('operator*', 'operator->', 'value') and not a:
            x = self.rv(e['this'], st, fr)
            if x.h == 'jit':
                pl = self.temp(st, mk('call', 'json::at', x.a[0], x.a[1]), 'json')
                return (False, pl) if n == 'operator->' else (True, pl)
        return None
    def snapshot(self, ps, av, st):
        return av
    def pointee(self, st, v):
        """value a callee sees through pointer v"""
        if v.h == 'ite': return ite(atom(v.a[0]), self.pointee(st, v.a[1]), self.pointee(st, v.a[2]))
        if v.h == 'null' or v.h == 's' or v.h == 'cat': return v
        if v.h == 'ref': return mk('pv', self.read(st, v))
        if v.h == 'new': return mk('pv', self.rootval(st, ('h', v)))
        if ('h', v) in st.mem: return mk('pv', st.mem[('h', v)])
        return v
    def array_arg(self, a, v, st, fr):
        """the sequence a pointer argument designates as a whole: the elements of a container"""
        while a.get('k') == 'cast': a = a['e']
        if a.get('k') == 'call' and a.get('n') == 'data' and 'this' in a and v.h == 'ref' and v.a[1] and v.a[1][-1] == ('i', ZERO): return self.ref(v.a[0], v.a[1][:-1])
        return None
    def opaque_call(self, e, q, st, fr):
        args = []; places = []; ptypes = []
        f = self.p.F.get(e['f'])
        recv = None
        if self.slots and 'this' in e and self.slots(q):
            p = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
            i = tuple(self.rv(a, st, fr) for a in e['a']) or (S(e.get('n') or ''),)
            p = self.sub(p, ('op', ('slot', i)))
            if e.get('n') == 'operator()' or q.endswith('operator()'):
                return (True, p) if e.get('lv') or f is not None and is_ref_t(f.get('ret') or '') else (False, self.read(st, p))
            return True, self.deref(self.read(st, p))
        if 'this' in e and not e.get('static'):
            if e.get('arrow'): p = self.deref(self.rv(e['this'], st, fr))
            else: p = self.lv(e['this'], st, fr)
            recv = p
            v = self.read(st, p); self.typed(v, e.get('cls'))
            args.append(v); places.append(None if e.get('mconst') or not self.p.mutates(e, f) else p); ptypes.append(e.get('cls'))
        for a, pt in itertools.zip_longest(e['a'], e.get('pt', [])):
            if a is None: continue
            l, t = self.ev(a, st, fr)
            v = self.read(st, t) if l else t
            self.typed(v, a.get('t'))
            at_ = strip_t(a.get('t'))
            pl = None; pty = None
            arr = self.array_arg(a, v, st, fr)
            if arr is not None and (at_.endswith('*') or at_ == 'void *'):
                args.append(mk('pv', self.read(st, arr)))
                places.append(arr if pt and not pt.startswith('const ') else None); ptypes.append(None); continue
            if v.h == 'lam':
                args.append(v); places.append(None); ptypes.append(None); continue
            if l and pt and is_ref_t(pt) and not pt.startswith('const ') and not pt.endswith('&&'): pl = t; pty = pt
            if (at_.endswith('*') or (pt and strip_t(pt).endswith('*'))) and not at_.startswith('const char') and not at_.startswith('char'):
                if pt and is_ptr(strip_t(pt)) and not pt.startswith('const ') and v.h != 'null':
                    pl = self.deref(v); pty = strip_t(pt)[:-1].strip()
                v = self.pointee(st, v)
            args.append(v); places.append(pl); ptypes.append(pty)
        if recv is not None and recv.h == 'ref' and recv.a[0] in self.capplace and not e.get('mconst') and not e.get('static'):
            for p in self.capplace[recv.a[0]]: args.append(mk('pv', self.read(st, p))); places.append(p); ptypes.append(None)
        args = [self.seen(st, self.box(st, x)) for x in args]
        name = f['key'] if f is not None else short_q(q)
        if recv is not None and name in ('std::thread::join', 'std::thread::detach'):
            for ch in ('file', 'mpi', 'proc'): self.event(st, ch, S(name), args[0])
        r = mk('call', name, *args)
        self.calls.append((q, e.get('l')))
        chans = self.p.channels(e, f)
        for ch in sorted(chans): self.event(st, ch, S(name), *args)
        if e.get('noret'):
            s = st.fork(); self.coll.append(('exit', s)); s.mem[('exc',)] = r
            st.pc = FALSE
            return False, mk('noreturn')
        for i, p in enumerate(places):
            if p is not None:
                nv = mk('out', name, i, *args)
                self.typed(nv, ptypes[i])
                self.write(st, p, nv)
        rt = e.get('ret') or e.get('t', '')
        self.typed(r, e.get('t'))
        if strip_t(e.get('t', '')) == 'void': return False, mk('void')
        if recv is not None and (e.get('lv') or f is not None and is_ref_t(f.get('ret') or '')):
            pl = self.sub(recv, ('op', (name, tuple(args[1:]))))
            self.typed(self.read(st, pl), e.get('t'))
            return True, pl
        return False, r

    # ------------------------------------------------------------ equality of values by type
    def eqv(self, a, b, ty, st):
        t = strip_t(ty or '')
        if a is b: return TRUE
        if t in INTS or t in FLTS or t == 'bool' or is_str(t) or t.endswith('*'): return eq(strseq(a) if a.h == 's' and is_str(t) else a, strseq(b) if b.h == 's' and is_str(t) else b)
        if is_vec(t):
            et = strip_t(targs(t)[0])
            if not (et in self.p.R): return eq(a, b)
            if a is EMPTY or b is EMPTY: return eq(a, b)
            iv = fresh_iv(); n = size(a); TM.UPPER[iv] = n
            ne = not_(self.eqv(at(a, iv), at(b, iv), et, st))
            return and_(eq(size(a), size(b)), not_(any_(iv, n, ne)))
        if is_map(t):
            if a is MAP0: return eq(size(b), ZERO)
            if b is MAP0: return eq(size(a), ZERO)
            a, b = sorted((a, b), key=lambda x: x.n)
            return atom(mk('meq', a, b, strip_t(targs(t)[1])))
        if t in self.p.R:
            for k in self.ops_of(t, '=='):
                s2 = st.fork()
                oc = self.coll; self.coll = []
                pa, pb = self.temp(s2, a, t), self.temp(s2, b, t)
                _, r = self.call_fn(self.p.F[k], pa, [(True, pb)], s2)
                self.coll = oc
                return boolify(r)
        if t.startswith('qlten::QLTensor<'): return atom(mk('call', 'qlten::QLTensor::operator==', a, b))
        return eq(a, b)
    def ops_of(self, t, op):
        out = [k for k, f in self.p.F.items() if f.get('oo') == op and strip_t(f.get('cls', '')) == t and len(f['ps']) == 1]
        if out: return out
        for b in self.p.R.get(t, {}).get('bases', []):
            o = self.ops_of(strip_t(b), op)
            if o: return o
        return []

    # ------------------------------------------------------------ the standard library
    def std_call(self, e, q, n, cls, st, fr):
        if n == 'open' and 'fstream<' in cls and 'this' in e and not e.get('arrow'):       # opened after construction: as if constructed on the file
            p = self.lv(e['this'], st, fr); old = self.read(st, p)
            if old.h == 'call' and str(old.a[0]).startswith('ctor ') and len(old.a) == 1:
                l, v = self.e_ctor({'k': 'ctor', 't': str(old.a[0])[5:], 'f': '', 'a': e['a'], 'l': e.get('l')}, st, fr)
                self.write(st, p, v)
                return False, mk('void')
        if is_vec(cls) or is_str(cls): return self.vec_call(e, n, cls, st, fr)
        if is_map(cls) or is_set(cls): return self.map_call(e, n, cls, st, fr)
        if is_viter(cls) or is_miter(cls): return self.iter_call(e, n, cls, st, fr)
        if cls.startswith('std::_Bit_reference'):
            p = self.lv(e['this'], st, fr)
            if n == 'operator=':
                v = self.rv(e['a'][0], st, fr); self.write(st, p, boolify(v)); return True, p
            if n.startswith('operator bool'): 
                v = self.read(st, p); BOOLTYPED.add(v) if v.h not in ('b', 'ite') else None
                return False, boolify(v)
        if is_pair(cls) and n == 'operator=':
            v = self.rv(e['a'][0], st, fr); p = self.lv(e['this'], st, fr); self.write(st, p, v); return True, p
        if cls.startswith('std::basic_ostream') or (q.startswith('std::') and n == 'operator<<'):
            return self.stream_out(e, st, fr)
        if cls.startswith('std::complex<') and n.startswith('operator'):
            p = self.lv(e['this'], st, fr); v = self.rv(e['a'][0], st, fr)
            o = n[8:-1]
            self.write(st, p, v if n == 'operator=' else self.arith(o, self.read(st, p), v, 'double'))
            return True, p
        a = e['a']
        if cls.startswith('qlten::') and n == 'operator=' and len(a) == 1 and strip_t((e.get('pt') or [''])[0].rstrip('& ')) == cls:
            # the copy and the move assignment of a library value type
            l, src = self.ev(a[0], st, fr); p = self.lv(e['this'], st, fr)
            v = self.read(st, src) if l else src
            if l and (e.get('pt') or [''])[0].endswith('&&'): self.write(st, src, self.moved(cls))
            self.write(st, p, v); return True, p
        if strip_t(e.get('cls', '')) in self.numtypes or (e.get('oo') and any(strip_t(x.get('t', '')) in self.numtypes for x in a) and not cls):
            oo = e.get('oo')
            if oo in ('+=', '-=', '*=', '=') and 'this' in e:
                p = self.lv(e['this'], st, fr); v = self.rv(a[0], st, fr)
                self.write(st, p, v if oo == '=' else self.arith(oo[0], self.read(st, p), v, 'double'))
                return True, p
            if oo in ('+', '-', '*', '/') :
                xs = ([e['this']] if 'this' in e else []) + a
                vs = [self.rv(x, st, fr) for x in xs]
                if len(vs) == 1: return False, neg(vs[0])
                return False, self.arith(oo, vs[0], vs[1], 'double')
            if oo == '==':
                xs = ([e['this']] if 'this' in e else []) + a
                vs = [self.rv(x, st, fr) for x in xs]
                return False, eq(vs[0], vs[1])
        if n in ('operator==', 'operator!=') and cls and len(a) == 1 and not q.startswith(('std::', '__gnu_cxx::', 'nlohmann::')) and strip_t(a[0].get('t', '')) == cls and 'this' in e:
            # comparison declared by a class whose definition is not part of this repository
            x, y = self.rv(e['this'], st, fr), self.rv(a[0], st, fr)
            c = self.eqv(x, y, cls, st)
            return False, (c if n == 'operator==' else not_(c))
        if not (q.startswith('std::') or q.startswith('__gnu_cxx::') or e.get('builtin')): return None
        R = lambda i: self.rv(a[i], st, fr)
        if (cls.startswith('std::atomic<') or cls.startswith('std::__atomic_base<')) and 'this' in e:
            if n in ('store', 'operator=') and a and 'std::atomic<' not in strip_t(a[0].get('t', '')):
                p = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
                v = R(0); old = self.read(st, p); self.typed(old, cls)
                self.event(st, 'proc', S('std::atomic::store'), old, v)
                nv = mk('out', 'std::atomic::store', 0, old, v); self.typed(nv, cls); self.write(st, p, nv)
                return (False, mk('void')) if n == 'store' else (False, v)
            if n == 'load' or n.startswith('operator ') and not a:
                p = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
                old = self.read(st, p); self.typed(old, cls)
                r = mk('call', 'std::atomic::load', old); self.typed(r, e.get('t'))
                return False, (atom(r) if strip_t(e.get('t', '')) == 'bool' else r)
        if n == 'free' and len(a) == 1:
            self.event(st, 'heap', S('free'), R(0))
            return False, mk('void')
        if n in ('memcpy', 'memmove') and len(a) == 3:
            cnt = a[2]
            while cnt.get('k') == 'cast': cnt = cnt['e']
            if cnt.get('k') == 'bin' and cnt.get('op') == '*':
                fs = [cnt['a'], cnt['b']]; sz = [x for x in fs if x.get('sizeof')]; ot = [x for x in fs if not x.get('sizeof')]
                if len(sz) == 1 and len(ot) == 1:
                    vs = [R(0), R(1)]; ar = []
                    for x, v in zip(a, vs):
                        y = x
                        while y.get('k') == 'cast': y = y['e']
                        et = strip_t(y.get('t', '')); et = et[:-1].strip() if et.endswith('*') else ''
                        et = et[6:] if et.startswith('const ') else et
                        pl = self.array_arg(x, v, st, fr)
                        if pl is None and v.h == 'new': pl = self.ref(('h', v))
                        ar.append(pl if et == sz[0]['sizeof'] else None)
                    if None not in ar:
                        k = self.rv(ot[0], st, fr); d, s_ = self.read(st, ar[0]), self.read(st, ar[1])
                        self.write(st, ar[0], cat(slice_(s_, ZERO, k), slice_(d, k, size(d))))
                        return False, vs[0]
        if n in ('move', 'forward', 'as_const', 'ref', 'cref') and len(a) == 1: return self.ev(a[0], st, fr)
        if n == 'addressof': return False, self.lv(a[0], st, fr)
        if n == 'make_pair': return False, pair(self.dec(R(0), a[0]), self.dec(R(1), a[1]))
        if n == 'swap' and len(a) == 2:
            p, r = self.lv(a[0], st, fr), self.lv(a[1], st, fr)
            x, y = self.read(st, p), self.read(st, r)
            self.write(st, p, y); self.write(st, r, x)
            return False, mk('void')
        if n in ('min', 'max') and len(a) == 2:
            x, y = R(0), R(1)
            c = lt(y, x, not self.isfloat(a[0].get('t')))
            return False, (ite(c, y, x) if n == 'min' else ite(c, x, y))
        if n in ('exp', 'sqrt', 'log', 'pow', 'sin', 'cos', 'log2', 'log10', 'floor', 'ceil', 'round', 'abs', 'fabs', 'real', 'imag', 'conj', 'norm', 'arg', 'fmod', 'isnan', 'isinf', 'isfinite'):
            vs = ([self.rv(e['this'], st, fr)] if 'this' in e else []) + [R(i) for i in range(len(a))]
            if n in ('abs', 'fabs') and len(vs) == 1 and 'complex' not in str(a[0].get('t')):
                x = vs[0]; return False, ite(lt(x, ZERO, not self.isfloat(a[0].get('t'))), neg(x), x)
            return False, self.typed(mk('call', n, *vs), e.get('t'))
        if n == 'to_string': 
            x = R(0); return False, mk('tostr', x)
        if n in ('distance',): return False, sub(R(1).a[1], R(0).a[1]) if R(0).h == 'it' else self.unk('distance')
        if n in ('next', 'prev'):
            v = R(0); k = R(1) if len(a) > 1 else ONE
            return False, self.advance(v, k if n == 'next' else neg(k))
        if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty') and len(a) == 1:
            e2 = dict(e); e2['this'] = a[0]; e2['a'] = []
            t = strip_t(a[0].get('t'))
            return self.vec_call(e2, n, t, st, fr) if (is_vec(t) or is_str(t)) else self.map_call(e2, n, t, st, fr) if is_map(t) else None
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(a) == 2:
            x, y = R(0), R(1)
            t = strip_t(a[0].get('t'))
            if n in ('operator==', 'operator!='):
                if x.h in ('it', 'mit') or y.h in ('it', 'mit'): c = eq(x, y)
                else: c = self.eqv(strseq(x) if x.h == 's' else x, strseq(y) if y.h == 's' else y, t if not t.startswith('char') and not t.startswith('const char') else strip_t(a[1].get('t')), st)
                return False, (c if n == 'operator==' else not_(c))
            if x.h in ('it', 'mit') or self.isfloat(t) or t in INTS: return False, self.compare(n[8:], x, y, self.isfloat(t))
            L = lambda p, r: FALSE if p is r else atom(mk('lex', p, r, t))
            return False, {'<': L(x, y), '>': L(y, x), '<=': not_(L(y, x)), '>=': not_(L(x, y))}[n[8:]]
        if n == 'operator-' and len(a) == 2:
            x, y = R(0), R(1)
            return False, self.arith('-', x, y, a[0].get('t'))
        if n in ('operator+', 'operator*', 'operator/') and len(a) == 2:
            x, y = R(0), R(1)
            t0, t1 = strip_t(a[0].get('t')), strip_t(a[1].get('t'))
            if is_str(t0) or is_str(t1):
                mkc = lambda v, t: (lit(v) if strip_t(t) == 'char' else strseq(v))
                return False, concat(mkc(x, t0), mkc(y, t1))
            return False, self.arith(n[8:], x, y, 'double')
        if n == 'operator-' and len(a) == 1: return False, neg(R(0))
        if n == 'is_permutation':
            if len(a) >= 4: s1, s2 = self.range_of(R(0), R(1), st), self.range_of(R(2), R(3), st)
            else:
                s1 = self.range_of(R(0), R(1), st); b = R(2)
                s2 = slice_(self.read(st, b.a[0]), b.a[1], add(b.a[1], size(s1)))
            return False, perm(s1, s2)
        if n == 'equal':
            s1 = self.range_of(R(0), R(1), st)
            if len(a) >= 4 and R(2).h == 'it' and R(3).h == 'it': s2 = self.range_of(R(2), R(3), st)
            else:
                b = R(2); s2 = slice_(self.read(st, b.a[0]), b.a[1], add(b.a[1], size(s1)))
            return False, eq(s1, s2)
        if n == 'find' and len(a) == 3:
            x, y = R(0), R(1); v = R(2)
            s = self.read(st, x.a[0])
            iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
            c = self.eqv(at(s, add(x.a[1], iv)), v, a[2].get('t'), st)
            return False, mk('it', x.a[0], add(x.a[1], first_(iv, N, c)))
        if n in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each') and len(a) == 3:
            x, y = R(0), R(1); lam = R(2)
            if x.h == 'it':
                s = self.read(st, x.a[0])
                iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
                if n != 'for_each' and lam.h == 'lam':
                    s2 = st.fork()
                    _, c = self.call_lam(lam, [(False, at(s, add(x.a[1], iv)))], s2)
                    if _: c = self.read(s2, c)
                    c = boolify(c)
                    if n == 'find_if': return False, mk('it', x.a[0], add(x.a[1], first_(iv, N, c)))
                    if n == 'any_of': return False, any_(iv, N, c)
                    if n == 'none_of': return False, not_(any_(iv, N, c))
                    if n == 'all_of': return False, not_(any_(iv, N, not_(c)))
                    if n == 'count_if': return False, sum_(iv, N, ite(c, ONE, ZERO))
            return False, self.unk(n)
        if n == 'count' and len(a) == 3:
            x, y = R(0), R(1); v = R(2); s = self.read(st, x.a[0])
            iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
            return False, sum_(iv, N, ite(self.eqv(at(s, add(x.a[1], iv)), v, a[2].get('t'), st), ONE, ZERO))
        if n in ('sort', 'stable_sort', 'partial_sort') and len(a) >= 2:
            x, y = R(0), R(1)
            if n == 'partial_sort': y = R(2); a = [a[0]] + a[2:]          # the part behind the middle: any order, taken as sorted
            if x.h == 'it' and y.h == 'it':
                s = self.read(st, x.a[0])
                key = NULL
                if len(a) > 2: key = mk('cmp', self.lam_key(R(2), st))
                if x.a[1] is ZERO and y.a[1] is size(s): self.write(st, x.a[0], mk('sorted', s, key))
                else: self.write(st, x.a[0], cat(slice_(s, ZERO, x.a[1]), mk('sorted', slice_(s, x.a[1], y.a[1]), key), slice_(s, y.a[1], size(s))))
                return False, mk('void')
        if n == 'is_sorted' and len(a) >= 2:
            x, y = R(0), R(1)
            s = self.range_of(x, y, st)
            iv = fresh_iv(); N = sub(size(s), ONE); TM.UPPER[iv] = N
            return False, not_(any_(iv, N, lt(at(s, add(iv, ONE)), at(s, iv))))
        if n == 'transform' and len(a) == 4:
            x, y, o, lam = R(0), R(1), R(2), R(3)
            s = self.read(st, x.a[0])
            iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
            s2 = st.fork()
            l, v = self.call_lam(lam, [(False, at(s, add(x.a[1], iv)))], s2) if lam.h == 'lam' else (False, self.unk('fn'))
            if l: v = self.read(s2, v)
            if o.h == 'it':
                d = self.read(st, o.a[0])
                self.write(st, o.a[0], rupd(d, [iv], [N], TRUE, add(o.a[1], iv), v))
                return False, mk('it', o.a[0], add(o.a[1], N))
            if o.h == 'binserter':
                d = self.read(st, o.a[0]); self.write(st, o.a[0], concat(d, comp(iv, N, TRUE, v)))
                return False, o
        if n == 'back_inserter': return False, mk('binserter', self.lv(a[0], st, fr))
        if n in ('copy',) and len(a) == 3:
            x, y, o = R(0), R(1), R(2)
            s = self.range_of(x, y, st)
            if o.h == 'binserter':
                d = self.read(st, o.a[0]); self.write(st, o.a[0], concat(d, s)); return False, o
            if o.h == 'it':
                d = self.read(st, o.a[0]); iv = fresh_iv(); N = size(s); TM.UPPER[iv] = N
                self.write(st, o.a[0], rupd(d, [iv], [N], TRUE, add(o.a[1], iv), at(s, iv)))
                return False, mk('it', o.a[0], add(o.a[1], N))
        if n == 'swap_ranges' and len(a) == 3:
            x, y, o = R(0), R(1), R(2)
            if x.h == 'it' and y.h == 'it' and o.h == 'it':
                s1, s2 = self.read(st, x.a[0]), self.read(st, o.a[0]); N = sub(y.a[1], x.a[1])
                iv = fresh_iv(); TM.UPPER[iv] = N
                self.write(st, x.a[0], rupd(s1, [iv], [N], TRUE, add(x.a[1], iv), at(s2, add(o.a[1], iv))))
                d = self.read(st, o.a[0]); iv = fresh_iv(); TM.UPPER[iv] = N
                self.write(st, o.a[0], rupd(d, [iv], [N], TRUE, add(o.a[1], iv), at(s1, add(x.a[1], iv))))
                return False, mk('it', o.a[0], add(o.a[1], N))
        if n == 'copy_n' and len(a) == 3:
            x, k, o = R(0), self.num(R(1)), R(2)
            if x.h == 'it':
                s = slice_(self.read(st, x.a[0]), x.a[1], add(x.a[1], k))
                if o.h == 'binserter':
                    d = self.read(st, o.a[0]); self.write(st, o.a[0], concat(d, s)); return False, o
                if o.h == 'it':
                    d = self.read(st, o.a[0]); iv = fresh_iv(); TM.UPPER[iv] = k
                    self.write(st, o.a[0], rupd(d, [iv], [k], TRUE, add(o.a[1], iv), at(s, iv)))
                    return False, mk('it', o.a[0], add(o.a[1], k))
        if n in ('fill_n',) and len(a) == 3:
            x, k, v = R(0), self.num(R(1)), R(2)
            if x.h == 'it':
                d = self.read(st, x.a[0]); iv = fresh_iv(); TM.UPPER[iv] = k
                self.write(st, x.a[0], rupd(d, [iv], [k], TRUE, add(x.a[1], iv), v)); return False, mk('it', x.a[0], add(x.a[1], k))
        if n == 'fill' and len(a) == 3:
            x, y, v = R(0), R(1), R(2)
            if x.h == 'it':
                d = self.read(st, x.a[0]); iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
                self.write(st, x.a[0], rupd(d, [iv], [N], TRUE, add(x.a[1], iv), v)); return False, mk('void')
        if n == 'iota' and len(a) == 3:
            x, y, v = R(0), R(1), R(2)
            d = self.read(st, x.a[0]); iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
            self.write(st, x.a[0], rupd(d, [iv], [N], TRUE, add(x.a[1], iv), add(v, iv))); return False, mk('void')
        if n == 'accumulate' and len(a) == 3:
            x, y, v = R(0), R(1), R(2)
            s = self.read(st, x.a[0]); iv = fresh_iv(); N = sub(y.a[1], x.a[1]); TM.UPPER[iv] = N
            return False, add(v, sum_(iv, N, at(s, add(x.a[1], iv))))
        if n == 'reverse' and len(a) == 2:
            x, y = R(0), R(1); s = self.read(st, x.a[0]); N = size(s)
            if x.a[1] is ZERO and y.a[1] is N:
                iv = fresh_iv(); TM.UPPER[iv] = N
                self.write(st, x.a[0], comp(iv, N, TRUE, at(s, sub(sub(N, ONE), iv)))); return False, mk('void')
        if n in ('setprecision', 'endl', 'setw', 'put_time', 'fixed', 'flush', 'scientific'): 
            for x in a: self.ev(x, st, fr)
            return False, mk('manip')
        return None
    def dec(self, v, node):
        return strseq(v) if False else v
    def lam_key(self, lam, st):
        """closed comparator term for two symbolic elements"""
        if lam.h == 'lam':
            s2 = st.fork()
            l, v = self.call_lam(lam, [(False, mk('sym', 'cmpL')), (False, mk('sym', 'cmpR'))], s2)
            if l: v = self.read(s2, v)
            return v
        return lam
    def stream_out(self, e, st, fr):
        xs = ([e['this']] if 'this' in e else []) + e['a']
        root = xs[0]
        l, t = self.ev(root, st, fr)
        args = []
        for x in xs[1:]:
            if x['k'] == 'ref' and x.get('dk') == 'func': continue
            l2, v = self.ev(x, st, fr)
            v = self.read(st, v) if l2 else v
            if strip_t(x.get('t')) in ('char', 'unsigned char', 'signed char'): v = lit(v)
            args.append(v)
        nm = stream_name(xs[0])
        if nm in ('std::cout', 'std::cerr', 'std::clog'):
            if self.watch_out and nm == 'std::cout':     # what is reported is the result here: keep the values printed, not the wording
                def parts(v):
                    if v.h in ('call', 'opget') and str(v.a[0]).endswith('::str') and v.a[1].h == 'sout':
                        w = v.a[1]; ch = []
                        while w.h == 'sout': ch.append(w.a[1]); w = w.a[0]
                        for x in reversed(ch): yield from parts(x)
                    elif v.h in ('s', 'manip', 'lit1') or v.h == 'c' or v.h == 'call' and 'set' in str(v.a[0]): return
                    else: yield v
                for v in args:
                    for w in parts(v): self.event(st, 'print', w)
            return l, t
        if l:
            tofile = 'ofstream' in strip_t(root.get('t', '')) or 'fstream' in strip_t(root.get('t', ''))
            for v in args:                                                   # one write per value: chaining does not matter
                old = self.read(st, t)
                if tofile: self.event(st, 'file', S('<<'), old, v)
                self.write(st, t, mk('sout', old, v))
        return l, t
    def vec_call(self, e, n, cls, st, fr):
        if 'this' not in e: return None
        p = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
        a = e['a']
        ta = targs(cls)
        et = ta[0] if ta else 'char'
        s = self.read(st, p)
        if s.h == 's': s = strseq(s)
        R = lambda i: self.rv(a[i], st, fr)
        if n in ('size', 'length'): return False, size(s)
        if n == 'empty': return False, eq(size(s), ZERO)
        if n in ('operator[]', 'at'):
            i = R(0)
            return True, self.sub(p, ('i', i))
        if n == 'front': return True, self.sub(p, ('i', ZERO))
        if n == 'back': return True, self.sub(p, ('i', sub(size(s), ONE)))
        if n == 'data': return False, self.sub(p, ('i', ZERO))
        if n in ('begin', 'cbegin'): return False, mk('it', p, ZERO)
        if n in ('end', 'cend'): return False, mk('it', p, size(s))
        if n in ('rbegin', 'crbegin', 'rend', 'crend'): return False, mk('rit', p, ZERO if 'begin' in n else size(s))
        if n in ('push_back', 'emplace_back'):
            if n == 'push_back' or len(a) == 1: v = self.coerce(a[0], R(0), et, st, fr)
            elif len(a) == 0: v = self.default(et, st)
            elif is_pair(strip_t(et)): v = pair(R(0), R(1))
            else: v = self.construct_args(strip_t(et), a, st, fr)
            s = self.read(st, p)
            if s.h == 's': s = strseq(s)
            self.write(st, p, append(s, v))
            if n == 'emplace_back': return True, self.sub(p, ('i', size(s)))
            return False, mk('void')
        if n == 'pop_back':
            self.write(st, p, drop_last(s)); return False, mk('void')
        if n in ('reserve', 'shrink_to_fit'):
            for x in a: self.ev(x, st, fr)
            return False, mk('void')
        if n == 'capacity': return False, self.typed(mk('call', 'capacity', s), 'unsigned long')
        if n == 'clear': self.write(st, p, EMPTY); return False, mk('void')
        if n == 'resize':
            m = self.num(R(0)); v = R(1) if len(a) > 1 else self.default(et, st)
            if s is EMPTY: self.write(st, p, fill(m, v))
            else:
                old = size(s)
                r = ite(le(m, old), slice_(s, ZERO, m), concat(s, fill(sub(m, old), v)))
                self.write(st, p, r)
            return False, mk('void')
        if n == 'operator=':
            l, src = self.ev(a[0], st, fr)
            v = self.read(st, src) if l else src
            if v.h == 's': v = strseq(v)
            if l and not is_str(cls) and (e.get('pt') or [''])[0].endswith('&&'): self.write(st, src, EMPTY)
            self.write(st, p, v); return True, p
        if n == 'assign':
            if len(a) == 2:
                x, y = R(0), R(1)
                self.write(st, p, self.range_of(x, y, st) if x.h == 'it' else fill(self.num(x), y))
            else: self.write(st, p, strseq(R(0)) if R(0).h == 's' else R(0))
            return False, mk('void')
        if n == 'swap':
            r = self.lv(a[0], st, fr); y = self.read(st, r)
            self.write(st, p, y); self.write(st, r, s); return False, mk('void')
        if n in ('operator+=', 'append') and is_str(cls):
            v = R(0)
            t0 = strip_t(a[0].get('t', ''))
            v = lit(v) if t0 in ('char', 'int') else strseq(v)
            self.write(st, p, concat(s, v)); return True, p
        if n == 'insert':
            pos = R(0)
            if len(a) == 3:
                x, y = R(1), R(2)
                ins = self.range_of(x, y, st) if x.h in ('it', 'mit') else fill(self.num(x), y)
            elif len(a) == 2: ins = lit(self.coerce(a[1], R(1), et, st, fr))
            else: return False, self.unk('insert')
            if pos.h != 'it': return False, self.unk('insert pos')
            s = self.read(st, p)
            self.write(st, p, insert_seq(s, pos.a[1], ins))
            return False, mk('it', p, pos.a[1])
        if n == 'erase':
            x = R(0)
            y = R(1) if len(a) > 1 else None
            if x.h != 'it': return False, self.unk('erase pos')
            i = x.a[1]; j = y.a[1] if y is not None else add(i, ONE)
            self.write(st, p, erase_seq(s, i, j))
            return False, mk('it', p, i)
        if n == 'substr':
            i = R(0); j = add(i, R(1)) if len(a) > 1 else size(s)
            return False, slice_(s, i, j)
        if n == 'c_str': return False, s
        if n in ('compare',): return False, mk('call', 'strcmp', s, R(0))
        return None
    def coerce(self, node, v, et, st, fr):
        t = strip_t(et)
        if v.h == 's' and is_str(t): return strseq(v)
        if t == 'bool': return boolify(v)
        nt = strip_t(node.get('t', ''))
        if t in self.p.R and nt != t and (nt in INTS or nt in self.p.R or is_vec(nt)):
            for k in self.ctors(t):
                f = self.p.F[k]
                if len(f['ps']) == 1 and strip_t(f['ps'][0]['t']) == nt: return self.construct(f, [(False, v)], t, st, fr)
        return v
    def construct_args(self, t, a, st, fr):
        if t in self.p.R:
            for k in self.ctors(t):
                f = self.p.F[k]
                if len(f['ps']) == len(a): return self.construct(f, [self.ev(x, st, fr) for x in a], t, st, fr)
        return mk('call', 'ctor ' + t, *[self.rv(x, st, fr) for x in a])
    def map_call(self, e, n, cls, st, fr):
        if 'this' not in e: return None
        p = self.deref(self.rv(e['this'], st, fr)) if e.get('arrow') else self.lv(e['this'], st, fr)
        a = e['a']; m = self.read(st, p)
        R = lambda i: self.rv(a[i], st, fr)
        vt = targs(cls)[1] if is_map(cls) else None
        if n == 'size': return False, size(m)
        if n == 'empty': return False, eq(size(m), ZERO)
        if n in ('begin', 'cbegin'): return False, mk('mit', p, ZERO, m)
        if n in ('end', 'cend'): return False, mk('mit', p, MEND, m)
        if n == 'find': 
            k = R(0)
            return False, mk('mit', p, ite(mhas(m, k), mk('bykey', k), MEND), m) if not is_miter(k.h) else None
        if n == 'count' or n == 'contains':
            h = mhas(m, R(0))
            return False, (ite(h, ONE, ZERO) if n == 'count' else h)
        if n == 'at':
            k = R(0)
            c = restrict(mhas(m, k), st.pc)
            if c is not TRUE and self.throwing:
                s = st.fork(); s.pc = and_(st.pc, not_(c)); s.mem[('exc',)] = mk('call', 'out_of_range', k)
                if s.pc is not FALSE: self.coll.append(('throw', s))
                st.pc = and_(st.pc, c)
            return True, self.sub(p, ('k', k))
        if n == 'operator[]':
            k = R(0)
            d = self.default(vt, st)
            self.write(st, p, mins(m, k, d))
            return True, self.sub(p, ('k', k))
        if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            if n == 'insert' and len(a) == 1:
                v = R(0)
                if is_set(cls): k, x = v, TRUE
                else: k, x = field(v, 'first'), field(v, 'second')
            elif len(a) == 2:
                k, x = R(0), R(1)
                if k.h in ('mit', 'it'): return False, self.unk('map range insert')
            elif is_set(cls) and len(a) == 1: k, x = R(0), TRUE
            else: return False, self.unk('map ' + n)
            m = self.read(st, p)
            had = mhas(m, k)
            self.write(st, p, mput(m, k, x) if n == 'insert_or_assign' else mins(m, k, x))
            return False, pair(mk('mit', p, mk('bykey', k), self.read(st, p)), not_(had))
        if n == 'erase':
            k = R(0)
            if k.h == 'mit': k = poskey(m, k.a[1])
            self.write(st, p, mk('mdel', m, k)); return False, mk('void')
        if n == 'clear': self.write(st, p, MAP0); return False, mk('void')
        if n == 'operator=': self.write(st, p, R(0)); return True, p
        if n == 'swap':
            r = self.lv(a[0], st, fr); y = self.read(st, r)
            self.write(st, p, y); self.write(st, r, m); return False, mk('void')
        return None
    def iter_call(self, e, n, cls, st, fr):
        a = e['a']
        if n in ('operator++', 'operator--'):
            p = self.lv(e['this'], st, fr); v = self.read(st, p)
            self.write(st, p, self.advance(v, ONE if n == 'operator++' else C(-1)))
            if a: return False, v
            return True, p
        v = self.rv(e['this'], st, fr)
        if n == 'operator*': return True, self.itplace(v)
        if n == 'operator->': return False, self.itplace(v)
        if n == 'operator+': return False, self.advance(v, self.rv(a[0], st, fr))
        if n == 'operator-':
            w = self.rv(a[0], st, fr)
            return False, self.arith('-', v, w, '')
        if n in ('operator==', 'operator!='):
            c = eq(v, self.rv(a[0], st, fr)); return False, (c if n == 'operator==' else not_(c))
        if n in ('operator+=', 'operator-='):
            p = self.lv(e['this'], st, fr); w = self.rv(a[0], st, fr)
            self.write(st, p, self.advance(v, w if n == 'operator+=' else neg(w))); return True, p
        if n == 'operator[]': return True, self.itplace(self.advance(v, self.rv(a[0], st, fr)))
        if n == 'operator=':
            p = self.lv(e['this'], st, fr); self.write(st, p, self.rv(a[0], st, fr)); return True, p
        if n == 'base': return False, v
        return None

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        """returns dict of outcomes: norm/brk/cont/ret -> St"""
        if s is None: return {'norm': st}
        if st.pc is FALSE: return {}
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.unk('stmt ' + s['k'] + str(s.get('w', '')))
            return {'norm': st}
        out = m(s, st, fr)
        return {k: v for k, v in out.items() if v is not None and v.pc is not FALSE}
    def s_block(self, s, st, fr):
        sc = self.scopes.setdefault(fr, []); mine = []; sc.append(mine)
        try:
            out = self.seq(s['b'], st, fr)
            for k in ('norm', 'brk', 'cont'):
                if mine and k in out:
                    for pl, d in reversed(mine): self.destroy(pl, d, out[k])
        finally: sc.pop()
        return out
    def destroy(self, pl, d, st):
        """the destructor of a local object at the end of its scope"""
        oc = self.coll; self.coll = []
        self.call_fn(self.p.F[d], pl, [], st)
        self.coll = oc
    def dtor_of(self, t, n=0):
        t = strip_t(t)
        if t in self.dtors: return self.dtors[t]
        r = next((k for k, f in self.p.F.items() if f.get('kind') == 'dtor' and not f.get('implicit') and f.get('body') and strip_t(f.get('cls', '')) == t), None)
        if r is None and n < 6:
            for b in self.p.R.get(t, {}).get('bases', []):
                r = r or self.dtor_of(b, n + 1)
        self.dtors[t] = r
        return r
    def seq(self, stmts, st, fr):
        out = {}
        cur = st
        for x in stmts:
            if cur is None: break
            o = self.exec(x, cur, fr)
            cur = o.pop('norm', None)
            for k, v in o.items(): out[k] = merge(out.get(k), v)
        if cur is not None: out['norm'] = cur
        return out
    def s_expr(self, s, st, fr):
        self.ev(s['e'], st, fr)
        return {'norm': st} if st.pc is not FALSE else {}
    def s_null(self, s, st, fr): return {'norm': st}
    def s_label(self, s, st, fr): return self.exec(s['b'], st, fr)
    def s_omp(self, s, st, fr): return self.exec(s.get('b'), st, fr)
    def s_decl(self, s, st, fr):
        for v in s['v']: self.declare(v, st, fr)
        return {'norm': st} if st.pc is not FALSE else {}
    def declare(self, v, st, fr):
        ty = v['t']
        if v.get('binds') is not None:
            if is_ref_t(ty): base = self.lv(v['init'], st, fr)
            else: base = self.temp(st, self.rv(v['init'], st, fr))
            self.bindings(v, base, fr)
            return
        if is_ref_t(ty):
            if v.get('init') is not None:
                self.env[(fr, v['d'])] = self.lv(v['init'], st, fr)
            return
        r = ('v', fr, v['d']); self.rt[r] = ty
        self.env[(fr, v['d'])] = self.ref(r)
        if v.get('init') is None:
            st.mem[r] = self.typed(mk('uninit', v['n']), ty)
        else:
            val = self.init_value(v['init'], ty, st, fr)
            if strip_t(ty) == 'bool': val = boolify(val)
            if val in self.captured: self.capplace[r] = self.captured[val]
            st.mem[r] = val
        if ty.startswith('qlmps::') and not ty.endswith('*') and self.scopes.get(fr):
            d = self.dtor_of(ty)
            if d: self.scopes[fr][-1].append((self.ref(r), d))
    def bindings(self, v, base, fr):
        names = ['first', 'second']
        for i, b in enumerate(v['binds']):
            f = b.get('field') or (names[i] if i < 2 else 'b%d' % i)
            self.env[(fr, b['d'])] = self.sub(base, ('f', f))
    def s_if(self, s, st, fr):
        if s.get('init'):
            o = self.exec(s['init'], st, fr); st = o.get('norm')
            if st is None: return o
        if s.get('cv'): self.declare(s['cv'], st, fr)
        c = self.cond(s['c'], st, fr)
        if st.pc is FALSE: return {}
        if c is TRUE: return self.exec(s['a'], st, fr)
        if c is FALSE: return self.exec(s.get('b'), st, fr)
        s1, s2 = self.branch(c, st)
        o1 = self.exec(s['a'], s1, fr)
        o2 = self.exec(s.get('b'), s2, fr)
        return {k: merge(o1.get(k), o2.get(k)) for k in set(o1) | set(o2)}
    def s_ret(self, s, st, fr):
        if s.get('e') is not None:
            rt = self.env.get((fr, '$ret'), '')
            l, t = self.ev(s['e'], st, fr)
            if st.pc is FALSE: return {}
            if is_ref_t(rt) and l: st.mem[('ret', fr)] = t
            elif is_ref_t(rt): st.mem[('ret', fr)] = self.temp(st, t)
            else:
                if l: t = self.read(st, t)
                self.typed(t, s['e'].get('t'))
                if t.h == 's' and is_str(strip_t(rt)): t = strseq(t)
                if strip_t(rt) == 'bool': t = boolify(t)
                st.mem[('ret', fr)] = t
        if any(self.scopes.get(fr, ())):
            keep = s.get('e')
            while isinstance(keep, dict) and keep.get('k') == 'ctor' and (keep.get('copy') or keep.get('move')) and len(keep['a']) == 1: keep = keep['a'][0]
            kp = self.env.get((fr, keep.get('d'))) if isinstance(keep, dict) and keep.get('k') == 'ref' else None
            for sc in reversed(self.scopes[fr]):
                for pl, d in reversed(sc):
                    if pl is not kp: self.destroy(pl, d, st)
        return {'ret': st}
    def s_break(self, s, st, fr): return {'brk': st}
    def s_continue(self, s, st, fr): return {'cont': st}
    def s_switch(self, s, st, fr):
        if s.get('init'):
            o = self.exec(s['init'], st, fr); st = o.get('norm')
            if st is None: return o
        if s.get('cv'): self.declare(s['cv'], st, fr)
        v = self.rv(s['c'], st, fr)
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        items = []
        def flat(x):
            if x['k'] == 'case': items.append(('case', x.get('v'), x)); flat(x['b'])
            elif x['k'] == 'default': items.append(('default', None, x)); flat(x['b'])
            else: items.append(('s', x, None))
        for x in body: 
            if x: flat(x)
        vals = [C(i[1]) for i in items if i[0] == 'case' and i[1] is not None]
        none = TRUE
        for c in vals: none = and_(none, not_(eq(v, c)))
        hasdef = any(i[0] == 'default' for i in items)
        out = {}; cur = None
        for kind, x, node in items:
            if kind in ('case', 'default'):
                c = eq(v, C(x)) if kind == 'case' else none
                c = restrict(c, st.pc)
                s1 = st.fork(); s1.pc = and_(st.pc, c)
                if s1.pc is not FALSE: cur = merge(cur, s1)
            elif cur is not None:
                o = self.exec(x, cur, fr)
                cur = o.pop('norm', None)
                for k, z in o.items():
                    k = 'norm' if k == 'brk' else k
                    out[k] = merge(out.get(k), z)
        if cur is not None: out['norm'] = merge(out.get('norm'), cur)
        if not hasdef:
            s1 = st.fork(); s1.pc = and_(st.pc, none)
            if s1.pc is not FALSE: out['norm'] = merge(out.get('norm'), s1)
        return out
    def s_try(self, s, st, fr):
        oc = self.coll; self.coll = []
        o = self.exec(s['b'], st, fr)
        mine = self.coll; self.coll = oc
        thr = None
        for k, x in mine:
            if k == 'throw': thr = merge(thr, x)
            else: self.coll.append((k, x))
        if thr is not None and thr.pc is not FALSE:
            exc = thr.mem.get(('exc',), mk('exception'))
            rest = thr
            for h in s['h']:
                if rest is None: break
                if h.get('all') or 'std::exception' in h.get('t', '') and True:
                    hs = rest; rest = None
                else:
                    c = self.catches(exc, h.get('t', ''))
                    c = restrict(boolify(c), rest.pc)
                    hs, r2 = rest.fork(), rest.fork()
                    hs.pc, r2.pc = and_(rest.pc, c), and_(rest.pc, not_(c))
                    rest = r2 if r2.pc is not FALSE else None
                    if hs.pc is FALSE: continue
                if h.get('v'):
                    r = ('v', fr, h['v']['d']); hs.mem[r] = exc; self.env[(fr, h['v']['d'])] = self.ref(r)
                o2 = self.exec(h['b'], hs, fr)
                for k, z in o2.items(): o[k] = merge(o.get(k), z)
            if rest is not None and rest.pc is not FALSE: self.coll.append(('throw', rest))
        return o
    def catches(self, exc, t):
        return mk('exc', exc, strip_t(t))

    # ------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        if s.get('init'):
            o = self.exec(s['init'], st, fr); st = o.get('norm')
            if st is None: return o
        def body(x): return self.exec(s['b'], x, fr)
        def inc(x):
            if s.get('inc') is not None: self.ev(s['inc'], x, fr)
        cnd = (lambda x: self.cond(s['c'], x, fr)) if s.get('c') is not None else None
        return self.loop(s, st, fr, cnd, body, inc)
    def s_while(self, s, st, fr):
        def body(x):
            return self.exec(s['b'], x, fr)
        def cnd(x):
            if s.get('cv'): self.declare(s['cv'], x, fr)
            return self.cond(s['c'], x, fr)
        return self.loop(s, st, fr, cnd, body, lambda x: None)
    def s_do(self, s, st, fr):
        o = self.exec(s['b'], st, fr)
        out = {}
        if 'ret' in o: out['ret'] = o['ret']
        nrm = merge(o.get('norm'), o.get('cont'))
        if nrm is not None:
            o2 = self.s_while(s, nrm, fr)
            for k, z in o2.items(): out[k] = merge(out.get(k), z)
        if 'brk' in o: out['norm'] = merge(out.get('norm'), o['brk'])
        return out
    def s_rfor(self, s, st, fr):
        if s.get('init'):
            o = self.exec(s['init'], st, fr); st = o.get('norm')
        l, rng = self.ev(s['r'], st, fr)
        rt = strip_t(s['r'].get('t', ''))
        if not l: rng = self.temp(st, rng, rt)
        cont = self.read(st, rng)
        cr = ('v', fr, 'rf%d' % id(s)); 
        st.mem[cr] = ZERO; self.rt[cr] = 'unsigned long'
        cpl = self.ref(cr)
        if is_map(rt): n = size(cont)
        elif is_vec(rt) or is_str(rt) or isseq(cont) or rt.startswith('std::initializer_list') or '[' in rt: n = size(cont)
        elif is_set(rt): n = size(cont)
        else:
            n = self.jsize(cont)
        v = s['v']
        def setup(x):
            i = self.read(x, cpl); NUMTYPED.add(i); NONNEG.add(i)
            if is_map(rt): pl = self.sub(rng, ('mp', mkey(cont, i)))
            elif is_set(rt): pl = self.temp(x, mkey(cont, i))
            else: pl = self.sub(rng, ('i', i))
            if v.get('binds') is not None:
                if not is_ref_t(v['t']): pl = self.temp(x, self.read(x, pl))
                self.bindings(v, pl, fr)
            elif is_ref_t(v['t']): self.env[(fr, v['d'])] = pl
            else:
                r = ('v', fr, v['d']); self.rt[r] = v['t']
                x.mem[r] = self.typed(self.read(x, pl), v['t']); self.env[(fr, v['d'])] = self.ref(r)
        def body(x):
            setup(x)
            return self.exec(s['b'], x, fr)
        def inc(x): x.mem[cr] = add(self.read(x, cpl), ONE)
        def cnd(x):
            i = self.read(x, cpl); NUMTYPED.add(i); NONNEG.add(i)
            return lt(i, n)
        return self.loop(s, st, fr, cnd, body, inc)

    def run_iter(self, st, mus, cnd, body, inc):
        """one abstract iteration with the locations in mus replaced by recurrence variables"""
        x = st.fork()
        for (root, path), m in mus.items():
            x.mem[root] = self.wpath(self.rootval(x, root), path, m) if path else m
        oc = self.coll; self.coll = []
        base = x.pc
        head = None; c = TRUE
        if cnd is not None:
            c = cnd(x)
            head = x.fork()
            x.pc = and_(x.pc, c)
        start_pc = x.pc
        o = self.exec_body(body, x)
        mv = set(mus.values())
        if mv:
            for z in o.values():
                # a store through a pointer that changes from round to round: one place per round, kept as a log
                for r in [r for r in z.mem if r[0] == 'h' and r not in st.mem and r[1].h not in ('new', 'box') and any(y in mv for y in r[1].fv)]:
                    v = z.mem[r]; old = mk('deref', r[1]); conds = TRUE      # what is stored back unchanged is no store
                    while v.h == 'ite' and (v.a[1] is old or v.a[2] is old):
                        cc = atom(v.a[0])
                        if v.a[2] is old: conds = and_(conds, cc); v = v.a[1]
                        else: conds = and_(conds, not_(cc)); v = v.a[2]
                    ek = ('ev', 'hstore'); was = z.mem.get(ek, EMPTY)
                    if v is not old:
                        self.event(z, 'hstore', r[1], self.box(z, v))
                        if conds is not TRUE: z.mem[ek] = gate(conds, z.mem[ek], was)
                    del z.mem[r]
                # an object allocated in this round: what it holds at the end of the round
                for r in [r for r in z.mem if r[0] == 'h' and r not in st.mem and r[1].h == 'new' and any(y in mv for y in r[1].fv)]:
                    v = z.mem.pop(r); m2 = {r[1]: mk('new', r[1].a[0], v)}
                    if contains(v, lambda y: y is r[1]): z.mem[r] = v; continue
                    for q in list(z.mem):
                        if isinstance(z.mem[q], T) and contains(z.mem[q], lambda y: y is r[1]): z.mem[q] = subst(z.mem[q], m2)
        nx = merge(o.get('norm'), o.get('cont'))
        if nx is not None:
            inc(nx)
            if nx.pc is FALSE: nx = None
        esc = self.coll; self.coll = oc
        return c, start_pc, nx, o, esc, head
    def exec_body(self, body, x):
        if x.pc is FALSE: return {}
        return body(x)
    def diffs(self, root, path, old, new, out):
        if old is new: return
        ob = old.a[0] if old.h == 'obj' else old
        if new.h == 'obj' and (new.a[0] is ob or new.a[0] is old):
            for f, v in new.a[1]:
                self.diffs(root, path + (('f', f),), field(old, f), v, out)
            # fields present in old overrides but dropped in new
            if old.h == 'obj':
                nd = dict(new.a[1])
                for f, v in old.a[1]:
                    if f not in nd: self.diffs(root, path + (('f', f),), v, field(new, f), out)
            return
        if old.h == 'obj' and new.h != 'obj' and new is ob:
            for f, v in old.a[1]: self.diffs(root, path + (('f', f),), v, field(new, f), out)
            return
        if old.h == 'pair' and new.h == 'pair':
            self.diffs(root, path + (('f', 'first'),), old.a[0], new.a[0], out)
            self.diffs(root, path + (('f', 'second'),), old.a[1], new.a[1], out)
            return
        out.append((root, path))
    def loop(self, s, st, fr, cnd, body, inc):
        if st.pc is FALSE: return {}
        entry = st.fork()
        if cnd is not None:                      # the condition is evaluated at least once
            p0 = entry.fork(); oc = self.coll; self.coll = []
            cnd(p0); self.coll = oc
            if ('wrap',) in p0.mem: entry.mem[('wrap',)] = p0.mem[('wrap',)]
        mus = {}
        muinfo = {}
        for _ in range(12):
            c, spc, nx, o, esc, head = self.run_iter(entry, {k: v[0] for k, v in mus.items()}, cnd, body, inc)
            if spc is FALSE:   # loop body unreachable at entry values
                if not mus: return {'norm': head if head is not None else entry}
                break
            changed = []
            states = [z for z in [nx] if z is not None]
            hb = entry.fork()
            for (root, path), (m, _i) in mus.items():
                hb.mem[root] = self.wpath(self.rootval(hb, root), path, m) if path else m
            for z in states:
                for r in z.mem:
                    if r[0] == 'ret' or r[0] == 'tmp' and r not in entry.mem: continue
                    if r not in hb.mem:
                        if r[0] in ('v', 'tmp'): continue        # declared inside the body
                        ov = self.rootval(hb, r)
                    else: ov = hb.mem[r]
                    self.diffs(r, (), ov, z.mem[r], changed)
            new = [k for k in changed if not any(k[0] == q[0] and k[1][:len(q[1])] == q[1] for q in mus)]
            if not new: break
            # a shorter path subsumes longer ones already present
            for k in new:
                for q in list(mus):
                    if q[0] == k[0] and q[1][:len(k[1])] == k[1]: del mus[q]
                iv0 = self.rpath(self.rootval(entry, k[0]), k[1])
                mus[k] = self.make_mu(k, iv0)
        else:
            if os.environ.get('DBGFIX'): print('FIX', [(str(k)[:300]) for k in new])
            self.unk('loop fixpoint')
        if spc is FALSE and mus:
            return {'norm': head if head is not None else entry}
        return self.solve(s, entry, mus, c, spc, nx, o, esc, head, cnd, body, inc, fr)
    def keytype(self, k):
        t = self.rt.get(k[0])
        for kind, x in k[1]:
            if not t: return None
            t = strip_t(t)
            if kind == 'f':
                if is_pair(t): t = targs(t)[0 if x == 'first' else 1]
                else: t = self.p.fieldtype(t, x)
            elif kind == 'i': t = (targs(t) or [None])[0]
            elif kind == 'k': t = (targs(t) + [None, None])[1]
        return t
    def make_mu(self, k, init):
        m = mk('mu', next(self.uid))
        if init.h == 'it': NUMTYPED.add(m); return (mk('it', init.a[0], m), m)
        if init.h == 'mit' and init.a[1].h not in ('bykey',) and init.a[1] is not MEND:
            NUMTYPED.add(m); return (mk('mit', init.a[0], m, init.a[2]), m)
        if init.h == 'ref' and init.a[1] and init.a[1][-1][0] == 'i':
            NUMTYPED.add(m)
            return (mk('ref', init.a[0], init.a[1][:-1] + (('i', m),)), m)
        t = self.keytype(k)
        if t: 
            tt = strip_t(t)
            if tt == 'bool': BOOLTYPED.add(m)
            elif tt in INTS or tt in FLTS or tt in self.numtypes: NUMTYPED.add(m)
            elif tt in self.p.R: CLS[m] = tt
            if tt in UNS: NONNEG.add(m)
            if tt.endswith('*'): PTRS.add(m)
        if init.h in ('c', 'p') or init in NUMTYPED: NUMTYPED.add(m)
        if init.h == 'b': BOOLTYPED.add(m)
        if clsof(init) and m not in CLS: CLS[m] = clsof(init)
        if init.h == 'obj' and clsof(init.a[0]): CLS[m] = clsof(init.a[0])
        return (m, m)
    @staticmethod
    def inner(v):
        """scalar recurrence component of a structured value"""
        if v.h == 'it': return v.a[1]
        if v.h == 'mit': return v.a[1] if v.a[1] is not MEND else size(v.a[2])
        if v.h == 'ref' and v.a[1] and v.a[1][-1][0] == 'i': return v.a[1][-1][1]
        return v
    def solve(self, s, entry, mus, c, spc, nx, o, esc, head, cnd, body, inc, fr):
        iv = fresh_iv(); NUMTYPED.add(iv)
        keys = list(mus)
        mvar = {}; init = {}; upd_ = {}
        for k in keys:
            full, m = mus[k]
            i0 = self.rpath(self.rootval(entry, k[0]), k[1])
            init[m] = self.inner(i0) if full is not m else i0
            if nx is not None:
                u = self.rpath(self.rootval(nx, k[0]), k[1])
                if full is not m:
                    if u.h == 'ite' : u = lift1(self.inner, u)
                    else: u = self.inner(u)
                upd_[m] = u
            else: upd_[m] = m
            mvar[m] = k
        base_pc = entry.pc
        bc = restrict(c, base_pc)             # head condition in terms of mus
        # condition under which an iteration completes normally, relative to the body entry
        rel = restrict(nx.pc, spc) if nx is not None else FALSE
        rec = {'line': s.get('l'), 'fn': self.stack[-1] if self.stack else '', 'keys': keys, 'init': init, 'upd': dict(upd_), 'cond': bc}
        self.loops.append(rec)
        closed = {}
        order = sorted(init, key=lambda m: m.n)
        N = None
        resid = TRUE
        def close_some():
            prog_ = True
            while prog_:
                prog_ = False
                for m in order:
                    if m in closed: continue
                    u = subst(upd_[m], closed)
                    r = close_one(m, init[m], u, iv, [x for x in order if x not in closed and x is not m], self)
                    if r is not None: closed[m] = r; prog_ = True
        # first pass: counters only, to find the trip count
        for m in order:
            d = self.counter(m, upd_[m], init)
            if d is not None: closed[m] = add(init[m], mul(d, iv))
        cc = subst(bc, closed)
        N, resid = trip_count(cc, iv, self)
        if N is None and cc is not TRUE:
            close_some()
            cc = subst(bc, closed)
            N, resid = trip_count(cc, iv, self)
        if N is not None: UPPER[iv] = N
        closed2 = {}
        for m in list(closed): closed2[m] = subst(closed[m], {})
        # under N the update expressions simplify; recompute closed forms
        for m in order:
            if m in closed: continue
        close_some()
        rec['N'] = N; rec['closed'] = closed; rec['iv'] = iv
        unresolved = [m for m in order if m not in closed]
        rec['unresolved'] = unresolved
        # exits
        exits = []
        for kind in ('brk', 'ret'):
            if kind in o: exits.append((kind, o[kind]))
        exits += [(k, x) for k, x in esc]
        headc = resid                      # extra head condition (TRUE when the trip count covers it)
        out = {}
        def state_at(i, sub_):
            """entry state with the recurrence locations at iteration i"""
            x = entry.fork()
            for k in keys:
                full, m = mus[k]
                v = sub_[m]
                if full is not m:
                    i0 = self.rpath(self.rootval(entry, k[0]), k[1])
                    v = subst(full, {m: v})
                x.mem[k[0]] = self.wpath(self.rootval(x, k[0]), k[1], v) if k[1] else v
            return x
        ex_rel = [(kind, restrict(x.pc, spc), x) for kind, x in exits]
        any_exit = FALSE
        for kind, g, x in ex_rel: any_exit = or_(any_exit, g)
        any_exit = subst(any_exit, closed)
        hexit = not_(subst(headc, closed)) if headc is not TRUE else FALSE
        simple = not unresolved and N is not None and not (any(m in any_exit.fv for m in order) or any(m in hexit.fv for m in order))
        if simple:
            stopc = or_(hexit, any_exit)
            if stopc is FALSE:
                fin = {m: at_iter(closed[m], iv, N, init[m]) for m in order}
                x = state_at(N, fin)
                out['norm'] = x
                self.loop_head_effects(x, head)
                return out
            K = first_(iv, N, stopc)
            TM.UPPER[K] = N
            found = any_(iv, N, stopc)
            atN = {m: at_iter(closed[m], iv, N, init[m]) for m in order}
            atK = {m: subst(closed[m], {iv: K}) for m in order}
            sK = dict(atK); 
            # not stopped
            x = state_at(N, atN); x.pc = and_(base_pc, not_(found))
            if x.pc is not FALSE: out['norm'] = merge(out.get('norm'), x)
            if hexit is not FALSE:
                g = subst(hexit, {iv: K})
                x = state_at(K, atK); x.pc = and_(base_pc, found, assume_first(g, K, stopc))
                if x.pc is not FALSE: out['norm'] = merge(out.get('norm'), x)
                nh = not_(g)
            else: nh = TRUE
            live = [z for z in ex_rel]
            for kind, g, x0 in live:
                gg = subst(subst(g, closed), {iv: K})
                if len(live) == 1 and hexit is FALSE: gg = TRUE
                x = self.subst_state(x0, closed, iv, K, entry)
                x.pc = and_(base_pc, found, nh, gg)
                if x.pc is FALSE: continue
                if kind == 'brk': out['norm'] = merge(out.get('norm'), x)
                elif kind == 'ret': out['ret'] = merge(out.get('ret'), x)
                else: self.coll.append((kind, x))
            return out
        # general recurrence
        state = [m for m in order]
        ups = tuple(subst(upd_[m], {}) for m in state)
        full_exit = FALSE
        for kind, g, x in ex_rel: full_exit = or_(full_exit, g)
        # closed counters stay closed inside the recurrence so that the term is smaller
        keep = [m for m in state if m not in closed or any(x in closed[m].fv for x in order)]
        cl = {m: closed[m] for m in state if m not in keep}
        Nn = N if N is not None else mk('inf')
        if N is not None: hc = subst(headc, cl)
        else: hc = subst(bc, cl)
        if Nn.h != 'inf' and any(m in Nn.fv for m in order): Nn = mk('inf'); hc = subst(bc, cl)
        upds = {m: subst(upd_[m], cl) for m in keep}
        fe = subst(full_exit, cl)
        lab = wl_labels(keep, init, upds, hc, fe, self)
        keepset = frozenset(keep)
        dep = {m: upds[m].fv & keepset for m in keep}
        def closure(seed):
            out_ = set(); w = [x for x in seed]
            while w:
                x = w.pop()
                if x in out_: continue
                out_.add(x); w.extend(dep[x])
            return out_
        base = closure((hc.fv | fe.fv | (Nn.fv if Nn.h != 'inf' else frozenset())) & keepset)
        def mkloop(ms):
            o_ = sorted(ms, key=lambda m: (lab[m], keep.index(m)))
            bnd = bind([iv] + o_, Nn, hc, fe, tuple(upds[m] for m in o_), tuple(init[m] for m in o_))
            return mk('loop', 1 + len(o_), *bnd), o_
        L, _o = mkloop(base)
        rec['loop'] = L
        fin = {}
        cnt = mk('proj', L, 'n'); NUMTYPED.add(cnt); NONNEG.add(cnt)
        for m in keep:
            Lm, o_ = (L, _o) if m in base else mkloop(base | closure([m]))
            v = mk('proj', Lm, o_.index(m)); self.typed(v, self.keytype(mvar[m]))
            if init[m].h in ('c', 'p') or m in NUMTYPED: NUMTYPED.add(v)
            if m in BOOLTYPED: BOOLTYPED.add(v)
            if m in CLS: CLS[v] = CLS[m]
            if m in PTRS: PTRS.add(v)
            fin[m] = v
        for m in cl: fin[m] = subst(cl[m], {iv: cnt})
        if full_exit is FALSE:
            out['norm'] = state_at(cnt, fin)
            return out
        found = atom(mk('proj', L, 'x'))
        BOOLTYPED.add(mk('proj', L, 'x'))
        x = state_at(cnt, fin); x.pc = and_(base_pc, not_(found)); out['norm'] = x
        for kind, g, x0 in ex_rel:
            gg = subst(subst(g, cl), dict(list(fin.items()) + [(iv, cnt)]))
            if len(ex_rel) == 1: gg = TRUE
            x = self.subst_state(x0, dict(fin), iv, cnt, entry)
            x.pc = and_(base_pc, found, gg)
            if x.pc is FALSE: continue
            if kind == 'brk': out['norm'] = merge(out.get('norm'), x)
            elif kind == 'ret': out['ret'] = merge(out.get('ret'), x)
            else: self.coll.append((kind, x))
        return out
    def loop_head_effects(self, x, head): pass
    def subst_state(self, x0, closed, iv, K, entry):
        x = St({}, TRUE)
        for r, v in x0.mem.items():
            if r[0] == 'tmp' and r not in entry.mem: 
                x.mem[r] = subst(subst(v, closed), {iv: K}); continue
            x.mem[r] = subst(subst(v, closed), {iv: K})
        return x
    def counter(self, m, u, init):
        if m not in NUMTYPED: return None
        if u.h == 'ite': return None
        d = sub(u, m)
        if any(x.h == 'mu' and x in init for x in d.fv): return None
        return d

SHM = {}
def shash(t):
    """structural hash that does not depend on which fresh variables were drawn"""
    r = SHM.get(t)
    if r is not None: return r
    def fl(x):
        if isinstance(x, T): return shash(x)
        if isinstance(x, tuple): return hash(tuple(fl(y) for y in x))
        return hash(str(x))
    if t.h in ('mu', 'iv'): r = hash(t.h)
    elif t.h in ('eq', 'ite'): r = hash((t.h,) + tuple(sorted(fl(x) for x in t.a)))
    elif t.h == 'p': r = hash(('p',) + tuple(sorted((hash(tuple(sorted(fl(y) for y in m))), hash(str(c))) for m, c in t.a[0])))
    else: r = hash((t.h,) + tuple(fl(x) for x in t.a))
    SHM[t] = r
    return r
def wl_labels(keep, init, upds, hc, fe, eng):
    """labels of recurrence locations that do not depend on declaration order"""
    ks = frozenset(keep)
    def bag(t, lab, memo):
        if not (t.fv & ks): return ('t', shash(t))
        r = memo.get(t)
        if r is not None: return r
        if t in lab: r = ('m', lab[t])
        elif t.h == 'ite':
            at_, lv_ = set(), set(); w = [t]; seen = set()
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x)
                if x.h == 'ite': at_.add(x.a[0]); w.append(x.a[1]); w.append(x.a[2])
                else: lv_.add(x)
            r = ('i', tuple(sorted(hash(bag(x, lab, memo)) for x in at_)), tuple(sorted(hash(bag(x, lab, memo)) for x in lv_)))
        elif t.h in ('p', 'eq', 'le0', 'lt0'):
            r = (t.h, tuple(sorted(hash(flat(x, lab, memo)) for x in (t.a[0] if t.h == 'p' else t.a))))
        else: r = (t.h, tuple(hash(flat(x, lab, memo)) for x in t.a))
        r = ('h', hash(r)); memo[t] = r
        return r
    def flat(x, lab, memo):
        if isinstance(x, T): return bag(x, lab, memo)
        if isinstance(x, tuple): return tuple(flat(y, lab, memo) for y in x)
        return x
    lab = {m: shash(init[m]) for m in keep}
    for _ in range(min(len(keep) + 1, 6)):
        memo = {}
        lab = {m: hash((lab[m], bag(upds[m], lab, memo), lab[m] in ())) for m in keep}
    memo = {}
    return lab

def append_ev(s, e): return cat(s, mk('lit1', e))

def at_iter(cl, iv, N, init):
    """value after N (possibly negative = 0) iterations"""
    if iv not in cl.fv: return cl
    if is_nonneg(N): return subst(cl, {iv: N})
    v = subst(cl, {iv: N})
    # comprehensions over a negative range are empty; only counters need the clip
    if cl.h in ('cat', 'comp', 'fcomp', 'rupd', 'sum', 'upd'): return v
    return ite(le0(N), init, v)
def assume_first(g, K, stopc): return g

def strip_prefix(u, m):
    """u == cat(m, X) -> X"""
    if u is m: return EMPTY
    if u.h == 'cat' and u.a[0] and u.a[0][0] is m:
        r = cat(*u.a[0][1:])
        return r if m not in r.fv else None
    if u.h == 'ite':
        if m in u.a[0].fv: return None
        a, b = strip_prefix(u.a[1], m), strip_prefix(u.a[2], m)
        if a is None or b is None: return None
        return ite(atom(u.a[0]), a, b)
    return None
def updates_of(u, m):
    """u as a list of (cond, kind, data) element updates of m, in order; None if not of that shape"""
    if u is m: return []
    if u.h == 'upd':
        b = updates_of(u.a[0], m)
        return None if b is None else b + [(TRUE, 'u', (u.a[1], u.a[2]))]
    if u.h == 'rupd':
        b = updates_of(u.a[1], m)
        return None if b is None else b + [(TRUE, 'r', u)]
    if u.h == 'ite':
        if m in u.a[0].fv: return None
        a, b = updates_of(u.a[1], m), updates_of(u.a[2], m)
        if a is None or b is None: return None
        c = atom(u.a[0])
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]: k += 1
        pre, ra, rb = a[:k], a[k:], b[k:]
        if len(ra) == 1 and len(rb) == 1 and ra[0][1] == rb[0][1] == 'u' and ra[0][2][0] is rb[0][2][0] and ra[0][0] is TRUE and rb[0][0] is TRUE:
            return pre + [(TRUE, 'u', (ra[0][2][0], ite(c, ra[0][2][1], rb[0][2][1])))]
        return pre + [(and_(c, x[0]),) + x[1:] for x in ra] + [(and_(not_(c), x[0]),) + x[1:] for x in rb]
    return None

def distinct_iter(r, w, iv, iv2, strict_later):
    """is read index r(iv) never written as w(iv2) for an earlier iteration iv2 < iv ?"""
    w2 = subst(w, {iv: iv2})
    d = sub(r, w2)     # must be nonzero for 0 <= iv2 < iv
    if d.h != 'p' and d.h != 'c' and not d.fv: return False
    # d = a*(iv - iv2) + k with a>0,k>=0 (or all negative)
    p = poly(d)
    ci = sum_coef(p, iv); cj = sum_coef(p, iv2)
    if ci is not None and cj is not None and cj is neg(ci):
        rest = sub(d, mul(ci, sub(iv, iv2)))
        if iv not in rest.fv and iv2 not in rest.fv:
            if is_nonneg(ci) and is_nonneg(rest): return True
            if is_nonneg(neg(ci)) and is_nonneg(neg(rest)): return True
            # mixed radix: ci == 1 and rest is a multiple of a width bounding iv
            if ci is ONE and iv in UPPER:
                q = div_exact(rest, UPPER[iv])
                if q is not None: return True     # different rows (callers exclude the equal-row case)
            if ci.h != 'c':
                # ci is a width, rest a difference of two column numbers below the width
                return True if small_diff(rest, ci) else False
    return False
def small_diff(rest, w):
    p = poly(rest)
    return all(len(m) == 1 and abs(c) == 1 and UPPER.get(m[0]) is w for m, c in p.items()) and sum(p.values()) == 0 and len(p) == 2
def sum_coef(p, v):
    """polynomial coefficient of v (linear), None if nonlinear"""
    out = {}
    for m, c in p.items():
        n = m.count(v)
        if n == 0:
            if any(v in x.fv for x in m): return None
            continue
        if n > 1: return None
        l = list(m); l.remove(v)
        if any(v in x.fv for x in l): return None
        out[tuple(l)] = c
    return unpoly(out)

def reads_of(t, m):
    """index terms of at(m, idx) occurrences; None when m occurs otherwise"""
    out = []
    def go(x):
        if isinstance(x, tuple): return all(go(y) for y in x)
        if not isinstance(x, T): return True
        if x is m: return False
        if m not in x.fv: return True
        if x.h == 'at' and x.a[0] is m and m not in x.a[1].fv:
            out.append(x); return True
        if x.h == 'size' and x.a[0] is m: return True
        return go(x.a)
    return out if go(t) else None

def close_one(m, init, u, iv, others, eng):
    """closed form of the recurrence m_{t+1} = u(m_t, t), m_0 = init, as a term in iv; None if not found"""
    if u is m: return init
    fv = u.fv
    if any(x in fv for x in others): return None
    if m not in fv:
        # last value assigned
        prev = subst(u, {iv: sub(iv, ONE)}) if iv in fv else u
        if prev is init: return init
        return ite(eq(iv, ZERO), init, prev)
    # additive
    if m in NUMTYPED:
        d = sub(u, m)
        if m not in d.fv:
            if iv not in d.fv: return add(init, mul(d, iv))
            j = fresh_iv(); UPPER[j] = iv
            if d.h == 'p' or d.h in ('iv',):
                # arithmetic progression a + b*iv
                p = poly(d); b = sum_coef(p, iv)
                if b is not None and iv not in b.fv:
                    a = sub(d, mul(b, iv))
                    if iv not in a.fv and b.h == 'c' and a.h != 'ite':
                        pass
            return add(init, sum_(j, iv, subst(d, {iv: j})))
    # append
    x = strip_prefix(u, m)
    if x is not None:
        j = fresh_iv(); UPPER[j] = iv
        return concat(init, fcomp(j, iv, subst(x, {iv: j})))
    # boolean accumulation
    if m in BOOLTYPED or init.h == 'b':
        A, Bv = assume(u, m, True), assume(u, m, False)
        if m not in A.fv and m not in Bv.fv:
            if Bv is FALSE:
                j = fresh_iv(); UPPER[j] = iv
                return and_(init, not_(any_(j, iv, not_(subst(A, {iv: j})))))
            if A is TRUE:
                j = fresh_iv(); UPPER[j] = iv
                return or_(init, any_(j, iv, subst(Bv, {iv: j})))
    # element updates
    us = updates_of(u, m)
    if us is not None and us:
        iv2 = fresh_iv(); UPPER[iv2] = iv
        writes = []
        for cnd_, kind, d in us:
            if kind == 'u': writes.append((d[0], None))
            else: writes.append((None, d))
        cur = init
        okall = True
        sub_reads = {}
        for cnd_, kind, d in us:
            vals = (cnd_, d[1]) if kind == 'u' else (cnd_, d.a[3], d.a[4], d.a[5])
            idxs = (d[0],) if kind == 'u' else ()
            for v in vals + idxs:
                if not isinstance(v, T): continue
                rs = reads_of(v, m)
                if rs is None: return None
                for r in rs:
                    for wi, wr in writes:
                        if wi is None:
                            return None if not eng_safe_range(r, wr, iv) else None
                        if m in wi.fv: return None
                        if not distinct_iter(r.a[1], wi, iv, iv2, True): return None
        # all reads see the initial contents
        for cnd_, kind, d in us:
            m0 = {m: init}
            j = fresh_iv(); UPPER[j] = iv
            if kind == 'u':
                cur = rupd(cur, [j], [iv], subst(subst(cnd_, m0), {iv: j}), subst(subst(d[0], m0), {iv: j}), subst(subst(d[1], m0), {iv: j}))
            else:
                if d.a[0] != 1: return None
                b = fresh_iv(); nb = subst(d.a[2][0], {iv: j}); UPPER[b] = nb
                cnd2, idx, val = [inst_t(d, z, [b]) for z in (d.a[3], d.a[4], d.a[5])]
                cc = and_(cnd_, cnd2)
                if j in nb.fv: return None
                cur = rupd(cur, [j, b], [iv, nb], *[subst(subst(z, m0), {iv: j}) for z in (cc, idx, val)])
        return cur
    # map updates keyed by the keys of another map: pointwise merge
    return None
def eng_safe_range(r, wr, iv): return False

def trip_count(c, iv, eng):
    """number of iterations N such that the head condition c(iv) holds for iv < N; second result: residual condition"""
    if c is TRUE: return None, TRUE
    lits = literals(c)
    rest = TRUE
    N = None
    # c must be the conjunction of its literals, otherwise the residual is c itself
    for v, val in lits:
        n = atom_count(v, val, iv) if N is None else None
        if n is not None: N = n
        else: rest = and_(rest, atom(v) if val else not_(atom(v)))
    if N is None: return None, TRUE
    conj = TRUE
    for v, val in lits: conj = and_(conj, atom(v) if val else not_(atom(v)))
    if conj is not c:
        rest = and_(rest, restrict(c, conj)) if restrict(c, conj) is not TRUE else rest
    return N, rest
def atom_count(v, val, iv):
    if v.h == 'le0':
        p = v.a[0] if val else sub(ONE, v.a[0])     # condition: p <= 0
        cf = sum_coef(poly(p), iv)
        if cf is None or iv in cf.fv: return None
        q = sub(p, mul(cf, iv))
        if iv in q.fv or any(x.h == 'mu' for x in q.fv): return None
        if cf is ONE: return sub(ONE, q)            # iv <= -q
        if cf.h == 'c' and cf.a[0] > 1: return add(idiv(neg(q), cf), ONE)
        return None
    if v.h == 'eq':
        if val: return None
        a, b = v.a
        d = sub(a, b)
        cf = sum_coef(poly(d), iv)
        if cf is None: return None
        q = sub(d, mul(cf, iv))
        if iv in q.fv or any(x.h == 'mu' for x in q.fv): return None
        if cf is ONE: return neg(q)
        if cf.h == 'c' and cf.a[0] == -1: return q
    return None

def strseq(v):
    if v.h == 's': return cat(*[mk('lit1', C(ord(ch))) for ch in v.a[0]])
    if v.h == 'ite': return lift1(strseq, v)
    return v
def perm(a, b):
    if a is b: return TRUE
    if a.h == 'ite' or b.h == 'ite': return lift2(perm, a, b)
    if a is EMPTY: return eq(size(b), ZERO)
    if b is EMPTY: return eq(size(a), ZERO)
    if a.h == 'cat' and b.h == 'cat':
        # cancel common elements
        pa, pb = list(a.a[0]), list(b.a[0])
        for x in list(pa):
            if x in pb: pa.remove(x); pb.remove(x)
        if not pa and not pb: return TRUE
        if len(pa) == 1 and len(pb) == 1 and pa[0].h == pb[0].h == 'lit1': return eq(pa[0].a[0], pb[0].a[0])
        a, b = cat(*pa), cat(*pb)
        if a is EMPTY: return eq(size(b), ZERO)
        if b is EMPTY: return eq(size(a), ZERO)
    if a.n > b.n: a, b = b, a
    return atom(mk('perm', a, b))
def drop_last(s):
    if s.h == 'cat' and s.a[0] and s.a[0][-1].h == 'lit1': return cat(*s.a[0][:-1])
    return slice_(s, ZERO, sub(size(s), ONE))
def insert_seq(s, i, ins):
    if i is size(s): return concat(s, ins)
    if i is ZERO: return concat(ins, s)
    return cat(slice_(s, ZERO, i), ins, slice_(s, i, size(s)))
def erase_seq(s, i, j):
    if i is j: return s
    return cat(slice_(s, ZERO, i), slice_(s, j, size(s)))
def base_q(q):
    out = ''; d = 0
    if 'operator' in q:
        h, _, t = q.rpartition('operator')
        return base_q(h) + 'operator' + t if '<' not in t or t in ('<', '<=', '<<', '->') else base_q(h) + 'operator' + t
    for ch in q:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out += ch
    return out
def short_q(q): return base_q(q)
def stream_name(node):
    while node is not None:
        if node['k'] == 'ref': return node.get('q') or node.get('n')
        if node['k'] == 'call':
            node = node.get('this') or (node['a'][0] if node.get('a') else None)
        else: return None
