"""C29: conflicting accesses of OpenMP regions.

For every parallel loop, sections construct and parallel block of the type-checked program: the memory places its body
reads and writes (effects of repo callees included, through references, pointers and globals) as access paths, and a
disjointness test between any two accesses of different iterations or sections of which one is a write."""
from rules.common import Ob, loc, walk, functions
ACCESS = {'operator[]', 'at', 'begin', 'end', 'data', 'front', 'back', 'get', 'operator*', 'operator->', 'find', 'count', 'size', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'equal_range', 'c_str', 'empty', 'length', 'cbegin', 'cend', 'capacity', 'native_handle'}
HEAD = {'size', 'empty', 'length', 'capacity', 'data', 'begin', 'end', 'cbegin', 'cend', 'max_size'}     # read the container, not its elements
PRIV = {'private', 'firstprivate', 'lastprivate', 'reduction', 'linear', 'in_reduction', 'task_reduction'}
LOCKED = {'critical', 'atomic', 'single', 'master', 'masked', 'ordered'}
LOCKS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<')
FREE = ('std::atomic', 'std::mutex', 'std::basic_ostream', 'std::ostream', 'std::atomic_flag')

def strip(e):
    while isinstance(e, dict) and e.get('k') == 'cast' and e.get('e') is not None: e = e['e']
    return e
class Eff(object):
    """accesses of a statement: (root, path, 'r'|'w', line); root = ('v', d) | ('this',) | ('g', d)"""
    def __init__(self, P): self.P = P; self.memo = {}
    def fn(self, fid, depth):
        """effects of a repo function on its parameters, object and globals, or None when it has no body"""
        if fid in self.memo: return self.memo[fid]
        f = self.P.F.get(fid)
        if not f or f.get('body') is None or not f.get('file') or '/include/qlmps/' not in f['file'] or depth > 8: return None
        self.memo[fid] = []
        ps = {p['d']: i for i, p in enumerate(f['ps']) if 'd' in p}
        out = []
        w = Walk(self, depth + 1); w.stmt(f['body'])
        for i in f.get('inits') or []:
            if isinstance(i, dict): w.expr(i.get('e') or i.get('init'))
        for root, path, m, l, lk in w.acc:
            if root[0] == 'v':
                if root[1] in ps:
                    t = str(f['ps'][ps[root[1]]].get('t') or f['pt'][ps[root[1]]])
                    if t.rstrip().endswith('&') or '*' in path[:1]: out.append((('a', ps[root[1]]), path, m, l, lk))
                continue
            out.append((root, path, m, l, lk))
        self.memo[fid] = list(dict.fromkeys(out)); return self.memo[fid]
class Walk(object):
    def __init__(self, eff, depth=0): self.eff = eff; self.acc = []; self.local = set(); self.alias = {}; self.lock = 0; self.depth = depth; self.unknown = []
    def path(self, e):
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get('k')
        if k == 'this': return ('this',), ()
        if k == 'ref':
            if e.get('dk') in ('func', 'enum'): return None
            d = e.get('d')
            if d in self.alias: return self.alias[d]
            return (('g', d) if e.get('dk') == 'global' else ('v', d)), ()
        if k == 'mem':
            p = self.path(e['b'])
            if p is None: return None
            ar = ('*',) if e.get('arrow') and strip(e['b']).get('k') != 'this' else ()
            return p[0], p[1] + ar + (e['n'],)
        if k == 'sub':
            b, i = e.get('a') or e.get('b'), e.get('i') or e.get('b')
            p = self.path(b)
            return None if p is None else (p[0], p[1] + (Ix(i),))
        if k == 'un' and e.get('op') == '*':
            p = self.path(e['e']); return None if p is None else (p[0], p[1] + ('*',))
        if k == 'un' and e.get('op') == '&':
            p = self.path(e['e']); return None if p is None else (p[0], p[1] + ('&',))
        if k == 'un' and e.get('op') in ('++', '--'): return self.path(e['e'])
        if k == 'call' and e.get('this') is not None:
            p = self.path(e['this'])
            if p is None: return None
            n = e.get('n')
            if n in ('operator[]', 'at') and e.get('a'):
                if str(e.get('cls')).startswith('std::vector<bool'): return p
                return p[0], p[1] + (Ix(e['a'][0]),)
            if n in ('front',): return p[0], p[1] + (Ix({'k': 'lit', 'lk': 'int', 'v': 0}),)
            if n in ('operator*', 'operator->', 'get'): return p[0], p[1] + ('*',)
            if e.get('lv') or n in ACCESS: return p[0], p[1] + (Ix(None),)
        return None
    def put(self, p, m, l, t=''):
        if p is None: return
        if any(str(t).startswith(x) for x in FREE): return
        root, path = p
        q = []
        for x in path:
            if x == '&' : q.append(x)
            elif x == '*' and q and q[-1] == '&': q.pop()
            else: q.append(x)
        while q and q[-1] == '&': q.pop()
        if root[0] == 'v' and root[1] in self.local: return
        self.acc.append((root, tuple(q), m, l, self.lock > 0))
    def expr(self, e, write=False):
        if not isinstance(e, dict): return
        k = e.get('k'); l = e.get('l')
        if k in ('cast',): return self.expr(e.get('e'), write)
        if k == 'lambda':
            for x in e.get('ps') or []: self.local.add(x.get('d'))
            if isinstance(e.get('body'), dict): self.stmt(e['body'])
            return
        if k in ('ref', 'mem', 'sub'):
            self.put(self.path(e), 'w' if write else 'r', l, e.get('t'))
            if k == 'sub': self.expr(e.get('i') or e.get('b'))
            if k == 'mem': self.sub(e['b'])
            return
        if k == 'asg':
            self.expr(e['b']); self.expr(e['a'], True)
            return
        if k == 'un' and e.get('op') in ('++', '--'): return self.expr(e['e'], True)
        if k == 'un' and e.get('op') == '*':
            self.put(self.path(e), 'w' if write else 'r', l, e.get('t')); return self.sub(e['e'])
        if k == 'un' and e.get('op') == '&': return self.sub(e['e'])
        if k == 'delete':
            p = self.path(e['e'])
            if p: self.put((p[0], p[1] + ('*',)), 'w', l)
            return self.expr(e['e'])
        if k == 'call': return self.call(e, write)
        for v in e.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and 'k' in x: self.expr(x)
    def sub(self, e):
        """operands evaluated to form a place (indices, calls), the place itself is not accessed"""
        e = strip(e)
        if not isinstance(e, dict): return
        if e.get('k') in ('ref', 'this'): return
        if e.get('k') == 'mem': return self.sub(e['b'])
        self.expr(e)
    def call(self, e, write):
        n, fid, l = e.get('n'), e.get('f'), e.get('l'); th = e.get('this')
        args = [a for a in e.get('a') or [] if isinstance(a, dict)]
        pt = e.get('pt') or []
        fx = self.eff.fn(fid, self.depth) if fid else None
        for a in args:
            if fx is None or strip(a).get('k') not in ('ref', 'mem'): self.sub(a) if strip(a).get('k') in ('ref', 'mem', 'un') else self.expr(a)
        if th is not None: self.sub(th)
        if fx is not None:
            for root, path, m, ll, lk in fx:
                if root == ('this',): p = self.path(th) if th is not None else None
                elif root[0] == 'a': p = self.path(args[root[1]]) if root[1] < len(args) else None
                else: p = (root, ())
                if p is not None:
                    sv = self.lock; self.lock += lk
                    self.put((p[0], p[1] + path), m, l); self.lock = sv
            if write and e.get('lv'): self.put(self.path(e), 'w', l, e.get('t'))
            return
        if th is not None:
            p = self.path(th); t = strip(th).get('t')
            if n in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator<<=', 'operator|=', 'operator&='): self.put(p, 'w', l, t)
            elif n in ACCESS or e.get('mconst') or e.get('static'):
                if write and n in ('operator[]', 'at') and str(e.get('cls')).startswith('std::vector<bool'): self.put(p, 'w', l)
                elif write: self.put(self.path(e), 'w', l, e.get('t'))
                elif p is not None: self.put(self.path(e) if n in ('operator[]', 'at', 'front', 'operator*', 'operator->') else (p[0], p[1] + ('#',)) if n in HEAD and str(e.get('cls')).startswith('std::') else p, 'r', l, t)
            elif e.get('lv'):
                self.put(self.path(e) if write else p, 'w' if write else 'r', l, t)
            else: self.put(p, 'w', l, t)
        for a, t in zip(args, pt):
            t = str(t)
            p = self.path(a)
            if p is None: continue
            at = strip(a).get('t')
            if t.endswith('&') and not t.startswith('const ') and ' const &' not in t: self.put(p, 'w', l, at)
            elif t.endswith('*') and not t.startswith('const ') and 'void *' not in t and fid: self.put((p[0], p[1] + ('*',)), 'w', l, at)
            else: self.put((p[0], p[1] + ('*',)) if t.endswith('*') else p, 'r', l, at)
    def stmt(self, s):
        if isinstance(s, list):
            for x in s: self.stmt(x)
            return
        if not isinstance(s, dict): return
        k = s.get('k')
        if k == 'block':
            n = self.lock
            for x in s['b']: self.stmt(x)
            self.lock = n; return
        if k == 'decl':
            for v in s['v']:
                i = v.get('init'); t = str(v.get('t'))
                if t.startswith(LOCKS): self.lock += 1
                if i is not None:
                    isref = t.rstrip().endswith('&'); isptr = t.rstrip().endswith('*') or t.rstrip().endswith('*const')
                    p = self.path(i) if isref or isptr else None
                    if p is not None and not (p[0][0] == 'v' and p[0][1] in self.local): self.alias[v['d']] = p; self.sub(i); continue
                    self.expr(i)
                if not v.get('static'): self.local.add(v['d'])
            return
        if k == 'rfor':
            self.expr(s.get('r') or s.get('range')); v = s.get('v')
            v = v[0] if isinstance(v, list) else v
            if isinstance(v, dict) and v.get('d'):
                p = self.path(s.get('r') or s.get('range')) if str(v.get('t')).rstrip().endswith('&') else None
                if p is not None: self.alias[v['d']] = (p[0], p[1] + (Ix(None),))
                else: self.local.add(v['d'])
            return self.stmt(s.get('b') or s.get('body'))
        if k == 'omp' and s.get('dir') in LOCKED:
            self.lock += 1; self.stmt(s.get('b')); self.lock -= 1; return
        if k in ('expr', 'ret'): return self.expr(s.get('e'))
        STM = ('block', 'decl', 'rfor', 'omp', 'expr', 'ret', 'if', 'for', 'while', 'do', 'switch', 'case', 'default', 'break', 'continue', 'null', 'try', 'label', 'goto')
        for key in sorted(s, key=lambda y: {'init': 0, 'v': 1, 'c': 2}.get(y, 3)):
            v = s[key]
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict):
                    if x.get('k') in STM: self.stmt(x)
                    elif 'k' in x: self.expr(x)
                    else: self.stmt([y for y in x.values() if isinstance(y, dict)])
class Ix(object):
    """an index: linear in the loop variable when it is a sum of it and constants"""
    def __init__(self, e): self.e = e
    def lin(self, iv):
        def go(e):
            e = strip(e)
            if not isinstance(e, dict): return None
            if e.get('k') == 'lit' and e.get('lk') == 'int':
                try: return 0, int(e['v'])
                except Exception: return None
            if e.get('k') == 'ref' and e.get('d') == iv and iv is not None: return 1, 0
            if e.get('k') == 'bin' and e.get('op') in ('+', '-', '*'):
                a, b = go(e['a']), go(e['b'])
                if a is None or b is None: return None
                if e['op'] == '+': return a[0] + b[0], a[1] + b[1]
                if e['op'] == '-': return a[0] - b[0], a[1] - b[1]
                if a[0] == 0: return a[1] * b[0], a[1] * b[1]
                if b[0] == 0: return b[1] * a[0], b[1] * a[1]
            return None
        return go(self.e)
    def __hash__(self): return 7
    def __eq__(self, o): return isinstance(o, Ix) and (self.e is o.e or self.e == o.e)
def meet(p, q, iv):
    """do two paths of different iterations (or sections, iv None) meet?  True / False / None"""
    r = True
    for x, y in zip(p, q):
        if isinstance(x, Ix) != isinstance(y, Ix):
            if '#' in (x, y): return False
            r = None; continue
        if isinstance(x, Ix):
            a, b = x.lin(iv), y.lin(iv)
            if a is None or b is None: r = None; continue
            if a[0] == b[0] == 0:
                if a[1] != b[1]: return False
                continue
            if a[0] == b[0]:
                d = abs(a[1] - b[1])
                if d == 0 or d % abs(a[0]): return False
                continue
            r = None; continue
        if x != y: return False
    return r
def desc(root, path, names):
    s = {'this': 'the object', 'g': 'global ', 'v': '', 'a': 'argument '}[root[0]] + (names.get(root[1], '') if len(root) > 1 else '')
    for x in path: s += '[..]' if isinstance(x, Ix) else '' if x in ('*', '&') else '.' + x
    return s
def regions(body):
    """outermost constructs that run in parallel"""
    out = []
    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
        elif isinstance(n, dict):
            if n.get('k') == 'omp' and n.get('dir') != 'simd' and n.get('dir') not in LOCKED: out.append(n); return
            for v in n.values():
                if isinstance(v, (dict, list)): go(v)
    go(body); return out
def clause_private(s):
    d = set()
    for c in s.get('cl') or []:
        if c['c'] in PRIV: d |= {strip(x).get('d') for x in c['v'] if isinstance(x, dict)}
    return d
def check_region(eff, s, names):
    """(ok, detail)"""
    dr = s.get('dir') or ''; priv = clause_private(s); b = s.get('b')
    if 'target' in dr or 'task' in dr or 'teams' in dr: return None, 'directive %s is not analysed' % dr
    units = []; iv = None; dup = False
    if 'sections' in dr:
        for x in (b.get('b') if isinstance(b, dict) and b.get('k') == 'block' else [b]):
            w = Walk(eff); w.local |= priv
            w.stmt(x.get('b') if x.get('k') == 'omp' and x.get('dir') == 'section' else x); units.append(w)
    elif dr.split()[-1] in ('for', 'simd') and 'for' in dr:
        f = b
        while isinstance(f, dict) and f.get('k') == 'block' and len(f['b']) == 1: f = f['b'][0]
        w = Walk(eff); w.local |= priv; dup = True
        if f.get('k') == 'for':
            w.stmt(f.get('init')) if isinstance(f.get('init'), dict) else None
            i = f.get('init') or {}
            if i.get('k') == 'decl': iv = i['v'][0]['d']
            else:
                a = strip((i.get('e') or {}))
                if a.get('k') == 'asg': iv = strip(a['a']).get('d')
            w.acc = []; w.local.add(iv); w.expr(f.get('c')); w.stmt(f.get('b') or f.get('body'))
        elif f.get('k') == 'rfor':
            w.stmt(f); v = f.get('v'); v = v[0] if isinstance(v, list) else v; iv = ('element', (v or {}).get('d'))
            return None, 'parallel range loop'
        else: return None, 'loop form not recognised'
        units = [w, w]
    elif dr == 'parallel':
        inner = regions(b)
        res = [check_region(eff, dict(x, cl=(x.get('cl') or []) + (s.get('cl') or [])), names) for x in inner]
        for r in res:
            if r[0] is False: return r
        w = Walk(eff); w.local |= priv
        keep = [dict(x) for x in inner]
        for x in inner: x['_b'] = x.pop('b', None)
        try: w.stmt(b)
        finally:
            for x in inner: x['b'] = x.pop('_b')
        # declarations inside the block are private and seen by the inner loops through w.local only when walked together
        units = [w, w]; dup = True
        if any(r[0] is None for r in res) and inner: return None, 'a work-sharing construct inside the region is not decided'
    else: return None, 'directive %s is not analysed' % dr
    und = None; n = 0
    for i in range(len(units)):
        for j in range(i + 1, len(units)):
            for r1, p1, m1, l1, k1 in units[i].acc:
                if m1 != 'w' and not dup and not any(m == 'w' for _, _, m, _, _ in units[j].acc): continue
                for r2, p2, m2, l2, k2 in units[j].acc:
                    if r1 != r2 or (m1 != 'w' and m2 != 'w') or (k1 and k2): continue
                    if r1[0] == 'a': continue
                    n += 1
                    x = meet(p1, p2, iv)
                    if x is True:
                        who = 'two iterations' if dup and iv is not None else 'two threads' if dup else 'two sections'
                        return False, '%s of one %s region touch %s without synchronisation (line %s %s, line %s %s)' % (who, dr, desc(r1, p1 if len(p1) <= len(p2) else p2, names), l1, {'w': 'writes', 'r': 'reads'}[m1], l2, {'w': 'writes', 'r': 'reads'}[m2])
                    if x is None: und = 'overlap of %s (lines %s, %s) not decided' % (desc(r1, p1, names), l1, l2)
    if und: return None, und
    return True, '%s: %d accesses, %d pairs disjoint' % (dr, sum(len(u.acc) for u in units[:1 if dup else None]), n)
def conflicts(P, PR):
    obs = []; eff = Eff(P)
    for fid, f in functions(P):
        rs = regions(f['body'])
        if not rs: continue
        names = {}
        for x in walk(f['body']):
            if x.get('k') == 'ref' and x.get('d'): names[x['d']] = x.get('n')
        for i, s in enumerate(rs):
            try: ok, d = check_region(eff, s, names)
            except Exception as e: ok, d = None, 'not analysed: %r' % e
            obs.append(Ob('openmp.conflicts', '%s#%d' % (f['q'].split('<')[0] + '(%d)' % len(f['ps']), i), ok, d, '%s:%s' % (loc(f).rsplit(':', 1)[0], s.get('l'))))
    best = {}
    for o in obs:
        k = o.id
        if k not in best or (best[k].ok is not False and o.ok is False) or (best[k].ok is True and o.ok is None): best[k] = o
    return list(best.values())
