"""C19: session conformance of the two sides of every MPI algorithm.

Both branches of a `rank == master` dispatch are compiled, calls inlined, to graphs whose edges are the collective operations: an order
broadcast by the master (with its value), an order received by a slave, every other collective (tensor broadcasts, barriers, parallel
decompositions).  Data-dependent branches are left open; tests on a received order are decided.  Whatever sequence of collectives
the master can go through, the slave must have a path that meets each of them and that is over when the master's is."""
import re
from rules.common import *
COLL = re.compile(r'(^|::)(MPI_(Bcast|Barrier|Reduce|Allreduce|Gather|Scatter|Allgather)|MPISVD(Master|Slave)|MasterBroadcastOrder|SlaveGetBroadcastOrder)$')
P2P = re.compile(r'(^|::)MPI_(Send|Recv)$')
def sym(q):
    n = q.split('::')[-1]
    if n.startswith('MPISVD'): return 'MPISVD'
    return ('QLTensor::' if 'QLTensor' in q else '') + n
def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren') and 'e' in e: e = e['e']
    return e
class Graph(object):
    """control flow of one side"""
    def __init__(self, P, rel):
        self.P = P; self.rel = rel; self.out = []; self.n = 0; self.inst = 0; self.stack = []; self.events = 0; self.too = False
    def node(self):
        self.out.append([]); return len(self.out) - 1
    def edge(self, a, lab, b): self.out[a].append((lab, b))
    def relevant(self, n):
        """the tree performs a collective, changes an order variable or leaves"""
        for x in walk(n):
            k = x['k']
            if k in ('call', 'ctor') and (COLL.search(str(x.get('q') or '')) or x.get('f') in self.rel): return True
            if k in ('ret', 'break', 'continue', 'throw'): return True
            if k == 'call' and (x.get('noret') or x.get('n') == 'verif_assert_fail'): return True
            if k in ('asg',) and self.isorder(x['b']): return True
            if k == 'decl' and any(v.get('init') is not None and self.isorder(v['init']) for v in x['v']): return True
        return False
    def isorder(self, e):
        e = strip(e)
        return isinstance(e, dict) and (e.get('k') == 'ref' and (e.get('dk') == 'enum' or self.var(e) in self.known) or e.get('k') == 'call' and (str(e.get('q')).endswith('::SlaveGetBroadcastOrder') or e.get('f') in self.rel))
    def var(self, e):
        e = strip(e)
        if isinstance(e, dict) and e.get('k') == 'asg': return self.var(e['a'])
        return (self.cur, e['d']) if isinstance(e, dict) and e.get('k') == 'ref' and e.get('dk') in ('var', 'param') else None
    # ------------------------------------------------------------ expressions: events in order of evaluation
    def expr(self, e, a):
        """from node a over the events of the expression; the node after it and where its value (an order) is kept"""
        if not isinstance(e, dict) or 'k' not in e: return a, None
        k = e['k']
        if k == 'lambda': return a, None
        if k == 'ref':
            if e.get('dk') == 'enum': return a, ('c', e['n'])
            v = self.var(e)
            return a, ('v', v) if v in self.known else None
        if k == 'cast': return self.expr(e.get('e'), a)
        if k == 'throw':
            return self.node(), None
        if k == 'bin' and e.get('op') in ('&&', '||') or k == 'cond':
            if not self.relevant(e): return a, None
            if k == 'cond':
                t, f, z = self.node(), self.node(), self.node()
                c, _ = self.expr(e['c'], a)
                self.edge(c, ('if', e['c'], self.cur, True), t); self.edge(c, ('if', e['c'], self.cur, False), f)
                t, _ = self.expr(e['a'], t); f, _ = self.expr(e['b'], f)
                self.edge(t, None, z); self.edge(f, None, z); return z, None
            l, _ = self.expr(e['a'], a); r, z = self.node(), self.node()
            self.edge(l, ('if', e['a'], self.cur, e['op'] == '&&'), r); self.edge(l, ('if', e['a'], self.cur, e['op'] != '&&'), z)
            r, _ = self.expr(e['b'], r); self.edge(r, None, z); return z, None
        if k == 'asg':
            a, v = self.expr(e['b'], a)
            a, _ = self.expr(e['a'], a) if strip(e['a']).get('k') != 'ref' else (a, None)
            w = self.var(e['a'])
            if v is not None and w is not None:
                self.known.add(w); b = self.node(); self.edge(a, ('set', w, v), b); return b, ('v', w)
            if w in self.known: b = self.node(); self.edge(a, ('set', w, None), b); return b, None
            return a, None
        if k in ('call', 'ctor'):
            vals = []
            if 'this' in e: a, _ = self.expr(e['this'], a)
            for x in e.get('a', []):
                a, v = self.expr(x, a); vals.append(v)
            q = str(e.get('q') or '')
            if q.endswith('::MasterBroadcastOrder') or q == 'MasterBroadcastOrder':
                b = self.node(); self.events += 1
                self.edge(a, ('order', vals[0] if vals else None, e.get('l'), self.where()), b); return b, None
            if q.endswith('::SlaveGetBroadcastOrder') or q == 'SlaveGetBroadcastOrder':
                self.n += 1; w = ('r', self.n); b = self.node(); self.events += 1
                self.edge(a, ('recv', w, e.get('l')), b); return b, ('v', w)
            if COLL.search(q):
                b = self.node(); self.events += 1
                self.edge(a, ('coll', sym(q), e.get('l'), self.where()), b); return b, None
            if e.get('noret') or e.get('n') == 'verif_assert_fail' or q in ('exit', 'std::exit', 'abort', 'std::abort'): return self.node(), None
            f = self.P.F.get(e.get('f'))
            if f is not None and e.get('f') in self.rel and f.get('body') is not None:
                if len(self.stack) > 25 or e['f'] in self.stack or len(self.out) > 60000: self.too = True; return a, None
                return self.inline(e['f'], f, vals, a)
            return a, None
        for x in e.values():
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and 'k' in y: a, _ = self.expr(y, a)
        return a, None
    def where(self): return simple(self.P.F[self.stack[-1]]['q']) if self.stack else ''
    def inline(self, fid, f, vals, a):
        save = (self.cur, self.lp); self.inst += 1; self.cur = self.inst; self.stack.append(fid)
        z = self.node(); self.lp = [None, None, z]; rv = (self.cur, 'ret')
        for p, v in zip(f['ps'], vals):
            if v is not None and p.get('d'):
                w = (self.cur, p['d']); self.known.add(w); b = self.node(); self.edge(a, ('set', w, v), b); a = b
        for i in f.get('inits') or []:
            if isinstance(i, dict):
                for y in i.values():
                    if isinstance(y, dict) and 'k' in y: a, _ = self.expr(y, a)
        a = self.stmt(f['body'], a)
        self.edge(a, None, z)
        self.stack.pop(); self.cur, self.lp = save
        return z, (('v', rv) if rv in self.known else None)
    # ------------------------------------------------------------ statements
    def stmt(self, s, a):
        """the node after the statement (unreachable when it does not complete)"""
        if not isinstance(s, dict) or 'k' not in s: return a
        k = s['k']
        if k == 'block':
            for x in s['b']: a = self.stmt(x, a)
            return a
        if k == 'expr': return self.expr(s['e'], a)[0]
        if k == 'decl':
            for v in s['v']:
                if v.get('init') is not None:
                    a, x = self.expr(v['init'], a)
                    if x is not None:
                        w = (self.cur, v['d']); self.known.add(w); b = self.node(); self.edge(a, ('set', w, x), b); a = b
            return a
        if k == 'ret':
            if s.get('e') is not None:
                a, x = self.expr(s['e'], a)
                if x is not None:
                    w = (self.cur, 'ret'); self.known.add(w); b = self.node(); self.edge(a, ('set', w, x), b); a = b
            self.edge(a, None, self.lp[2]); return self.node()
        if k == 'break': self.edge(a, None, self.lp[0]); return self.node()
        if k == 'continue': self.edge(a, None, self.lp[1]); return self.node()
        if k == 'if':
            a, _ = self.expr(s['c'], a)
            t, f, z = self.node(), self.node(), self.node()
            self.edge(a, ('if', s['c'], self.cur, True), t); self.edge(a, ('if', s['c'], self.cur, False), f)
            t = self.stmt(s.get('a') if 'a' in s else s.get('t'), t); f = self.stmt(s.get('b') if 'b' in s else s.get('e'), f)
            self.edge(t, None, z); self.edge(f, None, z); return z
        if k in ('for', 'while', 'do', 'rfor'):
            save = self.lp
            if k == 'for' and s.get('init') is not None: a = self.stmt(s['init'], a)
            if k == 'rfor': a, _ = self.expr(s.get('r') or {}, a)
            h, z, n = self.node(), self.node(), self.node()
            self.lp = [z, n, save[2]]
            b = self.node()
            if k == 'do':
                self.edge(a, None, b); e = self.stmt(s['b'], b); self.edge(e, None, n)
                c, _ = self.expr(s['c'], n); self.edge(c, ('if', s['c'], self.cur, True), b); self.edge(c, ('if', s['c'], self.cur, False), z)
            else:
                self.edge(a, None, h); c = h; cond = s.get('c') if k != 'rfor' else None
                if cond is not None:
                    c, _ = self.expr(cond, h); self.edge(c, ('if', cond, self.cur, True), b); self.edge(c, ('if', cond, self.cur, False), z)
                else:
                    self.edge(c, None, b)
                    if k == 'rfor': self.edge(c, None, z)
                e = self.stmt(s['b'], b); self.edge(e, None, n)
                if k == 'for' and s.get('inc') is not None:
                    n2 = self.stmt(s['inc'], n)
                    self.edge(n2, None, h)
                else: self.edge(n, None, h)
            self.lp = save
            return z
        if k == 'switch':
            a, v = self.expr(s['c'], a)
            save = self.lp; z = self.node(); self.lp = [z, save[1], save[2]]
            labels = []; cur = self.node(); dflt = None
            body = s['b']['b'] if s['b'].get('k') == 'block' else [s['b']]
            def put(x, cur):
                nonlocal dflt
                while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                    e = self.node(); self.edge(cur, None, e); cur = e
                    if x['k'] == 'case':
                        y = strip(x.get('c')); labels.append((y.get('n') if isinstance(y, dict) and y.get('dk') == 'enum' else None, e))
                    else: dflt = e
                    x = x.get('b')
                return self.stmt(x, cur) if isinstance(x, dict) else cur
            ends = []
            for i, x in enumerate(body):
                was = dflt
                cur = put(x, cur)
                if dflt is not was and dflt is not None:
                    # a default that only reports is a refusal of the order
                    rest = [x.get('b')] + body[i + 1:]
                    self.refuse = any(y['k'] == 'call' for r in rest if isinstance(r, dict) and r.get('k') not in ('case', 'default') for y in walk(r))
                    if self.refuse and v is not None and v[0] == 'v': ends.append(dflt)
            self.edge(cur, None, z); self.lp = save
            names = [n for n, _ in labels]
            for n, e in labels: self.edge(a, ('case', v, n), e)
            if dflt is None: self.edge(a, ('none', v, tuple(names)), z)
            elif dflt not in ends: self.edge(a, ('none', v, tuple(names)), dflt)
            return z
        if k == 'try':
            return self.stmt(s.get('b'), a)
        return self.expr(s, a)[0]
    def build(self, s):
        self.known = set(); self.cur = 0; self.refuse = False
        a, z = self.node(), self.node(); self.lp = [None, None, z]
        e = self.stmt(s, a); self.edge(e, None, z)
        return a, z
def val(v, env):
    if v is None: return None
    return v[1] if v[0] == 'c' else env.get(v[1])
def decide(c, cur, env):
    """truth of a condition as far as the orders known decide it"""
    c = strip(c)
    if not isinstance(c, dict): return None
    k = c.get('k')
    if k == 'lit' and c.get('lk') in ('bool', 'int'): return bool(c['v'])
    if k == 'un' and c.get('op') == '!':
        r = decide(c.get('e'), cur, env); return None if r is None else not r
    if k == 'bin':
        op = c['op']
        if op in ('&&', '||'):
            x, y = decide(c['a'], cur, env), decide(c['b'], cur, env)
            if op == '&&': return False if x is False or y is False else (True if x and y else None)
            return True if x or y else (False if x is False and y is False else None)
        if op in ('==', '!='):
            def v(e):
                e = strip(e)
                if isinstance(e, dict) and e.get('k') == 'asg': e = strip(e['a'])
                if isinstance(e, dict) and e.get('k') == 'ref': return e['n'] if e.get('dk') == 'enum' else env.get((cur, e.get('d')))
            x, y = v(c['a']), v(c['b'])
            if x is None or y is None: return None
            return (x == y) == (op == '==')
    return None
def step(g, lab, env):
    """the environment after a silent edge, or None when it is closed"""
    if lab is None: return env
    t = lab[0]
    if t == 'if':
        r = decide(lab[1], lab[2], dict(env))
        return env if r is None or r == lab[3] else None
    if t == 'set':
        d = dict(env); v = val(lab[2], d)
        if v is None: d.pop(lab[1], None)
        else: d[lab[1]] = v
        return frozenset(d.items())
    if t == 'case':
        v = val(lab[1], dict(env)); return env if v is None or v == lab[2] else None
    if t == 'none':
        v = val(lab[1], dict(env)); return env if v is None or v not in lab[2] else None
    return None
def closure(g, S):
    seen = set(S); w = list(S)
    while w:
        n, env = w.pop()
        for lab, m in g.out[n]:
            if lab is not None and lab[0] in ('order', 'recv', 'coll'): continue
            e = step(g, lab, env)
            if e is None: continue
            if (m, e) not in seen: seen.add((m, e)); w.append((m, e))
        if len(seen) > 200000: raise OverflowError
    return seen
def active(g, z, S):
    """the configurations that matter: those waiting for a collective, and the end"""
    return frozenset((n, e) for n, e in S if n == z or any(l is not None and l[0] in ('order', 'recv', 'coll') for l, _ in g.out[n]))
def conform(M, m0, mz, S, s0, sz):
    """(ok, detail, number of pairs explored)"""
    mc = active(M, mz, closure(M, {(m0, frozenset())})); sc = active(S, sz, closure(S, {(s0, frozenset())}))
    start = [(c, sc) for c in mc]
    seen = set(start); w = [(c, s, ()) for c, s in start]
    memo = {}
    while w:
        (n, env), sc, tr = w.pop(0)
        if n == mz:
            if not any(x == sz for x, _ in sc): return False, 'the master is done while every slave still waits', tr, len(seen)
            if not any(l is not None and l[0] in ('order', 'recv', 'coll') for l, _ in M.out[n]): continue
        for lab, m in M.out[n]:
            if lab is None or lab[0] not in ('order', 'recv', 'coll'): continue
            if lab[0] == 'order':
                o = val(lab[1], dict(env)); key = ('order', o)
                text = 'order %s' % (o or '(computed)')
            elif lab[0] == 'recv': return False, 'the master waits for an order', tr, len(seen)
            else: key = ('coll', lab[1]); text = lab[1]
            mk_ = (key, sc)
            if mk_ not in memo:
                nx = set()
                for x, e in sc:
                    for l, y in S.out[x]:
                        if l is None: continue
                        if key[0] == 'order' and l[0] == 'recv':
                            d = dict(e)
                            if o is None: d.pop(l[1], None)
                            else: d[l[1]] = o
                            nx.add((y, frozenset(d.items())))
                        elif key[0] == 'coll' and l[0] == 'coll' and l[1] == key[1]: nx.add((y, e))
                memo[mk_] = active(S, sz, closure(S, nx))
            s2 = memo[mk_]
            tr2 = (tr + (text,))[-6:]
            if not s2:
                exp = sorted({l[1] if l[0] == 'coll' else 'an order' for x, _ in sc for l, _ in S.out[x] if l is not None and l[0] in ('coll', 'recv')})
                return False, 'after %s the master performs %s (%s, line %s); no slave path takes it (slaves can be at: %s)' % (' > '.join(tr) or 'the start', text, lab[3], lab[2], ', '.join(exp) or 'their end'), tr2, len(seen)
            for c in active(M, mz, closure(M, {(m, env)})):
                if (c, s2) not in seen: seen.add((c, s2)); w.append((c, s2, tr2))
        if len(seen) > 60000: raise OverflowError
    return True, '', (), len(seen)
def reach(P):
    """functions that perform a collective, directly or through calls"""
    calls = {}
    for k, f in P.F.items():
        if f.get('body') is None or f.get('islambda'): continue
        if not (f.get('file') and '/include/qlmps/' in f['file']): continue
        calls[k] = [(str(x.get('q') or ''), x.get('f')) for x in walk(f['body']) if x['k'] in ('call', 'ctor')]
    rel = {k for k, c in calls.items() if any(COLL.search(q) for q, _ in c)}
    rel = {k for k in rel if not COLL.search(str(P.F[k]['q']))}
    while True:
        new = {k for k, c in calls.items() if k not in rel and not COLL.search(str(P.F[k]['q'])) and any(g in rel for _, g in c)}
        if not new: return rel
        rel |= new
def dispatches(P, rel):
    for k, f in functions(P):
        if k not in rel: continue
        for x in walk(f['body']):
            if x['k'] != 'if': continue
            c = strip(x['c'])
            if not (isinstance(c, dict) and c.get('k') == 'bin' and c.get('op') in ('==', '!=')): continue
            if not any(y['k'] == 'ref' and y.get('n') == 'kMPIMasterRank' for y in walk(c)): continue
            a, b = x.get('a') if 'a' in x else x.get('t'), x.get('b') if 'b' in x else x.get('e')
            yield f, x, (a, b) if c['op'] == '==' else (b, a)
def conformance(P, PR):
    rel = reach(P); out = []; seen = set()
    for f, x, (m, s) in dispatches(P, rel):
        q = short(f['q']); key = (q, len(f['ps']), f['key'].split('(')[0])
        if m is None or s is None: continue
        M, S = Graph(P, rel), Graph(P, rel)
        try:
            m0, mz = M.build(m); s0, sz = S.build(s)
            if not M.events and not S.events: continue
            ok, d, tr, n = conform(M, m0, mz, S, s0, sz)
            if M.too or S.too: ok, d = None, 'recursion'
        except OverflowError: ok, d, n = None, 'too many states', 0
        out.append(Ob('protocol.conformance', '%s/%d' % (q, len(f['ps'])), ok, d if ok is not True else '%d collectives of the master against %d of the slaves, %d joint states' % (M.events, S.events, n), loc(f)))
    return out
