"""Well-formed random values of the repository's own classes for the random models (representation invariants)."""
from evalt import *
import terms as TM
from engine import strip_t, targs

def fields(m, t): return set(TM.FIELDS.get(t) or ())
def coef(m, t, r, d):
    if fields(m, t) != {'coef_label_list_'}: return NotImplemented
    x = r.random()
    if x < 0.25: l = ()
    elif x < 0.6: l = (r.randrange(0, 3),)
    else: l = tuple(r.randrange(0, 3 if x < 0.9 else 30) for _ in range(r.randrange(1, 4)))
    return Obj(t, {'coef_label_list_': l})
def oprepr(m, t, r, d):
    if fields(m, t) != {'op_label_coef_repr_map_'}: return NotImplemented
    mp = {}
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
        k = r.randrange(0, 3) if r.random() < .9 else r.randrange(24, 60)
        mp[digest(k)] = (k, m.make('CoefRepr', r, d + 1))
    return Obj(t, {'op_label_coef_repr_map_': Map(mp)})
def sparmat(m, t, r, d):
    fs = {f: m.p.fieldtype(t, f) for f in TM.FIELDS.get(t) or ()}
    if set(fs) != {'rows', 'cols', 'data', 'indexes'}: return NotImplemented
    et = targs(fs['data'])[0]
    lo = 1 if r.random() < 0.93 else 0
    R, C = r.randrange(lo, 5), r.randrange(lo, 5)
    if r.random() < 0.15: C = R
    x = r.random()
    if x < 0.08: C = 1
    elif x < 0.16: R = 1
    dens = r.choice([0.2, 0.5, 0.8, 1])
    pool = [m.make(et, r, d + 1) for _ in range(r.randrange(1, 4))] if r.random() < 0.6 else None
    idx = []; data = []
    nz = [x for x in range(R * C) if r.random() < dens]
    order = list(range(len(nz)))
    if r.random() < 0.4: r.shuffle(order)
    data = [None] * len(nz); idx = [-1] * (R * C)
    empty = m.p.R.get(et)
    for k, x in zip(order, nz):
        e = r.choice(pool) if pool else m.make(et, r, d + 1)
        for _ in range(4):
            if r.random() < 0.9 and isinstance(e, Obj) and all((isinstance(v, tuple) and not v) or (isinstance(v, Map) and not v.d) for v in e.f.values()): e = m.make(et, r, d + 1)
        data[k] = e; idx[x] = k
    if r.random() < 0.3:                                             # elements no cell refers to any more
        for _ in range(r.randrange(1, 4)):
            j = r.randrange(len(data) + 1)
            data.insert(j, m.make(et, r, d + 1)); idx = [i + 1 if i >= j else i for i in idx]
    return Obj(t, {'rows': R, 'cols': C, 'data': tuple(data), 'indexes': tuple(idx)})
def fsmpath(m, t, r, d, n=None, h=None, tl=None, mids=None):
    if fields(m, t) != {'fsm_nodes', 'op_reprs'}: return NotImplemented
    if n is None: n = r.randrange(1, 5)
    if h is None:
        h = r.randrange(0, n); tl = r.randrange(h, n)
    if mids is None: mids = [0] * (n + 1)
    node = lambda s, q: Obj('FSMNode', {'fsm_site_idx': s, 'fsm_stat_idx': q})
    ns = [node(0, 0)]
    for i in range(n):
        if i < h: ns.append(node(i + 1, 0))
        elif i >= tl: ns.append(node(i + 1, -1))
        else: mids[i + 1] += 1; ns.append(node(i + 1, mids[i + 1]))
    if r.random() < 0.6: ops = tuple(r.choice(small_ops(m, r)) for _ in range(n))
    else: ops = tuple(m.make('OpRepr', r, d + 2) for _ in range(n))
    return Obj(t, {'fsm_nodes': tuple(ns), 'op_reprs': ops})
def fsm(m, t, r, d):
    fs = fields(m, t)
    if fs != {'phys_site_num_', 'fsm_site_num_', 'mid_stat_nums_', 'has_readys_', 'has_finals_', 'fsm_paths_', 'id_ops_'}: return NotImplemented
    n = r.choice([1, 2, 3, 4, 4, 5])
    mids = [0] * (n + 1); rd = [False] * (n + 1); fi = [False] * (n + 1); paths = []
    for _ in range(r.randrange(0, 4)):
        h = r.choice([0, r.randrange(0, n)]); tl = r.choice([n - 1, r.randrange(h, n)])
        paths.append(fsmpath(m, 'FSMPath', r, d + 1, n, h, tl, mids))
        rd[0] = True
        for i in range(n):
            if i < h: rd[i + 1] = True
            elif i >= tl: fi[i + 1] = True
    if r.random() < 0.15:
        rd = [r.random() < .5 for _ in rd]; fi = [r.random() < .5 for _ in fi]
    return Obj(t, {'phys_site_num_': n, 'fsm_site_num_': n + 1, 'mid_stat_nums_': tuple(mids), 'has_readys_': tuple(rd), 'has_finals_': tuple(fi),
                   'fsm_paths_': tuple(paths), 'id_ops_': tuple(m.make('OpRepr', r, d + 2) for _ in range(n))})
CUSTOMS = {'CoefRepr': coef, 'OpRepr': oprepr, 'SparMat': sparmat, 'FSMPath': fsmpath, 'FSM': fsm}
def sparopmat(m, t, r, d):
    if fields(m, t) != {'rows', 'cols', 'data', 'indexes'}: return NotImplemented
    o = sparmat(m, t, r, d)
    return o
CUSTOMS['SparOpReprMat'] = sparopmat
def near_sparmat(m, t, v, r, d):
    f = dict(v.f); et = targs(m.p.fieldtype(t, 'data'))[0]
    R, C, data, idx = f['rows'], f['cols'], list(f['data']), list(f['indexes']); x = r.random()
    if x < 0.25 and data:                       # same matrix, other storage order
        pm = list(range(len(data))); r.shuffle(pm)
        nd = [None] * len(data)
        for i, q in enumerate(pm): nd[q] = data[i]
        idx = [pm[i] if i >= 0 else -1 for i in idx]; data = nd
    elif x < 0.45: R, C = C, R
    elif x < 0.6 and idx: idx[r.randrange(len(idx))] = -1
    elif x < 0.7 and C > 1: R, C = R, C - 1; idx = idx[:R * C]
    elif x < 0.8 and R > 1: R -= 1; idx = idx[:R * C]
    elif data: i = r.randrange(len(data)); data[i] = m.near(et, data[i], r, d + 1)
    return Obj(v.cls, {'rows': R, 'cols': C, 'data': tuple(data), 'indexes': tuple(idx)})
CUSTOMS['near SparMat'] = CUSTOMS['near SparOpReprMat'] = near_sparmat

def scale(m, e, c):
    """coefficient c in front of an operator whose coefficients are all identity"""
    if not isinstance(e, Obj) or e.cls != 'OpRepr': return e
    mp = e.f['op_label_coef_repr_map_']
    if not isinstance(mp, Map): return e
    return Obj('OpRepr', {'op_label_coef_repr_map_': Map({k: (kk, c) for k, (kk, v) in mp.d.items()})})
def cf(*l): return Obj('CoefRepr', {'coef_label_list_': tuple(l)})
def unit_op(m, r):
    mp = {}
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(0, 4); mp[digest(k)] = (k, cf(0))
    return Obj('OpRepr', {'op_label_coef_repr_map_': Map(mp)})
def sparopmat(m, t, r, d):
    if fields(m, t) != {'rows', 'cols', 'data', 'indexes'}: return NotImplemented
    if 'OpRepr' not in m.p.fieldtype(t, 'data') or r.random() < 0.4: return sparmat(m, t, r, d)
    # rows or columns that are multiples or sums of one another
    R, C = r.randrange(1, 5), r.randrange(1, 5); tr = r.random() < 0.5
    base = []
    for i in range(R):
        x = r.random()
        if base and x < 0.25: row = list(r.choice(base))
        elif base and x < 0.5:
            c = cf(r.randrange(1, 3)); row = [e if e is None else scale(m, e, c) for e in r.choice(base)]
        elif len(base) > 1 and x < 0.65:
            a, b = r.sample(range(len(base)), 2); row = [x if y is None else y if x is None else x for x, y in zip(base[a], base[b])]
        else: row = [unit_op(m, r) if r.random() < 0.6 else None for _ in range(C)]
        base.append(row)
    if r.random() < 0.3 and R and C:
        i, j = r.randrange(R), r.randrange(C); base[i] = list(base[i]); base[i][j] = m.make('OpRepr', r, d + 1)
    if tr: base = [[base[i][j] for i in range(R)] for j in range(C)]; R, C = C, R
    idx = []; data = []
    for row in base:
        for e in row:
            if e is None or not e.f['op_label_coef_repr_map_'].d: idx.append(-1)
            else: idx.append(len(data)); data.append(e)
    return Obj(t, {'rows': R, 'cols': C, 'data': tuple(data), 'indexes': tuple(idx)})
CUSTOMS['SparMat'] = CUSTOMS['SparOpReprMat'] = sparopmat
def mats(m, t):
    return [v for q, vs in m.bytype.items() if q.split('<')[0] in ('SparMat', 'SparOpReprMat') for v in vs]
def redim(m, t, v, r, R=None, C=None):
    o, c = v.f['rows'], v.f['cols']; et = targs(m.p.fieldtype(t, 'data'))[0]
    R = o if R is None else R; C = c if C is None else C
    idx = []; data = list(v.f['data'])
    for i in range(R):
        for j in range(C):
            if i < o and j < c: idx.append(v.f['indexes'][i * c + j])
            elif r.random() < 0.5: idx.append(-1)
            else: idx.append(len(data)); data.append(m.make(et, r, 2))
    return Obj(v.cls, {'rows': R, 'cols': C, 'data': tuple(data), 'indexes': tuple(idx)})
def relate_mat(m, t, v, r):
    """dimensions that fit another matrix"""
    ms = mats(m, t)
    if not ms or not isinstance(v, Obj) or fields(m, t) != {'rows', 'cols', 'data', 'indexes'}: return None
    o = r.choice(ms); x = r.random()
    if x < 0.4: return redim(m, t, v, r, R=o.f['cols'])
    if x < 0.8: return redim(m, t, v, r, C=o.f['rows'])
    return redim(m, t, v, r, R=o.f['rows'], C=o.f['cols'])
CUSTOMS['relate SparMat'] = CUSTOMS['relate SparOpReprMat'] = relate_mat
def relate_vec(m, t, v, r):
    """a row or column of a matrix at hand, perhaps with coefficients; or a list of indices into it"""
    ms = mats(m, t); et = strip_t((targs(t) or ['?'])[0])
    if not ms: return None
    o = r.choice(ms); R, C = o.f['rows'], o.f['cols']; same = [x for x in o.f['data']]
    if et in ('unsigned long', 'long', 'int'):
        n = r.choice([R, C]); l = list(range(n)); r.shuffle(l); return tuple(l)
    if et == 'CoefRepr': 
        n = r.choice([R, C, r.randrange(0, 4)]); return tuple(r.choice([cf(), cf(0), cf(0), cf(1), cf(2)]) for _ in range(n))
    if et == 'OpRepr':
        if not all(isinstance(x, Obj) and x.cls == 'OpRepr' for x in same): return None
        null = Obj('OpRepr', {'op_label_coef_repr_map_': Map({})})
        if r.random() < 0.5 and R: i = r.randrange(R); ix = o.f['indexes'][i * C:(i + 1) * C]
        elif C: i = r.randrange(C); ix = o.f['indexes'][i::C]
        else: return None
        l = [null if i < 0 else same[i] for i in ix]
        x = r.random()
        c = cf(r.randrange(1, 3))
        if x < 0.4: l = [e if e is null else scale(m, e, c) for e in l]
        elif x < 0.7: l = [e if e is null else scale(m, e, r.choice([c, cf(0), cf(2)])) for e in l]
        l = [m.near('OpRepr', e, r, 0) if e is not null and r.random() < 0.1 else unit_op(m, r) if e is null and r.random() < 0.2 else e for e in l]
        return tuple(l)
    return None
CUSTOMS['relate std::vector'] = relate_vec

# ---- finite state machines built the way AddPath builds them, over few operators so that paths share heads and tails
def small_ops(m, r):
    k = 'smallops'
    if k not in m.cache: m.cache[k] = [unit_op(m, r) for _ in range(3)]
    return m.cache[k]
def node(s, q): return Obj('FSMNode', {'fsm_site_idx': s, 'fsm_stat_idx': q})
def ifsm(m, t, r, d):
    if fields(m, t) != {'unit_cell_site_num_', 'mid_stat_nums_', 'fsm_paths_', 'fsm_nn_links_set_'}: return NotImplemented
    n = r.choice([1, 2, 2, 3]); ops = small_ops(m, r); ids = [unit_op(m, r) for _ in range(n)]
    mids = [0] * n; links = [{} for _ in range(n)]; paths = []
    put = lambda s, a, o, b: links[s].setdefault(digest(a), (a, {}))[1].setdefault(digest(o), (o, b))
    for s in range(n):
        put(s, node(s, 0), ids[s], node((s + 1) % n, 0)); put(s, node(s, -1), ids[s], node((s + 1) % n, -1))
    for _ in range(r.randrange(0, 4)):
        L = r.choice([1, 2, 2, 3, 3]); h = r.randrange(0, n); seq = [r.choice(ops + ids) for _ in range(L)]
        ns = [node(h % n, 0)]; new = False; undo = []
        for i in range(L - 1):
            last = ns[-1]; s = last.f['fsm_site_idx']; tg = (s + 1) % n
            got = links[s].get(digest(last), (None, {}))[1].get(digest(seq[i]))
            if not new and got is not None and got[1].f['fsm_stat_idx'] != -1: ns.append(got[1]); continue
            mids[tg] += 1; x = node(tg, mids[tg]); ns.append(x); new = True
            put(s, last, seq[i], x)
        if digest(seq[-1]) in links[ns[-1].f['fsm_site_idx']].get(digest(ns[-1]), (None, {}))[1]: continue
        tail = (L + h) % n; ns.append(node(tail, -1)); put((tail - 1) % n, ns[-2], seq[-1], ns[-1])
        paths.append(Obj('FSMPath', {'fsm_nodes': tuple(ns), 'op_reprs': tuple(seq)}))
    return Obj(t, {'unit_cell_site_num_': n, 'mid_stat_nums_': tuple(mids), 'fsm_paths_': tuple(paths),
                   'fsm_nn_links_set_': tuple(Map({k: (a, Map(dict(ls))) for k, (a, ls) in l.items()}) for l in links)})
CUSTOMS['iFSM'] = ifsm
def machines(m): return [v for q, vs in m.bytype.items() if q in ('FSM', 'iFSM') for v in vs if isinstance(v, Obj)]
def relate_path(m, t, v, r):
    ps = [p for f in machines(m) for p in f.f['fsm_paths_']]
    return r.choice(ps) if ps else None
CUSTOMS['relate FSMPath'] = relate_path
def final_idxs(f):
    """index of the final state per machine site, with the dimension rule of the class"""
    out = []
    for i in range(f.f['fsm_site_num_']):
        d = bool(f.f['has_readys_'][i]) + f.f['mid_stat_nums_'][i] + bool(f.f['has_finals_'][i])
        out.append(-1 if not f.f['has_finals_'][i] else d - 1 if f.f['has_readys_'][i] else 0)
    return out
_relate_vec = relate_vec
def relate_vec2(m, t, v, r):
    et = strip_t((targs(t) or ['?'])[0]); fs = [f for f in machines(m) if f.cls == 'FSM']; ifs = [f for f in machines(m) if f.cls == 'iFSM']
    if fs and et == 'long': return tuple(final_idxs(r.choice(fs)))
    if fs and et in ('unsigned long',) and r.random() < 0.7:
        f = r.choice(fs); return tuple(bool(f.f['has_readys_'][i]) + f.f['mid_stat_nums_'][i] + bool(f.f['has_finals_'][i]) for i in range(f.f['fsm_site_num_']))
    if fs and et in ('SparOpReprMat',):
        f = r.choice(fs); n = f.f['fsm_site_num_']
        dim = [bool(f.f['has_readys_'][i]) + f.f['mid_stat_nums_'][i] + bool(f.f['has_finals_'][i]) for i in range(n)]
        o = []
        for i in range(n - 1):
            R, Cn = dim[i], dim[i + 1]; ix = []; data = []
            for _ in range(R * Cn):
                if r.random() < 0.25: ix.append(len(data)); data.append(unit_op(m, r))
                else: ix.append(-1)
            o.append(Obj(et, {'rows': R, 'cols': Cn, 'data': tuple(data), 'indexes': tuple(ix)}))
        return tuple(o)
    if (fs or ifs) and et == 'OpRepr':
        f = r.choice(fs + ifs); n = f.f.get('phys_site_num_') or r.randrange(2, 5); ops = small_ops(m, r)
        ps = f.f['fsm_paths_']; x = r.random()
        if f.cls == 'FSM':
            iv = m.cache.get('ints', [])
            if len(iv) > 1 and 0 <= iv[1] - iv[0] < 8: n = iv[1] - iv[0] + 1
            if ps and x < 0.6 and len(iv) > 1:      # the operators of a path at these sites, one of them changed
                l = list(ps[-1].f['op_reprs'][iv[0]:iv[1] + 1]) if r.random() < 0.7 else list(r.choice(ps).f['op_reprs'][iv[0]:iv[1] + 1])
                l = (l + [r.choice(ops) for _ in range(n)])[:n]
                for q in {r.choice([0, n - 1, r.randrange(n)]) for _ in range(r.choice([0, 1, 2]))}: l[q] = r.choice(ops)
                return tuple(l)
        elif ps and x < 0.7:                        # begins like an existing path
            l = list(r.choice(ps).f['op_reprs']); y = r.random()
            if y < 0.45: return tuple(l + [r.choice(ops) for _ in range(r.choice([1, 1, 2]))])
            if y < 0.7: return tuple(l[:-1] + [r.choice(ops)])
            if y < 0.85: return tuple(l[:1] + [r.choice(ops) for _ in range(r.randrange(1, 4))])
            return tuple([r.choice(ops)] + l[1:])
        return tuple(r.choice(ops) for _ in range(n))
    return _relate_vec(m, t, v, r)
CUSTOMS['relate std::vector'] = relate_vec2

def relate_int(m, t, v, r):
    """indices that belong to the machine at hand"""
    fs = machines(m)
    if not fs: return None
    f = r.choice(fs); il = m.cache.setdefault('ints', [])
    if f.cls == 'FSM':
        n = f.f['phys_site_num_']
        v = r.choice([0, 0, r.randrange(n)]) if not il else min(n - 1, il[0] + r.randrange(n)) if r.random() < 0.5 else n - 1
    else:
        ps = f.f['fsm_paths_']
        v = r.choice(ps).f['fsm_nodes'][0].f['fsm_site_idx'] if ps and r.random() < 0.6 else r.randrange(2 * f.f['unit_cell_site_num_'])
    il.append(v)
    return v
CUSTOMS['relate int'] = relate_int

# Values the classes themselves call equal (confirmed operator== of CoefRepr and SparMat; C03, C05): the order in which the
# labels of a sum were added, and the place an element of a sparse matrix has in its storage, are no part of the value.
def canon_coef(o):
    if set(o.f) != {'coef_label_list_'} or not isinstance(o.f['coef_label_list_'], tuple): return o
    try: return Obj(o.cls, {'coef_label_list_': tuple(sorted(o.f['coef_label_list_'], key=digest))})
    except Undef: return o
def canon_mat(o):
    if set(o.f) != {'rows', 'cols', 'data', 'indexes'}: return o
    R, C, data, idx = (o.f[k] for k in ('rows', 'cols', 'data', 'indexes'))
    if not (isinstance(data, tuple) and isinstance(idx, tuple) and isinstance(R, int) and isinstance(C, int) and len(idx) == R * C): return o
    try: used = [int(i) for i in idx if int(i) != -1]
    except (TypeError, ValueError): return o
    if len(set(used)) != len(used) or any(i < 0 or i >= len(data) for i in used): return o        # two cells that share storage are not independent
    return Obj(o.cls, {'rows': R, 'cols': C, 'data': tuple(None if int(i) == -1 else data[int(i)] for i in idx), 'indexes': ()})
CANON['CoefRepr'] = canon_coef
CANON['SparMat'] = CANON['SparOpReprMat'] = canon_mat
