"""check.py PROPERTY [quick|thorough]: decides one property of the current tree from its source.

Two layers, both static:
  rules   absolute rules over the type-checked program (rules_*.py), each obligation names a construct
  cross   every function that carries the property against the confirmed reference instance (equiv.py)"""
import sys, os, re, json, time, subprocess
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
T0 = time.time()
from l2 import *
from props import PROPS
import importlib
def die(msg, code=2):
    print('ERROR: ' + msg); sys.stdout.flush(); os._exit(code)

def simple(q):
    """qualified name without template arguments and namespace qlmps"""
    out = []; d = 0
    i = 0
    while i < len(q):
        if q.startswith('operator', i) and d == 0:
            m = re.match(r'operator(\(\)|\[\]|[^\w\s]+)', q[i:])
            if m: out.append(m.group(0)); i += len(m.group(0)); continue
        ch = q[i]
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
        i += 1
    s = ''.join(out)
    return s[7:] if s.startswith('qlmps::') else s

class Ob(object):
    """one obligation of a rule"""
    __slots__ = ('rule', 'subject', 'ok', 'detail', 'where', 'base')
    def __init__(self, rule, subject, ok, detail='', where=''): self.rule, self.subject, self.ok, self.detail, self.where, self.base = rule, subject, ok, detail, where, ()
    @property
    def id(self): return '%s:%s' % (self.rule, re.sub(r'\s+', '', self.subject))

def known(prop):
    out = {}
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def build():
    r = subprocess.run([V + '/tools/build.sh'], capture_output=True, text=True)
    if r.returncode: die('front end does not build: ' + r.stderr[-800:])

def load(tu):
    tmp = '/tmp/verif_check_%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    jobs = [(t, dump(tu, t, '%s/%d.json' % (tmp, i)), '%s/%d.json' % (tmp, i)) for i, t in enumerate((V + '/ref', REPO))]
    res = []
    for t, p, o in jobs:
        txt = p.communicate()[0]
        errs = [l for l in txt.splitlines() if re.search(r'\berror:', l)]
        if not os.path.exists(o): die('front end failed on %s: %s' % (t, txt[-800:]))
        res.append((json.load(open(o)), errs)); os.unlink(o)
    os.rmdir(tmp)
    (rj, re_), (cj, ce) = res
    if len(ce) > len(re_): die('the current tree does not compile in the front end: ' + ' | '.join(ce[:4]))
    return Prog(rj), Prog(cj), len(ce)

def where(P, key):
    f = P.bykey.get(key)
    if not f: return '?'
    return '%s:%s' % (re.sub(r'^.*?/include/', 'include/', str(f.get('file'))), f.get('line'))

def select(P, cfg):
    """anchors and the functions they rely on"""
    pats = [re.compile('^(?:%s)$' % a) for a in cfg['anchors']]
    hit = {p.pattern: 0 for p in pats}
    anch = set()
    for k, f in P.bykey.items():
        if f.get('islambda') or not f.get('body'): continue
        s = simple(f['q'])
        for p in pats:
            if p.match(s): anch.add(k); hit[p.pattern] += 1
    return anch, hit

def followed(P, anch, files):
    if files is None:
        return {k for k in closure(P, anch) if k in P.bykey}
    seen = set(anch); w = list(anch)
    while w:
        k = w.pop(); f = P.bykey.get(k)
        if not f: continue
        for c in P.calls_of(f['f']):
            g = P.keyof.get(c['f'])
            if g and g not in seen and os.path.basename(str(P.bykey[g].get('file'))) in files: seen.add(g); w.append(g)
    return seen

def defaults(P, f):
    """default arguments as terms"""
    out = []
    for p in f['ps']:
        if p.get('def') is None: out.append(None); continue
        try:
            E = Eng(P); v = E.rv(p['def'], St(), 0); out.append(v)
        except Exception: out.append('?')
    return out

def is_internal(P, key, anch):
    f = P.bykey[key]
    return key not in anch or f.get('access') in ('private', 'protected')

def cross(PR, cfg, seed, tier):
    """the cross-check over all functions that carry the property"""
    R, C = PR.R, PR.C
    anch, _ = select(R, cfg)
    fset = followed(R, anch, cfg.get('files'))
    fset |= {k for k in followed(C, {a for a in anch if a in C.bykey}, cfg.get('files')) if k in C.bykey}
    rep = {'functions': 0, 'identical': 0, 'changed': 0, 'results': {}}
    todo = []
    lam = 0
    for k in sorted(fset):
        a, b = R.bykey.get(k), C.bykey.get(k)
        if a is None or b is None or not a.get('body') or not b.get('body'):
            if a is not None and not a.get('islambda') and b is None: rep.setdefault('only_reference', []).append(k)
            if b is not None and not b.get('islambda') and a is None: rep.setdefault('only_current', []).append(k)
            continue
        if a.get('islambda'): lam += 1; continue
        rep['functions'] += 1
        if a['h'] == b['h']: rep['identical'] += 1
        else: todo.append(k)
    rep['lambdas'] = lam
    rep['changed'] = len(todo)
    bad = []
    n, tl = (800, 14) if tier == 'quick' else (6000, 60)
    # one instance of a template stands for its siblings when both trees treat them alike; still each is decided
    for k in list(todo):
        da, db = defaults(R, R.bykey[k]), defaults(C, C.bykey[k])
        if da != db and not any(x == '?' for x in da + db):
            bad.append((k, 'default argument', 'default arguments were %s and are now %s' % (da, db)))
    budget = 600 if tier == 'quick' else 3000
    res = run_all({k: (lambda k=k: decide(PR, k, n, tl, cap=130 if tier == 'quick' else 350)) for k in todo}, 150 if tier == 'quick' else 400, total=480 if tier == 'quick' else 560)
    weak = set()
    for k in todo:
        r = res[k]
        rep['results'][k] = {'verdict': r.verdict, 'level': r.__dict__.get('level'), 'why': r.__dict__.get('why'), 'steps': [(lv, x.verdict, {a: str(b)[:300] for a, b in x.__dict__.items() if a in ('what', 'ref', 'new', 'admissible', 'why', 'nf')}) for lv, x in r.__dict__.get('log', [])]}
        if r.verdict in ('NODIFF', 'UNDEC') and is_internal(R, k, anch):
            # the callers know which inputs the helper really gets
            weak |= {c for c in root_callers(R, k) if c in R.bykey and c in C.bykey and c in fset and R.bykey[c].get('body') and C.bykey[c].get('body')} - set(todo)
        if r.verdict != 'DIFF': continue
        if is_internal(R, k, anch):
            v, why = via_callers(PR, k, anch, n, tl)
            rep['results'][k]['callers'] = why
            if not v: continue
        x = r.deepest
        bad.append((k, str(x.__dict__.get('what')), 'in a model of the inputs the confirmed instance gives %s, the current tree gives %s' % (x.__dict__.get('ref'), x.__dict__.get('new'))))
    if weak and not bad:
        left = max(20, (560 if tier == 'quick' else 750) - (time.time() - T0))
        res2 = run_all({c: (lambda c=c: decide(PR, c, n, tl, levels=deep_levels(PR, c), cap=min(110, left))) for c in sorted(weak)}, 120, total=left)
        for c, r in res2.items():
            rep['results'][c] = {'verdict': r.verdict, 'level': r.__dict__.get('level'), 'why': r.__dict__.get('why') or 'as a caller of changed helpers'}
            if r.verdict == 'DIFF':
                x = r.deepest
                bad.append((c, str(x.__dict__.get('what')), 'with its changed helpers expanded, in a model of the inputs the confirmed instance gives %s, the current tree gives %s' % (x.__dict__.get('ref'), x.__dict__.get('new'))))
    return rep, bad, anch, fset

def deep_levels(PR, c):
    """levels at which a caller is decided with its changed helpers, and what those call directly, expanded"""
    ok = True
    for P in (PR.R, PR.C):
        op = PR.opset(P, c, 3)
        for k in closure(P, [c]) & PR.chset:
            if k == c or k not in P.bykey: continue
            if any(x['f'] in op for x in P.calls_of(P.bykey[k]['f'])) : ok = False
    return (3, 5) if ok else (5,)

def via_callers(PR, key, anch, n, tl):
    """does a difference of an internal function reach the functions users call?"""
    R, C = PR.R, PR.C
    tandem = set(); frontier = [key]; seen = {key}
    while frontier:
        k = frontier.pop()
        cs = callers(R, [k])[k] | callers(C, [k])[k] if k in C.bykey else callers(R, [k])[k]
        for c in cs:
            if c in seen or c not in R.bykey or c not in C.bykey: continue
            seen.add(c)
            if R.bykey[c]['h'] != C.bykey[c]['h']: tandem.add(c)
            if c not in anch: frontier.append(c)
    if not tandem: return True, 'no caller changed with it'
    # callers were adapted together with the helper: their behaviour decides
    res = run_all({c: (lambda c=c: decide(PR, c, n, tl, cap=60)) for c in tandem}, 75, total=max(20, 700 - (time.time() - T0)))
    return any(r.verdict == 'DIFF' for r in res.values()), {c: r.verdict for c, r in res.items()}

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    build()
    R, C, nerr = load(cfg['tu'])
    PR = Pairing(R, C)
    for side, P in (('reference', R), ('current', C)):
        anch, hit = select(P, cfg)
        miss = [p for p, n in hit.items() if n == 0]
        if side == 'current':       # a helper may be folded into its callers: they are judged with its confirmed meaning
            called = {R.keyof.get(c['f']) for k, f in R.bykey.items() if k in C.bykey and f.get('body') for c in R.calls_of(f['f'])}
            ra, _ = select(R, cfg)
            helpers = [p for p in miss if all(k in called for k in ra if re.match(p, simple(R.bykey[k]['q'])))]
            if len(helpers) < len(hit): miss = [p for p in miss if p not in helpers]
        if miss and not cfg.get('optional'): die('%s: anchor functions vanished from the %s tree: %s' % (prop, side, miss))
    print('%s (%s): %s translation unit, %d functions in the current tree, %d front-end errors (as confirmed)' % (prop, tier, cfg['tu'], len(C.bykey), nerr))
    obs = []
    for rn in cfg.get('rules', ()):
        mod, fn = rn.split('.')
        f = getattr(importlib.import_module('rules.' + mod), fn)
        try: o = f(C, PR)
        except Exception as ex: o = [Ob(rn, 'the current tree', None, 'not understood: %r' % (ex,))]
        held = set()
        if not any(x.ok for x in o) or any(x.ok is False for x in o):        # what does the rule say about the confirmed tree?
            try: ro = f(R, PR)
            except Exception: die('%s: rule %s fails on the confirmed tree: %s' % (prop, rn, traceback.format_exc()[-600:]))
            if not ro: die('%s: rule %s has no instance in the confirmed tree' % (prop, rn))
            held = {x.id for x in ro if x.ok is not False}
            bad0 = {x.id for x in ro if x.ok is False}
            for x in o:
                if x.ok is False and x.id in bad0 and x.id not in known(prop): x.ok = None; x.detail = 'the confirmed tree is judged the same: ' + x.detail
        for x in o: x.base = held
        obs += o
    rep, bad, anch, fset = cross(PR, cfg, seed, tier)
    kn = known(prop)
    viol = []
    # what was re-derived to be the confirmed behaviour cannot break a rule that the confirmed behaviour satisfies: there
    # the rule misread the new shape, and its verdict counts as undecided
    same = not bad and (not rep['results'] or all(v['verdict'] == 'EQ' for v in rep['results'].values())) and not rep.get('only_current') and not rep.get('only_reference')
    for o in obs:
        if o.ok is False and o.id in o.base and same and cfg.get('rules_local', True): o.ok = None; o.detail = 'overruled by the re-derivation: ' + o.detail
    for o in obs:
        if o.ok is not False: continue
        if o.id in kn: print('KNOWN-FINDING: property=%s %s (%s)' % (prop, kn[o.id], o.where)); continue
        viol.append({'layer': 'rule', 'rule': o.rule, 'construct': o.subject, 'where': o.where, 'detail': o.detail, 'id': o.id})
    for k, what, d in bad:
        oid = 'cross:' + re.sub(r'\s+', '', simple(k.split('|')[0]))
        if oid in kn: print('KNOWN-FINDING: property=%s %s' % (prop, kn[oid])); continue
        viol.append({'layer': 'cross', 'rule': 'behaviour of the confirmed instance', 'construct': k, 'where': where(C, k), 'detail': 'observable "%s": %s' % (what, d), 'id': oid})
    byrule = {}
    for o in obs:
        e = byrule.setdefault(o.rule, {'obligations': 0, 'holding': 0, 'undecided': 0}); e['obligations'] += 1; e['holding'] += o.ok is True; e['undecided'] += o.ok is None
    cnt = {}
    for v in rep['results'].values(): cnt[v['verdict']] = cnt.get(v['verdict'], 0) + 1
    expl = ('%d rule obligations (%s); cross-check over %d functions reached from %d anchors: %d structurally identical to the confirmed instance, %d re-derived (%s)'
            % (len(obs), ', '.join('%s %d/%d' % (r, e['holding'], e['obligations']) for r, e in byrule.items()) or 'none', rep['functions'], len(anch), rep['identical'], rep['changed'], cnt or 'none'))
    lvl = cfg.get('level', 'other')
    cov = {'explanation': expl, 'rules': byrule, 'rule_subjects': [{'rule': o.rule, 'construct': o.subject[:200], 'where': o.where, 'holds': o.ok, **({'detail': o.detail[:200]} if not o.ok else {})} for o in obs][:400],
           'functions': rep['functions'], 'identical': rep['identical'], 'rederived': rep['changed'], 'verdicts': rep['results'], 'only_reference': rep.get('only_reference', []), 'only_current': rep.get('only_current', []),
           'layout_changes': PR.layout, 'function_list': sorted(k[:160] for k in fset)[:400], 'front_end_errors': nerr}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': lvl, 'coverage': cov, 'violations': viol, 'wall_s': round(time.time() - T0, 2)}, open(V + '/evidence/%s.json' % prop, 'w'), indent=1, default=str)
    print(expl)
    for k, v in rep['results'].items(): print('  re-derived %s: %s%s' % (k[:110], v['verdict'], ' (' + str(v['why'])[:80] + ')' if v['why'] else ''))
    if rep['functions'] < cfg.get('floor', 1): die('%s: only %d functions analysed' % (prop, rep['functions']))
    if viol:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        for i, v in enumerate(viol):
            p = V + '/evidence/replay/%s-%d.json' % (prop, i)
            json.dump(v, open(p, 'w'), indent=1)
            print('%s [%s] %s\n    %s' % (v['where'], v['rule'], v['construct'][:160], v['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        sys.stdout.flush(); os._exit(1)
    print('OK %s %.1fs' % (prop, time.time() - T0)); sys.stdout.flush(); os._exit(0)
if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.stdout.flush(); os._exit(3)
