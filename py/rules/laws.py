"""laws of analyzer/laws/*.cpp: a law holds when the normal form of its result is `true`"""
import json, os, re, subprocess, time, tempfile
from rules.common import *
from l2 import V, forked, apart
import terms as TM, equiv
from terms import TRUE, FALSE
from equiv import interpret, run_model, constants, Model, Ev, Result, wrapped
from evalt import Undef, Undecided, Budget
from engine import Prog
from customs import CUSTOMS
TEXT = {'core': 'core_laws.cpp', 'full': 'full_laws.cpp'}
_cache = {}
def tree_of(P):
    for f in P.F.values():
        m = re.match(r'(.*)/include/qlmps/', f.get('file') or '')
        if m: return m.group(1)
def program(P, tu):
    tree = tree_of(P)
    if (tree, tu) not in _cache:
        out = tempfile.mktemp(suffix='.json', dir='/tmp')
        roots = '%s/include,%s/analyzer/laws' % (tree, V)
        extra = [] if tu == 'core' else ['-ferror-limit=0', '-I%s/stubs' % V, '-I/usr/lib/x86_64-linux-gnu/openmpi/include']
        r = subprocess.run([V + '/tools/dump.sh', out, roots, 'third_party', V + '/analyzer/laws/' + TEXT[tu]] + extra, env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
        if not os.path.exists(out): raise RuntimeError('the laws do not parse: ' + (r.stdout + r.stderr)[-400:])
        _cache[tree, tu] = (Prog(json.load(open(out))), [l for l in (r.stdout + r.stderr).splitlines() if re.search(r'\berror:', l)])
        os.unlink(out)
    return _cache[tree, tu]
def decide_law(L, key, n, tl):
    S = interpret(L, key, set())
    v = S.obs.get('ret')
    if S.unks and any(u for u in S.unks) and v is None: return Result('open', why=str(S.unks[:2]))
    if v is None: return Result('open', why='no result')
    if v is TRUE: return Result('proved')
    ints, strs = constants(S)
    syms = sorted(constants.syms.items(), key=lambda kv: ('SparMat' not in str(TM.TYP.get(kv[1])) and 'SparOpReprMat' not in str(TM.TYP.get(kv[1])), kv[1].a[0] != 'this', kv[0]))
    t0 = time.time(); adm = 0; why = {}
    for seed in range(n):
        if time.time() - t0 > tl: break
        m = Model(L, seed, ints, strs, CUSTOMS, equiv.eq_hook(L)); e = Ev(m)
        try:
            for _, x in syms: e.sv(x, e.root)
            k, x, o = run_model(S, e)
            if k != 'normal' or wrapped(o, e) or wrapped(o, e, 'wrapeq'): continue
            if not e.cond(v, e.root):
                return Result('refuted', cex={str(kk[0]): str(e.sv(y, e.root))[:300] for kk, y in syms})
            adm += 1
        except Undef: pass
        except Budget: pass
        except Undecided as ex: why[str(ex)[:50]] = why.get(str(ex)[:50], 0) + 1
    return Result('open', why='%d models without a counterexample %s' % (adm, why or ''))
def laws(P, tu, prop):
    L, errs = program(P, tu)
    mine = sorted(k for k, f in L.bykey.items() if f['q'].startswith('laws::%s_' % prop) and f.get('body') is not None)
    from l2 import run_all
    res = {}
    quick = os.environ.get('VERIF_TIER', 'quick') == 'quick'
    n, tl = (160, 4) if quick else (1500, 30)
    res = run_all({k: (lambda k=k: decide_law(L, k, n, tl)) for k in mine}, 25 if quick else 90, total=150 if quick else 500)
    out = []
    for k in mine:
        r = res.get(k); nm = L.bykey[k]['q'].split('::')[-1]
        ok = True if r.verdict == 'proved' else False if r.verdict == 'refuted' else None
        out.append(Ob('law', nm, ok, '' if ok else ('a counterexample: %s' % (r.__dict__.get('cex'),) if ok is False else str(r.__dict__.get('why'))), 'analyzer/laws/%s:%s' % (TEXT[tu], L.bykey[k].get('line'))))
    return out
def _mk(prop, tu):
    def f(P, PR): return laws(P, tu, prop)
    return f
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09'): globals()[_p] = _mk(_p, 'core')
