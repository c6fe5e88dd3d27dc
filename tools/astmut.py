#!/usr/bin/env python3
"""developer tool: changes the type-checked program one node at a time and reports which changes the value graphs do
not see (EQ) and, with -d, which ones the whole cross-check does not report.
astmut.py DUMP.json PATTERN [-d] [max per function] [seed]"""
import sys, os, re, json, random, copy
os.environ['PYTHONHASHSEED'] = '0'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/py')
from l2 import *
full = '-d' in sys.argv; args = [a for a in sys.argv[1:] if a != '-d']
dumpf, pat = args[0], args[1]; mx = int(args[2]) if len(args) > 2 else 1000; seed = int(args[3]) if len(args) > 3 else 1
txt = open(dumpf).read()
R = Prog(json.loads(txt)); C = Prog(json.loads(txt)); PR = Pairing(R, C)
REL = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '+': '-', '-': '+', '*': '+', '+=': '-=', '-=': '+='}
def sites(x, path=()):
    """(description, undoable edit) of every mutation point below x"""
    if isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, dict) and y.get('k') in ('expr', 'if', 'for', 'while', 'rfor', 'break', 'continue', 'delete', 'block', 'asg') and path and path[-1] in ('b', 'a', 'body', 'then'):
                if not (y['k'] == 'expr' and (y.get('e') or {}).get('q', '').startswith('std::operator<<')): yield ('drop %s' % y['k'], x, i, {'k': 'null', 'l': y.get('l')}, y)
            yield from sites(y, path)
        return
    if not isinstance(x, dict): return
    if x.get('k') == 'lambda': return
    if x.get('k') == 'lit' and x.get('lk') in ('int', 'float') : yield ('lit %s+1' % x['v'], x, 'v', (x['v'] + 1 if not isinstance(x['v'], str) else str(int(x['v']) + 1)), x)
    if x.get('k') == 'lit' and x.get('lk') == 'bool': yield ('not bool', x, 'v', not x['v'], x)
    if x.get('k') == 'lit' and x.get('lk') == 'str' : yield ('str', x, 'v', str(x['v']) + '_', x)
    if x.get('k') == 'bin' and x.get('op') in REL: yield ('%s -> %s' % (x['op'], REL[x['op']]), x, 'op', REL[x['op']], x)
    if x.get('k') in ('call', 'ctor') and len(x.get('a') or []) > 1:
        a = x['a']
        for i in range(len(a) - 1):
            if a[i].get('t') == a[i + 1].get('t') and a[i] != a[i + 1]: yield ('swap args %d' % i, x, 'a', a[:i] + [a[i + 1], a[i]] + a[i + 2:], x)
    if x.get('k') == 'if' and x.get('el' if 'el' in x else 'else'):
        pass
    for k, v in x.items():
        if k in ('$calls',): continue
        if isinstance(v, (dict, list)): yield from sites(v, path + (k,))
def line(n):
    if isinstance(n, dict):
        if n.get('l'): return n['l']
        for v in n.values():
            z = line(v)
            if z: return z
    if isinstance(n, list):
        for v in n:
            z = line(v)
            if z: return z
fns = {}
for k, f in sorted(C.bykey.items()):
    if os.environ.get('AMFILE') and not re.search(os.environ['AMFILE'], f.get('file') or ''): continue
    if pat not in k or f.get('body') is None or '/include/qlmps/' not in (f.get('file') or '') or f.get('islambda'): continue
    fns.setdefault((f['file'], f['line']), []).append((k, f))
muts = []
def add(loc, n, only=None):
    if n >= len(fns[loc]): return
    k, f = fns[loc][n]
    ms = list(sites({'body': f['body'], 'inits': f.get('inits')}))
    random.Random(seed).shuffle(ms)
    for m in ms[:mx] if only is None else ms:
        g = (loc, line(m[4]), m[0])
        if only is None or g in only: muts.append((k, f, m, g))
for loc in sorted(fns): add(loc, 0)
def work(i):
    k, f, (d, obj, key, new, node), g = muts[i]
    obj[key] = new
    f.pop('$calls', None)
    if full: return decide(PR, k, 300, 8, cap=100)
    A = interpret(R, k, PR.opset(R, k, 0)); B = interpret(C, k, PR.opset(C, k, 0))
    ok, w = nf_equal(A, B)
    if A.unks or B.unks: return Result('UNK', why=str((A.unks + B.unks)[:2]))
    return Result('EQ' if ok else 'NE')
best = {}
def run():
    res = run_all({i: (lambda i=i: work(i)) for i in range(len(muts))}, 150)
    for i, r in res.items():
        g = muts[i][3]
        if g not in best or best[g][0] not in ('NE', 'DIFF') and r.verdict in ('NE', 'DIFF'): best[g] = (r.verdict, muts[i], str(r.__dict__.get('why') or '')[:80])
run()
for n in (1, 2, 3):
    left = set(g for g, b in best.items() if b[0] not in ('NE', 'DIFF')); muts = []
    for loc in sorted({g[0] for g in left}): add(loc, n, left)
    run()
from collections import Counter
print(Counter(b[0] for b in best.values()))
for g in sorted(best, key=lambda g: (g[0], g[1] or 0, g[2])):
    v, m, why = best[g]
    if v not in ('NE', 'DIFF'): print(v, os.path.basename(g[0][0]), g[1], g[2], m[1]['q'][:60], why)
