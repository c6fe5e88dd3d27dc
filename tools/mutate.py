#!/usr/bin/env python3
"""developer tool: mutates one header and reports the verdict of the cross-check per mutant.
mutate.py core|full HEADER [seed] [max]   (scratch under /tmp/w/m)"""
import sys, os, re, random, shutil, subprocess, json
os.environ['PYTHONHASHSEED'] = '0'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/py')
tu, hdr = sys.argv[1], sys.argv[2]; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1; mx = int(sys.argv[4]) if len(sys.argv) > 4 else 60
from l2 import *
src = open('/repo/include/' + hdr).read().split('\n')
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
       (r'\brow(s?)\b', r'col\1'), (r'\bcol(s?)\b', r'row\1'), (r'\brow_idx\b', 'col_idx'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.begin\(\)', '.end()'), (r'\+=', '='), (r' = ', ' += '), (r'\[i\]', '[0]'), (r'\[i\]', '[j]'), (r'\bi\b', '(i+1)'), (r'\bx\b', 'y'), (r'\bfirst\b', 'second'), (r'\bif \(', 'if (!'), (r'push_back', 'emplace_back'), (r'\blhs\b', 'rhs'), (r'\bbreak;', ''), (r'\bcontinue;', ';'), (r'size\(\)', 'size() - 1'), (r'size\(\)', 'size() + 1'), (r'\*\s*this', '*this')]
muts = []
inc = False
for n, l in enumerate(src):
    s = l.strip()
    if s.startswith('/*'): inc = True
    if inc:
        if '*/' in s: inc = False
        continue
    if not s or s.startswith(('//', '#', '*', 'template', 'class', 'struct', 'using', 'public', 'private', 'assert', 'namespace', 'typedef')): continue
    code = l.split('//')[0]
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            new = code[:m.start()] + m.expand(rep) + code[m.end():]
            if new != code: muts.append((n, new))
    if re.match(r'^\s+[\w\.\->\[\]\(\)\*, &:]+(=|\(|\+=).*;\s*$', code) and not re.match(r'^\s*(return|auto|const|size_t|long|int|std::|bool|double)\b', code): muts.append((n, re.match(r'\s*', code).group(0) + ';'))
random.Random(seed).shuffle(muts)
muts = muts[:mx]
def work(i):
    n, new = muts[i]
    d = '/tmp/w/m/%s_%d_%d' % (os.path.basename(hdr), seed, i); 
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(V + '/ref/include', d + '/include')
    s2 = list(src); s2[n] = new
    open(d + '/include/' + hdr, 'w').write('\n'.join(s2))
    o = d + '/o.json'
    p = dump(tu, d, o); txt = p.communicate()[0]
    errs = [x for x in txt.splitlines() if 'error:' in x]
    if len(errs) > NERR or not os.path.exists(o): shutil.rmtree(d); return Result('NOCOMPILE')
    C = Prog(json.load(open(o))); shutil.rmtree(d)
    PR = Pairing(R, C)
    out = []
    for k in PR.changed:
        if R.bykey[k].get('islambda') or not R.bykey[k].get('body'): continue
        t0 = time.time(); r = decide(PR, k)
        out.append((k, r.verdict, [(lv, x.verdict, x.__dict__.get('why') or x.__dict__.get('what') or (x.__dict__.get('admissible'), x.__dict__.get('undef'), x.__dict__.get('budget'), x.__dict__.get('undecided'))) for lv, x in r.log], round(time.time() - t0, 1)))
        if len(out) >= 3: break
    return Result('OK', out=out)
p = dump(tu, V + '/ref', '/tmp/w/m/ref_%d.json' % os.getpid()); txt = p.communicate()[0]; NERR = sum('error:' in x for x in txt.splitlines())
R = Prog(json.load(open('/tmp/w/m/ref_%d.json' % os.getpid()))); os.unlink('/tmp/w/m/ref_%d.json' % os.getpid())
for f in R.F.values(): f['h'] = canon(R, f)
res = run_all({i: (lambda i=i: work(i)) for i in range(len(muts))}, 300, int(os.environ.get('JOBS', '8')))
cnt = {}
for i in range(len(muts)):
    r = res[i]; v = r.verdict
    if v == 'OK':
        vs = [x[1] for x in r.out]
        v = 'SAME' if not vs else 'DIFF' if 'DIFF' in vs else 'UNDEC' if 'UNDEC' in vs else 'QUIET'
    cnt[v] = cnt.get(v, 0) + 1
    if v in ('QUIET', 'UNDEC'):
        n, new = muts[i]
        print('%s line %d\n  - %s\n  + %s' % (v, n + 1, src[n].strip(), new.strip()))
        for x in r.__dict__.get('out', []): print('     ', x[0][:70], x[1], x[2], x[3])
        if 'why' in r.__dict__: print('     ', r.why)
print(cnt)
