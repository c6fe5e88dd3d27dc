"""developer tool: compare a tree with the reference.  try.py core|full TREE [pattern]"""
import sys; from l2 import *
tu, tree = sys.argv[1], sys.argv[2]; pat = sys.argv[3] if len(sys.argv) > 3 else None
a = dump(tu, V + '/ref', '/tmp/try_ref.json'); b = dump(tu, tree, '/tmp/try_cur_%d.json' % os.getpid()); oa = a.communicate()[0]; ob = b.communicate()[0]
R = Prog(json.load(open('/tmp/try_ref.json'))); C = Prog(json.load(open('/tmp/try_cur_%d.json' % os.getpid()))); os.unlink('/tmp/try_cur_%d.json' % os.getpid())
if 'error' in ob and tu == 'core': print(ob[-500:])
PR = Pairing(R, C)
print('functions', len(R.bykey), 'changed', PR.changed, 'added', PR.added, 'removed', PR.removed, 'layout', PR.layout)
ks = [k for k in PR.changed if R.bykey[k].get('body') and C.bykey[k].get('body') and not R.bykey[k].get('islambda') and not (pat and pat not in k)]
t0 = time.time()
res = run_all({k: (lambda k=k: decide(PR, k)) for k in ks}, 150)
for k, r in res.items():
    print(r.verdict, k[:90], r.__dict__.get('why', ''))
    for lv, x in r.__dict__.get('log', []): print('    level', lv, x.verdict, {a: str(b)[:200] for a, b in x.__dict__.items() if a not in ('verdict', 'model')})
print('%.1fs' % (time.time() - t0))
