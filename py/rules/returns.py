"""C25: no operation that promises a result runs off its end"""
from rules.common import *
def promised(P, PR):
    fl = Flow(P); out = []; seen = set()
    for k, f in functions(P):
        if f.get('islambda') or f.get('kind') in ('ctor', 'dtor') or f.get('ret') in ('void', None, ''): continue
        q = short(f['q'])
        ok = not fl.normal(f['body'])
        key = (q, len(f['ps']), ok)
        if key in seen and ok: continue
        if key in seen: continue
        seen.add(key)
        out.append(Ob('returns.promised', '%s/%d' % (q, len(f['ps'])), ok, '' if ok else 'control can reach the end of a function that returns ' + str(f['ret'])[:80], loc(f)))
    return out
