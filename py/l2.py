"""Driver of the cross-check: which functions changed, which of them are observable, and the verdict per function."""
import os, sys, json, time, signal, pickle, subprocess, traceback
from equiv import *
from customs import CUSTOMS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def dump(tu, tree, out, other=None):
    """run the front end over a tree; returns the parsed dump"""
    env = dict(os.environ, VERIF_REPO=tree)
    if tu == 'core': cmd = [V + '/tools/dump.sh', out, tree + '/include', 'third_party', V + '/analyzer/tu/core.cpp', '-I/repo/include']
    else: cmd = [V + '/tools/full.sh', out, '-I/repo/include']
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def forked(fn, tlimit):
    """run fn in a child with a time limit; None on timeout"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (3600 << 20, 3600 << 20))
            res = fn()
        except BaseException as e:
            res = Result('UNDEC', why='engine: %r %s' % (e, [(x.name, x.lineno) for x in traceback.extract_tb(sys.exc_info()[2])[-3:]]))
        if isinstance(res, Result): res.__dict__.pop('model', None)
        signal.alarm(0)
        with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        os._exit(0)
    os.close(w)
    return pid, r, time.time() + tlimit

def run_all(tasks, tlimit, jobs=8, total=None):
    """tasks: {name: fn}; returns {name: Result}"""
    import select
    pend = list(tasks.items()); run = {}; out = {}; t0 = time.time()
    while pend or run:
        if total is not None and time.time() - t0 > total:
            for n, _ in pend: out[n] = Result('UNDEC', why='time limit of the check')
            pend = []
            for r in list(run):
                n, pid, dl, buf = run[r]; run[r] = (n, pid, min(dl, 0), buf)
        while pend and len(run) < jobs:
            n, fn = pend.pop(0); pid, r, dl = forked(fn, tlimit); run[r] = (n, pid, dl, [])
        rd, _, _ = select.select(list(run), [], [], 0.2)
        for r in rd:
            n, pid, dl, buf = run[r]
            d = os.read(r, 1 << 20)
            if d: buf.append(d); continue
            os.close(r); os.waitpid(pid, 0); del run[r]
            try: out[n] = pickle.loads(b''.join(buf))
            except Exception: out[n] = Result('UNDEC', why='child died')
        for r in list(run):
            n, pid, dl, buf = run[r]
            if time.time() > dl:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); del run[r]
                out[n] = Result('UNDEC', why='time limit')
    return out

def apart(fn):
    """run fn in a child of its own, so that running out of memory costs only this step"""
    import gc
    pid, r, _ = forked(fn, 0)
    buf = []
    try:
        while True:
            d = os.read(r, 1 << 20)
            if not d: break
            buf.append(d)
    except BaseException:
        os.kill(pid, signal.SIGKILL); raise
    finally:
        os.close(r); os.waitpid(pid, 0)
    try: return pickle.loads(b''.join(buf))
    except Exception: return Result('UNDEC', why='out of memory')
LEVELS = (0, 1, 2, 3, 5)
def decide(PR, key, n=600, tl=12, levels=LEVELS, cap=130):
    """verdict for one changed function; runs in a child process"""
    log = []; last = None; t0 = time.time()
    for lv in levels:
        oR, oC = PR.opset(PR.R, key, lv), PR.opset(PR.C, key, lv)
        sig = (frozenset(PR.R.keyof[k] for k in oR), frozenset(PR.C.keyof[k] for k in oC))
        if sig == last: continue
        last = sig
        def alarm(*a): raise TimeoutError('level time limit')
        signal.signal(signal.SIGALRM, alarm); left = cap - (time.time() - t0)
        if left < 3 and log: break
        signal.alarm(max(3, int(min(left, tl * (2.5 if lv < 3 else 9)))))
        try: r = compare(PR, key, lv, n, tl, CUSTOMS) if lv < 3 else apart(lambda: compare(PR, key, lv, n, tl, CUSTOMS))
        except (TimeoutError, RecursionError, MemoryError) as e: r = Result('UNDEC', why=repr(e)[:100])
        except Exception as e: r = Result('UNDEC', why='engine %r %s' % (e, [(x.name, x.lineno) for x in traceback.extract_tb(sys.exc_info()[2])[-2:]]))
        signal.alarm(0)
        r.__dict__.pop('model', None)
        log.append((lv, r))
        if r.verdict == 'EQ': return Result('EQ', level=lv, log=log)
    # the deepest level that reached a conclusion decides: it leaves the least uninterpreted
    for lv, r in reversed(log):
        if r.verdict == 'NODIFF': return Result('NODIFF', level=lv, log=log)
        if r.verdict == 'DIFF': return Result('DIFF', level=lv, log=log, first=next(x[1] for x in log if x[1].verdict == 'DIFF'), deepest=r)
    return Result('UNDEC', log=log, why=log[-1][1].__dict__.get('why') if log else 'nothing')

def callers(P, keys):
    out = {k: set() for k in keys}
    for k, f in P.F.items():
        for c in P.calls_of(k):
            g = P.keyof.get(c['f'])
            if g in out and f['key'] != g: out[g].add(f['key'])
    return out
def root_callers(P, key, seen=None):
    """nearest callers that are visible to users (through private helpers)"""
    seen = seen if seen is not None else set()
    out = set()
    for c in callers(P, [key])[key]:
        if c in seen: continue
        seen.add(c)
        f = P.bykey[c]
        if f.get('islambda'): continue
        if f.get('access') in ('private', 'protected'): out |= root_callers(P, c, seen)
        else: out.add(c)
    return out
def closure(P, keys):
    seen = set(keys); w = list(keys)
    while w:
        k = w.pop()
        f = P.bykey.get(k)
        if not f: continue
        for c in P.calls_of(f['f']):
            g = P.keyof.get(c['f'])
            if g and g not in seen: seen.add(g); w.append(g)
    return seen
