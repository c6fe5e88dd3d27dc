"""C08: the link table of the automaton can hold what terms need."""
import re
from rules.common import Ob, loc
def parallel_links(P, PR):
    """one operator may lead from one state both to a further state (a longer term) and to the final state (a term that ends
    here): a table with unique operator keys cannot hold both, so one of the two terms is lost or refused"""
    obs = []
    for c, n in (('iFSM', 'iFSM'),):
        r = P.R.get(c)
        if not r: continue
        for f in r['fields']:
            t = str(f.get('t') or '')
            if 'FSMNode' not in t or 'OpRepr' not in t: continue
            if re.search(r'std::(unordered_)?map<OpRepr, FSMNode\b', t): obs.append(Ob('automaton.parallel_links', n + '::links', False, 'the links of a state are keyed uniquely by operator (%s): a term that ends where a longer term with the same first operators goes on cannot be recorded' % f['n'], 'include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h'))
            elif 'multimap' in t or 'vector<std::pair' in t or 'set<' in t: obs.append(Ob('automaton.parallel_links', n + '::links', True, f['n'] + ' holds several targets per operator', 'ifsm.h'))
            else: obs.append(Ob('automaton.parallel_links', n + '::links', None, 'link table of unknown shape ' + t[:80], 'ifsm.h'))
    return obs
