"""shared by the rules: the obligation record, walks over the type-checked program, completion analysis"""
import re, sys, os
from check import Ob, simple
def loc(f): return '%s:%s' % (re.sub(r'^.*?/include/', 'include/', str(f.get('file'))), f.get('line'))
def short(q): return simple(q)
def walk(n):
    """all nodes of an expression or statement"""
    w = [n]
    while w:
        x = w.pop()
        if isinstance(x, dict):
            if 'k' in x: yield x
            w.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): w.extend(v for v in x if isinstance(v, (dict, list)))
def functions(P):
    for k, f in P.F.items():
        if f.get('body') is not None and f.get('file') and '/include/qlmps/' in f['file'] and 'third_party' not in f['file']: yield k, f

class Flow(object):
    """can a statement complete normally? (calls that never return, constant conditions and complete switches included)"""
    def __init__(self, P): self.P = P; self.nr = {}
    def noreturn_fn(self, fid, depth=0):
        if fid not in self.nr:
            self.nr[fid] = False
            f = self.P.F.get(fid)
            if f and f.get('body') is not None and depth < 12:
                self.nr[fid] = not self.normal(f['body']) and not any(x['k'] == 'ret' for x in walk(f['body']))
        return self.nr[fid]
    def const(self, e):
        if e is None: return True
        while e.get('k') == 'cast': e = e['e']
        if e.get('k') == 'lit' and e.get('lk') in ('bool', 'int'): return bool(e['v'])
        return None
    def ends_expr(self, e):
        """the evaluation of this expression never completes"""
        if not isinstance(e, dict): return False
        k = e.get('k')
        if k == 'throw': return True
        if k == 'lambda': return False
        if k == 'cond': return self.ends_expr(e['c']) or (self.ends_expr(e['a']) and self.ends_expr(e['b'])) if 'c' in e else False
        if k == 'bin' and e.get('op') in ('&&', '||'): return self.ends_expr(e['a'])
        if k == 'call' and (e.get('noret') or e.get('q') in ('exit', 'std::exit', 'abort', 'std::abort', 'std::terminate', '_exit', 'std::rethrow_exception') or (e.get('f') and self.noreturn_fn(e['f']))): return True
        for v in e.values():
            if isinstance(v, dict) and self.ends_expr(v): return True
            if isinstance(v, list) and any(isinstance(x, dict) and self.ends_expr(x) for x in v): return True
        return False
    def breaks(self, s):
        """a break that leaves this loop or switch body"""
        if s is None: return False
        k = s.get('k')
        if k == 'break': return True
        if k in ('for', 'while', 'do', 'rfor', 'switch', 'lambda'): return False
        return any(self.breaks(x) for v in s.values() for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict) and 'k' in x)
    def normal(self, s):
        if s is None: return True
        k = s.get('k')
        if k == 'block':
            for x in s['b']:
                if not self.normal(x): return False
            return True
        if k in ('ret', 'break', 'continue', 'goto'): return False
        if k == 'throw': return False
        if k == 'expr': return not self.ends_expr(s['e'])
        if k == 'decl':
            return not any(self.ends_expr(v.get('init')) for v in s.get('v', []) if isinstance(v, dict))
        if k == 'if':
            c = self.const(s['c']) if s.get('c') else None
            if c is True: return self.normal(s.get('a'))
            if c is False: return self.normal(s.get('b'))
            return self.normal(s.get('a')) or self.normal(s.get('b'))
        if k in ('while', 'for'):
            c = self.const(s.get('c'))
            return c is not True or self.breaks(s.get('b'))
        if k == 'do':
            return (self.const(s['c']) is not True and (self.normal(s['b']) or self.conts(s['b']))) or self.breaks(s['b'])
        if k == 'rfor': return True
        if k == 'try':
            return self.normal(s['b']) or any(self.normal(h.get('b')) for h in s.get('h', []))
        if k == 'switch':
            if self.breaks(s.get('b')): return True
            labels = []; self.labels(s['b'], labels)
            t = re.sub(r'^const ', '', self.swtype(s['c']))
            if 'default' not in labels:
                en = self.P.P['enums'].get(t)
                if not en or not {x['v'] for x in en} <= set(labels): return True
            return self.tail(s['b'])
        if k in ('case', 'default', 'label'): return self.normal(s.get('b'))
        return True
    def conts(self, s):
        if s is None: return False
        if s.get('k') == 'continue': return True
        if s.get('k') in ('for', 'while', 'do', 'rfor', 'lambda'): return False
        return any(self.conts(x) for v in s.values() for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict) and 'k' in x)
    def swtype(self, e):
        while e.get('k') == 'cast': e = e['e']
        return e.get('t') or ''
    def labels(self, s, out):
        if s is None: return
        k = s.get('k')
        if k == 'case': out.append(s.get('v')); self.labels(s.get('b'), out)
        elif k == 'default': out.append('default'); self.labels(s.get('b'), out)
        elif k == 'block':
            for x in s['b']: self.labels(x, out)
    def tail(self, b):
        """control reaches the end of a switch body by falling through"""
        if b.get('k') != 'block': return self.normal(b)
        live = False
        for x in b['b']:
            if x.get('k') in ('case', 'default'): live = True
            if live and not self.normal(x): live = False
        return live
