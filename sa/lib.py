"""What the rules share: obligations, verdicts, relevance-driven inlining."""
import os, re
from .program import AnalysisError, Program, strip_t, REPO
from .engine import Engine, Limit, State, Frame, fields_of, loc_root, under, deref
from .values import *


class Violation:
    def __init__(self, rule, key, where, msg, trace=()):
        self.rule, self.key, self.where, self.msg, self.trace = rule, key, where, msg, list(trace)


class Ctx:
    """Collects the obligations of one property check."""

    def __init__(self, prop, prog, thorough=False):
        self.prop, self.p, self.thorough = prop, prog, thorough
        self.viol = {}
        self.obl = {}              # rule -> {instance: ok}
        self.stats = {'functions': set(), 'calls': 0, 'steps': 0, 'inlined': 0, 'paths': 0, 'loops': 0}
        self.notes = []

    def ok(self, rule, inst):
        self.obl.setdefault(rule, {}).setdefault(inst, True)

    def bad(self, rule, inst, where, msg, trace=(), key=None):
        self.obl.setdefault(rule, {})[inst] = False
        k = key or '%s@%s' % (rule, inst)
        if k not in self.viol:
            self.viol[k] = Violation(rule, k, where, msg, trace)

    def check(self, cond, rule, inst, where, msg, trace=(), key=None):
        if cond: self.ok(rule, inst)
        else: self.bad(rule, inst, where, msg, trace, key)
        return cond

    def need(self, rule, n):
        """The rule must have matched at least n instances."""
        m = len(self.obl.get(rule, {}))
        if m < n:
            raise AnalysisError('%s: rule %r matched %d instances, expected at least %d' % (self.prop, rule, m, n))

    def engine(self, rules, **kw):
        if self.thorough and kw.get('merge_at', 6) > 3:  # later merging: more disjuncts are kept apart
            kw['merge_at'] = 2 * kw.get('merge_at', 6); kw['max_steps'] = 4 * kw.get('max_steps', 60000)
        return Engine(self.p, rules, **kw)

    def absorb(self, e):
        for k, v in e.stats.items():
            if isinstance(v, set): self.stats.setdefault(k, set()).update(v)
            else: self.stats[k] = self.stats.get(k, 0) + v

    def run(self, e, fn, **kw):
        e.stats['steps'] = 0
        outs = e.run(fn, **kw)
        self.absorb(e)
        e.stats.update({k: (set() if isinstance(v, set) else 0) for k, v in e.stats.items()})
        return outs


def callees(fn):
    """Function ids a body may enter: direct calls, address-taken functions,
    lambdas it creates, destructors it runs implicitly."""
    r = getattr(fn, '_callees', None) if hasattr(fn, '_callees') else None
    s = set()
    for n in fn.nodes:
        if not n: continue
        if n.get('fid'): s.add(n['fid'])
        d = n.get('d')
        if d and d.get('fid'): s.add(d['fid'])
    for b in fn.blocks.values():
        for e in b['e']:
            if isinstance(e, dict) and e.get('fid'): s.add(e['fid'])
    return s


_CG = {}


def call_graph(prog):
    g = _CG.get(id(prog))
    if g is None:
        g = {}
        for f in prog.all():
            s = set()
            for c in callees(f):
                s.add(c)
            g[f.fid] = s
        # virtual dispatch: a call to a base method may enter any override
        for base, ovs in prog.overrides.items():
            g.setdefault(base, set()).update(ovs)
        _CG[id(prog)] = g
    return g


def reaching(prog, pred):
    """Ids of functions from which a function satisfying pred is reachable
    (including the satisfying functions themselves)."""
    g = call_graph(prog)
    rev = {}
    for a, bs in g.items():
        for b in bs: rev.setdefault(b, set()).add(a)
    hit = {f.fid for f in prog.all() if pred(f)}
    wl = list(hit)
    while wl:
        x = wl.pop()
        for y in rev.get(x, ()):
            if y not in hit: hit.add(y); wl.append(y)
    return hit


def reachable(prog, roots):
    g = call_graph(prog)
    seen = set(roots); wl = list(roots)
    while wl:
        x = wl.pop()
        for y in g.get(x, ()):
            if y not in seen: seen.add(y); wl.append(y)
    return seen


NOISE = ('/logger', '/basic/utility', '/basic/time', '/basic/error', '/sys/assert', '/engine/detail/log')


def small(fn):
    return len(fn.blocks) <= 4 and sum(1 for n in fn.nodes if n and n['k'].endswith('CallExpr')) <= 2


def inliner(prog, pred, extra=(), deny=(), smalls=True):
    """Inline predicate: functions that can reach something relevant, plus
    small helpers (accessors) for value precision."""
    hit = reaching(prog, pred)
    extra = set(extra)

    def f(fn):
        if fn.sq in deny: return False
        if fn.sq in extra: return True
        if fn.fid in hit: return True
        if smalls and small(fn) and not any(x in fn.file for x in NOISE): return True
        return False
    f.hit = hit
    return f


def mentions_field(fn, quals):
    """Does the body name one of these members ('ns::Class::field')?"""
    for n in fn.nodes:
        if n and n['k'] == 'MemberExpr' and strip_t(n.get('q', '')) in quals: return True
    return False


def calls_any(fn, names):
    for n in fn.nodes:
        if n and n.get('q') and strip_t(n['q']) in names: return True
    return False


def calls_match(fn, rx):
    for n in fn.nodes:
        if n and n.get('q') and rx.search(strip_t(n['q'])): return True
    return False


def in_file(fn, *parts):
    return any(p in fn.file for p in parts)


def short(fn):
    return re.sub(r'^plain::', '', fn.sq)


def loc_str(loc):
    k = loc[0]
    if k == 'f':
        return loc_str(loc[1]) + '.' + str(loc[2])
    if k == 'i': return loc_str(loc[1]) + '[]'
    if k == 'd': return '*' + val_str(loc[1])
    if k == 'v': return 'local'
    if k == 't': return 'temp'
    if k == 'g': return loc[1]
    return str(k)


def val_str(v):
    if v[0] == 'c': return str(v[1])
    if v[0] == 'ld': return loc_str(v[1])
    if v[0] == 'prm': return v[1]
    if v[0] == 'sym': return '/'.join(str(x) for x in v[1:2])
    if v[0] == 'lin':
        parts = []
        for s, x in v[2]:
            parts.append(('%+d*' % x if abs(x) != 1 else ('+' if x > 0 else '-')) + val_str(s))
        if v[1]: parts.append('%+d' % v[1])
        return ''.join(parts).lstrip('+')
    if v[0] == 'call': return v[1].rsplit('::', 1)[-1] + '()'
    if v[0] == 'op': return '(%s %s)' % (v[1], ' '.join(val_str(x) for x in v[2:] if isinstance(x, tuple)))
    if v[0] == 'cast': return '(%s%d)%s' % ('u' if v[1] > 0 else 'i', abs(v[1]), val_str(v[2]))
    if v[0] in ('ge0', 'eq0'): return val_str(v[1]) + ('>=0' if v[0] == 'ge0' else '==0')
    if v[0] == 'not': return '!(' + val_str(v[1]) + ')'
    if v[0] == 'addr': return '&' + loc_str(v[1])
    return v[0]
