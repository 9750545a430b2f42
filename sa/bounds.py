"""Bounds obligations: every raw copy, dereference or subscript whose pointer
leads into a tracked buffer must stay inside it, for all values of the
quantities involved (discharged in the relational numeric domain)."""
from .lib import *
from . import models

COPY = {'memcpy': (0, 1, 2), 'memmove': (0, 1, 2), '__builtin_memcpy': (0, 1, 2), 'std::memcpy': (0, 1, 2), 'std::memmove': (0, 1, 2),
        '__builtin_memmove': (0, 1, 2)}
SET = {'memset': (0, 2), 'std::memset': (0, 2), 'bzero': (0, 1)}


def split(p):
    """pointer value -> (region, offset) or None"""
    if p[0] == 'addr':
        l = p[1]
        if l[0] == 'i': return l[1], l[2]
        return l, c(0)
    if p[0] == 'lin':
        for s, x in p[2]:
            if x == 1 and s[0] in ('addr', 'prm', 'ld', 'new', 'call', 'phi', 'at', 'opq', 'sym'):
                rest = sub(p, s)
                r = split(s)
                if r is None: continue
                return r[0], add(r[1], rest)
        return None
    if p[0] in ('prm', 'ld', 'new', 'call', 'phi', 'sym', 'at'): return ('ptr', p), c(0)
    return None


class Bounds:
    """rule: extent(st, fr, region) -> size value or None (not tracked)."""
    name = 'bounds'

    def __init__(self, cx, extent, rule='bounds'):
        self.cx, self.extent, self.rule = cx, extent, rule

    def access(self, st, fr, ptr, n, what, line):
        sp = split(ptr)
        if sp is None: return
        reg, off = sp
        size = self.extent(st, fr, reg)
        if size is None: return
        self.obl(st, fr, reg, off, n, size, what, line)

    def obl(self, st, fr, reg, off, n, size, what, line):
        f = st.facts
        inst = '%s#%s#%s' % (short(fr.fn), what, loc_str(reg) if reg[0] != 'ptr' else val_str(reg[1]))
        if f.truth(eq0(n)) is True:
            self.cx.ok(self.rule, inst); return
        ok = f.prove_ge0(off) and f.prove_ge0(sub(sub(size, off), n)) and f.prove_ge0(n)
        self.cx.check(ok, self.rule, inst, fr.fn.where(line),
                      '%s touches %s bytes at offset %s of %s (size %s): not shown to be inside on this path' %
                      (what, val_str(n), val_str(off), loc_str(reg) if reg[0] != 'ptr' else val_str(reg[1]), val_str(size)),
                      st.trace_list() + ['facts: ' + '; '.join(sorted(val_str(x) for x in f.s))[:600]])

    def on_call(self, st, fr, call):
        q = call.q
        A = call.args
        rv = lambda i: models.rv(self.eng, st, fr, A[i])
        if q in COPY:
            n = rv(2)
            self.access(st, fr, rv(0), n, q.rsplit('::')[-1] + ' destination', call.line)
            self.access(st, fr, rv(1), n, q.rsplit('::')[-1] + ' source', call.line)
        elif q in SET:
            self.access(st, fr, rv(0), rv(SET[q][1]), 'fill', call.line)
        elif q.startswith('std::basic_string::') or q.startswith('std::vector::') or q.startswith('std::basic_string_view::'):
            nm = call.name
            nodes = fr.fn.nodes
            isint = lambda i: 'w' in nodes[call.anodes[i]]
            isptr = lambda i: nodes[call.anodes[i]].get('t', '').endswith('*')
            if nm in ('append', 'assign', 'basic_string', 'basic_string_view') and len(A) >= 2 and isptr(0) and isint(1):
                self.access(st, fr, rv(0), rv(1), 'copy source', call.line)
            elif nm == 'insert' and len(A) >= 3 and isptr(1) and isint(2):
                self.access(st, fr, rv(1), rv(2), 'copy source', call.line)
        elif q == 'std::span::span' and len(A) == 2:
            a, b = rv(0), rv(1)
            if 'w' in fr.fn.nodes[call.anodes[1]]: self.access(st, fr, a, b, 'span', call.line)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op == 'index':
            size = self.extent(st, fr, loc)
            if size is not None:
                self.obl(st, fr, loc, kw['idx'], c(1), size, 'subscript', call.line)
        elif op in ('front', 'back', 'top', 'pop'):
            size = self.extent(st, fr, loc)
            if size is not None:
                self.obl(st, fr, loc, c(0), c(1), size, op, call.line)

    def on_index(self, st, fr, base, idx, line, node):
        if base[0] == 'd': reg, off = ('ptr', base[1]), idx
        elif base[0] == 'i': reg, off = base[1], add(base[2], idx)
        else: reg, off = base, idx
        if reg[0] == 'ptr':
            sp = split(reg[1])
            if sp is None: return
            reg, o2 = sp; off = add(off, o2)
        size = self.extent(st, fr, reg)
        if size is not None: self.obl(st, fr, reg, off, c(1), size, 'subscript', line)

    def on_deref(self, st, fr, ptr, line, node):
        w = abs(node.get('w', 8))
        self.access(st, fr, ptr, c(max(1, w // 8)), 'dereference', line)


def evalt(t, env):
    """Evaluate a value term under an assignment of its symbols (None when a
    symbol is not assigned)."""
    if t in env: return env[t]
    k = t[0]
    if k == 'c': return t[1]
    if k == 'lin':
        r = t[1]
        for s, x in t[2]:
            v = evalt(s, env)
            if v is None: return None
            r += x * v
        return r
    if k in ('ge0', 'eq0'):
        v = evalt(t[1], env)
        return None if v is None else int(v >= 0 if k == 'ge0' else v == 0)
    if k == 'not':
        v = evalt(t[1], env)
        return None if v is None else int(not v)
    if k in ('and', 'or'):
        vs = [evalt(x, env) for x in t[1:]]
        if k == 'and':
            if any(v == 0 for v in vs): return 0
            return None if None in vs else 1
        if any(v for v in vs if v): return 1
        return None if None in vs else 0
    if k == 'eq':
        a, b = evalt(t[1], env), evalt(t[2], env)
        return None if a is None or b is None else int(a == b)
    if k == 'cast':
        v = evalt(t[2], env)
        if v is None: return None
        w = abs(t[1]); v &= (1 << w) - 1
        if t[1] < 0 and v >> (w - 1): v -= 1 << w
        return v
    if k == 'wrap':
        v = evalt(t[1], env)
        return None if v is None else v & ((1 << abs(t[2])) - 1)
    if k == 'op':
        vs = [evalt(x, env) for x in t[2:] if isinstance(x, tuple)]
        if None in vs: return None
        op = t[1]
        if op == '~': return ~vs[0]
        a, b = vs if len(vs) == 2 else (vs[0], 0)
        try:
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b,
                    '/': lambda: int(a / b), '%': lambda: a % b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
        except Exception: return None
    return None


def facts_allow(facts, env):
    """No fact is false under env."""
    return all(evalt(f, env) != 0 for f in facts.s)
