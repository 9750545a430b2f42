"""Abstract values: constants, opaque symbols and linear forms over symbols;
boolean atoms; and the entailment used to prune branches and to discharge
bounds obligations (a small relational numeric domain, no solver)."""

TRUE, FALSE = ('c', 1), ('c', 0)
SIZE_MAX = 1 << 62      # no container holds more elements than this
SYMW = {}          # symbol -> width (positive: unsigned), recorded at creation


def c(n): return ('c', n)


def is_c(v): return v[0] == 'c'


def lin_parts(v):
    if v[0] == 'c': return v[1], ()
    if v[0] == 'lin': return v[1], v[2]
    return 0, ((v, 1),)


def mk_lin(k, terms):
    if not terms: return ('c', k)
    if k == 0 and len(terms) == 1 and terms[0][1] == 1: return terms[0][0]
    return ('lin', k, terms)


_REPR = {}


def srepr(s):
    r = _REPR.get(s)
    if r is None: r = _REPR[s] = repr(s)
    return r


def lin_comb(a, ca, b, cb):
    ka, ta = lin_parts(a); kb, tb = lin_parts(b)
    d = {}
    for s, x in ta: d[s] = d.get(s, 0) + ca * x
    for s, x in tb: d[s] = d.get(s, 0) + cb * x
    terms = [(s, x) for s, x in d.items() if x]
    if len(terms) > 1: terms.sort(key=lambda p: srepr(p[0]))
    terms = tuple(terms)
    return mk_lin(ca * ka + cb * kb, terms)


def add(a, b): return lin_comb(a, 1, b, 1)
def sub(a, b): return lin_comb(a, 1, b, -1)
def neg(a): return lin_comb(a, -1, FALSE, 0)
def scale(a, n): return lin_comb(a, n, FALSE, 0)


NONNUM = ('addr', 'fn', 'clos', 'it', 's', 'lv', 'flt')


def is_bool_atom(v): return v[0] in ('ge0', 'eq0', 'eq', 'not', 'or', 'and')


def b_not(v):
    if v[0] == 'c': return FALSE if v[1] else TRUE
    if v[0] == 'not': return v[1]
    if v[0] == 'ge0': return ge0(sub(neg(v[1]), c(1)))
    return ('not', v)


def ge0(l):
    if l[0] == 'c': return TRUE if l[1] >= 0 else FALSE
    return ('ge0', l)


def eq0(l):
    if l[0] == 'c': return TRUE if l[1] == 0 else FALSE
    if l[0] in ('addr', 'fn', 'clos', 'new'): return FALSE
    k, t = lin_parts(l)
    if t and t[0][1] < 0: l = neg(l)
    return ('eq0', l)


def truthy(v):
    """The boolean atom for 'v converts to true'."""
    if v[0] == 'c': return TRUE if v[1] else FALSE
    if is_bool_atom(v): return v
    if v[0] in ('addr', 'fn', 'clos', 's', 'new'): return TRUE
    return b_not(eq0(v))


def cmp(op, a, b):
    if op in ('==', '!='):
        if a == b: r = TRUE
        elif is_bool_atom(a) and is_c(b): r = a if b[1] else b_not(a)
        elif is_bool_atom(b) and is_c(a): r = b if a[1] else b_not(b)
        elif is_bool_atom(a) or is_bool_atom(b):
            r = ('eq',) + tuple(sorted((a, b), key=repr))
        elif a[0] in ('addr', 'lin') and b[0] in ('addr', 'lin') and is_c(sub(a, b)): r = eq0(sub(a, b))
        elif a[0] in NONNUM or b[0] in NONNUM:
            if is_c(b): r = eq0(a) if b[1] == 0 else ('eq', a, b)
            elif is_c(a): r = eq0(b) if a[1] == 0 else ('eq', b, a)
            elif a[0] == 's' and b[0] == 's': r = FALSE
            elif a[0] == 'addr' and b[0] == 'addr' and a[1][0] == 'v' and b[1][0] == 'v': r = FALSE
            else: r = ('eq',) + tuple(sorted((a, b), key=repr))
        else: r = eq0(sub(a, b))
        return r if op == '==' else b_not(r)
    if a[0] in ('addr', 'lin') and b[0] in ('addr', 'lin') and is_c(sub(a, b)):
        a, b = sub(a, b), FALSE
    if (a[0] in NONNUM or b[0] in NONNUM or is_bool_atom(a) or is_bool_atom(b)) and not (a[0] == 'addr' and b[0] == 'lin' or a[0] == 'lin' and b[0] == 'addr'):
        if op == '<': return ('rel', '<', a, b)
        if op == '>': return ('rel', '<', b, a)
        if op == '<=': return b_not(('rel', '<', b, a))
        return b_not(('rel', '<', a, b))
    if op == '<': return ge0(sub(sub(b, a), c(1)))
    if op == '<=': return ge0(sub(b, a))
    if op == '>': return ge0(sub(sub(a, b), c(1)))
    if op == '>=': return ge0(sub(a, b))
    raise ValueError(op)


def sym_nonneg(s):
    w = SYMW.get(s)
    if w is not None and w > 0: return True
    return s[0] in ('size', 'unsigned', 'min') or (s[0] == 'cast' and s[1] > 0)


def type_lb(l):
    """A lower bound of linear form l from types alone, or None."""
    k, t = lin_parts(l)
    lo = k
    for s, x in t:
        if x > 0 and sym_nonneg(s): continue
        w = SYMW.get(s)
        if s[0] == 'cast': w = s[1]
        if x < 0 and s[0] == 'ld' and s[1][0] == 'f' and s[1][2] == '#size':
            lo += x * SIZE_MAX; continue
        if x < 0 and w is not None and 0 < w:
            lo += x * ((1 << w) - 1); continue
        if w is not None and -64 <= w < 0:
            if x > 0: lo += x * -(1 << (-w - 1))
            else: lo += x * ((1 << (-w - 1)) - 1)
            continue
        return None
    return lo


class Facts:
    """Immutable set of atoms known true."""
    __slots__ = ('s', 'lins', 'memo')

    def __init__(self, s=frozenset()):
        self.s = s

    def truth(self, a):
        if a[0] == 'c': return bool(a[1])
        if a in self.s: return True
        n = b_not(a)
        if n in self.s: return False
        if a[0] == 'ge0':
            l = a[1]
            lb = type_lb(l)
            if lb is not None and lb >= 0: return True
            lb = type_lb(n[1])
            if lb is not None and lb >= 0: return False
            for f in self.s:
                if f[0] == 'ge0':
                    d = sub(l, f[1])
                    if is_c(d) and d[1] >= 0: return True
                    d = sub(n[1], f[1])
                    if is_c(d) and d[1] >= 0: return False
                elif f[0] == 'eq0':
                    for g in (f[1], neg(f[1])):
                        d = sub(l, g)
                        if is_c(d): return d[1] >= 0
            return None
        if a[0] == 'eq0':
            l = a[1]
            lb = type_lb(l)
            if lb is not None and lb > 0: return False
            m = sub(neg(l), c(0))
            lb = type_lb(m)
            if lb is not None and lb > 0: return False
            up = lo = False
            for f in self.s:
                if f[0] == 'ge0':
                    d = sub(l, f[1])
                    if is_c(d):
                        if d[1] > 0: return False
                        if d[1] == 0: lo = True
                    d = sub(m, f[1])
                    if is_c(d):
                        if d[1] > 0: return False
                        if d[1] == 0: up = True
                elif f[0] == 'eq0' and f[1] != l:
                    for g in (f[1], neg(f[1])):
                        d = sub(l, g)
                        if is_c(d): return d[1] == 0
            if lo and up: return True
            return None
        if a[0] == 'not':
            t = self.truth(a[1])
            return None if t is None else not t
        if a[0] == 'and':
            ts = [self.truth(x) for x in a[1:]]
            if False in ts: return False
            if all(t is True for t in ts): return True
        if a[0] == 'or':
            ts = [self.truth(x) for x in a[1:]]
            if True in ts: return True
            if all(t is False for t in ts): return False
        return None

    def assume(self, a, val=True):
        """New Facts, or None when contradictory."""
        if not val: a = b_not(a)
        t = self.truth(a)
        if t is False: return None
        if t is True and (a[0] == 'c' or a in self.s): return self
        s = set(self.s)
        if a[0] == 'and':
            f = self
            for x in a[1:]:
                f = f.assume(x)
                if f is None: return None
            return f
        if a[0] == 'not' and a[1][0] == 'or':
            f = self
            for x in a[1][1:]:
                f = f.assume(x, False)
                if f is None: return None
            return f
        if a[0] == 'not' and a[1][0] == 'eq0':
            # x != 0 together with x >= 0 gives x >= 1
            l = a[1][1]
            for g in (l, neg(l)):
                if self.truth(ge0(g)) is True:
                    s.add(ge0(sub(g, c(1))))
        s.add(a)
        return Facts(frozenset(s))

    def ge_facts(self):
        r = []
        for f in self.s:
            if f[0] == 'ge0': r.append(f[1])
            elif f[0] == 'eq0':
                r.append(f[1]); r.append(neg(f[1]))
        return r

    def prove_ge0(self, l, depth=4):
        """Goal-directed: each step cancels one symbol that keeps the form from
        being bounded below, with a known fact of the same sign in it."""
        if l[0] == 'c': return l[1] >= 0
        key = (l, depth)
        try: memo = self.memo
        except AttributeError: memo = self.memo = {}
        r = memo.get(key)
        if r is None: r = memo[key] = self.prove_(l, depth)
        return r

    def prove_(self, l, depth):
        lb = type_lb(l)
        if lb is not None and lb >= 0: return True
        if depth == 0: return False
        k, t = lin_parts(l)
        block = None
        for s, x in t:
            if x < 0 or not sym_nonneg(s):
                if block is None or (x < 0) > (block[1] < 0): block = (s, x)
        if block is None: block = t[0] if k < 0 else None
        tried = [block] if block else []
        # a constant deficit can also be made up by a lower bound of a positive symbol
        if k < 0: tried += [(s, x) for s, x in t if x > 0 and (s, x) != block]
        for s, x in tried:
            for f, cs in self.index().get(s, ()):
                if (cs > 0) != (x > 0): continue
                m = x // cs
                if m < 1: m = 1
                if self.prove_ge0(lin_comb(l, 1, f, -m), depth - 1): return True
        return False

    def infeasible(self):
        """Do the facts contradict each other (linearly)?"""
        return any(self.prove_ge0(sub(neg(f), c(1))) for f in self.ge_facts())

    def index(self):
        try: return self.lins
        except AttributeError: pass
        r = {}
        for f in self.ge_facts():
            for s, x in lin_parts(f)[1]: r.setdefault(s, []).append((f, x))
        self.lins = r
        return r


def mentions(v, pred):
    """Does any sub-tuple of v satisfy pred?"""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if pred(x): return True
            st.extend(x)
    return False


def sym_range(facts, s):
    """Provable (lo, hi) of one symbol from its type and single-symbol facts."""
    w = SYMW.get(s)
    if s[0] == 'cast': w = s[1]
    if s[0] == 'byte': w = 8
    lo = hi = None
    if w is not None:
        if w > 0: lo, hi = 0, (1 << w) - 1
        else: lo, hi = -(1 << (-w - 1)), (1 << (-w - 1)) - 1
    if s[0] == 'ld' and s[1][0] == 'f' and s[1][2] == '#size': lo, hi = 0, SIZE_MAX
    for f in facts.s:
        if f[0] == 'ge0':
            k, t = lin_parts(f[1])
            if len(t) == 1 and t[0][0] == s:
                x = t[0][1]
                if x > 0:
                    b = -(k // x)           # s >= ceil(-k/x)
                    b = -(-(-k) // x) if False else (-k + x - 1) // x
                    if lo is None or b > lo: lo = b
                else:
                    b = k // -x
                    if hi is None or b < hi: hi = b
        elif f[0] == 'eq0':
            k, t = lin_parts(f[1])
            if len(t) == 1 and t[0][0] == s and k % t[0][1] == 0:
                lo = hi = -k // t[0][1]
    return lo, hi


def interval(facts, l):
    """Provable (lo, hi) of a linear form; None where unbounded."""
    k, t = lin_parts(l)
    lo = hi = k
    for s, x in t:
        a, b = sym_range(facts, s)
        if x < 0: a, b = b, a
        lo = None if lo is None or a is None else lo + x * a
        hi = None if hi is None or b is None else hi + x * b
    return lo, hi


def modw(facts, l, w):
    """l mod 2^w as a linear form, when l provably stays inside one period."""
    lo, hi = interval(facts, l)
    if lo is None or hi is None: return None
    m = 1 << w
    if lo // m == hi // m: return add(l, c(-(lo // m) * m))
    return None


def join_bytes(facts, l):
    """Put sum(byte_k(X) * 256^k) back together to X."""
    k, t = lin_parts(l)
    by = {}
    for s, x in t:
        if s[0] == 'byte' and x > 0: by.setdefault(s[1], {})[s[2]] = x
    for X, d in by.items():
        n = len(d)
        base = d.get(0)
        if base is None or base != 1: continue
        if all(d.get(i) == 256 ** i for i in range(n)):
            lo, hi = interval(facts, X)
            if lo is not None and hi is not None and lo >= 0 and hi < 256 ** n:
                for i in range(n): l = sub(l, scale(('byte', X, i), 256 ** i))
                return join_bytes(facts, add(l, X))
    return l
