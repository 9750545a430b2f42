"""Interprocedural abstract interpreter over the extracted CFGs.

State = (memory of abstract values, relational facts, held locks, rule
monitors).  Joins keep one state per distinct abstraction (trace partitioning),
loops run to a fixpoint with widening at the heads, calls to functions of the
code base are analysed in their calling context (inlined), everything else
goes through library models (models.py) or is opaque.  Rules observe events.
"""
import heapq, re
from .values import *
from .program import AnalysisError, strip_t
from . import models

LOCK_TYPES = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock')


class Limit(AnalysisError):
    pass


class State:
    __slots__ = ('mem', 'facts', 'mon', 'locks', 'env', 'trace')

    def __init__(self):
        self.mem = {}; self.facts = Facts(); self.mon = {}; self.locks = (); self.env = {}; self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.facts = self.facts; s.mon = dict(self.mon)
        s.locks = self.locks; s.env = dict(self.env); s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.mem.items()), self.facts.s, frozenset(self.mon.items()), self.locks,
                frozenset(self.env.items()))

    def monkey(self):
        return (frozenset(self.mon.items()), self.locks)

    def note(self, s):
        self.trace = (self.trace, s)

    def trace_list(self, n=40):
        r, t = [], self.trace
        while t and len(r) < n:
            r.append(t[1]); t = t[0]
        return r[::-1]

    # ---- memory ----
    def read(self, loc):
        v = self.mem.get(loc)
        if v is not None: return v
        return self.init_sym(loc)

    def init_sym(self, loc):
        """Symbol for the content of a location nothing was stored to: the
        content it was copied from (#al), havocked at (#gen), or had on entry."""
        a, g = self.origin(loc)
        return ('ld', a) if g is None else ('ld', a, g)

    def origin(self, loc):
        base, path = loc, []
        while True:
            a = self.mem.get(('#al', base))
            if a is not None:
                a, g = a
                for p in reversed(path): a = (p[0], a) + p[1:]
                return a, g
            g = self.mem.get(('#gen', base))
            if g is not None: return loc, g
            if base[0] in ('f', 'i'):
                path.append((base[0],) + base[2:]); base = base[1]
            else:
                return loc, None

    def has(self, loc): return loc in self.mem

    def write(self, loc, v):
        self.mem[loc] = v

    def children(self, loc):
        return [k for k in self.mem if under(k, loc)]

    def clear_prefix(self, loc):
        for k in self.children(loc): del self.mem[k]
        self.mem.pop(('#al', loc), None); self.mem.pop(('#gen', loc), None)

    def havoc(self, loc, site):
        self.clear_prefix(loc)
        self.mem[('#gen', loc)] = site

    def copy_obj(self, src, dst):
        if src == dst: return
        items = [(k, self.mem[k]) for k in self.children(src)]
        org = self.origin(src)
        self.clear_prefix(dst)
        for k, v in items: self.mem[rebase(k, src, dst)] = v
        if ('#al', dst) not in self.mem and ('#gen', dst) not in self.mem:
            self.mem[('#al', dst)] = org


def under(k, loc):
    """Is memory key k the location loc or a sub-location of it?"""
    if k[0] in ('#al', '#gen'): k = k[1]
    while True:
        if k == loc: return True
        if k[0] in ('f', 'i'): k = k[1]
        else: return False


def rebase(k, src, dst):
    if k == src: return dst
    if k[0] in ('#al', '#gen'): return (k[0], rebase(k[1], src, dst))
    return (k[0], rebase(k[1], src, dst)) + k[2:]


def loc_root(k):
    if k[0] in ('#al', '#gen'): k = k[1]
    while k[0] in ('f', 'i'): k = k[1]
    return k


def fields_of(loc):
    """Field names along a location, outermost last."""
    r = []
    while True:
        if loc[0] == 'f': r.append(loc[2]); loc = loc[1]
        elif loc[0] == 'i': r.append('[]'); loc = loc[1]
        elif loc[0] == 'd' and loc[1][0] == 'ld': loc = loc[1][1]
        else: break
    return r[::-1]


class Frame:
    __slots__ = ('fn', 'ctx', 'this', 'caps', 'parent', 'depth', 'callnode', 'cross', 'argvals')

    def __init__(self, fn, ctx, this=None, caps=None, parent=None, callnode=None):
        self.fn, self.ctx, self.this, self.caps, self.parent = fn, ctx, this, caps or {}, parent
        self.depth = parent.depth + 1 if parent else 0
        self.callnode = callnode

    def active(self, fid):
        f = self
        while f:
            if f.fn.fid == fid: return True
            f = f.parent
        return False

    def stack(self):
        r, f = [], self
        while f:
            r.append(f.fn.sq); f = f.parent
        return r


class Call:
    """A resolved call as seen by models and rules."""
    __slots__ = ('node', 'nid', 'q', 'fid', 'obj', 'args', 'anodes', 'frame', 'line', 'target', 'opaque', 'pt')

    @property
    def name(self): return self.q.rsplit('::', 1)[-1]

    @property
    def cls(self): return self.q.rsplit('::', 1)[0] if '::' in self.q else ''


class Engine:
    iter_idx = False            # iterators with positions
    chrono = False              # time points and durations as numbers
    nodes = False               # contents of the elements of sets follow extract and insert
    prune = False            # drop branches whose facts contradict each other linearly
    def __init__(self, prog, rules=(), inline=None, max_depth=14, max_steps=60000, may_throw=None, merge_at=6, wrap=False, unroll=0, invs=(), virt_all=False):
        self.p = prog
        self.rules = list(rules)
        self.inline_pred = inline or (lambda fn: True)
        self.max_depth, self.max_steps, self.merge_at = max_depth, max_steps, merge_at
        self.ctxs = {}
        self.ctxparent = {}
        self.stats = {'functions': set(), 'calls': 0, 'steps': 0, 'inlined': 0, 'paths': 0, 'loops': 0, 'merged': 0}
        self.may_throw = may_throw
        self.wrap = wrap
        self.unroll = unroll
        self.invs = list(invs)
        self.virt_all = virt_all
        self.crosscache = {}
        self.model_endian = True
        self.handlers = {}
        for r in self.rules:
            r.eng = self
            for k in dir(r):
                if k.startswith('on_'): self.handlers.setdefault(k[3:], []).append(getattr(r, k))

    # ---- events ----
    def ev(self, kind, st, fr, **kw):
        for h in self.handlers.get(kind, ()): h(st, fr, **kw)

    def ctx(self, parent, site):
        k = (parent, site)
        v = self.ctxs.get(k)
        if v is None:
            v = len(self.ctxs) + 1
            self.ctxs[k] = v
            self.ctxparent[v] = k
        return v

    # ---- entry ----
    def run(self, fn, this='this', st=None, args=None):
        if fn.nocfg: raise AnalysisError('no control flow graph for ' + fn.q)
        fr = Frame(fn, self.ctx(0, fn.fid))
        st = st or State()
        for r in self.rules:
            if hasattr(r, 'init'): r.init(st, fr)
        if fn.cls and not fn.static and not fn.lambda_:
            fr.this = ('addr', ('d', ('sym', this))) if isinstance(this, str) else this
        if fn.lambda_:
            fr.this = ('addr', ('d', ('sym', 'this')))
            fr.caps = {}
        for i, p in enumerate(fn.params):
            if args and i < len(args) and args[i] is not None:
                st.mem[('v', fr.ctx, p['did'])] = args[i]
            else:
                self.bind_sym_param(st, fr, p, ('prm', p['name'] or str(i)))
        self.ev('entry', st, fr)
        outs = self.exec_fn(fr, st)
        for st, rv, kind in outs:
            self.ev('finish', st, fr, ret=rv, how=kind)
        self.stats['paths'] += len(outs)
        return outs

    def bind_sym_param(self, st, fr, p, s):
        t = p['t']
        loc = ('v', fr.ctx, p['did'])
        if t.endswith('&'):
            st.mem[loc] = ('ref', ('d', s))
        elif 'w' in p:
            SYMW[s] = p['w']
            st.mem[loc] = s
        elif t.endswith('*'):
            st.mem[loc] = s
        else:
            st.mem[loc] = ('ref', ('d', s))

    # ---- function execution ----
    def crossnodes(self, fn):
        r = self.crosscache.get(fn.fid)
        if r is None:
            where = {}
            for b in fn.blocks.values():
                for e in b['e']:
                    if isinstance(e, int): where.setdefault(e, set()).add(b['id'])
            r = set()

            def kids(n):
                for ch in n.get('c', ()): yield ch
                for ch in n.get('a', ()): yield ch
                for k in ('obj', 'fn', 'init', 'asz'):
                    if k in n: yield n[k]
                for v in n.get('vars', ()): yield v.get('init', -1)
                for v in n.get('caps', ()): yield v['n']
            for b in fn.blocks.values():
                for e in b['e']:
                    nid = e if isinstance(e, int) else e.get('n')
                    if nid is None or nid < 0: continue
                    stack = list(kids(fn.nodes[nid]))
                    while stack:
                        ch = stack.pop()
                        if ch is None or ch < 0: continue
                        w = where.get(ch)
                        if w is None: stack.extend(kids(fn.nodes[ch])); continue
                        if w != {b['id']}: r.add(ch)
                t = b.get('t')
                if t and t.get('c', -1) >= 0:
                    stack = [t['c']]
                    while stack:
                        n = stack.pop()
                        if n is None or n < 0: continue
                        w = where.get(n)
                        if w is None: stack.extend(kids(fn.nodes[n]))
                        elif w != {b['id']}: r.add(n)
            self.crosscache[fn.fid] = r
        return r

    def exec_fn(self, fr, st):
        """Returns [(state, retval, 'ret'|'throw'|'noret')]"""
        fn = fr.fn
        self.stats['functions'].add(fn.fid)
        fr.cross = self.crossnodes(fn)
        fn.prep_tries()
        st.env = {}
        loops = fn.loops()
        rpo = fn.rpo()
        outs = []
        accs = {}          # loop head -> {monkey: State}
        seen = {}          # block -> keys already propagated
        pending = {fn.entry: [(st, None)]}
        heap = [(rpo[fn.entry], fn.entry)]
        steps = 0

        def push(bid, st, frm):
            l = pending.get(bid)
            if l is None:
                pending[bid] = [(st, frm)]
                heapq.heappush(heap, (rpo[bid], bid))
            else: l.append((st, frm))
        while heap:
            _, bid = heapq.heappop(heap)
            arr = pending.pop(bid)
            batch = self.arrive(fr, bid, arr, loops, accs, seen)
            if bid == fn.exit:
                for st in batch:
                    outs.append((st, st.mem.pop(('ret', fr.ctx), None), 'ret'))
                continue
            b = fn.blocks[bid]
            els = b['e']
            for st in batch:
                steps += 1
                self.stats['steps'] += 1
                if self.stats['steps'] > self.max_steps:
                    raise Limit('state explosion in %s (from %s)' % (fn.q, fr.stack()[-1]))
                if 'lab' in b: self.label(st, fr, b)
                pend = [(st, 0)]
                while pend:
                    st, i = pend.pop()
                    alive = True
                    while i < len(els):
                        rs = self.elem(st, fr, els[i])
                        nxt = []
                        for r in rs:
                            if r[1] == 'go': nxt.append(r[0])
                            elif r[1] == 'throw': self.throw(r[0], fr, els[i], r[2], push, outs)
                            elif r[1] == 'noret': outs.append((r[0], None, 'noret'))
                        i += 1
                        if not nxt: alive = False; break
                        if len(nxt) > self.merge_at: nxt = self.merge(nxt, fr, ('e', bid, i))
                        st = nxt[0]
                        for o in nxt[1:]: pend.append((o, i))
                    if alive:
                        for nb, ns in self.succ(st, fr, b):
                            push(nb, ns, bid)
        return self.finish(fr, outs)

    def arrive(self, fr, bid, arr, loops, accs, seen):
        """States to propagate from the head of block bid."""
        out = []
        for st, frm in arr:
            st.env = {k: v for k, v in st.env.items() if k in fr.cross}
        if bid in loops:
            acc = accs.setdefault(bid, {})
            changed = {}
            free = []
            for st, frm in arr:
                if self.unroll:
                    ik = ('#it', fr.ctx, bid)
                    n = st.mem.get(ik, ('c', 0))[1] + 1 if frm in loops[bid] else 0
                    st.mem[ik] = ('c', n)
                    if n <= self.unroll: free.append(st); continue
                if frm in loops[bid]: self.kill_loop(st, fr, loops[bid], bid)
                mk = (st.monkey(), frozenset(st.env.items()))
                old = acc.get(mk)
                if old is None:
                    acc[mk] = st.copy(); changed[mk] = st
                else:
                    j = self.join(old, st, fr, bid)
                    if j.key() == old.key(): continue
                    j.trace = st.trace
                    acc[mk] = j.copy(); changed[mk] = j
                self.stats['loops'] += 1
            return list(changed.values()) + free
        if len(arr) > 1 or len(fr.fn.preds()[bid]) > 1:
            s = seen.setdefault(bid, set())
            for st, frm in arr:
                k = st.key()
                if k in s: continue
                s.add(k)
                out.append(st)
            if len(out) > self.merge_at: out = self.merge(out, fr, bid)
            return out
        return [st for st, frm in arr]

    def merge(self, sts, fr, tag):
        """Join the states whose monitors agree when there are too many."""
        groups = {}
        for st in sts:
            groups.setdefault((st.monkey(), frozenset(st.env.items())), []).append(st)
        out = []
        for g in groups.values():
            if len(g) <= self.merge_at: out.extend(g); continue
            j = g[0]
            for o in g[1:]:
                j2 = self.join(j, o, fr, tag)
                j2.trace = j.trace
                j = j2
            self.stats['merged'] += len(g) - 1
            out.append(j)
        return out

    def finish(self, fr, outs):
        res, seen = [], set()
        for st, rv, kind in outs:
            if kind == 'ret': self.release_frame(st, fr)
            if kind == 'ret' and fr.parent is not None:
                st.env = {}
            k = (st.key(), rv, kind)
            if k in seen: continue
            seen.add(k)
            res.append((st, rv, kind))
        return res

    def release_frame(self, st, fr):
        pass

    def drop_locals(self, st, fr, keep=None):
        cx = fr.ctx

        def mine(k):
            r = loc_root(k)
            return r[0] in ('v', 't') and r[1] == cx
        for k in [k for k in st.mem if mine(k)]:
            if keep is not None and under(k, keep): continue
            del st.mem[k]
        # facts that speak only about symbols made inside the callee and not
        # referenced any more
        sub_ctx = lambda x: len(x) >= 3 and x[0] in ('call', 'opq', 'hv', 'phi', 'at', 'v', 't', 'new', 'min') and self.ctx_within(x, cx)
        livevals = None
        drop = []
        for f in st.facts.s:
            if mentions(f, sub_ctx):
                if livevals is None:
                    livevals = set()
                    for v in st.mem.values(): collect(v, livevals)
                    for v in st.mon.values(): collect(v, livevals)
                    if keep is not None: collect(keep, livevals)
                syms = set(); collect_syms(f, sub_ctx, syms)
                if not any(s in livevals for s in syms): drop.append(f)
        if drop: st.facts = Facts(st.facts.s - set(drop))

    def ctx_within(self, sym, cx):
        for x in sym:
            if isinstance(x, CtxId):
                c2 = int(x)
            else: continue
            while c2:
                if c2 == cx: return True
                p = self.ctxparent.get(c2)
                c2 = p[0] if p else 0
        # 'v' / 't' locations carry the plain context number in slot 1
        if sym[0] in ('v', 't'):
            c2 = sym[1]
            while c2:
                if c2 == cx: return True
                p = self.ctxparent.get(c2)
                c2 = p[0] if p else 0
        return False

    def site(self, fr, nid): return (CtxId(fr.ctx), nid)

    # ---- loops ----
    def loop_nodes(self, fn, body):
        key = ('ln', fn.fid, min(body), len(body))
        r = self.crosscache.get(key)
        if r is None:
            r = set()
            for bid in body:
                b = fn.blocks[bid]
                for e in b['e']:
                    n = e if isinstance(e, int) else e.get('n')
                    if n is not None: r.add(n)
                if b.get('t', {}).get('c') is not None: r.add(b['t']['c'])
            self.crosscache[key] = r
        return r

    def holding(self, st):
        """Invariant templates (atoms over a state) that hold in st."""
        r = set()
        for i, f in enumerate(self.invs):
            a = f(st)
            if a is None: continue
            if a[0] == 'ge0' and st.facts.prove_ge0(a[1]) or a[0] != 'ge0' and st.facts.truth(a) is True: r.add(i)
        return r

    def impose(self, st, idx):
        for i in idx:
            a = self.invs[i](st)
            if a is not None and a[0] != 'c': st.facts = st.facts.assume(a) or st.facts

    def kill_loop(self, st, fr, body, head):
        if not self.invs: return self.kill_loop_(st, fr, body, head)
        h = self.holding(st)
        self.kill_loop_(st, fr, body, head)
        self.impose(st, h)

    def join(self, a, b, fr, head):
        if not self.invs: return self.join_(a, b, fr, head)
        h = self.holding(a) & self.holding(b)
        j = self.join_(a, b, fr, head)
        self.impose(j, h)
        return j

    def kill_loop_(self, st, fr, body, head):
        nodes = self.loop_nodes(fr.fn, body)
        cx = fr.ctx

        def inloop(x):
            if len(x) < 3 or not isinstance(x[0], str): return False
            i = None
            for j in range(1, len(x) - 1):
                if isinstance(x[j], CtxId): i = j; break
            if i is None: return False
            c2, n2 = int(x[i]), x[i + 1]
            while True:
                if c2 == cx: return n2 in nodes
                p = self.ctxparent.get(c2)
                if not p or not p[0]: return False
                c2, n2 = p[0], p[1][0] if isinstance(p[1], tuple) else p[1]
        drop = [f for f in st.facts.s if mentions(f, inloop)]
        if drop: st.facts = Facts(st.facts.s - set(drop))
        killed = []
        for k, v in sorted(st.mem.items(), key=lambda x: repr(x[0])):
            if k[0] in ('#al', '#gen'):
                continue
            if isinstance(v, tuple) and v and v[0] not in ('ref', 'clos') and mentions(v, inloop):
                ph = ('phi', CtxId(fr.ctx), head, k)
                if SYMW.get(ph) is None and width_of(v) is not None: SYMW[ph] = width_of(v)
                rel = self.lockstep(killed, v, inloop) if numeric(v) else None
                st.mem[k] = ph if rel is None else rel
                if rel is not None: continue
                if numeric(v): killed.append((v, ph))
                d = [f for f in st.facts.s if mentions(f, lambda x: x == ph)]
                if d: st.facts = Facts(st.facts.s - set(d))
        for k, v in list(st.env.items()):
            if mentions(v, inloop): del st.env[k]

    def lockstep(self, killed, v, inloop):
        """v relative to a value of the same loop that changed by the same
        amounts (or by the opposite ones)."""
        for o, ph in killed:
            d = sub(v, o)
            if not mentions(d, inloop): return add(ph, d)
            d = add(v, o)
            if not mentions(d, inloop): return sub(d, ph)
        return None

    def join_(self, a, b, fr, head):
        """Widening join of b into a at a loop head."""
        j = State()
        j.mon = dict(a.mon); j.locks = a.locks; j.trace = b.trace
        j.env = {k: v for k, v in a.env.items() if b.env.get(k) == v}
        facts = set(a.facts.s & b.facts.s)
        for f in a.facts.s - b.facts.s:
            if f[0] in ('ge0', 'eq0') and b.facts.truth(f): facts.add(f)
        for f in b.facts.s - a.facts.s:
            if f[0] in ('ge0', 'eq0') and a.facts.truth(f): facts.add(f)
        extra = []
        moved = []
        here = lambda x: len(x) > 3 and x[0] == 'phi' and x[1] == fr.ctx and x[2] == head
        for k in sorted(set(a.mem) | set(b.mem), key=repr):
            va, vb = a.mem.get(k), b.mem.get(k)
            if va == vb: j.mem[k] = va; continue
            if k[0] in ('#al', '#gen'):
                if k[0] == '#gen': j.mem[k] = ('jn', CtxId(fr.ctx), head)
                elif va is not None and vb is not None: j.mem[('#gen', k[1])] = ('jn', CtxId(fr.ctx), head)
                else: j.mem[k] = va if va is not None else vb
                continue
            if va is None: va = a.read(k)
            if vb is None: vb = b.read(k)
            if va == vb: j.mem[k] = va; continue
            if va[0] == 'ref' or vb[0] == 'ref':
                j.mem[k] = va if va[0] == 'ref' else vb
                continue
            ph = ('phi', CtxId(fr.ctx), head, k)
            if SYMW.get(ph) is None and width_of(va) is not None: SYMW[ph] = width_of(va)
            if numeric(va) and numeric(vb):
                rel = None
                for oa, ob, op in moved:
                    d = sub(va, oa)
                    if d == sub(vb, ob) and not mentions(d, here): rel = add(op, d); break
                    d = add(va, oa)
                    if d == add(vb, ob) and not mentions(d, here): rel = sub(d, op); break
                if rel is not None:
                    j.mem[k] = rel
                    continue
                moved.append((va, vb, ph))
            j.mem[k] = ph
            if numeric(va) and numeric(vb):
                # keep ph >= initial value when only ever increased
                if va == ph:
                    d = sub(vb, ph)
                    for f in a.facts.s:
                        if f[0] == 'ge0' and mentions(f, lambda x: x == ph):
                            cf = dict(lin_parts(f[1])[1]).get(ph, 0)
                            if cf > 0 and is_c(d) and d[1] >= 0: extra.append(f)
                            elif cf < 0 and is_c(d) and d[1] <= 0: extra.append(f)
                            elif cf > 0 and not is_c(d) and b.facts.prove_ge0(d): extra.append(f)
                            elif self._subst_holds(f, ph, vb, b): extra.append(f)
                else:
                    d = sub(vb, va)
                    if (is_c(d) and d[1] >= 0) or (not is_c(d) and b.facts.prove_ge0(d)):
                        extra.append(ge0(sub(ph, va)))
                    if is_c(d) and d[1] <= 0: extra.append(ge0(sub(va, ph)))
        # facts about phis that hold in both
        keep = set()
        phis = {v for v in j.mem.values() if v[0] == 'phi' and v[1] == fr.ctx and v[2] == head}
        for f in facts:
            if mentions(f, lambda x: x in phis and x[0] == 'phi'):
                if not (f in a.facts.s and any(a.mem.get(p[3]) == p for p in phis)): continue
                if not all(a.mem.get(p[3]) == p and b.mem.get(p[3]) == p for p in phis if mentions(f, lambda x: x == p)):
                    if f not in extra: continue
            keep.add(f)
        for f in extra:
            if f[0] != 'c': keep.add(f)
        j.facts = Facts(frozenset(keep))
        return j

    def _subst_holds(self, f, ph, v, st):
        k, t = lin_parts(f[1])
        r = c(k)
        for s, x in t: r = add(r, scale(v if s == ph else s, x))
        return st.facts.prove_ge0(r)

    # ---- control flow ----
    def label(self, st, fr, b):
        n = fr.fn.nodes[b['lab']]
        if n and n['k'] == 'CXXCatchStmt' and 'd' in n:
            st.mem[('v', fr.ctx, n['d']['did'])] = ('ref', ('d', ('sym', 'exc', n['ct'])))
        if n and n['k'] == 'CXXCatchStmt':
            self.ev('catch', st, fr, ctype=n['ct'], line=n['l'])

    def succ(self, st, fr, b):
        ss = b['s']
        t = b.get('t')
        if not ss: return []
        if b.get('noret'): return []
        if t is None or len(ss) == 1:
            return [(s, st) for s in ss if s >= 0][:1]
        k = t['k']
        if k == 'CXXTryStmt':
            # dispatch block: only reached by an explicit throw edge
            return [(s, st.copy()) for s in ss if s >= 0]
        if k == 'SwitchStmt':
            v = self.val(st, fr, t['c']) if t.get('c', -1) >= 0 else ('sym', 'sw')
            out = []
            cases = []
            for s in ss:
                if s < 0: continue
                lb = fr.fn.blocks[s].get('lab')
                ln = fr.fn.nodes[lb] if lb is not None else None
                if ln and ln['k'] == 'CaseStmt':
                    lo = self.val(st, fr, ln['lhs'])
                    cond = cmp('==', v, lo)
                    if 'rhs' in ln and is_c(lo):
                        hi = self.val(st, fr, ln['rhs'])
                        cond = ('and', cmp('>=', v, lo), cmp('<=', v, hi))
                    # several case labels may share a statement: collect nested
                    cases.append((s, cond))
                else:
                    cases.append((s, None))
            fdef = st.facts
            conds = [cd for _, cd in cases if cd is not None]
            for s, cd in cases:
                if cd is not None:
                    f = st.facts.assume(cd)
                    if f is None: continue
                    ns = st.copy(); ns.facts = f
                    self.ev('branch', ns, fr, cond=cd, taken=True, line=t['l'])
                    out.append((s, ns))
                else:
                    f = st.facts
                    for o in conds:
                        f = f.assume(o, False) if f is not None else None
                    if f is None: continue
                    ns = st.copy(); ns.facts = f
                    out.append((s, ns))
            return out
        if t.get('tk') == 1 or k in ('StaticLocal',):       # static init guard
            return [(s, st.copy()) for s in ss if s >= 0]
        cn = t.get('c', -1)
        if k == 'CXXBindTemporaryExpr' or t.get('tk') not in (0, None):
            # conditional temporary destruction
            return [(s, st.copy()) for s in ss if s >= 0][:2]
        if k in ('GotoStmt', 'BreakStmt', 'ContinueStmt', 'IndirectGotoStmt') or cn < 0:
            return [(s, st.copy()) for s in ss if s >= 0]
        v = self.val(st, fr, cn)
        a = truthy(v)
        out = []
        tr = st.facts.truth(a)
        for s, taken in zip(ss, (True, False)):
            if s < 0 and s != -1 and tr is None:
                s2 = -s - 2
            else: s2 = s
            if s2 < 0: continue
            if s < 0: continue
            if tr is not None and tr != taken: continue
            f = st.facts.assume(a, taken)
            if f is None: continue
            if self.prune and tr is None and f.infeasible(): continue
            ns = st.copy(); ns.facts = f
            ns.env[cn] = TRUE if taken else FALSE
            ns.note('%s:%s' % (fr.fn.where(t['l']), 'T' if taken else 'F'))
            self.ev('branch', ns, fr, cond=a, taken=taken, line=t['l'], nid=cn)
            out.append((s, ns))
        return out

    def throw(self, st, fr, el, exc, push, outs):
        nid = el if isinstance(el, int) else el.get('n', -1)
        tries = fr.fn.try_of.get(nid, [])
        if tries:
            t = fr.fn.tries[tries[-1]]
            # locks taken inside the try block are released by unwinding
            self.unwind(st, fr, set(t['nodes']))
            done = False
            for h in t['h']:
                hb = fr.fn.handler_block.get(h)
                ct = fr.fn.nodes[h]['ct']
                if hb is None: continue
                m = exc_match(ct, exc)
                if m is False: continue
                ns = st.copy()
                ns.note('%s: exception caught as %s' % (fr.fn.where(fr.fn.nodes[h]['l']), ct))
                push(hb, ns, None)
                if m is True: done = True; break
            if done: return
        self.unwind(st, fr, None)
        outs.append((st, exc, 'throw'))

    def unwind(self, st, fr, nodes):
        """Release locks held by RAII objects of this frame (all, or those
        constructed by the given nodes)."""
        for k, v in list(st.mem.items()):
            if k[0] == 't' and k[1] == fr.ctx and isinstance(v, tuple) and v and v[0] == 'lk':
                if nodes is not None and k[2] not in nodes: continue
                if v[2]:
                    for m in v[1]: self.unlock(st, fr, m, None)
                    st.mem[k] = ('lk', v[1], False)

    def refresh(self, st, fr, loc):
        """Content another thread may have changed: unknown from here on."""
        g = ('hv',) + self.site(fr, self.curnid)
        st.havoc(loc, g)
        d = [f for f in st.facts.s if mentions(f, lambda x: len(x) == 3 and x[0] == 'ld' and x[2] == g and under(x[1], loc))]
        if d: st.facts = Facts(st.facts.s - set(d))

    # ---- locks ----
    def lock(self, st, fr, m, line, shared=False):
        self.ev('lock', st, fr, mutex=m, line=line)
        st.locks = tuple(sorted(st.locks + (m,), key=repr))

    def unlock(self, st, fr, m, line):
        l = list(st.locks)
        if m in l: l.remove(m)
        st.locks = tuple(l)
        self.ev('unlock', st, fr, mutex=m, line=line)

    # ---- elements ----
    def elem(self, st, fr, e):
        """-> [(state, 'go'|'throw'|'noret', exc)]"""
        if isinstance(e, int):
            return self.eval_elem(st, fr, e)
        k = e['k']
        if k == 'init':
            out = []
            for s, kind, x in self.ensure(st, fr, e['n']):
                if kind != 'go': out.append((s, kind, x)); continue
                if 'm' in e:
                    nm = e['m']
                    if fr.fn.scls + '::' + nm in self.p.shadow: nm = nm + '@' + fr.fn.scls.rsplit('::', 1)[-1]
                    loc = ('f', deref(fr.this), nm)
                    self.store_init(s, fr, loc, e['n'], line=fr.fn.nodes[e['n']]['l'] if e['n'] >= 0 else fr.fn.line)
                elif 'base' in e or 'deleg' in e:
                    n = fr.fn.nodes[e['n']]
                    tv = s.env.get(e['n'])
                    # base/delegating constructor ran on a temporary: rebase
                    if tv is not None and tv[0] == 'lv':
                        dst = deref(fr.this)
                        for kk in s.children(tv[1]):
                            if kk != tv[1]: s.mem[rebase(kk, tv[1], dst)] = s.mem[kk]
                out.append((s, 'go', None))
            return out
        if k == 'dtor':
            loc = ('v', fr.ctx, e['did'])
            v = st.mem.get(loc)
            if e['t'].endswith('&') : return [(st, 'go', None)]
            if v is not None and v[0] == 'ref': loc = v[1]
            return self.destroy(st, fr, loc, e['t'], e.get('fid'), e.get('l', fr.fn.eline))
        if k == 'tdtor':
            v = st.env.get(e['n'])
            if v is None:
                loc = ('t', fr.ctx, e['n'])
            else: loc = v[1] if v[0] == 'lv' else ('t', fr.ctx, e['n'])
            return self.destroy(st, fr, loc, e['t'], e.get('fid'), fr.fn.nodes[e['n']]['l'], temp=True)
        if k == 'mdtor':
            loc = ('f', deref(fr.this), e['m']) if fr.this else ('f', ('d', ('sym', 'this')), e['m'])
            return self.destroy(st, fr, loc, e['t'], None, fr.fn.eline)
        return [(st, 'go', None)]

    def destroy(self, st, fr, loc, t, fid, line, temp=False):
        st0 = strip_t(t)
        if st0 in LOCK_TYPES:
            v = st.mem.get(loc)
            if v is not None and v[0] == 'lk':
                if v[2]:
                    for m in v[1]: self.unlock(st, fr, m, line)
                st.mem[loc] = ('lk', v[1], False)
            return [(st, 'go', None)]
        self.ev('dtor', st, fr, loc=loc, t=st0, line=line)
        fn = self.p.fn(fid) if fid else None
        if fn and not temp and self.can_inline(fr, fn):
            return self.inline(st, fr, fn, ('addr', loc), [], None, line, None)
        return [(st, 'go', None)]

    def ensure(self, st, fr, nid):
        """Evaluate node nid if it was not an element already."""
        if nid in st.env or nid < 0: return [(st, 'go', None)]
        return self.eval_elem(st, fr, nid)

    def val(self, st, fr, nid):
        """rvalue of node nid."""
        v = self.ev_node(st, fr, nid)
        if v[0] == 'lv': return self.load(st, fr, v[1], fr.fn.nodes[nid]['l'], quiet=True)
        return v

    def ev_node(self, st, fr, nid):
        if nid is None or nid < 0: return ('sym', 'void')
        v = st.env.get(nid)
        if v is not None: return v
        n = fr.fn.nodes[nid]
        if 'ci' in n: return cval(n)
        rs = self.eval_elem(st, fr, nid)
        for s, kind, x in rs:
            if s is st and kind == 'go': return st.env.get(nid, ('sym', 'void'))
        # a nested call forked; fall back to an opaque value
        return ('opq', 'fork') + self.site(fr, nid)

    def lval(self, st, fr, nid):
        v = self.ev_node(st, fr, nid)
        if v[0] == 'lv': return v[1]
        # prvalue used as object: materialise
        loc = ('t', fr.ctx, nid)
        st.mem[loc] = v
        return loc

    def load(self, st, fr, loc, line, quiet=False):
        v = st.read(loc)
        if v[0] == 'ref': return self.load(st, fr, v[1], line, quiet)
        return v

    def store_init(self, st, fr, loc, nid, line):
        if nid < 0: return
        n = fr.fn.nodes[nid]
        v = st.env.get(nid)
        if v is None: v = self.ev_node(st, fr, nid)
        if v[0] == 'lv':
            if n.get('lv'):           # reference member
                st.mem[loc] = ('ref', v[1])
                return
            st.clear_prefix(loc)
            self.move_loc(st, v[1], loc)
            self.ev('write', st, fr, loc=loc, v=st.mem.get(loc), line=line, init=True)
        else:
            st.clear_prefix(loc)
            st.mem[loc] = v
            self.ev('write', st, fr, loc=loc, v=v, line=line, init=True)

    def move_loc(self, st, src, dst):
        st.copy_obj(src, dst)

    def width_sym(self, s, n):
        if 'w' in n and s not in SYMW: SYMW[s] = n['w']
        return s

    def eval_elem(self, st, fr, nid):
        n = fr.fn.nodes[nid]
        if n is None: return [(st, 'go', None)]
        k = n['k']
        if 'ci' in n and k not in ('DeclRefExpr',) :
            st.env[nid] = cval(n)
            return [(st, 'go', None)]
        h = getattr(self, 'x_' + k, None)
        if h is not None:
            r = h(st, fr, nid, n)
            if r is None: return [(st, 'go', None)]
            if isinstance(r, list): return r
            st.env[nid] = r
            return [(st, 'go', None)]
        if k.endswith('CastExpr') or 'ck' in n:
            st.env[nid] = self.cast(st, fr, nid, n)
            return [(st, 'go', None)]
        ch = n.get('c')
        if ch and len(ch) == 1 and k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                                         'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
                                         'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'OpaqueValueExpr',
                                         'ArrayInitLoopExpr', 'CXXRewrittenBinaryOperator', 'CXXStdInitializerListExpr',
                                         'FullExpr', 'AttributedStmt'):
            v = st.env.get(ch[0])
            if v is None:
                rs = self.ensure(st, fr, ch[0])
                out = []
                for s, kind, x in rs:
                    if kind == 'go': s.env[nid] = s.env.get(ch[0], ('opq', 'u') + self.site(fr, nid))
                    out.append((s, kind, x))
                return out
            st.env[nid] = v
            return [(st, 'go', None)]
        if 't' in n:
            st.env[nid] = self.width_sym(('opq', k) + self.site(fr, nid), n)
        return [(st, 'go', None)]

    # -- leaves
    def x_DeclRefExpr(self, st, fr, nid, n):
        d = n['d']
        vk = d['vk']
        if vk == 'func': return ('fn', d['fid'], strip_t(d['q']))
        if 'ci' in n and (vk in ('enum',) or n.get('dt', '').startswith('const ')): return cval(n)
        if vk == 'enum': return ('sym', 'enum', d['q'])
        return ('lv', self.var_loc(st, fr, d))

    def var_loc(self, st, fr, d):
        did = d['did']
        if d['vk'] in ('global', 'static'):
            return ('g', strip_t(d.get('q', d['name'])))
        if did in fr.caps:
            loc = fr.caps[did]
        else:
            loc = ('v', fr.ctx, did)
        if d['vk'] == 'binding' and ('v', fr.ctx, did) not in st.mem and 'dd' in d:
            base = ('v', fr.ctx, d['dd'])
            v = st.mem.get(base)
            if v is not None and v[0] == 'ref': base = v[1]
            loc = ('f', base, ('first', 'second')[d['bi']] if d.get('bi', 0) < 2 else '#%d' % d['bi'])
        v = st.mem.get(loc)
        if v is not None and v[0] == 'ref': return v[1]
        return loc

    def x_CXXThisExpr(self, st, fr, nid, n):
        return fr.this or ('sym', 'this')

    def x_StringLiteral(self, st, fr, nid, n):
        return ('s', n.get('s', '?'))

    def x_CXXNullPtrLiteralExpr(self, st, fr, nid, n): return FALSE

    def x_GNUNullExpr(self, st, fr, nid, n): return FALSE

    def x_FloatingLiteral(self, st, fr, nid, n):
        return ('flt', n['f'])

    def x_MemberExpr(self, st, fr, nid, n):
        if n['mk'] == 'method': return ('sym', 'method', n['q'])
        if n['mk'] == 'static':
            return ('lv', ('g', strip_t(n['q'])))
        b = n['c'][0]
        if n['arrow']:
            base = deref(self.val(st, fr, b))
        else:
            base = self.lval(st, fr, b)
        nm = n['name']
        if self.p.shadow:
            q = strip_t(n['q'])
            if q in self.p.shadow: nm = nm + '@' + q.rsplit('::', 2)[-2]
        loc = ('f', base, nm)
        v = st.mem.get(loc)
        if v is not None and v[0] == 'ref': return ('lv', v[1])
        if n['dt'].endswith('&'): return ('lv', ('d', st.read(loc)))
        if 'w' in n: SYMW.setdefault(('ld', loc), n['w'])
        self.ev('member', st, fr, loc=loc, q=n['q'], line=n['l'], node=n, nid=nid)
        return ('lv', loc)

    def x_ArraySubscriptExpr(self, st, fr, nid, n):
        b, i = n['c']
        bv = self.ev_node(st, fr, b)
        iv = self.val(st, fr, i)
        if bv[0] == 'lv':
            bt = fr.fn.nodes[b].get('t', '')
            base = bv[1] if bt.endswith(']') else deref(self.load(st, fr, bv[1], n['l']))
        else:
            base = deref(bv)
        loc = ('i', base, iv)
        self.ev('index', st, fr, base=base, idx=iv, line=n['l'], node=n)
        return ('lv', loc)

    def cast(self, st, fr, nid, n):
        ck = n.get('ck', '')
        ch = n['c'][0]
        if ck == 'LValueToRValue':
            loc = self.lval(st, fr, ch)
            v = self.load(st, fr, loc, n['l'])
            if 'w' in n and v[0] in ('ld', 'sym', 'prm', 'call', 'phi', 'opq'): SYMW.setdefault(v, n['w'])
            self.ev('read', st, fr, loc=loc, v=v, line=n['l'])
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'BaseToDerived', 'LValueBitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast',
                  'NullToPointer', 'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'ReinterpretMemberPointer',
                  'CPointerToObjCPointerCast', 'PointerToIntegral', 'IntegralToPointer'):
            return self.ev_node(st, fr, ch)
        if ck == 'ArrayToPointerDecay':
            v = self.ev_node(st, fr, ch)
            return ('addr', v[1]) if v[0] == 'lv' else v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean', 'FloatingToBoolean'):
            return truthy(self.val(st, fr, ch))
        if ck == 'ToVoid':
            self.ev_node(st, fr, ch); return ('sym', 'void')
        if ck in ('IntegralCast',):
            v = self.val(st, fr, ch)
            sw = fr.fn.nodes[ch].get('w'); dw = n.get('w')
            r = icast(v, sw, dw, st)
            if self.wrap and dw == 8 and r[0] == 'cast' and r[1] == 8 and numeric(v) and v[0] in ('prm', 'ld', 'sym'): return mkbyte(st.facts, v)
            return r
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            v = self.val(st, fr, ch)
            return ('conv', ck, n.get('t', ''), v)
        return self.ev_node(st, fr, ch)

    # -- operators
    def x_UnaryOperator(self, st, fr, nid, n):
        op = n['op']; ch = n['c'][0]
        if op == '&':
            v = self.ev_node(st, fr, ch)
            if v[0] == 'lv':
                self.ev('addrof', st, fr, loc=v[1], line=n['l'])
                return ('addr', v[1])
            return v
        if op == '*':
            v = self.val(st, fr, ch)
            if v[0] == 'fn': return v
            loc = deref(v)
            self.ev('deref', st, fr, ptr=v, line=n['l'], node=n)
            return ('lv', loc)
        if op == '!':
            return b_not(truthy(self.val(st, fr, ch)))
        if op == '-':
            v = self.val(st, fr, ch)
            return neg(v) if numeric(v) else ('op', '-', FALSE, v)
        if op in ('++', '--', 'post++', 'post--'):
            loc = self.lval(st, fr, ch)
            v = self.load(st, fr, loc, n['l'])
            if v[0] == 'ld' and 'w' in n: SYMW.setdefault(v, n['w'])
            self.ev('read', st, fr, loc=loc, v=v, line=n['l'])
            nv = self.fit(st, fr, nid, n, add(v, c(1 if '++' in op else -1))) if numeric(v) else (add(v, c(1 if '++' in op else -1)) if ptrlike(v) else ('op', '++') + self.site(fr, nid))
            self.store(st, fr, loc, nv, n['l'])
            if op.startswith('post'): return v
            return ('lv', loc)
        if op == '~':
            v = self.val(st, fr, ch)
            w = n.get('w')
            if self.wrap and w and numeric(v):
                return sub(neg(v), c(1)) if w < 0 else sub(c((1 << w) - 1), v)
            return ('op', '~', v)
        if op == '+': return self.val(st, fr, ch)
        return self.ev_node(st, fr, ch)

    def store(self, st, fr, loc, v, line):
        old = st.mem.get(loc)
        if old is not None and old[0] == 'ref': loc = old[1]
        self.ev('write', st, fr, loc=loc, v=v, line=line, init=False)
        st.clear_prefix(loc)
        st.mem[loc] = v

    def arith(self, st, fr, nid, n, op, a, b):
        if too_big(a) or too_big(b): return self.width_sym(('opq', 'big') + self.site(fr, nid), n)
        r = None
        if op == '+':
            if arithable(a) and arithable(b): r = add(a, b)
        elif op == '-':
            if arithable(a) and arithable(b): r = sub(a, b)
        elif op == '*':
            if is_c(a) and arithable(b): r = scale(b, a[1])
            elif is_c(b) and arithable(a): r = scale(a, b[1])
        elif op == '<<' and not self.wrap and is_c(b) and not is_c(a) and arithable(a) and 0 <= b[1] < 32: r = scale(a, 1 << b[1])
        if r is not None and self.wrap and op == '+' and r[0] == 'lin': r = join_bytes(st.facts, r)
        if r is not None: return self.fit(st, fr, nid, n, r)
        if self.wrap and 'w' in n and not (is_c(a) and is_c(b)):
            r = self.bitop(st, n['w'], op, a, b)
            if r is not None: return r
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                r = {'&': x & y, '|': x | y, '^': x ^ y}.get(op)
                if r is None:
                    if op == '<<': r = x << y
                    elif op == '>>': r = x >> y
                    elif op == '/': r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                    elif op == '%': r = abs(x) % abs(y) * (1 if x >= 0 else -1)
                if r is not None: return c(r)
            except Exception: pass
        r = ('op', op, a, b)
        return self.width_sym(r, n)

    def bitop(self, st, w, op, a, b):
        """Shifts, masks and disjoint ors as exact linear forms over bytes."""
        f = st.facts
        if op == '<<' and is_c(b) and arithable(a) and 0 <= b[1] < abs(w):
            r = scale(a, 1 << b[1])
            lo, hi = interval(f, r)
            if lo is not None and hi is not None and lo >= 0:
                if hi < 1 << (w if w > 0 else -w - 1): return r
                if w < 0 and hi < 1 << -w:
                    k = ('cast', w, r, -w); SYMW.setdefault(k, w); return k
            return None
        if op == '<<' and is_c(b) and arithable(a): return None
        if op == '>>' and is_c(b) and b[1] % 8 == 0 and numeric(a):
            lo, hi = interval(f, a)
            if b[1] == 0: return a
            if lo is not None and lo >= 0 and hi < 1 << b[1]: return FALSE
            return ('shr', a, b[1])
        if op == '&' and is_c(b) and b[1] == 255 and numeric(a):
            return mkbyte(f, a)
        if op == '&' and is_c(b) and b[1] >= 0 and numeric(a):
            # mask of low bits
            m = b[1] + 1
            if m & (m - 1) == 0:
                r = modw(f, a, m.bit_length() - 1)
                if r is not None: return r
        if op == '|' and numeric(a) and numeric(b):
            if is_c(a): a, b = b, a
            if a == FALSE: return b
            if b == FALSE: return a
            la, ha = interval(f, a); lb, hb = interval(f, b)
            if None not in (la, ha, lb, hb) and la >= 0 and lb >= 0:
                # disjoint when every coefficient of one is a multiple of a
                # power of two above the other
                for x, y, hy in ((a, b, hb), (b, a, ha)):
                    m = 1 << hy.bit_length()
                    k, t = lin_parts(x)
                    if k % m == 0 and all(co % m == 0 for _, co in t): return join_bytes(f, add(x, y))
        return None

    def fit(self, st, fr, nid, n, r):
        """In wrap mode an unsigned result that is not provably in range
        becomes an unknown value of that width (modular arithmetic)."""
        w = n.get('w')
        if w and w > 0 and not is_c(r):
            h = 1 << (w - 1)
            k, t = lin_parts(r)
            if abs(k) >= h or any(abs(x) >= h for s, x in t):
                red = lambda x: (x + h) % (2 * h) - h
                z = c(red(k))
                for s, x in t: z = add(z, scale(s, red(x)))
                r = z
        if not self.wrap or not w or is_c(r): 
            if is_c(r) and w and self.wrap: return icast(r, 128, w)
            return r
        if any(s[0] in ('addr', 'new') for s, x in lin_parts(r)[1]): return r
        if w < 0:
            return r                        # signed overflow is a fault of its own
        if st.facts.prove_ge0(r) and st.facts.prove_ge0(sub(c((1 << w) - 1), r)): return r
        m = modw(st.facts, r, w)
        if m is not None: return m
        k = ('wrap', r, w)
        SYMW.setdefault(k, w)
        return k

    def x_BinaryOperator(self, st, fr, nid, n):
        op = n['op']; l, r = n['c']
        if op == '=':
            rv = self.val(st, fr, r)
            loc = self.lval(st, fr, l)
            self.store(st, fr, loc, rv, n['l'])
            return ('lv', loc)
        if op == ',':
            self.ev_node(st, fr, l)
            return self.ev_node(st, fr, r)
        if op in ('&&', '||'):
            lv = st.env.get(l)
            if lv is None: lv = truthy(self.val(st, fr, l))
            else: lv = truthy(self.rv(st, fr, l, lv))
            t = st.facts.truth(lv)
            if op == '&&':
                if t is False: return FALSE
                if t is True: return truthy(self.val(st, fr, r))
                return ('and', lv, truthy(self.val(st, fr, r))) if r in st.env else lv
            else:
                if t is True: return TRUE
                if t is False: return truthy(self.val(st, fr, r))
                return ('or', lv, truthy(self.val(st, fr, r))) if r in st.env else lv
        a = self.val(st, fr, l); b = self.val(st, fr, r)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return cmp(op, a, b)
        if op == '<=>': return ('op', '<=>', a, b)
        self.ev('arith', st, fr, op=op, a=a, b=b, line=n['l'], node=n)
        return self.arith(st, fr, nid, n, op, a, b)

    def rv(self, st, fr, nid, v):
        return self.load(st, fr, v[1], fr.fn.nodes[nid]['l']) if v[0] == 'lv' else v

    def x_CompoundAssignOperator(self, st, fr, nid, n):
        op = n['op'][:-1]; l, r = n['c']
        rv = self.val(st, fr, r)
        loc = self.lval(st, fr, l)
        ov = self.load(st, fr, loc, n['l'])
        if ov[0] == 'ld' and 'w' in n: SYMW.setdefault(ov, n['w'])
        self.ev('read', st, fr, loc=loc, v=ov, line=n['l'])
        nv = self.arith(st, fr, nid, n, op, ov, rv)
        if self.wrap and nv[0] == 'lin': nv = join_bytes(st.facts, nv)
        self.store(st, fr, loc, nv, n['l'])
        return ('lv', loc)

    def x_ConditionalOperator(self, st, fr, nid, n):
        cd, a, b = n['c']
        cv = st.env.get(cd)
        if cv is None: cv = truthy(self.val(st, fr, cd))
        t = st.facts.truth(truthy(self.rv(st, fr, cd, cv)))
        if t is True: return self.ev_node(st, fr, a)
        if t is False: return self.ev_node(st, fr, b)
        if a in st.env and b not in st.env: return st.env[a]
        if b in st.env and a not in st.env: return st.env[b]
        return self.width_sym(('opq', '?:') + self.site(fr, nid), n)

    def x_InitListExpr(self, st, fr, nid, n):
        ch = n['c']
        t = n.get('t', '')
        if 'fields' not in n and len(ch) == 1 and not t.endswith(']'):
            return self.ev_node(st, fr, ch[0])
        if 'fields' not in n and not ch and not t.endswith(']'):
            return FALSE
        if 'fields' in n and len(ch) == 1 and fr.fn.nodes[ch[0]] and fr.fn.nodes[ch[0]].get('t', '?').replace('const ', '') == t.replace('const ', ''):
            return self.ev_node(st, fr, ch[0])                     # {x} with x of the same class
        loc = ('t', fr.ctx, nid)
        st.clear_prefix(loc)
        st.mem[('#gen', loc)] = ('il',) + self.site(fr, nid)
        if 'fields' in n:
            for f, x in zip(n['fields'], ch):
                self.store_init(st, fr, ('f', loc, f), x, n['l'])
        else:
            for i, x in enumerate(ch):
                v = self.ev_node(st, fr, x)
                if v[0] == 'lv': st.copy_obj(v[1], ('i', loc, c(i)))
                else: st.mem[('i', loc, c(i))] = v
        return ('lv', loc)

    def x_ImplicitValueInitExpr(self, st, fr, nid, n): return FALSE
    def x_CXXScalarValueInitExpr(self, st, fr, nid, n): return FALSE

    def x_DeclStmt(self, st, fr, nid, n):
        for v in n['vars']:
            loc = ('v', fr.ctx, v['did'])
            if v.get('static'):
                continue
            if v['init'] < 0:
                st.clear_prefix(loc)
                st.mem[('#gen', loc)] = ('uninit',) + self.site(fr, nid)
                self.ev('decl', st, fr, loc=loc, v=None, var=v, line=n['l'])
                continue
            x = self.ev_node(st, fr, v['init'])
            st.clear_prefix(loc)
            if v['t'].endswith('&'):
                if x[0] == 'lv': st.mem[loc] = ('ref', x[1])
                else:
                    t = ('t', fr.ctx, v['init']); st.mem[t] = x; st.mem[loc] = ('ref', t)
            elif x[0] == 'lv':
                if x[1][0] == 't' and x[1][1] == fr.ctx:
                    st.mem[loc] = ('ref', x[1])
                else:
                    st.copy_obj(x[1], loc)
            else:
                st.mem[loc] = x
            self.ev('decl', st, fr, loc=loc, v=x, var=v, line=n['l'])
        return None

    def x_ReturnStmt(self, st, fr, nid, n):
        ch = n['c'][0]
        if ch >= 0:
            v = self.ev_node(st, fr, ch)
            st.mem[('ret', fr.ctx)] = v
        self.ev('return', st, fr, v=st.mem.get(('ret', fr.ctx)), line=n['l'])
        return None

    x_CoreturnStmt = x_ReturnStmt

    def x_CoawaitExpr(self, st, fr, nid, n):
        v = self.ev_node(st, fr, n['c'][0])
        self.ev('await', st, fr, v=v, line=n['l'])
        return ('await', v) + self.site(fr, nid)

    def x_CXXThrowExpr(self, st, fr, nid, n):
        ch = n['c'][0]
        t = strip_t(fr.fn.nodes[ch].get('t', '')) if ch >= 0 else 'rethrow'
        self.ev('throw', st, fr, t=t, line=n['l'])
        st.note('%s: throw %s' % (fr.fn.where(n['l']), t))
        return [(st, 'throw', ('exc', t))]

    def x_LambdaExpr(self, st, fr, nid, n):
        loc = ('t', fr.ctx, nid)
        st.clear_prefix(loc)
        caps, this = [], None
        for cp in n['caps']:
            if cp.get('this'):
                this = fr.this
                continue
            if 'd' not in cp: continue
            did = cp['d']['did']
            v = self.ev_node(st, fr, cp['n']) if cp['n'] >= 0 else ('sym', 'cap')
            if cp['ref']:
                caps.append((did, v[1] if v[0] == 'lv' else ('t', fr.ctx, cp['n'])))
            else:
                cl = ('f', loc, 'cap%d' % did)
                if v[0] == 'lv': st.copy_obj(v[1], cl)
                else: st.mem[cl] = v
                caps.append((did, cl))
        st.mem[loc] = ('clos', n['fid'], tuple(caps), this)
        return ('lv', loc)

    def x_CXXNewExpr(self, st, fr, nid, n):
        p = self.width_sym(('new',) + self.site(fr, nid) + (strip_t(n['at']),), n)
        if 'init' in n and n['init'] >= 0:
            v = self.ev_node(st, fr, n['init'])
            if v[0] == 'lv': st.copy_obj(v[1], ('d', p))
            else: st.mem[('d', p)] = v
        a = [self.ev_node(st, fr, x) for x in n['a']]
        self.ev('new', st, fr, ptr=p, placement=a, at=n['at'], line=n['l'])
        if a:
            pv = self.rv(st, fr, n['a'][0], a[0])
            return pv
        return p

    def x_CXXDeleteExpr(self, st, fr, nid, n):
        v = self.val(st, fr, n['c'][0])
        self.ev('delete', st, fr, ptr=v, line=n['l'])
        return ('sym', 'void')

    # -- calls
    def x_CallExpr(self, st, fr, nid, n): return self.do_call(st, fr, nid, n)
    x_CXXMemberCallExpr = x_CallExpr
    x_CXXOperatorCallExpr = x_CallExpr
    x_CXXConstructExpr = x_CallExpr
    x_CXXTemporaryObjectExpr = x_CallExpr

    def do_call(self, st, fr, nid, n):
        # make sure operands are evaluated (normally they are elements already)
        need = list(n.get('a', ()))
        for k in ('obj', 'fn'):
            if k in n: need.append(n[k])
        for x in need:
            if x is not None and x >= 0 and x not in st.env:
                rs = self.ensure(st, fr, x)
                if len(rs) != 1 or rs[0][1] != 'go':
                    out = []
                    for s, kind, e in rs:
                        if kind == 'go': out.extend(self.do_call(s, fr, nid, n))
                        else: out.append((s, kind, e))
                    return out
                st = rs[0][0]
        cl = Call()
        cl.node, cl.nid, cl.frame, cl.line = n, nid, fr, n['l']
        cl.q = strip_t(n.get('q', '')); cl.fid = n.get('fid'); cl.target = None; cl.opaque = True
        cl.pt = n.get('pt', [])
        cl.anodes = n.get('a', [])
        isctor = n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')
        cl.obj = None
        if isctor:
            cl.obj = ('t', fr.ctx, nid)
        elif 'obj' in n:
            if n.get('arrow'): cl.obj = deref(self.val(st, fr, n['obj']))
            else: cl.obj = self.lval(st, fr, n['obj'])
        cl.args = [st.env.get(a) or self.ev_node(st, fr, a) for a in cl.anodes]
        self.stats['calls'] += 1
        if 'fn' in n and not cl.q:
            fv = self.val(st, fr, n['fn'])
            if fv[0] == 'fn': cl.q = fv[2]; cl.fid = fv[1]
            else: cl.q = '#indirect'; cl.fid = None; cl.target = fv
        if isctor:
            # passing/returning class objects: copy or move
            if n.get('cc') and cl.args and cl.args[0][0] == 'lv' and not self.own_copy(n):
                src = cl.args[0][1]
                if n.get('elid') and src[0] == 't':
                    return [self.setenv(st, nid, ('lv', src))]
                m = models.copy_ctor(self, st, fr, cl, src)
                if m: return [self.setenv(st, nid, ('lv', cl.obj))]
            st.clear_prefix(cl.obj)
            st.mem[('#gen', cl.obj)] = ('ctor',) + self.site(fr, nid)
        self.ev('call', st, fr, call=cl)
        # library models
        self.curnid = nid
        r = models.apply(self, st, fr, cl)
        if r is not None:
            out = []
            for s, v, kind in r:
                if kind == 'ret':
                    s.env[nid] = v
                    self.ev('ret', s, fr, call=cl, v=v)
                    out.append((s, 'go', None))
                else: out.append((s, kind, v))
            return out
        fn = self.resolve(st, fr, cl)
        if isinstance(fn, list):
            # every body the virtual call may enter
            out, ok = [], [f for f in fn if self.can_inline(fr, f)]
            for f in ok:
                cl.opaque = False
                s = st.copy()
                out.extend(self.inline(s, fr, f, ('addr', cl.obj), cl.args, nid, n['l'], None, cl, isctor))
            if len(ok) < len(fn) or not fn: out.extend(self.opaque(st, fr, cl, isctor))
            return out
        if fn is not None and self.can_inline(fr, fn):
            cl.opaque = False
            this = ('addr', cl.obj) if cl.obj is not None and not fn.static else None
            caps = None
            if fn.lambda_:
                cv = st.read(cl.obj)
                if cv[0] == 'ref': cv = st.read(cv[1])
                if cv[0] == 'clos':
                    caps = dict(cv[2]); this = cv[3]
                else:
                    caps = {}; this = fr.this
            return self.inline(st, fr, fn, this, cl.args, nid, n['l'], caps, cl, isctor)
        if n.get('noret'):
            return [(st, 'noret', None)]
        return self.opaque(st, fr, cl, isctor)

    def own_copy(self, n):
        if '(lambda' in (n.get('q') or ''): return False              # closures are copied as a whole
        fn = self.p.fn(n.get('fid'))
        return fn is not None and not fn.nocfg and bool(fn.blocks)

    def setenv(self, st, nid, v):
        st.env[nid] = v
        return (st, 'go', None)

    def resolve(self, st, fr, cl):
        if cl.fid is None:
            t = cl.target
            if t is not None and t[0] == 'clos': return self.p.closure(t[1])
            return None
        fn = self.p.fn(cl.fid)
        if cl.node.get('virt') and not cl.node.get('qualcall'):
            ovs = self.all_overrides(cl.fid)
            if ovs:
                # devirtualise only when a single body exists
                cands = list(ovs) + ([fn] if fn else [])
                if len(cands) == 1: return cands[0]
                for r in self.rules:
                    h = getattr(r, 'devirt', None)
                    if h:
                        x = h(st, fr, cl, cands)
                        if x is not None: return x
                if self.virt_all: return cands
                return None
        return fn

    def all_overrides(self, fid):
        r, wl, seen = [], [fid], set()
        while wl:
            x = wl.pop()
            for o in self.p.overrides.get(x, ()):
                if o in seen: continue
                seen.add(o)
                f = self.p.fn(o)
                if f: r.append(f)
                wl.append(o)
        return r

    def can_inline(self, fr, fn):
        if fn.nocfg or not fn.blocks: return False
        if fr.depth + 1 > self.max_depth: return False
        if fr.active(fn.fid): return False
        return self.inline_pred(fn)

    def inline(self, st, fr, fn, this, args, nid, line, caps, cl=None, isctor=False):
        self.stats['inlined'] += 1
        env = st.env
        nf = Frame(fn, self.ctx(fr.ctx, (nid if nid is not None else ('d', line), fn.fid)), this, caps, fr, nid)
        for i, p in enumerate(fn.params):
            loc = ('v', nf.ctx, p['did'])
            if i < len(args):
                a = args[i]
                if p['t'].endswith('&'):
                    st.mem[loc] = ('ref', a[1]) if a[0] == 'lv' else a
                    if a[0] != 'lv':
                        t = ('t', nf.ctx, -10 - i); st.mem[t] = a; st.mem[loc] = ('ref', t)
                elif a[0] == 'lv':
                    an = cl.node['a'][i] if cl else None
                    if a[1][0] == 't' or 'w' not in p and not p['t'].endswith('*'):
                        st.mem[loc] = ('ref', a[1])
                    else:
                        st.mem[loc] = self.load(st, fr, a[1], line)
                else:
                    st.mem[loc] = a
            else:
                self.bind_sym_param(st, nf, p, ('opq', 'arg') + self.site(nf, i))
        self.ev('enter', st, nf, call=cl)
        outs = self.exec_fn(nf, st)
        if fn.coro: pass
        res, seen = [], set()
        for s, rv, kind in outs:
            self.ev('leave', s, nf, ret=rv, how=kind)
            s.mem.pop(('ret', nf.ctx), None)
            s.env = dict(env)
            if kind == 'throw' or kind == 'noret':
                self.drop_locals(s, nf)
                res.append((s, kind, rv)); continue
            if isctor: v = ('lv', cl.obj)
            elif rv is None: v = ('sym', 'void')
            else:
                v = rv
                if v[0] == 'lv' and nid is not None:
                    root = loc_root(v[1])
                    if root[0] in ('t', 'v') and root[1] == nf.ctx:
                        if fn.ret.endswith('&'):
                            pass
                        else:
                            src = v[1]
                            dst = ('t', fr.ctx, nid)
                            rvv = s.mem.get(src)
                            if rvv is not None and rvv[0] == 'ref': src = rvv[1]
                            s.copy_obj(src, dst)
                            v = ('lv', dst)
                    elif not fn.ret.endswith('&'):
                        dst = ('t', fr.ctx, nid)
                        s.copy_obj(v[1], dst)
                        v = ('lv', dst)
            if nid is not None: s.env[nid] = v
            self.drop_locals(s, nf, keep=v)
            if nid is not None and cl is not None: self.ev('ret', s, fr, call=cl, v=v)
            k = s.key()
            if k in seen: continue
            seen.add(k)
            res.append((s, 'go', None))
        return res

    def opaque(self, st, fr, cl, isctor):
        n = cl.node
        site = self.site(fr, cl.nid)
        # out arguments
        for i, a in enumerate(cl.args):
            pt = cl.pt[i] if i < len(cl.pt) else ''
            if pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const ') and a[0] == 'lv' and not cl.q.startswith('std::move'):
                st.havoc(a[1], ('oa',) + site)
                self.ev('havoc', st, fr, loc=a[1], line=cl.line, call=cl)
            elif pt.endswith('*') and 'const ' not in pt and a[0] == 'addr':
                st.havoc(a[1], ('oa',) + site)
                self.ev('havoc', st, fr, loc=a[1], line=cl.line, call=cl)
        s2 = None
        if isctor:
            st.env[cl.nid] = ('lv', cl.obj)
            if self.may_throw and self.may_throw(cl, fr): s2 = st.copy()
            self.ev('ret', st, fr, call=cl, v=('lv', cl.obj))
        else:
            v = ('call', cl.q) + site
            if n.get('lv'):
                v = ('lv', ('d', v))
            elif 'w' in n: SYMW.setdefault(v, n['w'])
            elif classlike(n.get('t', '')):
                loc = ('t', fr.ctx, cl.nid)
                st.clear_prefix(loc)
                st.mem[('#gen', loc)] = ('rv',) + v[1:]
                v = ('lv', loc)
            st.env[cl.nid] = v
            s2 = st.copy() if self.may_throw and self.may_throw(cl, fr) else None
            self.ev('ret', st, fr, call=cl, v=v)
        out = [(st, 'go', None)]
        if s2 is not None:
            s2.note('%s: %s throws' % (fr.fn.where(cl.line), cl.q))
            out.append((s2, 'throw', ('exc', '?')))
        return out

    def call_closure(self, st, fr, clos, args, cl, times='maybe'):
        """Analyse a closure handed to a library algorithm."""
        fn = self.p.closure(clos[1])
        if fn is None or not self.can_inline(fr, fn): return [(st, 'go', None)]
        a = []
        for i, p in enumerate(fn.params):
            a.append(args[i] if args and i < len(args) else ('lv', ('d', ('opq', 'alg') + self.site(fr, cl.nid) + (i,))))
        skip = st.copy() if times == 'maybe' else None
        rs = self.inline(st, fr, fn, clos[3], a, None, cl.line, dict(clos[2]), None, False)
        if skip is not None: rs.append((skip, 'go', None))
        return rs


class CtxId(int):
    """Context number inside a symbol (distinguished from plain ints)."""
    __slots__ = ()
    def __repr__(self): return 'C%d' % int(self)


def cval(n):
    v = n['ci']
    w = n.get('w', 0)
    return ('c', v + (1 << w) if w > 0 and v < 0 else v)


def collect(v, out):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x in out: continue
            out.add(x); st.extend(x)


def collect_syms(v, pred, out):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and pred(x): out.add(x)
            st.extend(x)


def too_big(v, cap=400):
    st, n = [v], 0
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            n += 1
            if n > cap: return True
            st.extend(x)
    return False


def deref(p):
    if p is None: return ('d', ('sym', 'this'))
    if p[0] == 'addr': return p[1]
    if p[0] == 'lin':
        # pointer + offset into an array object
        k, t = p[1], p[2]
        for s, x in t:
            if s[0] == 'addr' and x == 1 and s[1][0] == 'i':
                rest = sub(p, s)
                return ('i', s[1][1], add(s[1][2], rest))
    return ('d', p)


def width_of(v):
    if v[0] == 'c': return None
    if v[0] == 'lin':
        for s, x in v[2]:
            w = SYMW.get(s)
            if w is not None: return w
        return None
    return SYMW.get(v)


def numeric(v):
    return v[0] not in NONNUM and v[0] not in ('ref', 'lk', 'conv') and not is_bool_atom(v)


def ptrlike(v):
    return v[0] == 'addr'


def arithable(v):
    return v[0] not in ('fn', 'clos', 'it', 'lv', 'flt', 'ref', 'lk', 'conv')


def classlike(t):
    t = t.replace('const ', '')
    return not (t.endswith('*') or t.endswith('&') or t in ('void', 'bool', 'float', 'double', 'std::nullptr_t', 'auto', 'std::byte')) and not t.endswith(')')


def icast(v, sw, dw, st=None):
    if dw is None or sw is None: return v
    if v[0] == 'c':
        n = v[1]
        w = abs(dw)
        n &= (1 << w) - 1
        if dw < 0 and n >> (w - 1): n -= 1 << w
        return ('c', n)
    if is_bool_atom(v): return v
    if not arithable(v): return v
    if sw == dw: return v
    if v[0] == 'cast' and v[3] == dw and abs(v[1]) >= abs(dw): return v[2]
    if v[0] == 'shr' and dw == 8 and st is not None: return mkbyte(st.facts, v)
    if sw > 0 and (abs(dw) > sw or (dw > 0 and dw >= sw)): return v         # unsigned widening
    if sw < 0 and dw < 0 and abs(dw) >= abs(sw): return v                   # signed widening
    if st is not None and sw < 0 and dw >= -sw and st.facts.prove_ge0(v): return v     # a difference of pointers too
    if st is not None and not any(s[0] in ('addr', 'new') for s, x in lin_parts(v)[1]):
        lo, hi = interval(st.facts, v)
        if dw > 0:
            m = modw(st.facts, v, dw)
            if m is not None: return m
            if dw >= abs(sw) and st.facts.prove_ge0(v): return v
            if dw < abs(sw) and st.facts.prove_ge0(v) and st.facts.prove_ge0(sub(c((1 << dw) - 1), v)): return v
        else:
            h = 1 << (-dw - 1)
            if lo is not None and hi is not None:
                k = (lo + h) // (2 * h)
                if k == (hi + h) // (2 * h): return add(v, c(-k * 2 * h))
            if st.facts.prove_ge0(add(v, c(h))) and st.facts.prove_ge0(sub(c(h - 1), v)): return v
    r = ('cast', dw, v, sw)
    SYMW.setdefault(r, dw)
    return r


def mkbyte(f, a):
    """Low byte of a (a = X or X >> 8k)."""
    k = 0
    if a[0] == 'shr': a, k = a[1], a[2] // 8
    lo, hi = interval(f, a)
    if k == 0 and lo is not None and hi is not None and lo >= 0 and hi < 256: return a
    r = ('byte', a, k)
    SYMW[r] = 8
    return r


def exc_match(ct, exc):
    t = ct.replace('const ', '').rstrip('& ').strip()
    if t == '...': return True
    e = exc[1] if exc and exc[0] == 'exc' else '?'
    if e in ('?', 'rethrow'): return None
    if t == e: return True
    base = {'std::exception': ('std::runtime_error', 'std::logic_error', 'std::invalid_argument', 'std::bad_function_call',
                               'std::out_of_range', 'std::range_error', 'std::bad_alloc', 'std::length_error', 'std::system_error',
                               'std::future_error'),
            'std::runtime_error': ('std::range_error', 'std::system_error', 'std::overflow_error'),
            'std::logic_error': ('std::invalid_argument', 'std::out_of_range', 'std::length_error', 'std::future_error')}
    if e in base.get(t, ()): return True
    return False
