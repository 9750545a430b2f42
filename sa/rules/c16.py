"""Executors refuse work once they are shut down, and take work only for themselves."""
from ..execs import *

RULE = ('Abstract execution of every enqueue() of every executor, the fields a lock guards being unknown each time it is taken: a task is put '
        'into a shared queue only in a critical section in which the abort flag was read as false, into the queue of the worker itself only '
        'after its atomic abort flag was read as false, and run in place only after the same; when the flag was read as true the call does not '
        'return normally and nothing was taken; a call that returns has taken the task. Shutdown sets the very flags that are tested, the guarded one '
        'under the lock. A pool hands a task only to its own workers: the worker found through the thread is used only where it was compared '
        'with this pool.')
LEVEL = 'proof'
ASSUMES = ['flags once set by shutdown are never cleared (checked: no other function writes them)']
MIN = {'accept': 8, 'refuse': 8, 'taken': 5, 'shutdown sets': 6, 'own worker': 2, 'flag stays': 6}


class Enq:
    def __init__(self, cx, exs, tested):
        self.cx, self.exs, self.tested = cx, exs, tested
        self.byq = {}
        for x in exs:
            self.byq.setdefault(x.queue, []).append((x, 'shared'))
            if x.private: self.byq.setdefault(x.private, []).append((x, 'private'))

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(acc=0, base=None, at=(), ld=())

    def inst(self, what): return '%s: %s' % (sig(self.fn), what)

    def chk(self, ok, st, fr, rule, what, line, msg):
        self.cx.check(bool(ok), rule, self.inst(what), fr.fn.where(line), '%s: %s' % (sig(self.fn), msg), st.trace_list())

    def kind(self, fr, loc):
        if not loc or loc[0] != 'f': return None
        for x, k in self.byq.get(loc[2], ()):
            if any(f.fn.scls == x.cls for f in frames(fr)): return x, k
        return None

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and loc[0] == 'f' and loc[2] in self.abortish: st.mon['ld'] = tuple(a for a in st.mon['ld'] if a[0] != loc) + ((loc, res),)

    def atomics_false(self, st, base):
        return [l[2] for l, r in st.mon['ld'] if l[1] == base and is_false(st, r)]

    def accept(self, st, fr, x, k, base, line):
        m = st.mon
        if k == 'shared':
            ok = locked(st, base, x.mut) and is_false(st, field(st, base, x.abort))
            self.chk(ok, st, fr, 'accept', x.queue, line, 'takes a task into %s::%s without having read %s as false in the critical section' % (x.sh, x.queue, x.abort))
            self.tested.setdefault(x.cls, set()).add(x.abort)
        else:
            fs = self.atomics_false(st, base)
            self.chk(fs, st, fr, 'accept', x.private, line, 'takes a task into %s::%s without having read an abort flag as false' % (x.sh, x.private))
            for f in fs: self.tested.setdefault(x.cls, set()).add(f)
            own = tl_roots(base) or any(f[0] in ('eq', 'eq0') and tl_roots(f) and mentions(f, lambda v: v == base or v == ('addr', base)) for f in st.facts.s)
            self.chk(own, st, fr, 'own worker', x.private + ' only from its thread', line, 'puts a task into %s::%s from a thread not known to be that worker' % (x.sh, x.private))
        m['acc'] = 1
        if base != self.fn_this: m['far'] = True
        self.owner(st, fr, x, base, line)

    def owner(self, st, fr, x, base, line):
        """The queue must be this executor's own."""
        this = self.fn_this
        if base == this or loc_root(base) == this and under_(base, this): return
        ok = False
        if base[0] == 'd':
            for f in st.facts.s:
                if f[0] in ('eq', 'eq0') and mentions(f, lambda v: v == base[1]) and mentions(f, lambda v: v == ('addr', this) or v == this): ok = True
            mine = {a for a in tl_roots(base[1])}
            for f in st.facts.s:
                if f[0] in ('eq', 'eq0') and mentions(f, lambda v: v in mine) and mentions(f, lambda v: v == this): ok = True
        self.chk(ok, st, fr, 'own worker', x.sh, line, 'the task is given to a worker that was not checked to belong to this executor')

    def on_entry(self, st, fr): self.fn_this = deref(fr.this) if fr.this else None

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op not in PUSH: return
        r = self.kind(fr, loc)
        if r: self.accept(st, fr, r[0], r[1], loc[1], call.line)
        if r and r[0].cls != self.fn.scls: self.cx.ok('own worker', self.inst(r[0].sh))

    def on_call(self, st, fr, call):
        if call.q == TASK + '::operator()':                      # run in place
            base = self.fn_this
            fs = self.atomics_false(st, base)
            self.chk(fs, st, fr, 'accept', 'run in place', call.line, 'runs a task without having read an abort flag as false')
            for f in fs: self.tested.setdefault(self.fn.scls, set()).add(f)
            st.mon['acc'] = 1

    def on_finish(self, st, fr, ret, how):
        m = st.mon
        seen = [f for f in self.flags(st)]
        if how == 'throw':
            self.chk(not m['acc'] or m.get('far') and spans(fr.fn), st, fr, 'refuse', 'nothing taken', fr.fn.line, 'refuses a task it has already taken')
            return
        if how != 'ret': return
        self.chk(not seen, st, fr, 'refuse', 'no silent refusal', fr.fn.line, 'returns normally although %s was read as set' % ', '.join(seen))
        if not spans(fr.fn):
            self.chk(m['acc'], st, fr, 'taken', 'task', fr.fn.line, 'returns without having taken the task')

    def flags(self, st):
        for x in self.exs:
            for k, v in st.mem.items():
                if k[0] == 'f' and k[2] == x.abort and is_true(st, v): yield x.abort
                if k[0] == '#gen' and k[1][0] == 'f' and k[1][2] == x.abort and is_true(st, st.read(k[1])): yield x.abort
        for l, r in st.mon['ld']:
            if 'abort' in self.role(l[2]) and is_true(st, r): yield l[2]

    def role(self, f):
        return 'abort' if f in self.abortish else ''


def tl_roots(v):
    """Thread local objects a value was read from."""
    out = set()
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g': out.add(x)
            for y in x: go(y)
    go(v)
    return out


def under_(k, loc):
    while True:
        if k == loc: return True
        if k[0] in ('f', 'i'): k = k[1]
        else: return False


def spans(fn): return any('span' in p['t'] for p in fn.params)


def sig(fn): return short(fn) + ('(span)' if spans(fn) else '')


def abortish(p, cls):
    """Atomic flags of a class that its shutdown sets."""
    out = {}
    for f in p.all():
        if f.scls != cls or f.name != 'shutdown' or not f.blocks: continue
        for n in f.nodes:
            if n and n.get('q') and re.match(r'std::(atomic|__atomic_base)<?.*::(store|exchange|operator=|test_and_set)$', strip_t(n['q'])) and 'obj' in n:
                o = f.nodes[n['obj']]
                while o and o['k'] in ('ImplicitCastExpr', 'ParenExpr'): o = f.nodes[o['c'][0]]
                if o and o['k'] == 'MemberExpr': out[strip_t(o['q']).rsplit('::', 1)[-1]] = n
    # a flag that is cleared again is something else
    return {f for f in out if all(bad is None for g, bad in writers(p, cls + '::' + f))}


class Down:
    """shutdown(): which flags are set, how."""

    def __init__(self, cx, exs): self.cx, self.exs, self.set = cx, exs, {}

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(w=frozenset(), again=False)

    def note(self, st, f): st.mon['w'] = st.mon['w'] | {f}

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc[0] != 'f': return
        if op == 'store' and is_true(st, v): self.note(st, loc[2])
        if op == 'rmw' and v is not None and is_true(st, v) and 'rmw' not in kw:
            self.note(st, loc[2]); st.mon['ex'] = res
        if op == 'cas' and is_true(st, v): self.note(st, loc[2])

    def on_casfail(self, st, fr, loc, exp, v, line, res): st.mon['again'] = True

    def on_write(self, st, fr, loc, v, line, init=False):
        for x in self.exs:
            if loc and loc[0] == 'f' and loc[2] == x.abort and v is not None and is_true(st, v) and (fr.fn.scls == x.cls or any(f.fn.scls == x.cls for f in frames(fr))):
                self.cx.check(locked(st, loc[1], x.mut), 'shutdown sets', '%s::%s under the lock' % (x.sh, x.abort), fr.fn.where(line),
                              '%s sets %s without holding the lock its readers hold' % (short(fr.fn), x.abort), st.trace_list())
                self.note(st, loc[2])

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        ex = st.mon.get('ex')
        if st.mon['again'] or ex is not None and is_true(st, ex): return      # somebody else's shutdown
        self.set.setdefault(fr.fn.scls, []).append(st.mon['w'])


def run(cx):
    p = cx.p
    exs = executors(p)
    cls = {x.cls: x for x in exs}
    enq = [f for f in p.all() if f.name == 'enqueue' and f.blocks and (f.scls or '').startswith(E) and any('Task' in q['t'] for q in f.params)]
    tested = {}
    # helpers
    sh = shared_of(exs)
    quals = {x.cls + '::' + f for x in exs for f in (x.queue, x.private, x.abort) if f}
    inl = inliner(p, lambda fn: fn.sq.startswith(E) and (mentions_field(fn, quals) or any(n and n['k'] == 'CXXThrowExpr' for n in fn.nodes)))
    allab = set()
    for f in {f.scls for f in p.all() if f.name == 'shutdown' and (f.scls or '').startswith(E)}: allab |= set(abortish(p, f))
    n = 0
    for f in enq:
        r = Enq(cx, exs, tested); r.abortish = allab
        e = cx.engine([Shared(sh), r], inline=inl, max_steps=200000, virt_all=False, merge_at=8)
        cx.run(e, f)
        n += 1
    if n < 8: raise AnalysisError('only %d enqueue functions found' % n)
    # the flags tested are the ones shutdown sets
    d = Down(cx, exs)
    for f in p.all():
        if f.name == 'shutdown' and f.blocks and (f.scls or '').startswith(E):
            e = cx.engine([Shared(sh), d], inline=inl, max_steps=200000, merge_at=8)
            cx.run(e, f)
    for c_, fl in sorted(tested.items()):
        ways = d.set.get(c_)
        if not ways: raise AnalysisError('no shutdown path of %s' % c_)
        for f in sorted(fl):
            cx.check(all(f in w for w in ways), 'shutdown sets', '%s::%s' % (c_.replace(E, ''), f), p.record(c_)['file'],
                     '%s::shutdown can return without having set %s, which its enqueue tests' % (c_.replace(E, ''), f))
            stays(cx, p, c_, f)


def stays(cx, p, c_, f):
    """Nothing clears the flag."""
    for g, bad in writers(p, c_ + '::' + f):
        cx.check(bad is None, 'flag stays', '%s::%s in %s' % (c_.replace(E, ''), f, short(g)), g.where(bad['l'] if bad else None),
                 '%s writes %s other than true: a shut down executor would accept work again' % (short(g), f))


def writers(p, q):
    for g in p.all():
        if g.ctor or not g.blocks or '/drivers/' in g.file: continue
        if not mentions_field(g, {q}): continue
        bad = None
        for n in g.nodes:
            if not n: continue
            if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
                if member(g, n['c'][0]) == q and not const_true(g, n['c'][1]): bad = n
            if n.get('q') and 'obj' in n and member(g, n['obj']) == q and n['q'].rsplit('::', 1)[-1] in ('store', 'exchange', 'operator=', 'clear', 'reset'):
                if not (n.get('a') and const_true(g, n['a'][0])): bad = n
        yield g, bad


def peel(g, i):
    n = g.nodes[i]
    while n and n['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr') and n.get('c'):
        n = g.nodes[n['c'][0]]
    return n


def member(g, i):
    n = peel(g, i)
    return strip_t(n['q']) if n and n['k'] == 'MemberExpr' and n.get('q') else None


def const_true(g, i):
    n = peel(g, i)
    return bool(n) and (n.get('ci') in (1, True, '1'))
