"""Accepted tasks run exactly once, and in order where order is promised."""
from ..execs import *
from .. import models
from .c16 import abortish, spans, sig

RULE = ('Ownership analysis of tasks. Consumers: on every path of every function of an executor that takes tasks, a task moved out of a queue is removed from the same '
        'end of that queue exactly once before the lock is released and before it runs, is then run exactly once, and is dropped unrun only after abort was seen; '
        'nothing else removes queued tasks except shutdown, Manual::clear and the hand-over of one queue to another that is known empty; tasks a pool worker gives to '
        'others are consecutive from the front and exactly those are erased. Producers: a single task is put into exactly one queue (or run, or moved into a new '
        'thread) exactly once; a batch is taken element by element, consecutively from the first to the last. Manual and WorkerThread insert behind and take '
        'in front.')
LEVEL = 'proof'
ASSUMES = ['what is donated to the workers of a pool adds up: products of counters are compared through the identity (n/k)*k + n%k = n',
           'a task that throws has run']
MIN = {'takes': 3, 'runs': 3, 'drops': 4, 'order': 6, 'producer': 6, 'batch': 4}
THIS = ('d', ('sym', 'this'))
G = ('g', '#don')
A_, K_, X_ = ('g', '#acc'), ('g', '#k'), ('g', '#x')
FIFO = (E + 'Manual', E + 'WorkerThread')


def zero(f, v): return f.truth(eq0(v)) is True or f.prove_ge0(v) and f.prove_ge0(neg(v))
def istask(q): return q == TASK + '::Task' or q == TASK + '::operator='


class Base:
    def chk(self, ok, st, fr, rule, what, line, msg):
        self.cx.check(bool(ok), rule, '%s: %s' % (sig(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (sig(fr.fn), msg), st.trace_list())

    def pos(self, st, a):
        i = models.itc(st, a[1]) if a[0] == 'lv' else None
        return (self.res(st, i[1]), st.read(('f', i[0], models.POS))) if i else None

    def on_leave(self, st, fr, ret, how):
        st.mon['left'] = ret[1] if how == 'ret' and ret is not None and ret[0] == 'lv' and ret[1][0] in ('t', 'v') else None

    def on_ret(self, st, fr, call, v):
        l, st.mon['left'] = st.mon.get('left'), None
        if l is not None and v is not None and v[0] == 'lv' and v[1] != l: self.relocate(st, l, v[1])

    def res(self, st, loc):
        for _ in range(6):
            v, a = st.mem.get(loc), st.mem.get(('#al', loc))
            if v is not None and v[0] == 'ref': loc = v[1]
            elif a is not None and a[1] is None: loc = a[0]          # a copy of a span denotes the same tasks
            else: break
        if loc[0] == 'i':
            b = self.res(st, loc[1])
            if b != loc[1]: loc = ('i', b, loc[2])
        return loc


class Take(Base):
    """Tasks leaving the queues of one executor."""

    def __init__(self, cx, x, pure, push):
        self.cx, self.x, self.pure, self.push = cx, x, pure, push
        self.qs = {('f', THIS, q) for q in (x.queue, x.private) if q}

    def init(self, st, fr):
        self.fn = fr.fn
        self.user = fr.fn.name == 'clear'
        st.mon.update(tk=(), ld=(), seen=False, loc=(), left=None)
        st.mem[G] = FALSE

    def relocate(self, st, a, b):
        st.mon['tk'] = tuple((b,) + t[1:] if t[0] == a else t for t in st.mon['tk'])

    # -- abort
    def see(self, st):
        if st.mon['seen']: return
        if is_true(st, field(st, THIS, self.x.abort)) or any(is_true(st, r) for l, r in st.mon['ld']): st.mon['seen'] = True

    def gone(self, st): self.see(st); return st.mon['seen'] or self.user
    def on_return(self, st, fr, *a, **kw): self.see(st)
    def on_branch(self, st, fr, *a, **kw): self.see(st)

    def on_write(self, st, fr, loc, v, line, init=False):
        if loc == ('f', THIS, self.x.abort) and not init and (v is None or not is_false(st, v)): st.mon['seen'] = True

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and loc[0] == 'f' and loc[1] == THIS and loc[2] in self.pure: st.mon['ld'] = tuple(a for a in st.mon['ld'] if a[0] != loc) + ((loc, res),)

    # -- tokens: (location, queue, end, popped, run)
    def queue_of(self, loc):
        if loc and loc[0] == 'i' and (loc[1] in self.qs): return loc[1]
        return None

    def empty(self, st, q):
        v = st.read(('f', q, '#size')); SYMW.setdefault(v, 64)
        return st.facts.truth(eq0(v)) is True

    def on_call(self, st, fr, call):
        m = st.mon
        if istask(call.q) and len(call.args) == 1 and call.args[0][0] == 'lv' and call.obj is not None:
            src = self.res(st, call.args[0][1])
            q = self.queue_of(src) or (src[1] if src[0] == 'i' and src[1] in m['loc'] else None)
            if q:
                end = 'front' if src[2] == FALSE else 'back' if src[2] == ('sym', 'back') else 'middle'
                self.chk(end != 'middle', st, fr, 'takes', 'at an end of ' + nm(q), call.line, 'takes a task out of the middle of %s' % nm(q))
                self.chk(not any(t[1] == q and not t[3] for t in m['tk']), st, fr, 'takes', 'once from ' + nm(q), call.line, 'takes a task from %s while the one taken before is still in it' % nm(q))
                self.chk(st.facts.truth(eq0(st.mem[G])) is True, st, fr, 'takes', 'after donations from ' + nm(q), call.line, 'takes a task while donated ones are still in the queue')
                if self.x.cls in FIFO: self.chk(end == 'front', st, fr, 'order', 'taken in front of ' + nm(q), call.line, 'takes the youngest task of %s first' % nm(q))
                if call.q.endswith('operator='): self.drop(st, fr, call.obj, call.line)
                m['tk'] = tuple(t for t in m['tk'] if t[0] != call.obj) + ((call.obj, q, end, False, False),)
                return
            for t in m['tk']:
                if t[0] == src:
                    if call.q.endswith('operator='): self.drop(st, fr, call.obj, call.line)
                    m['tk'] = tuple(u for u in m['tk'] if u != t) + ((call.obj,) + t[1:],)
        elif call.q == TASK + '::operator()':
            o = self.res(st, call.obj)
            if self.queue_of(o):
                self.chk(False, st, fr, 'runs', 'not in the queue', call.line, 'runs a task that is still in the queue: it can be run again')
                return
            for t in m['tk']:
                if t[0] == o:
                    self.chk(t[3], st, fr, 'runs', 'after removal', call.line, 'runs a task before it is removed from the queue')
                    self.chk(not t[4], st, fr, 'runs', 'once', call.line, 'runs the same task twice')
                    m['tk'] = tuple(u for u in m['tk'] if u != t) + (t[:4] + (True,),)
                    return
        fid = call.node.get('fid') if call.node else None
        if fid in self.push and call.obj != THIS:
            r = [self.pos(st, a) for a in call.args]
            pv = ('f', THIS, self.x.private or self.x.queue)
            if len(r) == 2 and r[0] and r[1] and r[0][0] == pv and r[1][0] == pv: self.donate(st, fr, r[0][1], r[1][1], call.line)
            elif len(call.args) == 1 and call.args[0][0] == 'lv':
                s = self.res(st, call.args[0][1])
                if s[0] == 'i' and s[1] == pv: self.donate(st, fr, s[2], add(s[2], c(1)), call.line)
                else:
                    for t in m['tk']:
                        if t[0] == s:
                            self.chk(t[3] and not t[4], st, fr, 'runs', 'handed on', call.line, 'hands on a task that ran or is still queued')
                            m['tk'] = tuple(u for u in m['tk'] if u != t)

    def donate(self, st, fr, b, e, line):
        self.chk(st.facts.truth(eq0(sub(b, st.mem[G]))) is True, st, fr, 'takes', 'donations are consecutive', line,
                 'donates tasks from %s on although those up to %s were donated: some are given twice or skipped' % (val_str(b), val_str(st.mem[G])))
        st.mem[G] = e

    def drop(self, st, fr, loc, line):
        m = st.mon
        for t in m['tk']:
            if t[0] == loc:
                self.chk(t[4] or self.gone(st), st, fr, 'drops', 'taken task', line, 'drops a task it has taken without running it and without a shutdown')
                self.chk(t[3] or self.gone(st), st, fr, 'takes', 'removed', line, 'leaves the place of a task it has taken in the queue')
                m['tk'] = tuple(u for u in m['tk'] if u != t)

    def on_dtor(self, st, fr, loc, t, line):
        if loc in st.mon['loc']:
            self.chk(self.gone(st) or self.empty(st, loc), st, fr, 'drops', 'queue taken over', line, 'destroys queued tasks without a shutdown')
            st.mon['loc'] = tuple(x for x in st.mon['loc'] if x != loc)
        self.drop(st, fr, loc, line)

    def on_unlock(self, st, fr, mutex, line):
        if mutex[0] != 'f' or mutex[1] != THIS or mutex[2] not in self.x.mut: return
        for t in st.mon['tk']:
            if t[1] == ('f', THIS, self.x.queue):
                self.chk(t[3], st, fr, 'takes', 'removed under the lock', line, 'releases the lock with the taken task still in the queue: another thread takes it too')

    # -- queues
    def on_cont(self, st, fr, op, loc, args, call, **kw):
        m = st.mon
        if loc not in self.qs and loc not in m['loc']: return
        q = nm(loc)
        if op == 'pop':
            end = 'front' if kw.get('how') in ('pop_front', 'pop') else 'back'
            for t in m['tk']:
                if t[1] == loc and not t[3]:
                    self.chk(t[2] == end, st, fr, 'takes', 'same end of ' + q, call.line, 'takes the task at the %s of %s and removes the one at the other end' % (t[2], q))
                    m['tk'] = tuple(u for u in m['tk'] if u != t) + (t[:3] + (True,) + t[4:],)
                    return
            self.chk(self.gone(st), st, fr, 'drops', 'popped from ' + q, call.line, 'removes a task from %s that nobody took' % q)
        elif op == 'erase':
            r = [self.pos(st, a) for a in args]
            if len(r) == 2 and r[0] and r[1]:
                ok = st.facts.truth(eq0(r[0][1])) is True and st.facts.truth(eq0(sub(r[1][1], st.mem[G]))) is True
                self.chk(ok or self.gone(st), st, fr, 'drops', 'erases the donated ones', call.line, 'erases other tasks than the ones given away (up to %s)' % val_str(st.mem[G]))
                st.mem[G] = FALSE
            else: self.chk(self.gone(st), st, fr, 'drops', 'erased from ' + q, call.line, 'erases queued tasks')
        elif op in ('clear', 'resize', 'assign') and op != 'assign':
            self.chk(self.gone(st) or self.empty(st, loc), st, fr, 'drops', op + ' of ' + q, call.line, 'removes queued tasks from %s without a shutdown' % q)
        elif op == 'assign' and loc in self.qs:
            self.chk(self.gone(st) or self.empty(st, loc), st, fr, 'drops', 'assigned over ' + q, call.line, 'overwrites %s, which may hold tasks' % q)
        elif op in PUSH and self.x.cls in FIFO and loc in self.qs:
            back = op == 'push' and kw.get('how') in ('emplace_back', 'push_back', 'push')
            if op == 'insert' or op == 'push' and kw.get('how') == 'insert':
                p0 = self.pos(st, args[0])
                back = p0 is not None and p0[0] == loc and st.facts.truth(eq0(sub(p0[1], st.read(('f', loc, '#size'))))) is True
            if op == 'append': back = True
            self.chk(back, st, fr, 'order', 'put behind in ' + q, call.line, 'puts a task in front of or between those waiting in %s' % q)

    def take_over(self, st, fr, src, dst, line):
        m = st.mon
        if src in self.qs or src in m['loc']:
            if dst in self.qs:
                self.chk(self.gone(st) or self.empty(st, dst), st, fr, 'drops', 'hand-over to ' + nm(dst), line, 'hands %s over to %s, which may hold tasks' % (nm(src), nm(dst)))
            elif not self.gone(st) and loc_root(dst)[0] in ('v', 't'): m['loc'] = tuple(x for x in m['loc'] if x != src) + (dst,)
            elif not self.gone(st): self.chk(False, st, fr, 'drops', 'moved away', line, 'moves the queued tasks of %s to an unknown place' % nm(src))

    def on_move(self, st, fr, src, dst, line):
        if dst not in self.qs: self.take_over(st, fr, self.res(st, src), self.res(st, dst), line)          # else judged at the assignment

    def on_swap(self, st, fr, a, b, line):
        a, b = self.res(st, a), self.res(st, b)
        if a in self.qs and b in self.qs:
            self.chk(self.empty(st, a) or self.empty(st, b) or self.gone(st), st, fr, 'drops', 'exchange of the queues', line, 'exchanges two queues neither of which is known empty: tasks go back and lose their turn')
        else:
            self.take_over(st, fr, a, b, line); self.take_over(st, fr, b, a, line)

    def on_finish(self, st, fr, ret, how):
        if how == 'ret':
            for t in st.mon['tk']: self.drop(st, fr, t[0], None)
        self.cx.ok('takes', 'every path of ' + sig(fr.fn))


def nm(q): return q[2] if q[0] == 'f' else 'the local queue'


class Put(Base):
    """Tasks entering an executor."""

    def __init__(self, cx, exs, cls): self.cx, self.exs, self.cls = cx, exs, cls

    def init(self, st, fr):
        self.fn = fr.fn
        p = [q for q in fr.fn.params if 'Task' in q['t']][0]
        self.prm = ('d', ('prm', p['name']))
        self.span = spans(fr.fn)
        st.mon.update(hold=(), one=False, drop=None, div=None, plus=True, left=None)
        st.mem[A_] = st.mem[K_] = st.mem[X_] = FALSE

    def source(self, st, loc):
        loc = self.res(st, loc)
        if not self.span and loc == self.prm: return 'task'
        if self.span and loc[0] == 'i' and loc[1] == self.prm: return loc[2]
        for t, s in st.mon['hold']:
            if t == loc: return s
        return None

    def accept(self, st, fr, src, line):
        m = st.mon
        if src == 'task':
            self.chk(not m['one'], st, fr, 'producer', 'once', line, 'gives the same task away twice')
            m['one'] = True
        else: self.range(st, fr, src, add(src, c(1)), line)

    def range(self, st, fr, b, e, line):
        a = st.mem[A_]
        self.chk(zero(st.facts, sub(b, a)), st, fr, 'batch', 'consecutive', line,
                 'takes the tasks from number %s on although those before %s were taken: some are given twice or skipped' % (val_str(b), val_str(a)))
        st.mem[A_] = e
        n = sub(e, b)
        st.mem[K_] = add(st.mem[K_], c(1))
        d = [s for s, k in lin_parts(n)[1] if s[0] == 'op' and s[1] == '/' and k == 1] if n[0] in ('lin', 'op') else []
        if n[0] == 'op' and n[1] == '/': d = [n]
        if len(d) == 1:
            st.mon['div'] = d[0]
            st.mem[X_] = add(st.mem[X_], sub(n, d[0]))
            if sub(n, d[0]) == FALSE: st.mon['plus'] = False          # from here on no worker gets one more

    def on_arith(self, st, fr, op, a, b, line, node):
        if op not in ('/', '%'): return
        st.facts = st.facts.assume(('not', eq0(b))) or st.facts          # a pool without workers divides by zero first
        r = sub(a, ('op', '*', ('op', '/', a, b), b))
        for g in (ge0(r), ge0(sub(sub(b, c(1)), r))): st.facts = st.facts.assume(g) or st.facts

    def relocate(self, st, a, b): st.mon['hold'] = tuple((b, s) if t == a else (t, s) for t, s in st.mon['hold'])

    def forget(self, st, loc): st.mon['hold'] = tuple(h for h in st.mon['hold'] if h[0] != loc)

    def on_call(self, st, fr, call):
        if istask(call.q) and len(call.args) == 1 and call.args[0][0] == 'lv' and call.obj is not None:
            s = self.source(st, call.args[0][1])
            if s is None: return
            l = self.res(st, call.args[0][1])
            self.forget(st, l)
            if s == 'task' and l == self.prm and st.mon['one']: self.accept(st, fr, s, call.line)
            self.forget(st, call.obj)
            st.mon['hold'] = st.mon['hold'] + ((call.obj, s),)
            if s == 'task': st.mon['one'] = True
        elif call.q == TASK + '::operator()':
            l = self.res(st, call.obj)
            s = self.source(st, l)
            if s is not None: self.give(st, fr, l, s, call.line)

    def give(self, st, fr, l, s, line):
        held = any(h[0] == l for h in st.mon['hold'])
        if held and s == 'task': self.forget(st, l); self.cx.ok('producer', sig(self.fn) + ': once')
        else:
            self.forget(st, l)
            self.accept(st, fr, s, line)

    def on_thread(self, st, fr, call, args):
        for t, s in st.mon['hold']: self.give(st, fr, t, s, call.line)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op not in PUSH or loc[0] != 'f' or not any(loc[2] in (x.queue, x.private) for x in self.exs): return
        r = [self.pos(st, a) for a in args]
        if len(r) == 3 and r[1] and r[2]:
            if r[1][0] == self.prm and r[2][0] == self.prm: self.range(st, fr, r[1][1], r[2][1], call.line)
            elif r[1][0] == r[2][0] and st.mem.get(r[1][0], ('', 0))[0] == 'view' and self.source(st, st.mem[r[1][0]][1]) is not None:
                one = st.mem[r[1][0]][1]
                self.chk(zero(st.facts, r[1][1]) and zero(st.facts, sub(r[2][1], c(1))), st, fr, 'batch', 'own tasks', call.line, 'does not insert exactly the one task it was given')
                self.give(st, fr, self.res(st, one), self.source(st, one), call.line)
            else: self.chk(False, st, fr, 'batch', 'own tasks', call.line, 'inserts a range that does not belong to the batch')
            return
        for a in args:
            if a[0] != 'lv': continue
            s = self.source(st, a[1])
            if s is not None: self.give(st, fr, self.res(st, a[1]), s, call.line)

    def on_dtor(self, st, fr, loc, t, line):
        if any(h[0] == loc for h in st.mon['hold']):
            self.forget(st, loc)
            st.mon['drop'] = fr.fn.where(line)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        self.chk(not m['drop'], st, fr, 'producer', 'kept', None, 'drops the task it was given')
        if not self.span:
            self.chk(m['one'], st, fr, 'producer', 'given on', None, 'returns without having given the task to anybody')
            return
        n = st.read(('f', self.prm, '#size'))
        a = st.mem[A_]
        if zero(st.facts, sub(n, a)): self.cx.ok('batch', '%s: all of them' % sig(self.fn)); return
        d = m['div']
        if d is not None:
            # acc = k*d + x with d = n / w
            k, x, w = st.mem[K_], st.mem[X_], d[3]
            pr = ('op', '*', d, w)
            f = st.facts
            for g in (ge0(sub(sub(n, pr), c(0))), ge0(sub(sub(w, c(1)), sub(n, pr))), ge0(sub(sub(k, c(1)), sub(n, pr))) if zero(f, sub(k, w)) else TRUE): f = f.assume(g) or f
            if zero(f, sub(k, w)):
                tot = add(pr, x)
                rest = sub(n, tot)
                self.chk(zero(f, rest), st, fr, 'batch', 'all of them', None, 'does not give all tasks of the batch to a worker: %s are left' % val_str(rest))
                return
        self.chk(False, st, fr, 'batch', 'all of them', None, 'cannot be shown to take all tasks of the batch (%s of %s)' % (val_str(a), val_str(n)))


def run(cx):
    p = cx.p
    exs = executors(p)
    sh = shared_of(exs)
    callers = p.callers()
    for x in exs:
        if x.sh == 'Thread': continue
        pure = abortish(p, x.cls)
        quals = {x.cls + '::' + f for f in (x.queue, x.private, x.abort, *pure) if f}
        touch = lambda fn: (fn.scls == x.cls or fn.sq.startswith(x.cls + '::')) and mentions_field(fn, quals)
        hit = reaching(p, touch)
        mine = [f for f in p.all() if f.fid in hit and f.blocks and not f.nocfg and (f.scls == x.cls or f.lambda_ and f.sq.startswith(x.cls + '::'))]
        ids = {f.fid for f in mine}
        push = {f.fid for f in mine if any('Task' in q['t'] for q in f.params) and not f.lambda_}
        inl = lambda fn: fn.fid in ids and fn.fid not in push or 'throw_runtime_shutdown' in fn.name or small(fn) and not any(y in fn.file for y in NOISE) and fn.fid not in push
        n = 0
        for f in mine:
            if f.ctor or f.dtor: continue
            if callers.get(f.fid, set()) & ids and not (callers.get(f.fid, set()) - ids) and not f.ov and f.fid not in push: continue
            r = Take(cx, x, pure, push)
            e = cx.engine([Shared({k: tuple(q for q in v if q in x.fs) for k, v in sh.items()}), r], inline=inl, max_steps=400000, merge_at=8,
                          invs=[lambda st: eq0(st.mem.get(G, FALSE))])
            e.iter_idx = True
            cx.run(e, f)
            n += 1
        if n < 3: raise AnalysisError('%s: only %d functions' % (x.cls, n))
    # producers
    quals = {x.cls + '::' + f for x in exs for f in (x.queue, x.private, x.abort) if f}
    enq = [f for f in p.all() if f.name == 'enqueue' and f.blocks and (f.scls or '').startswith(E) and any('Task' in q['t'] for q in f.params)]
    inl = inliner(p, lambda fn: fn.sq.startswith(E) and (mentions_field(fn, quals) or any(n and n['k'] == 'CXXThrowExpr' for n in fn.nodes)))
    for f in enq:
        r = Put(cx, exs, f.scls)
        e = cx.engine([Shared(sh), r], inline=inl, max_steps=400000, merge_at=8, invs=[remain, notmore, lambda st: ge0(sub(st.mem[K_], st.mem[X_])), done, lambda st, r=r: ge0(sub(st.read(('f', r.prm, '#size')), st.mem[A_])) if r.span else TRUE])
        e.iter_idx = e.prune = True
        cx.run(e, f)
    if len(enq) < 8: raise AnalysisError('only %d enqueue functions' % len(enq))


def notmore(st):
    d = st.mon.get('div')
    return TRUE if d is None else ge0(sub(sub(d[2], ('op', '*', d, d[3])), st.mem[X_]))


def done(st):
    d = st.mon.get('div')
    return TRUE if d is None or st.mon['plus'] else ge0(sub(st.mem[X_], sub(d[2], ('op', '*', d, d[3]))))


def remain(st):
    """The tasks beyond equal shares are not more than the workers still to come."""
    d = st.mon.get('div')
    if d is None: return TRUE
    n, w = d[2], d[3]
    return ge0(add(sub(sub(w, st.mem[K_]), sub(n, ('op', '*', d, w))), st.mem[X_]))
