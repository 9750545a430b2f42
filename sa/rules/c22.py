"""Timers: due, not cancelled, once per round, never lost."""
from ..execs import *
from .. import models
from .c16 import sig
from .c19 import zero, THIS

RULE = ('Abstract execution (time points are numbers, the elements of the ordered set follow extract and insert) of every function of the timer queue and of the timers. '
        'Firing: on every path the fired timer was compared with a clock reading and found due, its cancelled flag was read and clear, it is outside the ordered set and was '
        'not fired since it left it. Bookkeeping: a timer that leaves the set also leaves the index, and is one-shot or cancelled or removed on request; otherwise it returns to the set '
        'after firing and the index gets its new position; a request of each kind is carried out for the timer it names, in order, all of them. The next wakeup is the '
        'deadline of the first timer, the thread sleeps no longer than that, gets every queued request, and ends itself only with no timer and no request left. State: '
        'fire sets the deadline to now plus the current frequency, posts once unless the executor is shut down and lets no exception out; execute calls the callable '
        'exactly once, iff the flag is clear; cancel raises the flag and asks for the removal; every way of making a timer refuses a null executor, '
        'starts from now plus the due time and queues the timer once; the callable is consumed only if given as an rvalue.')
LEVEL = 'proof'
ASSUMES = ['the accuracy of the clock and of timed waits is not judged', 'the request queue is guarded as C11 shows and its waiters are woken as C17 shows']
MIN = {'due': 1, 'live': 1, 'round': 1, 'index': 3, 'requests': 3, 'next': 1, 'sleep': 1, 'leave': 1, 'fire': 2, 'execute': 1, 'cancel': 2, 'make': 4, 'callable': 1}
D = 'plain::detail::'
TS = D + 'TimerStateBasic'
TQ = 'plain::TimerQueue'
PTR = 'std::shared_ptr<%s>' % TS


def tm(st, loc):
    v = st.read(('f', loc, models.TM)); SYMW.setdefault(v, 64)
    return v


def nowsym(v): return v[0] == 'ld' and len(v) > 2 and v[2][0] == 'rv' and v[2][1].startswith('std::chrono::') and v[2][1].endswith('::now')


def syms(v):
    k, t = lin_parts(v)
    return {s: x for s, x in t}, k


def is_now_plus(v, want):
    """v = clock reading + want (nanoseconds, a linear value)"""
    t, _ = syms(v)
    n = [s for s, x in t.items() if nowsym(s) and x == 1]
    return len(n) == 1 and sub(sub(v, n[0]), want) == FALSE


class B:
    def chk(self, ok, st, fr, rule, what, line, msg):
        if not ok and st.facts.infeasible(): return
        self.cx.check(bool(ok), rule, '%s: %s' % (sig(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (sig(fr.fn), msg), st.trace_list())

    def ref(self, st, loc):
        for _ in range(5):
            v = st.mem.get(loc) if loc else None
            if v is not None and v[0] == 'ref': loc = v[1]
            else: break
        return loc

    def ptr(self, st, a):
        """Pointer value of a smart pointer operand."""
        if a[0] != 'lv': return a
        return st.read(('f', self.ref(st, a[1]), '#p'))


class Rounds(B):
    """Firing and the bookkeeping of one round."""

    def __init__(self, cx, cls, set_, map_): self.cx, self.cls, self.S, self.M = cx, cls, ('f', THIS, set_), ('f', THIS, map_)

    def init(self, st, fr):
        self.fn = fr.fn
        # out: timers outside the set but still indexed or the like: (ptr, inset, inmap, fired, reason)
        st.mon.update(t=(), ld=(), req=None, both=())

    # one entry per timer that this call moved
    def get(self, st, p): return next((t for t in st.mon['t'] if t[0] == p), None)

    def put(self, st, p, **kw):
        t = dict(zip(('s', 'm', 'fired', 'why', 'pos'), (self.get(st, p) or (p, True, True, False, None, None))[1:]))
        t.update(kw)
        st.mon['t'] = tuple(x for x in st.mon['t'] if x[0] != p) + ((p, t['s'], t['m'], t['fired'], t['why'], t['pos']),)

    def why(self, st, p):
        if is_true(st, field(st, ('d', p), 'is_oneshot_')): return 'one-shot'
        if any(l == p and is_true(st, r) for l, r in st.mon['ld']): return 'cancelled'
        return None

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and loc[0] == 'f' and loc[2] == 'cancelled_' and loc[1][0] == 'd':
            st.mon['ld'] = tuple(x for x in st.mon['ld'] if x[0] != loc[1][1]) + ((loc[1][1], res),)

    def settle(self, st, fr, line, final=False):
        for p, s, m, fired, why, pos in st.mon['t']:
            if s is None: continue
            self.chk(bool(s) == bool(m), st, fr, 'index', 'set and index agree', line,
                     'a timer is %s the ordered set but %s the index' % ('in' if s else 'no longer in', 'in' if m else 'not in'))
            if not s: self.chk(why, st, fr, 'index', 'leaves for a reason', line, 'a repeating timer that is not cancelled is dropped')
            if s and pos: self.chk(m is True or m == 'new', st, fr, 'index', 'position renewed', line, 'the index keeps the old position of a timer that was inserted again')
        st.mon['t'] = (); st.mon['ld'] = ()
        self.drop_facts(st)

    def drop_facts(self, st): pass

    def loc_is(self, st, loc, want):
        loc = self.ref(st, loc)
        return loc == want

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        loc = self.ref(st, loc)
        if loc == self.S: self.on_set(st, fr, op, args, call, kw)
        elif loc == self.M: self.on_map(st, fr, op, args, call, kw)

    def on_set(self, st, fr, op, args, call, kw):
        if op == 'erase':
            e = models.elem_of(st, args[0]) if args else None
            if e is not None and e[0] == 'i' and self.ref(st, e[1]) == self.S:
                if e[2] == FALSE: self.settle(st, fr, call.line)
                p = st.read(('f', e, '#p'))
                self.put(st, p, s=False, m=True if self.get(st, p) is None else self.get(st, p)[2])
                if e[2] == FALSE and self.due(st, p): st.mon['due'] = p
                return
            k = self.mapkey(st, args[0]) if args else None
            self.chk(k is not None, st, fr, 'index', 'erases a known timer', call.line, 'erases an element of the ordered set that is neither its first nor the indexed one')
            if k is not None: self.put(st, k, s=False)
            if k is not None and k == st.mon['req']: self.put(st, k, why='request')
        elif op == 'push':
            p = self.ptr(st, args[-1]) if args else None
            t = self.get(st, p)
            if t is None: self.put(st, p, s=True, m=False, why='new', pos=('ins',) + tuple(self.eng.site(fr, call.nid)))
            else:
                self.chk(not t[1], st, fr, 'round', 'inserted once', call.line, 'inserts a timer that is still in the ordered set')
                self.chk(t[3], st, fr, 'round', 'fired before it returns', call.line, 'puts a due timer back without firing it: it stays due')
                self.chk(is_false(st, field(st, ('d', p), 'is_oneshot_')), st, fr, 'round', 'only repeating timers return', call.line, 'puts a timer back that may be one-shot: it fires again')
                self.put(st, p, s=True, m=False if t[2] is True else t[2], pos=('ins',) + tuple(self.eng.site(fr, call.nid)))
        elif op in ('clear', 'assign', 'pop'): self.chk(False, st, fr, 'index', 'not emptied', call.line, 'drops timers (%s)' % op)

    def mapkey(self, st, a):
        """The iterator operand is what the index holds: for which timer?"""
        if a[0] != 'lv': return None
        loc = a[1]
        for _ in range(6):
            v, al = st.mem.get(loc), st.mem.get(('#al', loc))
            if v is not None and v[0] == 'ref': loc = v[1]
            elif v is not None and v[0] == 'ld' and v[1][0] == 'f': loc = v[1]
            elif al is not None: loc = al[0]
            else: break
        if loc[0] == 'f' and loc[2] == 'second': return self.elemkey(st, loc[1])
        if loc[0] == 'i' and loc[1] == self.M: return st.mem.get(('#key', loc[2]), None) or self.keyval(loc[2])
        return None

    def elemkey(self, st, e):
        if e[0] == 'i' and e[1] == self.M and e[2][0] == 'find': return self.keyval(e[2][1])
        return None

    def keyval(self, k):
        if k[0] == 'ld': return ('ld', ('f', k[1], '#p')) + k[2:]
        return k

    def on_map(self, st, fr, op, args, call, kw):
        if op == 'erase':
            k = None
            a = args[0]
            v = models.objval(self.eng, st, fr, a)
            if v[0] == 'it' and v[1] == self.M and v[2][0] == 'find': k = self.keyval(v[2][1])
            else: k = self.ptr(st, a)
            t = self.get(st, k)
            why = self.why(st, k) or (t and t[4]) or ('request' if k == st.mon['req'] else None)
            self.put(st, k, m=False, why=why, s=t[1] if t else True)
        elif op == 'push':
            k = self.ptr(st, args[0])
            t = self.get(st, k)
            v = models.objval(self.eng, st, fr, args[1]) if len(args) > 1 else None
            ok = t is not None and v is not None and v[0] == 'it' and v[1] == self.S and t[5] == v[2]
            self.chk(ok, st, fr, 'index', 'maps to the element just inserted', call.line, 'the index does not get the position at which the timer was inserted')
            self.put(st, k, m=True)
        elif op == 'index':
            st.mon['ix'] = self.ptr(st, args[0])
        elif op in ('clear', 'assign'): self.chk(False, st, fr, 'index', 'not emptied', call.line, 'drops the index (%s)' % op)
        elif op == 'find':
            st.mon['fk'] = self.ptr(st, args[0])

    def on_call(self, st, fr, call):
        if call.name == 'operator=' and call.obj is not None and call.obj[0] == 'i' and call.obj[1] == self.M and len(call.args) == 1:
            k = st.mon.get('ix')
            v = models.objval(self.eng, st, fr, call.args[0])
            t = self.get(st, k)
            ok = t is not None and v[0] == 'it' and v[1] == self.S and t[5] == v[2]
            self.chk(ok, st, fr, 'index', 'maps to the element just inserted', call.line, 'the index does not get the position at which the timer was inserted')
            if t is not None: self.put(st, k, m=True)
        if call.q == TS + '::fire' and call.obj is not None:
            p = call.obj[1] if call.obj[0] == 'd' else None
            t = self.get(st, p)
            self.chk(t is not None and not t[1], st, fr, 'round', 'outside the set', call.line, 'changes the deadline of a timer that is in the ordered set')
            self.chk(not (t and t[3]), st, fr, 'round', 'once', call.line, 'fires a timer twice in one round')
            self.chk(self.due(st, p), st, fr, 'due', 'compared with the clock', call.line, 'fires a timer that was not found due')
            self.chk(any(l == p and is_false(st, r) for l, r in st.mon['ld']), st, fr, 'live', 'not cancelled', call.line, 'fires a timer without having found it not cancelled')
            if p is not None: self.put(st, p, fired=True, s=t[1] if t else True, m=t[2] if t else True)

    def due(self, st, p):
        if p is None: return False
        d = tm(st, ('f', ('d', p), 'deadline_'))
        for f in st.facts.s:
            if f[0] not in ('ge0', 'eq0'): continue
            for s in syms(f[1])[0]:
                if nowsym(s) and st.facts.prove_ge0(sub(s, d)): return True
        return False

    def on_swap(self, st, fr, a, b, line):
        a, b = self.ref(st, a), self.ref(st, b)
        for l, o in ((a, b), (b, a)):
            if l in (self.S, self.M):
                s = st.read(('f', self.S, '#size')); SYMW.setdefault(s, 64)
                so = st.read(('f', o, '#size')); SYMW.setdefault(so, 64)
                sm = st.read(('f', self.M, '#size')); SYMW.setdefault(sm, 64)
                self.chk(zero(st.facts, s) or st.mon.get('swp') or zero(st.facts, sm), st, fr, 'index', 'only an empty set is reset', line, 'drops timers by a swap')
                if zero(st.facts, s): st.mon['swp'] = True

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        if how == 'ret': self.settle(st, fr, None, True)
        if how != 'ret' or 'time_point' not in (fr.fn.ret or ''): return
        s = st.read(('f', self.S, '#size')); SYMW.setdefault(s, 64)
        if zero(st.facts, s): self.cx.ok('next', '%s: none left' % sig(fr.fn)); return
        ok = False
        if ret is not None and ret[0] == 'lv':
            v = tm(st, ret[1])
            e = ('i', self.S, FALSE)
            ok = sub(v, tm(st, ('f', ('d', st.read(('f', e, '#p'))), 'deadline_'))) == FALSE
        self.chk(ok, st, fr, 'next', 'deadline of the first timer', None, 'does not return the deadline of the first timer although there is one: it fires late')


class Requests(B):
    """Every queued request is carried out, in order."""
    N = ('g', '#req')

    def __init__(self, cx, cls, set_, map_): self.cx, self.cls, self.S, self.M = cx, cls, ('f', THIS, set_), ('f', THIS, map_)

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(q=('d', ('prm', fr.fn.params[0]['name'])))
        st.mem[self.N] = FALSE

    def which(self, st, a):
        """Index of the request whose timer operand a is."""
        if a[0] != 'lv': return None
        loc = a[1]
        for _ in range(8):
            v, al = st.mem.get(loc), st.mem.get(('#al', loc))
            if loc[0] == 'f' and loc[2] == 'first' and loc[1][0] == 'i': break
            if v is not None and v[0] == 'ref': loc = v[1]
            elif al is not None: loc = al[0]
            else: break
        if loc[0] == 'f' and loc[2] == 'first' and loc[1][0] == 'i' and self.ref(st, loc[1][1]) == st.mon['q']: return loc[1]
        return None

    def kind(self, st, e):
        v = st.read(('f', e, 'second')); SYMW.setdefault(v, 32)
        return v

    def done(self, st, fr, e, line):
        i = e[2]
        self.chk(i == ('sym', 'each') or zero(st.facts, sub(i, st.mem[self.N])), st, fr, 'requests', 'in order', line, 'carries requests out in another order than they were made, or twice')
        st.mem[self.N] = add(i, c(1))

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        loc = self.ref(st, loc)
        if loc == self.S and op == 'push':
            e = self.which(st, args[-1])
            self.chk(e is not None and zero(st.facts, self.kind(st, e)), st, fr, 'requests', 'added on request', call.line, 'inserts a timer for which there is no Add request')
            if e is not None: self.done(st, fr, e, call.line)
        if loc == self.M and op == 'find':
            e = self.which(st, args[0])
            if e is not None and is_true(st, self.kind(st, e)): st.mon['rm'] = True; self.done(st, fr, e, call.line)
        if loc == self.M and op == 'erase':
            e = self.which(st, args[0])
            if e is not None: self.done(st, fr, e, call.line)
            st.mon['rm'] = False
        if loc == self.S and op == 'erase':
            self.chk(st.mon.get('rm') is not None, st, fr, 'requests', 'removed on request', call.line, 'removes a timer for which there is no Remove request')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        s = st.read(('f', st.mon['q'], '#size')); SYMW.setdefault(s, 64)
        self.chk(zero(st.facts, sub(s, st.mem[self.N])), st, fr, 'requests', 'all of them', None, 'returns before every request was carried out')


class Found(B):
    """remove: a timer that is indexed leaves both containers."""

    def __init__(self, cx, cls, set_, map_): self.cx, self.S, self.M = cx, ('f', THIS, set_), ('f', THIS, map_)

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(f=None, e=0, es=0)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        loc = self.ref(st, loc)
        if op == 'erase' and loc == self.M: st.mon['e'] = 1
        if op == 'erase' and loc == self.S: st.mon['es'] = 1

    def on_ret(self, st, fr, call, v):
        if call.name in ('find', 'contains', 'count') and call.obj is not None and self.ref(st, call.obj) == self.M: st.mon['f'] = v

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        if m['e'] or m['es']:
            self.chk(m['e'] and m['es'], st, fr, 'index', 'both or none', None, 'removes a timer from one of the two containers only'); return
        known = any(f[0] == 'eq' and f[2][0] == 'itc' or f[0] == 'eq' and 'find' in repr(f) for f in st.facts.s)
        if m['f'] is not None and m['f'][0] != 'it': known = known or is_false(st, m['f'])
        self.chk(known, st, fr, 'requests', 'removes what is there', None, 'leaves a timer in place without having found that it is gone')


class Loop(B):
    """The thread of the queue."""
    ND = ('g', '#next')

    def __init__(self, cx, cls, proc): self.cx, self.cls, self.proc = cx, cls, proc

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(em=None, tk=None, ab=False)
        st.mem[self.ND] = FALSE

    def on_ret(self, st, fr, call, v):
        if call.q == self.cls + '::empty': st.mon['em'] = v
        if call.q == self.proc:
            st.mem[self.ND] = tm(st, v[1]) if v[0] == 'lv' else v
            if v[0] == 'lv': st.mem[('f', v[1], models.TM)] = st.mem[self.ND]
            st.mon['em'] = None

    def on_call(self, st, fr, call):
        if call.q == self.proc:
            q = self.ref(st, call.args[0][1]) if call.args and call.args[0][0] == 'lv' else None
            self.chk(st.mon['tk'] is not None and q in st.mon['tk'], st, fr, 'sleep', 'gets the requests', call.line, 'does not pass on the requests that were queued')
            self.chk(not st.locks, st, fr, 'sleep', 'unlocked', call.line, 'fires timers with the lock of the queue held')
            st.mon['tk'] = None

    def take(self, st, fr, src, dst, line):
        if src[0] == 'f' and src[1] == THIS and src[2] == 'request_queue':
            self.chk(st.mon['tk'] is None, st, fr, 'sleep', 'no request lost', line, 'takes requests while those taken before were not carried out')
            self.chk(any(m[0] == 'f' and m[1] == THIS for m in st.locks), st, fr, 'sleep', 'taken under the lock', line, 'takes the requests without the lock')
            st.mon['tk'] = (dst,)
        elif st.mon['tk'] and src in st.mon['tk']: st.mon['tk'] = (dst,)

    def on_move(self, st, fr, src, dst, line): self.take(st, fr, self.ref(st, src), dst, line)
    def on_exchange(self, st, fr, loc, new, line): self.take(st, fr, self.ref(st, loc), None, line)

    def on_swap(self, st, fr, a, b, line):
        a, b = self.ref(st, a), self.ref(st, b)
        for l, o in ((a, b), (b, a)):
            if l == ('f', THIS, 'request_queue'):
                s = st.read(('f', o, '#size')); SYMW.setdefault(s, 64)
                if st.mon['tk'] is None or zero(st.facts, s): self.take(st, fr, l, o, line)

    def on_leave(self, st, fr, ret, how):
        if st.mon['tk'] and ret is not None and ret[0] == 'lv' and ret[1] in st.mon['tk']: st.mon['left'] = True

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if self.ref(st, loc) == ('f', THIS, 'request_queue') and op in ('clear', 'erase', 'pop', 'assign'):
            self.chk(self.aborted(st), st, fr, 'sleep', 'no request dropped', call.line, 'drops requests')

    def aborted(self, st): return is_true(st, field(st, THIS, 'abort'))

    def on_branch(self, st, fr, *a, **kw):
        if self.aborted(st): st.mon['ab'] = True

    def on_wait(self, st, fr, cv, mutexes, pred, timed, line, call):
        e = st.mon['em']
        if e is not None and (is_true(st, e)): self.cx.ok('sleep', '%s: with no timer' % sig(self.fn)); return
        v = None
        if call.name == 'wait_until' and len(call.args) > 1 and call.args[1][0] == 'lv': v = tm(st, self.ref(st, call.args[1][1]))
        ok = v is not None and zero(st.facts, sub(v, st.mem[self.ND]))
        self.chk(ok, st, fr, 'sleep', 'not beyond the next deadline', line, 'can sleep beyond the deadline of the next timer')

    def on_write(self, st, fr, loc, v, line, init=False):
        if loc == ('f', THIS, 'idle') and not init:
            e = st.mon['em']
            s = st.read(('f', ('f', THIS, 'request_queue'), '#size')); SYMW.setdefault(s, 64)
            self.chk(e is not None and is_true(st, e), st, fr, 'leave', 'no timer left', line, 'declares itself idle with timers left: they are never fired')
            self.chk(zero(st.facts, s), st, fr, 'leave', 'no request left', line, 'declares itself idle with requests left')
            self.chk(bool(st.locks), st, fr, 'leave', 'under the lock', line, 'declares itself idle without the lock')
            st.mon['idle'] = True

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        self.chk(how == 'ret' and (self.aborted(st) or st.mon['ab'] or st.mon.get('idle')), st, fr, 'leave', 'only idle or aborted', None, 'the thread of the queue can end while it is counted on')


class Fire(B):
    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0, sd=(), clos=None, fq=(), dl=False)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and loc == ('f', THIS, 'frequency_'): st.mon['fq'] = st.mon['fq'] + (res,)

    def on_call(self, st, fr, call):
        if re.match(re.escape(E) + r'Basic::(post|do_post|enqueue|submit)$', call.q or ''):
            st.mon['n'] = min(st.mon['n'] + 1, 2)
            ok = call.obj is not None and call.obj[0] == 'd' and call.obj[1] == st.read(('f', ('f', THIS, 'executor_'), '#p'))
            self.chk(ok, st, fr, 'fire', 'on its own executor', call.line, 'posts to another executor than the one the timer was made with')
            for a in call.args:
                v = models.objval(self.eng, st, fr, a)
                if v[0] == 'clos': self.clos.add(v[1])

    def on_ret(self, st, fr, call, v):
        if call.name == 'shutdown_requested': st.mon['sd'] = st.mon['sd'] + (v,)

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        self.chk(how == 'ret', st, fr, 'fire', 'lets no exception out', None, 'an exception of the executor leaves the timer thread: the process ends')
        if how != 'ret': return
        down = any(is_true(st, v) for v in st.mon['sd'])
        self.chk(st.mon['n'] == 1 or st.mon['n'] == 0 and down, st, fr, 'fire', 'posts once', None, 'posts the callable %s' % ('more than once' if st.mon['n'] else 'not at all although the executor accepts work'))
        d = tm(st, ('f', THIS, 'deadline_'))
        ok = any(is_now_plus(d, scale(f, 10 ** 6)) or is_now_plus(d, scale(('cast', -64, f), 10 ** 6)) for f in st.mon['fq'])
        self.chk(ok, st, fr, 'fire', 'next deadline', None, 'the next deadline is not the current time plus the frequency')


class Execute(B):
    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0, ld=())

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and loc == ('f', THIS, 'cancelled_'): st.mon['ld'] = (res,)

    def call(self, st, fr, call):
        if call.obj is not None and self.ref(st, call.obj) == ('f', THIS, 'callable_') or any(a[0] == 'lv' and self.ref(st, a[1]) == ('f', THIS, 'callable_') for a in call.args) and not call.q.startswith(('std::move', 'std::forward')):
            st.mon['n'] = min(2, st.mon['n'] + 1)
            self.chk(any(is_false(st, r) for r in st.mon['ld']), st, fr, 'execute', 'not after cancel', call.line, 'runs the callable of a timer without having found it not cancelled')

    def on_call(self, st, fr, call): self.call(st, fr, call)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        c_ = any(is_true(st, r) for r in st.mon['ld'])
        self.chk(st.mon['n'] == 1 or c_ and not st.mon['n'], st, fr, 'execute', 'exactly once', None, 'runs the callable %s' % ('twice' if st.mon['n'] else 'not at all although the timer is not cancelled'))


class Runs(B):
    """The posted closure executes the timer it holds."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0)

    def on_call(self, st, fr, call):
        if call.name == 'execute' and call.q.startswith(D + 'TimerState'): st.mon['n'] = min(2, st.mon['n'] + 1)

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['n'] == 1, st, fr, 'fire', 'executes once', None, 'the posted task does not execute the timer exactly once')


class Cancel(B):
    """Timer::cancel, destructor and move assignment."""

    def __init__(self, cx): self.cx = cx

    def init(self, st, fr):
        self.fn = fr.fn
        self.old = st.read(('f', ('f', THIS, 'state_'), '#p'))
        st.mon.update(c=False, rm=0, lk=None)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op in ('store', 'rmw') and loc == ('f', ('d', self.old), 'cancelled_') and v is not None and is_true(st, v): st.mon['c'] = True

    def on_ret(self, st, fr, call, v):
        if call.name == 'lock' and call.q.startswith('std::weak_ptr') and v[0] == 'lv': st.mon['lk'] = st.read(('f', v[1], '#p'))

    def on_call(self, st, fr, call):
        if call.q == TQ + '::remove_internal_timer':
            self.chk(self.ptr(st, call.args[0]) == self.old, st, fr, 'cancel', 'removes itself', call.line, 'asks for the removal of another timer')
            self.chk(st.mon['c'], st, fr, 'cancel', 'flag first', call.line, 'asks for the removal before the flag is up')
            st.mon['rm'] = 1

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        none = st.facts.truth(eq0(self.old)) is True
        rhs = ('prm', fr.fn.params[0]['name']) if fr.fn.params else None
        if rhs is not None and ret is not None:                        # assignment
            me = st.facts.truth(cmp('==', ('addr', THIS), ('addr', ('d', rhs))))
            same = st.read(('f', ('f', THIS, 'state_'), '#p')) == self.old and not st.mon['c']
            if same:
                self.chk(self.selfassign(st, rhs), st, fr, 'cancel', 'assignment keeps only itself', None, 'a move assignment keeps the old timer'); return
            now = st.read(('f', ('f', THIS, 'state_'), '#p'))
            self.chk(now == ('ld', ('f', ('f', ('d', rhs), 'state_'), '#p')), st, fr, 'cancel', 'assignment takes the other', None, 'a move assignment does not take the other timer')
            r = st.read(('f', ('f', ('d', rhs), 'state_'), '#p'))
            self.chk(st.facts.truth(eq0(r)) is True, st, fr, 'cancel', 'the other is empty', None, 'after a move assignment both objects own the timer: it is cancelled when the first of them goes')
        else:
            self.chk(none or st.facts.truth(eq0(st.read(('f', ('f', THIS, 'state_'), '#p')))) is True or fr.fn.dtor, st, fr, 'cancel', 'empty afterwards', None, 'the timer is not empty after cancel')
        if none: return
        self.chk(st.mon['c'], st, fr, 'cancel', 'raises the flag', None, 'can return without having cancelled the timer')
        gone = st.mon['lk'] is not None and st.facts.truth(eq0(st.mon['lk'])) is True
        self.chk(st.mon['rm'] or gone, st, fr, 'cancel', 'asks for the removal', None, 'does not take the timer out of its queue: the queue keeps the callable')

    def selfassign(self, st, rhs):
        return any(f[0] in ('eq', 'eq0') and 'this' in repr(f) and rhs[1] in repr(f) for f in st.facts.s)


class Writers(B):
    def __init__(self, cx, fire): self.cx, self.fire = cx, fire
    def init(self, st, fr): self.fn = fr.fn

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op != 'load' and loc[0] == 'f' and loc[2] == 'cancelled_' and not fr.fn.ctor:
            self.chk(v is not None and is_true(st, v), st, fr, 'cancel', 'for good', line, 'lowers the flag of a cancelled timer: it can run again')

    def on_write(self, st, fr, loc, v, line, init=False):
        if loc and 'deadline_' in fields_of(loc) and not fr.fn.ctor:
            only = fr.fn.fid == self.fire or self.callers(fr.fn)
            self.chk(only, st, fr, 'round', 'deadline changes in fire only', line, 'changes the deadline of a timer that may be in the ordered set')

    def callers(self, fn):
        c = self.cx.p.callers().get(fn.fid, set())
        return bool(c) and c <= {self.fire}


class Empty(B):
    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        v = ('ld', ('f', ('f', THIS, 'state_'), '#p'))
        e = st.facts.truth(eq0(v))
        self.chk(e is not None and e == (how == 'throw'), st, fr, 'cancel', 'empty timers throw', None, 'an empty timer is not refused' if how != 'throw' else 'refuses a timer that is not empty')


class Ask(B):
    """The functions that queue a request."""

    def __init__(self, cx, kind, prm): self.cx, self.kind, self.prm = cx, kind, prm
    def init(self, st, fr):
        self.fn = fr.fn
        self.q = [p['name'] for p in fr.fn.params if 'shared_ptr' in p['t']]
        st.mon.update(n=0)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        loc = self.ref(st, loc)
        if loc[0] == 'f' and loc[2] == 'request_queue':
            if op in PUSH:
                st.mon['n'] = min(2, st.mon['n'] + 1)
                k = t = None
                if len(args) == 2: t, k = self.ptr(st, args[0]), models.rv(self.eng, st, fr, args[1])
                elif len(args) == 1 and args[0][0] == 'lv':
                    o = self.ref(st, args[0][1])
                    t, k = st.read(('f', ('f', o, 'first'), '#p')), st.read(('f', o, 'second'))
                    if k[0] == 'ref': k = st.read(k[1])
                self.chk(k is not None and is_c(k) and k[1] == self.kind, st, fr, 'requests', 'asks for the right thing', call.line, 'queues the wrong kind of request')
                ok = t is not None and any(t == self.prmptr(st, x) for x in self.q)
                self.chk(ok, st, fr, 'requests', 'for the given timer', call.line, 'queues a request for another timer than the given one')
                self.chk(how_back(kw.get('how'), op), st, fr, 'requests', 'at the end', call.line, 'queues a request in front of earlier ones')
            elif op in ('clear', 'erase', 'pop', 'assign'): self.chk(False, st, fr, 'requests', 'keeps the others', call.line, 'drops queued requests')

    def prmptr(self, st, nm): return ('ld', ('f', ('d', ('prm', nm)), '#p'))

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        if how == 'throw':
            self.chk(st.mon['n'] == 0, st, fr, 'requests', 'refused, not queued', None, 'throws although the request is queued'); return
        self.chk(st.mon['n'] == 1, st, fr, 'requests', 'queued once', None, 'returns having queued %d requests' % st.mon['n'])


def how_back(how, op): return how in ('push_back', 'emplace_back', 'push', 'emplace') or op in ('append',)


class Make(B):
    """make_timer, make_one_shot_timer, make_delay_object down to the queue."""

    def __init__(self, cx): self.cx = cx

    def init(self, st, fr):
        self.fn = fr.fn
        self.ex = next((p['name'] for p in fr.fn.params if 'executor::Basic' in p['t']), None)
        self.freq = next((p['name'] for p in fr.fn.params if p['name'].startswith('freq')), None)
        st.mon.update(add=0, made=0, nul=False)

    def on_call(self, st, fr, call):
        q = call.q or ''
        if q == TQ + '::make_timer_impl':
            st.mon['made'] = min(2, st.mon['made'] + 1)
            due, fq, ex, one_ = (models.rv(self.eng, st, fr, a) if i != 2 else None for i, a in enumerate(call.args[:4]))
            if self.ex:
                p0 = ('ld', ('f', ('d', ('prm', self.ex)), '#p'))
                self.chk(st.facts.truth(eq0(p0)) is False, st, fr, 'make', 'refuses no executor', call.line, 'makes a timer without having found that the executor is not null')
                self.chk(self.ptr(st, call.args[2]) == p0, st, fr, 'make', 'the given executor', call.line, 'makes a timer with another executor than the given one')
            want = [('ld', ('f', ('d', ('prm', p['name'])), models.TM)) for p in self.fn.params if 'duration' in p['t']]
            if want:
                self.chk(strip_cast(due) == want[0], st, fr, 'make', 'the given due time', call.line, 'the due time is not the given one')
                if len(want) > 1: self.chk(strip_cast(fq) == want[1], st, fr, 'make', 'the given frequency', call.line, 'the frequency is not the given one')
            rep = len(want) > 1
            if self.ex or want:
                self.chk(is_c(one_) and bool(one_[1]) == (not rep), st, fr, 'make', 'one-shot or not', call.line, 'a %s timer is made as a %s one' % (('repeating', 'one-shot') if rep else ('one-shot', 'repeating')))

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['made'] == 1, st, fr, 'make', 'one timer', None, 'makes %d timers' % st.mon['made'])
        if how == 'throw': self.chk(st.mon['made'] == 0, st, fr, 'make', 'none when refused', None, 'throws although the timer was made')


def strip_cast(v):
    while v is not None and v[0] == 'cast': v = v[2]
    return v


class Impl(B):
    """make_timer_impl: one state, given to add_timer once, under the lock, and returned."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0, arg=None)

    def on_call(self, st, fr, call):
        if call.q == TQ + '::add_timer':
            st.mon['n'] = min(2, st.mon['n'] + 1)
            st.mon['arg'] = self.ptr(st, call.args[1])
            self.chk(bool(st.locks), st, fr, 'make', 'under the lock', call.line, 'queues the timer without the lock')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        self.chk(st.mon['n'] == 1, st, fr, 'make', 'queued once', None, 'queues the timer %d times' % st.mon['n'])
        if ret is not None and ret[0] == 'lv': self.chk(self.ptr(st, ret) == st.mon['arg'], st, fr, 'make', 'the queued one is returned', None, 'returns another timer than the queued one')


class Ctor(B):
    WANT = (('due_time_', 'due_time'), ('frequency_', 'frequency'), ('is_oneshot_', 'is_oneshot'))

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; self.at = {}

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        ps = fr.fn.params
        ints = [p for p in ps if re.match(r'(const )?(unsigned long|size_t|std::size_t)$', p['t'])]
        bools = [p for p in ps if p['t'].replace('const ', '') == 'bool']
        if len(ints) < 2 or len(bools) != 1: raise AnalysisError('constructor of the timer state has another form')
        due = ('prm', ints[0]['name'])
        d = tm(st, ('f', THIS, 'deadline_'))
        dv = st.read(due) if st.has(due) else ('ld', due)
        ok = any(is_now_plus(d, scale(x, 10 ** 6)) for x in self.forms(st, ints[0]['name']))
        self.chk(ok, st, fr, 'make', 'first deadline', None, 'the first deadline is not the current time plus the due time')
        for f, p in (('due_time_', ints[0]), ('frequency_', ints[1]), ('is_oneshot_', bools[0])):
            v = st.read(('f', THIS, f))
            self.chk(strip_cast(v) in self.forms(st, p['name']) or v in self.forms(st, p['name']), st, fr, 'make', 'keeps ' + p['name'], None, '%s is not the given %s' % (f, p['name']))
        self.chk(is_false(st, field(st, THIS, 'cancelled_')), st, fr, 'make', 'not cancelled', None, 'a new timer is cancelled')

    def forms(self, st, n):
        b = [('prm', n), ('ld', ('prm', n)), st.read(('prm', n))]
        return b + [('cast', -64, x) for x in b] + [('cast', 64, x) for x in b]


class Kept(B):
    """The constructor of the typed state: an lvalue callable is not moved from."""

    def __init__(self, cx, lv): self.cx, self.lv = cx, lv
    def init(self, st, fr): self.fn = fr.fn

    def on_move(self, st, fr, src, dst, line):
        if self.lv and loc_root(self.ref(st, src)) == ('d', ('prm', self.fn.params[-1]['name'])): self.chk(False, st, fr, 'callable', 'copied from a named callable', line, "moves the caller's callable away although it was given by name: another timer made from it has nothing to call")

    def on_call(self, st, fr, call):
        if self.lv and call.node.get('cc') == 'move' and call.obj is not None and any(a[0] == 'lv' and loc_root(self.ref(st, a[1])) == ('d', ('prm', self.fn.params[-1]['name'])) for a in call.args):
            self.chk(False, st, fr, 'callable', 'copied from a named callable', call.line, "moves the caller's callable away although it was given by name: another timer made from it has nothing to call")

    def on_finish(self, st, fr, ret, how): self.cx.ok('callable', '%s: copied from a named callable' % sig(fr.fn))


def run(cx):
    p = cx.p
    cls = [r for r in p.records.values() if any(PTR in f['t'] and re.match(r'std::(multi)?set<', f['t']) for f in r['fields'])]
    if len(cls) != 1: raise AnalysisError('no single class with an ordered set of timers')
    rec = cls[0]
    cq = strip_t(rec['q'])
    set_ = [f['name'] for f in rec['fields'] if re.match(r'std::(multi)?set<', f['t']) and PTR in f['t']][0]
    maps = [f['name'] for f in rec['fields'] if re.match(r'std::(unordered_)?map<' + re.escape(PTR), f['t'])]
    if len(maps) != 1: raise AnalysisError('no index beside the ordered set of timers')
    map_ = maps[0]
    FQ = {cq + '::' + set_, cq + '::' + map_}
    mine = [f for f in p.all() if f.scls == cq and f.blocks and not f.nocfg and not f.ctor and not f.dtor]
    tsmall = lambda fn: fn.sq.startswith((TS + '::', cq + '::', D + 'deadline')) and fn.sq != TS + '::fire' or small(fn) and not any(y in fn.file for y in NOISE) and not fn.sq.startswith(E)
    callers = p.callers()
    ids = {f.fid for f in mine}

    def eng(r, inl=tsmall, **kw):
        e = cx.engine([r], inline=inl, max_steps=400000, merge_at=12, **kw)
        e.iter_idx = e.prune = e.chrono = e.nodes = True
        return e
    # firing only from the functions judged here
    for f in p.all():
        if any(n and n.get('q') == TS + '::fire' for n in f.nodes):
            cx.check(f.fid in ids or f.lambda_ and f.sq.startswith(cq), 'due', 'fired by the queue only: ' + sig(f), f.where(), '%s fires a timer past the queue' % sig(f))
    fires = reaching(p, lambda fn: any(n and n.get('q') == TS + '::fire' for n in fn.nodes))
    takes = [f for f in mine if any('request' in q['t'].lower() or 'TimerRequest' in q['t'] for q in f.params)]
    queued = lambda fn: any('TimerRequest' in q['t'] for q in fn.params)
    n = 0
    for f in mine:
        own = callers.get(f.fid, set()) & ids
        if f.fid in fires and queued(f) or f.fid in fires and not own:
            # the requests are judged by themselves
            deny = {g.fid for g in mine if queued(g) and g.fid not in fires}
            cx.run(eng(Rounds(cx, cq, set_, map_), inl=lambda fn: fn.fid not in deny and tsmall(fn)), f); n += 1
        elif queued(f) and f.fid not in fires:
            e = eng(Requests(cx, cq, set_, map_), invs=[lambda st: ge0(sub(st.read(('f', st.mon['q'], '#size')), st.mem.get(Requests.N, FALSE)))])
            cx.run(e, f); n += 1
    if not any(queued(f) and f.fid not in fires for f in mine):
        for f in mine:
            if queued(f): cx.run(eng(Requests(cx, cq, set_, map_)), f)
    for f in mine:
        if len(f.params) == 1 and PTR in f.params[0]['t'] and mentions_field(f, FQ) and 'pair' not in f.params[0]['t']:
            er = any(n_ and (n_.get('q') or '').endswith('::erase') for n_ in f.nodes)
            if er: cx.run(eng(Found(cx, cq, set_, map_)), f)
            else: cx.run(eng(Rounds(cx, cq, set_, map_)), f)
            n += 1
    if n < 2: raise AnalysisError('no functions of the timer queue found')
    # the thread
    I = TQ + '::Impl'
    proc = [f for f in mine if queued(f) and 'time_point' in (f.ret or '')]
    if len(proc) != 1: raise AnalysisError('no function that processes the timers')
    loops = [f for f in p.all() if f.sq.startswith(I + '::') and f.blocks and not f.lambda_ and any(n_ and n_.get('q') == proc[0].sq for n_ in f.nodes)]
    for f in loops:
        sh = Shared({m: ('request_queue', 'abort') for m in ('lock',)})
        e = cx.engine([sh, Loop(cx, cq, proc[0].sq)], inline=lambda fn: fn.lambda_ and fn.sq.startswith(I) or fn.scls == I, max_steps=400000, merge_at=12)
        e.iter_idx = e.prune = e.chrono = True
        cx.run(e, f)
    if not loops: raise AnalysisError('nobody processes the timers')
    # the timers
    r = Fire(cx); r.clos = set()
    e = cx.engine([r], inline=lambda fn: fn.sq.startswith(TS + '::'), max_steps=60000, may_throw=lambda cl, fr: bool(re.match(re.escape(E) + r'Basic::(post|do_post|enqueue|submit)$', cl.q or '')))
    e.chrono = True
    cx.run(e, p.one(TS + '::fire'))
    for q in r.clos:
        fn = p.closure(q)
        if fn is not None:
            cx.run(cx.engine([Runs(cx)], inline=lambda fn: False), fn)
    if not r.clos: cx.bad('fire', 'a closure is posted', p.one(TS + '::fire').where(), 'no closure is posted')
    ex = [f for f in p.all() if f.name == 'execute' and f.sq.startswith(D + 'TimerState') and f.blocks]
    for f in ex: cx.run(cx.engine([Execute(cx)], inline=lambda fn: fn.sq.startswith((TS + '::', D + 'TimerState::'))), f)
    # the flag only goes up, the deadline changes in fire only
    fid = p.one(TS + '::fire').fid
    for f in p.all():
        if not f.sq.startswith('plain::') or not f.blocks or f.nocfg or not mentions_field(f, {TS + '::cancelled_', TS + '::deadline_'}): continue
        cx.run(cx.engine([Writers(cx, fid)], inline=lambda fn: False, max_steps=60000), f)
    for f in p.all():
        if f.scls == 'plain::Timer' and f.blocks and re.match(r'(get|set)_', f.name):
            cx.run(cx.engine([Empty(cx)], inline=lambda fn: fn.sq.startswith('plain::Timer::'), max_steps=60000), f)
    for nm in ('plain::Timer::cancel', 'plain::Timer::~Timer', 'plain::Timer::operator='):
        f = p.one(nm)
        e = cx.engine([Cancel(cx)], inline=lambda fn: fn.sq.startswith(('plain::Timer::', TS + '::')), max_steps=60000)
        e.prune = True
        cx.run(e, f)
    for nm, kind in ((TQ + '::remove_internal_timer', 1), (TQ + '::add_timer', 0)):
        e = cx.engine([Ask(cx, kind, None)], inline=lambda fn: fn.sq.startswith(TQ + '::') and 'ensure' not in fn.name, max_steps=60000)
        cx.run(e, p.one(nm))
    ms = [f for f in p.all() if f.sq.startswith(TQ + '::make_') and f.sq != TQ + '::make_timer_impl' and f.blocks and any(n_ and n_.get('q') == TQ + '::make_timer_impl' for n_ in f.nodes)]
    for f in ms:
        e = cx.engine([Make(cx)], inline=lambda fn: False, max_steps=60000); e.chrono = True
        cx.run(e, f)
    for f in p.all():
        if f.sq == TQ + '::make_timer_impl' and f.blocks:
            cx.run(cx.engine([Impl(cx)], inline=lambda fn: fn.sq == TQ + '::get_lock', max_steps=60000), f)
    e = cx.engine([Ctor(cx)], inline=lambda fn: fn.sq.startswith(TS + '::'), max_steps=60000); e.chrono = True
    for f in [f for f in p.all() if f.sq == TS + '::TimerStateBasic' and f.params and len(f.params) > 2 and f.blocks]: cx.run(e, f)
    for f in p.all():
        if f.sq == D + 'TimerState::TimerState' and f.blocks and len(f.params) >= 6:
            t = f.params[-1]['t']
            cx.run(cx.engine([Kept(cx, not t.rstrip().endswith('&&'))], inline=lambda fn: False, max_steps=60000), f)
