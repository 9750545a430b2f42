"""Results: published once, delivered to whoever waits, freed once."""
from ..execs import *
from .. import models
from .c16 import sig
from .c19 import zero, THIS

RULE = ('Abstract execution of every function of the result states with the status word as the only thing both sides share. '
        'Consumer side: the functions that register a waiter write its context before the compare-and-swap that announces it and never after; each reports "registered" exactly on the '
        'paths where the swap succeeded, and "done" exactly where an acquiring load or a failed strong swap showed the producer done; blocking waits return only then; a timed wait that gives up takes its '
        'announcement back first; a rewound consumer is cleared only after it was taken back and otherwise waits until the producer has read it. '
        'Producer side: the value or exception is complete before the one exchange that publishes it, and for each old status exactly one reaction follows: resume, wake, free or '
        'nothing, with no further access to a state the other side may free. Who frees: exactly one of producer and consumer, on every path once. '
        'when_any: the context moves from processing to one completed result or to done-processing; the thread that moves it from done-processing resumes the coroutine, nobody else. '
        'Shared results: a waiter is linked before it is announced, told "ready" only when it is, and each linked waiter is resumed once after the status is visible. '
        'A coroutine handed to an executor is resumed exactly once: by the call, or by the destructor with the interruption visible first.')
LEVEL = 'proof'
ASSUMES = ['one consumer and one producer per state (the pointers are unique, C20 shows who holds them); std::atomic and futex as documented',
           'the two marks of when_any (processing, done-processing) differ from each other and from every state',
           'a coroutine frame is not destroyed while it is suspended in an await']
MIN = {'register': 3, 'wait': 3, 'rewind': 1, 'publish': 2, 'free': 3, 'value': 4, 'promise': 4, 'any': 4, 'shared': 4, 'resume': 4, 'writers': 5}
D = 'plain::concurrency::result::detail::'
SB, ST = D + 'StateBasic', D + 'State'
ACQ = ('acquire', 'acq_rel', 'seq_cst', 'consume')
H = 'std::coroutine_handle'


def calls_resume(q): return q in (H + '::operator()', H + '::resume')


class B:
    def chk(self, ok, st, fr, rule, what, line, msg):
        if not ok and st.facts.infeasible(): return
        self.cx.check(bool(ok), rule, '%s: %s' % (sig(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (sig(fr.fn), msg), st.trace_list())

    def ref(self, st, loc):
        for _ in range(5):
            v = st.mem.get(loc) if loc else None
            if v is not None and v[0] == 'ref': loc = v[1]
            else: break
        return loc


def feas(st, a):
    f = st.facts.assume(a)
    return f is not None and not f.infeasible()


def eqv(a, b): return eq0(sub(a, b))


def ne(st, a, b):
    """a != b is certain"""
    return not feas(st, eqv(a, b))


def under(loc, base):
    while loc and loc != base and loc[0] in ('f', 'i'): loc = loc[1]
    return loc == base


class Names:
    def __init__(self, p):
        def fld(cls, rx, what):
            r = p.record(cls)
            if r is None: raise AnalysisError('anchor vanished: class ' + cls)
            c = [f['name'] for f in r['fields'] if re.search(rx, f['t'])]
            if len(c) != 1: raise AnalysisError('anchor vanished: %s of %s' % (what, cls))
            return c[0]
        self.ps = fld(SB, r'^std::atomic<.*ProcessStatus>', 'status')
        self.cx = fld(SB, r'ConsumerContext$', 'consumer')
        self.dh = fld(SB, r'coroutine_handle', 'frame')
        self.cs = fld(D + 'ConsumerContext', r'ConsumerStatus$', 'kind of consumer')
        r = p.record(D + 'ConsumerContext')
        self.tk = [f['name'] for f in r['fields'] if re.search(r'^std::atomic<bool>', f['t'])]
        self.E = p.enums[D + 'ProcessStatus'] if D + 'ProcessStatus' in p.enums else None
        self.K = p.enums.get(D + 'ConsumerStatus')
        if not self.E or not self.K: raise AnalysisError('anchor vanished: the status enumerations')
        self.idle, self.set, self.waiting, self.cdone, self.pdone = (c(self.E[x]) for x in ('Idle', 'ConsumerSet', 'ConsumerWaiting', 'ConsumerDone', 'ProducerDone'))
        self.PS, self.CX, self.DH = ('f', THIS, self.ps), ('f', THIS, self.cx), ('f', THIS, self.dh)


class Consumer(B):
    """The consumer's functions."""

    def __init__(self, cx, n, role): self.cx, self.n, self.role = cx, n, role

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(ld=(), reg=False, wait=False, done=False, ctx=False, back=False, fin=0, tk=(), cas=None)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        n = self.n
        if loc == n.PS:
            if op == 'load':
                if order in ACQ and res not in st.mon['ld']: st.mon['ld'] = st.mon['ld'] + (res,)
            elif op == 'cas':
                fo = kw.get('forder')
                st.mon['cas'] = (call.name != 'compare_exchange_weak', order in ('acq_rel', 'seq_cst', 'release'), (fo or order) in ACQ)
            else: self.chk(False, st, fr, 'writers', 'the consumer announces itself by compare-and-swap', line, 'overwrites the status of a result: a value published meanwhile is lost')
        elif len(loc) > 2 and under(loc, n.CX) and loc[2] in n.tk and op == 'load' and order in ACQ: st.mon['tk'] = st.mon['tk'] + (res,) if res not in st.mon['tk'] else st.mon['tk']

    def on_casok(self, st, fr, loc, exp, v, line):
        n = self.n
        if loc != n.PS: return
        m = st.mon
        e = next((x for x in (n.idle, n.set, n.waiting, n.cdone, n.pdone) if zero(st.facts, sub(exp, x))), None)
        t = next((x for x in (n.idle, n.set, n.waiting, n.cdone, n.pdone) if zero(st.facts, sub(v, x))), None)
        okt = (e, t) in ((n.idle, n.set), (n.idle, n.waiting), (n.waiting, n.idle), (n.set, n.idle))
        self.chk(okt, st, fr, 'writers', 'transitions of the consumer', line, 'moves the status of a result from %s to %s: the producer does not answer that' % (self.nm(e), self.nm(t)))
        if not okt: return
        if t == n.set:
            self.chk(m['ctx'], st, fr, 'register', 'context before announcement', line, 'announces a waiter before its context is there: the producer resumes nothing')
            self.chk(m['cas'][1], st, fr, 'register', 'announcement releases the context', line, 'announces a waiter without releasing its context to the producer')
            m['reg'] = True
        elif t == n.waiting: m['wait'] = True
        elif e == n.waiting: m['wait'] = False
        else: m['back'] = True; m['reg'] = False
        m['ld'] = (); m['done'] = False

    def nm(self, x): return next((k for k, y in self.n.E.items() if x == c(y)), '?')

    def on_casfail(self, st, fr, loc, exp, v, line, res):
        if loc == self.n.PS and st.mon['cas'][0] and st.mon['cas'][2]:
            st.mon['done'] = True   # the producer's exchange is the only other writer
            f = st.facts.assume(eqv(res, self.n.pdone))
            if f is not None: st.facts = f

    def on_write(self, st, fr, loc, v, line, init):
        n, m = self.n, st.mon
        if not under(loc, n.CX) or loc[-1] in n.tk: return
        if self.role == 'rewind':
            self.chk(m['back'], st, fr, 'rewind', 'cleared only after it was taken back', line, 'changes the context of a waiter the producer may be about to resume')
        else:
            self.chk(not m['reg'], st, fr, 'register', 'context not touched after the announcement', line, 'changes the context of a waiter after it was announced')
        if loc == ('f', n.CX, n.cs):
            m['ctx'] = not zero(st.facts, sub(v, c(n.K['Idle'])))

    def known(self, st):
        n, m = self.n, st.mon
        return m['done'] or any(zero(st.facts, sub(r, n.pdone)) or m['wait'] and ne(st, r, n.waiting) for r in m['ld'])

    def on_call(self, st, fr, call):
        if call.q and call.q.endswith('::on_finished') and call.q.startswith(D):
            self.chk(self.known(st) and not st.mon['reg'], st, fr, 'register', 'told at once only when done', call.line, 'tells a shared result that it is ready although the producer is not known to be done')
            st.mon['fin'] = min(2, st.mon['fin'] + 1)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        n, m, role = self.n, st.mon, self.role
        kn = self.known(st)
        if role in ('await', 'any', 'share'):
            self.chk(m['reg'] or kn, st, fr, 'register', 'registered or done', None, 'returns although the waiter is neither announced nor the producer done: nobody ever resumes it')
            if role == 'await':
                self.chk(is_true(st, ret) if m['reg'] else is_false(st, ret), st, fr, 'register', 'suspends iff registered', None,
                         'does not suspend although the producer will resume it' if m['reg'] else 'suspends although the producer is done and will not resume it')
            if role == 'any':
                self.chk(ne(st, ret, n.pdone) if m['reg'] else zero(st.facts, sub(ret, n.pdone)), st, fr, 'register', 'reports done iff not registered', None,
                         'reports done although it is registered' if m['reg'] else 'reports that it is registered although the producer is done: nobody ever resumes when_any')
            if role == 'share':
                self.chk(m['fin'] == (0 if m['reg'] else 1), st, fr, 'register', 'told at once iff not registered', None,
                         'tells a shared result that it is ready that the producer will tell again' if m['reg'] else 'does not tell the shared result that it is ready, and the producer will not either')
            if role != 'await' and not m['reg'] and n.tk:
                self.chk(not m['ctx'], st, fr, 'rewind', 'no context left that nobody takes', None, 'leaves a context behind that no producer will read: taking it back waits forever')
        elif role == 'wait':
            self.chk(kn, st, fr, 'wait', 'returns only when done', None, 'returns although the producer is not known to be done')
        elif role == 'wait_for':
            d = zero(st.facts, sub(ret, n.pdone))
            if d: self.chk(kn, st, fr, 'wait', 'reports done only when done', None, 'reports done although the producer is not known to be done')
            else:
                self.chk(not m['wait'], st, fr, 'wait', 'takes the announcement back', None, 'gives up waiting but stays announced as a waiting thread: the next wait on the result finds no idle state')
                self.chk(zero(st.facts, sub(ret, n.idle)), st, fr, 'wait', 'done or idle', None, 'reports neither done nor idle')
        elif role == 'rewind':
            if m['back']: self.chk(not m['ctx'] and zero(st.facts, sub(st.read(('f', n.CX, n.cs)), c(n.K['Idle']))), st, fr, 'rewind', 'cleared when taken back', None, 'takes a waiter back but leaves its context: the next registration overwrites a live one'); return
            idle = any(ne(st, r, n.set) and ne(st, r, n.pdone) for r in m['ld'])
            k = st.read(('f', n.CX, n.cs))
            gone = any(is_true(st, r) for r in m['tk']) or all(ne(st, k, c(n.K[x])) for x in ('WhenAny', 'Shared'))
            self.chk(idle or kn, st, fr, 'rewind', 'taken back, never there, or done', None, 'returns although the waiter may still be registered')
            if kn and not idle: self.chk(gone, st, fr, 'rewind', 'waits until the producer has read the context', None,
                                         'returns while the producer may still read who waits: the caller frees the state under it')


class Producer(B):
    """The ends of a state: publish, drop, free."""

    def __init__(self, cx, n, role): self.cx, self.n, self.role = cx, n, role

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(ex=None, res=0, note=0, free=0, dh=False, rest=False)

    def on_write(self, st, fr, loc, v, line, init):
        if loc == self.n.DH and not init: st.mon['dh'] = True

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        n = self.n
        if loc != n.PS or op == 'load': return
        want = {'produce': n.pdone, 'consume': n.cdone}.get(self.role)
        ok = op == 'rmw' and not kw.get('rmw') and want is not None and zero(st.facts, sub(v, want)) and st.mon['ex'] is None
        self.chk(ok, st, fr, 'publish', 'one exchange', line, 'changes the status of a result other than by one exchange to its final value')
        self.chk(order in ('acq_rel', 'seq_cst'), st, fr, 'publish', 'exchange acquires and releases', line, 'publishes without acquire and release: the other side may read a value that is not there yet')
        if self.role == 'produce': self.chk(st.mon['dh'], st, fr, 'publish', 'frame known before it is published', line, 'publishes the result before the frame that holds it is known: the consumer frees the wrong thing')
        st.mon['ex'] = res

    def on_member(self, st, fr, loc, q, line, node, nid):
        r, n = st.mon['ex'], self.n
        if not under(loc, THIS): return
        if st.mon['free']: self.chk(False, st, fr, 'free', 'not used after it was freed', line, 'uses a state it has freed'); return
        if r is None: return
        f = any(feas(st, eqv(r, x)) for x in ((n.idle,) if self.role == 'produce' else (n.idle, n.set, n.waiting)))
        self.chk(not f, st, fr, 'free', 'not used once the other side may free it', line, 'uses the state after handing it over: the other side may have freed it')

    def on_call(self, st, fr, call):
        q, m = call.q or '', st.mon
        if q == D + 'ConsumerContext::resume_consumer' and call.obj == self.n.CX: m['res'] = min(2, m['res'] + 1)
        elif q.endswith('::atomic_notify_all') and any(a == ('lv', self.n.PS) for a in call.args): m['note'] = 1
        elif q == H + '::destroy': m['free'] = min(2, m['free'] + 1)

    def on_notify(self, st, fr, cv, all, line, **kw):
        if cv == self.n.PS and all: st.mon['note'] = 1

    def on_delete(self, st, fr, ptr, line): st.mon['free'] = min(2, st.mon['free'] + 1)

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        n, m = self.n, st.mon
        w = {c(v): k for k, v in n.E.items()}
        if self.role == 'joined':
            self.chk(m['free'] == 1, st, fr, 'free', 'freed once', None, 'frees the state %d times after the value was taken' % m['free']); return
        self.chk(m['ex'] is not None, st, fr, 'publish', 'published on every path', None, 'does not publish that this side is done')
        if m['ex'] is None: return
        for x in ((n.idle, n.set, n.waiting, n.cdone) if self.role == 'produce' else (n.idle, n.pdone)):
            if not feas(st, eqv(m['ex'], x)): continue
            if self.role == 'produce':
                self.chk(m['res'] == (1 if x == n.set else 0), st, fr, 'publish', 'old status %s: resumes %s' % (w[x], 'the waiter once' if x == n.set else 'nobody'), None,
                         'resumes the consumer %d times when the old status is %s' % (m['res'], w[x]))
                if x == n.waiting: self.chk(m['note'], st, fr, 'publish', 'old status ConsumerWaiting: wakes the thread', None, 'does not wake the thread that waits for the result')
                self.chk(m['free'] == (1 if x == n.cdone else 0), st, fr, 'free', 'producer, old status %s: %s' % (w[x], 'frees once' if x == n.cdone else 'does not free'), None,
                         'frees the state %d times when the old status is %s' % (m['free'], w[x]))
            else:
                self.chk(m['free'] == (1 if x == n.pdone else 0), st, fr, 'free', 'consumer, old status %s: %s' % (w[x], 'frees once' if x == n.pdone else 'does not free'), None,
                         'frees the state %d times when the old status is %s' % (m['free'], w[x]))


class Frees(B):
    """Frame or heap object."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(f=())

    def frame(self, st):
        for f in st.facts.s:
            pos = f[0] == 'not'
            g = f[1] if pos else f
            if g[0] == 'eq0' and g[1][0] == 'call' and g[1][1] == H + '::operator bool': return pos
        return None

    def on_call(self, st, fr, call):
        if call.q == H + '::destroy':
            st.mon['f'] = st.mon['f'] + ('frame',)
            self.chk(self.frame(st) is True, st, fr, 'free', 'a frame is destroyed only if there is one', call.line, 'destroys a coroutine frame that may not be there')

    def on_delete(self, st, fr, ptr, line):
        st.mon['f'] = st.mon['f'] + ('heap',)
        self.chk(self.frame(st) is False, st, fr, 'free', 'deleted only if it is no part of a frame', line, 'deletes a state that is part of a coroutine frame')

    def on_finish(self, st, fr, ret, how):
        if how != 'noret': self.chk(len(st.mon['f']) == 1, st, fr, 'free', 'one of frame and object', None, 'frees %s' % (st.mon['f'],))


class Calls(B):
    """fn calls `want` exactly once on every normal path (and nothing of `other`)."""

    def __init__(self, cx, rule, want, what, args=None, other=()): self.cx, self.rule, self.want, self.what, self.args, self.other = cx, rule, want, what, args, other
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0, o=0)

    def on_call(self, st, fr, call):
        if call.q == self.want:
            st.mon['n'] = min(2, st.mon['n'] + 1)
            if self.args and not self.args(self, st, call): self.chk(False, st, fr, self.rule, self.what, call.line, 'passes something else on')
        elif call.q in self.other: st.mon['o'] = 1

    def on_finish(self, st, fr, ret, how):
        if how == 'noret' or how == 'throw' and not st.mon['n']: return
        self.chk(st.mon['n'] == 1 and not st.mon['o'], st, fr, self.rule, self.what, None, '%s: happens %d times' % (self.what, st.mon['n']))


class Resume(B):
    """The producer resumes the registered consumer."""

    def __init__(self, cx, n): self.cx, self.n = cx, n
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(h=0, a=0, s=0, tk=False, lock=None)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc[0] == 'f' and loc[1] == THIS and loc[2] in self.n.tk and op in ('store', 'rmw'):
            self.chk(order in ('release', 'acq_rel', 'seq_cst'), st, fr, 'resume', 'taken is released', line, 'lets the consumer go on without release')
            st.mon['tk'] = True

    def on_member(self, st, fr, loc, q, line, node, nid):
        if under(loc, THIS) and st.mon['tk'] and not (loc[0] == 'f' and loc[2] in self.n.tk): self.chk(False, st, fr, 'resume', 'context read before it is given up', line, 'reads the context of the consumer after letting it go on: it may have been freed')

    def on_call(self, st, fr, call):
        m, q = st.mon, call.q or ''
        if calls_resume(q): m['h'] = min(2, m['h'] + 1)
        elif q == D + 'WhenAnyContext::try_resume':
            m['a'] = min(2, m['a'] + 1)
            me = [a for a in call.args if a[0] == 'lv']
            ok = me and self.ref(st, me[0][1]) == ('d', ('prm', self.fn.params[0]['name']))
            self.chk(ok, st, fr, 'resume', 'when_any learns which result', call.line, 'reports another result as the completed one')
            if self.n.tk: self.chk(m['tk'], st, fr, 'resume', 'taken before foreign code runs', call.line, 'runs the code of the consumer before letting the others go on')
        elif q.endswith('::on_finished'): m['s'] = min(2, m['s'] + 1)
        elif q.endswith('weak_ptr::lock'): m['lock'] = True

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        m, n = st.mon, self.n
        k = st.read(('f', THIS, n.cs))
        for nm, want in (('Idle', (0, 0, 0)), ('Await', (1, 0, 0)), ('WhenAny', (0, 1, 0)), ('Shared', (0, 0, None))):
            if not feas(st, eqv(k, c(n.K[nm]))): continue
            s = m['s'] if want[2] is not None else None
            self.chk((m['h'], m['a'], s) == want, st, fr, 'resume', 'consumer of kind ' + nm, None, 'does not resume a consumer of kind %s exactly once' % nm)
            if nm == 'Shared':
                # an expired shared result needs no notice
                alive = any(f[0] == 'not' and f[1][0] == 'eq0' and self.islock(f[1][1]) for f in st.facts.s)
                dead = any(f[0] == 'eq0' and self.islock(f[1]) for f in st.facts.s)
                self.chk(m['lock'] and m['s'] == (0 if dead else 1) and (alive or dead), st, fr, 'resume', 'a live shared result is told once', None, 'does not tell a live shared result exactly once that it is ready')
            if nm in ('WhenAny', 'Shared') and n.tk: self.chk(m['tk'], st, fr, 'resume', 'lets a %s consumer go on' % nm, None, 'never tells the consumer that its context was read: taking it back waits forever')

    def islock(self, v):
        def has(x): return isinstance(x, tuple) and (bool(x) and x[0] == 'lk8' or any(has(y) for y in x))
        return has(v)


class Value(B):
    """The value or exception inside a state."""

    def __init__(self, cx, role, RS, obj): self.cx, self.role, self.RS, self.obj = cx, role, RS, obj

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(b=(), d=(), re=0)
        S = ('f', THIS, self.obj['status'])
        self.S = S
        if self.role in ('result', 'exception'):
            f = st.facts.assume(eq0(sub(st.read(S), c(self.RS['Idle']))))
            if f is not None: st.facts = f

    def part(self, st, loc):
        loc = self.ref(st, loc)
        while loc and loc[0] == 'f':
            if loc[1] == ('f', THIS, self.obj['storage']): return loc[2]
            loc = loc[1]
        return None

    def on_new(self, st, fr, ptr, placement, at, line):
        for a in placement or ():
            if a[0] in ('addr', 'lv'):
                k = self.part(st, a[1])
                if k: st.mon['b'] = st.mon['b'] + (k,)

    def on_write(self, st, fr, loc, v, line, init):
        k = self.part(st, loc)
        if k and k not in st.mon['b']: st.mon['b'] = st.mon['b'] + (k,)
        if loc == self.S and not init:
            want = {'result': 'Value', 'exception': 'Exception'}.get(self.role)
            if want is None: self.chk(False, st, fr, 'value', 'status written by the builders only', line, 'changes what a result holds'); return
            need = self.obj['value'] if want == 'Value' else self.obj['exc']
            self.chk(zero(st.facts, sub(v, c(self.RS[want]))), st, fr, 'value', 'records what was stored', line, 'records something else than what it stored')
            if need: self.chk(need in st.mon['b'], st, fr, 'value', 'stored before it is recorded', line, 'records a %s before it is stored: if storing it fails, a destructor runs on garbage' % want.lower())

    def on_call(self, st, fr, call):
        q = call.q or ''
        if '~' in q.rsplit('::', 1)[-1] and call.obj is not None:
            k = self.part(st, call.obj)
            if k: st.mon['d'] = st.mon['d'] + (k,)
        elif q == 'std::rethrow_exception': st.mon['re'] = 1

    def on_finish(self, st, fr, ret, how):
        if how == 'noret' and not st.mon['re']: return
        k = st.read(self.S)
        o, m = self.obj, st.mon
        if self.role in ('result', 'exception'):
            if how == 'ret': self.chk(zero(st.facts, sub(k, c(self.RS['Value' if self.role == 'result' else 'Exception']))), st, fr, 'value', 'recorded', None, 'returns without recording what is stored')
            return
        for nm in ('Idle', 'Value', 'Exception'):
            if not feas(st, eqv(k, c(self.RS[nm]))): continue
            if self.role == 'dtor':
                want = () if nm == 'Idle' else ((o['value'],) if o['value'] and o['dtor'] else ()) if nm == 'Value' else (o['exc'],)
                self.chk(m['d'] == want, st, fr, 'value', 'destroys what it holds: ' + nm, None, 'holding %s, it destroys %s' % (nm, m['d'] or 'nothing'))
            elif self.role == 'get' and nm != 'Idle':
                self.chk(bool(m['re']) == (nm == 'Exception'), st, fr, 'value', 'gives what it holds: ' + nm, None, 'rethrows when it holds a value' if m['re'] else 'returns a value although it holds an exception')


class Once(B):
    """A callable becomes a value or an exception."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(v=0, e=0, c=0)

    def on_call(self, st, fr, call):
        q = call.q or ''
        if q == ST + '::set_exception': st.mon['e'] = min(2, st.mon['e'] + 1)

    def on_ret(self, st, fr, call, v):
        if (call.q or '') == ST + '::set_result': st.mon['v'] = min(2, st.mon['v'] + 1)

    def on_usercall(self, st, fr, call): st.mon['c'] = min(2, st.mon['c'] + 1)

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        m = st.mon
        self.chk(how == 'ret', st, fr, 'promise', 'lets nothing out', None, 'lets the exception of a callable out instead of storing it')
        self.chk(m['v'] + m['e'] == 1, st, fr, 'promise', 'a value or an exception', None, 'stores %d values and %d exceptions' % (m['v'], m['e']))


class Promise(B):
    """The producer's handle."""

    def __init__(self, cx, role, fp, fc): self.cx, self.role, self.P, self.C = cx, role, ('f', THIS, fp), ('f', THIS, fc)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(set=0, pub=0, thrown=False, p0=st.read(('f', self.P, '#p')), c0=st.read(('f', self.C, '#p')), brk=False, mv=False)

    def on_call(self, st, fr, call):
        q = call.q or ''
        if q in (ST + '::set_result', ST + '::set_exception', ST + '::from_callable') and call.obj == ('d', st.mon['p0']):
            self.chk(not zero(st.facts, st.mon['p0']) and is_true(st, st.mon['p0']), st, fr, 'promise', 'used only when not empty', call.line, 'uses an empty promise')
            self.chk(not st.mon['pub'], st, fr, 'promise', 'stored before it is published', call.line, 'stores a result after publishing it')
            st.mon['set'] = min(2, st.mon['set'] + 1)
            if self.role == 'break': self.chk(q == ST + '::set_exception', st, fr, 'promise', 'a broken promise is an exception', call.line, 'breaks a promise with a value')

    def on_spreset(self, st, fr, loc, old, new, line):
        if loc == self.P and is_true(st, old): self.pub(st, fr, line)

    def pub(self, st, fr, line):
        st.mon['pub'] = min(2, st.mon['pub'] + 1)

    def on_dtor(self, st, fr, loc, t, line): pass

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        m = st.mon
        p, cc = m['p0'], m['c0']
        if self.role == 'set':
            if how == 'throw':
                self.chk(not m['pub'], st, fr, 'promise', 'nothing published when it throws', None, 'publishes a result it could not store'); return
            self.chk(is_true(st, p), st, fr, 'promise', 'an empty promise throws', None, 'accepts a result on an empty promise')
            self.chk(m['set'] == 1 and m['pub'] == 1, st, fr, 'promise', 'stored once and published once', None, 'stores the result %d times and publishes it %d times' % (m['set'], m['pub']))
            self.chk(zero(st.facts, st.read(('f', self.P, '#p'))), st, fr, 'promise', 'empty afterwards', None, 'stays usable after the result is set')
        elif self.role == 'break':
            must = feas(st, b_not(eq0(p))) and feas(st, eq0(cc)) and not is_false(st, p) and not is_true(st, cc)
            if is_true(st, p) and zero(st.facts, cc): self.chk(m['set'] == 1 and m['pub'] == 1, st, fr, 'promise', 'a promise dropped with its result waited for breaks it', None, 'drops the promise although somebody holds its result and it has no value: whoever waits gets nothing')
            elif m['set']: self.chk(False, st, fr, 'promise', 'only such a promise is broken', None, 'breaks a promise nobody holds the result of')
            elif must: self.chk(False, st, fr, 'promise', 'a promise dropped with its result waited for breaks it', None, 'drops the promise without looking whether somebody waits for its result')
        elif self.role == 'get':
            if how == 'ret': self.chk(is_true(st, p) and is_true(st, cc) and zero(st.facts, st.read(('f', self.C, '#p'))), st, fr, 'promise', 'the result is given out once', None, 'gives out the result of an empty promise, or a second time')


class Drop(B):
    """Destroying or overwriting a promise breaks it first."""

    def __init__(self, cx, fp, brk, assign): self.cx, self.P, self.brk, self.assign = cx, ('f', THIS, fp), brk, assign
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(b=0, w=False)

    def on_call(self, st, fr, call):
        if call.q == self.brk and call.obj == THIS:
            self.chk(not st.mon['w'], st, fr, 'promise', 'broken before it is replaced', call.line, 'breaks the promise after it was replaced')
            st.mon['b'] = 1

    def on_spreset(self, st, fr, loc, old, new, line):
        if loc == self.P: st.mon['w'] = True

    def on_write(self, st, fr, loc, v, line, init):
        if loc == self.P or loc == ('f', self.P, '#p'): st.mon['w'] = True

    def on_move(self, st, fr, src, dst, line):
        if dst == self.P: st.mon['w'] = True

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        if self.assign and not st.mon['w']: return
        self.chk(st.mon['b'], st, fr, 'promise', 'broken when dropped', None, 'drops a promise without breaking it: whoever waits for its result gets nothing')


class Any(B):
    """The context of when_any."""

    def __init__(self, cx, role, cell, K, Dn): self.cx, self.role, self.A, self.K, self.Dn = cx, role, ('f', THIS, cell), K, Dn
    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(ld=(), ok=None, bad=None, h=0, cas=None)

    def chk(self, ok, st, fr, *a):
        if not ok and zero(st.facts, sub(self.k(st), self.d(st))): return
        B.chk(self, ok, st, fr, *a)

    def k(self, st): return st.read(('g', self.K))
    def d(self, st): return st.read(('g', self.Dn))

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc != self.A: return
        if op == 'load': st.mon['ld'] = st.mon['ld'] + (res,) if res not in st.mon['ld'] else st.mon['ld']; st.mon['bad'] = None
        elif op == 'cas': st.mon['cas'] = call.name != 'compare_exchange_weak'
        else: self.chk(False, st, fr, 'any', 'changed by compare-and-swap', line, 'overwrites which result completed first')

    def same(self, st, a, b): return a == b or zero(st.facts, sub(a, b))

    def on_casok(self, st, fr, loc, exp, v, line):
        if loc != self.A: return
        fk, fd = self.same(st, exp, self.k(st)), self.same(st, exp, self.d(st))
        st.mon['ok'] = 'k' if fk else 'd' if fd else '?'
        if self.role == 'finish': self.chk(fk and self.same(st, v, self.d(st)), st, fr, 'any', 'ends the registration', line, 'ends the registration other than from processing to done-processing'); return
        prm = ('d', ('prm', self.fn.params[0]['name']))
        self.chk(v[0] == 'addr' and self.ref(st, v[1]) == prm, st, fr, 'any', 'records the result that completed', line, 'records another result as the completed one')
        self.chk(fk or fd, st, fr, 'any', 'records only the first', line, 'overwrites the result that completed first')

    def on_casfail(self, st, fr, loc, exp, v, line, res):
        if loc == self.A and st.mon['cas'] and self.same(st, exp, self.d(st)): st.mon['bad'] = 'd'

    def on_call(self, st, fr, call):
        if calls_resume(call.q):
            self.chk(st.mon['ok'] == 'd' and not st.mon['h'], st, fr, 'any', 'resumed by the one who ends done-processing', call.line, 'resumes when_any although its registration has not ended or another result resumes it')
            st.mon['h'] = 1

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        if self.role == 'try':
            if m['ok'] == 'd': self.chk(m['h'], st, fr, 'any', 'the first result resumes', None, 'is the first result to complete but does not resume when_any')
            elif m['ok'] is None:
                other = m['bad'] == 'd' or any(ne(st, r, self.k(st)) and ne(st, r, self.d(st)) for r in m['ld'])
                self.chk(other, st, fr, 'any', 'gives up only when another was first', None, 'gives up although no other result may have completed: when_any is never resumed')
        elif self.role == 'finish':
            self.chk(is_true(st, ret) if m['ok'] else is_false(st, ret), st, fr, 'any', 'suspends iff nothing completed', None, 'suspends although a result has completed' if not m['ok'] else 'goes on although nothing has completed')
        elif self.role == 'inline':
            self.chk(is_false(st, ret), st, fr, 'any', 'goes on with a done result', None, 'suspends although a result is done')
            self.chk(m['ok'] or m['ld'] and any(ne(st, r, self.k(st)) for r in m['ld']) or m['cas'], st, fr, 'any', 'records the done result', None, 'goes on without a completed result')
        elif self.role == 'finished':
            r = m['ld'][-1] if m['ld'] else None
            for val in (True, False):
                a = b_not(eqv(r, self.k(st))) if r else None
                if r is None: break
                f = st.facts.assume(a, val)
                if f is None: continue
                s2 = st.copy(); s2.facts = f
                self.chk(is_true(s2, ret) if val else is_false(s2, ret), s2, fr, 'any', 'sees a completed result', None, 'misreports whether a result has completed')


class Suspend(B):
    """Registration of when_any with all its results."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(pend=None, why=None, fin=None)

    def on_ret(self, st, fr, call, v):
        q, m = call.q or '', st.mon
        if q == SB + '::when_any':
            m['pend'] = (v, call.obj)
        elif q == D + 'WhenAnyContext::resume_inline':
            p = m['pend']
            self.chk(p is not None and any(a[0] == 'lv' and self.ref(st, a[1]) == p[1] for a in call.args), st, fr, 'any', 'the done result is the completed one', call.line, 'reports another result as the completed one')
            m['why'] = 'inline'; m['pend'] = None
        elif q == D + 'WhenAnyContext::finish_processing': m['fin'] = v
        elif q == D + 'WhenAnyContext::any_result_finished': st.mon['seen'] = v

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        p = st.mon['pend']
        if p is not None and ne(st, p[0], c(self.cx.p.enums[D + 'ProcessStatus']['ProducerDone'])): st.mon['pend'] = None
        s = st.mon.get('seen')
        if s is not None and is_false(st, s): st.mon['seen'] = None

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        pd = c(self.cx.p.enums[D + 'ProcessStatus']['ProducerDone'])
        if m['pend'] is not None: self.chk(ne(st, m['pend'][0], pd), st, fr, 'any', 'a done result ends the registration', None, 'ignores that a result is done already: nobody resumes when_any')
        if m['fin'] is not None: self.chk(ret == m['fin'] or ret[0] == 'lv' and st.read(ret[1]) == m['fin'], st, fr, 'any', 'suspends iff the registration ended first', None, 'does not do what the end of the registration says')
        else:
            self.chk(is_false(st, ret) or ret[0] == 'call' and 'resume_inline' in ret[1], st, fr, 'any', 'suspends only after the registration ended', None, 'suspends before the registration has ended: nobody resumes when_any')
            self.chk(m['why'] or m.get('seen') is not None and is_true(st, m['seen']), st, fr, 'any', 'goes on only with a completed result', None, 'goes on although no result is known to have completed')


class Rewinds(B):
    """After when_any every result is usable again."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(rw=False)

    def on_call(self, st, fr, call):
        if call.q == D + 'WhenHelper::at':
            if st.mon['rw'] is None: self.chk(False, st, fr, 'any', 'every result is taken back', call.line, 'goes to the next result without taking this one back')
            st.mon['rw'] = None
        elif call.q == SB + '::try_rewind_consumer': st.mon['rw'] = True

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['rw'] is not None, st, fr, 'any', 'every result is taken back', None, 'returns without taking the last result back')


class Link(B):
    """A coroutine joins the waiters of a shared result."""

    def __init__(self, cx, cell): self.cx, self.A = cx, ('f', THIS, cell)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(ok=None, ld=None)

    def prm(self): return ('d', ('prm', self.fn.params[0]['name']))

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc != self.A: return
        if op == 'load': st.mon['ld'] = res
        elif op != 'cas': self.chk(False, st, fr, 'shared', 'joined by compare-and-swap', line, 'overwrites the list of waiters')
        else:
            st.mon['rel'] = order in ('release', 'acq_rel', 'seq_cst')
            st.mon['weak'] = call.name == 'compare_exchange_weak'

    def on_casok(self, st, fr, loc, exp, v, line):
        if loc != self.A: return
        nx = [x['name'] for x in self.cx.p.record(D + 'SharedAwaitContext')['fields'] if 'SharedAwaitContext' in x['t']][0]
        self.chk(v[0] == 'addr' and self.ref(st, v[1]) == self.prm(), st, fr, 'shared', 'joins itself', line, 'puts something else on the list of waiters')
        self.chk(st.read(('f', self.prm(), nx)) == exp, st, fr, 'shared', 'linked before it is announced', line, 'joins the list without linking the waiters before it: they are never resumed')
        self.chk(st.mon['rel'], st, fr, 'shared', 'announcement releases the waiter', line, 'joins the list without releasing the waiter')
        rd = [f for f in st.facts.s if f[0] == 'not' and f[1][0] == 'eq0' and self.has(f[1][1], exp)]
        self.chk(bool(rd), st, fr, 'shared', 'not joined when ready', line, 'joins the list without looking whether the result is ready')
        st.mon['ok'] = True

    def has(self, x, y): return x == y or isinstance(x, tuple) and any(self.has(z, y) for z in x)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        if m['ok']: self.chk(is_true(st, ret), st, fr, 'shared', 'suspends iff it joined', None, 'goes on although it is on the list of waiters'); return
        self.chk(is_false(st, ret), st, fr, 'shared', 'suspends iff it joined', None, 'suspends without being on the list of waiters')
        self.chk(m['ld'] is not None and any(f[0] == 'eq0' and self.has(f[1], m['ld']) for f in st.facts.s), st, fr, 'shared', 'goes on only when ready', None, 'goes on although the shared result is not known to be ready')


class Finished(B):
    """A shared result becomes ready."""

    def __init__(self, cx, st_, cell): self.cx, self.S, self.A = cx, ('f', THIS, st_), ('f', THIS, cell)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(s=False, n=False, x=None, called=None)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc == self.S and op in ('store', 'rmw'):
            self.chk(order in ('release', 'acq_rel', 'seq_cst'), st, fr, 'shared', 'status released', line, 'shows the shared result ready before its value is visible')
            st.mon['s'] = True
        if loc == self.A and op != 'load':
            self.chk(op == 'rmw' and not kw.get('rmw') and st.mon['x'] is None, st, fr, 'shared', 'the list is taken in one exchange', line, 'does not take the list of waiters in one exchange: one that joins meanwhile is lost')
            self.chk(order in ('acq_rel', 'seq_cst'), st, fr, 'shared', 'the list is acquired', line, 'reads the waiters before they are visible')
            self.chk(st.mon['s'], st, fr, 'shared', 'status before waiters', line, 'closes the list of waiters before the status shows ready')
            st.mon['x'] = res

    def on_call(self, st, fr, call):
        q = call.q or ''
        if q.endswith('::atomic_notify_all') and any(a == ('lv', self.S) for a in call.args):
            self.chk(st.mon['s'], st, fr, 'shared', 'woken after the status', call.line, 'wakes the threads before the status shows ready'); st.mon['n'] = True
        if calls_resume(q):
            self.chk(st.mon['x'] is not None, st, fr, 'shared', 'resumed after the list was taken', call.line, 'resumes a waiter that is still on the list')
            self.chk(st.mon['called'] is None, st, fr, 'shared', 'each waiter resumed once', call.line, 'resumes a waiter twice')
            b = call.obj
            for _ in range(4):   # the handle may be a copy of the waiter's
                while b and b[0] == 'f': b = b[1]
                al = st.mem.get(('#al', b))
                if al is None: break
                b = al[0]
            # no variable leads there any more: not followed (its symbol means another waiter in the next round)
            st.mon['called'] = b if b[1][0] != 'phi' or st.mem.get(b[1][3]) == b[1] else None

    def on_notify(self, st, fr, cv, all, line, **kw):
        if cv == self.S and all: st.mon['n'] = st.mon['s']

    def on_member(self, st, fr, loc, q, line, node, nid):
        if not strip_t(q or '').startswith(D + 'SharedAwaitContext::'): return
        b = loc[1]
        if st.mon['called'] is not None:
            self.chk(b != st.mon['called'], st, fr, 'shared', 'a resumed waiter is gone', line, 'uses a waiter after resuming it: it may have been freed')
            if b != st.mon['called']: st.mon['called'] = None

    def on_write(self, st, fr, loc, v, line, init):
        if st.mon['called'] and loc[0] == 'v' and ('d', v) != st.mon['called']: st.mon['called'] = None

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        self.chk(m['s'] and m['x'] is not None, st, fr, 'shared', 'ready and closed', None, 'returns without showing the result ready and taking the waiters')
        self.chk(m['n'], st, fr, 'shared', 'threads woken', None, 'does not wake the threads that wait for the shared result')


class Functor(B):
    """A coroutine handed to an executor."""

    def __init__(self, cx, role, fh, fi): self.cx, self.role, self.Hn, self.I = cx, role, ('f', THIS, fh), ('f', THIS, fi)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(h=0, told=False, i0=st.read(self.I))

    def on_call(self, st, fr, call):
        if calls_resume(call.q):
            st.mon['h'] = min(2, st.mon['h'] + 1)
            if self.role == 'call': self.chk(zero(st.facts, st.read(self.I)), st, fr, 'resume', 'disarmed before it resumes', call.line, 'resumes the coroutine while the destructor would resume it again')
            else: self.chk(st.mon['told'], st, fr, 'resume', 'the interruption is visible first', call.line, 'resumes an interrupted coroutine as if it had run')

    def on_write(self, st, fr, loc, v, line, init):
        if loc == ('d', st.mon['i0']) and not zero(st.facts, v): st.mon['told'] = True

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        m = st.mon
        if self.role == 'call': self.chk(m['h'] == 1, st, fr, 'resume', 'a call resumes once', None, 'resumes the coroutine %d times' % m['h'])
        else:
            for armed in (True, False):
                if not feas(st, b_not(eq0(m['i0'])) if armed else eq0(m['i0'])): continue
                self.chk(m['h'] == (1 if armed else 0), st, fr, 'resume', 'destructor of %s functor' % ('an armed' if armed else 'a used'), None, 'resumes the coroutine %d times' % m['h'])


class Moved(B):
    def __init__(self, cx, fi): self.cx, self.fi = cx, fi
    def init(self, st, fr): self.fn = fr.fn

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        o = ('d', ('prm', self.fn.params[0]['name']))
        self.chk(zero(st.facts, st.read(('f', o, self.fi))), st, fr, 'resume', 'a moved functor is disarmed', None, 'leaves the functor it was made from armed: the coroutine is resumed twice')
        self.chk(st.read(('f', THIS, self.fi)) == ('ld', ('f', o, self.fi)), st, fr, 'resume', 'the new functor is armed', None, 'does not take over the interruption flag')


class Interrupted(B):
    """await_resume throws iff interrupted."""

    def __init__(self, cx, fi): self.cx, self.I = cx, ('f', THIS, fi)
    def init(self, st, fr): self.fn = fr.fn; st.mon['i0'] = st.read(self.I); SYMW.setdefault(st.mon['i0'], 8)

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        i = st.mon['i0']
        self.chk(is_true(st, i) if how == 'throw' else is_false(st, i), st, fr, 'resume', 'throws iff interrupted', None, 'goes on although the executor never ran it' if how == 'ret' else 'fails although it was not interrupted')


class Posts(B):
    """await_suspend hands the coroutine over once and lets nothing out."""

    def __init__(self, cx, fi): self.cx, self.I = cx, ('f', THIS, fi)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0)

    def on_call(self, st, fr, call):
        if call.q == D + 'AwaitViaFunctor::AwaitViaFunctor' and len(call.args) == 2:
            st.mon['n'] = min(2, st.mon['n'] + 1)
            a = call.args
            self.chk(a[1][0] == 'addr' and a[1][1] == self.I, st, fr, 'resume', 'the flag of this awaiter', call.line, 'hands over another flag than the one it looks at when it is resumed')

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        self.chk(how == 'ret', st, fr, 'resume', 'lets nothing out', None, 'lets an exception out after the coroutine was resumed')
        self.chk(st.mon['n'] == 1, st, fr, 'resume', 'handed over once', None, 'hands the coroutine over %d times' % st.mon['n'])


class Handle(B):
    """Result and Shared: nothing happens on an empty one, the value is read only after the wait, and given out once."""

    def __init__(self, cx, fs): self.cx, self.S = cx, ('f', THIS, fs)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(w=False, rel=False, s0=st.read(('f', self.S, '#p')))

    def on_sprelease(self, st, fr, loc, v, line):
        if loc == self.S: st.mon['rel'] = True

    def on_call(self, st, fr, call):
        q, s0 = call.q or '', st.mon['s0']
        if call.obj != ('d', s0): return
        k, _, nm = q.rpartition('::')
        if k not in (SB, ST, D + 'SharedStateBasic', D + 'SharedState'): return
        if not self.fn.name.startswith('await_'):
            self.chk(is_true(st, s0), st, fr, 'promise', 'an empty result throws', call.line, 'uses an empty result instead of throwing')
        if nm == 'wait': st.mon['w'] = True
        elif nm in ('get', 'get_ref'):
            if not self.fn.name.startswith('await_'): self.chk(st.mon['w'], st, fr, 'wait', 'waits before it reads', call.line, 'reads the value without waiting for it')
            if k == ST: self.chk(st.mon['rel'], st, fr, 'free', 'the value is taken with the state', call.line, 'takes the value and leaves the state behind: it is freed twice')


class Joins(B):
    """await_suspend of the awaitables."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0, r=None, h=False)

    def on_call(self, st, fr, call):
        if (call.q or '') not in (SB + '::await', D + 'SharedStateBasic::await'): return
        m = st.mon
        m['n'] = min(2, m['n'] + 1)
        if call.q.startswith(D + 'Shared'):
            self.chk(m['h'], st, fr, 'shared', 'knows whom to resume', call.line, 'joins the waiters before its coroutine is known')
        else:
            self.chk(any(a[0] == 'lv' and self.src(st, a[1]) == ('d', ('prm', self.fn.params[0]['name'])) for a in call.args), st, fr, 'register', 'knows whom to resume', call.line, 'registers another coroutine')

    def src(self, st, loc):
        for _ in range(4):
            loc = self.ref(st, loc)
            al = st.mem.get(('#al', loc))
            if al is None: break
            loc = al[0]
        return loc

    def on_write(self, st, fr, loc, v, line, init):
        if loc[-1] == 'callable': st.mon['h'] = True

    def on_ret(self, st, fr, call, v):
        if (call.q or '') in (SB + '::await', D + 'SharedStateBasic::await'): st.mon['r'] = v

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        self.chk(m['n'] == 1, st, fr, 'register', 'registers once', None, 'suspends without registering: nobody resumes the coroutine' if not m['n'] else 'registers twice')
        if m['r'] is None: return
        for val in (True, False):
            f = st.facts.assume(b_not(eq0(m['r'])), val)
            if f is None or f.infeasible(): continue
            s2 = st.copy(); s2.facts = f
            self.chk(is_true(s2, ret) if val else is_false(s2, ret), s2, fr, 'register', 'suspends iff registered', None, 'does not do what the registration said')


class Before(B):
    """`first` happens before the state is let go."""

    def __init__(self, cx, fs): self.cx, self.S = cx, ('f', THIS, fs)
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0)

    def on_call(self, st, fr, call):
        if call.q == SB + '::try_rewind_consumer' and call.obj == ('d', st.read(('f', self.S, '#p'))): st.mon['n'] = 1

    def on_spreset(self, st, fr, loc, old, new, line):
        if loc == self.S: self.chk(st.mon['n'], st, fr, 'rewind', 'taken back before the state goes', line, 'lets the state go while it is registered with it')

    def on_finish(self, st, fr, ret, how):
        if how != 'noret': self.chk(st.mon['n'], st, fr, 'rewind', 'taken back before the state goes', None, 'lets the state go while it is registered with it')


class SharedWait(B):
    """Waiting for a shared result."""

    def __init__(self, cx, stf, timed): self.cx, self.S, self.timed = cx, ('f', THIS, stf), timed
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(ld=())

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc == self.S and op == 'load' and order in ACQ and res not in st.mon['ld']: st.mon['ld'] = st.mon['ld'] + (res,)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        if self.timed: self.chk(ret in st.mon['ld'], st, fr, 'wait', 'reports the status', None, 'reports something else than the status of the shared result')
        else: self.chk(any(ne(st, r, c(self.idle)) for r in st.mon['ld']), st, fr, 'wait', 'returns only when ready', None, 'returns although the shared result is not known to be ready')


class Status(B):
    """What a state says about its value."""

    def __init__(self, cx, n): self.cx, self.n = cx, n
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(ld=(), r=None, bw=None)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc == self.n.PS and op == 'load' and order in ACQ: st.mon['ld'] = st.mon['ld'] + (res,)

    def on_call(self, st, fr, call):
        q, n = call.q or '', self.n
        if q == D + 'ProducerContext::status':
            ok = any(zero(st.facts, sub(r, n.pdone)) or ne(st, r, n.idle) for r in st.mon['ld']) or st.mon['bw'] is not None and zero(st.facts, sub(st.mon['bw'], n.pdone))
            self.chk(ok, st, fr, 'value', 'looks at the value only when it is published', call.line, 'looks at the value before it is published')

    def on_ret(self, st, fr, call, v):
        if (call.q or '') == D + 'ProducerContext::status': st.mon['r'] = v
        elif (call.q or '') == SB + '::wait_for': st.mon['bw'] = v

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m, n = st.mon, self.n
        if m['r'] is not None: self.chk(ret == m['r'], st, fr, 'value', 'says what it holds', None, 'says something else than what it holds')
        else:
            self.chk(zero(st.facts, sub(ret, c(self.idle))), st, fr, 'value', 'not published: idle', None, 'says that there is a value before it is published')
            self.chk(not any(zero(st.facts, sub(r, n.pdone)) for r in m['ld'] + (m['bw'],) if r is not None), st, fr, 'value', 'published: not idle', None, 'hides a published value')


class Futex(B):
    """Waiting and waking on a word."""

    def __init__(self, cx, wake): self.cx, self.wake = cx, wake
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0)

    def on_call(self, st, fr, call):
        if call.q != 'syscall': return
        a = call.args
        loc = ('d', ('prm', self.fn.params[0]['name']))
        ok = len(a) > 3 and a[0] == ('c', 202) and a[1][0] == 'addr' and self.ref(st, a[1][1]) == loc
        if ok and self.wake: ok = a[2] in (('c', 129), ('c', 1)) and a[3] == ('c', 2147483647)
        elif ok: ok = a[2] in (('c', 128), ('c', 0)) and a[3] == ('prm', self.fn.params[1]['name'])
        self.chk(ok, st, fr, 'wait', 'wakes all threads on the word' if self.wake else 'sleeps only while the word is unchanged', call.line, 'does not wake every thread that waits on the word' if self.wake else 'may sleep although the word has changed: the wakeup is lost')
        st.mon['n'] = 1
        st.mon['op'] = a[2] if len(a) > 2 else None
        self.cx.futex = getattr(self.cx, 'futex', set()) | {a[2][1] & 128 if len(a) > 2 and a[2][0] == 'c' else None}

    def on_finish(self, st, fr, ret, how):
        if how == 'ret' and self.wake: self.chk(st.mon['n'], st, fr, 'wait', 'wakes', None, 'wakes nobody')


def run(cx):
    p = cx.p
    n = Names(p)
    mod = lambda fn: fn.sq.startswith((D, 'plain::sys::detail::')) and fn.name != 'assert_done' and not fn.sq.startswith('plain::sys::detail::atomic_notify') or 'consumer_context.cc' in fn.file
    def eng(r, inl=mod, **kw):
        e = cx.engine([r], inline=inl, max_steps=200000, merge_at=kw.pop('merge_at', 40), **kw)
        e.prune = True
        return e
    done = set()
    # the consumer
    for nm, role in (('await', 'await'), ('when_any', 'any'), ('share', 'share'), ('wait', 'wait'), ('wait_for', 'wait_for'), ('try_rewind_consumer', 'rewind')):
        f = p.one(SB + '::' + nm); done.add(f.fid)
        cx.run(eng(Consumer(cx, n, role)), f)
    # the producer, and who frees
    quiet = lambda fn: mod(fn) and fn.name not in ('resume_consumer',)
    for nm, role in (('complete_producer', 'produce'), ('complete_consumer', 'consume'), ('complete_joined_consumer', 'joined')):
        fs = [f for f in p.need(ST + '::' + nm) if f.blocks]
        for f in fs:
            done.add(f.fid)
            cx.run(eng(Producer(cx, n, role), inl=quiet), f)
    for f in p.need(ST + '::delete_self'):
        if f.blocks: cx.run(eng(Frees(cx), inl=lambda fn: False), f)
    for dl, t in (('consumer', 'complete_consumer'), ('joined_consumer', 'complete_joined_consumer'), ('producer', 'complete_producer')):
        for f in p.need(D + dl + '_state_deleter::operator()'):
            if f.blocks: cx.run(eng(Calls(cx, 'free', ST + '::' + t, 'ends the %s side once' % dl.replace('_', ' '), args=lambda s, st, call: call.obj == ('d', st.read(('prm', s.fn.params[0]['name']))) or call.obj is not None and loc_root(call.obj)[0] == 'd'), inl=lambda fn: False), f)
    # nobody else changes the status
    callmap = p.callers()
    for f in p.all():
        if f.blocks and not f.nocfg and f.fid not in done and not f.ctor and mentions_field(f, {SB + '::' + n.ps}):
            wr = any(m and re.match(r'std::atomic(<.*>)?::(store|exchange|compare_exchange|operator=|fetch)', strip_t(m.get('q') or '')) for m in f.nodes)
            callers = set(callmap.get(f.fid, ()))
            cx.check(not wr or callers and callers <= done, 'writers', 'status: ' + sig(f), f.where(), '%s changes the status of a result outside its protocol' % sig(f))
    # resuming
    cx.run(eng(Resume(cx, n), inl=lambda fn: False), p.one(D + 'ConsumerContext::resume_consumer'))
    # values
    RS = next((v for k, v in p.enums.items() if k.endswith('::ResultStatus')), None)
    if not RS: raise AnalysisError('anchor vanished: ResultStatus')
    kinds = {}
    for r in p.records.values():
        if strip_t(r['q']) == D + 'ProducerContext::storage':
            fs = {x['name'] for x in r['fields']}
            kinds[r['q'][:-len('::storage')]] = 'ref' if 'pointer' in fs else 'obj' if 'object' in fs else 'void'
    for f in p.all():
        if f.scls != D + 'ProducerContext' or not f.blocks or f.nocfg: continue
        role = 'dtor' if f.dtor else {'build_result': 'result', 'build_exception': 'exception', 'get_ref': 'get', 'get': 'get'}.get(f.name)
        if not role: continue
        kind = kinds.get(inst(f))
        if kind is None: continue   # `get` forwards to get_ref
        obj = dict(status='status_', storage='storage_', exc='exception', value={'ref': 'pointer', 'obj': 'object', 'void': None}[kind], dtor=kind == 'obj')
        cx.run(eng(Value(cx, role, RS, obj), inl=lambda fn: fn.scls == D + 'ProducerContext'), f)
    for f in p.need(ST + '::from_callable'):
        if f.blocks and len(f.params) == 1:
            cx.run(eng(Once(cx), inl=lambda fn: fn.sq == ST + '::from_callable', may_throw=lambda cl, fr: cl.q != ST + '::set_exception' and not (cl.q or '').startswith('std::')), f)
    # the promise
    RP = 'plain::concurrency::ResultPromise'
    rec = p.record(RP)
    if rec is None: raise AnalysisError('anchor vanished: ' + RP)
    fp = [x['name'] for x in rec['fields'] if 'producer_state' in x['t']]
    fc = [x['name'] for x in rec['fields'] if 'consumer_state' in x['t'] and 'joined' not in x['t']]
    if len(fp) != 1 or len(fc) != 1: raise AnalysisError('anchor vanished: the states of a promise')
    fp, fc = fp[0], fc[0]
    rpi = lambda fn: fn.sq.startswith(RP + '::')
    brk = [f.sq for f in p.all() if f.scls == RP and f.blocks and not f.params and any(m and strip_t(m.get('q') or '') == ST + '::set_exception' for m in f.nodes) and f.name not in ('set_exception',) and not f.dtor]
    for f in p.all():
        if f.scls != RP or not f.blocks: continue
        if f.name in ('set_result', 'set_exception', 'set_from_function'):
            cx.run(eng(Promise(cx, 'set', fp, fc), inl=rpi, may_throw=lambda cl, fr: cl.q == ST + '::set_result'), f)
            cx.check(not f.noexc, 'promise', 'may throw: ' + sig(f), f.where(), '%s ends the process where it should throw' % sig(f))
        elif f.name == 'get_result': cx.run(eng(Promise(cx, 'get', fp, fc), inl=rpi), f)
        elif f.sq in brk: cx.run(eng(Promise(cx, 'break', fp, fc), inl=rpi), f)
        elif f.dtor or f.name == 'operator=':
            if brk: cx.run(eng(Drop(cx, fp, brk[0], not f.dtor), inl=lambda fn: False), f)
            else: cx.run(eng(Promise(cx, 'break', fp, fc), inl=rpi), f)
    # coroutines
    for f in p.all():
        if not f.blocks: continue
        if f.sq == D + 'coroutine_promise::unhandled_exception': cx.run(eng(Calls(cx, 'publish', ST + '::set_exception', 'an exception of the coroutine is stored'), inl=lambda fn: False), f)
        elif f.sq == D + 'coroutine_promise::set_result': cx.run(eng(Calls(cx, 'publish', ST + '::set_result', 'the value of the coroutine is stored'), inl=lambda fn: False), f)
        elif f.sq == D + 'coroutine_promise::complete_producer':
            cx.run(eng(Calls(cx, 'publish', ST + '::complete_producer', 'the frame is published with the result', args=lambda s, st, call: bool(call.args) and call.args[0][0] == 'lv'), inl=lambda fn: False), f)
        elif f.sq == D + 'publisher::await_suspend': cx.run(eng(Calls(cx, 'publish', D + 'coroutine_promise::complete_producer', 'the end of the coroutine publishes its result'), inl=lambda fn: False), f)
        elif f.sq in (D + 'LazyState::unhandled_exception',): cx.run(eng(Calls(cx, 'publish', D + 'ProducerContext::build_exception', 'an exception of the coroutine is stored'), inl=lambda fn: False), f)
    for f in p.all():
        if f.sq == D + 'coroutine_promise::final_suspend' and f.blocks:
            cx.check(strip_t(f.ret) == D + 'publisher', 'publish', 'the final suspension publishes', f.where(), 'the coroutine ends without publishing its result')
    # when_any
    W = D + 'WhenAnyContext'
    rec = p.record(W)
    cell = [x['name'] for x in rec['fields'] if x['t'].startswith('std::atomic')]
    if len(cell) != 1: raise AnalysisError('anchor vanished: the status of when_any')
    for nm, role in (('try_resume', 'try'), ('finish_processing', 'finish'), ('resume_inline', 'inline'), ('any_result_finished', 'finished')):
        cx.run(eng(Any(cx, role, cell[0], W + '::kProcessing', W + '::kDoneProcessing')), p.one(W + '::' + nm))
    for f in p.all():
        if f.scls == D + 'WhenHelper::WhenAnyAwaitable' and f.blocks:
            if f.name == 'await_suspend': cx.run(eng(Suspend(cx), inl=lambda fn: False, merge_at=12), f)
            elif f.name == 'await_resume': cx.run(eng(Rewinds(cx), inl=lambda fn: False, merge_at=12), f)
    # shared results
    S = D + 'SharedStateBasic'
    rec = p.record(S)
    cell = [x['name'] for x in rec['fields'] if x['t'].startswith('std::atomic') and 'SharedAwaitContext' in x['t']]
    stf = [x['name'] for x in rec['fields'] if x['t'].startswith('std::atomic') and 'ResultStatus' in x['t']]
    if len(cell) != 1 or len(stf) != 1: raise AnalysisError('anchor vanished: the fields of a shared result')
    cx.run(eng(Link(cx, cell[0])), p.one(S + '::await'))
    for f in p.need(D + 'SharedState::on_finished'):
        if f.blocks: cx.run(eng(Finished(cx, stf[0], cell[0]), inl=lambda fn: fn.sq.startswith(S + '::')), f)
    b = p.enums and next(v for k, v in p.enums.items() if k.endswith('::ResultStatus'))['Idle']
    SharedWait.idle = Status.idle = b
    for f in p.all():
        if not f.blocks or f.nocfg: continue
        if f.sq == S + '::wait': cx.run(eng(SharedWait(cx, stf[0], False)), f)
        elif f.sq == S + '::wait_for': cx.run(eng(SharedWait(cx, stf[0], True)), f)
        elif f.sq in (ST + '::status', ST + '::wait_for'): cx.run(eng(Status(cx, n), inl=lambda fn: False), f)
        elif f.scls == D + 'SharedState' and f.dtor:
            x = [y['name'] for y in p.record(D + 'SharedState')['fields']]
            if len(x) != 1: raise AnalysisError('anchor vanished: the state of a shared result')
            cx.run(eng(Before(cx, x[0]), inl=lambda fn: False), f)
        elif f.name == 'await_suspend' and any(m and m.get('q') in (SB + '::await', D + 'SharedStateBasic::await') for m in f.nodes): cx.run(eng(Joins(cx), inl=lambda fn: False), f)
        elif f.scls in ('plain::concurrency::Result', 'plain::concurrency::result::Shared', 'plain::concurrency::result::Awaitable', 'plain::concurrency::result::SharedAwaitable') and not f.ctor and not f.dtor:
            fs = handle_field(p, f.scls)
            cx.run(eng(Handle(cx, fs), inl=lambda fn: fn.scls == f.scls), f)
        elif f.sq in ('plain::sys::detail::atomic_notify_all', 'plain::sys::detail::atomic_wait', 'plain::sys::detail::atomic_wait_for'):
            cx.run(eng(Futex(cx, f.name == 'atomic_notify_all'), inl=lambda fn: fn.sq.startswith('plain::sys::detail::')), f)
    cx.check(len(getattr(cx, 'futex', ())) == 1, 'wait', 'one kind of futex', 'framework/core/src/sys/atomic_wait.cc', 'waits on a private futex and wakes a shared one, or the other way round: no thread is woken')
    # coroutines on executors
    A = D + 'AwaitViaFunctor'
    rec = p.record(A)
    fh = [x['name'] for x in rec['fields'] if 'coroutine_handle' in x['t']]
    fi = [x['name'] for x in rec['fields'] if re.match(r'bool \*', x['t'])]
    if len(fh) != 1 or len(fi) != 1: raise AnalysisError('anchor vanished: the fields of ' + A)
    for f in p.all():
        if f.scls != A or not f.blocks: continue
        if f.dtor: cx.run(eng(Functor(cx, 'dtor', fh[0], fi[0]), inl=lambda fn: False), f)
        elif f.name == 'operator()': cx.run(eng(Functor(cx, 'call', fh[0], fi[0]), inl=lambda fn: False), f)
        elif f.ctor and len(f.params) == 1: cx.run(eng(Moved(cx, fi[0]), inl=lambda fn: False), f)
    for f in p.all():
        if not f.blocks or f.nocfg or not f.scls: continue
        if f.name == 'await_suspend' and any(m and m.get('q') == A + '::AwaitViaFunctor' for m in f.nodes):
            r = p.record(f.scls)
            b = [x['name'] for x in r['fields'] if x['t'] == 'bool'] if r else []
            if len(b) != 1: raise AnalysisError('no interruption flag in ' + f.scls)
            cx.run(eng(Posts(cx, b[0]), inl=lambda fn: False, may_throw=lambda cl, fr: bool(re.search(r'::(post|emplace_back|enqueue)$', cl.q or ''))), f)
            for g in p.all():
                if g.scls == f.scls and g.name == 'await_resume' and g.blocks: cx.run(eng(Interrupted(cx, b[0]), inl=lambda fn: False), g)


def handle_field(p, cls):
    """The field of a handle class that holds the state (its own or its base's)."""
    for q in (cls, D + cls.rsplit('::', 1)[1] + 'Basic'):
        r = p.record(q)
        c_ = [x['name'] for x in (r or {}).get('fields', ()) if re.search('state_ptr_t|State<|unique_ptr', x['t'])]
        if c_: return c_[0]
    raise AnalysisError('anchor vanished: the state of ' + cls)


def inst(f):
    """The instantiation of ProducerContext a member function belongs to."""
    for m in f.nodes:
        q = m.get('q') or '' if m else ''
        if q.startswith(D + 'ProducerContext<') and q.endswith('::status_'): return q[:-len('::status_')]
    return None
