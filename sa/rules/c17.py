"""No wakeup is lost: whatever a sleeping thread waits for is announced to it."""
from ..execs import *
from ..lockset import is_root, calls_lock, in_mod

RULE = ('For every condition variable: the facts a thread goes to sleep on (its predicate being false, or the loop test before a bare wait) give the '
        'fields and the direction of change that could make it go on. Every function that changes such a field in such a direction, on every path '
        'to its end, afterwards notifies that condition variable (all waiters where waiters wait for different things or several may wait), and '
        'either made the change holding the mutex of the wait or takes that mutex before notifying; starting the waiting thread also counts. '
        'For every worker with a semaphore: work put into its shared queue is followed by starting its thread, or, the worker being known not to have '
        'left, by a release unless the queue was known non-empty; the hint flag the worker consults is raised before; a worker declares itself '
        'idle only under the lock with the queue empty or after abort, lowers the hint only when it takes the queue, tests for work under the lock '
        'before it sleeps, and setting abort is followed by a release.')
LEVEL = 'proof'
ASSUMES = ['a wait that is timed and has no predicate only bounds the latency (AsyncLogger flush interval)',
           'one thread waits in TimerQueue, Manager, Thread and AsyncLogger']
MIN = {'sleeps on': 4, 'wakes': 8, 'semaphore': 6, 'leaves': 2}
SINGLE = ('plain::TimerQueue', 'plain::net::connection::Manager', 'plain::concurrency::executor::Thread', 'plain::AsyncLogger')


def subst(a, s, v):
    """Atom a with symbol s replaced by v (v None: unknown)."""
    if a[0] == 'not':
        x = subst(a[1], s, v)
        return None if x is None else b_not(x)
    if a[0] in ('ge0', 'eq0'):
        k, t = lin_parts(a[1])
        co = dict(t).get(s, 0)
        if not co: return a
        l = add(sub(a[1], scale(s, co)), scale(v, co))
        return ge0(l) if a[0] == 'ge0' else eq0(l)
    return None


def grows(a, s):
    """Can increasing s make atom a true?"""
    if a[0] == 'not': return shrinks_eq(a[1], s) if a[1][0] == 'eq0' else None
    if a[0] == 'ge0': return dict(lin_parts(a[1])[1]).get(s, 0) > 0
    if a[0] == 'eq0': return False                      # towards zero from above
    return None


def shrinks(a, s):
    if a[0] == 'not': return False                      # != 0 is not reached by removing
    if a[0] == 'ge0': return dict(lin_parts(a[1])[1]).get(s, 0) < 0
    if a[0] == 'eq0': return True
    return None


def shrinks_eq(a, s): return True


def numeric_(v): return v[0] in ('c', 'ld', 'lin', 'phi', 'sym', 'prm', 'call')


class Names:
    """Qualified names of the members visited, by location."""

    def __init__(self): self.n = {}

    def on_member(self, st, fr, loc, q, line, node, nid):
        if loc: self.n[loc] = strip_t(q)

    def of(self, loc):
        sz = loc[0] == 'f' and loc[2] == '#size'
        q = self.n.get(loc[1] if sz else loc)
        return (q, sz) if q else None


class Others:
    """What other threads may do: the plain fields next to a mutex are unknown when it is taken."""

    def __init__(self, p, names): self.p, self.names = p, names

    def on_lock(self, st, fr, mutex, line):
        q = self.names.n.get(mutex)
        if q is None or mutex[0] != 'f': return
        rec = self.p.record(q.rsplit('::', 1)[0])
        for f in rec['fields'] if rec else ():
            if not MUTEX.search(f['t']): self.eng.refresh(st, fr, ('f', mutex[1], f['name']))


class Sleep:
    """What threads sleep on."""

    def __init__(self, cx, names): self.cx, self.names, self.cv = cx, names, {}

    def on_wait(self, st, fr, cv, mutexes, pred, timed, line, call):
        q = self.names.n.get(cv)
        if q is None: raise AnalysisError('unnamed condition variable at %s' % fr.fn.where(line))
        c_ = self.cv.setdefault(q, {'preds': set(), 'mut': set(), 'untimed': False, 'atoms': {}, 'sites': []})
        ms = {self.names.n.get(m) for m in mutexes} - {None}
        c_['mut'] |= ms
        c_['untimed'] |= not timed or pred is not None
        atoms = {}
        if pred is not None:
            fn = self.eng.p.fn(pred[1])
            s0 = st.copy()
            base = s0.facts.s
            for s, kind, x in self.eng.inline(s0, fr, fn, pred[3], [], ('pq', call.nid), line, dict(pred[2]), None, False):
                if kind != 'go': continue
                pv = s.env.pop(('pq', call.nid), ('sym', 'void'))
                if pv[0] == 'lv': pv = self.eng.load(s, fr, pv[1], line)
                f = s.facts.assume(truthy(pv), False)
                if f is None: continue
                self.take(f.s - base, atoms)
                x = b_not(truthy(pv))
                self.take({x}, atoms)
        else:
            own = q.rsplit('::', 1)[0]
            self.take({a for a in st.facts.s if all(st.read(s[1]) == s for s in lds(a))}, atoms)
            atoms = {k: l for k, l in atoms.items() if k[0].rsplit('::', 1)[0] == own}
        ok = bool(atoms) or timed
        self.cx.check(ok and bool(ms), 'sleeps on', '%s in %s' % (q.replace('plain::', ''), short(fr.fn)), fr.fn.where(line),
                      '%s sleeps on %s without testing, under its lock, what it waits for: a notification before the wait is lost' % (short(fr.fn), q))
        c_['preds'].add(frozenset((k, repr(strip_sites(a))) for k, l in atoms.items() for a, s in l))
        for k, l in atoms.items(): c_['atoms'].setdefault(k, set()).update(l)
        c_['sites'].append((short(fr.fn), line))

    def take(self, facts, atoms):
        for a in facts:
            if a[0] == 'c': continue
            for s in lds(a):
                k = self.names.of(s[1])
                if k and not MUTEX.search(k[0]): atoms.setdefault(k, set()).add((b_not(a), s))


def strip_sites(a):
    if isinstance(a, tuple):
        if a and a[0] in ('ld', 'prm', 'call', 'sym', 'opq'): return (a[0],) + ((strip_sites(a[1]),) if a[0] == 'ld' else a[1:2])
        return tuple(strip_sites(x) for x in a)
    return a


def lds(a, out=None):
    out = set() if out is None else out
    if isinstance(a, tuple):
        if a and a[0] == 'ld': out.add(a); return out
        for x in a: lds(x, out)
    return out


class Wake:
    """Changes that could let a sleeper go on, and the notifications after them."""

    def __init__(self, cx, names, cvs):
        self.cx, self.names, self.cvs = cx, names, cvs
        self.by = {}
        for cv, d in cvs.items():
            for k, l in d['atoms'].items(): self.by.setdefault(k, []).append((cv, l))
        self.seen = set()

    def init(self, st, fr): self.fn = fr.fn; st.mon['need'] = ()

    def on_enter(self, st, fr, call): self.seen.add(fr.fn.fid)

    def owner(self, fr, cv):
        cls = cv.rsplit('::', 1)[0]
        return any(f.fn.ctor and f.fn.scls and (cls == f.fn.scls or cls.startswith(f.fn.scls + '::')) for f in frames(fr))

    def awake(self, st, cv, k):
        """Is what the sleeper waits for already true through another field?"""
        cur = {}
        for f in st.facts.s:
            for s in lds(f):
                n = self.names.of(s[1])
                if n: cur.setdefault(n, set()).add(s)
        for k2, l in self.cvs[cv]['atoms'].items():
            if k2 == k: continue
            for a, s in l:
                for s2 in cur.get(k2, ()):
                    if st.read(s2[1]) != s2: continue
                    x = subst(a, s, s2)
                    if x is not None and st.facts.truth(x) is True: return True
        return False

    def on_ret(self, st, fr, call, v):
        if call.name == 'joinable' and call.q.startswith('std::'): st.mon['jn'] = v

    def change(self, st, fr, loc, line, test, bulk=False, same=None):
        k = self.names.of(loc)
        if k is None: return
        for cv, l in self.by.get(k, ()):
            if self.owner(fr, cv): continue                   # nobody waits during construction
            if loc_root(loc)[0] in ('v', 't'): continue
            if not any(test(a, s) for a, s in l): continue
            if self.awake(st, cv, k): continue
            held = {self.names.n.get(m) for m in st.locks}
            lk = bool(held & self.cvs[cv]['mut'])
            flag = not k[1] and not bulk
            st.mon['need'] = tuple(x for x in st.mon['need'] if x[0] != cv) + ((cv, k[0], fr.fn.where(line), lk, bulk or not k[1], same, loc, ()),)

    def value(self, st, fr, loc, v, line):
        def test(a, s):
            if v is None: return True
            x, y = subst(a, s, v), subst(a, s, old) if numeric_(old) else None
            if x is None: return True
            f = st.facts
            if y is not None: f = f.assume(y, False) if y[0] != 'c' else (None if y[1] else f)
            if f is None: return False                      # it was true before
            return f.truth(x) is not False and (x[0] == 'c' or f.assume(x) is not None)
        old = st.read(loc)
        self.change(st, fr, loc, line, test, same=cmp('==', old, v) if v is not None and old[0] in ('ld', 'c', 'phi') else None)

    def on_write(self, st, fr, loc, v, line, init=False):
        if loc and not init: self.value(st, fr, loc, v, line)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        sz = ('f', loc, '#size')
        if op in ('push', 'insert', 'append'):
            bulk = op != 'push' or kw.get('how') == 'insert'
            self.change(st, fr, sz, call.line, lambda a, s: grows(a, s) is not False, bulk)
        elif op in ('pop', 'erase', 'clear', 'resize'): self.change(st, fr, sz, call.line, lambda a, s: shrinks(a, s) is not False)
        elif op in ('assign', 'swap'):
            self.change(st, fr, sz, call.line, lambda a, s: True, True)
            if op == 'swap': self.change(st, fr, ('f', kw['other'], '#size'), call.line, lambda a, s: True, True)
        elif op in ('splice', 'merge'):
            self.change(st, fr, sz, call.line, lambda a, s: grows(a, s) is not False, True)
            for x in args:
                if x[0] == 'lv': self.change(st, fr, ('f', x[1], '#size'), call.line, lambda a, s: shrinks(a, s) is not False)

    def on_move(self, st, fr, src, dst, line):
        self.change(st, fr, ('f', src, '#size'), line, lambda a, s: shrinks(a, s) is not False)

    def on_swap(self, st, fr, a, b, line):
        for x, y in ((a, b), (b, a)):
            n = st.read(('f', y, '#size'))
            self.value(st, fr, ('f', x, '#size'), n, line)

    def on_notify(self, st, fr, cv, all, line, sem=False, n=None):
        q = self.names.n.get(cv)
        if sem or q not in self.cvs: return
        d = self.cvs[q]
        keep = []
        for x in st.mon['need']:
            if x[0] != q: keep.append(x); continue
            many = not q.startswith(SINGLE) and (len(d['preds']) > 1 or x[4])
            inst = '%s by %s' % (x[1].replace('plain::', ''), short(self.fn))
            self.cx.check(all or not many, 'wakes', inst + ' (all)', fr.fn.where(line),
                          '%s changes %s and wakes one waiter of %s only, though others may wait for it' % (short(fr.fn), x[1], q), stack(fr))
            self.cx.check(x[3] or not d['untimed'], 'wakes', inst + ' (serialised)', fr.fn.where(line),
                          '%s changes %s outside the mutex of the wait on %s and notifies without having taken it: a thread between test and wait misses both' % (short(fr.fn), x[1], q), stack(fr))
        st.mon['need'] = tuple(keep)

    def on_lock(self, st, fr, mutex, line):
        q = self.names.n.get(mutex)
        st.mon['need'] = tuple((x[0], x[1], x[2], x[3] or q in self.cvs[x[0]]['mut']) + x[4:] for x in st.mon['need'])

    def on_unlock(self, st, fr, mutex, line):
        # what the field is when others can see it
        q = self.names.n.get(mutex)
        r = []
        for x in st.mon['need']:
            k = self.names.of(x[6])
            if q in self.cvs[x[0]]['mut'] and not x[7] and k:
                cur = st.read(x[6])
                x = x[:7] + (tuple(sorted({subst(a, s, cur) for a, s in self.cvs[x[0]]['atoms'][k]} - {None}, key=repr)),)
            r.append(x)
        st.mon['need'] = tuple(r)

    def on_thread(self, st, fr, call, args): st.mon['need'] = ()

    def on_finish(self, st, fr, ret, how):
        if how == 'noret': return
        jn = st.mon.get('jn')
        if jn is not None and st.facts.truth(truthy(jn)) is False: return          # there is no thread that could sleep
        bad = {x[1]: x for x in st.mon['need'] if (x[5] is None or st.facts.truth(x[5]) is not True) and
               not (x[7] and all(st.facts.truth(c) is False for c in x[7]))}
        for q, x in bad.items():
            self.cx.bad('wakes', '%s by %s' % (q.replace('plain::', ''), short(self.fn)), x[2],
                        '%s changes %s, for which threads sleep on %s, and can end without notifying them' % (short(self.fn), q, x[0]), st.trace_list())


def run(cx):
    p = cx.p
    cvq = {strip_t(r['q']) + '::' + f['name'] for r in p.records.values() for f in r['fields'] if f['t'].startswith('std::condition_variable')}
    cvq = {q for q in cvq if q.startswith('plain::')}
    if len(cvq) < 5: raise AnalysisError('only %d condition variables' % len(cvq))
    waiters = [f for f in p.all() if f.blocks and not f.nocfg and '/drivers/' not in f.file and
               any(n and n.get('q') and re.match(r'std::condition_variable(_any)?::wait(_for|_until)?$', strip_t(n['q'])) for n in f.nodes)]
    names = Names()
    sl = Sleep(cx, names)
    for f in waiters:
        e = cx.engine([names, sl, Others(p, names)], inline=lambda fn: fn.lambda_ or small(fn), max_steps=200000, merge_at=4)
        e.seq_atomics = True
        cx.run(e, f)
    cvs = sl.cv
    for q in sorted(cvs): cx.notes.append('%s: %s; waited in %s' % (q, ', '.join('%s%s' % (k[0], '.size' if k[1] else '') for k in sorted(cvs[q]['atoms'])), sorted({s[0] for s in cvs[q]['sites']})))
    fields = {k[0] for d in cvs.values() for k in d['atoms']}
    wake(cx, p, names, cvs, fields)
    semaphores(cx, p)


def wake(cx, p, names, cvs, fields):
    w = Wake(cx, names, cvs)
    owners = {f.rsplit('::', 1)[0] for f in fields}
    writes = lambda fn: mentions_field(fn, fields)
    notif = lambda fn: any(n and n.get('q') and re.search(r'condition_variable(_any)?::notify_', n['q']) for n in fn.nodes)
    hit = reaching(p, writes)

    def inl(fn):
        if any(x in fn.file for x in NOISE): return False
        return writes(fn) or notif(fn) or fn.lambda_ and fn.fid in hit or fn.fid in hit and (fn.scls in owners or pub(fn)) or small(fn) or takes_lock(fn)

    def pub(fn):
        return False
    callers = p.callers()
    roots = [f for f in p.all() if f.blocks and not f.nocfg and '/drivers/' not in f.file and f.fid in hit and (writes(f) or any(f.sq.startswith(o + '::') or o.startswith((f.scls or '?') + '::') for o in owners))]

    def go(f):
        e = cx.engine([names, w], inline=inl, max_steps=400000, merge_at=4, virt_all=True)
        e.seq_atomics = True
        cx.run(e, f)
        cx.ok('wakes', 'every change in ' + short(f))
    done = set()
    for f in roots:
        if f.ctor: continue
        if f.dtor or is_root(p, f, callers): done.add(f.fid); go(f)
    for f in roots:
        if f.fid in done or f.fid in w.seen or f.ctor: continue
        if f.lambda_ and f.fid in p_preds(cvs): continue
        done.add(f.fid); go(f)


def p_preds(cvs): return set()


def takes_lock(fn): return any('std::unique_lock' in q['t'] for q in fn.params)


THIS = ('d', ('sym', 'this'))


class Sem:
    """One worker class with a semaphore: what posters and the worker do."""

    def __init__(self, cx, x, idle, hints, pure):
        self.cx, self.x, self.idle, self.hints, self.pure = cx, x, idle, hints, pure

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(need=None, started=False, rel=False, alive=None, hint=False, low=False, ab=False, tested=False, left=False, seen=False, jn=None, ld=(), caught=False)

    def chk(self, ok, st, fr, rule, what, line, msg):
        self.cx.check(bool(ok), rule, '%s: %s' % (short(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (short(self.fn), msg), st.trace_list())

    def other(self, loc):
        """While the worker runs, what it does to other workers is judged where it is defined."""
        return self.body and (not loc or loc[0] != 'f' or loc[1] != THIS)

    def aborted(self, st, base):
        if is_true(st, field(st, base, self.x.abort)) or self.body and base == THIS and st.mon['seen']: return True
        return any(l[1] == base and is_true(st, r) for l, r in st.mon['ld'])

    def size(self, st, base):
        v = st.read(('f', ('f', base, self.x.queue), '#size'))
        SYMW.setdefault(v, 64)
        return v

    def empty(self, st, base): return st.facts.truth(eq0(self.size(st, base))) is True

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if self.other(loc): return
        if op in PUSH and loc[0] == 'f' and loc[2] == self.x.queue and any(f.fn.scls == self.x.cls for f in frames(fr)):
            if st.mon['need'] is None:
                st.mon['need'] = self.size(st, loc[1])
                st.mon['rel'] = False
                self.cx.ok('semaphore', '%s: work in %s' % (short(self.fn), self.x.queue))

    def on_thread(self, st, fr, call, args):
        m = st.mon
        m['started'] = True

    def on_ret(self, st, fr, call, v):
        if call.name == 'joinable' and call.q.startswith('std::'): st.mon['jn'] = v

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        m = st.mon
        if loc[0] != 'f' or self.other(loc): return
        if op == 'load' and loc[2] in self.pure: m['ld'] = tuple(a for a in m['ld'] if a[0] != loc) + ((loc, res),)
        if loc[2] in self.hints and op in ('store', 'rmw'):
            if is_false(st, v):
                m['hint'] = False
                if not any(f.fn.ctor for f in frames(fr)):
                    self.chk(locked(st, loc[1], self.x.mut), st, fr, 'semaphore', 'hint lowered under the lock', line, 'lowers %s without holding the lock posters raise it under' % loc[2])
                    m['low'] = True
            else: m['hint'] = True

    def on_notify(self, st, fr, cv, all, line, sem=False, n=None):
        m = st.mon
        if not sem or self.other(cv): return
        if m['need'] is not None or m['ab']:
            self.chk(not self.hints or m['hint'], st, fr, 'semaphore', 'hint raised before release', line, 'wakes the worker without having raised the flag it looks at first')
        m['rel'] = True

    def on_write(self, st, fr, loc, v, line, init=False):
        m, x = st.mon, self.x
        if init or not loc or loc[0] != 'f' or self.other(loc) or not any(f.fn.scls == x.cls for f in frames(fr)) or any(f.fn.ctor for f in frames(fr)): return
        if loc[2] == x.abort and (v is None or not is_false(st, v)): m['ab'] = True; m['rel'] = False; m['hint'] = False if m['need'] is None else m['hint']
        if self.idle and loc[2] == self.idle:
            if v is None or not is_false(st, v):
                ok = m['caught'] or self.empty(st, loc[1]) or self.aborted(st, loc[1])
                self.chk(ok and locked(st, loc[1], x.mut), st, fr, 'leaves', 'idle only without work', line,
                         'declares the worker idle though its queue may hold work (not known empty under the lock): the work waits for somebody else\'s post')
                m['left'] = True
            else: m['left'] = False

    def on_catch(self, st, fr, **kw): st.mon['caught'] = True

    def on_lock(self, st, fr, mutex, line):
        if mutex[0] == 'f' and mutex[2] in self.x.mut and not self.other(mutex): st.mon['tested'] = False

    def on_unlock(self, st, fr, mutex, line):
        m, x = st.mon, self.x
        if mutex[0] != 'f' or mutex[2] not in x.mut or self.other(mutex): return
        b = mutex[1]
        m['tested'] = self.empty(st, b) and is_false(st, field(st, b, x.abort))
        if m['low']:
            self.chk(self.empty(st, b) or self.aborted(st, b), st, fr, 'semaphore', 'hint lowered with the queue taken', line, 'lowers the flag while work stays in the queue: the worker will ignore its wakeup')
            m['low'] = False
        if m['need'] is not None and m['alive'] is None:
            if self.idle: m['alive'] = is_false(st, field(st, b, self.idle))
            else: m['alive'] = m['jn'] is not None and is_true(st, m['jn'])
            if m['started'] and self.idle:
                self.chk(m['alive'], st, fr, 'semaphore', 'started worker not idle', line, 'starts the worker but leaves it marked idle: the next post starts a second thread on the same queue')

    def see(self, st):
        if self.body and not st.mon['seen'] and self.gone(st): st.mon['seen'] = True

    def on_return(self, st, fr, *a, **kw): self.see(st)
    def on_branch(self, st, fr, *a, **kw): self.see(st)

    def on_semwait(self, st, fr, sem, line):
        self.chk(st.mon['tested'], st, fr, 'semaphore', 'tests before it sleeps', line, 'waits on the semaphore without having found the queue empty (and no abort) in the critical section before')

    def on_call(self, st, fr, call):
        if call.name == 'join' and call.q.startswith('std::') and st.mon['ab']:
            self.chk(st.mon['rel'], st, fr, 'semaphore', 'abort wakes the worker before the join', call.line, 'joins the worker without having woken it after setting abort')

    def on_finish(self, st, fr, ret, how):
        m = st.mon
        if how != 'ret': return
        if m['need'] is not None:
            some = st.facts.truth(eq0(m['need'])) is False
            ok = m['started'] or m['alive'] and (m['rel'] or some)
            self.chk(ok, st, fr, 'semaphore', 'work is announced', None,
                     'can return with work in the queue and %s' % ('no wakeup given though the queue may have been empty' if m['alive'] else 'the worker not known to be there (no thread started)'))
        if m['ab']:
            self.chk(m['rel'], st, fr, 'semaphore', 'abort is announced', None, 'sets abort without waking the worker')
        if self.body:
            b = ('d', ('sym', 'this'))
            self.chk(m['left'] if self.idle else m['seen'] or self.gone(st), st, fr, 'leaves', 'worker ends', None, 'the worker thread can end without %s' % ('having been marked idle' if self.idle else 'abort having been seen'))

    def gone(self, st):
        return is_true(st, field(st, THIS, self.x.abort)) or any(l[1] == THIS and is_true(st, r) for l, r in st.mon['ld'])


def semaphores(cx, p):
    from .c16 import abortish
    todo = [x for x in executors(p) if any('semaphore' in t for t in x.fs.values())]
    if len(todo) < 1: raise AnalysisError('no worker with a semaphore')
    for x in todo:
        pure = abortish(p, x.cls)
        idle = [f for f, t in x.fs.items() if t == 'bool' and f != x.abort]
        idle = idle[0] if len(idle) == 1 else ('idle_' if 'idle_' in idle else None)
        hints = {f for f in x.atomics if 'bool' in x.fs[f] and f not in pure and
                 any(g.scls == x.cls and mentions_field(g, {x.cls + '::' + f}) for g in p.all() if not g.ctor)}
        quals = {x.cls + '::' + f for f in (x.queue, x.abort, idle, *hints, *pure) if f}
        touch = lambda fn: fn.sq.startswith(x.cls + '::') and (mentions_field(fn, quals) or any(n and n.get('q') and 'semaphore' in n['q'] for n in fn.nodes))
        hit = reaching(p, touch)
        inl = lambda fn: fn.fid in hit and (fn.scls == x.cls or fn.lambda_ and fn.sq.startswith(x.cls + '::')) or 'throw_runtime_shutdown' in fn.name or (small(fn) and not any(y in fn.file for y in NOISE))
        callers = p.callers()
        sh = {m: tuple(sorted({f for f in (x.queue, x.abort, idle) if f})) for m in x.mut}
        mine = [f for f in p.all() if f.fid in hit and f.blocks and (f.scls == x.cls or f.lambda_ and f.sq.startswith(x.cls + '::'))]
        ids = {f.fid for f in mine}
        # what the worker posts to other workers is judged where they define it
        push = {f.fid for f in mine if any(
            m and m.get('q') and m['q'].rsplit('::', 1)[-1] in ('emplace_back', 'push_back', 'insert', 'emplace', 'push') and 'obj' in m and
            f.nodes[m['obj']]['k'] == 'MemberExpr' and strip_t(f.nodes[m['obj']].get('q', '')) == x.cls + '::' + x.queue for m in f.nodes)}
        own, todo2 = set(), [f.fid for f in mine if touch(f) and f.fid not in push and (not callers.get(f.fid) or callers[f.fid] - push)]
        while todo2:
            i = todo2.pop()
            if i in own or i in push: continue
            own.add(i)
            todo2 += [c for c in callers.get(i, ()) if c in ids]
        n = 0
        for f in mine:
            if f.ctor or f.dtor: continue
            inside = callers.get(f.fid, set()) & ids
            # entered from outside the class, or as the body of the worker thread
            if not f.lambda_ and inside and not (callers.get(f.fid, set()) - ids) and not f.ov and not f.virt: continue
            r = Sem(cx, x, idle, hints, pure)
            r.body = f.lambda_ and any(g.fid in hit and not g.lambda_ and semw(p, g) for g in [p.fn(c) for c in callees(f)] if g is not None)
            e = cx.engine([Shared(sh), r], inline=(lambda fn: inl(fn) and (fn.fid in own or fn.fid not in hit)) if r.body else inl, max_steps=400000, merge_at=6,
                          invs=[lambda st: eq0(r.size(st, THIS)), lambda st: eq0(field(st, THIS, x.abort))] if r.body else ())
            cx.run(e, f)
            n += 1
        if n < 3: raise AnalysisError('%s: only %d entry points' % (x.cls, n))


def semw(p, g):
    hit = reaching(p, lambda fn: any(n and n.get('q') and re.search(r'semaphore.*::(try_)?acquire', n['q']) for n in fn.nodes))
    return g.fid in hit
