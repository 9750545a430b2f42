"""Shutting down ends every thread, discards what was not started and does nothing twice."""
from ..execs import *
from .. import models
from .c16 import abortish, sig
from .c19 import zero, THIS

RULE = ('Abstract execution of every function that ends the threads of an object (shutdown of each executor and of the timer queue, stop of the logger and of the connection '
        'manager, destructor of the plain thread pool). On every path of the first call: the stop flag is set and the thread woken before it is joined; every thread member is joined or '
        'was not joinable, every thread of a container likewise (positions are counted from the first to the last), the containers of running threads are empty; the queues are '
        'empty at return, the private one taken after the join. A path of a later call (the exchange found the flag set) touches nothing. Consumers: between two tasks that a '
        'worker or loop starts there is a fresh test of the abort flag that found it clear.')
LEVEL = 'proof'
ASSUMES = ['shutdown is not called from a thread of the object itself (a thread cannot join itself)',
           'the worker functions return once they see the flag (C17)']
MIN = {'joined': 6, 'told': 6, 'once': 5, 'discarded': 4, 'starts': 4}
THREAD = re.compile(r'^std::(j?thread)$')
THREADS = re.compile(r'^std::(vector|list|deque|forward_list)<std::j?thread\b')


class T:
    """One object with threads."""

    def __init__(self, p, root, cls, cont=None, queues=(), private=(), once=True, stop=()):
        self.root, self.cls, self.cont, self.once = root, cls, cont, once
        rec = p.record(cls)
        if rec is None: raise AnalysisError('anchor vanished: class ' + cls)
        fs = {f['name']: f['t'] for f in rec['fields']}
        self.thr = [f for f, t in fs.items() if THREAD.match(t)]
        self.many = [f for f, t in fs.items() if THREADS.match(t)]
        self.queues, self.private, self.stop = queues, private, set(stop)
        self.mut = {f for f, t in fs.items() if MUTEX.search(t)}
        if not self.thr and not self.many and not queues: raise AnalysisError('no threads in ' + cls)


def ghost(k): return ('g', '#n:' + k)


class Down:
    def __init__(self, cx, t): self.cx, self.t = cx, t

    def chk(self, ok, st, fr, rule, what, line, msg):
        if not ok and st.facts.infeasible(): return
        self.cx.check(bool(ok), rule, '%s: %s' % (sig(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (sig(fr.fn), msg), st.trace_list())

    def kinds(self): return ['join:' + f for f in self.t.thr + self.t.many] + ['q:' + f for f in self.t.queues + self.t.private]

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(ex=None, cas=None, told=False, woken=False, done=(), jb=())
        for k in self.kinds(): st.mem[ghost(k)] = FALSE

    # -- which object
    def elem(self, base):
        """Position of the element of the container of workers, or None for the object itself."""
        t = self.t
        if t.cont and base[0] == 'i' and base[1][0] == 'f' and base[1][2] == t.cont: return base[2]
        return None

    def mark(self, st, fr, kind, base, line):
        i = self.elem(base)
        if i is None: st.mon['done'] = tuple(sorted(set(st.mon['done']) | {kind})); return
        g = ghost(kind)
        if i == ('sym', 'each'): st.mem[g] = st.read(('f', base[1], '#size'))
        elif zero(st.facts, sub(i, st.mem[g])): st.mem[g] = add(i, c(1))

    def marked(self, st, kind, base):
        i = self.elem(base)
        if i is None: return kind in st.mon['done']
        if i == ('sym', 'each'): return st.mem[ghost(kind)] == st.read(('f', base[1], '#size'))
        d = sub(st.mem[ghost(kind)], add(i, c(1)))
        return st.facts.prove_ge0(d)

    # -- first call?
    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'rmw' and loc[0] == 'f' and v is not None and 'rmw' not in kw: st.mon['ex'] = (res, is_true(st, v))
        if loc[0] == 'f' and op in ('rmw', 'store', 'cas') and loc[2] in self.t.stop: self.tell(st)

    def on_casok(self, st, fr, loc, exp, v, line): st.mon['cas'] = True
    def on_casfail(self, st, fr, loc, exp, v, line, res): st.mon['cas'] = False

    def first(self, st):
        ex = st.mon['ex']
        if st.mon['cas'] is not None: return st.mon['cas']
        if ex is None: return None
        r, val = ex
        if is_true(st, r): return not val
        if is_false(st, r): return val
        return None

    def touch(self, st, fr, line, what):
        if self.t.once:
            self.chk(self.first(st) is True, st, fr, 'once', 'only the first call', line, '%s although this may not be the first call' % what)

    def tell(self, st): st.mon['told'] = True; st.mon['woken'] = False

    def on_write(self, st, fr, loc, v, line, init=False):
        if loc and loc[0] == 'f' and loc[2] in self.t.stop and not init:
            self.tell(st)

    def on_notify(self, st, fr, cv, all, line, **kw): st.mon['woken'] = True
    def on_atomicwake(self, st, fr, *a, **kw): st.mon['woken'] = True

    # -- joins
    def thread_of(self, loc):
        t = self.t
        if loc is None: return None
        if loc[0] == 'f' and loc[2] in t.thr: return 'join:' + loc[2], loc[1]
        if loc[0] == 'i' and loc[1][0] == 'f' and loc[1][2] in t.many: return 'join:' + loc[1][2], loc
        return None

    def resolve(self, st, loc):
        for _ in range(4):
            v = st.mem.get(loc) if loc else None
            if v is not None and v[0] == 'ref': loc = v[1]
            else: break
        return loc

    def on_call(self, st, fr, call):
        if call.q and call.q.startswith('std::') and call.name in ('join', 'detach') and call.obj is not None:
            o = self.resolve(st, call.obj)
            k = self.thread_of(o)
            if k is None: return
            self.chk(call.name == 'join', st, fr, 'joined', 'not detached', call.line, 'detaches a thread that uses the object')
            self.touch(st, fr, call.line, 'joins a thread')
            self.chk(st.mon['told'], st, fr, 'told', 'stop flag before join', call.line, 'joins a thread that was not told to stop: it is never joined')
            self.chk(st.mon['woken'] or st.mon.get('waited'), st, fr, 'told', 'woken before join', call.line, 'joins a thread that was told to stop but not woken afterwards')
            if k[1][0] == 'i' and k[1][1][0] == 'f' and k[1][1][2] in self.t.many: self.nth(st, k)
            else: self.mark(st, fr, k[0], k[1], call.line)

    def nth(self, st, k):
        i, g = k[1][2], ghost(k[0])
        if i == ('sym', 'each'): st.mem[g] = st.read(('f', k[1][1], '#size'))
        elif zero(st.facts, sub(i, st.mem[g])): st.mem[g] = add(i, c(1))

    def on_ret(self, st, fr, call, v):
        if call.name == 'joinable' and call.q.startswith('std::') and call.obj is not None:
            k = self.thread_of(self.resolve(st, call.obj))
            if k: st.mon['jb'] = tuple(x for x in st.mon['jb'] if x[0] != k) + ((k, v),)
        if call.name in ('request_stop',) and call.q.startswith('std::'): self.tell(st); st.mon['woken'] = True

    def on_wait(self, st, fr, cv, mutexes, pred, timed, line, call): st.mon['waited'] = True

    def on_branch(self, st, fr, *a, **kw):
        for k, v in st.mon['jb']:
            if is_true(st, v): st.mon['jb'] = tuple(x for x in st.mon['jb'] if x[0] != k)
            if is_false(st, v):
                st.mon['jb'] = tuple(x for x in st.mon['jb'] if x[0] != k)
                if k[1][0] == 'i' and k[1][1][0] == 'f' and k[1][1][2] in self.t.many: self.nth(st, k)
                else: self.mark(st, fr, k[0], k[1], None)

    # -- queues
    def taken(self, st, fr, loc, line):
        t = self.t
        if loc[0] != 'f' or loc[2] not in t.queues + t.private: return
        self.touch(st, fr, line, 'discards tasks')
        if loc[2] in t.private:
            for f in t.thr:
                self.chk(self.marked(st, 'join:' + f, loc[1]), st, fr, 'discarded', '%s after the join' % loc[2], line, 'takes the private queue of a worker that may still run')
        else:
            self.chk(st.mon['told'], st, fr, 'discarded', '%s after the flag' % loc[2], line, 'empties the queue before it is closed: what is posted in between stays')
        self.mark(st, fr, 'q:' + loc[2], loc[1], line)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op == 'clear': self.taken(st, fr, self.resolve(st, loc), call.line)

    def on_move(self, st, fr, src, dst, line): self.taken(st, fr, self.resolve(st, src), line)

    def on_swap(self, st, fr, a, b, line):
        for l, o in ((a, b), (b, a)):
            l, o = self.resolve(st, l), self.resolve(st, o)
            s = st.read(('f', o, '#size')); SYMW.setdefault(s, 64)
            if l[0] == 'f' and l[2] in self.t.queues + self.t.private and st.facts.truth(eq0(s)) is True: self.taken(st, fr, l, line)

    def on_exchange(self, st, fr, loc, new, line): self.taken(st, fr, self.resolve(st, loc), line)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        t = self.t
        if t.once:
            f = self.first(st)
            if f is False:
                self.chk(not st.mon['done'], st, fr, 'once', 'a later call does nothing', None, 'acts on a later call')
                return
            self.chk(f is True, st, fr, 'once', 'decided', None, 'can return without having found out whether it is the first call')
        for k in self.kinds():
            kind, f = k.split(':')
            if k in st.mon['done']: self.cx.ok('joined' if kind == 'join' else 'discarded', '%s: %s' % (sig(fr.fn), k)); continue
            if f in t.many:                                    # threads in a container
                locs = [l for l in self.bases(st, f)] or [('f', THIS, f)]
                ok = False
                for l in locs:
                    s = st.read(('f', l, '#size')); SYMW.setdefault(s, 64)
                    ok = ok or zero(st.facts, s) or zero(st.facts, sub(s, st.mem[ghost(k)]))
                self.chk(ok, st, fr, 'joined', k, None, 'can return with threads in %s that were not joined' % f)
            elif t.cont:
                s = st.read(('f', ('f', THIS, t.cont), '#size')); SYMW.setdefault(s, 64)
                self.chk(zero(st.facts, sub(s, st.mem[ghost(k)])), st, fr, 'joined' if kind == 'join' else 'discarded', k, None,
                         'does not %s %s of every worker' % ('join' if kind == 'join' else 'empty', f))
            elif kind == 'join':
                self.chk(False, st, fr, 'joined', k, None, 'can return although the thread %s may still run' % f)
            else:
                nothing = t.thr and all('join:' + h in st.mon['done'] for h in t.thr) and t.lazy
                self.chk(nothing, st, fr, 'discarded', k, None, 'can return with tasks left in %s' % f)

    def bases(self, st, f):
        return {k[1] for k in st.mem if k[0] == 'f' and k[2] == '#size' and k[1][0] == 'f' and k[1][2] == f}


class Starts:
    """No task is started without a fresh look at the abort flag."""

    def __init__(self, cx, x, pure): self.cx, self.x, self.pure = cx, x, pure

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(ld=(), clear=False)

    def on_entry(self, st, fr): pass

    def see(self, st):
        if st.mon['clear']: return
        if is_false(st, field(st, THIS, self.x.abort)) or any(is_false(st, r) for l, r in st.mon['ld']): st.mon['clear'] = True

    def on_branch(self, st, fr, *a, **kw): self.see(st)
    def on_return(self, st, fr, *a, **kw): self.see(st)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and loc[0] == 'f' and loc[1] == THIS and loc[2] in self.pure: st.mon['ld'] = tuple(a for a in st.mon['ld'] if a[0] != loc) + ((loc, res),)

    def on_call(self, st, fr, call):
        if call.q == TASK + '::operator()':
            self.see(st)
            self.cx.check(st.mon['clear'], 'starts', '%s: after a look at the flag' % sig(fr.fn), fr.fn.where(call.line),
                          '%s: starts a task without having looked at the abort flag since the one before: a shutdown has to wait for all queued tasks' % sig(fr.fn), st.trace_list())
            st.mon['clear'] = False; st.mon['ld'] = ()
            self.eng.refresh(st, fr, ('f', THIS, self.x.abort))


def stop_fields(p, cls, fn):
    """Fields that tell the threads to stop: boolean members of the class (or its Impl) that the ending function writes."""
    r = p.record(cls)
    return {f['name'] for f in r['fields'] if re.match(r'^(bool|std::atomic<bool>|std::atomic_bool|std::atomic_flag)$', f['t'])}


def targets(p):
    I = 'plain::'
    by = {x.cls: x for x in executors(p)}
    out = []
    for cls, cont in ((E + 'Manual', None), (E + 'WorkerThread', None), (E + 'Thread', None), (E + 'ThreadPool', 'workers_')):
        root = p.one(cls + '::shutdown')
        k = cls if not cont else E + 'detail::ThreadPoolWorker'
        x = by[k]
        qs = (x.queue,) if x.sh != 'Thread' else ()
        out.append(T(p, root, k, cont, qs, (x.private,) if x.private else (), stop=stop_fields(p, k, root)))
    t = T(p, p.one(I + 'TimerQueue::shutdown'), I + 'TimerQueue::Impl', queues=('request_queue',), stop=stop_fields(p, I + 'TimerQueue::Impl', None))
    t.lazy = True
    out.append(t)
    for q, cls, once in ((I + 'AsyncLogger::Impl::stop', I + 'AsyncLogger::Impl', False), (I + 'net::connection::Manager::stop', I + 'net::connection::Manager::Impl', True),
                         (I + 'ThreadPool::~ThreadPool', I + 'ThreadPool', False)):
        out.append(T(p, p.one(q), cls, once=once, stop=stop_fields(p, cls, None)))
    for t in out:
        if not hasattr(t, 'lazy'): t.lazy = False
    return out


def run(cx):
    p = cx.p
    exs = executors(p)
    sh = shared_of(exs)
    for t in targets(p):
        fields = {t.cls + '::' + f for f in t.thr + t.many + list(t.queues) + list(t.private) + sorted(t.stop)}
        own = t.root.scls or ''
        hit = reaching(p, lambda fn: mentions_field(fn, fields) or any(n and n.get('q') and re.search(r'condition_variable(_any)?::notify|semaphore.*::release', n['q']) for n in fn.nodes))
        inl = lambda fn: fn.fid in hit and fn.sq.startswith((own + '::', t.cls + '::')) or small(fn) and not any(y in fn.file for y in NOISE)
        r = Down(cx, t)
        s = {m: tuple(sorted({f for f in t.queues + tuple(t.stop) if f})) for m in t.mut}
        e = cx.engine([Shared(s), r], inline=inl, max_steps=400000, merge_at=12,
                      invs=[lambda st, k=k, t=t: ge0(sub(st.read(('f', ('f', THIS, t.cont or t.many[0]), '#size')), st.mem.get(ghost(k), FALSE))) for k in r.kinds() if t.cont or t.many])
        e.iter_idx = e.prune = True
        cx.run(e, t.root)
    n = 0
    for x in exs:
        if x.sh == 'Thread': continue
        pure = abortish(p, x.cls)
        quals = {x.cls + '::' + f for f in (x.queue, x.private, x.abort, *pure) if f}
        hit = reaching(p, lambda fn: (fn.scls == x.cls or fn.sq.startswith(x.cls + '::')) and mentions_field(fn, quals))
        runs = reaching(p, lambda fn: fn.sq.startswith(x.cls + '::') and any(n_ and n_.get('q') == TASK + '::operator()' for n_ in fn.nodes))
        callers = p.callers()
        mine = [f for f in p.all() if f.fid in hit and f.fid in runs and f.blocks and not f.nocfg and (f.scls == x.cls or f.lambda_ and f.sq.startswith(x.cls + '::'))]
        ids = {f.fid for f in mine}
        inl = lambda fn: fn.fid in hit and (fn.scls == x.cls or fn.lambda_ and fn.sq.startswith(x.cls + '::')) and not any('Task' in q['t'] for q in fn.params) or small(fn) and not any(y in fn.file for y in NOISE)
        for f in mine:
            if f.ctor or f.dtor: continue
            if callers.get(f.fid, set()) & ids and not (callers.get(f.fid, set()) - ids) and not f.ov: continue
            e = cx.engine([Shared({k: tuple(q for q in v if q in x.fs) for k, v in sh.items()}), Starts(cx, x, pure)], inline=inl, max_steps=400000, merge_at=8)
            cx.run(e, f)
            n += 1
    if n < 4: raise AnalysisError('only %d functions that run tasks' % n)
