"""Lock order, and what is never done while a lock is held."""
import re
from ..lib import *
from ..lockset import MUTEX, calls_lock, frames
from .. import models

RULE = ('Every function that takes a lock is abstractly executed (its lock-passing helpers and closures inlined); for every lock taken and every '
        'call made while other locks are held, the locks acquired by it (transitively over the call graph, virtual calls to every override) '
        'give edges held -> acquired between lock classes. The graph must be acyclic (a recursive mutex may be re-acquired, a plain one not '
        'even by itself). While a plain mutex is held no user callback or queued task is run, no queued task or pending continuation '
        'is destroyed, no thread is joined and nothing waits for another thread (other than a condition wait releasing that very mutex).')
LEVEL = 'proof'
ASSUMES = ['lock classes stand for their instances', 'user callbacks passed to the library are reached only through std::function, Task or coroutine handles']
MIN = {'lock order': 12, 'no callback under lock': 15, 'no blocking under lock': 15}

CONTENT = re.compile(r'(concurrency::Task\b|TimerStateBasic|(?<!::)\bTask\b|ResultPromise<|coroutine_handle)')
CODEC = re.compile(r'function<(plain::bytes_t|std::basic_string<std::byte[^(]*) ?\(')
CONTS = re.compile(r'^(std::)(deque|vector|queue|list|map|set|unordered_map|multiset|array|basic_|pair)\b')
DESTROY = {'clear', 'pop', 'pop_front', 'pop_back', 'erase', 'assign', 'operator=', 'resize', 'swap_out'}
RUNQ = re.compile(r'^(plain::concurrency::Task::operator\(\)|std::(coroutine_handle|__n4861::coroutine_handle)::(resume|operator\(\))|std::function::operator\(\)|std::invoke|std::move_only_function::operator\(\))$')
BLOCKQ = re.compile(r'^(std::(thread|jthread)::join|std::(counting_semaphore|__semaphore_base|__platform_semaphore|__semaphore_impl)::acquire|std::latch::(wait|arrive_and_wait)|'
                    r'std::(future|__basic_future|shared_future)::(get|wait)|plain::sys::atomic_wait|plain::thread_t::join)$')


def unlambda(prog, fn):
    """Ids of functions the body calls (closures it merely creates excluded)."""
    r = set()
    for n in fn.nodes:
        if not n or not n.get('fid'): continue
        if n['k'] == 'LambdaExpr' or n['k'] == 'DeclRefExpr': continue
        r.add(n['fid'])
    for b in fn.blocks.values():
        for e in b['e']:
            if isinstance(e, dict) and e.get('fid'): r.add(e['fid'])
    return r


TASKVT = re.compile(r'^plain::concurrency::(Task|detail::CallableVtable|detail::Vtable)\b(?!::operator\(\))')


def codec(fn, n):
    """A message codec translates bytes; it is not a callback of the user's program flow."""
    o = n.get('obj')
    return o is not None and bool(CODEC.search(fn.nodes[o].get('t', '')))


def recursive(name, rec): return rec.get(name, False)


class Walk:
    def __init__(self, sm): self.sm = sm

    def name(self, m):
        if m[0] == 'g': return m[1]
        return self.sm.names.get(m)

    def on_member(self, st, fr, loc, q, line, node, nid):
        if loc and MUTEX.search(node.get('t', '')):
            nm = strip_t(q)
            self.sm.names[loc] = nm
            self.sm.rec[nm] = 'recursive' in node['t']
            if 'unique_ptr' in node['t']:
                self.sm.names[('d', ('ld', ('f', loc, '#p')))] = nm
                self.sm.names[('f', loc, '#obj')] = nm

    def held(self, st): return [(m, self.name(m)) for m in st.locks]

    def on_lock(self, st, fr, mutex, line):
        nm = self.name(mutex)
        if nm is None:
            self.sm.unnamed.add((fr.fn.where(line), str(mutex)[:80])); return
        self.sm.own.setdefault(self.sm.cur, set()).add(nm)
        self.sm.sites.add((nm, fr.fn.where(line)))
        for m, h in self.held(st):
            if h is None: continue
            if m == mutex or h == nm:
                if self.sm.rec.get(nm): continue
                self.sm.edge(h, nm, fr, line, 'takes it again' if m == mutex else 'takes another one of the same kind', st)
            else: self.sm.edge(h, nm, fr, line, 'takes', st)

    def plain(self, st): return [h for m, h in self.held(st) if h is not None and not self.sm.rec.get(h)]

    def on_call(self, st, fr, call):
        if RUNQ.match(call.q) or call.q == '#indirect': return
        if BLOCKQ.match(call.q):
            # a condition wait under the same lock is the handshake with the thread that is joined
            self.block(st, fr, call.line, call.q, allow=st.mon.get('waited', ()) if call.name == 'join' else ())
            return
        if call.node.get('fid') and st.locks:
            self.sm.pending.append((call.node['fid'], tuple(self.held(st)), call.q, fr, call.line, st, call))

    def on_usercall(self, st, fr, call):
        if call.node.get('fid') is None and TASKVT.match(fr.fn.sq): return
        if st.locks and not codec(fr.fn, call.node): self.run_user(st, fr, call.line, call.q)

    def on_enter(self, st, fr, call):
        # analysed in context: drop the summary of this very call
        if call is not None:
            self.sm.inlined.add((id(call.node), fr.fn.fid))

    def run_user(self, st, fr, line, what):
        for h in self.plain(st):
            if fr.fn.sq in self.sm.ownpred: continue
            self.sm.report('no callback under lock', '%s in %s' % (h, short(fr.fn)), fr, line, 'calls user code (%s) while holding %s' % (what, h), st)

    def block(self, st, fr, line, what, allow=()):
        for m, h in self.held(st):
            if h is None or m in allow: continue
            self.sm.report('no blocking under lock', '%s in %s' % (h, short(fr.fn)), fr, line, 'waits for another thread (%s) while holding %s' % (what, h), st)

    def on_semwait(self, st, fr, sem, line):
        self.block(st, fr, line, 'semaphore')

    def on_wait(self, st, fr, cv, mutexes, pred, timed, line, call):
        self.block(st, fr, line, 'condition variable', allow=set(mutexes))
        st.mon['waited'] = tuple(sorted(set(st.mon.get('waited', ())) | set(mutexes), key=repr))

    def on_atomicwait(self, st, fr, loc, line): self.block(st, fr, line, 'atomic wait')

    def destroyed(self, st, fr, t, line, what):
        if not CONTENT.search(t): return
        for h in self.plain(st):
            self.sm.report('no callback under lock', '%s in %s' % (h, short(fr.fn)), fr, line,
                           'destroys queued work (%s, %s) while holding %s: its destructor may run the code waiting for it' % (what, t[:60], h), st)

    def on_dtor(self, st, fr, loc, t, line):
        if not st.locks: return
        tt = self.sm.ltypes(fr.fn).get(loc[2]) if loc[0] == 'v' else None
        if tt and (tt.endswith('&') or tt.endswith('*')): return
        if tt and CONTENT.search(tt) and not moved_from(st, loc) and (CONTS.match(strip_t(tt)) or 'Task' in tt):
            self.destroyed(st, fr, tt, line, 'end of scope')

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if not st.locks or op not in ('clear', 'assign', 'erase', 'reset'): return
        t = fr.fn.nodes[call.node['obj']].get('t', '') if 'obj' in call.node else ''
        if op == 'assign' and moved_from(st, loc): return
        if op == 'erase' and 'TimerState' not in t: return
        self.destroyed(st, fr, t, call.line, op)


def moved_from(st, loc):
    v = st.mem.get(('f', loc, '#size'))
    return v is not None and st.facts.truth(eq0(v)) is True or st.mem.get(loc, ('',))[0] == 'moved'


class Summary:
    def __init__(self, cx):
        self.cx, self.p = cx, cx.p
        self.names, self.rec, self.own = {}, {}, {}
        self.edges, self.pending, self.inlined, self.unnamed, self.sites = {}, [], set(), set(), set()
        self.bad, self.cur, self.ownpred = {}, None, set()
        self._lt = {}

    def ltypes(self, fn):
        r = self._lt.get(fn.fid)
        if r is None:
            r = {p['did']: p['t'] for p in fn.params}
            for n in fn.nodes:
                if n and n['k'] == 'DeclStmt':
                    for d in n.get('vars', n.get('decls', [])):
                        if isinstance(d, dict): r[d.get('did')] = d.get('t', '')
            self._lt[fn.fid] = r
        return r

    def edge(self, a, b, fr, line, how, st):
        self.edges.setdefault((a, b), (fr.fn.where(line), short(fr.fn), how, [x.fn.where() + ' ' + short(x.fn) for x in frames(fr)]))

    def report(self, rule, inst, fr, line, msg, st):
        self.bad.setdefault((rule, inst), (fr.fn.where(line), '%s %s' % (short(fr.fn), msg), [x.fn.where() + ' ' + short(x.fn) for x in frames(fr)]))


def takes_lock_param(fn): return any('std::unique_lock' in p['t'] for p in fn.params)


def run(cx):
    p = cx.p
    sm = Summary(cx)
    fns = [f for f in p.all() if f.blocks and not f.nocfg and '/drivers/' not in f.file]
    lockers = [f for f in fns if calls_lock(f)]
    callers = p.callers()
    # direct facts, syntactically, for the transitive summaries
    g = {f.fid: set() for f in fns}
    for f in fns: g[f.fid] = {x for x in unlambda(p, f)}
    for base, ovs in p.overrides.items(): g.setdefault(base, set()).update(ovs)
    usr0, blk0 = {}, {}
    for f in fns:
        if any(x in f.file for x in NOISE): continue
        for n in f.nodes:
            if not n or 'q' not in n: continue
            q = strip_t(n['q'])
            if not n['k'].endswith('CallExpr'): continue
            if RUNQ.match(q) and not codec(f, n): usr0[f.fid] = q
            if BLOCKQ.match(q): blk0[f.fid] = q
        for n in f.nodes:
            if n and n['k'] == 'CallExpr' and not n.get('q') and 'fn' in n and not TASKVT.match(f.sq): usr0.setdefault(f.fid, 'function pointer')
    w = Walk(sm)
    inl = lambda fn: fn.lambda_ or takes_lock_param(fn) or small(fn)
    ran = 0
    for f in lockers:
        if takes_lock_param(f) and callers.get(f.fid): continue
        sm.cur = f.fid
        e = cx.engine([w], inline=inl, max_steps=400000, max_depth=6, merge_at=2, virt_all=True)
        cx.run(e, f)
        ran += 1
    if ran < 40: raise AnalysisError('only %d functions take locks' % ran)
    for f in lockers:
        if takes_lock_param(f): continue
    acq = {k: set(v) for k, v in sm.own.items()}
    trans(g, acq)
    # relocating a task moves its callable, it does not run it; destruction is judged where it happens
    quiet = {f.fid for f in fns if TASKVT.match(f.sq)}
    usr = reach({a: b for a, b in g.items() if a not in quiet}, {k: v for k, v in usr0.items() if k not in quiet})
    blk = reach(g, blk0)
    eng0 = cx.engine([])
    # a mutex whose holder only ever re-enters through helpers analysed in context
    for fid, held, q, fr, line, st, call in sm.pending:
        tg = [fid] + ([o.fid for o in eng0.all_overrides(fid)] if call.node.get('virt') and not call.node.get('qualcall') else [])
        for fid in tg:
            if (id(call.node), fid) in sm.inlined: continue
            f = p.fn(fid)
            if f is None and len(tg) > 1: continue
            if f is not None and any(x in f.file for x in NOISE): continue
            for b in sorted(acq.get(fid, ())):
                for m, h in held:
                    if h is None: continue
                    if h == b and sm.rec.get(b): continue
                    sm.edge(h, b, fr, line, 'calls %s which takes' % q, st)
            pl = [h for m, h in held if h is not None and not sm.rec.get(h)]
            for h in pl:
                if fid in usr:
                    sm.report('no callback under lock', '%s in %s' % (h, short(fr.fn)), fr, line, 'calls %s while holding %s, which runs user code (%s)' % (q, h, via(p, usr, fid)), st)
                if fid in blk:
                    sm.report('no blocking under lock', '%s in %s' % (h, short(fr.fn)), fr, line, 'calls %s while holding %s, which waits for another thread (%s)' % (q, h, via(p, blk, fid)), st)
    # verdicts
    for nm, where in sorted(sm.sites):
        fn = where
        for rule in ('no callback under lock', 'no blocking under lock'): cx.ok(rule, '%s locked at %s' % (nm, re.sub(r':\d+$', '', where)))
    for (rule, inst), (where, msg, tr) in sorted(sm.bad.items()): cx.bad(rule, inst, where, msg, tr)
    cyc = cycles(sm.edges)
    for (a, b), (where, fn, how, tr) in sorted(sm.edges.items()):
        c = cyc.get((a, b))
        back = '; '.join('%s -> %s at %s in %s' % (x, y, sm.edges[(x, y)][0], sm.edges[(x, y)][1]) for x, y in (c or ()) if (x, y) != (a, b))
        cx.check(c is None, 'lock order', '%s -> %s' % (a, b), where, '%s: with %s held it %s %s%s' % (
            fn, a, how, b, '; elsewhere ' + back if back else ''), tr)
    for nm in sorted({n for n, _ in sm.sites}): cx.ok('lock order', nm)
    cx.notes.append('lock classes: %s' % ', '.join(sorted({n for n, _ in sm.sites})))
    cx.notes.append('edges: %s' % ', '.join('%s->%s' % k for k in sorted(sm.edges)))


def trans(g, acq):
    rev = {}
    for a, bs in g.items():
        for b in bs: rev.setdefault(b, set()).add(a)
    wl = list(acq)
    while wl:
        x = wl.pop()
        for y in rev.get(x, ()):
            s = acq.setdefault(y, set())
            n = len(s); s |= acq[x]
            if len(s) != n: wl.append(y)


def reach(g, base):
    rev = {}
    for a, bs in g.items():
        for b in bs: rev.setdefault(b, set()).add(a)
    r = {k: (None, v) for k, v in base.items()}
    wl = list(r)
    while wl:
        x = wl.pop()
        for y in rev.get(x, ()):
            if y not in r: r[y] = (x, None); wl.append(y)
    return r


def via(p, r, fid):
    out = []
    while fid is not None and len(out) < 8:
        f = p.fn(fid)
        nxt, what = r[fid]
        out.append(short(f) if f else str(fid)[:40])
        if what: out.append(what)
        fid = nxt
    return ' > '.join(out)


def cycles(edges):
    """edge -> a cycle (list of edges) through it."""
    succ = {}
    for a, b in edges: succ.setdefault(a, set()).add(b)
    out = {}
    for a, b in edges:
        prev, wl = {b: None}, [b]
        while wl:
            x = wl.pop(0)
            if x == a: break
            for y in succ.get(x, ()):
                if y not in prev: prev[y] = x; wl.append(y)
        if a in prev:
            path, x = [(a, b)], a
            seq = [a]
            while prev[x] is not None: x = prev[x]; seq.append(x)
            seq.reverse()
            out[(a, b)] = path + list(zip(seq, seq[1:]))
    return out
