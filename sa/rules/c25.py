"""What the asynchronous logger accepts is written."""
from ..execs import *
from .. import models
from ..rpcwalk import walk, neg_
from .c16 import sig
from .c19 import zero
from .c24 import Base
from ..engine import arithable

RULE = ('Ownership analysis of the log buffers, over every path of the logger and of its thread (helpers in context). Producer: each accepted message is written exactly once, whole, to the '
        'current buffer, which is fresh or was asked for enough room on the same path; a buffer that is replaced goes behind the waiting ones. Thread: every buffer taken over is appended to the '
        'file exactly once, from the first to the last, content and length as it has them, before it is cleared, reused or destroyed; buffers are thrown away unwritten only if more than 25 '
        'wait and with a notice in the file; what becomes the current or next buffer is empty and not null; the file is flushed before the thread waits; the thread ends only after a '
        'collection that includes the current buffer and began after it saw the stop. Stop: first the flag, then the wake-up, then the join, on every path. File: a message is handed '
        'on whole, once; writing continues behind what was taken until all is written or the file reports an error.')
LEVEL = 'proof'
ASSUMES = ['the buffers are accessed under the lock of the logger (C11)', 'a message is smaller than a log buffer (4 MiB)', 'fwrite takes between none and all of what it is given']
MIN = {'accept': 3, 'collect': 3, 'write': 3, 'reuse': 2, 'stop': 2, 'file': 4}
IMPL = 'plain::AsyncLogger::Impl'
PTR = re.compile(r'^std::unique_ptr<plain::(Fixed|Dynamic)?Ring<')
VEC = re.compile(r'^std::(vector|deque|list)<std::unique_ptr<plain::(Fixed|Dynamic)?Ring<')
POS = models.POS
LIMIT = 25


def tail(loc): return loc[2] if loc and loc[0] == 'f' else None


class Names:
    def __init__(self, p):
        rec = p.record(IMPL)
        if rec is None: raise AnalysisError('anchor vanished: ' + IMPL)
        fs = {f['name']: f['t'] for f in rec['fields']}
        ptrs = [f for f, t in fs.items() if PTR.search(t)]
        self.bufs = self.one(fs, VEC.search, 'buffers')
        self.run = self.one(fs, lambda t: t == 'std::atomic<bool>', 'running flag')
        self.ptrs = ptrs
        # the current one is the one messages are written to
        cur = set()
        for f in p.all():
            if f.scls != IMPL or not f.blocks: continue
            for n in f.nodes:
                if n and n['k'].endswith('CallExpr') and 'Ring' in (n.get('cls') or '') and (n.get('q') or '').endswith('::write'):
                    cur |= {x['q'].rsplit('::', 1)[1] for x in subnodes(f, n) if x.get('q', '').startswith(IMPL + '::') and x['q'].rsplit('::', 1)[1] in ptrs}
        if len(cur) != 1: raise AnalysisError('anchor vanished: the current log buffer (%s)' % sorted(cur))
        self.cur = cur.pop()

    def one(self, fs, ok, what):
        c_ = [f for f, t in fs.items() if ok(t)]
        if len(c_) != 1: raise AnalysisError('anchor vanished: log ' + what)
        return c_[0]


def subnodes(f, n):
    """The expression the member function is called on."""
    out, todo = [], [n.get('obj')]
    while todo:
        i = todo.pop()
        if i is None or not f.nodes[i]: continue
        m = f.nodes[i]; out.append(m)
        todo.extend(x for x in m.get('c', ()) if isinstance(x, int))
        if m.get('obj') is not None: todo.append(m['obj'])
    return out


def isimpl(loc): return loc is not None and loc[0] == 'f' and loc[1][0] == 'd'


class Own(Base):
    """Which buffer is where."""

    def __init__(self, cx, N): self.cx, self.N = cx, N

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(cur='live', bufs=(), wb='none', W=None, first=False, app=0, ra=(), pk=(), sv=(), cmp=None, seen=(), pend=(), cov=(), told=False, cut=False, dirt=False, var=None, wrote=0, room=(), moved=())

    def isf(self, loc, nm): return tail(loc) == nm and loc[1][0] == 'd'
    def res(self, st, loc):
        for _ in range(4):
            v = st.mem.get(loc)
            if v is not None and v[0] == 'ref': loc = v[1]
            else: break
        return loc

    def state(self, st, loc): return dict(st.mon['bufs']).get(loc)

    def put(self, st, loc, s):
        d = dict(st.mon['bufs']); d[loc] = s
        st.mon['bufs'] = tuple(sorted(d.items(), key=repr))

    # -- running flag
    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if op == 'load' and self.isf(loc, self.N.run):
            st.mon['seen'] = tuple(x for x in st.mon['seen'] if x != res) + (res,)
            st.mon['cov'] = tuple(x for x in st.mon['cov'] if x != res)
            st.mon['pend'] = tuple(x for x in st.mon['pend'] if x != res)

    # -- pointers
    def on_make(self, st, fr, loc=None, ptr=None, **kw):
        if loc is not None and loc[0] in 'vt': self.put(st, loc, 'clean')

    def source(self, st, v, loc):
        """State of the buffer a pointer is set from: clean, null, live (the current one), elem, or None."""
        if loc is not None:
            loc = self.res(st, loc)
            if self.isf(loc, self.N.cur): return 'live' if st.mon['cur'] != 'out' else 'null'
            if isimpl(loc) and tail(loc) in self.N.ptrs: return 'clean' if is_true(st, ('not', eq0(st.read(('f', loc, '#p'))))) else 'maybe'
            s = self.state(st, loc)
            if s: return s
            if loc[0] == 'i' and loc[1] == st.mon['W']: return 'dirty'
        if v is not None:
            if is_false(st, v): return 'null'
            if v[0] == 'new': return 'clean'
            if v[0] == 'ld' and v[1][0] == 'f' and v[1][1][0] == 'f' and v[1][1][1][0] == 'd' and tail(v[1][1]) in self.N.ptrs and tail(v[1][1]) != self.N.cur and is_true(st, v): return 'clean'
        return None

    def on_call(self, st, fr, call):
        m, N = st.mon, self.N
        cls = strip_t(call.cls)
        obj = self.res(st, call.obj) if call.obj else None
        if cls == 'std::unique_ptr' and call.name in ('operator=', 'reset') and obj is not None:
            a = call.args[0] if call.args else FALSE
            loc = a[1] if a[0] == 'lv' else None
            v = models.rv(self.eng, st, fr, a) if a[0] != 'lv' else st.read(('f', a[1], '#p'))
            self.assign(st, fr, obj, self.source(st, v, loc), self.res(st, loc) if loc else None, call.line)
        elif cls == 'std::unique_ptr' and call.name == 'unique_ptr' and obj is not None and call.args and call.args[0][0] == 'lv':
            src = self.res(st, call.args[0][1])
            s = self.source(st, None, src)
            if s: self.put(st, obj, s); self.take(st, fr, src)
        elif cls == 'std::unique_ptr' and call.name in ('swap', 'release'):
            self.chk(not self.known(st, obj), st, fr, 'reuse', 'buffers are moved', call.line, 'releases a log buffer in a way that is not followed')
        elif call.name in ('producer_clear', 'consumer_clear', 'clear') and 'Ring' in cls:
            for b, s in m['bufs']:
                if self.points(st, b, obj) and s == 'dirty': self.put(st, b, 'clean')
            if m['W'] is not None and m['wb'] == 'full' and self.elem(st, obj): self.chk(False, st, fr, 'write', 'written before it is cleared', call.line, 'clears a buffer that was not written')
            if self.points(st, ('f', ('d', ('sym', 'this')), N.cur), obj) and m['cur'] == 'live': self.chk(False, st, fr, 'reuse', 'the current buffer is kept', call.line, 'clears the current buffer with its messages')
        elif 'Ring' in cls and call.name == 'write': self.write(st, fr, call, obj)
        elif models.ITER.match(cls) and call.name in ('operator*', 'operator->') and obj is not None: self.visit(st, fr, obj, call.line)
        elif models.ITER.match(cls) and call.name == 'operator++' and obj is not None and self.over(st, obj): self.next(st, fr, call.line)
        elif call.name in ('operator==', 'operator!=') and len(call.args) == 2 and all(a[0] == 'lv' for a in call.args) and self.over(st, call.args[0][1]):
            m['cmp'] = (self.res(st, call.args[0][1]), self.res(st, call.args[1][1]))
        elif call.q == 'File::append' or 'FileAppend' in cls and call.name == 'append':
            self.chk(True, st, fr, 'write', 'appends', call.line, '')
            a = call.args[0]
            l = self.res(st, a[1]) if a[0] == 'lv' else None
            pr = next((x for x in m['sv'] if x[0] == l), None)
            good = False
            if pr and m['W'] is not None:
                p1 = dict(m['pk']).get(pr[1]); p2 = dict(m['ra']).get(pr[2])
                good = p1 is not None and p1 == p2
                self.chk(p1 is None or good, st, fr, 'write', 'content and length of the same buffer', call.line, 'appends the content of a buffer with another length than it has')
            if good:
                self.chk(m['app'] == 0, st, fr, 'write', 'once', call.line, 'appends a buffer to the file twice')
                m['app'] = min(2, m['app'] + 1)
            else: m['told'] = True
            m['dirt'] = True
            m['sv'] = tuple(x for x in m['sv'] if x[0] != l)
        elif call.name == 'flush' and ('File' in cls or 'File' in call.q): m['dirt'] = False
        elif 'condition_variable' in cls and call.name.startswith('wait'):
            self.chk(not m['dirt'], st, fr, 'write', 'flushed before waiting', call.line, 'waits with messages written but not flushed')
            self.chk(m['cur'] != 'out', st, fr, 'reuse', 'there is always a current buffer', call.line, 'waits without a current buffer')

    def known(self, st, loc): return loc is not None and (self.state(st, loc) or isimpl(loc) and tail(loc) in self.N.ptrs)

    def points(self, st, b, obj):
        return obj is not None and obj[0] == 'd' and st.read(('f', b, '#p')) == obj[1]

    def elem(self, st, obj):
        return obj is not None and obj[0] == 'd' and any(isinstance(y, tuple) and y[:1] == ('i',) and (y[1] == st.mon['W'] or tail(y[1]) == self.N.bufs) for y in walk(obj[1]))

    def take(self, st, fr, src):
        if src is None: return
        if self.isf(src, self.N.cur): st.mon['cur'] = 'out'
        elif self.state(st, src): self.put(st, src, 'null')

    def assign(self, st, fr, dst, s, src, line):
        m = st.mon
        if self.isf(dst, self.N.cur):
            self.chk(m['cur'] == 'out' or m['cur'] == 'new', st, fr, 'collect', 'a replaced buffer is kept', line, 'replaces the current buffer although it was not put among the waiting ones: its messages are lost')
            self.chk(s == 'clean', st, fr, 'reuse', 'the current buffer is there and empty', line, 'the buffer that becomes the current one may be missing or hold messages already written (%s)' % s)
            m['cur'] = 'new'
        elif isimpl(dst) and tail(dst) in self.N.ptrs:
            self.chk(s in ('clean', 'null'), st, fr, 'reuse', 'the next buffer is empty', line, 'the next buffer may hold messages (%s)' % s)
        elif s:
            self.chk(s != 'live', st, fr, 'collect', 'a replaced buffer is kept', line, 'takes the current buffer away')
            self.put(st, dst, s)
        if src is not None: self.take(st, fr, src)

    # -- producer
    def write(self, st, fr, call, obj):
        m = st.mon
        cur = next((k[1] for k in st.mem if k[0] == 'f' and k[2] == '#p' and self.isf(k[1], self.N.cur)), None)
        p = obj[1] if obj and obj[0] == 'd' else None
        here = cur is not None and st.read(('f', cur, '#p')) == p or p is not None and p[0] == 'ld' and p[1][0] == 'f' and self.isf(p[1][1], self.N.cur)
        self.chk(here, st, fr, 'accept', 'into the current buffer', call.line, 'writes a message to another buffer than the current one')
        v = [models.rv(self.eng, st, fr, a) for a in call.args[:2]]
        self.chk(v[0][0] == 'addr' and v[0][1][0] == 'i' and v[0][1][1] == self.prm and zero(st.facts, v[0][1][2]) and zero(st.facts, sub(v[1], self.n(st))), st, fr, 'accept', 'whole', call.line, 'does not write the whole message')
        ok = m['cur'] == 'new' or any(a[0] == p and st.facts.prove_ge0(sub(a[1], self.n(st))) for a in m['room'])
        self.chk(ok, st, fr, 'accept', 'with room for it', call.line, 'writes a message to a buffer that may not have room for it: the rest of it is lost')
        m['wrote'] = min(2, m['wrote'] + 1)

    def n(self, st): return st.read(('f', self.prm, '#size'))

    def on_ret(self, st, fr, call, v):
        m = st.mon
        if v is None or 'Ring' not in strip_t(call.cls) or not call.obj or call.obj[0] != 'd': return
        P = call.obj[1]
        if call.name == 'peek' and (not call.args or zero(st.facts, models.rv(self.eng, st, fr, call.args[0]))): m['pk'] = tuple(x for x in m['pk'] if x[0] != v) + ((v, P),)
        elif call.name == 'read_avail':
            m['ra'] = tuple(x for x in m['ra'] if x[0] != v) + ((v, P),)
        elif call.name == 'write_avail': SYMW.setdefault(v, 64); m['room'] = m['room'] + ((P, v),)

    # -- containers
    def on_cont(self, st, fr, op, loc, args, call, **kw):
        m, N = st.mon, self.N
        loc = self.res(st, loc)
        if op == 'ctor' and 'string_view' in call.cls and len(args) == 2:
            m['sv'] = tuple(x for x in m['sv'] if x[0] != loc) + ((loc, models.rv(self.eng, st, fr, args[0]), models.rv(self.eng, st, fr, args[1])),)
            return
        shared = self.isf(loc, N.bufs)
        if op in ('push', 'insert'):
            src = self.res(st, args[-1][1]) if args and args[-1][0] == 'lv' else None
            if src is not None and self.isf(src, N.cur):
                back = True
                if call.name in ('insert', 'emplace'):
                    i = models.itc(st, self.res(st, args[0][1])) if args[0][0] == 'lv' else None
                    back = i is not None and zero(st.facts, sub(st.read(('f', i[0], POS)), st.read(('f', loc, '#size'))))
                elif call.name not in ('push_back', 'emplace_back'): back = False
                self.chk(back and (shared or loc == m['W'] and m['wb'] == 'full'), st, fr, 'collect', 'behind the waiting ones', call.line, 'puts the current buffer in front of the waiting ones or out of reach of the thread')
                m['cur'] = 'out'
                if shared: m['moved'] = m['seen']
                else: m['cov'] = tuple(x for x in m['pend'] if x in m['seen'])
            elif shared: self.chk(False, st, fr, 'collect', 'only the current buffer waits', call.line, 'puts another buffer than the current one among the waiting ones')
            return
        if shared and op in ('pop', 'erase', 'clear', 'resize', 'assign'):
            self.chk(False, st, fr, 'collect', 'waiting buffers are kept', call.line, 'throws waiting buffers away'); return
        if loc != m['W'] or m['W'] is None: return
        if op == 'erase' and m['wb'] == 'full':
            sz = st.read(('f', loc, '#size'))
            self.chk(st.facts.prove_ge0(sub(sz, c(LIMIT + 1))), st, fr, 'write', 'no buffer is thrown away unless more than %d wait' % LIMIT, call.line, 'throws away buffers that were not written although no more than %d may wait' % LIMIT)
            m['cut'] = True
        elif op in ('clear', 'resize', 'pop', 'assign', 'erase'):
            self.chk(m['wb'] != 'full', st, fr, 'write', 'written before it is destroyed', call.line, 'destroys buffers that were not written')
        elif op == 'index':
            i = kw.get('idx')
            self.at(st, fr, i, call.line)
            vs = [k for k, x in st.mem.items() if x == i and k[0] == 'v']
            if m['wb'] == 'full': m['var'] = tuple(x for x in vs if not m['var'] or x in m['var']) or m['var']

    def at(self, st, fr, pos, line):
        m = st.mon
        if m['wb'] == 'full' and not m['first']:
            self.chk(zero(st.facts, pos), st, fr, 'write', 'from the first', line, 'does not begin with the oldest buffer')
            m['first'] = True

    def over(self, st, l):
        i = models.itc(st, self.res(st, l))
        return i is not None and st.mon['W'] is not None and self.res(st, i[1]) == st.mon['W']

    def visit(self, st, fr, it, line):
        if self.over(st, it):
            i = models.itc(st, it)
            self.at(st, fr, st.read(('f', i[0], POS)), line)

    def next(self, st, fr, line):
        m = st.mon
        if m['wb'] != 'full': return
        nothing = any(zero(st.facts, v) for v, p in m['ra'])
        self.chk(m['app'] == 1 or nothing, st, fr, 'write', 'each is written', line, 'goes on to the next buffer without having written this one')
        m['app'] = 0; m['ra'] = m['pk'] = ()

    def on_write(self, st, fr, loc, v, line, init=False):
        if not init and st.mon['var'] and loc in st.mon['var'] and v is not None and zero(st.facts, sub(sub(v, st.read(loc)), c(1))):
            st.mon['var'] = (loc,)
            self.next(st, fr, line)

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        m = st.mon
        if m['wb'] != 'full' or m['W'] is None: return
        sz = st.read(('f', m['W'], '#size'))
        done = False
        if m['cmp']:
            x, y = m['cmp']; m['cmp'] = None
            px, py = st.read(('f', x, POS)), st.read(('f', y, POS))
            done = zero(st.facts, sub(px, py)) and (zero(st.facts, sub(px, sz)) or zero(st.facts, sub(py, sz)))
        if not done: done = any(x in st.mem and st.facts.prove_ge0(sub(st.mem[x], sz)) for x in m['var']) if m['var'] else zero(st.facts, sz)
        if done and m['app'] == 0: m['wb'] = 'written'; m['first'] = False; m['var'] = None

    def on_swap(self, st, fr, a, b, line):
        a, b = self.res(st, a), self.res(st, b)
        if self.isf(a, self.N.bufs) or self.isf(b, self.N.bufs): self.collect(st, fr, b if self.isf(a, self.N.bufs) else a, line, True)

    def on_move(self, st, fr, src, dst, line):
        src, dst = self.res(st, src), self.res(st, dst)
        if self.isf(src, self.N.bufs): self.collect(st, fr, dst, line, False)

    def collect(self, st, fr, w, line, back):
        m = st.mon
        self.chk(m['wb'] != 'full', st, fr, 'write', 'written before the next are taken', line, 'takes over waiting buffers while those taken before are not written')
        if back and m['wb'] != 'none':
            sz = st.read(('f', w, '#size')); SYMW.setdefault(sz, 64)
            self.chk(zero(st.facts, sz), st, fr, 'write', 'written buffers do not come back', line, 'puts buffers that were written among the waiting ones: their messages are written again')
        m['W'] = w; m['wb'] = 'full'; m['first'] = False; m['app'] = 0; m['told'] = m['cut'] = False; m['ra'] = m['pk'] = ()
        m['pend'] = m['seen']
        m['cov'] = tuple(x for x in m['moved'] if x in m['seen']) if m['cur'] in ('out', 'new') else ()
        m['moved'] = ()
        self.cx.ok('collect', sig(self.fn) + ': taken over')

    def on_unlock(self, st, fr, mutex, line):
        if tail(mutex) and 'mutex' in str(tail(mutex)) or isimpl(mutex):
            self.chk(st.mon['cur'] != 'out', st, fr, 'reuse', 'there is always a current buffer', line, 'leaves no current buffer: the next message is written to none')
            if st.mon['cur'] == 'new': st.mon['cur'] = 'live'


class Accept(Own):
    def init(self, st, fr):
        Own.init(self, st, fr)
        self.prm = ('d', ('prm', fr.fn.params[0]['name']))

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        empty = zero(st.facts, self.n(st))
        self.chk(m['wrote'] == 1 or empty, st, fr, 'accept', 'once', None, 'writes a message %d times' % m['wrote'])
        self.chk(m['cur'] != 'out', st, fr, 'reuse', 'there is always a current buffer', None, 'leaves no current buffer')


class Thread(Own):
    prm = None

    def on_dtor(self, st, fr, loc, t, line):
        m = st.mon
        if loc == m['W']: self.chk(m['wb'] != 'full', st, fr, 'write', 'written before it is destroyed', line, 'ends with buffers it took over but did not write')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        self.chk(m['wb'] == 'written', st, fr, 'write', 'all that was taken over', None, 'ends with buffers it took over but did not write')
        self.chk(not m['cut'] or m['told'], st, fr, 'write', 'dropping is told', None, 'drops buffers without a notice')
        self.chk(any(is_false(st, v) for v in m['cov']), st, fr, 'collect', 'a last time after the stop', None,
                 'ends without having taken over the waiting buffers and the current one after it saw the stop: what was accepted meanwhile is lost')


class Stop(Base):
    def __init__(self, cx, N): self.cx, self.N = cx, N
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(off=False, woken=False, joined=False, ld=())

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if tail(loc) != self.N.run: return
        if op in ('load', 'rmw', 'cas') and not st.mon['off'] and res is not None: st.mon['ld'] = st.mon['ld'] + (res,)
        if op != 'load' and v is not None and is_false(st, v): st.mon['off'] = True

    def on_notify(self, st, fr, **kw): self.wake(st)
    def wake(self, st):
        if st.mon['off']: st.mon['woken'] = True

    def on_call(self, st, fr, call):
        m = st.mon
        if 'condition_variable' in call.cls and call.name.startswith('notify'): self.wake(st)
        elif call.name == 'join' and 'thread' in call.cls:
            self.chk(m['off'], st, fr, 'stop', 'told before waited for', call.line, 'waits for the thread without having told it to stop')
            self.chk(m['woken'], st, fr, 'stop', 'woken before waited for', call.line, 'waits for the thread without having woken it after telling it to stop')
            m['joined'] = True

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        self.chk(m['joined'] or any(is_false(st, v) for v in m['ld']), st, fr, 'stop', 'the thread has ended', None,
                 'returns without waiting for the thread: what it has not written yet may be lost')


class Fwd(Base):
    """A file hands the message on, whole and once."""

    def init(self, st, fr):
        self.fn = fr.fn
        self.prm = ('d', ('prm', fr.fn.params[0]['name']))
        st.mon['n'] = 0

    def on_call(self, st, fr, call):
        if not (call.name == 'append' and 'FileAppend' in call.cls): return
        a = call.args[0]
        l = a[1] if a[0] == 'lv' else None
        for _ in range(4):
            v, al = st.mem.get(l), st.mem.get(('#al', l))
            if v is not None and v[0] == 'ref': l = v[1]
            elif al is not None and al[1] is None: l = al[0]
            else: break
        self.chk(l == self.prm, st, fr, 'file', 'the whole message', call.line, 'hands on something else than the message')
        st.mon['n'] = min(2, st.mon['n'] + 1)

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['n'] == 1, st, fr, 'file', 'once', None, 'hands the message on %d times' % st.mon['n'])


G, MSG = ('g', '#done'), ('g', '#message')


class Append(Base):
    """All of it is written, in order."""

    def __init__(self, cx): self.cx, self.cands, self.views = cx, [], []

    def init(self, st, fr):
        self.fn = fr.fn
        self.prm = ('d', ('prm', fr.fn.params[0]['name']))
        st.mem[G] = FALSE
        st.mem[('f', self.prm, '#data')] = ('addr', ('i', MSG, FALSE))
        st.mon.update(err=())

    def on_decl(self, st, fr, loc, v, var, line):
        if v is not None and v[0] == 'c' and v[1] == 0 and loc not in self.cands: self.cands.append(loc)
        l = loc
        if 'string_view' in var['t'] and l not in self.views: self.views.append(l)

    def rest(self, i):
        def q(st):
            l = self.views[i] if i < len(self.views) else None
            l = st.mem[l][1] if l in st.mem and st.mem[l][0] == 'ref' else l
            return eq0(sub(sub(st.read(('f', self.prm, '#size')), st.mem.get(G, FALSE)), st.mem[('f', l, '#size')])) if l and ('f', l, '#size') in st.mem else TRUE
        return q

    def at(self, i):
        def q(st):
            l = self.views[i] if i < len(self.views) else None
            l = st.mem[l][1] if l in st.mem and st.mem[l][0] == 'ref' else l
            return eq0(sub(sub(st.mem[('f', l, '#data')], ('addr', ('i', MSG, FALSE))), st.mem.get(G, FALSE))) if l and ('f', l, '#data') in st.mem else TRUE
        return q

    def inv(self, i): return lambda st: eq0(sub(st.mem.get(self.cands[i], FALSE), st.mem.get(G, FALSE))) if i < len(self.cands) and self.cands[i] in st.mem else TRUE

    def on_ret(self, st, fr, call, v):
        if call.name in ('fwrite', 'fwrite_unlocked'):
            a = [models.rv(self.eng, st, fr, x) for x in call.args]
            done = st.mem[G]
            o = None
            if a[0][0] == 'addr' and a[0][1][0] == 'i' and a[0][1][1] == MSG: o = a[0][1][2]
            elif a[0][0] == 'lin':
                for s, k in a[0][2]:
                    if k == 1 and s[0] == 'addr' and s[1][0] == 'i' and s[1][1] == MSG: o = add(sub(a[0], s), s[1][2])
            if o is None and arithable(a[0]): o = sub(a[0], ('addr', ('i', MSG, FALSE)))
            n = a[2] if zero(st.facts, sub(a[1], c(1))) else a[1] if zero(st.facts, sub(a[2], c(1))) else None
            self.chk(o is not None and zero(st.facts, sub(o, done)), st, fr, 'file', 'continues behind what was taken', call.line, 'does not continue behind what was written so far: bytes are lost or written twice')
            self.chk(n is not None and st.facts.prove_ge0(sub(sub(st.read(('f', self.prm, '#size')), done), n)), st, fr, 'file', 'no more than the message', call.line, 'writes more than is left of the message')
            SYMW.setdefault(v, 64)
            st.facts = st.facts.assume(ge0(v)).assume(ge0(sub(n, v))) if n is not None else st.facts
            st.mem[G] = add(done, v)
        elif call.name in ('ferror', 'ferror_unlocked'): st.mon['err'] = (v,)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        left = sub(st.read(('f', self.prm, '#size')), st.mem[G])
        self.chk(zero(st.facts, left) or any(is_true(st, v) for v in st.mon['err']), st, fr, 'file', 'all of it', None, 'returns with %s bytes of the message unwritten although the file reported no error' % val_str(left))


def run(cx):
    p = cx.p
    N = Names(p)
    here = lambda fn: fn.file.endswith('basic/async_logger.cc') and not fn.sq.startswith('File::')
    acc = [f for f in p.find(IMPL + '::append') if f.blocks] or [f for f in p.find('plain::AsyncLogger::append') if f.blocks]
    if len(acc) != 1: raise AnalysisError('anchor vanished: append of the logger')
    e = cx.engine([Accept(cx, N)], inline=here, merge_at=60); e.iter_idx = True
    cx.run(e, acc[0])
    # the thread
    loops = [f for f in p.all() if f.blocks and f.file.endswith('basic/async_logger.cc') and (f.sq.startswith(IMPL) or f.lambda_) and any(n and n['k'].endswith('CallExpr') and (n.get('q') or '').startswith('File::append') for n in f.nodes)]
    if not loops: raise AnalysisError('anchor vanished: the thread of the logger')
    callers = p.callers()
    top = set()
    todo = [f.fid for f in loops]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        kf = p.fn(k)
        up = [kf.encl] if kf.lambda_ and p.fn(kf.encl) is not None and p.fn(kf.encl).name != 'start' else [c_ for c_ in callers.get(k, ()) if p.fn(c_) is not None and here(p.fn(c_)) and not p.fn(c_).lambda_ and p.fn(c_).name not in ('start',)]
        if not up: top.add(k)
        todo.extend(up)
    if len(top) != 1: raise AnalysisError('anchor vanished: the thread of the logger (%d candidates)' % len(top))
    e = cx.engine([Thread(cx, N)], inline=here, merge_at=60, max_steps=400000); e.iter_idx = True
    cx.run(e, p.fn(top.pop()))
    cx.run(cx.engine([Stop(cx, N)], inline=here, merge_at=20), p.need(IMPL + '::stop')[0])
    for f in p.all():
        if f.dtor and f.scls == IMPL and f.blocks: cx.run(cx.engine([Stop(cx, N)], inline=here, merge_at=20), f)
    fa = [f for f in p.find('File::append') if f.blocks]
    if not fa: raise AnalysisError('anchor vanished: File::append')
    for f in fa: cx.run(cx.engine([Fwd(cx)], inline=lambda fn: fn.sq.startswith('File::'), merge_at=20), f)
    ap = p.need('plain::FileAppend::append')[0]
    r = Append(cx)
    cx.run(cx.engine([r], inline=lambda fn: fn.scls == 'plain::FileAppend', merge_at=60, invs=[r.inv(0), r.inv(1), r.inv(2), r.rest(0), r.at(0), r.rest(1), r.at(1), lambda st: ge0(sub(st.read(('f', r.prm, '#size')), st.mem.get(G, FALSE)))]), ap)
