"""Socket calls report what the system call reported."""
from ..execs import *
from .. import models
from ..rpcwalk import walk
from .c16 import sig
from .c19 import zero
from .c24 import uncast

RULE = ('Abstract execution of every wrapper of a system call on descriptors with the result of the system call unknown: the call is made once, with the arguments of the wrapper in '
        'their order; a result other than -1 is returned unchanged (true for a bool); -1 sets the error of the thread from errno at once and returns the failure value (-100 for send '
        'and receive calls that would block). connect: true only if the system call, or the later wait together with SO_ERROR, said so; the wait is the one asked for; the blocking mode '
        'is restored on every exit. Listening, connecting and accepting succeed only if every step did.')
LEVEL = 'proof'
ASSUMES = ['system calls answer -1 with errno on failure, as POSIX says']
MIN = {'wrapper': 14, 'error': 3, 'connect': 5, 'steps': 8}
SO = 'plain::net::socket::'
LIBC = {'bind', 'listen', 'accept', 'getsockopt', 'setsockopt', 'send', 'sendto', 'recv', 'recvfrom', 'close', 'shutdown', 'select', 'getsockname', 'getpeername', 'socket', 'socketpair',
        'open', 'read', 'write', 'fcntl', 'ioctl', 'dup', 'lseek', 'accept4', 'poll', 'connect'}
IO = {'send', 'recv', 'recvfrom', 'sendto'}
WOULD = -100
NEUTRAL = ('plain::Error::',)


class Base:
    def __init__(self, cx): self.cx = cx

    def chk(self, ok, st, fr, rule, what, line, msg):
        if not ok and st.facts.infeasible(): return
        self.cx.check(bool(ok), rule, '%s: %s' % (sig(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (short(fr.fn), msg), st.trace_list())

    def val(self, st, fr, ret): return models.rv(self.eng, st, fr, ret) if ret[0] != 'lv' else st.read(ret[1])


def failed(st, v):
    """-1: True, not: False, unknown: None."""
    e = add(v, c(1))
    if zero(st.facts, e): return True
    if st.facts.truth(eq0(e)) is False or st.facts.prove_ge0(v): return False
    return None


class Wrapper(Base):
    def __init__(self, cx, strict): self.cx, self.strict = cx, strict      # strict: the error of the thread is kept too

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(sys=None, n=0, err=None, codes=(), dirty=False)

    def on_call(self, st, fr, call):
        if call.q in LIBC:
            st.mon['n'] += 1
            ps = [('prm', q['name']) for q in self.fn.params]
            a = [uncast(models.rv(self.eng, st, fr, x)) for x in call.args]
            if len(a) == len(ps):
                for i, (x, y) in enumerate(zip(a, ps)):
                    self.chk(x == y or x[0] == 'addr' and x[1] == ('d', y), st, fr, 'wrapper', 'passes argument %d' % (i + 1), call.line, 'argument %d of %s is not the one of the wrapper' % (i + 1, call.q))
        elif call.name == 'set_error' and st.mon['sys'] is not None:
            self.chk(not st.mon['dirty'], st, fr, 'error', 'errno is read at once', call.line, 'another call comes between %s and reading its errno' % st.mon['sys'][0])
            st.mon['err'] = True
        elif st.mon['sys'] is not None and not call.q.startswith(NEUTRAL) and call.q != '__errno_location' and not call.q.startswith('std::'): st.mon['dirty'] = True

    def on_ret(self, st, fr, call, v):
        if call.q in LIBC:
            SYMW[v] = -64 if call.q == 'lseek' else -32      # (one transfer is below 2^31 bytes)
            st.mon['sys'] = (call.q, v)
        elif call.name == 'code' and strip_t(call.cls) == 'plain::Error': st.mon['codes'] = st.mon['codes'] + (v,)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret' or st.infeasible() if hasattr(st, 'infeasible') else how != 'ret': return
        m = st.mon
        self.chk(m['n'] == 1, st, fr, 'wrapper', 'one system call', None, 'makes %d system calls' % m['n'])
        if m['sys'] is None or ret is None: return
        q, R = m['sys']
        f = failed(st, R)
        v = self.val(st, fr, ret)
        rt = strip_t(self.fn.ret)
        if self.strict:
            self.chk(f is False or m['err'], st, fr, 'error', 'a failure sets the error', None, 'may return without noting the error of %s' % q)
            self.chk(f is not False or not m['err'], st, fr, 'error', 'success leaves the error', None, 'notes an error although %s succeeded' % q)
        if rt == 'bool':
            good = is_true(st, v); bad = is_false(st, v)
            if self.fn.name == 'get_nonblocking': return
            same = v in (b_not(eq0(add(R, c(1)))), ge0(R), eq0(R))
            self.chk(same or good and f is False or bad and f is True or bad and st.facts.truth(ge0(R)) is False or good and st.facts.prove_ge0(R), st, fr, 'wrapper', 'reports the outcome', None,
                     'reports another outcome than %s had' % q)
            return
        if self.fn.name.startswith('getsockopt') and rt != 'bool':
            self.chk(zero(st.facts, v) if f is False else not zero(st.facts, v) and f is True, st, fr, 'wrapper', 'reports the outcome', None, 'reports another outcome than %s had' % q)
            return
        same = zero(st.facts, sub(uncast(v), R)) or any(d[0] == 'c' and d[1] % (1 << 32) == 0 for y in walk(v) if isinstance(y, tuple) and len(y) > 1 and y[0] in ('cast', 'wrap', 'call') and uncast(y) == R for d in [sub(v, y)])
        if self.strict and q in IO:
            would = any(zero(st.facts, sub(x, c(WOULD))) for x in m['codes'])
            wont = any(st.facts.truth(eq0(sub(x, c(WOULD)))) is False for x in m['codes'])
            if f is True or f is None:
                ok = zero(st.facts, sub(v, c(WOULD))) and would or q == 'sendto' and zero(st.facts, v) and would or same and wont
                self.chk(ok, st, fr, 'wrapper', 'would block is told from failure', None, 'a call that would block and one that failed are not told apart by what is returned')
                return
        self.chk(same, st, fr, 'wrapper', 'returns the result unchanged', None, 'returns something else than what %s returned' % q)


class SetError(Base):
    """errno becomes the error of the thread."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(last=None, done=False)

    def on_call(self, st, fr, call):
        if call.name == 'set_code' and strip_t(call.cls) == 'plain::Error': st.mon['last'] = models.rv(self.eng, st, fr, call.args[0])
        elif call.name == 'set_error' and not self.fn.params:
            a = models.rv(self.eng, st, fr, call.args[0])
            self.chk(a[0] == 'ld' and a[1][0] == 'd' and a[1][1][:2] == ('call', '__errno_location'), st, fr, 'error', 'the error is errno', call.line, 'notes another number than errno')
            st.mon['done'] = True

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        if not self.fn.params:
            self.chk(m['done'], st, fr, 'error', 'the error is errno', None, 'returns without noting errno'); return
        e = ('prm', self.fn.params[0]['name'])
        v = m['last']
        blk = st.facts.truth(eq0(sub(e, c(11))))
        if v is None: self.chk(False, st, fr, 'error', 'the number is kept', None, 'returns without noting the number')
        elif blk is True: self.chk(zero(st.facts, sub(v, c(WOULD))), st, fr, 'error', 'would block has its own number', None, 'an error that means "would block" is not noted as such')
        else: self.chk(v == e or zero(st.facts, sub(v, e)), st, fr, 'error', 'the number is kept', None, 'notes another number than it was given'); self.chk(blk is False, st, fr, 'error', 'would block has its own number', None, '"would block" is noted like any other error')


class Connect(Base):
    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(nb=None, on=None, off=False, sys=None, wait=None, opt=None, err=False, cnt=())

    def on_call(self, st, fr, call):
        m = st.mon
        ps = [('prm', q['name']) for q in self.fn.params]
        if call.q == 'connect':
            a = [uncast(models.rv(self.eng, st, fr, x)) for x in call.args]
            self.chk(a == ps[:3], st, fr, 'connect', 'connects as asked', call.line, 'connects another descriptor or address than it was given')
            self.chk(m['sys'] is None, st, fr, 'connect', 'connects once', call.line, 'connects twice')
        elif call.name == 'set_nonblocking':
            a = [uncast(models.rv(self.eng, st, fr, x)) for x in call.args]
            if len(a) == 2 and a[0] == ps[0]:
                if a[1] == c(1): m['on'] = call.nid
                elif a[1] == FALSE: m['off'] = True
        elif call.name == 'set_error': m['err'] = True
        elif call.q == 'poll':
            w = uncast(models.rv(self.eng, st, fr, call.args[2]))
            t = m['cnt']; G = st.facts.prove_ge0
            pos = any(G(sub(x, c(1))) for x in t); non = any(G(neg(x)) for x in t)
            mine = any(isinstance(y, tuple) and y in t for y in walk(w)) or w in t
            ok = w[0] == 'c' and (w[1] < 0 and non or w[1] >= (1 << 31) - 1 and (pos and len(t) > 1 or any(G(sub(x, w)) for x in t))) or mine and pos and not non
            self.chk(ok, st, fr, 'connect', 'waits as long as asked', call.line, 'does not wait as long as it was asked to (no timeout means for ever)')
            a0 = models.rv(self.eng, st, fr, call.args[0])
            if a0[0] == 'addr':
                ev = st.read(('f', a0[1], 'events'))
                self.chk(uncast(st.read(('f', a0[1], 'fd'))) == ps[0] and ev[0] == 'c' and ev[1] & 4, st, fr, 'connect', 'waits for the connection', call.line, 'does not wait until its descriptor can be written')

    def on_ret(self, st, fr, call, v):
        m = st.mon
        if call.q == 'connect': SYMW[v] = -32; m['sys'] = v
        elif call.name == 'get_nonblocking': m['nb'] = v
        elif call.name == 'set_nonblocking' and m['on'] == call.nid: m['on'] = ('r', v)
        elif call.q in ('poll', SO + 'select', 'select'): SYMW[v] = -32; m['wait'] = v
        elif call.name == 'getsockoptb' or call.q == 'getsockopt':
            a = [models.rv(self.eng, st, fr, x) for x in call.args]
            if a[2] == c(4) and a[1] == c(1) and a[3][0] == 'addr': m['opt'] = a[3][1]; m['optok'] = v; m['optv'] = st.read(a[3][1])
        elif call.name == 'count' and 'duration' in call.q: SYMW.setdefault(v, -64); m['cnt'] = m['cnt'] + (v,)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        v = self.val(st, fr, ret)
        nbk = m['nb'] is None or is_true(st, m['nb'])
        changed = m['on'] is not None and not (isinstance(m['on'], tuple) and is_false(st, m['on'][1]))
        self.chk(not changed or m['off'] or nbk and m['nb'] is not None, st, fr, 'connect', 'the blocking mode is restored', None, 'leaves the descriptor in another blocking mode than it had')
        self.chk(not (nbk and m['nb'] is not None and m['off']), st, fr, 'connect', 'the blocking mode is restored', None, 'makes a non-blocking descriptor blocking')
        ok1 = m['sys'] is not None and failed(st, m['sys']) is False
        ok2 = m['wait'] is not None and st.facts.prove_ge0(sub(m['wait'], c(1))) and m['opt'] is not None and (zero(st.facts, m['optv']) or v == eq0(m['optv']))
        going = any(a[0] == 'eq0' and a[1][0] == 'lin' and -a[1][1] in (4, 11, 114, 115) and any(isinstance(y, tuple) and y and y[0] == 'call' and y[1] == '__errno_location' for y in walk(a)) for a in st.facts.s)
        ok2 = ok2 and going
        if is_false(st, v):
            self.chk(not ok1 or m['off'] or m['sys'] is None, st, fr, 'connect', 'a made connection is reported', None, 'reports failure although it is connected')
            self.chk(m['err'], st, fr, 'error', 'a failed connect sets the error', None, 'fails without noting an error')
        else:
            self.chk(ok1 or ok2, st, fr, 'connect', 'true means connected', None, 'reports success although the connection may have failed or not be made yet')


STEP = {SO + x for x in ('bind', 'listen', 'connect', 'setsockopt')} | {SO + 'Basic::' + x for x in ('create', 'bind', 'listen', 'set_nonblocking', 'set_reuse_addr', 'set_linger', 'connect')} | \
    {SO + 'Listener::init', SO + 'Listener::accept', 'plain::net::connection::Manager::sock_add', 'plain::net::connection::Manager::start',
     'plain::net::connection::Manager::prepare'}


class Steps(Base):
    """Success means that every step succeeded."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(steps=())

    def on_ret(self, st, fr, call, v):
        q = strip_t(call.q)
        if q in STEP or any(q == o for o in STEP): st.mon['steps'] = st.mon['steps'] + ((q.replace('plain::net::', ''), call.line, v),)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret' or ret is None: return
        rt = strip_t(self.fn.ret)
        if rt == 'bool':
            v = self.val(st, fr, ret); no = is_false(st, v)
        elif 'shared_ptr' in rt:
            loc = ret[1] if ret[0] == 'lv' else None
            v = st.read(('f', loc, '#p')) if loc else FALSE; no = is_false(st, v)
        else: return
        if no: return
        for q, line, r in st.mon['steps']:
            ok = is_true(st, r) or v == r
            self.chk(ok, st, fr, 'steps', 'success needs %s' % q, line, 'may report success although %s failed' % q)


def run(cx):
    p = cx.p
    n = 0
    for f in p.all():
        if not f.blocks or f.lambda_ or not (f.file.endswith('net/socket/api.cc') or f.file.endswith('file/api.cc')): continue
        if not called(f) & LIBC: continue
        if f.sq == SO + 'connect' or f.name in ('set_nonblocking', 'get_nonblocking', 'available') or strip_t(f.ret) == 'void': continue
        strict = f.file.endswith('socket/api.cc') and f.name not in ('socketpair', 'make_pair')
        cx.run(cx.engine([Wrapper(cx, strict)], inline=lambda fn: fn.sq == SO + 'none', merge_at=60), f); n += 1
    if n < 14: raise AnalysisError('only %d wrappers of system calls found' % n)
    se = [f for f in p.all() if f.sq == SO + 'set_error' and f.blocks]
    if not se: raise AnalysisError('anchor vanished: ' + SO + 'set_error')
    for f in se:
        cx.run(cx.engine([SetError(cx)], inline=lambda fn: fn.scls == 'plain::Error', merge_at=60), f)
    cx.run(cx.engine([Connect(cx)], inline=lambda fn: fn.file.endswith('socket/api.cc') and fn.name not in ('set_error', 'set_nonblocking', 'get_nonblocking', 'getsockoptb', 'select'), merge_at=60), p.need(SO + 'connect')[0])
    for f in p.all():
        if not f.blocks or f.lambda_ or not any(f.file.endswith(x) for x in ('net/socket/listener.cc', 'net/socket/basic.cc', 'net/listener.cc', 'net/connector.cc', 'connection/manager.cc', 'connection/select.cc', 'connection/epoll.cc')): continue
        if not {strip_t(q) for q in called(f)} & STEP: continue
        cx.run(cx.engine([Steps(cx)], inline=lambda fn, f=f: fn.lambda_ and fn.encl == f.fid and len(fn.blocks) <= 12, merge_at=60), f)


def called(f): return {n['q'] for n in f.nodes if n and n['k'].endswith('CallExpr') and n.get('q')}
