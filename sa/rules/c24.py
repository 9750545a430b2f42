"""Readiness is never dropped: work flags, the work queue of the manager and the readiness backends."""
from ..execs import *
from .. import models
from ..rpcwalk import walk, neg_, Fr, CB, MG, ST, SK
from .c16 import sig
from .c19 import zero
from ..values import lin_parts

RULE = ('Abstract execution (helpers in context) of the work of a connection, of its scheduling by the manager and of the readiness backends, with the work flags as bits of one '
        'word that other threads may raise whenever its lock is free. Connection: the input flag is lowered only before a read and raised again when the read may have delivered '
        'bytes; the output flag is lowered only in the locked section in which the output stream was found empty; the command flag only when the input is empty or the decoder asked '
        'for more, and it is raised after every read that delivered; raising a flag that was not set queues the connection; a written message raises the output flag. '
        'Manager: after its work a connection that failed (or whose socket error was consumed) is removed, one that is not idle is queued again, and otherwise the next waiting one is '
        'taken; the count of works is given back before that, exactly once; a queued id is either executed with the count raised, or put into both waiting containers. Backends: every '
        'event ends in accept, command, work or removal of its own connection; a wait interrupted by a signal does not end the loop; every fd_set access is inside the set.')
LEVEL = 'proof'
ASSUMES = ['stream transfer contract (C06)', 'flags, queues and counters are accessed under their locks (C11)',
           'one work of a connection runs at a time (its executor has one thread)', 'select/epoll report a descriptor as poll(2) does']
MIN = {'input': 3, 'output': 2, 'command': 2, 'queued': 4, 'manager': 8, 'event': 6, 'signal': 2, 'fd_set': 5}
CI = CB + '::Impl'
MI = MG + '::Impl'
INV = c(-1)                  # connection::kInvalidId, socket::kInvalidId
EP, SE = 'plain::net::connection::Epoll', 'plain::net::connection::Select'


def uncast(v):
    while v[0] in ('cast', 'wrap'): v = v[2] if v[0] == 'cast' else v[1]
    return v


def flagword(p):
    fs = [f['name'] for f in p.record(CI)['fields'] if re.match(r'^unsigned (char|short|int|long)$|^u?int\d+_t$', f['t'])]
    if 'work_flags' in fs: return 'work_flags'
    # the byte that is used with shifted enumerators
    hit = [f for f in fs if sum(1 for fn in p.all() if fn.sq.startswith(CI) and any(
        n and n['k'] in ('CompoundAssignOperator',) and n.get('op') in ('|=', '&=') for n in fn.nodes) and mentions_field(fn, {CI + '::' + f}))]
    if len(hit) != 1: raise AnalysisError('anchor vanished: work flags of a connection')
    return hit[0]


class Bits:
    """What a write does to a word of flags: (bits raised, bits lowered), of constants or shifted symbols; None if it is not such an update."""

    @staticmethod
    def delta(old, new):
        new, old = uncast(new), uncast(old)
        if new == old: return set(), set()
        if new == FALSE: return set(), {'all'}
        if new[0] == 'op' and new[1] in ('|', '&') and len(new) >= 4:
            for a, b in ((new[2], new[3]), (new[3], new[2])):
                d = Bits.delta(old, a)
                if d is None: continue
                b = uncast(b)
                up, dn = set(d[0]), set(d[1])
                if new[1] == '|':
                    m = Bits.mask(b)
                    if m is None: return None
                    return up | m, dn - m
                m = Bits.mask(Bits.inv(b))
                if m is None: return None
                return up - m, dn | m
        return None

    @staticmethod
    def inv(b):
        if b[0] == 'c': return c(~b[1] & 0xff)
        if b[0] == 'op' and b[1] == '~': return uncast(b[2])
        x = sub(neg(b), c(1))          # ~x == -x-1
        return uncast(x) if x[0] != 'lin' else ('op', '~', b)

    @staticmethod
    def mask(b):
        if b[0] == 'c': return {1 << i for i in range(16) if b[1] >> i & 1}
        if b[0] == 'op' and b[1] == '<<': return {b}
        return None


def path_field(loc):
    """Innermost member of the connection's Impl the location goes through."""
    while loc:
        if loc[0] == 'f':
            if loc[2] not in ('#p',): return loc[2]
            loc = loc[1]
        elif loc[0] == 'd':
            v = uncast(loc[1])
            loc = v[1] if v[0] == 'ld' else None
        else: return None
    return None


class Base:
    def __init__(self, cx): self.cx = cx

    def chk(self, ok, st, fr, rule, what, line, msg):
        if not ok and st.facts.infeasible(): return
        self.cx.check(bool(ok), rule, '%s: %s' % (sig(self.fn), what), fr.fn.where(line) if line else fr.fn.where(), '%s: %s' % (short(fr.fn), msg), st.trace_list())


class Work(Base):
    """One work of a connection."""

    def __init__(self, cx, flags, bits, judge=True):
        self.cx, self.flags, self.bit, self.judge = cx, flags, bits, judge
        self.roles = {}
        self.sides = {}

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(sizes=(), codes=(), low=(), pull=None, ins='none', cmd=False, outs=())

    def stream(self, call): return path_field(call.obj) if call.obj else None

    def on_call(self, st, fr, call):
        if strip_t(call.cls) == ST and call.name in ('pull', 'push'):
            s = self.stream(call)
            self.roles.setdefault(call.name, set()).add(s)
            m = st.mon
            if call.name == 'pull':
                m['sizes'] = tuple(x for x in m['sizes'] if x[0] != s)
                m['codes'] = ()

    def on_ret(self, st, fr, call, v):
        m = st.mon
        cls = strip_t(call.cls)
        if cls == ST:
            s = self.stream(call)
            if call.name == 'pull':
                SYMW[v] = -32
                m['pull'] = v; m['ins'] = 'pulled-low' if m['ins'] in ('low', 'low-late', 'pulled-low') else 'pulled'
                m['cmd'] = False
            elif call.name in ('size', 'empty'):
                SYMW.setdefault(v, 64)
                m['sizes'] = tuple(x for x in m['sizes'] if x[0] != s) + ((s, call.name, v),)
            elif call.name in ('push', 'write', 'push_await'):
                m['sizes'] = tuple(x for x in m['sizes'] if x[0] != s)
        elif cls == 'plain::Error':
            if call.name == 'is_code' and call.args:
                a = models.rv(self.eng, st, fr, call.args[0])
                m['codes'] = m['codes'] + (('is', a[1] if a[0] == 'c' else None, v),)
            elif call.name == 'code': m['codes'] = m['codes'] + (('code', None, v),)

    def fresh(self, st, mutex):
        # what was measured before the lock was (re)taken says nothing about the output
        if mutex[0] == 'f' and 'mutex' in self.cx_mut(mutex): st.mon['sizes'] = tuple(x for x in st.mon['sizes'] if x[0] not in self.outside())

    def outside(self): return self.roles_known.get('push', ())

    def cx_mut(self, mutex): return ('mutex',) if mutex[2] in self.mut else ()

    def on_lock(self, st, fr, mutex, line): self.fresh(st, mutex)
    def on_unlock(self, st, fr, mutex, line): self.fresh(st, mutex)

    def empty(self, st, side):
        for s, k, v in st.mon['sizes']:
            if s in self.roles_known.get(side, ()):
                if (zero(st.facts, v) if k == 'size' else is_true(st, v)): return True
        return False

    def more(self, st):
        for k, code, v in st.mon['codes']:
            if k == 'is' and code in self.need and is_true(st, v): return True
            if k == 'code' and any(zero(st.facts, sub(v, c(x))) for x in self.need): return True
        return False

    def on_write(self, st, fr, loc, v, line, init=False):
        if init or not loc or loc[0] != 'f' or loc[2] != self.flags: return
        m = st.mon
        d = Bits.delta(st.read(loc), v)
        if d is None:
            self.chk(False, st, fr, 'input', 'flags change one by one', line, 'the work flags are replaced: what other threads raised is lost'); return
        up, dn = d
        I, O, C = self.bit['Input'], self.bit['Output'], self.bit['Command']
        if I in dn or 'all' in dn:
            m['ins'] = 'low' if m['pull'] is None else 'low-late'
        if I in up: m['ins'] = 'raised'
        if C in up: m['cmd'] = True
        if not self.judge: return
        if C in dn or 'all' in dn:
            self.chk(self.empty(st, 'pull') or self.more(st), st, fr, 'command', 'lowered when nothing can be decoded', line,
                     'the command flag is lowered although complete messages may be waiting')
            m['cmd'] = 'low'
        if O in dn or 'all' in dn:
            self.chk(any(x[0] == 'f' and x[2] in self.mut for x in st.locks), st, fr, 'output', 'lowered under the lock', line, 'the output flag is lowered without the lock of the senders')
            self.chk(self.empty(st, 'push'), st, fr, 'output', 'lowered when everything is sent', line,
                     'the output flag is lowered although bytes may be left (or were written since the test)')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret' or not self.judge: return
        m = st.mon
        r = models.rv(self.eng, st, fr, ret) if ret is not None and ret[0] != 'lv' else (st.read(ret[1]) if ret is not None else None)
        if r is not None and is_false(st, r): return
        v = m['pull']
        if v is None:
            self.chk(m['ins'] == 'none', st, fr, 'input', 'lowered only with a read', None, 'the input flag is lowered although nothing was read')
            return
        self.chk(m['ins'] != 'low-late', st, fr, 'input', 'lowered before the read', None,
                 'the input flag is lowered after the read: an event that came in between is lost')
        none = st.facts.prove_ge0(neg(v)) or st.facts.truth(ge0(sub(v, c(1)))) is False
        if m['ins'] == 'pulled-low':
            self.chk(none, st, fr, 'input', 'raised again after bytes', None,
                     'bytes were read, but the input flag stays low: the rest is never announced by an edge triggered backend')
        else: self.cx.ok('input', '%s: raised again after bytes' % sig(self.fn))
        self.chk(none or m['cmd'], st, fr, 'command', 'raised after bytes', None, 'bytes were read, but the command flag is not raised: they are never decoded')


class Raise(Base):
    """Raising a flag queues the connection."""

    def __init__(self, cx, flags): self.cx, self.flags = cx, flags

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(raised=False, queued=False, terms=(), skip=False, mgr=None)

    def on_write(self, st, fr, loc, v, line, init=False):
        if init or loc[0] != 'f' or loc[2] != self.flags: return
        old = st.read(loc)
        d = Bits.delta(old, v)
        self.chk(d is not None and d[0] and not d[1], st, fr, 'queued', 'raises exactly the flag', line, 'does something else to the flags than raising one')
        if d and d[0]:
            m = next(iter(d[0]))
            st.mon['raised'] = True; st.mon['fresh'] = self.clear(st, old, m)

    def clear(self, st, old, m):
        m = c(m) if isinstance(m, int) else m
        for t in st.mon['terms']:
            if is_false(st, t): return True
        return False

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        for x in walk(cond):
            if isinstance(x, tuple) and x and x[0] == 'op' and x[1] == '&' and any(isinstance(y, tuple) and y[0] == 'ld' and y[1][0] == 'f' and y[1][2] == self.flags for y in walk(x)):
                if x not in st.mon['terms']: st.mon['terms'] = st.mon['terms'] + (x,)

    def on_call(self, st, fr, call):
        if strip_t(call.cls) in (CI, CB) and call.name.endswith('_await'): st.mon['skip'] = True
        if strip_t(call.cls) == MG and call.name == 'enqueue':
            a = models.rv(self.eng, st, fr, call.args[0])
            self.chk(a[0] == 'ld' and a[1][0] == 'f' and a[1][2] == 'id', st, fr, 'queued', 'its own id', call.line, 'queues another connection')
            self.chk(not [l for l in st.locks if l[0] == 'f' and l[2] in self.mut], st, fr, 'queued', 'without its lock', call.line, 'queues while it holds its lock')
            st.mon['queued'] = True

    def on_ret(self, st, fr, call, v):
        if call.q.endswith('weak_ptr::lock'): st.mon['mgr'] = call.nid if v[0] != 'lv' else v[1]

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        if m['skip']: return
        if m['raised']:
            gone = m['mgr'] is not None and is_false(st, st.read(('f', m['mgr'], '#p')))
            self.chk(m['queued'] or gone, st, fr, 'queued', 'a raised flag queues the connection', None, 'a flag is raised, but the connection is not queued for work')
        else:
            self.chk(any(is_true(st, t) for t in m['terms']) or m['queued'], st, fr, 'queued', 'not queued only if the flag was set', None,
                     'returns without raising the flag although it was not set')


class Send(Base):
    """A written message raises the output flag."""

    def __init__(self, cx, out): self.cx, self.out = cx, out

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(wrote=0, raised=False, size=None)

    def on_call(self, st, fr, call):
        if strip_t(call.cls) == ST and call.name in ('write', 'operator<<'): st.mon['wrote'] = min(2, st.mon['wrote'] + 1)
        if strip_t(call.cls) in (CB, CI) and call.name == 'enqueue_work' and call.args:
            a = models.rv(self.eng, st, fr, call.args[0])
            if a == c(self.out): st.mon['raised'] = st.mon['wrote'] > 0

    def on_finish(self, st, fr, ret, how):
        if how != 'ret' or ret is None: return
        m = st.mon
        r = models.rv(self.eng, st, fr, ret) if ret[0] != 'lv' else st.read(ret[1])
        if is_false(st, r): return
        self.chk(m['wrote'] == 1, st, fr, 'queued', 'success means written once', None, 'reports success without having written the message exactly once')
        self.chk(m['raised'], st, fr, 'queued', 'a written message is announced', None, 'a message is written, but the output flag is not raised: it is never sent')


class Idle(Base):
    def __init__(self, cx, flags): self.cx, self.flags = cx, flags
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(ids=())

    def on_ret(self, st, fr, call, v):
        if strip_t(call.cls) == SK and call.name == 'id': st.mon['ids'] = st.mon['ids'] + (v,)
        if strip_t(call.cls) == SK and call.name in ('valid', 'error'):
            self.chk(False, st, fr, 'manager', 'does not consume the socket error', call.line, 'tests the socket error, which the test takes away, to find out whether the connection is idle: nobody learns of it')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret' or ret is None: return
        r = models.rv(self.eng, st, fr, ret) if ret[0] != 'lv' else st.read(ret[1])
        r = r if is_bool_atom(r) else b_not(eq0(r))
        f = st.facts.assume(r)
        if f is None or f.infeasible(): return
        s2 = st.clone() if hasattr(st, 'clone') else st
        w = [v for k, v in st.mem.items() if k[0] == 'f' and k[2] == self.flags] + [x for a in st.facts.s for x in walk(a) if isinstance(x, tuple) and x and x[0] == 'ld' and x[1][0] == 'f' and x[1][2] == self.flags] + \
            [x for x in walk(r) if isinstance(x, tuple) and x and x[0] == 'ld' and x[1][0] == 'f' and x[1][2] == self.flags]
        ok = any(f.truth(eq0(x)) is True for x in w) or any(f.truth(eq0(add(x, c(1)))) is True for x in st.mon['ids'])
        self.chk(ok, st, fr, 'manager', 'idle means no flags or closed', None, 'a connection with work flags counts as idle: it is not worked again')


class Run(Base):
    """One work the manager runs."""

    def __init__(self, cx, count): self.cx, self.count = cx, count

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(given=0, loads=(), worked=None, removed=False, queued=None, conn=None, valid=None, idle=None, sid=())

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc[0] == 'f' and loc[2] == self.count:
            if op == 'load': SYMW.setdefault(res, 32); st.mon['loads'] = st.mon['loads'] + (res,)
            elif op == 'rmw' and (kw.get('rmw') or '').startswith('fetch_sub') or op == 'rmw' and kw.get('rmw') in ('sub', '-', '--'):
                st.mon['given'] += 1
                self.chk(st.mon['given'] == 1, st, fr, 'manager', 'count given back once', line, 'gives the count of works back twice')
                self.chk(zero(st.facts, sub(v, c(1))) or v is None, st, fr, 'manager', 'count given back by one', line, 'does not give back one')
            else: self.chk(False, st, fr, 'manager', 'count given back once', line, 'does something else to the count of works (%s)' % (kw.get('rmw') or op))

    def on_call(self, st, fr, call):
        m = st.mon
        cls, nm = strip_t(call.cls), call.name
        if cls == MG and nm == 'enqueue':
            a = models.rv(self.eng, st, fr, call.args[0])
            low = any(zero(st.facts, x) for x in m['loads'])
            self.chk(m['given'] == 1 or low, st, fr, 'manager', 'count given back before the next is taken', call.line,
                     'asks for the next work before it gave its own back: at the limit nothing is taken and what waits is never worked')
            m['queued'] = 'next' if uncast(a) == INV else a
        elif cls == MG and nm == 'remove': m['removed'] = True
        elif cls == CB and nm == 'work':
            self.chk(m['given'] == 0, st, fr, 'manager', 'counted while it works', call.line, 'works although its count was given back')

    def on_ret(self, st, fr, call, v):
        m = st.mon
        cls, nm = strip_t(call.cls), call.name
        if cls == CB and nm == 'work': m['worked'] = v
        elif cls == CB and nm == 'valid': m['valid'] = v
        elif cls == SK and nm == 'valid': m['valid'] = v
        elif cls == SK and nm == 'error': m['valid'] = b_not(v) if is_bool_atom(v) else ('not', v)
        elif cls == CB and nm == 'idle': m['idle'] = v
        elif cls == SK and nm == 'id': m['sid'] = m['sid'] + (v,)
        elif cls == MG and nm == 'get_conn': m['conn'] = v[1] if v[0] == 'lv' else v
        elif cls == MG and nm == 'running': m['running'] = v

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        ck = lambda ok, what, msg: self.chk(ok, st, fr, 'manager', what, None, msg)
        low = any(zero(st.facts, x) for x in m['loads'])
        ck(m['given'] == 1 or low, 'count given back', 'ends without giving the count of works back: the limit is reached for ever')
        w = m['worked']
        if w is not None:
            if not is_true(st, w): ck(m['removed'] or False, 'failed work removes', 'a connection whose work failed is not removed')
            if not is_false(st, w):
                idle = m['idle'] is not None and is_true(st, m['idle'])
                if not is_true(st, w): pass
                elif idle: ck(m['queued'] is not None, 'the next is taken', 'ends without taking the next waiting work')
                else: ck(m['queued'] not in (None, 'next'), 'not idle: queued again', 'a connection with work left is not queued again')
        else:
            v = m['valid']
            if v is not None and is_false(st, v):
                closed = any(st.facts.truth(eq0(add(x, c(1)))) is True for x in m['sid'])
                ck(closed or m['removed'], 'a socket error removes', 'the test for a socket error takes the error away, and the connection is neither worked nor removed: it stays for ever')
            elif m['conn'] is not None:
                p_ = st.read(('f', m['conn'], '#p'))
                if not is_false(st, p_): ck(m['removed'], 'a connection is worked', 'a queued connection is neither worked nor removed')
            ck(m['queued'] is not None or False, 'the next is taken', 'ends without taking the next waiting work')


class Queue(Base):
    """Scheduling a connection."""

    def __init__(self, cx, count, dq, stt): self.cx, self.count, self.dq, self.st_ = cx, count, dq, stt

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(inc=0, exe=0, push=0, ins=0, pop=0, era=0, run=(), lo=(), contains=(), fronts=(), pairs=())

    def on_ret(self, st, fr, call, v):
        if strip_t(call.cls) == MG and call.name == 'running': st.mon['run'] = st.mon['run'] + (v,)
        if call.q.startswith('std::') and call.name in ('emplace', 'insert') and call.obj and call.obj[0] == 'f' and call.obj[2] == self.st_:
            st.mon['pairs'] = st.mon['pairs'] + (v[1] if v[0] == 'lv' else v,)
        if call.q.startswith('std::') and call.name in ('contains', 'count') and call.obj and call.obj[0] == 'f' and call.obj[2] == self.st_: st.mon['contains'] = st.mon['contains'] + (v,)

    def on_atomic(self, st, fr, op, loc, order, line, v, call, res, **kw):
        if loc[0] == 'f' and loc[2] == self.count:
            if op == 'load': SYMW.setdefault(res, 32); st.mon['lo'] = st.mon['lo'] + (res,)
            elif op == 'rmw' and 'add' in (kw.get('rmw') or ''):
                st.mon['inc'] += 1
                self.chk(zero(st.facts, sub(v, c(1))), st, fr, 'manager', 'counted by one', line, 'counts a work by something else than one')

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        # found in the set: find() != end()
        x = cond if taken else neg_(cond)
        if any(is_false(st, st.read(('f', l, 'second'))) for l in st.mon['pairs']): st.mon['old'] = 1
        its = {k[0] for k in walk(x) if isinstance(k, tuple) and k and k[0] in ('find', 'end')}
        if its == {'find', 'end'} or 'find' in its and any(isinstance(k, tuple) and k and k[0] == 'itc' for k in walk(x)): st.mon['hit'] = x[0] == 'not' or x[0] in ('ne',)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        m = st.mon
        if loc[0] != 'f': return
        if loc[2] == self.dq:
            if op == 'push':
                self.chk(call.name in ('push_back', 'emplace_back', 'push', 'emplace'), st, fr, 'manager', 'waits at the end', call.line, 'a waiting connection is put in front of the ones that wait longer')
                m['push'] += 1
            elif op in ('pop', 'erase'):
                self.chk(call.name in ('pop_front', 'erase', 'pop'), st, fr, 'manager', 'taken from the front', call.line, 'the newest waiting connection is taken first: the others may wait for ever')
                m['pop'] += 1
                m['fronts'] = m['fronts'] + (('i', loc, FALSE),)
            elif op in ('clear',): self.chk(False, st, fr, 'manager', 'waiting ones are kept', call.line, 'the waiting connections are dropped')
        elif loc[2] == self.st_:
            if op in ('push', 'insert'): m['ins'] += 1
            elif op == 'erase': m['era'] += 1

    def on_call(self, st, fr, call):
        m = st.mon
        if 'executor' in strip_t(call.cls or '') and call.name in ('enqueue', 'post'):
            m['exe'] += 1
            self.chk(m['inc'] == 1, st, fr, 'manager', 'counted before it is given away', call.line, 'a work is given to the executor that was not counted')
            self.chk([l for l in st.locks if l[0] == 'f' and l[2] in self.mut], st, fr, 'manager', 'decided under the lock', call.line, 'gives work to the executor without the lock that stop takes')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        ck = lambda ok, what, msg: self.chk(ok, st, fr, 'manager', what, None, msg)
        stopped = any(is_false(st, x) for x in m['run'])
        idl = ('prm', self.fn.params[0]['name'])
        ck(m['exe'] == m['inc'], 'counted exactly when executed', 'the count of works changes although nothing was given to the executor (%d counted, %d executed)' % (m['inc'], m['exe']))
        hit = m.get('hit') or any(is_true(st, x) for x in m['contains'])
        old = m.get('old', 0)          # it was in the set already
        hit = hit or old > 0
        ck(m['push'] == m['ins'] - old, 'waiting list and set agree', 'a waiting connection is in one of the list and the set only: it is queued twice or never again')
        given = not zero(st.facts, sub(idl, INV))
        if m['pop'] and not any(zero(st.facts, sub(st.read(x), INV)) for x in m['fronts']): ck(m['exe'] == 1 and m['pop'] == 1, 'a taken id is executed', 'an id is taken from the waiting ones but not worked')
        if m['pop']: ck(m['era'] or m.get('hit') is False, 'a taken id leaves the set', 'an id is taken from the waiting list but stays in the set: it never waits again')
        if stopped:
            return
        if given and m['exe'] == 0 and m['push'] == 0:
            ok = hit
            ck(ok, 'an id is executed or waits', 'a connection that asks for work is neither given to the executor nor put into the waiting list')


class Event(Base):
    """One readiness event of the epoll backend."""
    HI, LO, CONN = ('g', '#hi'), ('g', '#lo'), ('g', '#conn')

    def __init__(self, cx, inbit): self.cx, self.inbit, self.counted, self.runs = cx, inbit, False, set()

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(ev=False, act=False, none=False)
        for k in (self.HI, self.LO, self.CONN): st.mem[k] = ('sym', k[1])

    def done(self, st, fr, line):
        m = st.mon
        if not m['ev']: return
        ok = m['act'] or m['none']
        self.chk(ok, st, fr, 'event', 'every event is acted on', line, 'an event of a connection ends without work, removal, accept or command: it does not come again')

    def more(self, x):
        """Whether the fact says that there is another event (None: it says nothing of the number of events)."""
        if x[0] == 'not' and x[1][0] == 'eq0' and self.number(x[1][1]): return True
        if x[0] == 'eq0' and self.number(x[1]): return False
        if x[0] == 'ge0': return {1: True, -1: False}.get(self.number(x[1]))
        return None

    def number(self, v):
        for t, k in lin_parts(v)[1]:
            t = uncast(t)
            if t[0] in ('at', 'ld') and path_field(t[1]) == 'result_event_count': return 1 if k > 0 else -1
        return 0

    def start(self, st, fr, line):
        self.done(st, fr, line)
        st.mon.update(ev=True, act=False, none=False)
        st.mem[self.LO] = st.mem[self.HI] = st.mem[self.CONN] = ('sym', '#none')

    def on_ret(self, st, fr, call, v):
        q = call.q
        if strip_t(call.cls) in (MG, EP) and call.name == 'running': self.runs.add(v)
        if q == 'plain::get_highsection': st.mem[self.HI] = v
        elif q == 'plain::get_lowsection':
            SYMW.setdefault(v, 32)
            if not self.counted: self.start(st, fr, call.line)
            st.mem[self.LO] = v; st.mem[self.CONN] = ('sym', '#conn')
        elif strip_t(call.cls) in (MG, EP) and call.name == 'get_conn':
            st.mem[self.CONN] = ('loc', v[1] if v[0] == 'lv' else v)
            a = uncast(models.rv(self.eng, st, fr, call.args[0]))
            self.chk(a == uncast(st.mem[self.LO]), st, fr, 'event', 'its own connection', call.line, 'looks for another connection than the one the event carries')

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        t = self.more(cond if taken else b_not(cond))
        if t is not None:
            self.counted = True
            if t: self.start(st, fr, line)
            else: self.done(st, fr, line); st.mon.update(ev=False, act=False, none=False)
            return
        if st.mon['ev'] and any(is_false(st, x) for x in self.runs): st.mon['none'] = True
        for x in walk(cond):
            if isinstance(x, tuple) and x and x[0] == 'op' and x[1] == '&' and c(self.inbit) in x[2:] and is_false(st, x): st.mon['none'] = True
        if not st.mon['ev'] or st.mon['none'] or st.mem[self.LO][0] == 'sym': return
        v, lo = st.mem[self.CONN], uncast(st.mem[self.LO])
        st.mon['none'] = bool(v[0] == 'loc' and is_false(st, st.read(('f', v[1], '#p'))) or
                              any(y[0] == 'eq0' and y == eq0(sub(z, INV)) for y in st.facts.s for z in walk(y) if isinstance(z, tuple) and len(z) > 1 and uncast(z) == lo))

    def on_call(self, st, fr, call):
        m = st.mon
        cls, nm = strip_t(call.cls), call.name
        if cls in (MG, EP) and nm == 'accept':
            self.chk(self.same(st, st.mem[self.HI], 'listen_fd_'), st, fr, 'event', 'accepts for the listener', call.line, 'accepts for an event that is not of the listening socket')
            m['act'] = True
        elif cls in (MG, EP) and nm == 'recv_ctrl_cmd': m['act'] = True
        elif cls in (MG, EP) and nm == 'remove':
            a = uncast(models.rv(self.eng, st, fr, call.args[0]))
            self.chk(a == uncast(st.mem[self.LO]), st, fr, 'event', 'removes its own connection', call.line, 'removes another connection than the one of the event')
            m['act'] = True
        elif cls == CB and nm == 'enqueue_work':
            a = models.rv(self.eng, st, fr, call.args[0])
            self.chk(a == c(self.input), st, fr, 'event', 'readable means input', call.line, 'raises another flag than input')
            v = st.mem[self.CONN]
            self.chk(v[0] == 'loc' and call.obj == ('d', st.read(('f', v[1], '#p'))), st, fr, 'event', 'works its own connection', call.line, 'works another connection')
            m['act'] = True

    def same(self, st, v, field):
        x = uncast(v)
        return any(a[0] == 'eq0' and any(y == x for y in walk(a)) and any(isinstance(y, tuple) and len(y) > 1 and y[0] == 'ld' and y[1][0] == 'f' and y[1][2] == field for y in walk(a))
                   for a in st.facts.s)

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.done(st, fr, None)


class Scan(Base):
    """What select found for one connection (the body of its loop over the connections)."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(act=None, masks=())

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        for x in walk(cond):
            if isinstance(x, tuple) and x and x[0] == 'op' and x[1] == '&':
                k = [w for y in walk(x) if isinstance(y, tuple) and y and y[0] == 'ld' for w in self.fields(y[1])]
                if 'read_fds' in k or 'except_fds' in k:
                    t = ('except' if 'except_fds' in k else 'read', x)
                    if t not in st.mon['masks']: st.mon['masks'] = st.mon['masks'] + (t,)

    def fields(self, loc):
        out = []
        while loc and loc[0] in ('f', 'i'):
            if loc[0] == 'f': out.append(loc[2])
            loc = loc[1]
        return out

    def on_call(self, st, fr, call):
        cls, nm = strip_t(call.cls), call.name
        if cls == CB and nm == 'enqueue_work':
            a = models.rv(self.eng, st, fr, call.args[0])
            self.chk(a == c(self.input), st, fr, 'event', 'readable means input', call.line, 'raises another flag than input')
            st.mon['act'] = 'work'
        elif cls in (MG, SE) and nm == 'remove': st.mon['act'] = 'remove'

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        seen = dict(m['masks'])
        rd, ex = seen.get('read'), seen.get('except')
        if m['act'] is None:
            # out of range, or neither readable nor exceptional
            ok = rd is not None and is_false(st, rd) or not seen
            self.chk(ok, st, fr, 'event', 'a readable connection is worked', None, 'a connection that select reports readable is not worked')
        elif m['act'] == 'work':
            self.cx.ok('event', '%s: a readable connection is worked' % sig(self.fn))
        else:
            self.chk(ex is not None and is_true(st, ex), st, fr, 'event', 'removed only for an exception', None, 'a connection is removed without an exceptional condition')
        self.seen_rd = getattr(self, 'seen_rd', False) or rd is not None


class Sets(Base):
    """Every access to a fd_set is inside it."""

    def __init__(self, cx, ok): self.cx, self.good = cx, ok

    def init(self, st, fr):
        self.fn = fr.fn
        for f in self.good:
            for base in (('d', ('sym', 'this')),):
                v = st.read(('f', base, f)); SYMW.setdefault(v, -32)

    def on_index(self, st, fr, base=None, loc=None, idx=None, line=0, **kw):
        b = base if base is not None else loc
        if not (b and b[0] == 'f' and b[2] in ('__fds_bits', 'fds_bits')): return
        v = uncast(idx)
        if v[0] == 'op' and v[1] in ('/', '>>'):
            x = uncast(v[2])
            ok = self.inside(st, x)
        elif v[0] == 'c': ok = 0 <= v[1] < 16
        else: ok = st.facts.prove_ge0(v) and st.facts.prove_ge0(sub(c(15), v)); x = v
        if v[0] == 'c': x = v
        self.chk(ok, st, fr, 'fd_set', '%s:%s' % (short(fr.fn), val_str(x)), line, 'descriptor %s may lie outside a fd_set (negative, or FD_SETSIZE and more): memory beside it is changed' % val_str(x))

    def inside(self, st, x):
        G = st.facts.prove_ge0
        if G(x) and G(sub(c(1023), x)): return True
        if x[0] == 'ld' and x[1][0] == 'f' and x[1][2] in self.good and st.facts.truth(eq0(add(x, c(1)))) is False: return True
        return False


class Signal(Base):
    """A wait that a signal interrupted does not end the loop."""

    def __init__(self, cx): self.cx = cx
    def init(self, st, fr): self.fn = fr.fn; st.mon.update(waited=None, errs=())

    def on_ret(self, st, fr, call, v):
        if call.q in ('epoll_wait', '::epoll_wait', 'plain::net::socket::select', 'select', '::select', 'poll', 'epoll_pwait', 'ppoll', 'pselect'):
            SYMW[v] = -32; st.mon['waited'] = v; st.mon['errs'] = ()
        elif call.q == '__errno_location': st.mon['errs'] = st.mon['errs'] + (('d', v),)
        elif call.name == 'code' and strip_t(call.cls) == 'plain::Error': st.mon['errs'] = st.mon['errs'] + (('v', v),)

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        r = models.rv(self.eng, st, fr, ret) if ret[0] != 'lv' else st.read(ret[1])
        if is_true(st, r): return
        w = st.mon['waited']
        if w is None: return
        vals = [x for a in st.facts.s for x in walk(a) if isinstance(x, tuple) and x]
        ok = False
        for k, v in st.mon['errs']:
            x = st.read((k, v)) if k == 'd' else v
            if is_false(st, eq0(sub(x, c(4)))) or st.facts.truth(eq0(sub(x, c(4)))) is False: ok = True
        self.chk(ok, st, fr, 'signal', 'an interrupted wait goes on', None, 'ends the network loop when the wait was only interrupted by a signal')


def fields(p, cls, rx, prefer):
    fs = {f['name']: f.get('ct') or f['t'] for f in p.record(cls)['fields']}
    if prefer in fs: return prefer
    c_ = [f for f, t in fs.items() if re.search(rx, t)]
    if len(c_) == 1: return c_[0]
    raise AnalysisError('anchor vanished: %s::%s' % (cls, prefer))


def run(cx):
    p = cx.p
    fl = flagword(p)
    en = p.enums['plain::net::connection::WorkFlag']
    bit = {k: 1 << v for k, v in en.items()}
    ec = p.enums['plain::ErrorCode']
    need = {ec['NetPacketCantFill'], ec['NetPacketNeedRecv']}
    mut = {f['name'] for f in p.record(CI)['fields'] if MUTEX.search(f['t'])}
    sh = Shared({m: (fl,) for m in mut})
    conn = lambda fn: (fn.scls in (CB, CI) or fn.sq.startswith(CB + '::') or 'scoped_executor' in fn.sq or fn.file.endswith('net/connection/basic.cc')) and not any(x in fn.file for x in NOISE) \
        or 'scoped_executor' in fn.sq
    skip = lambda fn: fn.name.startswith('handle_rpc') or fn.name in ('get_name', 'send')
    roles = None
    for judge in (False, True):
        r = Work(cx, fl, bit, judge); r.mut, r.need, r.roles_known = mut, need, roles or {}
        f = p.need(CB + '::work')[0]
        e = cx.engine([sh, r], inline=lambda fn: conn(fn) and not skip(fn), merge_at=10 if judge else 3, max_steps=600000)
        cx.run(e, f)
        roles = r.roles
    if not roles.get('pull') or not roles.get('push'): raise AnalysisError('the work of a connection reads or writes nothing')
    # raising flags
    r = Raise(cx, fl); r.mut = mut
    e = cx.engine([sh, r], inline=conn, merge_at=60)
    cx.run(e, p.need(CB + '::enqueue_work')[0])
    for f in [f for f in p.find(CB + '::send') + p.find(CB + '::send_call') if f.blocks and any('packet' in q['t'] for q in f.params[:1])]:
        r = Send(cx, en['Output'])
        e = cx.engine([r], inline=lambda fn: conn(fn) and fn.name != 'enqueue_work', merge_at=60)
        cx.run(e, f)
    r = Idle(cx, fl)
    e = cx.engine([r], inline=conn); cx.run(e, p.need(CB + '::idle')[0])
    # the manager
    cnt = fields(p, MI, r'atomic<unsigned int>', 'working_conn_count')
    dq = fields(p, MI, r'deque<', 'wait_work_conn_id_deque')
    stt = fields(p, MI, r'^std::set<', 'wait_work_conn_ids')
    mmut = {f['name'] for f in p.record(MI)['fields'] if 'recursive_mutex' in f['t']}
    r = Run(cx, cnt)
    f = p.need(MI + '::work')[0]
    e = cx.engine([r], inline=lambda fn: (fn.sq.startswith(MI + '::work') or fn.scls == MI or 'scoped_executor' in fn.sq), merge_at=60); cx.run(e, f)
    r = Queue(cx, cnt, dq, stt); r.mut = mmut
    f = p.need(MG + '::enqueue')[0]
    e = cx.engine([r], inline=lambda fn: fn.scls in (MG, MI) and fn.name != 'running' and not fn.lambda_, merge_at=60); cx.run(e, f)
    # what is given to the executor works this very connection
    lam = [g for g in p.all() if g.lambda_ and g.blocks and g.sq.startswith(MG + '::enqueue') and calls_any(g, {MI + '::work'})]
    cx.check(bool(lam), 'manager', 'the work given away works the connection', f.where(), 'what is given to the executor does not work the connection')
    # backends
    if p.find(EP + '::handle_input'):
        r = Event(cx, 1); r.input = en['Input']
        e = cx.engine([r], inline=lambda fn: fn.scls == EP, merge_at=60); cx.run(e, p.need(EP + '::handle_input')[0])
        add_ = p.need(EP + '::sock_add')[0]
        ok = False
        r = Reg(cx)
        e = cx.engine([r], inline=lambda fn: fn.file.endswith('epoll.cc'), merge_at=60); cx.run(e, add_)
        r = Signal(cx)
        e = cx.engine([r], inline=lambda fn: fn.file.endswith('epoll.cc') and fn.name != 'handle_input', merge_at=60); e.seq_atomics = True; cx.run(e, p.need(EP + '::work')[0])
    r = Signal(cx)
    e = cx.engine([r], inline=lambda fn: fn.file.endswith('connection/select.cc') and fn.name != 'handle_io', merge_at=60); e.seq_atomics = True; cx.run(e, p.need(SE + '::work')[0])
    lams = [g for g in p.all() if g.lambda_ and g.blocks and g.sq.startswith(SE + '::handle_io') and '(anonymous class)::operator()' in g.sq]
    r = Scan(cx); r.input = en['Input']
    for g in lams: cx.run(cx.engine([r], inline=lambda fn: fn.file.endswith('connection/select.cc'), merge_at=60), g)
    cx.check(getattr(r, 'seen_rd', False), 'event', 'select looks at the readable set', p.need(SE + '::handle_io')[0].where(), 'what select reports readable is not looked at')
    watch(cx, p)
    good = admitted(cx, p)
    n = 0
    for g in p.all():
        if not g.blocks or not any(nd and nd['k'] == 'MemberExpr' and nd.get('q', '').endswith('fds_bits') for nd in g.nodes): continue
        if '/drivers/' in g.file: continue
        cx.run(cx.engine([Sets(cx, good)], inline=lambda fn: False, merge_at=60), g); n += 1
    if n < 3: raise AnalysisError('fd_sets are used in %d functions' % n)


class Reg(Base):
    """A descriptor is registered for input, with its connection id."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(pack=None)

    def on_call(self, st, fr, call):
        if call.q == 'plain::touint64':
            a = [uncast(models.rv(self.eng, st, fr, x)) for x in call.args]
            pr = [('prm', q['name']) for q in self.fn.params]
            self.chk(len(a) == 2 and [uncast(x) for x in a] == pr[:2], st, fr, 'event', 'registered with descriptor and connection', call.line, 'the event does not carry the descriptor and the id of its connection in the order in which they are read')
        elif call.q == 'epoll_ctl':
            ev = models.rv(self.eng, st, fr, call.args[3])
            if ev[0] == 'addr':
                v = uncast(st.read(('f', ev[1], 'events')))
                on = v[0] == 'c' and v[1] & 1
                self.chk(on, st, fr, 'event', 'registered for input', call.line, 'a descriptor is registered without input events')
            self.chk(uncast(models.rv(self.eng, st, fr, call.args[2])) == ('prm', self.fn.params[0]['name']), st, fr, 'event', 'registered descriptor', call.line, 'registers another descriptor')


def admitted(cx, p):
    """Members that hold -1 or a descriptor inside a fd_set once the backend runs: those a successful prepare or sock_add has tested."""
    out = set()
    outs = []
    f = p.need(SE + '::prepare')[0]
    e = cx.engine([Sets(type('N', (), {'check': lambda *a, **k: True, 'ok': lambda *a: None})(), ())], inline=lambda fn: False, merge_at=60)
    for st, rv, how in cx.run(e, f):
        if how != 'ret' or rv is None or is_false(st, rv): continue
        l = st.read(('f', ('d', ('sym', 'this')), 'listen_fd_'))
        outs.append(st.facts.truth(eq0(add(l, c(1)))) is True or st.facts.prove_ge0(l) and st.facts.prove_ge0(sub(c(1023), l)))
    if outs and all(outs): out.add('listen_fd_')
    # sock_add refuses what does not fit, and start gives it the descriptor it keeps
    s = p.need(SE + '::sock_add')[0]
    ok = []
    e = cx.engine([], inline=lambda fn: False, merge_at=60)
    for st, rv, how in cx.run(e, s):
        if how != 'ret' or rv is None or is_false(st, rv): continue
        v = ('prm', s.params[0]['name'])
        ok.append(st.facts.prove_ge0(v) and st.facts.prove_ge0(sub(c(1023), v)))
    if ok and all(ok): out.add('ctrl_read_fd_')
    return out


class Watch(Base):
    """What select is asked to watch."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(sets=(), noted=False)

    def on_write(self, st, fr, loc, v, line, init=False):
        if init: return
        ch = Scan.fields(None, loc)
        if not any(x.endswith('fds_bits') for x in ch): return
        d = Bits.delta(st.read(loc), v)
        if d is None or not (d[0] or d[1]): return
        names = [x for x in ch if not x.endswith('fds_bits')]
        st.mon['sets'] = st.mon['sets'] + ((tuple(names), bool(d[0]), uncast(loc[2])),)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if loc[0] == 'f' and loc[2] == 'valid_fds' and op in ('push', 'insert', 'erase'): st.mon['noted'] = st.mon['noted'] or op

    def on_call(self, st, fr, call):
        if call.q in ('plain::net::socket::select', 'select', '::select'):
            a = uncast(models.rv(self.eng, st, fr, call.args[0]))
            top = [x for k, x in [(k, st.read(k)) for k in list(st.mem)] + [(y[1], y) for f in st.facts.s for y in walk(f) if isinstance(y, tuple) and len(y) > 1 and y[0] == 'ld'] + [(y[1], y) for y in walk(a) if isinstance(y, tuple) and len(y) > 1 and y[0] == 'ld']
                   if k and k[0] == 'f' and k[2] == 'max_fd']
            self.chk(any(st.facts.prove_ge0(sub(a, add(x, c(1)))) for x in top) or a[0] == 'c' and a[1] >= 1024, st, fr, 'event', 'select looks at all of them', call.line,
                     'select is not asked for the largest descriptor: it is never reported')


def watch(cx, p):
    impl = p.need(SE + '::Impl::select')[0]
    cx.run(cx.engine([Watch(cx)], inline=lambda fn: False, merge_at=60), impl)
    for nm, on in (('sock_add', True), ('sock_remove', False)):
        f = p.need(SE + '::' + nm)[0]
        w = Watch(cx)
        for st, rv, how in cx.run(cx.engine([w], inline=lambda fn: fn.scls.startswith(SE), merge_at=60), f):
            if how != 'ret' or rv is None or is_false(st, rv): continue
            v = ('prm', f.params[0]['name'])
            hit = {n for n, up, i in st.mon['sets'] if up == on and any(uncast(x) == v for x in walk(i))}
            for want in ('read_fds', 'except_fds'):
                ok = any(want in n and 'full' in n for n in hit)
                w.chk(ok, st, type('F', (), {'fn': f})(), 'event', '%s: %s' % (nm, want), None, 'succeeds, but the descriptor is %s the %s set' % ('not in' if on else 'still in', want[:-4]))
