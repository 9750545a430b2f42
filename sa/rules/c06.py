"""Stream transfer: bytes leave the output buffer exactly when the socket took them; received bytes are all stored."""
from ..lib import *
from .. import models
from ..bounds import split

RULE = ('push/pull (and their awaiting forms) are abstractly executed with the ring buffer replaced by its contract (C07) and the socket calls by '
        'theirs (result is would-block, error, 0 or a count up to the length given). Push: every payload handed to the socket is the buffered bytes '
        'from the first unsent one on; after a positive result exactly that many bytes are removed, once, before the next send or '
        'return; nothing is removed otherwise; the return value is the number removed, or negative exactly after an error. Pull: exactly the '
        'received bytes are stored, would-block returns 0, end of stream, error and incomplete storage return negative values. The read/write/'
        'peek/remove operations forward exactly their data and length and return the count of the ring.')
LEVEL = 'proof'
ASSUMES = ['ring buffer contract (C07)', 'a socket send/recv returns would-block (-100), error (-1), 0, or a count of at most the length given (C23)',
           'one thread at a time transfers on one stream direction']
MIN = {'payload': 2, 'removal': 2, 'push result': 4, 'storage': 2, 'pull result': 6, 'forward': 8}
ST = 'plain::net::stream::Basic'
SK = 'plain::net::socket::Basic'
RINGS = ('plain::Ring', 'plain::DynamicRing', 'plain::FixedRing')
N0 = ('sym', '#stored')
REM = ('g', '#removed')
WR = ('g', '#stored bytes')


def uncast(v):
    while v[0] in ('cast', 'wrap'): v = v[2] if v[0] == 'cast' else v[1]
    return v


def feasible(st, a):
    f = st.facts.assume(a)
    return f is not None and not f.infeasible()


def cases(st, s):
    r = []
    for n, k in (('would-block', -100), ('error', -1), ('zero', 0)):
        if feasible(st, eq0(sub(s, c(k)))): r.append(n)
    if feasible(st, ge0(sub(s, c(1)))): r.append('positive')
    return r


def eqv(st, a, b):
    a, b = uncast(a), uncast(b)
    d = sub(a, b)
    return d == FALSE or st.facts.truth(eq0(d)) is True or st.facts.prove_ge0(d) and st.facts.prove_ge0(neg(d))


class R:
    def __init__(self, cx): self.cx = cx

    def init(self, st, fr):
        self.fn = fr.fn
        SYMW[N0] = 64
        st.mem[REM] = FALSE; st.mem[WR] = FALSE
        st.facts = st.facts.assume(ge0(sub(c(1 << 40), N0)))
        st.mon.update(pend=None, peek=None, last=None, awaiting=None, recv=None, short=None)

    def chk(self, ok, st, fr, rule, inst, line, msg):
        inst = '%s: %s' % (short(self.fn), inst)
        if ok or st.facts.infeasible(): self.cx.ok(rule, inst)
        else: self.cx.bad(rule, inst, fr.fn.where(line), msg, st.trace_list() + ['facts: ' + '; '.join(sorted(val_str(x) for x in st.facts.s))[:500]])

    def content(self, st, loc):
        """(region, offset, length) of the bytes a string object holds."""
        d = st.mem.get(('f', loc, '#data'))
        n = st.read(('f', loc, '#size'))
        if d is None:
            a, g = st.origin(loc)
            if a != loc and a[0] in ('v', 't'): return self.content(st, a)
            return loc, FALSE, n
        sp = split(d)
        if sp is None: return None
        return sp[0], sp[1], n

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        A = args
        nodes = fr.fn.nodes
        isp = lambda i: nodes[call.anodes[i]].get('t', '').endswith('*')
        isw = lambda i: 'w' in nodes[call.anodes[i]]
        rv = lambda i: models.rv(self.eng, st, fr, A[i])
        d = None
        if op in ('append', 'assign') and len(A) >= 2 and isp(0) and isw(1): d = rv(0)
        elif op == 'insert' and len(A) >= 3 and isw(0) and isp(1): d = rv(1)
        elif op == 'ctor' and len(A) >= 2 and isw(1) and A[0][0] == 'lv' and not isp(0):
            d = ('addr', ('i', A[0][1], rv(1)))
            n = sub(st.read(('f', A[0][1], '#size')), rv(1))
            if len(A) >= 3 and isw(2):
                k = rv(2)
                if st.facts.prove_ge0(sub(n, k)): n = k
            st.mem[('f', loc, '#size')] = n
        if d is not None: st.mem[('f', loc, '#data')] = d

    def outstanding(self, st, fr, line, what):
        s = st.mon['pend']
        if s is None: return
        cs = cases(st, s)
        self.chk('positive' not in cs, st, fr, 'removal', 'what was sent is removed', line,
                 '%s although the socket took bytes that were not removed from the buffer (they would be sent again)' % what)

    def on_call(self, st, fr, call):
        q = call.q
        cls = strip_t(call.cls)
        rv = lambda i: models.rv(self.eng, st, fr, call.args[i])
        if cls == SK and call.name in ('send', 'send_await'):
            self.outstanding(st, fr, call.line, 'sends again')
            a = call.args[0]
            pk = st.mon['peek']
            ct = self.content(st, a[1]) if a[0] == 'lv' else None
            if ct is None or pk is None: return
            reg, off, n = ct
            if reg == pk[0]:
                at = sub(st.read(REM), pk[2])
                self.chk(eqv(st, off, at), st, fr, 'payload', 'from the first unsent byte', call.line,
                         'bytes from position %s are sent after %s have been sent' % (val_str(off), val_str(at)))
                self.chk(st.facts.prove_ge0(sub(sub(pk[1], off), n)), st, fr, 'payload', 'buffered bytes only', call.line,
                         '%s bytes at %s are sent of %s buffered ones' % (val_str(n), val_str(off), val_str(pk[1])))
            st.mon['len'] = n
        elif cls == SK and call.name in ('recv', 'recv_await'):
            self.chk(st.mon['recv'] is None, st, fr, 'storage', 'received once', call.line, 'receives again before the bytes received first are stored')
            st.mon['rbuf'] = call.args[0][1] if call.args[0][0] == 'lv' else None
        elif cls in RINGS:
            nm = call.name
            if nm == 'remove':
                n = rv(0); s = st.mon['pend']
                if s is None:
                    self.chk(False, st, fr, 'removal', 'only what was sent', call.line, 'removes bytes that were not sent'); return
                self.chk(cases(st, s) == ['positive'] and eqv(st, n, s), st, fr, 'removal', 'only what was sent', call.line,
                         'removes %s although the socket reported %s' % (val_str(n), val_str(s)))
                st.mem[REM] = add(st.read(REM), s)
                st.mon['pend'] = None
            elif nm in ('clear', 'consumer_clear', 'producer_clear', 'insert'):
                self.chk(False, st, fr, 'removal', 'only what was sent', call.line, '%s during a transfer' % nm)
            elif nm == 'write':
                e = st.mon['recv']
                p, n = rv(0), rv(1)
                sp = split(p)
                ok = e is not None and cases(st, e) == ['positive'] and eqv(st, n, e) and sp is not None and sp[1] == FALSE and sp[0] == st.mon['rbuf']
                self.chk(ok, st, fr, 'storage', 'what was received', call.line,
                         'stores %s bytes although %s were received' % (val_str(n), val_str(e) if e else 'none'))

    def on_ret(self, st, fr, call, v):
        cls = strip_t(call.cls)
        nm = call.name
        rv = lambda i: models.rv(self.eng, st, fr, call.args[i])
        if cls == SK:
            if nm in ('send', 'recv'): self.result(st, fr, nm, v)
            elif nm in ('send_await', 'recv_await'): st.mon['awaiting'] = nm[:4]
        elif cls in RINGS:
            left = sub(N0, st.read(REM))
            if nm == 'read_avail': st.env[call.nid] = left
            elif nm == 'empty': st.env[call.nid] = eq0(left)
            elif nm == 'remove': st.env[call.nid] = uncast(rv(0))
            elif nm == 'read':
                ro = rv(2)
                SYMW.setdefault(v, 64)
                n = rv(1)
                if st.facts.prove_ge0(sub(left, n)): r = n; st.env[call.nid] = n
                else:
                    r = v
                    st.facts = st.facts.assume(ge0(sub(left, r))).assume(ge0(sub(n, r)))
                sp = split(rv(0))
                if st.facts.truth(truthy(ro)) is not True:
                    self.chk(False, st, fr, 'removal', 'only what was sent', call.line, 'takes the bytes out of the buffer before they are sent')
                    st.mem[REM] = add(st.read(REM), r)
                if sp: st.mon['peek'] = (sp[0], r, st.read(REM))
            elif nm == 'write':
                e = st.mon['recv']
                SYMW.setdefault(v, 64)
                n = rv(1)
                st.facts = st.facts.assume(ge0(sub(n, v))) or st.facts
                st.mon['short'] = (v, n)
                st.mon['recv'] = None

    def on_await(self, st, fr, v, line): pass

    def result(self, st, fr, nm, v):
        SYMW[v] = -32
        if nm == 'send':
            n = st.mon.get('len')
            if n is not None: st.facts = st.facts.assume(ge0(sub(n, v))) or st.facts
            st.mon['pend'] = v; st.mon['last'] = v
        else:
            st.mon['recv'] = v; st.mon['last'] = v
        st.facts = st.facts.assume(ge0(sub(v, c(-100)))) or st.facts

    def on_decl(self, st, fr, loc, v, var, line):
        # the value an awaited transfer delivers
        if st.mon['awaiting'] and v is not None and v[0] == 'await':
            self.result(st, fr, st.mon['awaiting'], v); st.mon['awaiting'] = None


def run(cx):
    p = cx.p
    for nm in ('push', 'push_await', 'pull', 'pull_await'):
        fn = p.need(ST + '::' + nm)[0]
        r = R(cx)
        e = cx.engine([r], inline=lambda f: f.sq.startswith('plain::net::stream::') and f.scls.startswith(ST) or f.file.endswith('net/stream/basic.cc'), merge_at=200)
        n = 0
        for st, rv, how in cx.run(e, fn):
            if how != 'ret': continue
            if rv is None: raise AnalysisError('%s returns nothing' % nm)
            fr = Frame(fn, 0)
            rv = uncast(rv)
            G = lambda a: st.facts.prove_ge0(a)
            chk = lambda ok, rule, inst, msg: r.chk(ok, st, fr, rule, inst, fn.line, msg + ' (returns %s)' % val_str(rv))
            last = st.mon['last']
            neg_ = G(sub(c(-1), rv))
            if nm.startswith('push'):
                r.outstanding(st, fr, fn.line, 'returns')
                cs = cases(st, last) if last is not None and st.mon['pend'] is not None else []
                rem = st.read(REM)
                if cs == ['error']: chk(neg_, 'push result', 'error is reported', 'a failed send is not reported')
                else:
                    if 'error' in cs: chk(False, 'push result', 'error is reported', 'a failed send is treated like %s' % '/'.join(x for x in cs if x != 'error'))
                    chk(eqv(st, rv, rem), 'push result', 'count is what was removed' + (' (nothing sent)' if last is None else ''), 'the count returned is not the number of bytes taken, %s' % val_str(rem))
            else:
                if last is None:
                    chk(eqv(st, rv, FALSE), 'pull result', 'nothing received', 'a pull that received nothing reports something'); continue
                sh = st.mon['short']
                if sh is None:
                    cs = cases(st, last)
                    chk('positive' not in cs, 'storage', 'received bytes are stored', 'received bytes are dropped')
                    for x in cs:
                        s2 = st
                        if x == 'would-block': ok = eqv(st, rv, FALSE)
                        elif x in ('error', 'zero'): ok = neg_
                        else: continue
                        chk(ok, 'pull result', {'would-block': 'would-block is not an end', 'error': 'error is reported', 'zero': 'end of stream is reported'}[x],
                            'a receive that ends with %s is misreported' % x)
                else:
                    w, k = sh
                    full = eqv(st, w, k)
                    part = feasible(st, ge0(sub(sub(k, w), c(1))))
                    if full or not part: chk(eqv(st, rv, w) or eqv(st, rv, last), 'pull result', 'count is what was stored', 'not the number of bytes stored is reported')
                    elif not feasible(st, eq0(sub(k, w))): chk(neg_, 'pull result', 'incomplete storage is reported', 'received bytes that could not be stored are not reported')
                    else: chk(False, 'pull result', 'incomplete storage is reported', 'incomplete storage is not told from complete storage')
    forwards(cx)


class Fw:
    def __init__(self, cx): self.cx = cx

    def init(self, st, fr): st.mon['calls'] = ()

    def on_call(self, st, fr, call):
        if strip_t(call.cls) in RINGS:
            A = tuple(models.rv(self.eng, st, fr, a) for a in call.args)
            st.mon['calls'] = st.mon['calls'] + ((call.name, A, call.nid),)

    def on_ret(self, st, fr, call, v):
        if strip_t(call.cls) in RINGS: st.mon['res'] = st.env.get(call.nid, v)


def forwards(cx):
    p = cx.p
    names = {'write': ('write', 1), 'read': ('read', 0), 'peek': ('read', 1), 'remove': ('remove', None), 'full': ('full', None), 'empty': ('empty', None), 'size': ('read_avail', None)}
    for nm, (op, flag) in names.items():
        for fn in p.need(ST + '::' + nm):
            if fn.lambda_ or not fn.blocks: continue
            r = Fw(cx)
            e = cx.engine([r], inline=lambda f: f.file.endswith('net/stream/basic.cc'), merge_at=50)
            inst = short(fn) + '(%s)' % ','.join(strip_t(x['t']) for x in fn.params)
            for st, rv, how in cx.run(e, fn):
                if how != 'ret': continue
                cs = st.mon['calls']
                bad = lambda m: cx.bad('forward', inst, fn.where(), m, st.trace_list())
                if nm in ('size', 'empty', 'full') and not cs:
                    bad('does not ask the buffer'); continue
                if not cs:
                    # a null target is refused
                    if rv == FALSE and fn.params and st.facts.truth(eq0(('prm', fn.params[0]['name']))) is True: cx.ok('forward', inst)
                    else: bad('moves nothing')
                    continue
                main = [x for x in cs if x[0] == op]
                other = [x[0] for x in cs if x[0] in ('write', 'read', 'remove', 'clear', 'consumer_clear', 'producer_clear', 'insert') and x[0] != op]
                if len(main) != 1 or other: bad('does not move the bytes once (%s)' % ', '.join(x[0] for x in cs)); continue
                A = main[0][1]
                ok = True
                if op in ('write', 'read'):
                    prm = ('d', ('prm', fn.params[0]['name']))
                    if len(fn.params) == 2: want = (('prm', fn.params[0]['name']), ('prm', fn.params[1]['name']))
                    else: want = (('addr', ('i', prm, FALSE)), None)
                    sp, sw = split(A[0]), split(want[0])
                    ok = sp == sw
                    if not ok: bad('the bytes given are not those of the caller (%s)' % val_str(A[0])); continue
                    if want[1] is not None: ok = uncast(A[1]) == want[1]
                    else:
                        n = uncast(A[1])
                        ok = n == st.read(('f', prm, '#size')) or n[0] in ('ld', 'call') and '#size' in repr(n)
                    if not ok: bad('the length given is not that of the caller (%s)' % val_str(A[1])); continue
                    fl = st.facts.truth(truthy(A[2])) if len(A) > 2 else False
                    if bool(fl) != bool(flag): bad('the %s switch is wrong' % ('all-or-nothing' if op == 'write' else 'read-only')); continue
                elif op == 'remove':
                    if uncast(A[0]) != ('prm', fn.params[0]['name']): bad('another number of bytes is removed (%s)' % val_str(A[0])); continue
                if rv != st.mon.get('res') and truthy(rv) != truthy(st.mon.get('res')): bad('the result of the buffer is not returned (%s)' % val_str(rv)); continue
                cx.ok('forward', inst)
