"""One walk over what a connection does with a decoded packet (Basic::work, all
helpers in context), judged for the calls it answers (C15) and the calls it
settles (C14)."""
from .lib import *
from . import models
from .bounds import split

CB = 'plain::net::connection::Basic'
PB = 'plain::net::packet::Basic'
UP = 'plain::net::rpc::Unpacker'
PK = 'plain::net::rpc::Packer'
DI = 'plain::net::rpc::Dispatcher'
MG = 'plain::net::connection::Manager'
KINDS = {'is_call_request': 1, 'is_call_response': 2, 'is_call_notify': 3}
SETK = {'set_call_request': 1, 'set_call_response': 2, 'set_call_notify': 3}
NAMES = {1: 'request', 2: 'response', 3: 'notify'}
RID = {1: 65534, 2: 65533, 3: 65532}


def uncast(v):
    while v[0] in ('cast', 'wrap'): v = v[2] if v[0] == 'cast' else v[1]
    return v


def calls_field(prog):
    """The table of pending calls: the member of the connection that maps to promises."""
    out = set()
    for r in prog.records.values():
        q = strip_t(r['q'])
        if q == CB or q.startswith(CB + '::'):
            for f in r['fields']:
                t = f.get('ct') or f['t']
                if 'map' in f['t'] + t and ('promise' in f['t'] + t or 'call_t' in f['t']): out.add(f['name'])
    if len(out) != 1: raise AnalysisError('the table of pending calls is not unique: %s' % sorted(out))
    return out.pop()


def in_conn(fn):
    return fn.scls == CB or fn.sq.startswith(CB + '::') or '/net/connection/basic' in fn.file and '/drivers/' not in fn.file


def inliner_for(prog, table):
    """What leads to the table of pending calls, the dispatcher or the packet, in the module of the connection."""
    quals = {strip_t(r['q']) + '::' + table for r in prog.records.values()}
    rx = re.compile(r'^(%s::(operator>>|operator<<|read|write)|%s::dispatch|std::promise::set_)' % (PB, DI))
    hit = reaching(prog, lambda f: in_conn(f) and (mentions_field(f, quals) or calls_match(f, rx)))

    def f(fn):
        if any(x in fn.file for x in NOISE): return False
        if fn.sq == CB + '::send': return False
        if in_conn(fn): return fn.fid in hit or fn.lambda_ or small(fn)
        return fn.scls == UP and small(fn)
    return f


def is_table(loc, field): return loc is not None and loc[0] == 'f' and loc[2] == field


def fields_like(prog, cls, rx):
    r = prog.record(cls)
    if r is None: raise AnalysisError('anchor vanished: class ' + cls)
    return [f['name'] for f in r['fields'] if re.search(rx, f['t'])]


class Only:
    """Keeps the obligations of one property of the shared walk."""

    def __init__(self, cx, rules): self.cx, self.rules = cx, rules
    def __getattr__(self, k): return getattr(self.cx, k)
    def ok(self, rule, inst):
        if rule in self.rules: self.cx.ok(rule, inst)
    def bad(self, rule, *a, **k):
        if rule in self.rules: self.cx.bad(rule, *a, **k)


class Walk:
    def __init__(self, cx, table):
        self.cx, self.p, self.table = cx, cx.p, table
        self.ptrs = fields_like(cx.p, UP, r'^const (unsigned char|uint8_t) \*$|uint8_t \*$')
        if len(self.ptrs) != 2: raise AnalysisError('Unpacker no longer refers to its bytes by two pointers')
        self.seen = set()
        self.wire = {'request in': set(), 'notify in': set(), 'response in': set(), 'response out': set()}

    # -- bookkeeping --
    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(kind=None, reads=(), disp=0, sent=0, out=None, outw=(), outid=None, outkind=(), outwr=False, err=None,
                      find=None, taken=False, erased=False, settled=None, locked=True, epoch=0, span=None, off=None, res=None, null=(), pptr=None,
                      kd=None, nul=False, idx0=False, missing=False, nores=False)

    def chk(self, ok, st, fr, rule, inst, line, msg):
        self.seen.add(rule)
        if ok or st.facts.infeasible(): self.cx.ok(rule, inst)
        else: self.cx.bad(rule, inst, fr.fn.where(line), msg, st.trace_list(), key='%s@%s' % (rule, inst))

    def known(self, st, k):
        if st.mon['kd'] is not None: return st.mon['kd'] == k
        K = st.mon['kind']
        return K is not None and st.facts.truth(eq0(sub(K, c(k)))) is True

    def maybe(self, st, k):
        if st.mon['kd'] is not None: return st.mon['kd'] == k
        K = st.mon['kind']
        return K is not None and st.facts.truth(eq0(sub(K, c(k)))) is not False

    def lock_held(self, st, loc):
        """Is a lock of the object that owns loc held?"""
        return any(m[0] == 'f' and m[1] == loc[1] for m in st.locks)

    # -- events --
    def on_call(self, st, fr, call):
        cls, nm = strip_t(call.cls), call.name
        rv = lambda i: models.rv(self.eng, st, fr, call.args[i])
        new = call.obj is not None and self.fresh(call.obj)
        if cls == PB and new:
            m = st.mon
            if nm == 'set_id': m['outid'] = rv(0)
            elif nm in SETK: m['outkind'] = m['outkind'] + ((SETK[nm], rv(0)),)
            elif nm == 'set_writeable': m['outwr'] = rv(0)
            elif nm in ('operator<<', 'write'):
                a = call.args[0]
                n = fr.fn.nodes[call.anodes[0]]
                v = models.rv(self.eng, st, fr, a) if 'w' in n else a
                self.chk(m['outwr'] == TRUE, st, fr, 'response', 'written while writeable', call.line, 'the response is written while the packet is not writeable')
                m['outw'] = m['outw'] + ((uncast(v), abs(n.get('w', 0))),)
        elif cls == CB and nm == 'send' and call.args:
            self.sending(st, fr, call)
        elif cls == DI and nm == 'dispatch':
            m = st.mon
            m['disp'] = min(m['disp'] + 1, 2)
            n = len(m['reads'])
            for k in (1, 3):
                if not self.maybe(st, k): continue
                want = 1 if k == 1 else 0
                self.chk(not self.known(st, k) or n == want, st, fr, 'request', 'arguments of a %s start after its %s' % (NAMES[k], 'index' if k == 1 else 'header'), call.line,
                         'a %s is dispatched after %d field(s) were taken from it instead of %d' % (NAMES[k], n, want))
                if self.known(st, k): self.wire[NAMES[k] + ' in'].add(tuple(w for _, w in m['reads']))
            if not (self.known(st, 1) or self.known(st, 3)):
                self.chk(self.maybe(st, 1) and self.maybe(st, 3) and not self.maybe(st, 2), st, fr, 'request', 'only calls are dispatched', call.line,
                         'a packet that is not a call is dispatched to a rpc function')
        elif cls == 'std::promise' and nm in ('set_value', 'set_exception'):
            self.settle(st, fr, call)
        elif cls == PK and call.obj is not None and call.obj[0] == 'd' and call.obj[1][0] == 'ld':
            self.chk(st.facts.truth(eq0(call.obj[1])) is False, st, fr, 'response', 'the result exists', call.line,
                     'uses the packer of a result that a function without result does not have (null)')

    def fresh(self, loc):
        r = loc_root(loc)
        return r[0] == 'd' and r[1][0] == 'new'

    def on_ret(self, st, fr, call, v):
        cls, nm = strip_t(call.cls), call.name
        m = st.mon
        t = fr.fn.nodes[call.nid].get('t', '')
        site = self.eng.site(fr, call.nid)
        if 'variant' in t and 'packet::Basic' in t and call.node['k'] != 'CXXConstructExpr':
            self.judge(st, fr, call.line)
            self.init(st, Fr(self.fn))
            K = ('opq', 'kind') + site
            SYMW[K] = 8
            m = st.mon
            m['kind'] = K
            return
        if cls == PB and call.obj is not None and not self.fresh(call.obj):
            if nm in KINDS:
                if m['kind'] is not None: st.env[call.nid] = eq0(sub(m['kind'], c(KINDS[nm])))
            elif nm in ('operator>>', 'read') and call.args:
                a = call.args[0]
                n = fr.fn.nodes[call.anodes[0]]
                i = len(m['reads'])
                if a[0] == 'lv' and 'w' in n:
                    f = ('opq', 'fld%d' % i) + site
                    SYMW[f] = n['w']
                    st.mem[a[1]] = f
                    m['reads'] = m['reads'] + ((f, abs(n['w'])),)
                else: m['reads'] = m['reads'] + (('?', 0),)
                m['off'] = None
            elif nm == 'data':
                m['span'] = ('f', call.obj, '#span')
                st.env[call.nid] = ('lv', m['span'])
                m['pptr'] = call.obj
            elif nm == 'offset':
                if m['off'] is None:
                    m['off'] = v; SYMW.setdefault(v, 64)
                else: st.env[call.nid] = m['off']
        elif cls == DI and nm == 'dispatch':
            m['res'] = v[1] if v[0] == 'lv' else v
        elif nm == 'get_error' and m['disp'] and m['err'] is None:
            m['err'] = v
        elif cls == MG and nm == 'rpc_dispatcher' or cls in models.SMART and nm == 'lock':
            x = v
            if v[0] == 'lv': x = st.read(('f', v[1], '#p'))
            m['null'] = m['null'] + (x,) if x not in m['null'] else m['null']

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if not is_table(loc, self.table): return
        m = st.mon
        held = self.lock_held(st, loc)
        if op == 'find':
            m['find'] = uncast(kw['key'])
            r = m['reads']
            self.chk(bool(r) and m['find'] == r[0][0], st, fr, 'response match', 'the call is looked up by the index of the response', call.line,
                     'the pending call is looked up by %s, not by the index in the response' % val_str(m['find']))
        elif op == 'erase':
            a = args[0]
            k = models.objval(self.eng, st, fr, a) if a[0] == 'lv' else a
            ok = k[0] == 'it' and k[2] == ('find', m['find']) if k[0] == 'it' else uncast(k) == m['find']
            self.chk(ok and m['find'] is not None, st, fr, 'response match', 'the call that was found is taken out', call.line, 'another entry than the one found is erased')
            m['erased'] = True
            if kw.get('how') == 'extract': m['taken'] = True
        elif op == 'clear':
            pass

    def on_move(self, st, fr, src, dst, line):
        x = src
        while x[0] in ('f', 'i', 'd'):
            if x[0] == 'i' and is_table(x[1], self.table):
                st.mon['taken'] = True
                st.mon['from'] = dst
                return
            if x[0] == 'd': return
            x = x[1]

    def settle(self, st, fr, call):
        m = st.mon
        obj = call.obj
        inmap = False
        x = obj
        while x is not None and x[0] in ('f', 'i'):
            if x[0] == 'i' and is_table(x[1], self.table): inmap = True
            x = x[1]
        self.chk(m['find'] is not None and (m['taken'] or inmap), st, fr, 'settle', 'the call that was found', call.line, 'settles a call that was not taken from the table of pending calls')
        self.chk(m['settled'] is None, st, fr, 'settle', 'once per response', call.line, 'a response settles a call twice (%s after %s)' % (call.name, m['settled']))
        first = m['settled'] is None
        m['settled'] = call.name
        if not first: return
        r = m['reads']
        e = r[1][0] if len(r) > 1 else None
        if call.name == 'set_value':
            self.chk(e is not None and st.facts.truth(eq0(e)) is True, st, fr, 'settle', 'value only without error', call.line,
                     'the call succeeds although the response carries an error code')
            a = call.args[0]
            if a[0] == 'lv': self.result(st, fr, call, a[1])
        else:
            self.chk(e is not None and st.facts.truth(eq0(e)) is False, st, fr, 'settle', 'exception only with an error', call.line,
                     'the call fails although the response carries a result')

    def result(self, st, fr, call, U):
        m = st.mon
        d, e = st.read(('f', U, self.ptrs[0])), st.read(('f', U, self.ptrs[1]))
        sp = split(d)
        if sp is None:
            self.chk(False, st, fr, 'result bytes', 'known', call.line, 'the bytes of the result are not those of the response'); return
        reg = sp[0]
        if reg == m['span'] and m['span'] is not None:
            off = m['off'] or FALSE
            n = st.read(('f', reg, '#size'))
            self.chk(uncast(sp[1]) == off and m['off'] is not None, st, fr, 'result bytes', 'start after the fields read', call.line,
                     'the result starts at %s instead of the read position of the packet' % val_str(sp[1]))
            se = split(e)
            self.chk(se is not None and se[0] == reg and self.same(st, se[1], n), st, fr, 'result bytes', 'end with the packet', call.line,
                     'the result ends at %s instead of the end of the packet' % (val_str(se[1]) if se else '?'))
            pk = m['pptr']
            owned = any(under(k, U) and k[0] == 'f' and k[2] == '#p' and v is not None and ('d', v) == pk or
                        under(k, U) and k[0] == 'f' and k[2] == '#p' and deref(v) == pk for k, v in list(st.mem.items()) if k[0] == 'f')
            self.chk(owned, st, fr, 'result bytes', 'kept alive by the result', call.line,
                     'the result refers to bytes of the packet, which is destroyed when it has been handled, without owning it')
        else:
            self.chk(under(reg, U), st, fr, 'result bytes', 'kept alive by the result', call.line, 'the result refers to bytes it does not own (%s)' % loc_str(reg))

    def same(self, st, a, b):
        d = sub(uncast(a), b)
        return d == FALSE or st.facts.truth(eq0(d)) is True or st.facts.prove_ge0(d) and st.facts.prove_ge0(neg(d))

    def sending(self, st, fr, call):
        m = st.mon
        if m['kind'] is None: return
        a = call.args[0]
        p = st.read(('f', a[1], '#p')) if a[0] == 'lv' else None
        if p is None or p[0] != 'new': 
            self.chk(False, st, fr, 'response', 'a packet of its own', call.line, 'a packet of unknown origin is sent while a call is handled'); return
        m['sent'] = min(m['sent'] + 1, 2)
        self.chk(self.known(st, 1), st, fr, 'response', 'to requests only', call.line, 'a response is sent to a packet that is not a request')
        self.chk(m['outid'] is not None and uncast(m['outid']) == c(RID[2]), st, fr, 'response', 'id', call.line,
                 'the response carries id %s' % (val_str(m['outid']) if m['outid'] else 'none'))
        self.chk(m['outkind'] and m['outkind'][-1] == (2, TRUE), st, fr, 'response', 'call flag', call.line, 'the answer is not marked as a call response')
        w = m['outw']
        r = m['reads']
        self.chk(len(w) >= 2 and r and w[0][0] == r[0][0], st, fr, 'response', 'index of the request', call.line,
                 'the response does not start with the index of the request but with %s' % (val_str(w[0][0]) if w and w[0][0][0] != 'lv' else 'something else'))
        if len(w) < 2: return
        e = m['err']
        iserr = e is not None and st.facts.truth(eq0(e)) is False
        noerr = e is not None and st.facts.truth(eq0(e)) is True
        ev = w[1][0]
        self.chk(iserr or noerr, st, fr, 'response', 'outcome known', call.line, 'the response is sent without looking at the outcome of the call')
        if iserr:
            self.chk(st.facts.truth(eq0(ev)) is not True, st, fr, 'response', 'error code of a failed call', call.line, 'a failed call is answered without an error')
            self.chk(len(w) == 2, st, fr, 'response', 'no result of a failed call', call.line, 'a failed call is answered with a result')
        if noerr:
            self.chk(st.facts.truth(eq0(ev)) is True, st, fr, 'response', 'no error of a successful call', call.line, 'a successful call is answered with error %s' % val_str(ev))
            self.chk(len(w) <= 3, st, fr, 'response', 'one result', call.line, 'a call is answered with several results')
            if len(w) == 2:
                # only a call without result may be answered without one
                self.chk(m.get('nores'), st, fr, 'response', 'result of a successful call', call.line, 'a successful call that has a result is answered without it')
            self.wire['response out'].add(tuple(x[1] for x in w[:2]))
        self.wire['response out'].add(tuple(x[1] for x in w[:2]))

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        """Outcomes are recorded when they are decided: facts do not survive the loop over packets."""
        m = st.mon
        if m['kind'] is None: return
        if m['kd'] is None:
            for k in (1, 2, 3):
                if st.facts.truth(eq0(sub(m['kind'], c(k)))) is True: m['kd'] = k
        x = cond if taken else neg_(cond)
        if m['disp'] and m['err'] is not None and x[0] == 'eq0' and self.packer(x[1]): m['nores'] = True     # void functions
        if not m['nul']: m['nul'] = any(st.facts.truth(eq0(y)) is True for y in m['null'])
        r = m['reads']
        if r and r[0][0] != '?' and st.facts.truth(eq0(r[0][0])) is True: m['idx0'] = True
        if m['find'] is not None:
            its = set()
            collect_its(x, its)
            if x[0] in ('eq', 'eq0') and {k[0] for k in its} == {'find', 'end'}: m['missing'] = True
            elif x[0] != 'eq0' and any(v[0] == 'has' for v in walk(x)) and x[0] == 'not': m['missing'] = True
            elif x[0] == 'eq0' and any(v[0] == 'has' for v in walk(x)): m['missing'] = True

    def packer(self, v):
        return v[0] == 'ld' and v[1][0] == 'f' and v[1][2] == '#p' or v[0] == 'call' and v[1] == 'std::get_if'

    def judge(self, st, fr, line):
        m = st.mon
        if m['kind'] is None or st.facts.infeasible(): return
        for k in (1, 3):
            if not self.known(st, k): continue
            nul = m['nul']
            self.chk(m['disp'] == 1 or m['disp'] == 0 and nul, st, fr, 'request', '%s dispatched once' % NAMES[k], line,
                     'a %s is dispatched %s' % (NAMES[k], 'twice' if m['disp'] else 'never although a dispatcher exists'))
        if self.known(st, 1):
            self.chk(m['sent'] == m['disp'] or m['disp'] == 0 and m['sent'] == 0, st, fr, 'response', 'exactly one', line,
                     'a request is answered %s' % ('twice' if m['sent'] > 1 else 'never' if not m['sent'] else 'although it was not dispatched'))
        else:
            self.chk(m['sent'] == 0, st, fr, 'response', 'to requests only', line, 'a response is sent to a packet that is not a request')
        self.chk(not m['erased'] or m['settled'] is not None, st, fr, 'settle', 'what is taken out is settled', line,
                 'a pending call is taken out of the table and never settled')
        self.chk(m['settled'] is None or m['erased'], st, fr, 'settle', 'what is settled is taken out', line,
                 'a call is settled but stays in the table (a second response settles it again)')
        if self.known(st, 2) and m['find'] is None:
            r = m['reads']
            self.chk(m['idx0'], st, fr, 'response match', 'every response is looked up', line,
                     'a response with an index is dropped without looking for its call')
        if self.known(st, 2) and m['find'] is not None and len(m['reads']) > 1:
            self.wire['response in'].add(tuple(w for _, w in m['reads'][:2]))
        if self.known(st, 2) and m['find'] is not None and not m['erased']:
            self.chk(m['missing'], st, fr, 'settle', 'a found call is settled', line, 'a response leaves the call it belongs to pending')


def walk(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str): yield x
        for y in x: yield from walk(y)


def collect_its(x, out):
    for y in walk(x):
        if y[0] == 'it' and isinstance(y[2], tuple): out.add(y[2])


def neg_(a): return a[1] if a[0] == 'not' else ('not', a)


class Fr:
    def __init__(self, fn): self.fn = fn


ST = 'plain::net::stream::Basic'
SK = 'plain::net::socket::Basic'


class Caller:
    """async_call and the functions it uses: a call is registered exactly when its request was written."""

    def __init__(self, cx, table):
        self.cx, self.table = cx, table
        self.wires = set()

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(w=(), id=None, kind=(), idx=None, wrote=None, reg=None, exc=0, ep=0, valid=None, fut=None, mv=None)

    chk = Walk.chk
    seen = set()

    def on_unlock(self, st, fr, mutex, line): st.mon['ep'] = st.mon['ep'] + 1

    def on_call(self, st, fr, call):
        cls, nm = strip_t(call.cls), call.name
        m = st.mon
        rv = lambda i: models.rv(self.eng, st, fr, call.args[i])
        if cls == PB and call.obj is not None and (call.obj[0] == 'd'):
            if nm == 'set_id': m['id'] = uncast(rv(0))
            elif nm in SETK and rv(0) == TRUE: m['kind'] = m['kind'] + (SETK[nm],)
            elif nm in ('operator<<', 'write'):
                n = fr.fn.nodes[call.anodes[0]]
                v = uncast(rv(0)) if 'w' in n else ('name',) if 'char' in n.get('t', '') and 'string' in n.get('t', '') else ('args',)
                m['w'] = m['w'] + ((v, abs(n.get('w', 0))),)
        elif cls == ST and nm == 'write':
            m['wrote'] = m['ep']
            self.chk(m['kind'] and m['kind'][-1] == self.want, st, fr, 'caller', 'marked before it is written', call.line, 'the %s is written before it is marked as one' % NAMES[self.want])
        elif cls == 'std::promise' and nm == 'set_exception':
            self.chk(m['exc'] == 0, st, fr, 'caller', 'failed once', call.line, 'the promise of a call is failed twice')
            self.chk(m['reg'] is None, st, fr, 'caller', 'a registered call is not failed', call.line, 'a call that is registered is failed by the caller as well (the response settles it a second time)')
            m['exc'] = min(2, m['exc'] + 1)
        elif cls == 'std::promise' and nm == 'get_future': m['fut'] = call.obj

    def on_ret(self, st, fr, call, v):
        cls, nm = strip_t(call.cls), call.name
        m = st.mon
        if cls == SK and nm == 'valid': m['valid'] = (v, m['ep'])
        elif cls == CB and nm == 'new_call_index':
            m['idx'] = uncast(v)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if not is_table(loc, self.table): return
        m = st.mon
        if op in ('push', 'index'):
            k = uncast(models.objval(self.eng, st, fr, args[0]))
            m['reg'] = m['ep']
            m['regat'] = call.line
            self.chk(bool(m['w']) and k == m['w'][0][0], st, fr, 'caller', 'registered under the index it sends', call.line,
                     'the call is registered under %s, which is not the index in the request' % val_str(k))
            val = m['valid']
            self.chk(val is not None and val[1] == m['ep'] and st.facts.truth(eq0(val[0])) is False, st, fr, 'caller', 'registered on an open connection only', call.line,
                     'the call is registered without testing, under the same lock, that the connection is open (closing it would miss the call)')
        elif op == 'erase': m['reg'] = None
        elif op in ('clear', 'swap'): pass

    def done(self, st, fr):
        m = st.mon
        r = m['reg']
        if self.want == 1:
            if r is not None:
                self.chk(m['wrote'] is not None and m['wrote'] == r, st, fr, 'caller', 'registered in the section that writes', m.get('regat', 0),
                         'the call is registered in another locked section than the one that writes its request (the response may be handled in between)' if m['wrote'] is not None
                         else 'a call is registered although its request was not written')
            self.chk((r is not None) != (m['exc'] > 0), st, fr, 'caller', 'registered or failed', 0,
                     'a call is neither registered nor failed: its caller waits for ever' if r is None else 'a call is registered and failed')
        w = m['w']
        self.chk(m['id'] == c(RID[self.want]), st, fr, 'caller', '%s id' % NAMES[self.want], 0, 'the %s carries id %s' % (NAMES[self.want], val_str(m['id']) if m['id'] else 'none'))
        self.wires.add(tuple(x[1] or x[0][0] for x in w))


def caller(cx, table, rules):
    """Walk the sending side; returns the wire layouts written."""
    p = cx.p
    quals = {strip_t(r['q']) + '::' + table for r in p.records.values()}
    out = {}
    for nm, want in (('async_call', 1), ('send', 3)):
        fns = [f for f in p.find(CB + '::' + nm) if f.blocks and any('string_view' in x['t'] for x in f.params[:1])]
        if not fns: raise AnalysisError('anchor vanished: %s::%s' % (CB, nm))
        w = Caller(Only(cx, rules), table); w.want = want
        for f in fns:
            def inl(fn):
                if any(x in fn.file for x in NOISE): return False
                if fn.scls == CB or fn.sq.startswith(CB + '::'): return fn.name not in ('enqueue_work', 'new_call_index')
                return False
            e = cx.engine([w], inline=inl, merge_at=200, max_steps=200000)
            for st, rv, how in cx.run(e, f):
                if how == 'throw': continue
                w.done(st, Fr(f))
        out[NAMES[want] + ' out'] = w.wires
    return out
