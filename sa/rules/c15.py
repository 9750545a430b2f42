"""Every remote call that arrives is dispatched once and, if it is a request, answered exactly once with its outcome."""
from ..rpcwalk import *
from .c14 import walk_work

RULE = ('Abstract execution of the handling of one decoded packet: a request or notification is dispatched exactly once (when a dispatcher is set), a '
        'request is answered by exactly one packet marked as response, starting with the index the request carried, the error code of the outcome '
        '(zero iff dispatch reported none) and, iff successful and there is one, the result; notifications and other packets are never answered. '
        'The fields caller and callee write are those the other side reads, in order and width. dispatch() calls only the function bound to the name '
        'received and reports every failure (no name, unknown name, arguments that do not decode); the adaptors call the user function only with '
        'arguments that decoded without error, and return its packed result.')
LEVEL = 'proof'
ASSUMES = ['packets behave as documented (C01/C02)', 'user functions do not throw']
MIN = {'request': 4, 'response': 9, 'wire': 3, 'dispatch': 3, 'adaptor': 5}
MINE = {'request', 'response', 'wire', 'dispatch', 'adaptor'}
AD = DI


def positive(x):
    neg = False
    while x[0] in ('not', 'eq0'): neg = not neg; x = x[1]
    return not neg


class Dispatch:
    seen = set()
    chk = Walk.chk

    def __init__(self, cx): self.cx = cx

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(name=None, found=None, called=0, err=None, ret=None, empty=False, miss=False)

    def on_call(self, st, fr, call):
        m = st.mon
        cls, nm = strip_t(call.cls), call.name
        if cls == PB and nm in ('operator>>', 'read') and call.args and call.args[0][0] == 'lv': m['name'] = call.args[0][1]
        elif cls == 'std::variant' and nm == 'variant' and call.anodes:
            t = fr.fn.nodes[call.anodes[0]].get('t', '')
            m['ret'] = 'error' if 'Error' in t else 'result' if 'shared_ptr' in t else '?'

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if op == 'find' and 'map' in fr.fn.nodes[call.node['obj']].get('t', ''):
            st.mon['found'] = args[0][1] if args[0][0] == 'lv' else args[0]

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        x = cond if taken else neg_(cond)
        m = st.mon
        its = set(); collect_its(x, its)
        if {k[0] for k in its} == {'find', 'end'}:
            m['miss'] = x[0] in ('eq', 'eq0')
            m['hit'] = not m['miss']
        if m['called'] and m['err'] is None:
            for v in walk(x):
                if v[0] == 'call' and v[1].endswith('Error::operator bool'): m['err'] = positive(x)

    def on_usercall(self, st, fr, call):
        m = st.mon
        m['called'] = min(2, m['called'] + 1)
        self.chk(m['name'] is not None and m['found'] == m['name'] and m.get('hit'), st, fr, 'dispatch', 'only the function of that name', call.line,
                 'a function is called that was not found under the name received')
        self.chk(m['called'] == 1, st, fr, 'dispatch', 'called once', call.line, 'a request calls its function twice')


class Adaptor:
    """The closures bind() stores."""
    seen = set()
    chk = Walk.chk

    def __init__(self, cx): self.cx = cx

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(dec=False, err=None, called=0, packed=False, ret=None)

    def on_call(self, st, fr, call):
        m = st.mon
        cls, nm = strip_t(call.cls), call.name
        if cls == UP and nm in ('unpack', 'process', 'operator()'): m['dec'] = True; m['err'] = None
        elif cls == PK and nm in ('process', 'pack', 'operator()'):
            self.chk(m['called'] == 1, st, fr, 'adaptor', '%s: packs the result' % self.inst, call.line, 'something is packed before the function was called')
            m['packed'] = True
        elif cls.startswith('plain::Error') or cls == UP: pass
        elif self.user(fr, call): self.usercall(st, fr, call)

    def user(self, fr, call):
        """The bound function: an indirect call, a call of the captured closure, or the helper that spreads the arguments."""
        if call.q in ('#indirect', 'plain::net::rpc::call', 'plain::net::rpc::call_helper', 'std::apply', 'std::invoke'): return True
        f = self.cx.p.fn(call.fid) if call.fid else None
        return f is not None and f.lambda_ and call.node['k'] == 'CXXOperatorCallExpr'

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        x = cond if taken else neg_(cond)
        for v in walk(x):
            if v[0] == 'call' and v[1].endswith('Error::operator bool'): st.mon['err'] = positive(x)

    def usercall(self, st, fr, call):
        m = st.mon
        if m['called'] and m.get('ucall') != call.nid and call.q.endswith('call_helper'): return
        if self.args:
            self.chk(m['dec'] and m['err'] is False, st, fr, 'adaptor', '%s: only with decoded arguments' % self.inst, call.line,
                     'the function is called %s' % ('although its arguments may have failed to decode' if m['dec'] else 'without decoding its arguments'))
        m['called'] = min(2, m['called'] + 1); m['ucall'] = call.nid
        self.chk(m['called'] == 1, st, fr, 'adaptor', '%s: called once' % self.inst, call.line, 'the function is called twice')


def run(cx):
    p = cx.p
    table = calls_field(p)
    w = walk_work(cx, table, MINE)
    wires = dict(w.wire)
    wires.update(caller(cx, table, set()))
    # the two sides agree
    for kind, pre in (('request', 1), ('notify', 0), ('response', 2)):
        o, i = wires[kind + ' out'], wires[kind + ' in']
        if kind != 'response': o = {x[:pre] if len(x) > pre else x for x in o if x[pre:pre + 1] == ('name',)} if all(x[pre:pre + 1] == ('name',) for x in o) else o
        cx.check(len(o) == 1 and o == i, 'wire', kind, '', 'a %s is written as %s and read as %s' % (kind, sorted(o), sorted(i)))
    f = p.need(DI + '::dispatch')[0]
    d = Dispatch(cx)
    e = cx.engine([d], inline=lambda fn: fn.scls == DI or in_file(fn, '/net/rpc/dispatcher') and not fn.lambda_, merge_at=50)
    for st, rv, how in cx.run(e, f):
        m = st.mon
        if how == 'throw': continue
        if m['called']:
            d.chk(m['err'] is not None, st, Fr(f), 'dispatch', 'argument errors are looked at', 0, 'the outcome is returned without testing whether the arguments decoded')
            if m['err'] is not None:
                d.chk(m['ret'] == ('error' if m['err'] else 'result'), st, Fr(f), 'dispatch', 'failed' if m['err'] else 'succeeded', 0,
                      'arguments that do not decode are not reported' if m['err'] else 'a successful call is reported as an error')
        else:
            d.chk(m['ret'] == 'error', st, Fr(f), 'dispatch', 'not called is an error', 0, 'a call that reaches no function is reported as successful')
    n = 0
    for f in p.all():
        if not f.lambda_ or not f.sq.endswith('operator()') or 'rpc/dispatcher' not in f.file or not f.params or 'Unpacker' not in f.params[0]['t']: continue
        n += 1
        a = Adaptor(cx)
        a.args = any(x and strip_t(x.get('q', '')) in (UP + '::unpack', UP + '::process', UP + '::operator()') for x in f.nodes) or \
            any(x and strip_t(x.get('q', '')) == 'plain::net::rpc::call' for x in f.nodes)
        void = not any(x and strip_t(x.get('q', '')).startswith('std::make_shared') for x in f.nodes)
        a.inst = 'line %s' % f.line if False else '%s arguments, %s' % ('with' if a.args else 'without', 'no result' if void else 'result')
        e = cx.engine([a], inline=lambda fn: False, merge_at=20)
        for st, rv, how in cx.run(e, f):
            m = st.mon
            if how == 'throw': continue
            if a.args and m['err']:
                a.chk(m['called'] == 0, st, Fr(f), 'adaptor', '%s: not with broken arguments' % a.inst, 0, 'the function is called with arguments that did not decode')
                continue
            a.chk(m['called'] == 1, st, Fr(f), 'adaptor', '%s: called' % a.inst, 0, 'the function is not called')
            if not void: a.chk(m['packed'], st, Fr(f), 'adaptor', '%s: result packed' % a.inst, 0, 'the result of the function is not returned')
    if n < 4: raise AnalysisError('only %d adaptors found' % n)
