"""Every remote call is settled exactly once: by its response, a failed send, the close of its connection, or the stop of its manager."""
from ..rpcwalk import *

RULE = ('Abstract execution of the handling of one decoded packet (Basic::work, helpers in context) and of async_call/send_call: a response looks up the '
        'pending call by the index it carries, under the lock takes exactly that entry out of the table and settles it once, with a value iff the '
        'error code it carries is zero; the result refers to the rest of the packet and shares ownership of it; a call is registered under the index '
        'it sends, in the locked section that wrote the request and tested the connection to be open, or else failed by the caller, never both or '
        'neither; closing a connection closes the socket before it empties the table; removing a connection and stopping the manager close it.')
LEVEL = 'proof'
ASSUMES = ['packets behave as documented (C01/C02)', 'destroying an unsettled std::promise fails its future', 'the table is accessed under the lock (C11)']
MIN = {'settle': 6, 'response match': 3, 'result bytes': 3, 'caller': 6, 'close': 2, 'removal': 1, 'stop': 1}
MINE = {'settle', 'response match', 'result bytes', 'caller', 'close', 'removal', 'stop'}


class Close:
    def __init__(self, cx, table): self.cx, self.table = cx, table
    seen = set()
    chk = Walk.chk

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(closed=False, cleared=False, vals=())

    def on_ret(self, st, fr, call, v):
        if strip_t(call.cls) == SK:
            if call.name == 'close': st.mon['closed'] = True
            elif call.name == 'valid': st.mon['vals'] = st.mon['vals'] + (v,)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if is_table(loc, self.table) and op in ('clear', 'swap'):
            m = st.mon
            m['cleared'] = True
            ok = m['closed'] or any(st.facts.truth(eq0(v)) is True for v in m['vals'])
            self.chk(ok, st, fr, 'close', '%s closes before it empties the table' % short(self.fn), call.line,
                     'the pending calls are dropped while the connection is still open (a call registered afterwards is never settled)')

    def on_move(self, st, fr, src, dst, line):
        if is_table(src, self.table): st.mon['cleared'] = True

    def on_exchange(self, st, fr, loc, new, line):
        if is_table(loc, self.table): st.mon['cleared'] = True


class Remove:
    seen = set()
    chk = Walk.chk

    def __init__(self, cx): self.cx = cx

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(closed=False, gone=None, conn=None)

    def on_call(self, st, fr, call):
        if strip_t(call.cls) == CB:
            if call.name == 'close': st.mon['closed'] = True
            elif call.name in ('on_disconnect', 'shutdown', 'is_keep_alive'): st.mon['gone'] = call.line

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        m = st.mon
        if op == 'index' and loc[0] == 'f' and loc[2] == 'list': m['conn'] = ('f', ('i', loc, kw['idx']), '#p')
        if op in ('erase',) and 'id' in str(loc[-1]): m['gone'] = call.line
        if op == 'push' and loc[0] == 'f' and loc[2] == 'free_ids': m['gone'] = call.line


class Stop:
    seen = set()
    chk = Walk.chk

    def __init__(self, cx): self.cx = cx

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(after=False, loop=False, closed=False, elem=None, var=None, zero=(), whole=False)

    def next(self, st, fr, line):
        m = st.mon
        self.chk(m['closed'] or m.get('null'), st, fr, 'stop', 'every connection is closed', line, 'a connection of a stopped manager stays open with its calls pending')
        m['closed'] = False; m['null'] = False

    def on_write(self, st, fr, loc, v, line, init):
        m = st.mon
        if not m['after']: return
        if not init and loc == m['var']: self.next(st, fr, line)

    def on_decl(self, st, fr, loc, v, var, line):
        m = st.mon
        if m['after'] and v is not None and v[0] == 'c' and v[1] == 0 and loc not in m['zero']: m['zero'] = m['zero'] + (loc,)

    def on_call(self, st, fr, call):
        m = st.mon
        cls = strip_t(call.cls)
        if call.name == 'shutdown' and 'executor' in cls: m['after'] = True
        elif cls == CB and call.name == 'close' and m['after']: m['closed'] = True
        elif models.ITER.match(cls) and call.name in ('operator*', 'operator->') and m['loop']: m['elem'] = models.elem_loc(st.read(call.obj))
        elif models.ITER.match(cls) and call.name == 'operator++' and m['loop']:
            self.next(st, fr, call.line)

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        m = st.mon
        x = cond if taken else neg_(cond)
        if m['after']: self.on_branch_(st, fr, x)
        if m['loop']:
            if x[0] == 'eq0' and x[1][0] == 'ld' and x[1][1][0] == 'f' and x[1][1][2] == '#p': m['null'] = True

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        m = st.mon
        if not m['after'] or loc[0] != 'f' or loc[2] != 'list': return
        if op == 'begin': m['loop'] = m['whole'] = True
        elif op == 'index':
            i = kw.get('idx')
            vs = [x for x in m['zero'] if st.mem.get(x) == i]      # a counter from zero
            if vs: m['loop'] = True; m['var'] = vs[0]

    def on_branch_(self, st, fr, x):
        # counted: left when the counter has reached the number of slots
        for y in walk(x):
            if isinstance(y, tuple) and y[:1] == ('ld',) and y[1][:1] == ('f',) and y[1][2] == '#size' and y[1][1][:1] == ('f',) and y[1][1][2] == 'list':
                for v in st.mon['zero']:
                    if v in st.mem and st.facts.prove_ge0(sub(st.mem[v], y)): st.mon['whole'] = True


def walk_work(cx, table, rules):
    w = Walk(Only(cx, rules), table)
    f = cx.p.need(CB + '::work')[0]
    e = cx.engine([w], inline=inliner_for(cx.p, table), merge_at=400, max_steps=400000)
    outs = cx.run(e, f)
    for st, rv, how in outs: w.judge(st, Fr(f), 0)
    return w


def run(cx):
    p = cx.p
    table = calls_field(p)
    walk_work(cx, table, MINE)
    caller(cx, table, MINE)
    quals = {strip_t(r['q']) + '::' + table for r in p.records.values()}
    conn = lambda fn: in_conn(fn) and not any(x in fn.file for x in NOISE)
    for nm in ('close', 'init'):
        f = p.need(CB + '::' + nm)[0]
        w = Close(cx, table)
        e = cx.engine([w], inline=conn, merge_at=50)
        for st, rv, how in cx.run(e, f):
            if how == 'throw' or nm == 'init' and rv is not None and st.facts.truth(models.rv(e, st, Fr(f), rv) if rv[0] != 'lv' else st.read(rv[1])) is False: continue
            w.chk(st.mon['cleared'], st, Fr(f), 'close', '%s settles the pending calls' % nm, 0, 'the calls pending on a connection survive its %s' % nm)
    fs = [f for f in p.find(MG + '::remove') if f.blocks and 'shared_ptr' not in f.params[0]['t']]
    if not fs: raise AnalysisError('anchor vanished: %s::remove' % MG)
    for f in fs:
        w = Remove(cx)
        e = cx.engine([w], inline=lambda fn: fn.scls == MG or fn.sq.startswith(MG + '::'), merge_at=50)
        for st, rv, how in cx.run(e, f):
            m = st.mon
            nul = m['conn'] is not None and st.facts.truth(eq0(st.read(m['conn']))) is True
            w.chk(m['gone'] is None or m['closed'] or nul, st, Fr(f), 'removal', 'a removed connection is closed', m['gone'] or 0,
                  'a connection is removed without being closed: its pending calls are never settled')
    f = p.need(MG + '::stop')[0]
    w = Stop(cx)
    e = cx.engine([w], inline=lambda fn: (fn.scls == MG or fn.sq.startswith(MG + '::')) and fn.name != 'off', merge_at=50)
    for st, rv, how in cx.run(e, f):
        w.chk(not st.mon['after'] or st.mon['whole'], st, Fr(f), 'stop', 'the connections are closed after the work ended', 0,
              'the manager stops without closing its connections: calls pending on them are never settled')
