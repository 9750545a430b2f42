"""The connection table: one id per connection, removed once, announced once."""
from ..execs import *
from .. import models
from ..rpcwalk import walk, neg_, CB, MG
from .c16 import sig
from .c19 import zero
from .c24 import uncast, Base

RULE = ('Abstract execution (helpers in context) of everything that changes or reads the connection table, with the invariants that its slots are not empty, that every id ever given is a '
        'slot (max id <= slots, shown again at every exit) and that an id is either free or in use. New connection: exactly one id, taken from the free ones or one above the highest and '
        'then not above the limit; it is entered in the set of ids once, counted once, and the slot of that id is returned, started anew; none is returned only if the table is full, and '
        'then nothing changed. Removal: of an id that is in use, exactly once freed, taken from the set, uncounted and its name forgotten, after the callbacks; no other path changes '
        'the table; closed on each path, and out of the backend before; disconnect is told once unless asked not to. A set of ids that others may hold is copied before it is changed. '
        'No reference to a slot is used after a callback. Whoever takes a new connection either announces it once, in the backend, or removes it silently, on every path.')
LEVEL = 'proof'
ASSUMES = ['the table is accessed under the lock of the manager (C11)', 'max_count is below 2^31', 'callbacks of the user return']
MIN = {'new': 8, 'remove': 8, 'copy': 2, 'owner': 6, 'each': 2, 'slot': 2, 'only': 1}
CINFO = 'plain::net::connection::detail::ConnectionInfo'
INVALID = c(-1)
MUT = {'push', 'erase', 'clear', 'pop', 'insert', 'assign', 'resize', 'swap', 'extract', 'merge'}


class Names:
    """Fields of the table, by name or (renamed) by type."""

    def __init__(self, p):

        rec = p.record(CINFO)
        src = rec['fields'] if rec else p.record(MG + '::Impl')['fields']
        fs = {f['name']: f['t'] for f in src}
        self.list = self.pick(fs, 'list', r'^std::(vector|deque)<std::shared_ptr<plain::net::connection::Basic')
        self.ids = self.pick(fs, 'ids', r'^std::shared_ptr<std::(unordered_)?set<')
        self.free = self.pick(fs, 'free_ids', r'^std::(set|deque|vector|list|unordered_set)<int>')
        self.size = self.pick(fs, 'size', r'^std::atomic<unsigned')
        self.max = self.pick(fs, 'max_id', r'^int$')
        self.names = self.pick({f['name']: f['t'] for f in p.record(MG + '::Impl')['fields']}, 'conn_names', r'^std::(unordered_)?map<int')

    def pick(self, fs, nm, rx):
        if nm in fs: return nm
        c_ = [f for f, t in fs.items() if re.search(rx, t)]
        if len(c_) != 1: raise AnalysisError('anchor vanished: connection table field ' + nm)
        return c_[0]


def tail(loc): return loc[2] if loc and loc[0] == 'f' else None


class Table(Base):
    def __init__(self, cx, N): self.cx, self.N = cx, N

    def holder(self, st, v):
        """Does the pointer come from the ids field (also after it was replaced)?"""
        return st.mon['idsp'] == v or any(isinstance(y, tuple) and y[:1] == ('f',) and y[2:] == (self.N.ids,) for y in walk(v))

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(taken=(), inn=(), out=(), free=(), size=0, names=0, cow=None, uses=(), idsp=None, base=None, fresh=True)

    def where(self, st, loc):
        """Which part of the table a container is."""
        t = tail(loc)
        if t in (self.N.list, self.N.free, self.N.names) and t: return {self.N.list: 'list', self.N.free: 'free', self.N.names: 'names'}[t]
        if loc and loc[0] == 'd' and self.holder(st, loc[1]): return 'ids'
        return None

    def val(self, st, fr, a):
        return models.rv(self.eng, st, fr, a)

    def on_spreset(self, st, fr, loc, old, new, line):
        if tail(loc) == self.N.ids: st.mon['cow'] = True; st.mon['idsp'] = new

    def on_read(self, st, fr, loc, **kw): pass

    def on_ret(self, st, fr, call, v):
        if call.name in ('use_count', 'unique') and tail(call.obj) == self.N.ids:
            SYMW.setdefault(v, 32); st.mon['uses'] = (call.name, v)
        elif call.name in ('operator[]', 'at', 'back', 'front') and tail(call.obj) == self.N.list and v[0] == 'lv':
            st.facts = st.facts.assume(eq0(st.read(('f', v[1], '#p'))), False) or st.facts
        if call.obj and self.slot(call.obj) and st.mon['fresh'] is False:
            pass

    def slot(self, loc):
        while loc and loc[0] in ('f',): loc = loc[1]
        return bool(loc and loc[0] == 'i' and tail(loc[1]) == self.N.list)

    def on_call(self, st, fr, call):
        if call.obj and self.slot(call.obj):
            self.chk(st.mon['fresh'], st, fr, 'slot', 'no reference to a slot outlives a callback', call.line,
                     'uses a reference into the list of connections after a callback, which may have made the list grow')

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        w = self.where(st, loc)
        if w is None: return
        m = st.mon
        if w == 'free' and op in ('begin', 'front', 'find', 'index'):       # what is free was given before
            
            for k in (c(0), ('begin',)):
                e = st.read(('i', loc, k)); SYMW.setdefault(e, -32)
                st.facts = st.facts.assume(ge0(sub(e, c(1)))) or st.facts
        if w == 'list' and op in ('index', 'begin', 'back', 'front', 'at'): m['fresh'] = True
        if op not in MUT: return
        v = self.val(st, fr, args[0]) if args else None
        if op == 'erase' and args and args[0][0] == 'lv':
            # an iterator: the element it stands at
            l2, k = args[0][1], 0
            while ('#al', l2) in st.mem and k < 4: l2 = st.mem[('#al', l2)][0]; k += 1
            it = st.mem.get(l2)
            if it is not None and it[0] == 'it': v = ('at', it[1], it[2])
        elif v is not None and v[0] == 'it': v = ('at', v[1], v[2])
        if w == 'ids':
            ok = m['cow'] or bool(m['uses']) and (m['uses'][0] == 'use_count' and st.facts.prove_ge0(sub(c(1), m['uses'][1])) or m['uses'][0] == 'unique' and is_true(st, m['uses'][1]))
            self.chk(ok, st, fr, 'copy', 'a set that others hold is copied before it changes', call.line, 'changes the set of ids while a broadcast may be going through it')
            if op == 'push': m['inn'] = m['inn'] + (v,)
            else: m['out'] = m['out'] + (v,)
        elif w == 'free':
            if op == 'push': m['free'] = m['free'] + (v,)
            else: m['taken'] = m['taken'] + (v,)
        elif w == 'names': m['names'] += 1; m['nm'] = v if op == 'erase' else None
        elif w == 'list':
            self.chk(op == 'push', st, fr, 'slot', 'slots are kept', call.line, 'takes slots out of the list of connections')

    def on_write(self, st, fr, loc, v, line, init):
        if tail(loc) == self.N.max:
            old = st.read(loc)
            self.chk(zero(st.facts, sub(v, add(old, c(1)))), st, fr, 'new', 'ids go up by one', line, 'the highest id does not go up by exactly one')
            st.mon['taken'] = st.mon['taken'] + (('max', v),)

    def on_atomic(self, st, fr, op, loc, line, **kw):
        if tail(loc) != self.N.size or op == 'load': return
        w, n = kw.get('rmw') or '', kw.get('v')
        by = n[1] if n and n[0] == 'c' else 100
        st.mon['size'] = st.mon['size'] + (by if w in ('fetch_add', 'operator++', 'operator+=') else -by if w in ('fetch_sub', 'operator--', 'operator-=') else 100)

    def unchanged(self, st):
        m = st.mon
        return not (m['taken'] or m['inn'] or m['out'] or m['free'] or m['size'] or m['names'])


def ci_base(p, N):
    this = ('d', ('sym', 'this'))
    impl = ('d', ('ld', ('f', ('f', this, 'impl_'), '#p')))
    f = [x['name'] for x in p.record(MG + '::Impl')['fields'] if strip_t(x['t']) == CINFO]
    return ('f', impl, f[0]) if f else impl


class New(Table):
    def init(self, st, fr):
        Table.init(self, st, fr)
        B = self.B = ci_base(self.cx.p, self.N)
        self.mx = st.read(('f', B, self.N.max)); SYMW.setdefault(self.mx, -32)
        self.sz = st.read(('f', ('f', B, self.N.list), '#size'))
        st.facts = st.facts.assume(ge0(self.mx)).assume(ge0(sub(self.sz, self.mx))).assume(ge0(sub(c((1 << 31) - 2), self.mx)))
        mc = st.read(('f', ('f', ('d', ('sym', 'this')), 'setting_'), 'max_count'))
        self.mc = [mc, ('cast', -32, mc, 32)]
        st.mon.update(did=None, ini=None, man=None)

    def on_call(self, st, fr, call):
        Table.on_call(self, st, fr, call)
        if strip_t(call.cls) == CB and call.obj:
            who = call.obj[1] if call.obj[0] == 'd' else call.obj
            if call.name == 'set_id': st.mon['did'] = (who, self.val(st, fr, call.args[0]))
            elif call.name == 'init': st.mon['ini'] = who; st.mon['late'] = st.mon['man'] is not None
            elif call.name == 'set_manager': st.mon['man'] = who

    def same(self, st, v, t):
        if v is None or t is None: return False
        if t[0] == 'max': return zero(st.facts, sub(uncast(v), t[1]))
        if t[0] == 'at': return uncast(v) == ('ld', ('i', t[1], t[2])) or uncast(v)[0] == 'ld' and uncast(v)[1][0] == 'i' and uncast(v)[1][1:] == t[1:]
        return zero(st.facts, sub(uncast(v), uncast(t)))

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        p = st.read(('f', ret[1], '#p')) if ret and ret[0] == 'lv' else FALSE
        if is_false(st, p):
            self.chk(self.unchanged(st), st, fr, 'new', 'refusing changes nothing', None, 'changes the table although no connection is returned')
            fs = st.read(('f', ('f', self.B, self.N.free), '#size'))
            full = zero(st.facts, fs) and any(st.facts.prove_ge0(sub(self.mx, x)) for x in self.mc)
            self.chk(full, st, fr, 'new', 'refused only if full', None, 'may refuse a connection although the table is not full')
            return
        self.chk(len(m['taken']) == 1, st, fr, 'new', 'one id is taken', None, 'takes %d ids for one connection' % len(m['taken']))
        if len(m['taken']) != 1: return
        t = m['taken'][0]
        if t[0] == 'max':
            self.chk(any(st.facts.prove_ge0(sub(x, t[1])) for x in self.mc), st, fr, 'new', 'no more than the limit', None, 'gives an id above max_count')
            self.chk(st.facts.prove_ge0(sub(st.read(('f', ('f', self.B, self.N.list), '#size')), t[1])), st, fr, 'slot', 'every id has a slot', None, 'gives an id that has no slot in the list')
        self.chk(len(m['inn']) == 1 and self.same(st, m['inn'][0], t) and not m['out'], st, fr, 'new', 'the id is in use', None, 'does not enter exactly the id it took in the set of ids')
        self.chk(not m['free'], st, fr, 'new', 'the id is in use', None, 'frees an id')
        self.chk(m['size'] == 1, st, fr, 'new', 'counted once', None, 'counts a new connection %d times' % m['size'])
        # the slot of the id
        ok = False
        for y in walk(p):
            if isinstance(y, tuple) and len(y) == 3 and y[0] == 'i' and tail(y[1]) == self.N.list:
                i = uncast(y[2])
                for k in (0, 1 << 64, -(1 << 64), 1 << 32): ok = ok or self.same(st, add(i, c(1 - k)), t)
                ok = ok or self.same(st, uncast(add(i, c(1))), t)
        self.chk(ok, st, fr, 'slot', 'the slot of the id', None, 'returns a connection from another slot than the one of its id')
        self.chk(m['did'] is not None and self.same(st, m['did'][1], t) and m['did'][0] == p, st, fr, 'new', 'the connection knows its id', None, 'the connection is not told the id it was given')
        self.chk(m['ini'] == p, st, fr, 'new', 'the connection starts anew', None, 'the connection is not initialised')
        self.chk(m['man'] == p, st, fr, 'new', 'the connection knows its manager', None, 'the connection does not get its manager')


class Remove(Table):
    def init(self, st, fr):
        Table.init(self, st, fr)
        B = ci_base(self.cx.p, self.N)
        self.par = {q['name']: ('prm', q['name']) for q in fr.fn.params}
        self.id, self.ne, self.sk = [('prm', q['name']) for q in fr.fn.params][:3]
        SYMW.setdefault(self.id, -32)
        st.mon.update(has=None, told=0, cb=0, cbset=None, srm=0, closed=0, keep=None, skid=(), has2=None)

    def on_ret(self, st, fr, call, v):
        Table.on_ret(self, st, fr, call, v)
        m = st.mon
        if call.name in ('contains', 'count') and self.where(st, call.obj) == 'ids':
            if zero(st.facts, sub(uncast(self.val(st, fr, call.args[0])), self.id)): m['has'] = v
        elif call.name == 'is_keep_alive': m['keep'] = v
        elif call.name == 'operator bool' and tail(call.obj) == 'disconnect_callback': m['cbset'] = v
        elif call.q == 'plain::net::socket::Basic::id': m['skid'] = m['skid'] + (v,)
        if call.name in ('on_disconnect',) and strip_t(call.cls) == CB or call.name == 'operator()' and 'function' in call.cls: m['fresh'] = False

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        Table.on_cont(self, st, fr, op, loc, args, call, **kw)

    def on_call(self, st, fr, call):
        Table.on_call(self, st, fr, call)
        m = st.mon
        if strip_t(call.cls) == CB:
            if call.name == 'on_disconnect':
                m['told'] += 1
                self.chk(not m['free'], st, fr, 'remove', 'freed after the callbacks', call.line, 'frees the id before the callbacks, which may take it again')
                self.chk(not m['closed'], st, fr, 'remove', 'callbacks see an open connection', call.line, 'closes the connection before telling that it goes')
            elif call.name == 'close':
                m['closed'] += 1
                ok = False
                for y in walk(call.obj):
                    if isinstance(y, tuple) and len(y) == 3 and y[0] == 'i' and tail(y[1]) == self.N.list: ok = ok or zero(st.facts, sub(uncast(y[2]), sub(self.id, c(1))))
                self.chk(ok, st, fr, 'remove', 'closes the connection of the id', call.line, 'closes another connection than the one of the id')
        elif call.name == 'operator()' and tail(call.obj) == 'disconnect_callback': m['cb'] += 1; self.chk(not m['free'] and not m['closed'], st, fr, 'remove', 'freed after the callbacks', call.line, 'frees the id before the callbacks, which may take it again')
        elif call.name == 'sock_remove':
            m['srm'] += 1
            self.chk(not m['closed'], st, fr, 'remove', 'out of the backend before it is closed', call.line, 'closes the descriptor before it is taken out of the backend: another connection may have it by then')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        in_use = m['has'] is not None and is_true(st, m['has'])
        if not in_use:
            self.chk(self.unchanged(st) and not m['closed'] and not m['told'] and not m['cb'], st, fr, 'remove', 'only ids in use are removed', None, 'removes a connection that may not be in use (any more)')
            gone = m['has'] is not None and is_false(st, m['has'])
            mx = st.read(('f', ci_base(self.cx.p, self.N), self.N.max))
            out = st.facts.prove_ge0(neg(self.id)) or st.facts.prove_ge0(sub(sub(self.id, mx), c(1)))
            self.chk(gone or out or not self.unchanged(st), st, fr, 'remove', 'what is in use is removed', None, 'may return without removing a connection that is in use')
            return
        self.chk(m['closed'] == 1, st, fr, 'remove', 'closed', None, 'removes a connection without closing it once')
        silent = is_true(st, self.ne); loud = is_false(st, self.ne)
        self.chk(m['told'] == 1 if loud else m['told'] == 0 and m['cb'] == 0 if silent else False, st, fr, 'remove', 'disconnect is told once', None,
                 'tells the disconnect %d times%s' % (m['told'], ' although it was asked not to' if silent else ''))
        if loud: self.chk(m['cb'] == 1 or m['cb'] == 0 and m['cbset'] is not None and is_false(st, m['cbset']), st, fr, 'remove', 'the callback of the manager runs once', None, 'runs the disconnect callback %d times' % m['cb'])
        nosock = any(zero(st.facts, sub(x, INVALID)) for x in m['skid'])
        self.chk(m['srm'] == 1 if is_true(st, self.sk) and not nosock else m['srm'] == 0, st, fr, 'remove', 'out of the backend', None, 'leaves a descriptor in the backend (or takes one out it was asked to leave)')
        if m['keep'] is not None and is_true(st, m['keep']):
            self.chk(self.unchanged(st), st, fr, 'remove', 'a kept connection keeps its id', None, 'frees the id of a connection that is kept alive')
            return
        self.chk(m['keep'] is not None and is_false(st, m['keep']), st, fr, 'remove', 'a kept connection keeps its id', None, 'frees the id of a connection that may be kept alive')
        one = lambda t: len(t) >= 1 and all(x is not None and zero(st.facts, sub(uncast(x), self.id)) for x in t)      # (sets)
        self.chk(one(m['free']), st, fr, 'remove', 'the id is freed once', None, 'does not free exactly the removed id')
        self.chk(one(m['out']) and not m['inn'] and not m['taken'], st, fr, 'remove', 'the id is no longer in use', None, 'does not take exactly the removed id from the set of ids')
        szv = st.read(('f', ci_base(self.cx.p, self.N), self.N.size))
        self.chk(m['size'] == -1 or m['size'] == 0 and st.mon.get('nosize'), st, fr, 'remove', 'uncounted once', None, 'changes the count of connections by %d' % m['size'])
        self.chk(m['names'] >= 1 and m.get('nm') is not None and zero(st.facts, sub(uncast(m['nm']), self.id)), st, fr, 'remove', 'the name is forgotten', None, 'keeps the name for the next connection with this id')

    def on_branch(self, st, fr, cond, taken, line, nid):
        # looked up in the set: found or not
        x = cond if taken else neg_(cond)
        its = {k[0]: k for k in walk(x) if isinstance(k, tuple) and k and k[0] in ('find', 'end')}
        if set(its) == {'find', 'end'} and any(isinstance(y, tuple) and y[:1] == ('it',) and self.where(st, y[1]) == 'ids' for y in walk(x)):
            if zero(st.facts, sub(uncast(its['find'][1]), self.id)): st.mon['has'] = FALSE if x[0] in ('eq', 'eq0') else TRUE
        # the count is known to be zero: nothing to take off
        for y in walk(cond):
            if isinstance(y, tuple) and y and y[0] == 'at' and tail(y[1]) == self.N.size and (zero(st.facts, y) or is_false(st, y)): st.mon['nosize'] = True


class Get(Table):
    """get_conn: the slot of the id or nothing."""

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        p = st.read(('f', ret[1], '#p')) if ret and ret[0] == 'lv' else FALSE
        if is_false(st, p): return
        self.chk(self.unchanged(st), st, fr, 'slot', 'looking changes nothing', None, 'changes the table')
        i = ('prm', fr.fn.params[0]['name'])
        ok = False
        for y in walk(p):
            if isinstance(y, tuple) and len(y) == 3 and y[0] == 'i' and tail(y[1]) == self.N.list:
                d = sub(uncast(y[2]), i)
                ds = sub(y[2], ('cast', 64, i, -32))
                n = st.read(('f', y[1], '#size'))
                ok = any(x[0] == 'c' and (x[1] + 1) % (1 << 32) == 0 for x in (d, ds)) and st.facts.prove_ge0(sub(sub(n, y[2]), c(1)))
        self.chk(ok, st, fr, 'slot', 'an id finds its own slot', None, 'may return the connection of another id, or read beyond the list')


class Forward(Base):
    """remove(connection, ...) removes its id, with the same wishes."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(n=0, ids=())

    def on_ret(self, st, fr, call, v):
        if call.q == CB + '::id': st.mon['ids'] = st.mon['ids'] + (v,)

    def on_call(self, st, fr, call):
        if call.q == MG + '::remove':
            st.mon['n'] += 1
            a = [models.rv(self.eng, st, fr, x) for x in call.args]
            ps = [('prm', q['name']) for q in self.fn.params]
            self.chk(a[0] in st.mon['ids'] and list(a[1:]) == ps[1:], st, fr, 'remove', 'passed on unchanged', call.line, 'does not pass on the id and the wishes it was given')

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        self.chk(st.mon['n'] == 1 or st.mon['n'] == 0 and any(zero(st.facts, sub(x, INVALID)) for x in st.mon['ids']), st, fr, 'remove', 'passed on unchanged', None, 'does not remove the connection once')


def org(v):
    """A pointer returned by value is the same in every copy."""
    return v[2] if v[0] == 'ld' and len(v) == 3 else v


class Owner(Base):
    """Who takes a new connection announces or removes it."""

    def init(self, st, fr):
        self.fn = fr.fn
        st.mon.update(c=None, rm=0, add=None, on=0, cb=0, cbset=None, ids=(), sids=())

    def on_ret(self, st, fr, call, v):
        m = st.mon
        if call.q == MG + '::new_conn' and v[0] == 'lv':
            m['c'] = st.read(('f', v[1], '#p'))
        elif call.q == MG + '::sock_add': m['add'] = v; m['addl'] = call.line
        elif call.q == CB + '::id': m['ids'] = m['ids'] + (v,)
        elif call.q == 'plain::net::socket::Basic::id': m['sids'] = m['sids'] + (v,)
        elif call.name == 'operator bool' and 'function' in call.cls: m['cbset'] = v

    def on_call(self, st, fr, call):
        m = st.mon
        if m['c'] is None: return
        if call.q == MG + '::remove':
            a = [models.rv(self.eng, st, fr, x) for x in call.args]
            m['rm'] += 1
            same = call.args[0][0] == 'lv' and org(st.read(('f', call.args[0][1], '#p'))) == org(m['c']) or a[0] in m['ids']
            self.chk(same, st, fr, 'owner', 'removes the connection it took', call.line, 'removes another connection than the one that failed')
            self.chk(len(a) > 1 and is_true(st, a[1]), st, fr, 'owner', 'what was not announced is removed silently', call.line, 'tells the disconnect of a connection that was never announced')
        elif call.q == MG + '::sock_add':
            a = [models.rv(self.eng, st, fr, x) for x in call.args]
            self.chk(a[0] in m['sids'] and a[1] in m['ids'], st, fr, 'owner', 'registered under its id', call.line, 'registers another descriptor or id in the backend than those of the connection')
            self.chk(m['rm'] == 0 and m['add'] is None, st, fr, 'owner', 'registered once', call.line, 'registers a connection that is removed or registered already')
        elif call.q == CB + '::on_connect':
            m['on'] += 1
            self.chk(m['add'] is not None and is_true(st, m['add']), st, fr, 'owner', 'announced when registered', call.line, 'announces a connection that is not in the backend yet')
        elif call.name == 'operator()' and 'function' in call.cls and strip_t(call.cls) == 'std::function' and self.cbk(call): m['cb'] += 1

    def cbk(self, call):
        """The connect callback of the manager (not the one that prepares the connection)."""
        return 'bool (' not in (call.cls or '') and not any(isinstance(y, tuple) and y[:1] == ('prm',) for y in walk(call.obj or ()))

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        p = st.read(('f', ret[1], '#p')) if ret and ret[0] == 'lv' else FALSE
        if m['c'] is None: return
        none = is_false(st, m['c']) or any(zero(st.facts, sub(x, INVALID)) for x in m['ids']) and m['rm'] == 0 and m['add'] is None
        if is_false(st, p):
            self.chk(m['rm'] == (0 if none else 1), st, fr, 'owner', 'a failed connection is removed', None, 'returns nothing and leaves the connection it took in the table' if not m['rm'] else 'removes a connection twice')
            self.chk(m['on'] == 0 and m['cb'] == 0, st, fr, 'owner', 'a failed connection is not announced', None, 'announces a connection that failed')
        else:
            self.chk(org(p) == org(m['c']), st, fr, 'owner', 'returns what it took', None, 'returns another connection than the one it took')
            self.chk(m['rm'] == 0 and m['add'] is not None and is_true(st, m['add']), st, fr, 'owner', 'a returned connection is registered', None, 'returns a connection that is removed or not in the backend')
            self.chk(m['on'] == 1 and (m['cb'] == 1 or m['cb'] == 0 and m['cbset'] is not None and is_false(st, m['cbset'])), st, fr, 'owner', 'announced once', None,
                     'announces a new connection %d times to its own callback and %d times to that of the manager' % (m['on'], m['cb']))


class Again(Base):
    """Connecting again announces once, when registered."""

    def init(self, st, fr): self.fn = fr.fn; st.mon.update(add=None, on=0, cb=0, cbset=None)

    def on_ret(self, st, fr, call, v):
        if call.q == MG + '::sock_add': st.mon['add'] = v
        elif call.name == 'operator bool' and 'function' in call.cls: st.mon['cbset'] = v

    def on_call(self, st, fr, call):
        if call.q == CB + '::on_connect': st.mon['on'] += 1; self.chk(st.mon['add'] is not None and is_true(st, st.mon['add']), st, fr, 'owner', 'announced when registered', call.line, 'announces a connection that is not in the backend yet')
        elif call.name == 'operator()' and strip_t(call.cls) == 'std::function': st.mon['cb'] += 1

    def on_finish(self, st, fr, ret, how):
        if how != 'ret' or ret is None: return
        v = models.rv(self.eng, st, fr, ret); m = st.mon
        if is_false(st, v): self.chk(m['on'] == 0 and m['cb'] == 0, st, fr, 'owner', 'a failed connection is not announced', None, 'announces a connection that failed')
        else: self.chk(m['on'] == 1 and (m['cb'] == 1 or m['cb'] == 0 and m['cbset'] is not None and is_false(st, m['cbset'])), st, fr, 'owner', 'announced once', None, 'announces a connection not exactly once')


class Each(Table):
    """Every connection that is in use and valid gets it once."""

    def init(self, st, fr): Table.init(self, st, fr); st.mon.update(cur='none', snap=False, v=None)

    def on_spcopy(self, st, fr, src, dst, line):
        if tail(src) == self.N.ids: st.mon['snap'] = True

    def on_spreset(self, st, fr, loc, old, new, line):
        if tail(loc) != self.N.ids and self.holder(st, new): st.mon['snap'] = True

    def on_ret(self, st, fr, call, v):
        Table.on_ret(self, st, fr, call, v)
        if call.q == CB + '::valid': st.mon['v'] = v

    def on_call(self, st, fr, call):
        m = st.mon
        if call.q == MG + '::get_conn':
            self.chk(m['cur'] != 'must', st, fr, 'each', 'none is left out', call.line, 'goes on to the next connection without having served a valid one')
            self.chk(m['snap'] or st.locks, st, fr, 'each', 'goes through its own set', call.line, 'goes through the set of ids without holding it, while others change it')
            m['cur'] = 'none'; m['v'] = None
        elif call.q in (CB + '::send',) or call.name == 'operator()' and strip_t(call.cls) == 'std::function':
            self.chk(m['cur'] != 'done', st, fr, 'each', 'none gets it twice', call.line, 'serves a connection twice')
            m['cur'] = 'done'; m['v'] = None

    def on_branch(self, st, fr, cond, taken, line, nid):
        m = st.mon
        if m['v'] is not None:
            if is_true(st, m['v']) and m['cur'] == 'none': m['cur'] = 'must'
        m['last'] = 'it' if any(isinstance(y, tuple) and (y[:1] == ('i',) or '#pos' in y or '#size' in y or 'end' in str(y[:2])) for y in walk(cond)) else 'other'

    def on_finish(self, st, fr, ret, how):
        if how == 'ret': self.chk(st.mon['cur'] != 'must', st, fr, 'each', 'none is left out', None, 'ends without having served a valid connection')


class Only(Table):
    """Nobody else changes the table."""

    def chk(self, *a): pass

    def on_spreset(self, st, fr, loc, old, new, line):
        if tail(loc) == self.N.ids: self.bad(st, fr, line)

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if self.where(st, loc) and op in MUT: self.bad(st, fr, call.line)

    def on_write(self, st, fr, loc, v, line, init):
        if tail(loc) == self.N.max and loc[1][0] == 'f': self.bad(st, fr, line)

    def bad(self, st, fr, line):
        Base.chk(self, False, st, fr, 'only', 'only new and remove change the table', line, 'changes the connection table outside of taking and removing a connection')


def run(cx):
    p = cx.p
    N = Names(p)
    mgr = lambda fn: ((fn.scls or '').startswith(MG) or fn.lambda_ and fn.file.endswith('connection/manager.cc')) and not fn.name.startswith('sock_') and fn.name not in ('notify_work', 'send_ctrl_cmd')
    new = p.need(MG + '::new_conn')[0]
    rms = [f for f in p.need(MG + '::remove') if f.blocks]
    byid = [f for f in rms if 'shared_ptr' not in f.params[0]['t']]
    if len(byid) != 1: raise AnalysisError('anchor vanished: Manager::remove by id')
    cx.run(cx.engine([New(cx, N)], inline=lambda fn: mgr(fn) and fn.fid != new.fid, merge_at=400), new)
    cx.run(cx.engine([Remove(cx, N)], inline=lambda fn: mgr(fn) and fn.name != 'remove', merge_at=400), byid[0])
    for f in rms:
        if f is not byid[0]: cx.run(cx.engine([Forward(cx)], inline=lambda fn: mgr(fn) and fn.name != 'remove', merge_at=100), f)
    cx.run(cx.engine([Get(cx, N)], inline=mgr, merge_at=100), p.need(MG + '::get_conn')[0])
    done = {new.fid, byid[0].fid}
    n = 0
    for f in p.all():
        if not f.blocks or f.lambda_: continue
        qs = {x['q'] for x in f.nodes if x and x['k'].endswith('CallExpr') and x.get('q')}
        if MG + '::new_conn' in qs:
            n += 1
            cx.run(cx.engine([Owner(cx)], inline=lambda fn, f=f: fn.lambda_ and fn.encl == f.fid and len(fn.blocks) <= 12 or not fn.lambda_ and fn.scls == f.scls and small(fn) and fn.name not in ('new_conn', 'remove', 'get_conn') and not fn.name.startswith('sock_'), merge_at=100), f)
        elif CB + '::on_connect' in qs: cx.run(cx.engine([Again(cx)], inline=lambda fn: False, merge_at=100), f)
    if n < 3: raise AnalysisError('only %d users of new connections found' % n)
    for nm in ('broadcast', 'foreach'):
        cx.run(cx.engine([Each(cx, N)], inline=lambda fn: False, merge_at=10), p.need(MG + '::' + nm)[0])
    # the others
    clos = {new.fid, byid[0].fid}
    todo = [new, byid[0]]
    while todo:
        g = todo.pop()
        for k in callees(g):
            h = p.fn(k) if isinstance(k, str) else k
            if h is not None and h.blocks and mgr(h) and h.fid not in clos: clos.add(h.fid); todo.append(h)
    tab = {CINFO + '::' + x for x in (N.free, N.ids, N.max, N.list)} | {MG + '::Impl::' + N.names}
    k = 0
    for f in p.all():
        if not f.blocks or f.fid in clos or f.ctor or f.name == 'init_connections' or f.name == 'set_name': continue
        if not (f.scls or '').startswith(MG) and not (f.lambda_ and 'connection/manager.cc' in f.file): continue
        k += 1
        if not mentions_field(f, tab):
            cx.check(True, 'only', '%s: only new and remove change the table' % sig(f), f.where(), ''); continue
        before = len(cx.violations) if hasattr(cx, 'violations') else 0
        cx.run(cx.engine([Only(cx, N)], inline=lambda fn: False, merge_at=10), f)
        cx.check(True, 'only', '%s: mentions the table' % sig(f), f.where(), '')
