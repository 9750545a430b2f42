"""Every descriptor and file has one owner and is closed exactly once."""
from ..execs import *
from .. import models
from ..rpcwalk import walk, CB, MG, SK
from .c16 import sig
from .c19 import zero
from .c24 import uncast, Base

RULE = ('Ownership typestate of every descriptor and file (socket, accept, dup, epoll, socket pair, open, fopen), with the members of its class in context: on every path to an exit what '
        'was opened successfully is returned, closed once, given to an object that took it (a refusal leaves it with the giver), or stored in a field that owns it; the owning fields are '
        'those that such a value is ever stored in. An owning field is overwritten only if it was empty, closed or its value handed out; after closing its value the field is emptied '
        'before the function ends; a closed descriptor is not used. Destructors close what the fields of the object own.')
LEVEL = 'proof'
ASSUMES = ['close(2) releases the descriptor also when it reports an error (Linux)', 'no exception is thrown between opening and storing']
MIN = {'owned': 8, 'overwrite': 3, 'emptied': 3, 'destructor': 3}
SO = 'plain::net::socket::'
OPEN = {'socket', 'accept', 'accept4', 'dup', 'epoll_create', 'epoll_create1', 'open', 'eventfd', 'timerfd_create', 'creat',
        SO + 'create', SO + 'accept', SK + '::accept', 'plain::open', 'plain::openmode', 'plain::dup'}
FOPEN = {'fopen', 'fdopen', 'popen', 'tmpfile'}
PAIR = {SO + 'make_pair', 'socketpair', 'pipe', 'pipe2', SO + 'socketpair'}
CLOSE = {'close', 'fclose', SO + 'close', 'plain::close', 'pclose'}
FILES = ('src/net/', 'src/file/')


def qs(f): return {strip_t(n['q']) for n in f.nodes if n and n['k'].endswith('CallExpr') and n.get('q')}


def mentions(v, kinds): return isinstance(v, tuple) and (v[:1] and v[0] in kinds or any(mentions(x, kinds) for x in v))


def anon(v): return v[0] == 'ld' and v[1][0] == 'd' and v[1][1][0] not in ('prm', 'sym') and not (v[1][1][0] == 'ld' and v[1][1][1][0] == 'f')


def home(fn):
    """Class (without its implementation part), or file, that a function belongs to."""
    return (fn.scls or '').split('::Impl')[0] or fn.file


class Own(Base):
    """mon['own']: opened and not yet passed on; mon['shut']: closed values; fields: {(class-less) field name: closed?}"""

    def __init__(self, cx, fields, learn=None): self.cx, self.fields, self.learn = cx, fields, learn

    def init(self, st, fr):
        self.fn = fr.fn; self.home = home(fr.fn)
        st.mon.update(own=(), shut=(), pair=(), cand=(), pend=())

    def fld(self, loc):
        """Name of the owning field a location is."""
        if loc and loc[0] == 'f' and (loc[2], self.home) in self.fields and self.root(loc): return loc[2]
        return None

    def root(self, loc):
        while loc[0] in ('f', 'i'): loc = loc[1]
        return loc[0] == 'd' or loc[0] == 'g'

    def drop(self, st, v, key='own'): st.mon[key] = tuple(x for x in st.mon[key] if x != v)

    def failed(self, st, v):
        if v in self.ptrs: return is_false(st, v)
        return zero(st.facts, add(v, c(1))) or st.facts.prove_ge0(sub(c(-1), v))

    ptrs = set()

    def on_call(self, st, fr, call):
        q = strip_t(call.q or '')
        a = [uncast(models.rv(self.eng, st, fr, x)) if x is not None else None for x in call.args]
        m = st.mon
        if q in CLOSE and a:
            v = a[0]
            if mentions(v, ('phi',)) or anon(v): self.anon = True; return          # through a pointer of a loop: which one is not known
            self.chk(v not in m['shut'], st, fr, 'owned', 'closed once', call.line, 'closes a descriptor twice: by then it may belong to someone else')
            m['shut'] = m['shut'] + (v,) if v not in m['shut'] else m['shut']
            self.drop(st, v)
            return
        if not (q.startswith('std::') or q.startswith('plain::Log') or 'Logger' in q):
            for v in a:
                if v is not None and v in m['shut'] and v[0] not in ('c',):
                    self.chk(False, st, fr, 'owned', 'not used after it was closed', call.line, 'passes a descriptor on that it has closed')
        if call.name == 'set_id' and strip_t(call.cls or '') == SK and a: m['pend'] = m['pend'] + ((call.nid, a[0]),)
        elif a and call.node is not None and call.node.get('k', '').endswith(('ConstructExpr', 'TemporaryObjectExpr')) and not q.startswith('std::'):
            for v in a: self.drop(st, v)

    def on_ret(self, st, fr, call, v):
        q = strip_t(call.q or '')
        m = st.mon
        if q in OPEN and v[0] not in ('c', 'lv') and fr.fn.fid == self.fn.fid or q in OPEN and v[0] == 'call':
            SYMW.setdefault(v, -32)
            m['own'] = tuple(x for x in m['own'] if x != v) + (v,)
        elif q in FOPEN:
            self.ptrs.add(v); m['own'] = tuple(x for x in m['own'] if x != v) + (v,)
        elif q in PAIR:
            l = call.args[-1]
            loc = l[1] if l[0] in ('lv', 'addr') else None
            while loc is not None and loc[0] == 'i' and loc[2] == c(0): loc = loc[1]
            m['pair'] = m['pair'] + ((q, loc, v),)
        for n, x in m['pend']:
            if n == call.nid and call.name == 'set_id':
                if not is_false(st, v): m['cand'] = m['cand'] + ((x, v),)

    def elem(self, v):
        v = uncast(v)
        return v[1] if v[0] == 'ld' and v[1][0] == 'i' else None

    def on_write(self, st, fr, loc, v, line, init):
        m = st.mon
        if v is None: return
        v = uncast(v)
        if v in m['own'] and loc[0] in ('f', 'g', 'd') and self.root(loc):
            if self.learn is not None and loc[0] == 'f': self.learn.add((loc[2], home(fr.fn)))
            self.drop(st, v)
        e = self.elem(v)
        if e is not None and loc[0] == 'f' and self.root(loc):
            for p in m['pair']:
                if p[1] == e[1]:
                    if self.learn is not None: self.learn.add((loc[2], home(fr.fn)))
                    m['pair'] = tuple(x for x in m['pair'] if x != p) + (p[:3] + tuple(p[3:]) + (e[2],),)
        f = self.fld(loc)
        if f and not init:
            old = uncast(st.read(loc))
            if old == v: return
            ok = old[0] == 'c' and old[1] <= 0 or old in m['shut'] or self.failed(st, old) or old in self.gone(st)
            if not ok and self.anon: return
            if not ok and v[0] == 'c': st.mon['out'] = st.mon.get('out', ()) + (old,)       # emptied: the value must go somewhere
            elif not ok: self.chk(False, st, fr, 'overwrite', '%s is empty when it gets another' % f, line, 'overwrites %s while it may own an open descriptor, which is never closed then' % f)
            if ok: self.chk(True, st, fr, 'overwrite', '%s is empty when it gets another' % f, line, '')
            if v[0] != 'c':
                for k in ('shut', 'out'): st.mon[k] = tuple(x for x in st.mon.get(k, ()) if x != v)

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        o = st.mon.get('out', ())
        if o: st.mon['out'] = tuple(v for v in o if not self.failed(st, v))

    def gone(self, st): return ()

    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        m = st.mon
        r = None
        if ret is not None: r = uncast(models.rv(self.eng, st, fr, ret)) if ret[0] != 'lv' else uncast(st.read(ret[1]))
        for v in m['own']:
            given = r == v or any(x == v and is_true(st, t) for x, t in m['cand'])
            self.chk(given or self.failed(st, v), st, fr, 'owned', 'what is opened finds an owner', None, 'ends without closing, returning or storing a descriptor or file that it opened')
        if m['own'] == () and self.opens: self.chk(True, st, fr, 'owned', 'what is opened finds an owner', None, '')
        for v in m.get('out', ()):
            self.chk(v in m['shut'] or r == v or self.failed(st, v), st, fr, 'owned', 'an emptied field gave its descriptor away', None, 'forgets a descriptor that is still open')
        par = [('prm', q['name']) for q in self.fn.params]
        for p in m['pair']:
            q, loc, v = p[:3]
            if loc is None or loc[0] == 'd': continue              # the array of the caller
            ok = is_false(st, v) or {c(0), c(1)} <= set(p[3:]) or zero(st.facts, add(v, c(1)))
            self.chk(ok, st, fr, 'owned', 'both ends find an owner', None, 'keeps only one end of a pair of descriptors')
        # fields must not keep a closed value
        if not self.fn.dtor:
            for k, v in list(st.mem.items()):
                pass
            for loc in self.seen(st):
                v = uncast(st.read(loc))
                self.chk(v not in m['shut'] or v[0] == 'c', st, fr, 'emptied', '%s is emptied when it is closed' % loc[2], None, '%s still holds a descriptor that was closed: it is used or closed again later' % loc[2])

    opens = anon = False

    def seen(self, st):
        """Owning fields whose value was closed on this path."""
        r = set()
        for v in st.mon['shut']:
            if v[0] == 'ld' and self.fld(v[1]): r.add(v[1])
        for k in st.mem:
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'f' and self.fld(k): r.add(k)
        return sorted(r, key=repr)


class Dtor(Own):
    def on_finish(self, st, fr, ret, how):
        if how != 'ret': return
        for var in self.mine:
            if any(self.good(st, loc) for loc in var): self.chk(True, st, fr, 'destructor', 'closes %s' % var[0][2], None, ''); continue
            self.chk(False, st, fr, 'destructor', 'closes %s' % var[0][2], None, 'the destructor leaves the descriptor in %s open' % var[0][2])

    def good(self, st, loc):
            if any(is_false(st, st.read(x)) for x in self.holders(loc)): return True
            v = uncast(st.read(loc)); v0 = uncast(self.first[loc])
            return v in st.mon['shut'] or v0 in st.mon['shut'] or self.failed(st, v0) or is_false(st, v0) and 'FILE' in self.types.get(loc[2], '')

    def holders(self, loc):
        r = []
        l = loc[1]
        while l[0] in ('f', 'd'):
            if l[0] == 'd' and l[1][0] == 'ld': r.append(l[1][1]); l = l[1][1]
            elif l[0] == 'f': l = l[1]
            else: break
        return r

    def init(self, st, fr):
        Own.init(self, st, fr)
        self.first = {loc: st.read(loc) for var in self.mine for loc in var}
        for v in self.first.values(): SYMW.setdefault(v, -32)


def locs(p, cls, fields, types, homes):
    """Places of owning fields in an object (or behind its impl pointer)."""
    this = ('d', ('sym', 'this'))
    r = []
    rec = p.record(cls)
    for f in (rec['fields'] if rec else ()):
        types[f['name']] = f['t']
        if f['name'] in fields and re.search(r'^int$|FILE|int32_t|long', f['t']) and cls in homes: r.append([('f', this, f['name'])])
        mm = re.search(r'unique_ptr<([\w:]+::Impl)', f['t'])
        if mm:
            ir = p.record(mm.group(1))
            bases = [('d', ('ld', ('f', ('f', this, n), '#p'))) for n in (f['name'], f['name'] + '@' + cls.rsplit('::', 1)[-1])]
            for g in (ir['fields'] if ir else ()):
                if g['name'] in fields and re.search(r'^int$|FILE|int32_t', g['t']): r.append([('f', base, g['name']) for base in bases])
                elif strip_t(g['t']).endswith('data_struct'):
                    for h in p.record(strip_t(g['t']))['fields']:
                        if h['name'] in fields and h['t'] in ('int',): r.append([('f', ('f', base, g['name']), h['name']) for base in bases])
    return r


def run(cx):
    p = cx.p
    fs = [f for f in p.all() if f.blocks and not f.lambda_ and any(x in f.file for x in FILES)]
    openers = [f for f in fs if qs(f) & (OPEN | FOPEN | PAIR)]
    inl = lambda f: (lambda fn: fn.lambda_ and fn.file == f.file and len(fn.blocks) <= 12 or not fn.lambda_ and not fn.ctor and fn.fid != f.fid and len(fn.blocks) <= 25 and strip_t(fn.sq) not in OPEN | CLOSE | PAIR and
                     ((fn.scls or '').split('::Impl')[0] == (f.scls or '-').split('::Impl')[0] or not fn.scls and fn.file == f.file) and fn.name not in ('valid', 'error'))
    learn = set()
    for f in openers:
        e = Own(cx, (), learn)
        e.chk = lambda *a: None
        cx.run(cx.engine([e], inline=inl(f), merge_at=60), f)
    fields = learn
    flat = {n for n, _ in learn}
    if len(fields) < 3: raise AnalysisError('owning fields not found: %s' % sorted(fields))
    # functions that write or close an owning field
    for f in fs:
        if f.dtor: continue
        mf = any(n and n['k'] == 'MemberExpr' and (n.get('q', '').rsplit('::', 1)[-1], home(f)) in fields for n in f.nodes)
        if not (f in openers or mf or qs(f) & CLOSE): continue
        if f.ctor: continue
        if strip_t(f.sq) in CLOSE | PAIR: continue
        o = Own(cx, fields); o.opens = f in openers
        pre = Own(cx, fields); pre.chk = lambda *a: None
        cx.run(cx.engine([pre], inline=inl(f), merge_at=60), f)
        o.anon = pre.anon
        cx.run(cx.engine([o], inline=inl(f), merge_at=60), f)
    # destructors
    types = {}
    n = 0
    for cls in sorted({(f.scls or '').split('::Impl')[0] for f in fs if f.scls} | {SK, MG, 'plain::net::connection::Epoll'}):
        ls = locs(p, cls, {n for n, h in fields if h == cls or not h.startswith('plain::') and any(g.scls == cls and g.file == h for g in fs)}, types, {h for n, h in fields})
        if not ls: continue
        ds = [f for f in p.all() if f.dtor and f.blocks and f.scls == cls]
        if not ds:
            rec = p.record(cls)
            cx.check(False, 'destructor', '%s: closes what it owns' % cls, rec.get('file', cls) if rec else cls, '%s owns a descriptor (%s) and has no destructor that closes it' % (cls, ', '.join(l[0][2] for l in ls))); continue
        d = Dtor(cx, fields | {(n, cls) for n, h in fields}); d.mine, d.types = ls, types
        cx.run(cx.engine([d], inline=lambda fn, f=ds[0]: inl(f)(fn) or fn.name in ('poll_destory',), merge_at=60), ds[0]); n += 1
