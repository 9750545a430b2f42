"""The ring buffer is a first-in first-out queue of its elements."""
from ..lib import *
from .. import models
from ..bounds import split

RULE = ('Every public operation of the ring buffer is abstractly executed from an arbitrary state (tail T, head H, capacity S, H-T = stored '
        'elements between 0 and S, elements at index mod S): the k-th element written goes to index H+k and comes from source position k, '
        'the k-th element read comes from index T+k and goes to target position k, every index is inside the stored (reads) or free (writes) '
        'part, on every exit the stored count changed by exactly the reported number, what is reported is min(requested, possible) (or nothing '
        'when a full write is demanded and impossible), a read-only read changes nothing, and an enlarged buffer keeps every '
        'element at its index in the new capacity. Capacities stay powers of two.')
LEVEL = 'proof'
ASSUMES = ['one thread uses a ring buffer at a time (the connection lock, C11)', 'element counts below 2^48']
MIN = {'element order': 8, 'accounting': 20, 'resize': 4, 'capacity': 3}
CLS = 'plain::Ring'
TH = ('d', ('sym', 'this'))
H, T, S = ('sym', '#head'), ('sym', '#tail'), ('sym', '#size')
N = sub(H, T)
RING, RING2 = ('g', '#ring'), ('g', '#ring after resize')
WN, RN = ('g', '#written'), ('g', '#read')
F = lambda n: ('f', TH, n)


def flat(loc):
    """(region, element offset) of a location inside an array."""
    off = FALSE
    while loc[0] == 'i':
        off = add(off, loc[2]); loc = loc[1]
    if loc[0] == 'd':
        sp = split(loc[1])
        if sp and sp[0] != loc: return (sp[0] if sp[0][0] == 'ptr' else flat(sp[0])[0]), add(off, sp[1])
        return ('ptr', loc[1]), off
    return loc, off


def eqv(st, a, b):
    d = sub(a, b)
    return d == FALSE or st.facts.truth(eq0(d)) is True or st.facts.prove_ge0(d) and st.facts.prove_ge0(neg(d))


def pow2(v):
    if is_c(v): return v[1] > 0 and v[1] & (v[1] - 1) == 0
    k, t = lin_parts(v)
    if k == 0 and len(t) == 1 and t[0][0] == S: return t[0][1] > 0 and t[0][1] & (t[0][1] - 1) == 0
    if len(t) == 1 and k == 0 and t[0][0][0] in ('phi', 'call', 'opq'): return t[0][1] > 0 and t[0][1] & (t[0][1] - 1) == 0     # the rest is judged on the unrolled iterations
    return False


_LC = {}


def loop_conds(fn):
    r = _LC.get(fn.fid)
    if r is None:
        r = _LC[fn.fid] = set()
        for body in fn.loops().values():
            for b in body:
                t = fn.blocks[b].get('t')
                if t and t.get('c') is not None: r.add(t['c'])
    return r


class R:
    def __init__(self, cx, target=None):
        self.cx, self.target = cx, target

    def init(self, st, fr):
        for s in (H, T, S): SYMW[s] = 64
        self.fn = fr.fn
        for n, v in (('head_', H), ('tail_', T), ('size_', S), ('mask_', sub(S, c(1)))): st.mem[F(n)] = v
        st.mem[F('buffer_')] = ('addr', ('i', RING, FALSE))
        st.mem[WN] = st.mem[RN] = FALSE
        f = st.facts
        for a in (N, sub(S, N), sub(S, c(1)), T, sub(c(1 << 48), S)): f = f.assume(ge0(a))
        st.facts = f
        st.mon.update(cases=frozenset(), rs=None)

    def bad(self, st, fr, rule, inst, line, msg):
        self.cx.bad(rule, '%s: %s' % (short(self.fn), inst), fr.fn.where(line), msg, st.trace_list() + ['facts: ' + '; '.join(sorted(val_str(x) for x in st.facts.s))[:600]])

    def chk(self, ok, st, fr, rule, inst, line, msg):
        if ok or st.facts.infeasible(): self.cx.ok(rule, '%s: %s' % (short(self.fn), inst))
        else: self.bad(st, fr, rule, inst, line, msg)

    # which index does an offset of the ring stand for
    def stands(self, st, off, X, base, size=None, mask=None):
        size = size or st.read(F('size_')); mask = mask or st.read(F('mask_'))
        for s, x in lin_parts(off)[1]:
            if x == 1 and s[0] == 'op' and s[1] in ('&', '%') and len(s) >= 4:
                rest = sub(off, s)
                m = mask if s[1] == '&' else size
                a, b = s[2], s[3]
                if not eqv(st, b, m) and s[1] == '&': a, b = b, a
                if not eqv(st, b, m): continue
                if eqv(st, rest, FALSE) and eqv(st, a, X): return True
                # a segment that starts at a and runs on
                d = sub(sub(X, a), rest)
                if eqv(st, d, FALSE) and st.facts.prove_ge0(sub(sub(size, off), c(1))): return True
        if eqv(st, off, FALSE):
            # the part after the wrap: exactly up to the end was handled before
            for A in (base,):
                m = ('op', '&', A, mask)
                if eqv(st, sub(add(m, sub(X, A)), size), FALSE): return True
        return False

    def masked(self, st, *vs):
        """A masked value is at most the mask."""
        m = st.read(F('mask_'))
        for v in vs:
            for x, _ in lin_parts(v)[1]:
                if x[0] == 'op' and x[1] == '&' and len(x) >= 4 and m in x[2:4]: st.facts = st.facts.assume(ge0(sub(m, x))) or st.facts
                if x[0] == 'op' and x[1] == '%' and len(x) >= 4 and eqv(st, x[3], add(m, c(1))): st.facts = st.facts.assume(ge0(sub(m, x))) or st.facts

    def cur(self, st): return st.mon.get('region', RING)

    def on_read(self, st, fr, loc, v, line):
        reg, off = flat(loc)
        if reg not in (RING, RING2): return
        if reg != self.cur(st):
            self.bad(st, fr, 'element order', 'stale buffer', line, 'reads the buffer that was replaced by the resize before'); return

    def on_write(self, st, fr, loc, v, line, init):
        reg, off = flat(loc)
        if v is None: return
        src = flat(v[1]) if v[0] == 'ld' else None
        if reg in (RING, RING2): self.put(st, fr, reg, off, src, v, c(1), line)
        elif src and src[0] in (RING, RING2): self.take(st, fr, reg, off, src[1], c(1), line)

    def put(self, st, fr, reg, off, src, v, n, line):
        if reg != self.cur(st):
            self.bad(st, fr, 'element order', 'stale buffer', line, 'writes to the buffer that was replaced by the resize before'); return
        w = st.read(WN)
        X = add(H, w)
        self.chk(self.stands(st, off, X, H), st, fr, 'element order', 'written at head+k', line,
                 'element %s is written at offset %s, not at index head+%s' % (val_str(w), val_str(off), val_str(w)))
        self.chk(st.facts.prove_ge0(sub(sub(sub(st.read(F('size_')), N), w), n)), st, fr, 'element order', 'written into the free part', line,
                 'an element may be written over one that is still stored')
        if src is not None and src[0][0] == 'ptr' and src[0][1][0] == 'prm':
            self.chk(eqv(st, src[1], w), st, fr, 'element order', 'source position k', line,
                     'source element %s is written as element %s' % (val_str(src[1]), val_str(w)))
        elif not (v and v[0] in ('prm', 'ld')):
            self.bad(st, fr, 'element order', 'source position k', line, 'what is written does not come from the caller (%s)' % val_str(v or FALSE))
        st.mem[WN] = add(w, n)

    def take(self, st, fr, reg, off, roff, n, line):
        r = st.read(RN)
        if reg[0] in ('v', 't') or reg[0] == 'g': return        # a local copy
        X = add(T, r)
        self.chk(self.stands(st, roff, X, T), st, fr, 'element order', 'read from tail+k', line,
                 'element %s is read from offset %s, not from index tail+%s' % (val_str(r), val_str(roff), val_str(r)))
        self.chk(st.facts.prove_ge0(sub(sub(N, r), n)), st, fr, 'element order', 'read from the stored part', line,
                 'an element that is not stored may be read')
        self.chk(eqv(st, off, r), st, fr, 'element order', 'target position k', line,
                 'element %s goes to target position %s' % (val_str(r), val_str(off)))
        st.mem[RN] = add(r, n)

    def on_call(self, st, fr, call):
        q, A = call.q, call.args
        rv = lambda i: models.rv(self.eng, st, fr, A[i])
        if q.rsplit('::', 1)[-1] in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove') and len(A) >= 3:
            d, s, n = rv(0), rv(1), rv(2)
        elif q == 'std::copy_n': s, n, d = rv(0), rv(1), rv(2)
        elif q == 'std::copy': s, n, d = rv(0), sub(rv(1), rv(0)), rv(2)
        else:
            if call.name == 'resize' and call.cls.startswith('plain::') and 'Ring' in call.cls: self.resized(st, fr, call)
            return
        sd, ss = split(d), split(s)
        if sd is None or ss is None: return
        flatp = lambda sp: (lambda r: (r[0], add(r[1], sp[1])))(flat(sp[0])) if sp[0][0] != 'ptr' else sp
        sd, ss = flatp(sd), flatp(ss)
        if eqv(st, n, FALSE): return
        self.masked(st, n, sd[1], ss[1])
        if sd[0] in (RING, RING2):
            self.chk(st.facts.prove_ge0(sub(sub(st.read(F('size_')), sd[1]), n)), st, fr, 'element order', 'segment inside the buffer', call.line,
                     'a copied segment may run past the end of the buffer')
            self.put(st, fr, sd[0], sd[1], ss, None, n, call.line)
        elif ss[0] in (RING, RING2):
            self.chk(st.facts.prove_ge0(sub(sub(st.read(F('size_')), ss[1]), n)), st, fr, 'element order', 'segment inside the buffer', call.line,
                     'a copied segment may run past the end of the buffer')
            self.take(st, fr, sd[0], sd[1], ss[1], n, call.line)

    def resized(self, st, fr, call):
        a = models.rv(self.eng, st, fr, call.args[0])
        st.mon['rarg'] = a
        if a == FALSE:
            self.chk(self.fn.name == 'clear', st, fr, 'capacity', 'content dropped', call.line, 'resize(0) drops the stored elements'); return
        self.chk(pow2(a), st, fr, 'capacity', 'power of two', call.line, 'the capacity requested, %s, is not a power of two times the old one' % val_str(a))
        if not mentions(a, lambda x: x and x[0] in ('phi', 'call', 'opq')):
            k, t = lin_parts(sub(a, N))
            enough = st.facts.prove_ge0(sub(a, N), 4) or st.facts.prove_ge0(sub(a, S), 4)
            self.chk(enough, st, fr, 'capacity', 'room for what is stored', call.line, 'the capacity requested, %s, may not hold the stored elements' % val_str(a))

    def on_ret(self, st, fr, call, v):
        if call.q in ('std::min', 'std::max') and not mentions(v, lambda x: x and x[0] == 'phi'): st.mon['cases'] = st.mon['cases'] | {(v, call.q)}
        if not (call.name == 'resize' and call.cls.startswith('plain::') and 'Ring' in call.cls) or fr.fn.name == 'resize': return
        s2 = ('opq', 'size') + self.eng.site(fr, call.nid); SYMW[s2] = 64
        st.mem[F('size_')] = s2; st.mem[F('mask_')] = sub(s2, c(1))
        st.mem[F('buffer_')] = ('addr', ('i', RING2, FALSE))
        st.mon['region'] = RING2
        st.facts = st.facts.assume(ge0(sub(s2, N))).assume(ge0(sub(s2, c(1))))
        st.mon['rs'] = (v, s2, st.mon['rarg'])

    def on_branch(self, st, fr, cond, taken, line, nid=None):
        rs = st.mon['rs']
        if rs and not mentions(cond, lambda x: x == rs[1]):
            t = st.facts.truth(truthy(rs[0]))
            if t is True and not mentions(rs[2], lambda x: x and x[0] in ('phi', 'opq', 'call')): st.mon['grown'] = True
            if t is True and rs[2] != FALSE: st.facts = st.facts.assume(eq0(sub(rs[1], rs[2]))) or st.facts
            elif t is False: st.facts = st.facts.assume(eq0(sub(rs[1], S))) or st.facts
            if t is not None: st.mon['rs'] = None
        if nid not in loop_conds(fr.fn) and not mentions(cond, lambda x: x and x[0] == 'phi'):
            st.mon['cases'] = st.mon['cases'] | {(cond, taken)}



class Caps(R):
    def on_read(self, st, fr, loc, v, line): pass
    def on_write(self, st, fr, loc, v, line, init): pass
    def on_branch(self, st, fr, cond, taken, line, nid=None): pass

    def on_call(self, st, fr, call):
        if call.name == 'resize' and call.cls.startswith('plain::') and 'Ring' in call.cls: self.resized(st, fr, call)

    def on_ret(self, st, fr, call, v):
        if call.name == 'resize' and call.cls.startswith('plain::') and 'Ring' in call.cls: st.facts = None or st.facts


def run(cx):
    p = cx.p
    rec = p.record(CLS)
    if rec is None or not {'head_', 'tail_', 'size_', 'mask_', 'buffer_'} <= {f['name'] for f in rec['fields']}:
        raise AnalysisError('ring members not found')
    fns = {}
    for f in p.all():
        if f.q.startswith('plain::Ring<std::byte>::') and f.blocks: fns.setdefault(f.name, []).append(f)
    for n in ('write', 'read', 'remove', 'insert', 'write_avail', 'read_avail', 'full', 'empty', 'size', 'clear', 'at', 'peek'):
        if n not in fns: raise AnalysisError('ring operation %s not found' % n)
    inl = lambda fn: fn.file.endswith('basic/ring.h') and fn.name != 'resize'
    pub = [f for fs in fns.values() for f in fs if f.acc == 0 and not f.ctor and not f.dtor]
    for fn in pub:
        ps = [('prm', x['name']) for x in fn.params]
        invs = [lambda st: ge0(sub(sub(st.read(F('size_')), N), st.read(WN))), lambda st: ge0(sub(N, st.read(RN))),
                lambda st: ge0(st.read(WN)), lambda st: ge0(st.read(RN))]
        for x in fn.params:
            if x['t'] in ('unsigned long', 'size_t', 'std::size_t'):
                invs.append(lambda st, s=('prm', x['name']): ge0(sub(s, st.read(WN))))
                invs.append(lambda st, s=('prm', x['name']): ge0(sub(s, st.read(RN))))
        r = R(cx)
        e = cx.engine([r], inline=inl, merge_at=400, invs=invs, max_steps=200000)
        e.seq_atomics = True
        outs = cx.run(e, fn)
        for st, rv, how in outs:
            if how != 'noret': judge(cx, r, fn, st, rv, ps)
        # the capacities asked for, iteration by iteration
        e = cx.engine([Caps(cx)], inline=inl, merge_at=400, unroll=3, max_steps=200000)
        e.seq_atomics = True
        if any(n and strip_t(n.get('q', '')) == CLS + '::resize' for n in fn.nodes): cx.run(e, fn)
    resize(cx, inl)


def judge(cx, r, fn, st, rv, ps):
    fr = Frame(fn, 0)
    nm = fn.name
    f = st.facts
    h, t, sz = st.read(F('head_')), st.read(F('tail_')), st.read(F('size_'))
    w, rd = st.read(WN), st.read(RN)
    chk = lambda ok, inst, msg: r.chk(ok, st, fr, 'accounting', inst, fn.line, msg + ' (reported %s, head %s, tail %s, copied %s/%s)' % (
        val_str(rv) if rv else '-', val_str(h), val_str(t), val_str(w), val_str(rd)))
    E = lambda a, b: eqv(st, a, b)
    G = lambda a: f.prove_ge0(a)
    same = E(h, H) and E(t, T)
    sig = '(%s)' % ','.join(p['t'].replace('unsigned long', 'size') for p in fn.params)
    if nm == 'write':
        n, full = ps[1], ps[2]
        avail = sub(sz, N)
        chk(E(w, rv), 'write reports what it copied', 'write reports a number it did not copy')
        chk(E(t, T) and E(h, add(H, w)), 'write stores what it copied', 'the elements stored are not those copied')
        whole = E(rv, n)
        none = E(rv, FALSE)
        if st.mon.get('grown'): chk(whole, 'write grows enough', 'the capacity asked for need not hold all that is written')
        if not whole:
            dem = f.truth(truthy(full))
            if dem is True: chk(none and G(sub(sub(n, avail), c(1))), 'write all or nothing', 'a write of all elements or none stores a part, or nothing though there is room')
            else: chk(E(rv, avail) and G(sub(n, avail)), 'write as many as fit', 'fewer elements than fit are written')
        else: r.cx.ok('accounting', short(fn) + ': write as many as fit')
    elif nm == 'read':
        n, ro = ps[1], ps[2]
        chk(E(rd, rv), 'read reports what it copied', 'read reports a number it did not copy')
        chk(E(rv, n) and G(sub(N, n)) or E(rv, N) and G(sub(n, N)), 'read as many as stored', 'fewer elements than stored are read')
        d = f.truth(truthy(ro))
        if d is None: chk(False, 'read only', 'the read-only request makes no difference')
        elif d: chk(same, 'read only', 'a read-only read changes what is stored')
        else: removed(chk, st, E, rv, h, t, 'read removes what it reports')
    elif nm == 'remove' and len(ps) == 1 and fn.params[0]['t'] in ('unsigned long',):
        n = ps[0]
        chk(E(rv, n) and G(sub(N, n)) or E(rv, N) and G(sub(n, N)), 'remove(count) as many as stored', 'not min(count, stored) is removed')
        removed(chk, st, E, rv, h, t, 'remove(count) removes what it reports')
    elif nm == 'remove':
        if rv == TRUE:
            chk(E(rd, TRUE), 'remove%s gives the oldest' % sig, 'success without an element')
            removed(chk, st, E, TRUE, h, t, 'remove%s takes one' % sig)
        elif rv == FALSE: chk(E(N, FALSE) and same and E(rd, FALSE), 'remove%s fails only when empty' % sig, 'a removal fails though something is stored')
        else: chk(False, 'remove%s' % sig, 'unclear result')
    elif nm == 'insert':
        if rv == TRUE: chk(E(w, TRUE) and E(h, add(H, TRUE)) and E(t, T), 'insert%s stores one' % sig, 'the inserted element is not stored')
        elif rv == FALSE: chk(same and E(sub(sz, N), FALSE), 'insert%s fails only when full' % sig, 'an insertion fails though there is room')
        else: chk(False, 'insert%s' % sig, 'unclear result')
    elif nm == 'can_insert':
        if rv == TRUE: chk(same and G(sub(sub(sz, N), c(1))), 'can_insert', 'an insertion is announced as possible without room')
        elif rv == FALSE: chk(same and E(sub(sz, N), FALSE), 'can_insert', 'an insertion is announced as impossible though there is room')
    elif nm == 'write_avail': chk(same and E(rv, sub(S, N)), nm, 'the free room is not capacity - stored')
    elif nm == 'read_avail': chk(same and E(rv, N), nm, 'the stored count is not head - tail')
    elif nm == 'size': chk(same and E(rv, S), nm, 'the capacity is not reported')
    elif nm in ('full', 'empty'):
        want = eq0(sub(S, N)) if nm == 'full' else eq0(N)
        chk(same and (truthy(rv) == want or cmp('==', truthy(rv), want) == TRUE), nm, 'reports %s' % val_str(rv))
    elif nm in ('clear', 'consumer_clear', 'producer_clear'): chk(E(h, t), nm, 'elements stay stored')
    elif nm in ('at', 'operator[]', 'peek'):
        idx = ps[0] if nm != 'peek' else FALSE
        chk(same, nm + ' changes nothing', 'an access changes what is stored')
        if rv is None: chk(False, nm, 'no result'); return
        loc = rv[1] if rv[0] in ('addr', 'lv') else None
        if loc is None:
            if nm == 'at': chk(G(sub(ps[0], N)), 'at gives nothing beyond the end', 'a stored element is not found')
            elif nm == 'peek': chk(G(sub(sub(ps[0], N), c(1))), 'peek gives nothing beyond the end', 'stored elements are not found')
            else: chk(False, nm, 'no element')
            return
        reg, off = flat(loc)
        chk(reg == RING and r.stands(st, off, add(T, idx), T), nm + ' gives element k', 'the element given is at offset %s' % val_str(off))
        if nm == 'at': chk(G(sub(sub(N, idx), c(1))), 'at gives stored elements only', 'an element that is not stored is given')
        if nm == 'peek': chk(G(sub(N, ps[0])), 'peek gives stored elements only', 'more elements are announced than stored')


def removed(chk, st, E, n, h, t, inst):
    left = sub(N, n)
    ok = E(t, add(T, n)) and E(h, H) or E(left, FALSE) and E(h, t)
    chk(ok, inst, 'the elements that remain are not those after the %s taken' % val_str(n))


class RS(R):
    """Inside the replacement of the buffer by one of another capacity."""

    def on_read(self, st, fr, loc, v, line): pass

    def on_write(self, st, fr, loc, v, line, init):
        reg, off = flat(loc)
        src = flat(v[1]) if v and v[0] == 'ld' else None
        if src is None or src[0] != RING: return
        self.move(st, fr, reg, off, src[1], c(1), line)

    def move(self, st, fr, reg, off, roff, n, line):
        k = st.read(WN)
        X = add(T, k)
        size = ('prm', self.fn.params[0]['name'])
        self.chk(self.stands(st, roff, X, T, S, sub(S, c(1))), st, fr, 'resize', 'old index', line,
                 'element %s is taken from offset %s of the old buffer' % (val_str(k), val_str(roff)))
        kept = self.stands(st, off, X, T, size, sub(size, c(1)))
        lin = eqv(st, off, k)
        self.chk(kept or lin, st, fr, 'resize', 'new index', line, 'element %s is put at offset %s of the new buffer' % (val_str(k), val_str(off)))
        how = st.mon.get('how')
        new = 'kept' if kept and not (lin and how == 'lin') else 'lin'
        st.mon['how'] = new if how in (None, new) else 'mixed'
        st.mon['to'] = reg
        st.mem[WN] = add(k, n)

    def put(self, st, fr, reg, off, src, v, n, line): pass

    def take(self, st, fr, reg, off, roff, n, line): self.move(st, fr, reg, off, roff, n, line)

    def on_branch(self, st, fr, cond, taken, line, nid=None): pass

    def on_ret(self, st, fr, call, v): pass

    def on_cont(self, st, fr, op, loc, args, call, **kw):
        if fields_of(loc)[:1] and fields_of(loc)[0].startswith('buffer_@') and loc[1] == TH and op in ('clear', 'resize', 'assign', 'shrink_to_fit', 'reserve', 'push_back'):
            if split(st.read(F('buffer_')))[0] != RING: st.mon['lost'] = True

    def on_swap(self, st, fr, a, b, line):
        st.mon['swapped'] = (a, b)

    def on_move(self, st, fr, src, dst, line):
        st.mon['swapped'] = (src, dst)


def resize(cx, inl):
    p = cx.p
    fs = [f for f in p.all() if f.scls == 'plain::DynamicRing' and f.name == 'resize' and f.blocks]
    if not fs: raise AnalysisError('no resize')
    own = F('buffer_@DynamicRing')
    for fn in fs[:1]:
        SZ = ('prm', fn.params[0]['name']); SYMW[SZ] = 64
        invs = [lambda st: ge0(sub(N, st.read(WN))), lambda st: ge0(st.read(WN))]
        r = RS(cx)
        e = cx.engine([r], inline=lambda f: f.file.endswith('basic/ring.h'), merge_at=200, unroll=2, invs=invs)
        e.seq_atomics = True
        for st, rv, how in cx.run(e, fn):
            if how != 'ret': continue
            fr = Frame(fn, 0)
            chk = lambda ok, inst, msg: r.chk(ok, st, fr, 'resize', inst, fn.line, msg)
            h, t, sz, mk, buf = (st.read(F(x)) for x in ('head_', 'tail_', 'size_', 'mask_', 'buffer_'))
            chk(eqv(st, mk, sub(sz, c(1))), 'mask', 'mask %s does not belong to capacity %s' % (val_str(mk), val_str(sz)))
            chk(not st.mon.get('lost'), 'storage', 'the storage changes after its address was taken')
            sp = flat(buf[1]) if buf[0] == 'addr' else None
            zero = st.facts.truth(eq0(SZ))
            if rv == FALSE:
                chk(eqv(st, sz, S) and sp and sp[0] == RING and eqv(st, h, H) and eqv(st, t, T), 'refusal', 'a refused resize changes the ring')
                continue
            sw = st.mon.get('swapped', ())
            chk(sp is not None and (sp[0] == own or sp[0] in sw and own in sw) and eqv(st, sp[1], FALSE), 'storage', 'the ring does not point to the storage it owns')
            if zero is True:
                chk(pow2(sz), 'capacity', 'capacity %s after a reset' % val_str(sz)); continue
            chk(eqv(st, sz, SZ), 'capacity', 'capacity %s, not the one requested' % val_str(sz))
            chk(eqv(st, st.read(WN), N), 'all elements', '%s of %s elements are kept' % (val_str(st.read(WN)), val_str(N)))
            hw = st.mon.get('how')
            keep = eqv(st, h, H) and eqv(st, t, T)
            chk(hw is None and eqv(st, sub(h, t), N) or hw == 'kept' and keep or hw == 'lin' and eqv(st, t, FALSE) and eqv(st, h, N), 'indices',
                'the indices (head %s, tail %s) do not fit where the elements were put' % (val_str(h), val_str(t)))
            if hw: chk(sp is not None and st.mon['to'] == sp[0], 'storage', 'the elements are put into another buffer than the one used from then on')
